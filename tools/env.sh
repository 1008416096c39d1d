# the Go toolchain, offline
export HOME=${HOME:-/root}
for d in /opt/veriftools/go1.27.3/bin /opt/veriftools/go/bin; do
	[ -x $d/go ] && { export PATH=$d:$PATH; break; }
done
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off GO111MODULE=on CGO_ENABLED=${CGO_ENABLED:-1}
unset GOOS GOARCH
