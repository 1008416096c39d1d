#!/usr/bin/env python3
"""Generate the build overlay for the system under test.

usage: mkoverlay.py REPO OUTDIR

Writes OUTDIR/overlay.json plus patched copies of a few standard-library
files (time/time.go, os/file.go, os/file_posix.go, os/file_unix.go,
net/hook_unix.go, sync/mutex.go, expvar/expvar.go) and adds
one file to the sinksmtp package. The sources in REPO and GOROOT are left alone.

 time: Now/Since/Until go through an adjustable offset, so the harness can
       move the server's clock forward without waiting.
 sync, expvar: Mutex.Lock and Unlock and Int.Value call a hook, so that the harness can
       have goroutines give way there.
 net:  the hosts file is taken from $VERIF_HOSTS when set.
 os:   OpenFile/Write/Sync/Close/Link/Rename consult hook variables, so the harness can
       inject file-system faults and see which files were flushed when.
"""
import json, os, subprocess, sys

repo, out = os.path.abspath(sys.argv[1]), os.path.abspath(sys.argv[2])
here = os.path.dirname(os.path.abspath(__file__))
goroot = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()
os.makedirs(out, exist_ok=True)
rep = {}


def put(target, name, text):
    p = os.path.join(out, name)
    try:
        if open(p).read() == text:
            rep[target] = p
            return
    except OSError:
        pass
    with open(p, "w") as f:
        f.write(text)
    rep[target] = p


def patch(path, subs):
    s = open(path).read()
    for a, b in subs:
        if s.count(a) != 1:
            sys.exit("mkoverlay: pattern not found exactly once in %s: %r (%d)" % (path, a, s.count(a)))
        s = s.replace(a, b)
    return s


t = os.path.join(goroot, "src/time/time.go")
put(t, "time.go.txt", patch(t, [
    ("return subMono(runtimeNano()-startNano, t.ext)",
     "return subMono(runtimeNano()+VerifOffset.Load()-startNano, t.ext)"),
    ("return subMono(t.ext, runtimeNano()-startNano)",
     "return subMono(t.ext, runtimeNano()+VerifOffset.Load()-startNano)"),
    ("\tsec, nsec, mono := runtimeNow()\n\tif mono == 0 {\n\t\treturn Time{uint64(nsec), sec + unixToInternal, Local}\n\t}\n\tmono -= startNano\n",
     "\tsec, nsec, mono := runtimeNow()\n\tvoff := VerifOffset.Load()\n\tmono += voff\n\tsec += voff / 1e9\n\tmono -= startNano\n"),
]))
put(os.path.join(goroot, "src/time/zz_verif.go"), "time_zz.go.txt",
    "package time\n\nimport \"sync/atomic\"\n\n// VerifOffset is added to the clock (whole seconds, in ns).\nvar VerifOffset atomic.Int64\n")

f = os.path.join(goroot, "src/os/file.go")
put(f, "file.go.txt", patch(f, [
    ("func (f *File) Write(b []byte) (n int, err error) {\n\tif err := f.checkValid(\"write\"); err != nil {\n\t\treturn 0, err\n\t}\n",
     "func (f *File) Write(b []byte) (n int, err error) {\n\tif err := f.checkValid(\"write\"); err != nil {\n\t\treturn 0, err\n\t}\n"
     "\tif VerifWrite != nil {\n\t\tif k, verr := VerifWrite(f.name, len(b)); verr != nil {\n\t\t\tif k > 0 {\n\t\t\t\tk, _ = f.write(b[:k])\n\t\t\t}\n\t\t\tif VerifDie != nil {\n\t\t\t\tVerifDie(verr)\n\t\t\t}\n\t\t\treturn k, &PathError{Op: \"write\", Path: f.name, Err: verr}\n\t\t}\n\t}\n"),
    ("\ttestlog.Open(name)\n\tf, err := openFileNolog(name, flag, perm)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tf.appendMode",
     "\ttestlog.Open(name)\n\tif VerifOpen != nil {\n\t\tif verr := VerifOpen(name, flag); verr != nil {\n\t\t\treturn nil, &PathError{Op: \"open\", Path: name, Err: verr}\n\t\t}\n\t}\n\tf, err := openFileNolog(name, flag, perm)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tf.appendMode"),
]))
f = os.path.join(goroot, "src/os/file_posix.go")
put(f, "file_posix.go.txt", patch(f, [
    ("\treturn f.file.close()\n",
     "\tif VerifClose != nil && f.file != nil {\n\t\tif verr := VerifClose(f.name); verr != nil {\n\t\t\t_ = f.file.close()\n\t\t\treturn &PathError{Op: \"close\", Path: f.name, Err: verr}\n\t\t}\n\t}\n\treturn f.file.close()\n"),
    ("\tif e := f.pfd.Fsync(); e != nil {\n",
     "\tif VerifSync != nil {\n\t\tif verr := VerifSync(f.name); verr != nil {\n\t\t\treturn f.wrapErr(\"sync\", verr)\n\t\t}\n\t}\n\tif e := f.pfd.Fsync(); e != nil {\n"),
]))
f = os.path.join(goroot, "src/os/file_unix.go")
put(f, "file_unix.go.txt", patch(f, [
    ("func Link(oldname, newname string) error {\n",
     "func Link(oldname, newname string) error {\n\tif VerifLink != nil {\n\t\tif verr := VerifLink(newname); verr != nil {\n\t\t\treturn &LinkError{\"link\", oldname, newname, verr}\n\t\t}\n\t}\n"),
    ("func rename(oldname, newname string) error {\n",
     "func rename(oldname, newname string) error {\n\tif VerifLink != nil {\n\t\tif verr := VerifLink(newname); verr != nil {\n\t\t\treturn &LinkError{\"rename\", oldname, newname, verr}\n\t\t}\n\t}\n"),
]))
put(os.path.join(goroot, "src/os/zz_verif.go"), "os_zz.go.txt",
    "package os\n\n// Hooks for the verification harness; nil means no hook.\nvar (\n"
    "\tVerifOpen  func(name string, flag int) error\n"
    "\tVerifWrite func(name string, n int) (int, error)\n"
    "\tVerifSync  func(name string) error\n"
    "\tVerifDie   func(err error)\n"
    "\tVerifLink  func(name string) error\n"
    "\tVerifClose func(name string) error\n)\n")

m = os.path.join(goroot, "src/sync/mutex.go")
put(m, "mutex.go.txt", patch(m, [
    ("\tm.mu.Unlock()\n", "\tm.mu.Unlock()\n\tif VerifYield != nil {\n\t\tVerifYield()\n\t}\n"),
    ("\tm.mu.Lock()\n", "\tif VerifYield != nil {\n\t\tVerifYield()\n\t}\n\tm.mu.Lock()\n"),
]))
put(os.path.join(goroot, "src/sync/zz_verif.go"), "sync_zz.go.txt",
    "package sync\n\n// VerifYield, when set, may let other goroutines run.\nvar VerifYield func()\n")
m = os.path.join(goroot, "src/sync/pool.go")
# unlocked while pinned to a processor, where nothing may give way
put(m, "pool.go.txt", patch(m, [("\tallPoolsMu.Lock()\n\tdefer allPoolsMu.Unlock()\n", "\tallPoolsMu.mu.Lock()\n\tdefer allPoolsMu.mu.Unlock()\n")]))
e = os.path.join(goroot, "src/expvar/expvar.go")
put(e, "expvar.go.txt", patch(e, [
    ("func (v *Int) Value() int64 {\n\treturn v.i.Load()\n", "func (v *Int) Value() int64 {\n\tn := v.i.Load()\n\tif sync.VerifYield != nil {\n\t\tsync.VerifYield()\n\t}\n\treturn n\n"),
]))

h = os.path.join(goroot, "src/net/hook_unix.go")
put(h, "hook_unix.go.txt", patch(h, [('hostsFilePath = "/etc/hosts"', 'hostsFilePath = verifHosts()')]))
put(os.path.join(goroot, "src/net/zz_verif.go"), "net_zz.go.txt",
    "package net\n\nimport \"syscall\"\n\n// verifHosts lets the harness supply the hosts file.\n"
    "func verifHosts() string {\n\tif v, ok := syscall.Getenv(\"VERIF_HOSTS\"); ok {\n\t\treturn v\n\t}\n\treturn \"/etc/hosts\"\n}\n")

rep[os.path.join(repo, "zz_verif_ctl.go")] = os.path.join(here, "zz_verif_ctl.go.txt")
for extra in sys.argv[3:]:
    dst, src = extra.split("=", 1)
    rep[os.path.join(repo, dst)] = os.path.abspath(src)
with open(os.path.join(out, "overlay.json"), "w") as fp:
    json.dump({"Replace": rep}, fp, indent=1)
