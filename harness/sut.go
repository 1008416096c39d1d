package main

// Starting, controlling and watching sinksmtp processes.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func itoa(n int) string { return strconv.Itoa(n) }

// Options are the command line options of a server. File arguments have
// fixed names relative to the server's working directory.
type Options struct {
	M          bool   `json:"M,omitempty"`
	NoStd      bool   `json:"nostdrules,omitempty"`
	D          bool   `json:"d,omitempty"`
	Force      bool   `json:"force,omitempty"`
	SaveHash   string `json:"save_hash,omitempty"`
	MsgLog     bool   `json:"l,omitempty"`
	SMTPLog    bool   `json:"smtplog,omitempty"`
	NRules     int    `json:"nrules,omitempty"` // -r r0,r1,...
	FromReject bool   `json:"fromreject,omitempty"`
	ToAccept   bool   `json:"toaccept,omitempty"`
	HeloReject bool   `json:"heloreject,omitempty"`
	DnCount    int    `json:"dncount,omitempty"`
	DnDur      int    `json:"dndur,omitempty"` // seconds
	DnLog      bool   `json:"dnlog,omitempty"`
	MinPhase   string `json:"minphase,omitempty"`
	Helo       string `json:"helo,omitempty"`
	Slow       bool   `json:"S,omitempty"`
	Cert       string `json:"cert,omitempty"` // certificate name, see certs.go
	ConnCfg    bool   `json:"conncfg,omitempty"`
	Pprof      bool   `json:"pprof,omitempty"`
	Hosts      bool   `json:"hosts,omitempty"` // use a hosts file
	Two        bool   `json:"two,omitempty"`   // listen on a second port
	PerIP      bool   `json:"statsperip,omitempty"`
}

func (o Options) key() string {
	b, _ := json.Marshal(o)
	return string(b)
}

const (
	fileFromReject = "fr.list"
	fileToAccept   = "ta.list"
	fileHeloReject = "hr.list"
	fileConnCfg    = "conn.cfg"
	dirSave        = "save"
	logSMTP        = "smtp.log"
	logMsg         = "msg.log"
	logDn          = "dn.log"
)

func ruleFileName(i int) string { return "r" + itoa(i) }

func (o Options) args() []string {
	var a []string
	add := func(s ...string) { a = append(a, s...) }
	if o.M {
		add("-M")
	}
	if o.NoStd {
		add("-nostdrules")
	}
	if o.D {
		add("-d", dirSave)
	}
	if o.Force || !o.D {
		add("-force-receive")
	}
	if o.SaveHash != "" {
		add("-save-hash", o.SaveHash)
	}
	if o.MsgLog {
		add("-l", logMsg)
	}
	if o.SMTPLog {
		add("-smtplog", logSMTP)
	}
	if o.NRules > 0 {
		var l []string
		for i := 0; i < o.NRules; i++ {
			l = append(l, ruleFileName(i))
		}
		add("-r", strings.Join(l, ","))
	}
	if o.FromReject {
		add("-fromreject", fileFromReject)
	}
	if o.ToAccept {
		add("-toaccept", fileToAccept)
	}
	if o.HeloReject {
		add("-heloreject", fileHeloReject)
	}
	if o.DnCount > 0 {
		add("-dncount", itoa(o.DnCount))
	}
	if o.DnDur > 0 {
		add("-dndur", itoa(o.DnDur)+"s")
	}
	if o.DnLog {
		add("-dnlog", logDn)
	}
	if o.MinPhase != "" {
		add("-minphase", o.MinPhase)
	}
	if o.Helo != "" {
		add("-helo", o.Helo)
	}
	if o.Slow {
		add("-S")
	}
	if o.Cert != "" {
		add("-c", certPath(o.Cert), "-k", keyPath(o.Cert))
	}
	if o.ConnCfg {
		add("-conncfg", fileConnCfg)
	}
	if o.PerIP {
		add("-statsperip")
	}
	return a
}

// Server is a running sinksmtp.
type Server struct {
	Opt   Options
	Dir   string
	Port  int
	Pprof int
	Pid   int
	// Offset is how far its clock is ahead
	Offset  time.Duration
	started time.Time
	Port2   int // a second one, or Port
	Conns   int // connections made so far, the probe included
	V6      bool

	env  *Env
	cmd  *exec.Cmd
	done chan struct{} // closed when the process is gone
	werr error
	ctl  net.Conn
	ctlr *bufio.Reader
	mu   sync.Mutex

	past []*Case // cases run on this server so far
	last string  // its standard error, once its directory is gone
	used int
}

// Env is what a shard process works with.
type Env struct {
	Prop     *Prop  // the property being checked
	Work     string // scratch directory
	Bin      string
	RaceBin  string
	DNS      *dnsServer
	HaveV6   bool
	Shard    int
	port     int // the last one used, relative to portBase
	portBase int
	portLock net.Listener
	nsrv     int
	pool     map[string]*Server
	order    []string
	// lastPast is the history of the server last discarded for a mismatch.
	raceAlso bool // use the race-detecting build
	lastPast []*Case
	// lateCase is the case after which a server was found dead
	lateCase *Case
}

// sutProcs is GOMAXPROCS for the servers.
var sutProcs = 2

func newEnv(work, bin, raceBin string, shard int) (*Env, error) {
	d, err := newDNS()
	if err != nil {
		return nil, err
	}
	e := &Env{Work: work, Bin: bin, RaceBin: raceBin, DNS: d, Shard: shard, pool: map[string]*Server{}}
	if err := e.claimPorts(); err != nil {
		return nil, err
	}
	if l, err := net.Listen("tcp6", "[::1]:0"); err == nil {
		e.HaveV6 = true
		l.Close()
	}
	return e, nil
}

// Infra is an error of the harness or the sandbox, never of the code under
// test.
type Infra struct{ msg string }

func (i Infra) Error() string { return "harness: " + i.msg }

func infraf(f string, a ...any) error { return Infra{fmt.Sprintf(f, a...)} }

const portBlock = 200

// claimPorts takes a block of ports that no other shard, of this run or of
// another one on the same machine, uses: whoever holds the abstract socket
// named after the block holds the block.
func (e *Env) claimPorts() error {
	const nblocks = (32000 - 10000) / portBlock
	for i := 0; i < nblocks; i++ {
		b := (e.Shard + i) % nblocks
		l, err := net.Listen("unix", fmt.Sprintf("@verif-sinksmtp-ports-%d", b))
		if err == nil {
			e.portLock = l
			e.portBase = 10000 + b*portBlock
			return nil
		}
	}
	return infraf("no free block of ports")
}

func (e *Env) nextPort() int {
	for i := 0; ; i++ {
		e.port = (e.port + 1) % portBlock
		p := e.portBase + e.port
		if i >= 2*portBlock {
			return p
		}
		// skip what somebody else on this machine happens to use
		l, err := net.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", p))
		if err != nil {
			continue
		}
		l.Close()
		return p
	}
}

func tail(b []byte, n int) []byte {
	if len(b) > n {
		return b[len(b)-n:]
	}
	return b
}

var errStartFailed = errors.New("server did not start")

// Start starts a fresh server. All its files start out empty or missing.
func (e *Env) Start(o Options) (*Server, error) {
	var last error
	for try := 0; try < 20; try++ {
		s, err := e.start1(o)
		if err == nil {
			return s, nil
		}
		last = err
		if !strings.Contains(err.Error(), "address already in use") {
			return nil, err
		}
	}
	return nil, last
}

func (e *Env) start1(o Options) (*Server, error) {
	e.nsrv++
	dir := filepath.Join(e.Work, fmt.Sprintf("s%d", e.nsrv))
	if err := os.MkdirAll(filepath.Join(dir, dirSave), 0o755); err != nil {
		return nil, infraf("%v", err)
	}
	for i := 0; i < o.NRules; i++ {
		if err := os.WriteFile(filepath.Join(dir, ruleFileName(i)), nil, 0o644); err != nil {
			return nil, infraf("%v", err)
		}
	}
	if o.ConnCfg {
		if err := os.WriteFile(filepath.Join(dir, fileConnCfg), nil, 0o644); err != nil {
			return nil, infraf("%v", err)
		}
	}
	hosts := filepath.Join(dir, "hosts")
	if o.Hosts {
		if err := os.WriteFile(hosts, []byte(hostsText), 0o644); err != nil {
			return nil, infraf("%v", err)
		}
	}
	s := &Server{Opt: o, Dir: dir, env: e, V6: e.HaveV6}
	if err := s.launch(); err != nil {
		return nil, err
	}
	return s, nil
}

// launch starts the process in the server's directory.
func (s *Server) launch() error {
	e, o, dir := s.env, s.Opt, s.Dir
	hosts := filepath.Join(dir, "hosts")
	s.done, s.Conns = make(chan struct{}), 0
	s.Offset = 0
	s.ctl, s.ctlr = nil, nil
	s.Port = e.nextPort()
	args := o.args()
	if o.Pprof {
		s.Pprof = e.nextPort()
		args = append(args, "-pprof", fmt.Sprintf("127.0.0.1:%d", s.Pprof))
	}
	args = append(args, fmt.Sprintf("0.0.0.0:%d", s.Port))
	s.Port2 = s.Port
	if o.Two {
		s.Port2 = e.nextPort()
		args = append(args, fmt.Sprintf("0.0.0.0:%d", s.Port2))
	}
	s.started = time.Now()
	// (a wildcard listener serves ::1 as well)
	bin := e.Bin
	if e.raceAlso {
		bin = e.RaceBin
	}
	sock := filepath.Join(dir, "ctl")
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "TZ=UTC", "VERIF_DNS=" + e.DNS.addr(), "VERIF_CTL=" + sock,
		"VERIF_HOSTS=" + hosts, "SSL_CERT_FILE=" + certPath("ca"), "SSL_CERT_DIR=/nonexistent",
		"GORACE=halt_on_error=1 exitcode=66 history_size=3", "GOMAXPROCS=" + itoa(sutProcs)}
	_ = os.Remove(sock)
	so, err := os.Create(filepath.Join(dir, "stdout"))
	if err != nil {
		return infraf("%v", err)
	}
	se, err := os.OpenFile(filepath.Join(dir, "stderr"), os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0o644)
	if err != nil {
		return infraf("%v", err)
	}
	cmd.Stdout, cmd.Stderr = so, se
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return infraf("%v", err)
	}
	so.Close()
	se.Close()
	s.cmd, s.Pid = cmd, cmd.Process.Pid
	go func() {
		s.werr = cmd.Wait()
		close(s.done)
	}()
	// Wait until it serves: make one connection from an address no case
	// uses, and see its banner.
	deadline := time.Now().Add(30 * time.Second)
	for {
		select {
		case <-s.done:
			b := s.Stderr()
			s.Kill()
			return fmt.Errorf("%w: %v: %s", errStartFailed, s.werr, tail([]byte(b), 2000))
		default:
		}
		c, err := dial("127.255.255.254", "127.0.0.1", s.Port)
		if err == nil {
			s.Conns++
			r := c.read(30 * time.Second)
			c.halfClose()
			c.drain(10 * time.Second)
			c.close()
			if r.EOF {
				select {
				case <-s.done:
				case <-time.After(time.Second):
				}
				b := s.Stderr()
				s.Kill()
				return fmt.Errorf("%w: no banner for its first connection: %s", errStartFailed, tail([]byte(b), 2000))
			}
			if r.Err != nil {
				s.Kill()
				return infraf("no banner from fresh server: %v", r.Err)
			}
			break
		}
		if time.Now().After(deadline) {
			b := s.Stderr()
			s.Kill()
			return infraf("server does not listen: %s", tail([]byte(b), 2000))
		}
		time.Sleep(time.Millisecond)
	}
	return nil
}

// Get returns a pooled server for the options.
func (e *Env) Get(o Options) (srv, dead *Server, err error) {
	k := o.key()
	if s := e.pool[k]; s != nil {
		if s.Alive() && s.used < 150 {
			s.used++
			return s, nil, nil
		}
		if !s.Alive() {
			s.last = s.Stderr()
			e.drop(k)
			return nil, s, nil
		}
		e.drop(k)
	}
	if len(e.order) >= 10 {
		e.drop(e.order[0])
	}
	s, err := e.Start(o)
	if err != nil {
		return nil, nil, err
	}
	s.used = 1
	e.pool[k] = s
	e.order = append(e.order, k)
	return s, nil, nil
}

func (e *Env) drop(k string) {
	if s := e.pool[k]; s != nil {
		s.Kill()
	}
	delete(e.pool, k)
	for i, x := range e.order {
		if x == k {
			e.order = append(e.order[:i:i], e.order[i+1:]...)
			break
		}
	}
}

// Discard kills a server and forgets it.
func (e *Env) Discard(s *Server) {
	for k, p := range e.pool {
		if p == s {
			e.drop(k)
			return
		}
	}
	s.Kill()
}

func (e *Env) Close() {
	for len(e.order) > 0 {
		e.drop(e.order[0])
	}
}

// Alive says whether the process runs.
func (s *Server) Alive() bool {
	select {
	case <-s.done:
		return false
	default:
		return true
	}
}

// Kill kills the server and removes its directory.
func (s *Server) Kill() {
	s.Stop()
	if os.Getenv("VERIF_KEEP") == "" {
		_ = os.RemoveAll(s.Dir)
	}
}

// Stop kills the server, leaving its files.
func (s *Server) Stop() {
	if s.ctl != nil {
		s.ctl.Close()
	}
	if s.Alive() {
		_ = s.cmd.Process.Kill()
		<-s.done
	}
}

func (s *Server) Stderr() string {
	if s.last != "" {
		return s.last
	}
	b, _ := os.ReadFile(filepath.Join(s.Dir, "stderr"))
	return string(b)
}

// now is the time by the server's clock.
func (s *Server) now() time.Time { return time.Now().Add(s.Offset) }

func (s *Server) path(name string) string { return filepath.Join(s.Dir, name) }

func (s *Server) prefix(cid int) string { return fmt.Sprintf("%d/%d", s.Pid, cid) }

// Ctl sends one control command and returns the answer line.
func (s *Server) Ctl(fields ...string) (string, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for try := 0; ; try++ {
		if s.ctl == nil {
			c, err := net.DialTimeout("unix", filepath.Join(s.Dir, "ctl"), 10*time.Second)
			if err != nil {
				return "", infraf("control socket: %v", err)
			}
			s.ctl, s.ctlr = c, bufio.NewReaderSize(c, 1<<20)
		}
		_ = s.ctl.SetDeadline(time.Now().Add(20 * time.Second))
		_, err := s.ctl.Write([]byte(strings.Join(fields, "\t") + "\n"))
		if err == nil {
			var l string
			if l, err = s.ctlr.ReadString('\n'); err == nil {
				return strings.TrimSuffix(l, "\n"), nil
			}
		}
		s.ctl.Close()
		s.ctl = nil
		if try > 0 || !s.Alive() {
			return "", infraf("control socket: %v", err)
		}
	}
}

// Vars fetches /debug/vars.
func (s *Server) Vars() (map[string]any, error) {
	cl := http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
	var last error
	for i := 0; i < 50; i++ {
		r, err := cl.Get(fmt.Sprintf("http://127.0.0.1:%d/debug/vars", s.Pprof))
		if err != nil {
			last = err
			time.Sleep(5 * time.Millisecond)
			continue
		}
		b, err := io.ReadAll(r.Body)
		r.Body.Close()
		if err != nil {
			return nil, infraf("vars: %v", err)
		}
		var m map[string]any
		if err := json.Unmarshal(bytes.TrimSpace(b), &m); err != nil {
			return nil, infraf("vars: %v", err)
		}
		v, _ := m["sinksmtp"].(map[string]any)
		return v, nil
	}
	return nil, infraf("vars: %v", last)
}
