package main

// Operations beyond plain sessions: file faults and kills, sessions in
// parallel, arbitrary bytes, leak checks.

import (
	"crypto/tls"
	"errors"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

func (r *runner) moreOps(o *Op) error {
	switch o.Kind {
	case "fault":
		for _, p := range []string{o.Name + "/", "./" + o.Name + "/"} {
			if _, err := r.srv.Ctl("fault", o.Point, p, itoa(o.Errno), itoa(o.N), itoa(max(1, o.Times))); err != nil {
				return err
			}
		}
		r.armed = true
		r.armedKill = r.armedKill || o.Errno == 0
		return nil
	case "kill":
		return r.kill()
	case "par":
		return r.par(o)
	case "fuzz":
		return r.fuzz(o)
	case "fds":
		return r.exhaust(o)
	case "file":
		// a file the model does not look at
		return r.writeFile(o.Name, o.Text, o.Bad)
	case "leaks":
		return r.leaks()
	case "probe":
		return r.probe(o)
	case "spoil":
		type file struct{ d, n string }
		var l []file
		for d := range r.saved {
			for n := range r.saved[d] {
				l = append(l, file{d, n})
			}
		}
		if len(l) == 0 {
			return nil
		}
		sort.Slice(l, func(i, j int) bool { return l[i].d+"/"+l[i].n < l[j].d+"/"+l[j].n })
		f := l[o.N%len(l)]
		return r.alienFile(f.d, f.n, o.Text)
	case "plant":
		n := sha(bytesOf(o.Bad))
		if _, ok := r.saved[o.Name][n]; ok || r.hashType() != "msg" {
			return nil
		}
		return r.alienFile(o.Name, n, o.Text)
	}
	panic("bad op " + o.Kind)
}

// alienFile puts something else where a saved message is or would go.
func (r *runner) alienFile(d, n, text string) error {
	if r.saved[d] == nil {
		return nil
	}
	if r.alien == nil {
		r.alien = map[string]bool{}
	}
	r.alien[d+"/"+n] = true
	r.saved[d][n] = text
	return r.writeFile(d+"/"+n, text, "")
}

// ---- faults and kills

func (r *runner) disarm() (bool, error) {
	r.armed, r.armedKill = false, false
	a, err := r.srv.Ctl("clearfaults")
	return a != "0" && a != "", err
}

func (s *Server) waitDead(d time.Duration) bool {
	select {
	case <-s.done:
		return true
	case <-time.After(d):
		return false
	}
}

func anyFailed(l *liveSess) bool {
	for _, m := range l.msgs {
		if m.failed {
			return true
		}
	}
	return false
}

func (r *runner) keepLeftover(d, n, c string) {
	if r.leftover == nil {
		r.leftover = map[string]map[string]string{}
	}
	if r.leftover[d] == nil {
		r.leftover[d] = map[string]string{}
	}
	r.leftover[d][n] = c
}

// completeAs: a file left by an earlier attempt is complete and is what
// saving m again must share.
func (r *runner) completeAs(c string, l *liveSess, m *sentMsg) bool {
	switch r.hashType() {
	case "msg":
		return strings.HasPrefix(c, "id ") && strings.HasSuffix(c, "\nbody\n"+m.m.Data)
	case "full":
		_, rest, _ := strings.Cut(c, "\n")
		return strings.HasPrefix(c, "id ") && l.matchRest(rest, m) == ""
	}
	return false
}

// flushed: some file in directory d was flushed when it had n bytes.
func (m *sentMsg) flushed(d string, n int) bool {
	for _, s := range m.syncs {
		f := strings.Split(s, "\t")
		if len(f) == 2 && f[1] == itoa(n) && strings.HasPrefix(strings.TrimPrefix(f[0], "./"), d+"/") {
			return true
		}
	}
	return false
}

// died: the server killed itself at an injected point, while saving.
func (r *runner) died() error {
	r.st.class("died while saving")
	return r.revive()
}

// kill kills the server from outside.
func (r *runner) kill() error {
	if !r.srv.Alive() {
		return r.checkCrash()
	}
	_ = r.srv.cmd.Process.Kill()
	<-r.srv.done
	r.st.class("killed")
	return r.revive()
}

// revive checks what a dead server left on disk and restarts it.
func (r *runner) revive() error {
	var ids []int
	for n := range r.live {
		ids = append(ids, n)
	}
	// Sessions under way: what was answered must be there.
	all := map[int]*liveSess{}
	for _, n := range ids {
		all[n] = r.live[n]
	}
	if r.cur != nil {
		all[-1] = r.cur
	}
	for _, l := range all {
		l.closed = true
		l.m.ended = true
		l.m.state = "gone"
		l.c.close()
	}
	// Anything not known by now may be there; it is not an acknowledged
	// message's file unless checked below.
	now, err := r.listDirs()
	if err != nil {
		return err
	}
	r.live = map[int]*liveSess{}
	for d := range now {
		for n, c := range now[d] {
			if _, ok := r.saved[d][n]; !ok {
				r.keepLeftover(d, n, c)
			}
		}
	}
	for _, l := range all {
		if err := r.checkSaved(l); err != nil || len(r.mism) > 0 {
			return err
		}
	}
	for d, old := range r.saved {
		for n, c := range old {
			if now[d][n] != c {
				r.add(mism("save", "file %s/%s of an acknowledged message was changed or lost", d, n))
				return nil
			}
		}
	}
	r.armed, r.armedKill = false, false
	r.srv.Stop()
	for try := 0; ; try++ {
		if err = r.srv.launch(); err == nil {
			break
		}
		if try > 10 || !strings.Contains(err.Error(), "address already in use") {
			if errors.Is(err, errStartFailed) && !environment(err) {
				r.add(mism("start", "it does not start again: %v", err))
				return nil
			}
			return err
		}
	}
	r.model.yak, r.model.notls = ttlMap{}, ttlMap{}
	r.msgLines, r.errText = nil, ""
	size := func(n string) int64 {
		if s, err := os.Stat(r.srv.path(n)); err == nil {
			return s.Size()
		}
		return 0
	}
	r.smtpOff, r.msgOff, r.errOff = size(logSMTP), size(logMsg), size("stderr")
	r.dnOff = size(logDn)
	return nil
}

// ---- sessions in parallel

// blind goes through a session without judging it, recording every reply.
func (c *Client) blind(spec *Sess) {
	rec := func(rp Reply) bool {
		c.recs = append(c.recs, rp)
		return !rp.EOF && rp.Err == nil
	}
	end := func() {
		c.halfClose()
		c.undrained = !c.drain(replyTimeout)
		_ = c.nc.Close()
	}
	if !rec(c.read(replyTimeout)) {
		end()
		return
	}
	var queue []Step
	for _, s := range spec.Steps {
		if s.Kind == "close" {
			break
		}
		if s.Kind == "tick" || s.Kind == "vars" {
			continue
		}
		queue = append(queue, s)
		if s.pipable() && len(queue) < 10 {
			continue
		}
		q := queue
		queue = nil
		var out strings.Builder
		for i := range q {
			out.WriteString(q[i].line() + "\r\n")
		}
		_ = c.writeRaw(out.String())
		for i := range q {
			rp := c.read(replyTimeout)
			if !rec(rp) {
				end()
				return
			}
			switch {
			case q[i].Kind == "data" && rp.Code == 354:
				wire, cut := q[i].wire()
				_ = c.writeRaw(wire)
				if cut {
					end()
					return
				}
				if !rec(c.read(replyTimeout)) {
					end()
					return
				}
			case q[i].Kind == "starttls" && rp.Code == 220 && q[i].Mode == "garbage":
				_ = c.writeRaw("GET / HTTP/1.0\r\n\r\n")
				end()
				return
			case q[i].Kind == "starttls" && rp.Code == 220:
				h := &hsRec{}
				cfg := clientTLS(&q[i], &h.asked)
				h.st, h.err = c.startTLS(cfg, replyTimeout)
				c.hs = h
				if h.err != nil {
					end()
					return
				}
				if !rec(c.cmd("NOOP", replyTimeout)) {
					end()
					return
				}
			case q[i].Kind == "quit":
				end()
				return
			}
		}
	}
	end()
}

func (s *Step) pipable() bool {
	return s.Pipe && (s.Kind == "mail" || s.Kind == "rcpt" || s.Kind == "rset" || s.Kind == "noop" || s.Kind == "raw")
}

// wire is what a data step sends after the 354, and whether it stops short.
func (s *Step) wire() (string, bool) {
	w := dotStuff(s.data())
	if s.Cut > 0 {
		n := s.Cut
		if n >= len(w)-3 {
			n = len(w) - 4
		}
		if n < 0 {
			n = 0
		}
		return w[:n], true
	}
	return w, false
}

func (s *Step) data() string {
	data := bytesOf(s.Body)
	if data != "" && !strings.HasSuffix(data, "\n") {
		data += "\n"
	}
	return data
}

func clientTLS(s *Step, asked *bool) *tls.Config {
	cfg := &tls.Config{InsecureSkipVerify: true, ServerName: s.SNI, MinVersion: tls.VersionTLS12}
	if s.TLS12 {
		cfg.MaxVersion = tls.VersionTLS12
		if s.Suite != 0 {
			cfg.CipherSuites = []uint16{uint16(s.Suite)}
		}
	}
	cc := s.CCert
	cfg.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) {
		*asked = true
		if cc != "" {
			c, err := loadPair(cc)
			if err != nil {
				return nil, err
			}
			return &c, nil
		}
		return &tls.Certificate{}, nil
	}
	return cfg
}

var remoteRe = regexp.MustCompile(`(?m)^(\d+)/(\d+)# remote (\S+) `)

// par runs sessions at the same time and judges each of them afterwards as
// if it had run alone, under one of the rule sets that were there. It needs
// an SMTP log, to learn the connections' ids.
func (r *runner) par(o *Op) error {
	r.strict = true
	defer func() { r.strict = false }()
	if r.tooSlow() {
		return errSlow
	}
	cls := make([]*Client, len(o.Par))
	errs := make([]error, len(o.Par))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range o.Par {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			c, err := dial(o.Par[i].Src, o.Par[i].Dst, r.port(&o.Par[i]))
			if err != nil {
				errs[i] = err
				return
			}
			cls[i] = c
			c.blind(&o.Par[i])
		}()
	}
	t0 := r.srv.now()
	if r.c.Opt.Pprof {
		// look at the statistics meanwhile
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := 0; i < 3; i++ {
				_, _ = r.srv.Vars()
			}
		}()
	}
	if o.Yield > 0 {
		if _, err := r.srv.Ctl("yield", itoa(o.Yield)); err != nil {
			return err
		}
	}
	old := r.model.rules
	alts := []map[string]*RuleFile{old}
	var werr error
	close(start)
	if o.Rules != nil {
		// sessions may be judged twice over
		r.noCount = true
		time.Sleep(time.Duration(o.N) * 100 * time.Microsecond)
		n := map[string]*RuleFile{}
		for k, v := range old {
			n[k] = v
		}
		n[o.Rules.Name] = o.Rules
		alts = append(alts, n)
		werr = r.writeFile(o.Rules.Name, o.Rules.Text, o.Rules.Bad2())
	}
	wg.Wait()
	if o.Yield > 0 && r.srv.Alive() {
		_, _ = r.srv.Ctl("yield", "0")
	}
	if werr != nil {
		return werr
	}
	for i, err := range errs {
		if err != nil {
			if !r.srv.Alive() {
				r.add(r.srv.crash())
				return nil
			}
			return infraf("dial %s: %v", o.Par[i].Src, err)
		}
	}
	if !r.srv.Alive() {
		r.add(r.srv.crash())
		return nil
	}
	for i := range cls {
		for j := range cls[:i] {
			if cls[i].Raddr == cls[j].Raddr {
				// one after the other, from the same port: not to be told apart
				return errSlow
			}
		}
	}
	r.st.class("parallel sessions")
	if r.c.Opt.MsgLog {
		if err := r.readMsgLog(); err != nil || len(r.mism) > 0 {
			return err
		}
	}
	// which connection was which?
	s, err := r.readFrom(logSMTP, &r.smtpOff)
	if err != nil {
		return err
	}
	r.smtpOff -= int64(len(s))
	ids := map[string]string{}
	seen := map[string]bool{}
	for _, m := range remoteRe.FindAllStringSubmatch(s, -1) {
		p := m[1] + "/" + m[2]
		if seen[p] {
			r.add(mism("smtplog", "the id %s is given to two connections", p))
			return nil
		}
		seen[p] = true
		ids[m[3]] = p
	}
	lo, hi := r.srv.Conns+1, r.srv.Conns+len(o.Par)
	r.srv.Conns = hi
	for i := lo; i <= hi; i++ {
		r.known[r.srv.prefix(i)] = true
	}
	ls := make([]*liveSess, len(o.Par))
	for i := range o.Par {
		p := ids[cls[i].Raddr]
		if p == "" {
			r.add(mism("smtplog", "no line of the SMTP log names the client %s", cls[i].Raddr))
			return nil
		}
		if !r.known[p] {
			r.add(mism("smtplog", "the connection of %s got the id %s, must be one of %s to %s", cls[i].Raddr, p, r.srv.prefix(lo), r.srv.prefix(hi)))
			return nil
		}
		ls[i] = &liveSess{spec: o.Par[i], prefix: p, opened: t0}
		r.live[1000+i] = ls[i]
	}
	for i := range o.Par {
		var first []*Mismatch
		good := false
		for _, a := range alts {
			snapSaved, snapMsg := r.saved, append([]string{}, r.msgLines...)
			r.saved = map[string]map[string]string{}
			for d, m := range snapSaved {
				r.saved[d] = map[string]string{}
				for n, c := range m {
					r.saved[d][n] = c
				}
			}
			c2 := *cls[i]
			c2.replaying = true
			c2.recs = append([]Reply{}, cls[i].recs...)
			r.model.rules = a
			l := *ls[i]
			l.c = &c2
			r.live[1000+i] = &l
			if err := r.judge(&l); err != nil {
				return err
			}
			if len(r.mism) == 0 {
				good = true
				break
			}
			first = append(first, r.mism...)
			r.mism = nil
			r.saved, r.msgLines = snapSaved, snapMsg
		}
		if !good {
			r.mism = first
			for i := range o.Par {
				delete(r.live, 1000+i)
			}
			return nil
		}
		delete(r.live, 1000+i)
	}
	r.model.rules = alts[len(alts)-1]
	return nil
}

// judge goes through a recorded session.
func (r *runner) judge(l *liveSess) error {
	if err := r.greeted(l); err != nil || len(r.mism) > 0 {
		return err
	}
	for i := range l.spec.Steps {
		if l.m.state == "gone" {
			break
		}
		if err := r.step(l, l.spec.Steps[i]); err != nil || len(r.mism) > 0 {
			return err
		}
	}
	return r.finish(l, "abort")
}

// ---- arbitrary bytes

func (r *runner) fuzz(o *Op) error {
	if r.tooSlow() {
		return errSlow
	}
	var wg sync.WaitGroup
	errs := make([]error, len(o.Fuzz))
	for i := range o.Fuzz {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f := &o.Fuzz[i]
			c, err := dial(f.Src, f.Dst, r.srv.Port)
			if err != nil {
				errs[i] = err
				return
			}
			// keep reading, so that the server never waits for us
			done := make(chan struct{})
			go func() {
				defer close(done)
				buf := make([]byte, 65536)
				for {
					if _, err := c.nc.Read(buf); err != nil {
						return
					}
				}
			}()
			for _, ch := range f.Chunks {
				if c.writeRaw(bytesOf(ch)) != nil {
					break
				}
				if f.Wait {
					time.Sleep(500 * time.Microsecond)
				}
			}
			switch f.End {
			case "reset":
				_ = c.tcp.SetLinger(0)
				_ = c.tcp.Close()
			case "close":
				_ = c.tcp.Close()
			default:
				c.halfClose()
				select {
				case <-done:
				case <-time.After(replyTimeout):
					errs[i] = fmt.Errorf("hang: the server does not close the connection of a client that has ended its side")
				}
				_ = c.tcp.Close()
			}
			<-done
		}()
	}
	wg.Wait()
	for i := 0; i < len(o.Fuzz); i++ {
		r.srv.Conns++
		r.known[r.srv.prefix(r.srv.Conns)] = true
		r.ignore[r.srv.prefix(r.srv.Conns)] = true
	}
	for _, err := range errs {
		if err != nil {
			if !r.srv.Alive() {
				r.add(r.srv.crash())
				return nil
			}
			if strings.HasPrefix(err.Error(), "hang") || strings.Contains(err.Error(), "timeout") {
				r.add(mism("hang", "%v", err))
				return nil
			}
			return infraf("%v", err)
		}
	}
	if !r.srv.Alive() {
		r.add(r.srv.crash())
	}
	return nil
}

func (s *Server) fds() (int, error) {
	a, err := s.Ctl("fds")
	if err != nil {
		return 0, err
	}
	n := 0
	_, err = fmt.Sscan(a, &n)
	return n, err
}

// openFds looks at a server's descriptors from outside.
func (s *Server) openFds() (count, highest int) {
	ents, _ := os.ReadDir(fmt.Sprintf("/proc/%d/fd", s.cmd.Process.Pid))
	for _, e := range ents {
		n := 0
		if _, err := fmt.Sscan(e.Name(), &n); err == nil && n > highest {
			highest = n
		}
	}
	return len(ents), highest
}

func (s *Server) limitFds(n uint64) (old syscall.Rlimit, err error) {
	var nl *syscall.Rlimit
	if n > 0 {
		if _, _, e := syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(s.cmd.Process.Pid), syscall.RLIMIT_NOFILE, 0, uintptr(unsafe.Pointer(&old)), 0, 0); e != 0 {
			return old, e
		}
		nl = &syscall.Rlimit{Cur: n, Max: old.Max}
	}
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(s.cmd.Process.Pid), syscall.RLIMIT_NOFILE, uintptr(unsafe.Pointer(nl)), 0, 0, 0); e != 0 {
		return old, e
	}
	return old, nil
}

// exhaust: clients use up the server's file descriptors for a while, N more
// than it has to start with; afterwards it must go on.
func (r *runner) exhaust(o *Op) error {
	if r.tooSlow() {
		return errSlow
	}
	before, high := r.srv.openFds()
	old, err := r.srv.limitFds(uint64(high + 1 + o.N))
	if err != nil {
		return infraf("prlimit: %v", err)
	}
	var cs []*Client
	for i := 0; i < o.N+6; i++ {
		c, err := dial("127.3.0."+itoa(1+i%3), "127.0.0.1", r.srv.Port)
		if err != nil {
			break
		}
		r.srv.Conns++
		r.known[r.srv.prefix(r.srv.Conns)] = true
		r.ignore[r.srv.prefix(r.srv.Conns)] = true
		cs = append(cs, c)
		if o.Text != "" {
			_ = c.writeRaw(bytesOf(o.Text))
		}
	}
	for i := 0; i < 100; i++ {
		if n, _ := r.srv.openFds(); n >= high+1+o.N {
			break
		}
		time.Sleep(time.Millisecond)
	}
	time.Sleep(2 * time.Millisecond)
	for _, c := range cs {
		c.close()
	}
	for i := 0; i < 5000; i++ {
		if n, _ := r.srv.openFds(); n <= before {
			break
		}
		time.Sleep(time.Millisecond)
	}
	if _, err := r.srv.limitFds(old.Cur); err != nil && r.srv.Alive() {
		return infraf("prlimit: %v", err)
	}
	if !r.srv.Alive() {
		r.add(r.srv.crash())
	}
	r.st.class("descriptors used up")
	return nil
}

// leaks: with no sessions left, the server must hold nothing for them.
func (r *runner) leaks() error {
	if len(r.live) > 0 {
		return nil
	}
	deadline := time.Now().Add(15 * time.Second)
	g, f := 0, 0
	for {
		var err error
		if g, err = r.srv.goroutines(); err == nil {
			f, err = r.srv.fds()
		}
		if err != nil {
			if !r.srv.Alive() {
				r.add(r.srv.crash())
				return nil
			}
			return err
		}
		if g <= r.base && f <= r.baseFds {
			return nil
		}
		if time.Now().After(deadline) {
			break
		}
		time.Sleep(2 * time.Millisecond)
	}
	r.add(mism("leak", "with all sessions over the server has %d goroutines (%d before) and %d open files (%d before)", g, r.base, f, r.baseFds))
	return nil
}

// probe: whatever the rules, a connection is either dropped at once or every
// command in sequence is answered.
func (r *runner) probe(o *Op) error {
	c, err := dial(o.Sess.Src, o.Sess.Dst, r.port(o.Sess))
	if err != nil {
		if !r.srv.Alive() {
			r.add(r.srv.crash())
			return nil
		}
		if strings.Contains(err.Error(), "timeout") {
			r.add(mism("hang", "cannot connect: %v", err))
			return nil
		}
		return infraf("%v", err)
	}
	r.srv.Conns++
	r.known[r.srv.prefix(r.srv.Conns)] = true
	r.ignore[r.srv.prefix(r.srv.Conns)] = true
	c.blind(o.Sess)
	if !r.srv.Alive() {
		r.add(r.srv.crash())
		return nil
	}
	n := len(c.recs)
	switch last := c.recs[n-1]; {
	case n == 1 && last.EOF:
		r.st.class("dropped at connect")
	case last.isTimeout():
		r.add(mism("hang", "no reply in %v after %d replies", replyTimeout, n-1))
	case last.EOF || last.Err != nil:
		r.add(mism("noanswer", "command %d of a session: %s", n-1, last))
	case c.undrained:
		r.add(mism("hang", "the server does not close the connection of a finished session"))
	default:
		for _, rp := range c.recs {
			r.st.class(fmt.Sprintf("probe replies %dxx", rp.Code/100))
		}
	}
	return nil
}
