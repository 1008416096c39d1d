package main

// The executor: runs a case against a server in lock-step with the model and
// reports every difference, by category:
//
//  connect   dropped at connect or not       greet    name in the banner
//  reply.X   class of the reply to X         text     text of the reply
//  starttls  STARTTLS advertised or not      tls      STARTTLS works or not
//  ccert     client certificate asked for    scert    certificate served
//  id        message id in the reply         close    connection ended by the server or not
//  save      saved files                     savename their names
//  msglog    message log                     smtplog  SMTP log
//  start     does not start with valid settings
//  dnlog     do-nothing log and notices      last     last times and tables per address
//  note      rule notes in the SMTP log      hit      blocklist reports there
//  stderr    reports on standard error       delay    slow replies
//  count     /debug/vars                     tlsline  TLS line of a saved message
//  hang      no answer in time               crash    the server is gone

import (
	"bytes"
	"crypto/sha1"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"net"
	"net/mail"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

const replyTimeout = 20 * time.Second

// liveSess is a session under way.
type liveSess struct {
	spec   Sess
	m      *SessModel
	c      *Client
	cid    int
	prefix string
	msgs   []*sentMsg
	queue  []Step // pipelined steps waiting to be sent
	loose  bool   // the log cannot be predicted exactly
	tlsst  *tls.ConnectionState
	ccert  string // certificate presented
	closed bool
	noLog  bool
	faulty bool
	opened time.Time // by the server's clock
}

type sentMsg struct {
	m   *Msg
	id  string // id from the reply
	tls *tls.ConnectionState
	cc  string
	// failed: saving it failed, by an injected fault
	failed bool
	syncs  []string  // files flushed by the time of the reply, with sizes
	t0, t1 time.Time // sent and answered, by the server's clock
}

// runner runs one case.
type runner struct {
	env     *Env
	srv     *Server
	model   *ServerModel
	c       *Case
	st      *Stats
	live    map[int]*liveSess
	cur     *liveSess   // the session of a "session" op
	noCount bool        // the counters are not to be judged
	soft    []*Mismatch // what other properties would complain about
	strict  bool        // all mismatches count

	ignore map[string]bool // log prefixes nobody judges

	saved map[string]map[string]string // dir -> name -> content
	alien map[string]bool              // dir/name: files that did not come from the server as they are
	dirs  []string

	connTo map[string]int             // connections per local address
	last   map[string]map[string]span // local address or "" -> event -> when

	smtpOff, msgOff, errOff int64
	dnOff                   int64
	dnLines                 map[string][]string // prefix -> lines
	logLines                map[string][]string // prefix -> lines
	known                   map[string]bool
	start                   time.Time
	failKey, failKind       string
	msgLines                []string
	errText                 string
	failSeen                bool
	mism                    []*Mismatch
	base                    int // goroutines at rest
	baseFds                 int
	armed, armedKill        bool // a file fault is waiting to happen
	leftover                map[string]map[string]string
}

func (r *runner) add(m *Mismatch) {
	if m == nil {
		return
	}
	if !r.strict && r.env.soft(m.Cat) {
		// a wrong log line or file that is not this property's business:
		// the case goes on
		r.soft = append(r.soft, m)
		return
	}
	r.mism = append(r.mism, m)
}

// soft says whether a mismatch of this category, which the property does not
// own, leaves the session going on as the model has it.
func (e *Env) soft(cat string) bool {
	if e.Prop == nil {
		return false
	}
	switch cat {
	case "text", "note", "hit", "dnlog", "count", "last", "greet", "delay", "msglog", "smtplog", "envelope", "ccert", "scert", "save", "savename", "id":
		own, _ := e.Prop.owned([]*Mismatch{{Cat: cat}})
		return len(own) == 0
	}
	return false
}

var saveDirs = []string{dirSave, "sd0", "sd1"}

var patNames = []string{"p0", "p1", "p2", "p3", fileFromReject, fileToAccept, fileHeloReject}

func (r *runner) writeFile(name, content, bad string) error {
	p := r.srv.path(name)
	if st, err := os.Lstat(p); err == nil && (st.IsDir() || bad != "") {
		if err := os.RemoveAll(p); err != nil {
			return infraf("%v", err)
		}
	}
	switch bad {
	case "missing":
		return nil
	case "loop":
		// a link to itself: cannot be opened, but is not missing
		if err := os.Symlink(name, p); err != nil {
			return infraf("%v", err)
		}
		return nil
	case "unreadable":
		if err := os.Mkdir(p, 0o755); err != nil {
			return infraf("%v", err)
		}
		return nil
	}
	content = strings.ReplaceAll(content, "%DIR%", r.srv.Dir)
	content = strings.ReplaceAll(content, "%CERTS%", certDir)
	content = strings.ReplaceAll(content, "%PORT%", itoa(r.srv.Port))
	content = strings.ReplaceAll(content, "%PORT2%", itoa(r.srv.Port2))
	tmp := p + ".tmp"
	if err := os.WriteFile(tmp, []byte(bytesOf(content)), 0o644); err != nil {
		return infraf("%v", err)
	}
	if err := os.Rename(tmp, p); err != nil {
		return infraf("%v", err)
	}
	return nil
}

// needsFresh says whether a case depends on state servers keep.
func (c *Case) needsFresh() bool {
	if c.Fresh || c.Sync || c.Opt.DnCount > 0 || c.Opt.Pprof {
		return true
	}
	for _, o := range c.Ops {
		if o.Sess != nil {
			for _, s := range o.Sess.Steps {
				if s.Mode != "" {
					return true
				}
			}
		}
		if o.Step != nil && o.Step.Mode != "" {
			return true
		}
		for _, p := range o.Par {
			for _, s := range p.Steps {
				if s.Mode != "" {
					return true
				}
			}
		}
	}
	return false
}

// environment: a server could not start for lack of something here.
func environment(err error) bool {
	for _, s := range []string{"address already in use", "cannot assign requested address", "too many open files", "cannot allocate memory",
		"resource temporarily unavailable", "no space left", "operation not permitted", "signal: killed"} {
		if strings.Contains(err.Error(), s) {
			return true
		}
	}
	return false
}

// RunCase runs a case, on a fresh server if fresh or if the case needs one.
func (e *Env) RunCase(c *Case, st *Stats, fresh bool) (ms []*Mismatch, err error) {
	if c.Start != nil {
		return e.runStart(c, st)
	}
	var srv *Server
	e.lateCase = nil
	fresh = fresh || c.needsFresh()
	if fresh {
		srv, err = e.Start(c.Opt)
	} else {
		var dead *Server
		srv, dead, err = e.Get(c.Opt)
		if dead != nil && len(dead.past) > 0 {
			// it died after its last case had been judged
			e.lastPast = dead.past
			e.lateCase = dead.past[len(dead.past)-1]
			return []*Mismatch{dead.crash()}, nil
		}
	}
	if errors.Is(err, errStartFailed) && !environment(err) {
		// valid settings
		return []*Mismatch{mism("start", "%s: %v", strings.Join(c.Opt.args(), " "), err)}, nil
	}
	if err != nil {
		return nil, err
	}
	ms, err = e.runOn(srv, c, st)
	srv.past = append(srv.past, c)
	if fresh {
		if os.Getenv("VERIF_KEEP") != "" {
			fmt.Println("kept:", srv.Dir)
		}
		srv.Kill()
	} else if err != nil || len(ms) > 0 || !srv.Alive() {
		e.lastPast = srv.past
		e.Discard(srv)
	}
	return ms, err
}

func (e *Env) runOn(srv *Server, c *Case, st *Stats) ([]*Mismatch, error) {
	r, err := e.newRunner(srv, c, st)
	if err != nil {
		if srv.panicked() {
			return []*Mismatch{srv.crash()}, nil
		}
		return nil, err
	}
	if err := r.run(); err != nil {
		if r.srv.panicked() {
			return append([]*Mismatch{r.srv.crash()}, r.mism...), nil
		}
		return append(r.mism, r.soft...), err
	}
	return append(r.mism, r.soft...), nil
}

func (e *Env) newRunner(srv *Server, c *Case, st *Stats) (*runner, error) {
	r := &runner{env: e, srv: srv, c: c, st: st, live: map[int]*liveSess{}, ignore: map[string]bool{}, saved: map[string]map[string]string{},
		logLines: map[string][]string{}, dnLines: map[string][]string{}, connTo: map[string]int{}, last: map[string]map[string]span{}, known: map[string]bool{}, start: time.Now()}
	e.DNS.Set(c.DNS)
	r.model = newServerModel(c.Opt, &c.DNS, st)
	r.model.cnt["connections"] = srv.Conns
	// the probe connection
	pl := fmt.Sprintf("127.0.0.1:%d", srv.Port)
	r.connTo[pl] = 1
	r.happened("connection", pl, srv.started)
	r.happened("regular", pl, srv.started)
	r.model.cnt["aborts"] = 1
	if c.Opt.DnCount == 1 {
		r.model.cnt["yakker_adds"] = 1
	}
	r.dirs = saveDirs
	for _, d := range saveDirs {
		_ = os.RemoveAll(srv.path(d))
		if err := os.Mkdir(srv.path(d), 0o755); err != nil {
			return nil, infraf("%v", err)
		}
		r.saved[d] = map[string]string{}
	}
	for _, n := range patNames {
		if err := r.writeFile(n, "", "missing"); err != nil {
			return nil, err
		}
	}
	for i := 0; i < c.Opt.NRules; i++ {
		if err := r.writeFile(ruleFileName(i), "", ""); err != nil {
			return nil, err
		}
		r.model.rules[ruleFileName(i)] = &RuleFile{Name: ruleFileName(i)}
	}
	if c.Opt.ConnCfg {
		if err := r.writeFile(fileConnCfg, "", ""); err != nil {
			return nil, err
		}
		r.model.conn = &ConnCfg{}
	}
	size := func(n string) int64 {
		if s, err := os.Stat(srv.path(n)); err == nil {
			return s.Size()
		}
		return 0
	}
	for _, o := range c.Ops {
		if (o.Sess != nil && o.Sess.Hard || o.Kind == "leaks") && r.base == 0 {
			if err := r.baseline(); err != nil {
				return nil, err
			}
		}
	}
	r.smtpOff, r.msgOff, r.errOff = size(logSMTP), size(logMsg), size("stderr")
	r.dnOff = size(logDn)
	return r, nil
}

func (r *runner) tooSlow() bool { return time.Since(r.start) > 30*time.Second }

func (r *runner) run() error {
	for i := range r.c.Ops {
		if err := r.op(&r.c.Ops[i]); err != nil {
			r.abandon()
			return err
		}
		if len(r.mism) > 0 {
			r.abandon()
			return r.checkCrash()
		}
	}
	// finish whatever is still open, in order
	var ids []int
	for n := range r.live {
		ids = append(ids, n)
	}
	sort.Ints(ids)
	for _, n := range ids {
		l := r.live[n]
		if err := r.finish(l, "abort"); err != nil {
			r.abandon()
			return err
		}
		delete(r.live, n)
		if len(r.mism) > 0 {
			r.abandon()
			return r.checkCrash()
		}
	}
	if r.c.Opt.Pprof && !r.noCount {
		if err := r.checkCounters(); err != nil {
			return err
		}
	}
	return r.checkCrash()
}

// checkCrash marks mismatches that come from a dead server.
func (r *runner) checkCrash() error {
	if len(r.mism) > 0 {
		// give a dying process a moment
		for i := 0; i < 60 && r.srv.Alive(); i++ {
			e := r.srv.Stderr()
			if i >= 6 && !strings.Contains(e, "\ngoroutine ") && !strings.Contains(e, "DATA RACE") {
				break
			}
			time.Sleep(50 * time.Millisecond)
		}
	}
	if !r.srv.Alive() {
		r.mism = append([]*Mismatch{r.srv.crash()}, r.mism...)
	}
	return nil
}

// panicked says whether the server ended by a Go panic or fatal error.
func (s *Server) panicked() bool {
	for i := 0; i < 60 && s.Alive(); i++ {
		if i >= 10 && !strings.Contains(s.Stderr(), "\ngoroutine ") {
			return false
		}
		time.Sleep(50 * time.Millisecond)
	}
	e := s.Stderr()
	return !s.Alive() && (strings.Contains(e, "panic: ") || strings.Contains(e, "fatal error: "))
}

// crash describes the end of a server that should be alive.
func (s *Server) crash() *Mismatch {
	e := s.Stderr()
	if i := strings.Index(e, "WARNING: DATA RACE"); i >= 0 {
		return mism("race", "the race detector reports: %s", clip(e[i:]))
	}
	return mism("crash", "the server died: %s", crashLine(e))
}

func crashLine(s string) string {
	i := strings.Index(s, "panic: ")
	if i < 0 {
		i = strings.Index(s, "fatal error: ")
	}
	if i < 0 {
		return string(tail([]byte(s), 300))
	}
	s = s[i:]
	if len(s) > 700 {
		s = s[:700]
	}
	return s
}

func (r *runner) abandon() {
	for _, l := range r.live {
		if l.c != nil {
			l.c.close()
		}
	}
}

func (r *runner) op(o *Op) error {
	switch o.Kind {
	case "rules":
		r.model.rules[o.Rules.Name] = o.Rules
		return r.writeFile(o.Rules.Name, o.Rules.Text, o.Rules.Bad2())
	case "list":
		if o.Bad != "" {
			r.model.lists[o.Name] = nil
		} else {
			t := bytesOf(o.Text)
			r.model.lists[o.Name] = &t
		}
		return r.writeFile(o.Name, o.Text, o.Bad)
	case "conncfg":
		cc := *o.Conn
		cc.Lines = append([]ConnLine{}, cc.Lines...)
		for i := range cc.Lines {
			cc.Lines[i].Local = strings.ReplaceAll(cc.Lines[i].Local, "%PORT%", itoa(r.srv.Port))
			cc.Lines[i].Local = strings.ReplaceAll(cc.Lines[i].Local, "%PORT2%", itoa(r.srv.Port2))
			if cc.Lines[i].Cert == "cx" {
				cc.Lines[i].Cert = cc.Copy
			}
		}
		if cc.Copy != "" {
			for _, ext := range []string{".crt", ".key"} {
				b, err := os.ReadFile(certFiles(cc.Copy, ext))
				if err == nil {
					err = os.WriteFile(r.srv.path("cx"+ext), b, 0o644)
				}
				if err != nil {
					return infraf("%v", err)
				}
			}
		}
		r.model.conn = &cc
		b := o.Conn.Bad
		if b == "syntax" {
			b = ""
		}
		return r.writeFile(fileConnCfg, o.Conn.Text, b)
	case "dns":
		r.env.DNS.Set(*o.DNS)
		r.model.dns = o.DNS
		return nil
	case "advance":
		return r.advance(o.N)
	case "session":
		l, err := r.open(o.Sess)
		if err != nil || l == nil || len(r.mism) > 0 {
			return err
		}
		r.cur = l
		defer func() { r.cur = nil }()
		for i := range o.Sess.Steps {
			if err := r.step(l, o.Sess.Steps[i]); err != nil {
				return err
			}
			if len(r.mism) > 0 {
				l.c.close()
				return nil
			}
		}
		return r.finish(l, "abort")
	case "open":
		l, err := r.open(o.Sess)
		if err != nil {
			return err
		}
		if l != nil {
			if len(r.live) > 0 {
				r.st.class("interleaved")
			}
			r.live[o.N] = l
		}
		return nil
	case "step":
		l := r.live[o.N]
		if l == nil {
			return nil
		}
		if err := r.step(l, *o.Step); err != nil {
			return err
		}
		if len(r.mism) == 0 && l.m.state == "gone" {
			delete(r.live, o.N)
			return r.finish(l, "abort")
		}
		return nil
	}
	return r.moreOps(o)
}

// Bad2 is how the file looks on disk.
func (f *RuleFile) Bad2() string {
	if f.Bad == "missing" || f.Bad == "unreadable" || f.Bad == "loop" {
		return f.Bad
	}
	return ""
}

// fail notes an unexpected reply, distinguishing hangs.
func (r *runner) unexpected(cat string, what string, rep Reply) {
	if rep.isTimeout() {
		r.add(mism("hang", "%s: no reply in %v", what, replyTimeout))
		return
	}
	r.add(mism(cat, "%s: got %s", what, rep))
}

func (r *runner) open(s *Sess) (*liveSess, error) {
	if r.tooSlow() {
		return nil, errSlow
	}
	if r.c.Opt.DnCount > 0 || r.c.Opt.Slow {
		if _, err := r.srv.Ctl("delay"); err != nil {
			return nil, err
		}
	}
	t := r.srv.now()
	c, err := dial(s.Src, s.Dst, r.port(s))
	if err != nil {
		if !r.srv.Alive() {
			r.add(r.srv.crash())
			return nil, nil
		}
		if errors.Is(err, os.ErrDeadlineExceeded) || strings.Contains(err.Error(), "timeout") {
			r.add(mism("hang", "cannot connect: %v", err))
			return nil, nil
		}
		return nil, infraf("dial %s -> %s: %v", s.Src, s.Dst, err)
	}
	r.srv.Conns++
	l := &liveSess{spec: *s, c: c, cid: r.srv.Conns, opened: t}
	l.prefix = r.srv.prefix(l.cid)
	r.known[l.prefix] = true
	return l, r.greeted(l)
}

func (r *runner) port(s *Sess) int {
	if s.Alt {
		return r.srv.Port2
	}
	return r.srv.Port
}

type span struct{ from, to time.Time }

// happened notes when something last happened, by the server's clock: between
// from and now.
func (r *runner) happened(what, laddr string, from time.Time) {
	for _, k := range []string{"", laddr} {
		if r.last[k] == nil {
			r.last[k] = map[string]span{}
		}
		r.last[k][what] = span{from, r.srv.now()}
	}
}

// greeted begins the judging of a session: the banner.
func (r *runner) greeted(l *liveSess) error {
	s, c := &l.spec, l.c
	l.m = r.model.NewSession(s.Src, s.Dst, r.port(s))
	rep := c.read(replyTimeout)
	r.connTo[c.Laddr]++
	r.happened("connection", c.Laddr, l.opened)
	if l.m.stalled {
		r.happened("yakker", c.Laddr, l.opened)
	} else {
		r.happened("regular", c.Laddr, l.opened)
	}
	r.ruleReport(l)
	if l.m.dropped {
		if !rep.EOF {
			r.unexpected("connect", fmt.Sprintf("connection from %s must be dropped", s.Src), rep)
		}
		return nil
	}
	if rep.EOF {
		r.unexpected("connect", fmt.Sprintf("connection from %s must get a banner", s.Src), rep)
		return nil
	}
	if rep.Err != nil || rep.Code != 220 {
		r.unexpected("connect", "banner", rep)
		return nil
	}
	r.wrote(l, rep)
	if got, _, _ := strings.Cut(rep.Lines[0], " "); got != l.m.name {
		r.add(mism("greet", "banner says %q, must say %q", got, l.m.name))
	}
	return nil
}

var errSlow = errors.New("case took too long; not judged")

func (r *runner) wrote(l *liveSess, rep Reply) {
	for _, w := range rep.Raw {
		l.m.Trace = append(l.m.Trace, "w "+w)
	}
}

// advance moves the server's clock.
func (r *runner) advance(n int) error {
	r.model.now += n
	r.srv.Offset += time.Duration(n) * time.Second
	_, err := r.srv.Ctl("advance", itoa(n))
	return err
}

func (r *runner) step(l *liveSess, s Step) error {
	if l.m.state == "gone" {
		return nil
	}
	if r.tooSlow() {
		return errSlow
	}
	switch s.Kind {
	case "close":
		l.queue = nil
		return r.finish(l, "abort")
	case "tick":
		if l.c.replaying {
			return nil
		}
		return r.advance(s.N)
	case "vars":
		if l.c.replaying {
			return nil
		}
		return r.midCounters()
	}
	l.queue = append(l.queue, s)
	if s.pipable() && len(l.queue) < 10 {
		return nil
	}
	q := l.queue
	l.queue = nil
	var out strings.Builder
	for i := range q {
		ln := q[i].line()
		l.c.sent = append(l.c.sent, ln)
		out.WriteString(ln + "\r\n")
	}
	werr := l.c.writeRaw(out.String())
	for i := range q {
		if l.m.state == "gone" {
			break
		}
		var rep Reply
		if werr != nil && !isEOF(werr) {
			return infraf("write: %v", werr)
		}
		rep = l.c.read(replyTimeout)
		if err := r.answer(l, &q[i], rep); err != nil || len(r.mism) > 0 {
			return err
		}
	}
	return nil
}

// answer judges the reply to one command and carries on with what follows
// from it.
func (r *runner) answer(l *liveSess, s *Step, rep Reply) error {
	l.m.Trace = append(l.m.Trace, "r "+s.line())
	var e Expect
	cat := "reply." + s.Kind
	switch s.Kind {
	case "ehlo", "helo":
		cat = "reply.helo"
		e = l.m.Helo(s.Kind == "ehlo", s.Arg)
	case "mail":
		e = l.m.Mail(s.Arg)
	case "rcpt":
		e = l.m.Rcpt(s.Arg)
	case "data":
		e = l.m.Data()
	case "rset":
		e = l.m.Rset()
	case "noop":
		e = Expect{Class: 2}
	case "quit":
		e = Expect{Class: 2}
	case "raw":
		e = l.m.badCmd()
	case "starttls":
		if l.m.StartTLS() {
			e = Expect{Class: 2}
		} else {
			e = Expect{Class: 5}
		}
		cat = "tls"
	}
	what := fmt.Sprintf("%q from %s", s.line(), l.spec.Src)
	if rep.EOF || rep.Err != nil || rep.Code/100 != e.Class {
		r.unexpected(cat, fmt.Sprintf("%s: must get %dxx", what, e.Class), rep)
		return nil
	}
	r.wrote(l, rep)
	r.judgeText(l, what, e, rep, "")
	if e.EHLO {
		adv := false
		for _, x := range rep.Lines {
			if strings.EqualFold(strings.TrimSpace(x), "STARTTLS") {
				adv = true
			}
		}
		if adv != e.StartTLS {
			r.add(mism("starttls", "%s: STARTTLS advertised: %v, must be %v", what, adv, e.StartTLS))
		}
		if got, _, _ := strings.Cut(rep.Lines[0], " "); got != l.m.name {
			r.add(mism("greet", "EHLO reply says %q, must say %q", got, l.m.name))
		}
	}
	if len(r.mism) > 0 {
		return nil
	}
	switch {
	case e.Close:
		l.m.state = "gone"
		return r.finish(l, "abort")
	case s.Kind == "quit":
		return r.finish(l, "quit")
	case s.Kind == "data" && e.Class == 3:
		return r.body(l, s)
	case s.Kind == "starttls" && e.Class == 2:
		return r.handshake(l, s)
	case s.Kind == "raw" && l.m.bad > 5:
		rep := l.c.read(replyTimeout)
		if rep.EOF || rep.Err != nil || rep.Code/100 != 5 {
			r.unexpected("reply.other", "too many bad commands", rep)
			return nil
		}
		r.wrote(l, rep)
		return r.finish(l, "abort")
	}
	return nil
}

func (r *runner) judgeText(l *liveSess, what string, e Expect, rep Reply, id string) {
	if !e.HasMsg {
		return
	}
	want := e.Msg
	got := rep.Lines
	if e.ID {
		if len(got) > 0 && len(got) == len(want)+1 {
			got = got[:len(want)]
		} else {
			r.add(mism("text", "%s: reply %q, must be %q plus one line", what, rep.Lines, want))
			return
		}
	}
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		r.add(mism("text", "%s: reply %q, must be %q", what, rep.Lines, want))
	}
}

var hexRe = regexp.MustCompile(`\b[0-9a-f]{40}\b`)

func (r *runner) body(l *liveSess, s *Step) error {
	data := s.data()
	wire, cut := s.wire()
	if cut {
		_ = l.c.writeRaw(wire)
		l.m.Abandon()
		return r.finish(l, "abort")
	}
	t0 := r.srv.now()
	if l.c.replaying {
		t0 = l.opened
	}
	if err := l.c.writeRaw(wire); err != nil && !isEOF(err) {
		return infraf("write: %v", err)
	}
	rep := l.c.read(replyTimeout)
	t1 := r.srv.now()
	failed := l.m.savedir != "" && !r.haveDir(l.m.savedir)
	var syncs []string
	if r.armed && !l.c.replaying {
		if r.armedKill && rep.EOF && r.srv.waitDead(5*time.Second) {
			return r.died()
		}
		fired, err := r.disarm()
		if err != nil {
			return err
		}
		if fired {
			failed = true
			r.st.class("fault fired")
		}
	}
	if r.c.Sync && r.srv.Alive() {
		a, err := r.srv.Ctl("syncs")
		if err != nil {
			return err
		}
		syncs = strings.Split(a, "\x01")
	}
	l.m.Trace = append(l.m.Trace, "r . <end of data>")
	e := l.m.Message(data, failed)
	mm := l.m.Msgs[len(l.m.Msgs)-1]
	what := fmt.Sprintf("message from <%s> to %v (helo %q)", mm.From, mm.Rcpts, mm.Helo)
	if rep.EOF || rep.Err != nil || rep.Code/100 != e.Class {
		r.unexpected("reply.message", fmt.Sprintf("%s: must get %dxx", what, e.Class), rep)
		return nil
	}
	r.wrote(l, rep)
	r.judgeText(l, what, e, rep, "")
	sm := &sentMsg{m: mm, tls: l.tlsst, cc: l.ccert, failed: failed, syncs: syncs, t0: t0, t1: t1}
	if e.ID {
		sm.id = hexRe.FindString(rep.Lines[len(rep.Lines)-1])
		if sm.id == "" {
			r.add(mism("id", "%s: no message id in the reply %s", what, rep))
		}
	}
	l.msgs = append(l.msgs, sm)
	if l.c.replaying {
		t0 = l.opened
	}
	r.happened("message", l.c.Laddr, t0)
	return nil
}

func (r *runner) haveDir(d string) bool {
	for _, x := range r.dirs {
		if x == d || "./"+x == d {
			return true
		}
	}
	return false
}

func (r *runner) handshake(l *liveSess, s *Step) error {
	fail := func() error {
		l.m.TLSFailed()
		return r.finish(l, "abort")
	}
	switch s.Mode {
	case "garbage":
		_ = l.c.writeRaw("GET / HTTP/1.0\r\n\r\n")
		return fail()
	case "sslv2":
		_ = l.c.writeRaw("\x80\x2e\x01\x00\x02\x00\x15\x00\x00\x00\x10" + strings.Repeat("\x01", 35))
		return fail()
	case "close":
		return fail()
	}
	asked := false
	cfg := clientTLS(s, &asked)
	if s.Mode == "badver" {
		cfg.MinVersion, cfg.MaxVersion = tls.VersionTLS10, tls.VersionTLS11
	}
	if s.Mode == "distrust" {
		cfg.VerifyPeerCertificate = func([][]byte, [][]*x509.Certificate) error { return errors.New("distrusted") }
	}
	st, err := l.c.startTLS(cfg, replyTimeout)
	if s.Mode == "badver" || s.Mode == "distrust" {
		if err == nil {
			return infraf("TLS handshake in mode %s succeeded", s.Mode)
		}
		return fail()
	}
	if err != nil {
		var ne net.Error
		if errors.As(err, &ne) && ne.Timeout() {
			r.add(mism("hang", "TLS handshake: %v", err))
			return nil
		}
		r.add(mism("tls", "TLS handshake (client certificate %q) failed: %v", s.CCert, err))
		return nil
	}
	if asked != l.m.askCrt {
		r.add(mism("ccert", "client certificate requested: %v, must be %v", asked, l.m.askCrt))
	}
	if asked {
		l.ccert = s.CCert
	}
	want := l.m.serverCert(s.SNI)
	if got := st.PeerCertificates[0].Subject.CommonName; got != want {
		r.add(mism("scert", "served certificate %s, must be %s", got, want))
	}
	// In TLS 1.3 the server may still be about to read our certificate: a
	// NOOP shows that the session really goes on.
	rep := l.c.cmd("NOOP", replyTimeout)
	if rep.EOF || rep.Err != nil || rep.Code/100 != 2 {
		r.unexpected("tls", fmt.Sprintf("after the TLS handshake (client certificate %q)", s.CCert), rep)
		return nil
	}
	l.m.TLSUp(l.ccert)
	l.m.Trace = append(l.m.Trace, "r NOOP")
	r.wrote(l, rep)
	l.tlsst = &st
	return nil
}

// serverCert is the common name of the certificate a client must be served.
func (s *SessModel) serverCert(sni string) string {
	l := strings.Split(s.cert, ",")
	for _, c := range l {
		if strings.EqualFold(sni, c+".example") {
			return c + ".example"
		}
	}
	return l[0] + ".example"
}

// finish ends a session (unless the server did) and checks everything it
// must have left behind.
func (r *runner) finish(l *liveSess, how string) error {
	if l.closed {
		return nil
	}
	l.closed = true
	ended := l.m.dropped || l.m.ended
	l.m.End(how)
	l.m.state = "gone"
	hard := l.spec.Hard && !r.others(l) && !l.c.replaying
	if how == "abort" && !ended {
		if hard {
			// A reset: the log may or may not show pending output; the
			// session is over when its connection is, which only the
			// server can tell.
			_ = l.c.tcp.SetLinger(0)
			l.c.close()
		} else {
			l.c.halfClose()
		}
	} else if how == "abort" {
		l.c.halfClose()
	}
	if !hard || ended || how == "quit" {
		if !l.c.drain(replyTimeout) {
			r.add(mism("hang", "the server does not close the connection of a finished session"))
			l.c.close()
			return nil
		}
		l.c.close()
	} else if err := r.settle(l); err != nil {
		return err
	}
	if l.m.reachedMin && r.c.Opt.MinPhase != "message" {
		r.happened("reached_minphase", l.c.Laddr, l.opened)
	}
	if !r.srv.Alive() {
		return nil
	}
	if r.c.Opt.DnCount > 0 || r.c.Opt.Slow {
		d, err := r.srv.Ctl("delay")
		if err != nil {
			return err
		}
		slow := d != "0"
		if want := l.m.stalled || r.c.Opt.Slow; slow != want && !l.m.dropped && len(r.live) == 0 {
			r.add(mism("delay", "slow replies for %s: %v, must be %v", l.spec.Src, slow, want))
		}
	}
	if err := r.checkLogs(l); err != nil {
		return err
	}
	return r.checkSaved(l)
}

// goroutines asks the server for its goroutine count.
func (s *Server) goroutines() (int, error) {
	a, err := s.Ctl("goroutines")
	if err != nil {
		return 0, err
	}
	return strconv.Atoi(a)
}

// baseline measures the goroutines of an idle server.
func (r *runner) baseline() error {
	same, last := 0, -1
	for i := 0; i < 2000 && same < 4; i++ {
		n, err := r.srv.goroutines()
		if err != nil {
			return err
		}
		if n == last {
			same++
		} else {
			same, last = 0, n
		}
		time.Sleep(time.Millisecond)
	}
	r.base = last
	n, err := r.srv.fds()
	r.baseFds = n
	return err
}

// settle waits until the server has no more goroutines than at rest plus
// those of the sessions still open.
func (r *runner) settle(me *liveSess) error {
	deadline := time.Now().Add(replyTimeout)
	for time.Now().Before(deadline) {
		n, err := r.srv.goroutines()
		if err != nil {
			if !r.srv.Alive() {
				return nil
			}
			return err
		}
		if n <= r.base {
			return nil
		}
		time.Sleep(time.Millisecond)
	}
	r.add(mism("hang", "the session of a vanished client does not end"))
	return nil
}

func (r *runner) readFrom(name string, off *int64) (string, error) {
	f, err := os.Open(r.srv.path(name))
	if err != nil {
		if os.IsNotExist(err) {
			return "", nil
		}
		return "", infraf("%v", err)
	}
	defer f.Close()
	if _, err := f.Seek(*off, 0); err != nil {
		return "", infraf("%v", err)
	}
	var b bytes.Buffer
	if _, err := b.ReadFrom(f); err != nil {
		return "", infraf("%v", err)
	}
	*off += int64(b.Len())
	return b.String(), nil
}

var logRe = regexp.MustCompile(`^(\d+/\d+)([rw#!]) (.*)$`)

func (r *runner) readSMTPLog() error {
	s, err := r.readFrom(logSMTP, &r.smtpOff)
	if err != nil {
		return err
	}
	if s == "" {
		return nil
	}
	if !strings.HasSuffix(s, "\n") {
		r.add(mism("smtplog", "the SMTP log ends in a partial line: %q", tail([]byte(s), 100)))
	}
	for _, ln := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		m := logRe.FindStringSubmatch(ln)
		if m == nil {
			r.add(mism("smtplog", "malformed SMTP log line %q", ln))
			return nil
		}
		if !r.known[m[1]] {
			r.add(mism("smtplog", "SMTP log line %q belongs to no session", ln))
			return nil
		}
		if r.ignore[m[1]] {
			continue
		}
		r.logLines[m[1]] = append(r.logLines[m[1]], m[2]+" "+m[3])
	}
	return nil
}

var certRe = regexp.MustCompile(`^! TLS client certificate for '(.*)' (verifies\.|doesn't verify: .+)$`)
var dropRe = regexp.MustCompile(`^! (\S+) dropped on connect due to rule at .+$`)

func filterLog(l []string, keep ...string) []string {
	var out []string
	for _, s := range l {
		for _, k := range keep {
			if strings.HasPrefix(s, k) {
				out = append(out, s)
			}
		}
	}
	return out
}

func diffLists(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return fmt.Sprintf("missing %q", want[i])
		case i >= len(want):
			return fmt.Sprintf("extra %q", got[i])
		case got[i] != want[i]:
			return fmt.Sprintf("got %q, must be %q", got[i], want[i])
		}
	}
	return ""
}

func (r *runner) checkLogs(l *liveSess) error {
	if r.c.Opt.SMTPLog {
		if err := r.readSMTPLog(); err != nil {
			return err
		}
		var got []string
		for _, s := range r.logLines[l.prefix] {
			switch {
			case strings.HasPrefix(s, "! rule note: "):
				s = "note " + s[len("! rule note: "):]
			case strings.HasPrefix(s, "! dnsbl hit: "):
				s = "hit " + s[len("! dnsbl hit: "):]
			case strings.HasPrefix(s, "! SBL records: "):
				s = "sbl " + s[len("! SBL records: "):]
			case certRe.MatchString(s):
				m := certRe.FindStringSubmatch(s)
				s = "cert " + m[1] + " ok"
				if m[2] != "verifies." {
					s = "cert " + m[1] + " bad"
				}
			case dropRe.MatchString(s):
				s = "drop " + dropRe.FindStringSubmatch(s)[1]
			case strings.HasPrefix(s, "! %!") || s == "! <nil>":
				r.add(mism("smtplog", "the SMTP log of %s says %q", l.spec.Src, s))
			}
			got = append(got, s)
		}
		want := l.m.Trace
		if l.m.stalled {
			want = nil
			if len(got) > 0 {
				r.add(mism("smtplog", "a stalled session is logged: %q", got[0]))
			}
		}
		if d := diffLists(filterLog(got, "note "), filterLog(want, "note ")); d != "" {
			r.add(mism("note", "rule notes of %s: %s", l.spec.Src, d))
		}
		if d := diffLists(filterLog(got, "hit ", "sbl "), filterLog(want, "hit ", "sbl ")); d != "" {
			r.add(mism("hit", "blocklist hits of %s: %s", l.spec.Src, d))
		}
		if d := diffLists(filterLog(got, "r ", "w "), filterLog(want, "r ", "w ")); d != "" && !l.loose && !l.spec.Hard {
			r.add(mism("smtplog", "session of %s: %s", l.spec.Src, d))
		} else if d := diffLists(filterLog(got, "r ", "w ", "note ", "hit ", "sbl ", "cert ", "drop "), want); d != "" && !l.loose && !l.spec.Hard {
			r.add(mism("smtplog", "session of %s: order: %s", l.spec.Src, d))
		}
		if (r.c.Opt.DnCount > 0 || r.c.Fresh) && len(r.mism) == 0 {
			if err := r.checkDnLog(l, got); err != nil {
				return err
			}
		}
		if !l.m.stalled && !l.m.dropped && len(r.mism) == 0 {
			if len(got) == 0 || !strings.HasPrefix(got[0], "# remote "+l.c.Raddr+" ") {
				// notes of connect-time rules may come first
				ok := false
				for _, g := range got {
					if strings.HasPrefix(g, "# remote "+l.c.Raddr+" ") {
						ok = true
					}
				}
				if !ok {
					r.add(mism("smtplog", "session of %s: no line naming the client", l.c.Raddr))
				}
			}
		}
	}
	if r.c.Opt.MsgLog {
		if err := r.readMsgLog(); err != nil || len(r.mism) > 0 {
			return err
		}
		var got []string
		if r.others(l) {
			// other sessions' messages are judged when they end
			var rest []string
			for _, g := range r.msgLines {
				if strings.HasPrefix(g[20:], "["+l.prefix+"] ") {
					got = append(got, g)
				} else {
					rest = append(rest, g)
				}
			}
			r.msgLines = rest
		} else {
			got, r.msgLines = r.msgLines, nil
		}
		var want []string
		for _, m := range l.msgs {
			want = append(want, l.msgLine(m))
		}
		for i, g := range got {
			got[i] = g[20:]
			if i < len(l.msgs) {
				if x := stamped(g[:19], l.msgs[i].t0, l.msgs[i].t1); x != "" {
					r.add(mism("msglog", "message log line %q: %s", g, x))
				}
			}
		}
		if d := diffLists(got, want); d != "" {
			r.add(mism("msglog", "messages of %s: %s", l.spec.Src, d))
		}
	}
	return nil
}

// stamped: is a time as written in logs between two others?
func stamped(s string, from, to time.Time) string {
	t, err := time.Parse("2006-01-02 15:04:05", s)
	if err != nil {
		return fmt.Sprintf("no time: %v", err)
	}
	const slack = 5 * time.Second // clocks get adjusted
	if t.Before(from.Add(-slack)) || t.After(to.Add(slack)) {
		return fmt.Sprintf("the time must be between %s and %s", from.UTC().Format("2006-01-02 15:04:05"), to.UTC().Format("2006-01-02 15:04:05"))
	}
	return ""
}

var dnRe = regexp.MustCompile(`^(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d) \[(\d+/\d+)\] (\S+ \S+ -> \S+)$`)

// checkDnLog judges what the do-nothing log and the SMTP log say about the
// session as a do-nothing client.
func (r *runner) checkDnLog(l *liveSess, log []string) error {
	var got []string
	for _, s := range log {
		if strings.HasPrefix(s, "! ") && strings.Contains(s, "yakker") {
			got = append(got, s[2:])
		}
	}
	if r.c.Opt.SMTPLog {
		if d := diffLists(got, l.m.Notice); d != "" {
			r.add(mism("dnlog", "do-nothing notices of %s: %s", l.spec.Src, d))
		}
	}
	if !r.c.Opt.DnLog {
		return nil
	}
	s, err := r.readFrom(logDn, &r.dnOff)
	if err != nil {
		return err
	}
	if s != "" && !strings.HasSuffix(s, "\n") {
		r.add(mism("dnlog", "the do-nothing log ends in a partial line: %q", tail([]byte(s), 100)))
		return nil
	}
	for _, ln := range strings.Split(s, "\n") {
		if ln == "" {
			continue
		}
		m := dnRe.FindStringSubmatch(ln)
		if m == nil {
			r.add(mism("dnlog", "malformed do-nothing log line %q", ln))
			return nil
		}
		if !r.known[m[2]] {
			r.add(mism("dnlog", "do-nothing log line %q belongs to no session", ln))
			return nil
		}
		if x := stamped(m[1], l.opened, r.srv.now()); x != "" && !r.others(l) {
			r.add(mism("dnlog", "do-nothing log line %q: %s", ln, x))
		}
		r.dnLines[m[2]] = append(r.dnLines[m[2]], m[3])
	}
	var want []string
	for _, k := range l.m.Dn {
		want = append(want, fmt.Sprintf("%s %s -> %s", k, l.spec.Src, l.c.Laddr))
	}
	if d := diffLists(r.dnLines[l.prefix], want); d != "" {
		r.add(mism("dnlog", "do-nothing log of %s: %s", l.spec.Src, d))
	}
	return nil
}

// readMsgLog takes in what the message log has gained.
func (r *runner) readMsgLog() error {
	s, err := r.readFrom(logMsg, &r.msgOff)
	if err != nil || s == "" {
		return err
	}
	if !strings.HasSuffix(s, "\n") {
		r.add(mism("msglog", "the message log ends in a partial line %q", s))
		return nil
	}
	for _, x := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		if len(x) < 20 || x[4] != '-' || x[19] != ' ' {
			r.add(mism("msglog", "malformed message log line %q", x))
			return nil
		}
		r.msgLines = append(r.msgLines, x)
	}
	return nil
}

func (r *runner) others(me *liveSess) bool {
	for _, l := range r.live {
		if l != me {
			return true
		}
	}
	return false
}

func sha(s string) string { return fmt.Sprintf("%x", sha1.Sum([]byte(s))) }

// bodyHash is the hash of the message body, or "" if the message is too
// mangled to tell.
func bodyHash(data string) string {
	if _, err := mail.ReadMessage(strings.NewReader(data)); err != nil {
		return "<cannot-parse-message>"
	}
	if strings.HasPrefix(data, "\n") {
		return sha(data[1:])
	}
	i := strings.Index(data, "\n\n")
	if i < 0 {
		return sha("")
	}
	return sha(data[i+2:])
}

func (l *liveSess) msgLine(m *sentMsg) string {
	var b strings.Builder
	fmt.Fprintf(&b, "[%s] from %s / <%s> to", l.prefix, l.c.Raddr, m.m.From)
	for _, a := range m.m.Rcpts {
		fmt.Fprintf(&b, " <%s>", a)
	}
	fmt.Fprintf(&b, ": message %d bytes hash %s body %s | local %s helo '%s'", len(m.m.Data), sha(m.m.Data),
		bodyHash(m.m.Data), l.c.Laddr, m.m.Helo)
	if m.tls != nil {
		fmt.Fprintf(&b, " tls:cipher 0x%04x tls:proto 0x%04x", m.tls.CipherSuite, m.tls.Version)
	}
	return b.String()
}

var protoName = map[uint16]string{tls.VersionTLS12: "TLSv1.2", tls.VersionTLS13: "TLSv1.3"}

// fileRest is what a saved message must hold after its id line, up to and
// after the TLS line.
func (l *liveSess) fileRest(m *sentMsg) (head, tlsl, rest string) {
	var b strings.Builder
	fmt.Fprintf(&b, "remote %s to %s with helo '%s'\n", l.spec.Src, l.c.Laddr, m.m.Helo)
	dns := func(k string, n []string) {
		if len(n) > 0 {
			fmt.Fprintf(&b, "%s %s\n", k, strings.Join(n, " "))
		}
	}
	dns("remote-dns", l.m.c.rdns.Ver)
	dns("remote-dns-nofwd", l.m.c.rdns.NoFwd)
	dns("remote-dns-inconsist", l.m.c.rdns.Incons)
	head = b.String()
	if m.tls != nil {
		tlsl = fmt.Sprintf(" proto %s", protoName[m.tls.Version])
		if m.sni() != "" {
			tlsl += fmt.Sprintf(" server-name '%s'", m.sni())
		}
		if m.cc != "" {
			tlsl += fmt.Sprintf(" client-name '%s'", clientCertName[m.cc])
			if clientCertOK[m.cc] {
				tlsl += " client-name-verified"
			}
		}
		tlsl += "\n"
	}
	b.Reset()
	fmt.Fprintf(&b, "from <%s>\n", m.m.From)
	for _, a := range m.m.Rcpts {
		fmt.Fprintf(&b, "to <%s>\n", a)
	}
	fmt.Fprintf(&b, "hash %s bytes %d\nbodyhash %s\nbody\n%s", sha(m.m.Data), len(m.m.Data), bodyHash(m.m.Data), m.m.Data)
	return head, tlsl, b.String()
}

func (m *sentMsg) sni() string { return m.tls.ServerName }

func (l *liveSess) matchFile(content string, m *sentMsg) string {
	idl, rest, ok := strings.Cut(content, "\n")
	want := fmt.Sprintf("id %s %s ", l.prefix, l.c.Raddr)
	if !ok || !strings.HasPrefix(idl, want) || len(idl) != len(want)+19 {
		return fmt.Sprintf("id line %q must start with %q", idl, want)
	}
	// (the same message sent before in this session may have been the one saved)
	from := m.t0
	for _, o := range l.msgs {
		if o.m.Data == m.m.Data && o.t0.Before(from) {
			from = o.t0
		}
	}
	if x := stamped(idl[len(want):], from, m.t1); x != "" {
		return fmt.Sprintf("id line %q: %s", idl, x)
	}
	return l.matchRest(rest, m)
}

func (l *liveSess) matchRest(rest string, m *sentMsg) string {
	h, t, b := l.fileRest(m)
	if !strings.HasPrefix(rest, h) {
		return fmt.Sprintf("metadata %q must start with %q", clip(rest), h)
	}
	rest = rest[len(h):]
	if t != "" {
		p := fmt.Sprintf("tls on cipher 0x%04x", m.tls.CipherSuite)
		line, r2, _ := strings.Cut(rest, "\n")
		if !strings.HasPrefix(line, p) || !strings.HasSuffix(line+"\n", t) {
			return fmt.Sprintf("TLS line %q must be %q ... %q", line, p, t)
		}
		mid := line[len(p) : len(line)+1-len(t)]
		if n := cipherName[m.tls.CipherSuite]; mid != "" && mid != " name "+n || mid == "" && n != "" {
			return fmt.Sprintf("TLS line %q must name the cipher %q", line, n)
		}
		rest = r2
	}
	if rest != b {
		return fmt.Sprintf("%q must be %q", clip(rest), clip(b))
	}
	return ""
}

// names for the suites Go negotiates here, as sinksmtp writes them
var cipherName = map[uint16]string{
	0x1301: "TLSv1.3:TLS_AES_128_GCM_SHA256:128", 0x1302: "TLSv1.3:TLS_AES_256_GCM_SHA384:256",
	0x1303: "TLSv1.3:TLS_CHACHA20_POLY1305_SHA256:256",
	0xC02B: "TLSv1.2:ECDHE-ECDSA-AES128-GCM-SHA256:128", 0xC02C: "TLSv1.2:ECDHE-ECDSA-AES256-GCM-SHA384:256",
	0xCCA9: "TLSv1.2:ECDHE-ECDSA-CHACHA20-POLY1305:256",
	0xC023: "TLSv1.2:ECDHE-ECDSA-AES128-SHA256:128", 0xC009: "TLSv1:ECDHE-ECDSA-AES128-SHA:128", 0xC00A: "TLSv1:ECDHE-ECDSA-AES256-SHA:256",
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:300] + "..." + s[len(s)-300:]
	}
	return s
}

func (r *runner) listDirs() (map[string]map[string]string, error) {
	out := map[string]map[string]string{}
	for _, d := range r.dirs {
		m := map[string]string{}
		ents, err := os.ReadDir(r.srv.path(d))
		if err != nil {
			return nil, infraf("%v", err)
		}
		for _, e := range ents {
			b, err := os.ReadFile(filepath.Join(r.srv.path(d), e.Name()))
			if err != nil {
				return nil, infraf("%v", err)
			}
			m[e.Name()] = string(b)
		}
		out[d] = m
	}
	return out, nil
}

// envelope gives the EHLO name, sender and recipients of a saved file.
func envelope(c string) string {
	var out []string
	head, _, _ := strings.Cut(c, "\nbody\n")
	for _, l := range strings.Split(head, "\n") {
		switch {
		case strings.HasPrefix(l, "remote "):
			if _, h, ok := strings.Cut(l, " with helo "); ok {
				out = append(out, "helo "+h)
			}
		case strings.HasPrefix(l, "from "), strings.HasPrefix(l, "to "):
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

func (r *runner) hashType() string {
	if r.c.Opt.SaveHash == "" {
		return "all"
	}
	return r.c.Opt.SaveHash
}

// checkSaved compares the save directories with what the session must have
// left there. Files of other live sessions are left for those.
func (r *runner) checkSaved(l *liveSess) error {
	now, err := r.listDirs()
	if err != nil {
		return err
	}
	for d, old := range r.saved {
		for n, c := range old {
			if now[d][n] != c {
				_, have := now[d][n]
				r.add(mism("save", "existing file %s/%s was changed (still there: %v)", d, n, have))
				return nil
			}
		}
	}
	take := func(d, n string) { r.saved[d][n] = now[d][n] }
	for _, m := range l.msgs {
		if m.m.SaveDir == "" || m.failed {
			continue
		}
		d := strings.TrimPrefix(m.m.SaveDir, "./")
		what := fmt.Sprintf("message from <%s> to %v in %s", m.m.From, m.m.Rcpts, d)
		if c, ok := now[d][m.id]; ok && r.saved[d][m.id] == "" && !r.alien[d+"/"+m.id] {
			h, _, b := l.fileRest(m)
			if got, want := envelope(c), envelope(h+b); got != want {
				r.add(mism("envelope", "%s: file %s has the envelope %q, must be %q", what, m.id, clip(got), clip(want)))
			}
		}
		name := ""
		switch r.hashType() {
		case "msg":
			name = sha(m.m.Data)
		case "full":
			// the hash of what the file must hold after its id line; the
			// TLS line is taken from the file itself
			if m.tls == nil {
				h, _, b := l.fileRest(m)
				name = sha(h + b)
			} else {
				name = m.id
			}
		case "all":
			name = m.id
		}
		if name == "" { // stalled under "all"/TLS: find it by contents
			for n, c := range now[d] {
				if _, old := r.saved[d][n]; !old && l.matchFile(c, m) == "" {
					name = n
				}
			}
			for n, c := range now[d] {
				// the same message may have been saved before
				_, rest, _ := strings.Cut(c, "\n")
				if name == "" && (l.matchFile(c, m) == "" || r.hashType() == "full" && l.matchRest(rest, m) == "") {
					name = n
				}
			}
			if name == "" {
				r.add(mism("save", "%s: no file holds it (%d files)", what, len(now[d])))
				return nil
			}
		}
		if m.id != "" && m.id != name {
			// which of the two is wrong?
			if _, ok := now[d][m.id]; ok {
				r.add(mism("savename", "%s: saved as %s, must be %s by -save-hash %s", what, m.id, name, r.hashType()))
			} else {
				r.add(mism("id", "%s: the reply says %s, the file's name must be %s", what, m.id, name))
			}
			return nil
		}
		c, ok := now[d][name]
		if !ok {
			r.add(mism("save", "%s: file %s does not exist (%d files there)", what, name, len(now[d])))
			return nil
		}
		if oc, dup := r.saved[d][name]; dup {
			if r.alien[d+"/"+name] {
				r.st.class("name taken by something else")
				continue
			}
			// an older copy: it must be what the name says
			switch r.hashType() {
			case "msg":
				if !strings.HasSuffix(oc, "body\n"+m.m.Data) {
					r.add(mism("savename", "%s: different data shares the name %s", what, name))
					return nil
				}
			default:
				_, orest, _ := strings.Cut(oc, "\n")
				if x := l.matchRest(orest, m); x != "" {
					r.add(mism("savename", "%s: shares the name %s with something different: %s", what, name, x))
					return nil
				}
			}
			continue
		}
		if x := l.matchFile(c, m); x != "" {
			if lo, ok := r.leftover[d][name]; ok && lo == c && r.completeAs(c, l, m) {
				take(d, name)
				continue
			}
			r.add(mism("save", "%s: file %s: %s", what, name, x))
			return nil
		}
		if r.c.Sync && !m.flushed(d, len(c)) {
			r.add(mism("save", "%s: file %s (%d bytes) was not flushed to disk before the reply; flushed were %q", what, name, len(c), m.syncs))
			return nil
		}
		hashed := ""
		switch r.hashType() {
		case "all":
			hashed = sha(c)
		case "full":
			_, rest, _ := strings.Cut(c, "\n")
			hashed = sha(rest)
		case "msg":
			hashed = sha(m.m.Data)
		}
		if hashed != name {
			r.add(mism("savename", "%s: named %s, must be %s by -save-hash %s", what, name, hashed, r.hashType()))
			return nil
		}
		take(d, name)
	}
	for d := range now {
		for n, c := range now[d] {
			if _, ok := r.saved[d][n]; ok {
				continue
			}
			if r.ofOther(c, l) {
				continue
			}
			if lo, ok := r.leftover[d][n]; ok && lo == c {
				continue
			}
			if anyFailed(l) {
				r.keepLeftover(d, n, c)
				continue
			}
			r.add(mism("save", "unexpected file %s/%s: %q", d, n, clip(c)))
			return nil
		}
	}
	return nil
}

// ofOther: the file belongs to another session still under way.
func (r *runner) ofOther(content string, me *liveSess) bool {
	f := strings.Fields(content)
	if len(f) < 2 || f[0] != "id" {
		return false
	}
	for _, l := range r.live {
		if l != me && l.prefix == f[1] {
			return true
		}
	}
	return false
}

// Abandon: the client vanishes inside a message.
func (s *SessModel) Abandon() {}

// midCounters judges the statistics while sessions are open, once the server
// has dealt with everything it was told.
func (r *runner) midCounters() error {
	if !r.c.Opt.Pprof || r.noCount || r.env.soft("count") && r.env.soft("last") {
		return nil
	}
	r.st.class("statistics while sessions are open")
	soft := r.soft
	defer func() { r.soft = soft }()
	deadline := time.Now().Add(3 * time.Second)
	for {
		if err := r.checkCounters(); err != nil {
			return err
		}
		if len(r.mism) == 0 || time.Now().After(deadline) {
			return nil
		}
		r.mism = nil
		time.Sleep(time.Millisecond)
	}
}

func (r *runner) checkCounters() error {
	v, err := r.srv.Vars()
	if err != nil {
		if !r.srv.Alive() {
			return nil
		}
		return err
	}
	get := func(path ...string) (int, bool) {
		var x any = v
		for _, p := range path {
			m, ok := x.(map[string]any)
			if !ok {
				return 0, false
			}
			x = m[p]
		}
		f, ok := x.(float64)
		return int(f), ok
	}
	paths := map[string][]string{
		"connections": {"events", "connections"}, "tls_errors": {"events", "tls_errors"}, "yakkers": {"events", "yakkers"},
		"notls_conns": {"events", "notls_conns"}, "rules_errors": {"events", "rules_errors"}, "yakker_adds": {"events", "yakker_adds"},
		"yakker_forces": {"events", "yakker_forces"}, "rsetdrops": {"events", "rsetdrops"}, "abandons": {"events", "abandons"},
		"refuseds": {"events", "refuseds"}, "ehlo": {"smtpcounts", "commands", "ehlo"}, "mailfrom": {"smtpcounts", "commands", "mailfrom"},
		"rcptto": {"smtpcounts", "commands", "rcptto"}, "data": {"smtpcounts", "commands", "data"},
		"starttls": {"smtpcounts", "commands", "starttls"}, "ehlo_ok": {"smtpcounts", "accepted", "ehlo"},
		"mailfrom_ok": {"smtpcounts", "accepted", "mailfrom"}, "rcptto_ok": {"smtpcounts", "accepted", "rcptto"},
		"data_ok": {"smtpcounts", "accepted", "data"}, "messages": {"smtpcounts", "accepted", "messages"},
		"tlson": {"smtpcounts", "ehlo_tlson"}, "quits": {"smtpcounts", "quits"}, "aborts": {"smtpcounts", "aborts"},
		"rsets": {"smtpcounts", "rsets"},
	}
	var names []string
	for n := range paths {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if n == "abandons" || n == "refuseds" {
			continue // not part of the property
		}
		got, ok := get(paths[n]...)
		if !ok {
			r.add(mism("count", "counter %v is missing", paths[n]))
			continue
		}
		if got != r.model.cnt[n] {
			r.add(mism("count", "counter %s is %d, the true total is %d", strings.Join(paths[n], "."), got, r.model.cnt[n]))
		}
	}
	r.checkLast(v)
	for _, k := range []string{"dnsbl_hits", "sbl_hits"} {
		want := r.model.dbl
		if k == "sbl_hits" {
			want = r.model.sbl
		}
		hits, _ := v[k].(map[string]any)
		for d, n := range want {
			if f, _ := hits[d].(float64); int(f) != n {
				r.add(mism("count", "%s of %s is %v, the true total is %d", k, d, hits[d], n))
			}
		}
		for d := range hits {
			if want[d] == 0 {
				r.add(mism("count", "%s lists %s, which never hit", k, d))
			}
		}
	}
	return nil
}

// checkLast judges the times events last happened and the tables per local
// address.
func (r *runner) checkLast(v map[string]any) {
	table := func(what, laddr string, x any) {
		got, _ := x.(map[string]any)
		for k, sp := range r.last[laddr] {
			s, ok := got[k].(string)
			if !ok {
				r.add(mism("last", "%s: no time for %s", what, k))
			} else if d := stamped(s, sp.from, sp.to); d != "" {
				r.add(mism("last", "%s: %s was %s: %s", what, k, s, d))
			}
		}
		for k, s := range got {
			if _, ok := r.last[laddr][k]; !ok && s != "" {
				r.add(mism("last", "%s: %s never happened, but was %v", what, k, s))
			}
		}
	}
	table("last", "", v["last"])
	if !r.c.Opt.PerIP && !r.c.Opt.Two {
		for _, k := range []string{"connects_to", "lasts_to"} {
			if _, ok := v[k]; ok {
				r.add(mism("last", "%s is there without -statsperip", k))
			}
		}
		return
	}
	ct, _ := v["connects_to"].(map[string]any)
	lt, _ := v["lasts_to"].(map[string]any)
	for a, n := range r.connTo {
		if f, _ := ct[a].(float64); int(f) != n {
			r.add(mism("last", "connects_to %s is %v, must be %d", a, ct[a], n))
		}
		table("lasts_to "+a, a, lt[a])
	}
	for a, n := range ct {
		if r.connTo[a] == 0 {
			r.add(mism("last", "connects_to has %s: %v, where nobody connected", a, n))
		}
	}
	for a := range lt {
		if r.connTo[a] == 0 {
			r.add(mism("last", "lasts_to has %s, where nobody connected", a))
		}
	}
}

// ruleReport checks what is said about rule loading failures.
func (r *runner) ruleReport(l *liveSess) {
	if l.m.rulesGood {
		r.failKey = ""
		return
	}
	if r.model.badFile == "" || !r.c.Fresh {
		// (a server used before may have reported the same thing already)
		return
	}
	key, kind := r.model.failState(), r.model.badFile+" "+r.model.badKind
	switch {
	case kind != r.failKind:
		// a failure of another file or another sort: must be reported
		deadline := time.Now().Add(10 * time.Second)
		for {
			s, err := r.readFrom("stderr", &r.errOff)
			if err != nil {
				return
			}
			r.errText += s
			if strings.Contains(r.errText, r.model.badFile) {
				break
			}
			if time.Now().After(deadline) {
				r.add(mism("stderr", "the failure of rule file %s (%s) is not reported; stderr has %q", r.model.badFile, r.model.badKind, clip(r.errText)))
				return
			}
			time.Sleep(2 * time.Millisecond)
		}
		r.errText = ""
		r.failSeen = true
	case key == r.failKey:
		// the very same failure again: no new report
		s, err := r.readFrom("stderr", &r.errOff)
		if err != nil {
			return
		}
		if strings.Contains(s, r.model.badFile) && !r.failSeen {
			r.failSeen = true // the first one came late
		} else if strings.Contains(s, r.model.badFile) {
			r.add(mism("stderr", "the same rule failure is reported again: %q", clip(s)))
		}
	default:
		s, _ := r.readFrom("stderr", &r.errOff)
		r.failSeen = strings.Contains(s, r.model.badFile)
	}
	r.failKey, r.failKind = key, kind
}
