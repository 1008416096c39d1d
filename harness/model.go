package main

// The reference model: what sinksmtp, with the harness's smtpd underneath,
// must do. It evaluates rule ASTs, never rule text.

import (
	"fmt"
	"net"
	"sort"
	"strings"
)

var phaseNum = map[string]int{"connect": 1, "helo": 2, "from": 3, "to": 4, "data": 5, "message": 6}

const (
	phConnect = 1
	phHelo    = 2
	phFrom    = 3
	phTo      = 4
	phData    = 5
	phMessage = 6
)

func (t *Term) needs() int {
	n := phConnect
	switch t.Op {
	case "from", "from-has", "source", "tls":
		n = phFrom
	case "to", "to-has":
		n = phTo
	case "helo", "ehlo", "helo-has":
		n = phHelo
	case "dbl":
		for _, o := range t.Opts {
			switch o {
			case "from", "any":
				n = max(n, phFrom)
			case "helo", "ehlo":
				n = max(n, phHelo)
			}
		}
	}
	for _, k := range t.Kids {
		n = max(n, k.needs())
	}
	return n
}

func (r *Rule) needs() int {
	n := phConnect
	for _, c := range r.Clauses {
		for _, t := range c.Terms {
			n = max(n, t.needs())
		}
	}
	return n
}

func (r *Rule) eligible(ph int) bool {
	if r.needs() > ph {
		return false
	}
	return r.Phase == "" || phaseNum[r.Phase] == ph
}

// evalCtx is what a rule can see.
type evalCtx struct {
	rip, lip string
	rdns     RDNS
	heloCmd  string
	helo     string
	from     string
	rcpt     string
	tls      bool
	dns      *DNSData
	lists    func(string) []string
	hits     map[string]bool
	miss     bool
	nEval    int // leaf evaluations
	nTrue    int
}

func anyOf(m map[string]bool, opts []string) bool {
	for _, o := range opts {
		if m[o] {
			return true
		}
	}
	return false
}

func (c *evalCtx) pats(t *Term) ([]string, bool) {
	if t.File == "" {
		return []string{t.Arg}, true
	}
	l := c.lists(t.File)
	if len(l) == 0 {
		c.miss = true
		return nil, false
	}
	return l, true
}

func (c *evalCtx) leaf(t *Term) bool {
	hasAddr := func(a string) map[string]bool {
		m := addrAttrs(a)
		if d, ok := wellFormedDomain(a); ok {
			m[c.dns.deliverable(d)] = true
		}
		return m
	}
	match := func(f func(string, string) bool, vals ...string) bool {
		ps, ok := c.pats(t)
		if !ok {
			return false
		}
		for _, p := range ps {
			for _, v := range vals {
				if f(v, p) {
					return true
				}
			}
		}
		return false
	}
	switch t.Op {
	case "all":
		return true
	case "tls":
		return c.tls == (t.Arg == "on")
	case "from":
		return match(refMatchAddr, c.from)
	case "to":
		return match(refMatchAddr, c.rcpt)
	case "helo", "ehlo":
		return match(refMatchHost, c.helo)
	case "host":
		return match(refMatchHost, c.rdns.Ver...)
	case "source":
		a := match(refMatchHost, c.rdns.Ver...)
		b := match(refMatchHost, c.helo)
		f := match(func(v, p string) bool { return refMatchAddr(v, "@"+p) }, c.from)
		return a || b || f
	case "ip":
		return match(refMatchIP, c.rip)
	case "from-has":
		return anyOf(hasAddr(c.from), t.Opts)
	case "to-has":
		return anyOf(hasAddr(c.rcpt), t.Opts)
	case "helo-has":
		return anyOf(heloAttrs(c.heloCmd, c.helo, c.rip, c.lip), t.Opts)
	case "dns":
		return anyOf(dnsAttrs(c.rdns), t.Opts)
	case "dnsbl":
		s := strings.Split(c.rip, ".")
		if len(s) != 4 {
			return false
		}
		d := strings.TrimSuffix(t.Arg, ".")
		ips, _ := c.dns.addrsOf(s[3] + "." + s[2] + "." + s[1] + "." + s[0] + "." + d)
		if len(ips) > 0 {
			c.hits[d+"."] = true
			return true
		}
		return false
	case "dbl":
		var names []string
		for _, o := range t.Opts {
			if (o == "helo" || o == "ehlo" || o == "any") && c.helo != "" {
				names = append(names, c.helo)
			}
			if o == "host" || o == "any" {
				for _, l := range [][]string{c.rdns.Ver, c.rdns.NoFwd, c.rdns.Incons} {
					for _, n := range l {
						names = append(names, strings.TrimSuffix(n, "."))
					}
				}
			}
			if o == "from" || o == "any" {
				if d, ok := wellFormedDomain(c.from); ok {
					names = append(names, d)
				}
			}
		}
		d := strings.TrimSuffix(t.Arg, ".")
		res := false
		for _, n := range names {
			if ips, _ := c.dns.addrsOf(n + "." + d); len(ips) > 0 {
				c.hits[d+"."] = true
				res = true
			}
		}
		return res
	}
	panic("model: unknown operator " + t.Op)
}

func (c *evalCtx) eval(t *Term) bool {
	switch t.Op {
	case "and":
		for _, k := range t.Kids {
			if !c.eval(k) {
				return false
			}
		}
		return true
	case "or":
		for _, k := range t.Kids {
			if c.eval(k) {
				return true
			}
		}
		return false
	case "not":
		return !c.eval(t.Kids[0])
	}
	c.nEval++
	r := c.leaf(t)
	if r {
		c.nTrue++
	}
	return r
}

// try evaluates a rule once; miss means it consulted an empty file.
func (c *evalCtx) try(r *Rule) (cl *Clause, miss bool) {
	c.miss = false
	for i := range r.Clauses {
		ok := true
		for _, t := range r.Clauses[i].Terms {
			if !c.eval(t) {
				ok = false
				break
			}
		}
		if c.miss {
			return nil, true
		}
		if ok {
			return &r.Clauses[i], false
		}
	}
	return nil, false
}

// ---- the server

type ent struct{ when, count int }

type ttlMap map[string]*ent

func (m ttlMap) lookup(ip string, now, ttl int) (bool, int) {
	e := m[ip]
	if e == nil {
		return false, 0
	}
	if now-e.when < ttl {
		return true, e.count
	}
	delete(m, ip)
	return false, 0
}

func (m ttlMap) add(ip string, now, ttl int) int {
	e := m[ip]
	if e == nil {
		e = &ent{}
		m[ip] = e
	} else if now-e.when >= ttl {
		e.count = 0
	}
	e.count++
	e.when = now
	return e.count
}

func (m ttlMap) set(ip string, now, ttl, cnt int) int {
	e := m[ip]
	if e == nil {
		e = &ent{}
		m[ip] = e
	} else if now-e.when >= ttl {
		e.count = 0
	}
	o := e.count
	e.when, e.count = now, cnt
	return o
}

const tlsTTL = 72 * 3600

// Stats says what a case exercised.
type Stats struct {
	Decided    int // commands decided by a rule
	Passed     int // rules evaluated without matching before a decision
	Matched    int // set-with matches
	Misses     int
	LeafTrue   int
	LeafFalse  int
	Multi      int // decisions over several recipients
	Deferred   int
	Messages   int
	Saved      int
	Hits       int
	Stalled    int
	TLS        int
	TLSFail    int
	Notes      int
	TextChecks int
	Classes    map[string]int
}

func (s *Stats) class(k string) {
	if s.Classes == nil {
		s.Classes = map[string]int{}
	}
	s.Classes[k]++
}

// ServerModel is the state of the modelled server.
type ServerModel struct {
	opt   Options
	rules map[string]*RuleFile
	lists map[string]*string // pattern files; nil or absent: missing
	dns   *DNSData
	now   int
	yak   ttlMap
	notls ttlMap
	cnt   map[string]int
	dbl   map[string]int
	sbl   map[string]int // SBL records
	st    *Stats
	conn  *ConnCfg
	// lastFail describes the last rule loading failure.
	lastFail string
	// badFile is the file that made the last load fail, badKind how.
	badFile, badKind string
}

func newServerModel(o Options, dns *DNSData, st *Stats) *ServerModel {
	return &ServerModel{opt: o, rules: map[string]*RuleFile{}, lists: map[string]*string{}, dns: dns,
		yak: ttlMap{}, notls: ttlMap{}, cnt: map[string]int{}, dbl: map[string]int{}, sbl: map[string]int{}, st: st}
}

func leafRule(phase, action string, t ...*Term) *Rule {
	return &Rule{Phase: phase, Action: action, Clauses: []Clause{{Terms: t}}}
}

var stallAll = []*Rule{leafRule("", "stall", &Term{Op: "all"})}

func (m *ServerModel) flatten(name string, depth int) ([]*Rule, bool) {
	f := m.rules[name]
	if f == nil || f.Bad != "" || depth > 20 {
		m.badFile, m.badKind = name, "missing"
		if f != nil {
			m.badKind = f.Bad
		}
		return nil, false
	}
	var out []*Rule
	for _, it := range f.Items {
		if it.Include != "" {
			l, ok := m.flatten(it.Include, depth+1)
			if !ok {
				return nil, false
			}
			out = append(out, l...)
			continue
		}
		out = append(out, it.Rule)
	}
	return out, true
}

func (m *ServerModel) load() ([]*Rule, bool) {
	var out []*Rule
	if !m.opt.NoStd {
		out = append(out,
			leafRule("", "reject", &Term{Op: "from-has", Opts: []string{"bad", "route"}}),
			leafRule("", "reject", &Term{Op: "to-has", Opts: []string{"bad", "route"}}),
			leafRule("", "reject", &Term{Op: "helo-has", Opts: []string{"none"}}))
	}
	if m.opt.M {
		out = append(out, leafRule("message", "reject", &Term{Op: "all"}))
	}
	if m.opt.FromReject {
		out = append(out, leafRule("", "reject", &Term{Op: "from", File: fileFromReject}))
	}
	if m.opt.ToAccept {
		out = append(out, leafRule("", "reject", &Term{Op: "not", Kids: []*Term{{Op: "to", File: fileToAccept}}}))
	}
	if m.opt.HeloReject {
		out = append(out, leafRule("from", "reject", &Term{Op: "helo", File: fileHeloReject}))
	}
	for i := 0; i < m.opt.NRules; i++ {
		l, ok := m.flatten(ruleFileName(i), 0)
		if !ok {
			return nil, false
		}
		out = append(out, l...)
	}
	return out, true
}

// failState identifies the current state of all rule files.
func (m *ServerModel) failState() string {
	var l []string
	for n, f := range m.rules {
		l = append(l, n+"\x00"+f.Bad+"\x00"+f.Text)
	}
	sort.Strings(l)
	return strings.Join(l, "\x01")
}

// Msg is a message the server must have handled.
type Msg struct {
	Data    string
	From    string
	Rcpts   []string
	Helo    string
	SaveDir string // "" if not saved
	TLS     bool
}

// SessModel is the state of one modelled connection.
type SessModel struct {
	m         *ServerModel
	c         evalCtx
	rules     []*Rule
	rulesGood bool
	stalled   bool
	counts    bool // counts towards do-nothing
	somewhere bool
	dropped   bool // at connect
	forced    bool // make-yakker matched at some time

	state    string // init helo mail rcpt post gone
	ahelo    string // accepted values
	afrom    string
	rcpts    []string
	tlson    bool
	badGreet bool // the last greeting was refused, after another
	savedir  string
	lastHit  string
	bad      int

	encState   bool   // the session is encrypted
	ccert      string // client certificate presented
	ended      bool
	reachedMin bool   // at its end, it had reached -minphase
	cert       string // certificates of this connection
	name       string // greeting name
	def        string // deferred action
	defProps   map[string]string
	defHits    map[string]bool

	tlsOK  bool // TLS configured on this connection
	askCrt bool // client certificate requested
	// lastGood is the result of the last decision
	lastGood bool

	props map[string]string

	// Trace is what the SMTP log must hold, in order: "r ...", "w ..." (put
	// there by the executor), "note ...", "hit ..." (by the model).
	Trace []string
	// Dn is what the do-nothing log must say of the session, Notice the SMTP
	// log.
	Dn, Notice []string
	Msgs       []*Msg
}

// Expect is what the client must see in answer to a step.
type Expect struct {
	Drop   bool // connection closed without a reply
	Class  int  // first digit
	Msg    []string
	HasMsg bool
	Close  bool // connection closed after the reply
	// for EHLO: whether STARTTLS must be offered
	EHLO     bool
	StartTLS bool
	// the reply must name the message (2xx/5xx to a message)
	ID bool
}

func (m *ServerModel) NewSession(src, dst string, port int) *SessModel {
	s := &SessModel{m: m, state: "init"}
	s.c = evalCtx{rip: src, lip: dst, dns: m.dns}
	cache := map[string][]string{}
	s.c.lists = func(n string) []string {
		if l, ok := cache[n]; ok {
			return l
		}
		var l []string
		if p := m.lists[n]; p != nil {
			l = listLines(*p)
		}
		cache[n] = l
		return l
	}
	if m.opt.D {
		s.savedir = dirSave
	}
	m.cnt["connections"]++
	s.rules, s.rulesGood = m.load()
	if s.rulesGood {
		m.st.class("good rules")
	} else {
		m.st.class("broken rules")
		s.rules = stallAll
		m.cnt["rules_errors"]++
	}
	s.counts = s.rulesGood && m.opt.DnCount > 0
	hit, n := m.yak.lookup(src, m.now, m.dndur())
	if m.opt.DnCount > 0 && hit && n >= m.opt.DnCount && m.opt.SMTPLog {
		s.stalled, s.counts = true, false
		s.rules = stallAll
		m.cnt["yakkers"]++
		s.Dn = append(s.Dn, "connection")
		m.st.Stalled++
	}
	s.cert = m.opt.Cert
	s.name = m.opt.Helo
	if s.name == "" {
		s.name = m.localName(dst, port)
	}
	if m.opt.ConnCfg && m.conn != nil {
		if l := m.conn.find(dst, port); l != nil {
			m.st.class("conncfg match")
			s.cert = l.Cert
			if l.Host != "" {
				s.name = l.Host
			}
		}
	}
	blk, n := m.notls.lookup(src, m.now, tlsTTL)
	if s.cert != "" && !(blk && n >= 2) {
		s.tlsOK = true
		s.askCrt = n == 0
	}
	if blk && n >= 2 {
		m.cnt["notls_conns"]++
	}
	s.c.rdns = m.dns.rdns(src, m.opt.Hosts)
	act := s.decide(phConnect)
	if act == "reject" {
		s.dropped = true
		s.state = "gone"
		s.Trace = append(s.Trace, "drop "+s.c.rip)
	}
	return s
}

// localName is the greeting name in the absence of any setting.
func (m *ServerModel) localName(dst string, port int) string {
	if m.opt.Hosts && hostsPTR[dst] != nil {
		return strings.TrimSuffix(hostsPTR[dst][0], ".")
	}
	if l := m.dns.PTR[dst]; len(l) > 0 && !m.dns.Fail["ptr:"+dst] {
		return l[0]
	}
	return net.JoinHostPort(dst, itoa(port))
}

// ConnLine is one line of a -conncfg file.
type ConnLine struct {
	Local string `json:"local"`
	Host  string `json:"host,omitempty"`
	Cert  string `json:"cert,omitempty"`
}

// ConnCfg is a -conncfg file; Bad: it does not load.
type ConnCfg struct {
	Lines []ConnLine `json:"lines,omitempty"`
	Text  string     `json:"text"`
	Bad   string     `json:"bad,omitempty"` // "", "missing", "unreadable", "syntax"
	// Copy is the certificate the files cx.crt and cx.key are copies of.
	Copy string `json:"copy,omitempty"`
}

func (c *ConnCfg) find(dst string, port int) *ConnLine {
	if c.Bad != "" {
		return nil
	}
	for i := range c.Lines {
		l := &c.Lines[i]
		if l.Local == "*" || l.Local == net.JoinHostPort(dst, itoa(port)) || refMatchIP(dst, l.Local) {
			return l
		}
	}
	return nil
}

func (m *ServerModel) dndur() int {
	if m.opt.DnDur > 0 {
		return m.opt.DnDur
	}
	return 8 * 3600
}

// decide runs the rules for a phase and applies the with-options.
func (s *SessModel) decide(ph int) string {
	act, props, hits := s.decide1(ph)
	// DNS blocklist hit reporting
	if len(hits) > 0 && s.m.opt.SMTPLog && !s.stalled {
		var l []string
		for h := range hits {
			l = append(l, h)
		}
		sort.Strings(l)
		line := strings.Join(l, " ")
		if line != s.lastHit {
			s.Trace = append(s.Trace, "hit "+line)
			s.lastHit = line
			for _, h := range l {
				s.m.dbl[h]++
				if h == sblDomain+"." {
					if rs := s.m.dns.sblRecords(s.c.rip); len(rs) > 0 {
						s.Trace = append(s.Trace, "sbl "+strings.Join(rs, " "))
						for _, x := range rs {
							s.m.sbl[x]++
						}
						s.m.st.class("SBL records")
					}
				}
			}
		}
		s.m.st.Hits++
	}
	if d := props["savedir"]; d != "" {
		s.savedir = d
	}
	if n := props["note"]; n != "" {
		s.m.st.Notes++
		if s.m.opt.SMTPLog && !s.stalled {
			s.Trace = append(s.Trace, "note "+n)
		}
	}
	switch props["tls-opt"] {
	case "off":
		s.tlsOK = false
	case "no-client":
		s.askCrt = false
	}
	if _, ok := props["make-yakker"]; ok {
		s.forced = true
	}
	s.props = props
	s.lastGood = act == "" || act == "accept"
	if act != "" {
		s.m.st.Decided++
	}
	return act
}

func (s *SessModel) decide1(ph int) (string, map[string]string, map[string]bool) {
	props := map[string]string{}
	s.c.hits = map[string]bool{}
	if ph == phHelo || ph == phFrom {
		s.def = ""
	}
	if s.def != "" && ph == phTo {
		return s.def, s.defProps, s.defHits
	}
	act := ""
	s.c.tls = s.tlson
	for _, r := range s.rules {
		if !r.eligible(ph) {
			continue
		}
		var cl *Clause
		var miss bool
		if ph > phTo && r.needs() >= phTo {
			for _, a := range s.rcpts {
				s.c.rcpt = a
				if cl, miss = s.c.try(r); cl != nil || miss {
					break
				}
			}
			if len(s.rcpts) > 1 {
				s.m.st.Multi++
			}
			s.c.rcpt = ""
		} else {
			cl, miss = s.c.try(r)
		}
		if miss {
			s.m.st.Misses++
			continue
		}
		if cl == nil {
			s.m.st.Passed++
			continue
		}
		for _, w := range cl.Withs {
			props[w.Name] = w.Val
		}
		if r.Action != "set-with" {
			act = r.Action
			break
		}
		s.m.st.Matched++
	}
	s.m.st.LeafTrue += s.c.nTrue
	s.m.st.LeafFalse += s.c.nEval - s.c.nTrue
	s.c.nTrue, s.c.nEval = 0, 0
	if ph == phFrom && s.c.from == "" && (act == "reject" || act == "stall") {
		s.def, s.defProps, s.defHits = act, props, s.c.hits
		s.m.st.Deferred++
		return "accept", map[string]string{}, s.c.hits
	}
	return act, props, s.c.hits
}

func (s *SessModel) verdict(act string, message bool) Expect {
	var e Expect
	switch act {
	case "reject":
		e.Class = 5
		e.ID = message
	case "stall":
		e.Class = 4
	default:
		e.Class = 2
		e.ID = message
	}
	if m := s.props["message"]; m != "" {
		e.HasMsg = true
		e.Msg = strings.Split(m, "\n")
		s.m.st.TextChecks++
	}
	return e
}

func (s *SessModel) outOfSeq() Expect { return Expect{Class: 5} }

// badCmd accounts for a command smtpd itself refuses as malformed.
func (s *SessModel) badCmd() Expect {
	s.bad++
	return Expect{Class: 5}
}

// Helo handles EHLO (ext) and HELO.
func (s *SessModel) Helo(ext bool, name string) Expect {
	if s.state != "init" && s.state != "helo" {
		return s.outOfSeq()
	}
	s.c.heloCmd = "helo"
	if ext {
		s.c.heloCmd = "ehlo"
	}
	s.c.helo = name
	s.m.cnt["ehlo"]++
	act := s.decide(phHelo)
	e := s.verdict(act, false)
	e.HasMsg = false // ineffective for greetings
	if e.Class != 2 {
		s.badGreet = s.ahelo != "" && s.ahelo != name
		return e
	}
	s.m.cnt["ehlo_ok"]++
	s.state = "helo"
	s.ahelo = name
	s.badGreet = false
	s.afrom, s.rcpts = "", nil
	s.reach("helo")
	if s.encState && !s.tlson {
		s.tlson = true
		s.m.cnt["tlson"]++
		s.m.cnt["starttls"]++
		if s.ccert != "" {
			ok := "bad"
			if clientCertOK[s.ccert] {
				ok = "ok"
			}
			s.Trace = append(s.Trace, "cert "+clientCertName[s.ccert]+" "+ok)
		}
	}
	if ext {
		e.EHLO = true
		e.StartTLS = s.tlsOK && !s.encrypted()
	}
	return e
}

func (s *SessModel) reach(phase string) {
	mp := s.m.opt.MinPhase
	if mp == "" || mp == "ehlo" {
		mp = "helo"
	}
	if mp == phase {
		s.somewhere = true
	}
}

// Mail handles MAIL FROM:<addr>.
func (s *SessModel) Mail(addr string) Expect {
	if s.state != "helo" {
		return s.outOfSeq()
	}
	s.c.from = addr
	s.m.cnt["mailfrom"]++
	act := s.decide(phFrom)
	e := s.verdict(act, false)
	if e.Class != 2 {
		return e
	}
	if s.afrom != "" && !s.somewhere && s.counts {
		s.m.cnt["rsets"]++
		n := s.m.yak.add(s.c.rip, s.m.now, s.m.dndur())
		if n > s.m.opt.DnCount {
			s.m.cnt["yakker_adds"]++
			s.m.cnt["rsetdrops"]++
			s.notice(fmt.Sprintf("%s added as a yakker at hit %d due to RSET", s.c.rip, n))
			s.state = "gone"
			s.ended = true // no further accounting
			return Expect{Class: 4, Close: true}
		}
	}
	s.afrom, s.rcpts = addr, nil
	s.reach("from")
	s.m.cnt["mailfrom_ok"]++
	s.state = "mail"
	return e
}

// Rcpt handles RCPT TO:<addr>.
func (s *SessModel) Rcpt(addr string) Expect {
	if s.state != "mail" && s.state != "rcpt" {
		return s.outOfSeq()
	}
	if addr == "" {
		return Expect{Class: 5}
	}
	s.c.rcpt = addr
	s.m.cnt["rcptto"]++
	act := s.decide(phTo)
	e := s.verdict(act, false)
	if e.Class != 2 {
		return e
	}
	s.rcpts = append(s.rcpts[:len(s.rcpts):len(s.rcpts)], addr)
	s.reach("to")
	s.m.cnt["rcptto_ok"]++
	s.state = "rcpt"
	return e
}

// Data handles the DATA command.
func (s *SessModel) Data() Expect {
	if s.state != "rcpt" {
		return s.outOfSeq()
	}
	s.m.cnt["data"]++
	act := s.decide(phData)
	e := s.verdict(act, false)
	if e.Class != 2 {
		return e
	}
	e.Class = 3
	s.reach("data")
	s.m.cnt["data_ok"]++
	s.state = "data"
	return e
}

// Message handles the fully received message; saveErr says that saving it
// fails.
func (s *SessModel) Message(data string, saveErr bool) Expect {
	s.m.cnt["messages"]++
	s.m.st.Messages++
	if s.badGreet {
		s.m.st.class("message after a refused second greeting")
	}
	s.reach("message")
	s.tlson = s.encrypted()
	s.Msgs = append(s.Msgs, &Msg{Data: data, From: s.afrom, Rcpts: append([]string{}, s.rcpts...), Helo: s.ahelo,
		SaveDir: s.savedir, TLS: s.encrypted()})
	s.state = "post"
	if s.savedir != "" {
		s.m.st.Saved++
		if saveErr {
			s.somewhere = true
			return Expect{Class: 4}
		}
	}
	act := s.decide(phMessage)
	e := s.verdict(act, true)
	if e.Class == 2 {
		s.reach("accepted")
		s.state = "helo"
	}
	return e
}

// Rset handles RSET.
func (s *SessModel) Rset() Expect {
	if s.state != "init" {
		s.state = "helo"
	}
	return Expect{Class: 2}
}

func (s *SessModel) encrypted() bool { return s.encState }

// StartTLS handles the STARTTLS command; ok says whether it must be
// accepted.
func (s *SessModel) StartTLS() bool { return s.tlsOK && !s.encState }

// TLSUp: the handshake succeeded.
func (s *SessModel) TLSUp(ccert string) {
	s.ccert = ccert
	s.encState = true
	s.state = "init"
	s.m.st.TLS++
}

// TLSFailed: it did not, which ends the session.
func (s *SessModel) TLSFailed() {
	s.m.notls.add(s.c.rip, s.m.now, tlsTTL)
	s.counts = false
	s.m.cnt["tls_errors"]++
	s.m.cnt["starttls"]++
	s.m.st.TLSFail++
	s.End("abort")
}

func (s *SessModel) notice(t string) {
	if !s.stalled { // which are not logged
		s.Notice = append(s.Notice, t)
	}
}

// End does the end-of-session accounting. how: "quit" or "abort".
func (s *SessModel) End(how string) {
	if s.dropped || s.ended {
		return
	}
	s.ended = true
	s.state = "gone"
	if how == "quit" {
		s.m.cnt["quits"]++
	} else {
		s.m.cnt["aborts"]++
	}
	m := s.m
	s.reachedMin = s.somewhere
	switch {
	case s.forced:
		if o := m.yak.set(s.c.rip, m.now, m.dndur(), m.opt.DnCount); o != m.opt.DnCount {
			m.cnt["yakker_adds"]++
			m.cnt["yakker_forces"]++
			s.Dn = append(s.Dn, "force-set")
			s.notice(s.c.rip + " forced to be a yakker")
		}
	case !s.somewhere && s.counts:
		if n := m.yak.add(s.c.rip, m.now, m.dndur()); n == m.opt.DnCount {
			m.cnt["yakker_adds"]++
			s.Dn = append(s.Dn, "added")
			s.notice(fmt.Sprintf("%s added as a yakker at hit %d", s.c.rip, n))
		}
	case m.opt.DnCount > 0 && s.somewhere:
		delete(m.yak, s.c.rip)
	}
	if s.rulesGood && (s.counts || m.opt.DnCount == 0) {
		if s.lastGood {
			m.cnt["abandons"]++
		} else {
			m.cnt["refuseds"]++
		}
	}
}
