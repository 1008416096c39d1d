package main

// Generators. Everything random comes from rapid, so that rapid can shrink
// it; the first alternative of every choice is the simplest.

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// G draws one case.
type G struct {
	forceDnLog bool
	fresh      bool
	certCopies bool
	t          *rapid.T
	v6         bool
	opt        Options
	dns        DNSData
	ops        []Op
	srcs       []string
	dsts       []string
	nmsg       int
	// pattern files and their contents' patterns
	files  map[string]string
	kindOf map[string]string
	big    int  // how the case is large, see scale.go
	long   bool // pattern files may have very long lines
	lay    int  // layout freedom: 0 plain, 1 free
}

var draw2, draw3, draw4 = rapid.IntRange(0, 1), rapid.IntRange(0, 2), rapid.IntRange(0, 3)

// n draws 0..k-1, close to uniformly.
func (g *G) n(k int) int {
	switch {
	case k <= 1:
		return 0
	case k == 2:
		return draw2.Draw(g.t, "")
	case k == 3:
		return draw3.Draw(g.t, "")
	case k == 4:
		return draw4.Draw(g.t, "")
	}
	v, w := 0, 1
	for w < k*3 {
		v = v*4 + draw4.Draw(g.t, "")
		w *= 4
	}
	return v % k
}

// p is true pct percent of the time (in steps of about 6).
func (g *G) p(pct int) bool {
	if pct <= 0 {
		return false
	}
	if pct >= 100 {
		return true
	}
	k := (pct*16 + 50) / 100
	if k == 0 {
		k = 1
	}
	return g.n(4)*4+g.n(4) >= 16-k
}

func pick[T any](g *G, l []T) T { return l[g.n(len(l))] }

// w draws an index with the given weights.
func (g *G) w(ws ...int) int {
	sum := 0
	for _, x := range ws {
		sum += x
	}
	v := g.n(sum)
	for i, x := range ws {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

func (g *G) pick(n int) int {
	if g.lay == 0 {
		return 0
	}
	return g.n(n)
}

// subset draws a non-empty ordered subset of at most max elements.
func subset[T any](g *G, l []T, max int) []T {
	if max > len(l) {
		max = len(l)
	}
	n := 1 + g.n(max)
	idx := make([]int, len(l))
	for i := range idx {
		idx[i] = i
	}
	var out []T
	for i := 0; i < n; i++ {
		j := i + g.n(len(l)-i)
		idx[i], idx[j] = idx[j], idx[i]
		out = append(out, l[idx[i]])
	}
	return out
}

// The universe: small, so that things meet.
var uHosts = []string{"a.com", "x.a.com", "b.org", "y.x.a.com", "a.b.org", "com", "xa.com", "h", "a.com.b.org"}
var oddLocals = []string{";u", "//u", "/u", "!u", "-", "*", "%s", "'u'", "$u", "u#", "file", "<>", "u/v", "\\u"}
var uLocals = []string{"u", "v", "w.z", "u+v"}
var uSrcs = []string{"127.1.0.1", "127.1.0.2", "127.1.1.1", "127.2.0.1", "127.128.0.1"}
var uDsts = []string{"127.0.0.1", "127.0.0.2", "127.9.9.9"}

func (g *G) recase(s string, pct int) string {
	if !g.p(pct) {
		return s
	}
	switch g.n(3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToUpper(s[:1]) + s[1:]
	}
	b := []byte(s)
	for i := range b {
		if i%2 == 1 && b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

func (g *G) host() string {
	h := pick(g, uHosts)
	if g.big == bigNames && g.rare(4) {
		return g.bigHost(h)
	}
	return h
}

func (g *G) addr() string {
	if g.big == bigNames && g.rare(4) {
		return g.bigLocal() + "@" + g.host()
	}
	if g.n(32) == 31 {
		return pick(g, oddLocals) + "@" + g.host()
	}
	return g.recase(pick(g, uLocals)+"@"+g.host(), 15)
}

// weirdAddr draws addresses from the alphabet that matters to address
// classification. No spaces: the SMTP layer splits there.
func (g *G) weirdAddr() string {
	parts := []string{"u", "@", "a.com", ".", `"`, "<", ">", "]", "[", "b", "..", "@@", "v@b.org", "com", ":", ",", "%", "!", "\\", "-", ";", "/", "*", "'", "#", "$"}
	var b strings.Builder
	for i := 1 + g.n(6); i > 0; i-- {
		b.WriteString(pick(g, parts))
	}
	return b.String()
}

// sender and rcpt draw addresses as clients use them.
func (g *G) sender(null, weird int) string {
	switch {
	case g.p(null):
		return ""
	case g.p(weird):
		return g.weirdAddr()
	}
	return g.addr()
}

func (g *G) rcpt(weird int) string {
	if g.p(weird) {
		if a := g.weirdAddr(); a != "" {
			return a
		}
	}
	return g.addr()
}

func (g *G) addrPat() string {
	h := g.host()
	var s string
	switch g.w(20, 16, 20, 20, 6, 8, 3) {
	case 0:
		s = pick(g, uLocals) + "@" + h
	case 1:
		s = pick(g, uLocals) + "@"
	case 2:
		s = "@" + h
	case 3:
		s = "@." + h
	case 4:
		s = "@"
	case 5:
		s = "<>"
	case 6:
		s = pick(g, []string{h, ".", "." + h, "@@", "@.", "u"})
		if g.p(50) {
			s = pick(g, oddLocals) + "@" + h
			if g.p(40) {
				s = pick(g, oddLocals) + "@"
			}
		}
	}
	return g.recase(s, 15)
}

func (g *G) hostPat() string {
	h := g.host()
	var s string
	switch g.w(10, 10, 2) {
	case 0:
		s = h
	case 1:
		s = "." + h
	case 2:
		s = pick(g, []string{h + ".", ".", "." + h + ".", "-", "@" + h, "[a.com]"})
	}
	return g.recase(s, 15)
}

func (g *G) heloName() string {
	switch g.w(80, 6, 5, 5, 4) {
	case 0:
		return g.recase(g.host(), 15)
	case 1:
		return ""
	case 2:
		return pick(g, []string{".", "..", "-", "a.com.", "h."})
	case 3:
		return g.ipHelo()
	}
	return pick(g, []string{"'q'", "\"a.com\"", "<a.com>", "%s", "\\", "a.com;", "(a)", "x'y", "x", "[a.com]", "[A.Com]", "a_b", "a..com", "[]", "[", "localhost", ":", "1.2.3", "a:b"})
}

func (g *G) ipHelo() string {
	ip := pick(g, append(append([]string{}, g.srcs...), g.dsts...))
	switch g.n(8) {
	case 0, 1:
		return ip
	case 2, 3:
		return "[" + ip + "]"
	case 4:
		return pick(g, []string{"10.1.2.3", "8.8.8.8", "::2", "fe80::1", "127.1.0.3"})
	case 5:
		return "[" + pick(g, []string{"10.1.2.3", "8.8.8.8", "::2", "IPv6:::1", "127.1.0.3"}) + "]"
	case 6:
		return pick(g, []string{"::1", "0:0:0:0:0:0:0:1", "::ffff:" + "127.1.0.1", "::FFFF:7f01:1", "0000::1"})
	}
	return pick(g, []string{"[::1]", "[0:0:0:0:0:0:0:1]", "[" + ip, ip + "]", "[[" + ip + "]]", ip + ".", "[" + ip + ")", "[" + ip + "1", "(" + ip + "]", "[" + ip + "].", "[." + ip + "]", "127.1.1", "127.001.0.1"})
}

func (g *G) ipPat() string {
	ip := pick(g, g.srcs)
	if strings.Contains(ip, ":") {
		return pick(g, []string{"::1", "::/0", "::1/128", "::2", "::/127", "0:0::1", "fe80::/10", "0.0.0.1", "::ffff:0.0.0.1", "::2/127"})
	}
	var o [4]int
	fmt.Sscanf(ip, "%d.%d.%d.%d", &o[0], &o[1], &o[2], &o[3])
	f := func() string { return fmt.Sprintf("%d.%d.%d.%d", o[0], o[1], o[2], o[3]) }
	switch g.w(6, 3, 3, 12) {
	case 0:
		return ip
	case 1:
		i := 1 + g.n(3)
		o[i] ^= 1 << g.n(8)
		return f()
	case 2:
		return pick(g, []string{"127.0.0.0/8", "0.0.0.0/0", "10.0.0.0/8", "::/0", "::ffff:127.1.0.1", "127.1.0.0/0", "127.1.0.1/32"})
	}
	// a block around the address, perhaps with one bit flipped near the
	// boundary of the mask
	bits := pick(g, []int{24, 16, 8, 32, 31, 30, 23, 17, 15, 9, 12, 25})
	if g.p(60) {
		b := bits - 1 - g.n(3) + g.n(2)*2 // inside or just outside the mask
		if b >= 8 && b < 32 {
			o[b/8] ^= 128 >> (b % 8)
		}
	}
	if g.p(70) {
		// as the documentation writes them: network bits only
		v := uint32(o[0])<<24 | uint32(o[1])<<16 | uint32(o[2])<<8 | uint32(o[3])
		if bits < 32 {
			v &^= 1<<(32-bits) - 1
		}
		o = [4]int{int(v >> 24), int(v >> 16 & 255), int(v >> 8 & 255), int(v & 255)}
	}
	return fmt.Sprintf("%s/%d", f(), bits)
}

// Knobs shape rule sets and sessions.
type Knobs struct {
	Leaves      []string // operators to use, repeated for weight
	MaxRules    int
	MaxTerms    int // per clause
	Depth       int // of expressions
	MaxClauses  int
	FilePct     int
	PhasePct    int
	AcceptW     int
	RejectW     int
	StallW      int
	SetW        int
	WithPct     int
	Withs       []string
	NullPct     int
	WeirdPct    int
	MaxTrans    int
	MaxRcpts    int
	Noise       int // percent of extra commands
	BadPct      int // malformed commands
	QuitPct     int
	PipePct     int
	StylePct    int
	NarrowPct   int // rule sets of short rules for single values, in sessions that try several
	TickPct     int // time passing between messages
	VarsPct     int // looking at the statistics inside a session
	AgainPct    int // transactions repeated after another greeting
	RetryPct    int // commands followed by the same with another argument
	NoHeloPct   int
	DataPct     int
	LayoutPct   int
	EarlyPct    int // rules that can act before MAIL FROM and refuse: keep this percent of them
	TLSPct      int
	CutPct      int
	HardPct     int
	BigBody     bool
	NoRcptAtEnd bool
}

func baseKnobs() Knobs {
	return Knobs{
		Leaves: []string{"from", "from", "to", "to", "helo", "ip", "all"}, MaxRules: 5, MaxTerms: 2, Depth: 1, MaxClauses: 1,
		PhasePct: 45, AcceptW: 25, RejectW: 35, StallW: 15, SetW: 25, WithPct: 30, Withs: []string{"message", "note"},
		NullPct: 8, WeirdPct: 6, MaxTrans: 3, MaxRcpts: 3, Noise: 10, QuitPct: 60, PipePct: 12, StylePct: 20, NoHeloPct: 6,
		DataPct: 75, LayoutPct: 20, EarlyPct: 15, NarrowPct: 12, RetryPct: 4, AgainPct: 12,
	}
}

var addrAttrNames = []string{"unqualified", "route", "quoted", "noat", "garbage", "bad"}
var delivNames = []string{"resolves", "baddom", "unknown"}
var heloAttrNames = []string{"helo", "ehlo", "none", "bogus", "nodots", "bareip", "properip", "ip", "myip", "remip", "otherip"}
var dnsAttrNames = []string{"nodns", "exists", "good", "noforward", "inconsistent"}
var blDomains = []string{"bl.example", "bl2.example", "sub.bl.example", sblDomain}

// sblDomain is the list whose records are reported too.
const sblDomain = "sbl.spamhaus.org"

func (g *G) file(kind string) string {
	// up to four files per case, by kind
	var have []string
	for i := 0; i < 4; i++ {
		n := fmt.Sprintf("p%d", i)
		if g.kindOf[n] == kind {
			have = append(have, n)
		}
	}
	if len(have) > 0 && (len(g.kindOf) >= 4 || g.n(2) == 0) {
		return pick(g, have)
	}
	for i := 0; i < 4; i++ {
		n := fmt.Sprintf("p%d", i)
		if g.kindOf[n] == "" {
			g.kindOf[n] = kind
			t, bad := g.listText(kind)
			g.ops = append(g.ops, Op{Kind: "list", Name: n, Text: t, Bad: bad})
			return n
		}
	}
	return ""
}

// listText draws the contents of a pattern file.
func (g *G) listText(kind string) (text, bad string) {
	switch g.w(80, 8, 6, 6) {
	case 1:
		return pick(g, []string{"", "\n", "# nothing\n", "#u@a.com", " \t\n\n# x\n"}), ""
	case 2:
		return "", "missing"
	case 3:
		if g.p(30) {
			return "", "loop"
		}
		return "", "unreadable"
	}
	var b strings.Builder
	n := 1 + g.n(4)
	for i := 0; i < n; i++ {
		if g.big == bigPats && (i == 0 || g.rare(4)) {
			g.padList(kind, &b)
		}
		if g.p(20) {
			b.WriteString(pick(g, []string{"\n", "# c\n", "  \n", "\t# u@a.com\n", "#\n"}))
		}
		var s string
		switch kind {
		case "addr":
			s = g.addrPat()
		case "host":
			s = g.hostPat()
		case "ip":
			s = g.ipPat()
			if g.p(15) {
				s = pick(g, []string{"nonsense", "1.2.3", "127.1.0.1/33", "127.1.0.0/", "/8", "300.1.1.1"})
			}
		}
		if g.p(15) {
			s = pick(g, []string{" ", "\t", "  "}) + s
		}
		if g.p(15) {
			s += pick(g, []string{" ", "\t ", " \t"})
		}
		if g.p(4) {
			s += pick(g, []string{" # c", "\t#c", " ;c", "#", "//c"})
		}
		if g.long && g.p(30) {
			// lines longer than a reader's buffer, with something that
			// would match were it a line of its own
			pad := pick(g, []int{4096, 4095, 4097, 8192, 16384, 65536, 65535, 70000})
			switch g.n(3) {
			case 0:
				b.WriteString("#" + strings.Repeat("x", pad-1) + s + "\n")
				continue
			case 1:
				b.WriteString(strings.Repeat(" ", pad) + s + "\n")
				continue
			case 2:
				b.WriteString(strings.Repeat("y", pad) + s + "\n")
				continue
			}
		}
		b.WriteString(s)
		if i < n-1 || g.p(70) {
			b.WriteString("\n")
		}
	}
	return b.String(), ""
}

// leaf draws an operator.
func (g *G) leaf(k *Knobs) *Term {
	op := pick(g, k.Leaves)
	t := &Term{Op: op}
	fromFile := func(kind string, f func() string) {
		if g.p(k.FilePct) {
			if n := g.file(kind); n != "" {
				t.File, t.Form = n, g.n(3)
				return
			}
		}
		t.Arg = f()
		if strings.HasPrefix(t.Arg, "/") {
			t.Arg = "x" + t.Arg // that would be a file
		}
	}
	switch op {
	case "all":
	case "tls":
		t.Arg = pick(g, []string{"on", "off"})
	case "from", "to":
		fromFile("addr", g.addrPat)
	case "helo", "ehlo", "host":
		fromFile("host", g.hostPat)
	case "source":
		fromFile("host", g.hostPat)
	case "ip":
		fromFile("ip", g.ipPat)
	case "from-has", "to-has":
		t.Opts = subset(g, addrAttrNames, 3)
		if g.p(20) {
			t.Opts = append(t.Opts, pick(g, delivNames))
		}
	case "from-deliv":
		t.Op, t.Opts = "from-has", subset(g, delivNames, 2)
	case "to-deliv":
		t.Op, t.Opts = "to-has", subset(g, delivNames, 2)
	case "helo-has":
		t.Opts = subset(g, heloAttrNames, 3)
	case "dns":
		t.Opts = subset(g, dnsAttrNames, 3)
	case "dnsbl":
		t.Arg = pick(g, blDomains)
	case "dbl":
		t.Opts = subset(g, []string{"helo", "from", "host", "any", "ehlo"}, 2)
		t.Arg = pick(g, blDomains)
	default:
		panic("leaf " + op)
	}
	return t
}

func (g *G) term(k *Knobs, depth int) *Term {
	if depth <= 0 {
		return g.leaf(k)
	}
	switch g.w(8, 3, 3, 2) {
	case 1:
		return &Term{Op: "not", Kids: []*Term{g.term(k, depth-1)}}
	case 2, 3:
		t := &Term{Op: "or"}
		if g.n(3) == 2 {
			t.Op = "and"
		}
		for i := 2 + g.n(2); i > 0; i-- {
			t.Kids = append(t.Kids, g.term(k, depth-1))
		}
		return t
	}
	return g.leaf(k)
}

func (g *G) msgText() string {
	g.nmsg++
	s := fmt.Sprintf("m%d", g.nmsg)
	if g.p(30) {
		s += pick(g, []string{" x", " 100% %s %d", " a;b (c), \"q\" \\ \\\\ #", "\nsecond", "\n\nthird %v", "\tt\\n", "  two", "\n.\n250 ok"})
	}
	if g.big == bigTexts && g.rare(2) {
		s += strings.Repeat(pick(g, []string{"\nmore", " x", "y", "%%"}), g.size(400)) + "."
	}
	return s
}

func (g *G) noteText() string {
	g.nmsg++
	s := fmt.Sprintf("n%d", g.nmsg)
	if g.p(25) {
		s += pick(g, []string{" x", " 100%d %s", " a;b (c), \"q\" \\", " with note"})
	}
	if g.big == bigTexts && g.rare(2) {
		s += strings.Repeat(pick(g, []string{"y", " x", "%s"}), g.size(1500)) + "."
	}
	return s
}

func (g *G) withs(k *Knobs, atLeastOne bool) []With {
	if !atLeastOne && !g.p(k.WithPct) {
		return nil
	}
	names := subset(g, k.Withs, 2)
	var out []With
	seen := map[string]bool{}
	for _, n := range names {
		if seen[n] {
			continue
		}
		seen[n] = true
		w := With{Name: n}
		switch n {
		case "message":
			w.Val = g.msgText()
		case "note":
			w.Val = g.noteText()
		case "savedir":
			w.Val = pick(g, []string{"sd0", "sd1", "./sd0", "./sd1"})
		case "make-yakker":
		case "tls-opt":
			w.Val = pick(g, []string{"off", "no-client"})
		}
		out = append(out, w)
	}
	return out
}

func (r *Rule) hasWith(n string) bool {
	for _, c := range r.Clauses {
		for _, w := range c.Withs {
			if w.Name == n {
				return true
			}
		}
	}
	return false
}

var phaseNames = []string{"connect", "helo", "from", "to", "data", "message"}

func (g *G) rule(k *Knobs) *Rule {
	r := &Rule{Action: pick(g, []string{"accept", "reject", "stall", "set-with"})}
	r.Action = []string{"reject", "accept", "stall", "set-with"}[g.w(k.RejectW, k.AcceptW, k.StallW, k.SetW)]
	for i := 1 + g.n(max(1, k.MaxClauses)); i > 0; i-- {
		var c Clause
		for j := 1 + g.n(max(1, k.MaxTerms)); j > 0; j-- {
			c.Terms = append(c.Terms, g.term(k, k.Depth))
		}
		c.Withs = g.withs(k, r.Action == "set-with")
		r.Clauses = append(r.Clauses, c)
	}
	g.setPhase(r, k)
	return r
}

func (g *G) setPhase(r *Rule, k *Knobs) {
	need := r.needs()
	if g.p(k.PhasePct) {
		r.Phase = phaseNames[need-1+g.n(7-need)]
	}
	early := r.Phase == "" && need <= phHelo || r.Phase == "connect" || r.Phase == "helo"
	if early && (r.Action == "reject" || r.Action == "stall") && !g.p(k.EarlyPct) {
		r.Phase = phaseNames[2+g.n(4)]
	}
	if r.hasWith("tls-opt") && r.Phase != "connect" && r.Phase != "helo" && r.Phase != "" || r.hasWith("tls-opt") && need > phHelo {
		for i := range r.Clauses {
			for j := range r.Clauses[i].Withs {
				if r.Clauses[i].Withs[j].Name == "tls-opt" {
					r.Clauses[i].Withs[j] = With{Name: "note", Val: g.noteText()}
				}
			}
			r.Clauses[i].dedupe()
		}
	}
	if r.Action == "reject" && r.eligible(phConnect) && r.hasWith("make-yakker") {
		r.Phase = "from"
		if need > phFrom {
			r.Phase = ""
		}
	}
}

func (c *Clause) dedupe() {
	seen := map[string]bool{}
	var out []With
	for _, w := range c.Withs {
		if !seen[w.Name] {
			out = append(out, w)
		}
		seen[w.Name] = true
	}
	c.Withs = out
}

// ruleFiles draws the rule files of a case (r0.., with includes i0, i1).
func (g *G) ruleFiles(k *Knobs) {
	if g.p(k.NarrowPct) {
		k.Depth, k.MaxTerms, k.MaxClauses, k.MaxRules = 0, 1, 1, min(k.MaxRules, 3)
		k.RetryPct = 45
		if k.EarlyPct > 0 {
			k.EarlyPct = 90
		}
		var l []string
		for _, op := range k.Leaves {
			if op != "all" && op != "ip" && op != "tls" {
				l = append(l, op)
			}
		}
		if len(l) > 0 {
			k.Leaves = l
		}
	}
	nf := 1
	if g.p(25) {
		nf = 2
	}
	if g.big == bigIncludes {
		nf = 1 + g.n(5)
	}
	if g.opt.NRules > 0 {
		nf = g.opt.NRules
	}
	g.opt.NRules = nf
	inc := 0
	for f := 0; f < nf; f++ {
		var items []Item
		for i := 1 + g.n(max(1, k.MaxRules)); i > 0; i-- {
			if inc > 0 && g.p(6) {
				// included again
				items = append(items, Item{Include: fmt.Sprintf("i%d", g.n(inc))})
				continue
			}
			if inc < 2 && g.p(8) {
				name := fmt.Sprintf("i%d", inc)
				inc++
				var sub []Item
				for j := 1 + g.n(2); j > 0; j-- {
					sub = append(sub, Item{Rule: g.rule(k)})
				}
				g.addRuleFile(name, sub, k)
				items = append(items, Item{Include: name})
				continue
			}
			items = append(items, Item{Rule: g.rule(k)})
		}
		if g.big == bigIncludes && f == 0 {
			// a chain of includes, the last first
			for d := 2 + g.n(14); d >= 0; d-- {
				sub := []Item{{Rule: g.rule(k)}}
				if len(items) > 0 && items[len(items)-1].Include == "c"+itoa(d+1) {
					sub = append(sub, items[len(items)-1])
					items = items[:len(items)-1]
					if g.rare(3) {
						sub[0], sub[1] = sub[1], sub[0]
					}
				}
				g.addRuleFile("c"+itoa(d), sub, k)
				items = append(items, Item{Include: "c" + itoa(d)})
			}
		}
		g.addRuleFile(ruleFileName(f), items, k)
	}
}

func (g *G) addRuleFile(name string, items []Item, k *Knobs) *RuleFile {
	g.lay = 0
	if g.p(k.LayoutPct) {
		g.lay = 1
	}
	items = g.pad(items)
	rf := &RuleFile{Name: name, Items: items, Text: g.comments(renderItems(items, g))}
	g.lay = 0
	g.ops = append(g.ops, Op{Kind: "rules", Rules: rf})
	return rf
}

var bodyLines = []string{"text", "", ".", "..", ".x", "Subject: a", "From: u@a.com", " folded", "body", "id 1 2", "\u0080\u00ff\u00e9", "\x00\x01", "hash", "# x"}

func (g *G) body(k *Knobs) string {
	var b strings.Builder
	if g.p(70) {
		b.WriteString("Subject: s\n")
		if g.p(30) {
			b.WriteString("X-H: y\n")
		}
		b.WriteString("\n")
	}
	for i := g.n(4); i > 0; i-- {
		b.WriteString(pick(g, bodyLines) + "\n")
	}
	if g.big == bigBodies && g.rare(3) {
		// many lines, long lines, or long headers
		l := pick(g, []string{"0123456789\n", strings.Repeat("x", 900) + "\n", ".\n", "\n", "y"})
		t := strings.Repeat(l, min(g.size(20000), (3<<20)/len(l)))
		if g.rare(3) {
			return strings.Repeat("X-H: "+strings.Repeat("z", 60)+"\n", g.size(400)) + "\nx\n"
		}
		b.WriteString(t + "\n")
	}
	if k.BigBody && g.p(12) {
		b.WriteString(strings.Repeat(pick(g, []string{"0123456789\n", strings.Repeat("x", 900) + "\n", ".\n"}), 1+g.n(4000)))
	}
	if g.p(5) {
		return ""
	}
	return b.String()
}

// steps draws what a client does.
func (g *G) steps(k *Knobs) []Step {
	var out []Step
	switch g.big {
	case bigRcpts:
		if g.rare(2) {
			k2 := *k
			k2.Noise, k2.MaxTrans = 0, 2
			if g.rare(2) {
				k2.MaxRcpts = 5 + g.size(45)
			}
			k = &k2
		}
	case bigTrans:
		if g.rare(2) {
			k2 := *k
			k2.MaxTrans, k2.Noise = 4+g.size(20), 2
			k = &k2
		}
	}
	add := func(s Step) {
		if g.p(k.StylePct) {
			s.Style = 1 + g.n(5)
		}
		out = append(out, s)
	}
	noise := func() {
		if !g.p(k.Noise) {
			return
		}
		switch g.n(6) {
		case 0:
			add(Step{Kind: "noop"})
		case 1, 2:
			add(Step{Kind: "rset"})
		case 3:
			add(Step{Kind: "data", Body: g.body(k)})
		case 4:
			add(Step{Kind: "rcpt", Arg: g.rcpt(k.WeirdPct)})
		case 5:
			add(Step{Kind: "mail", Arg: g.sender(k.NullPct, k.WeirdPct)})
		}
	}
	nbad := 0
	bad := func() {
		if g.p(k.BadPct) && nbad < 4 {
			nbad++
			add(Step{Kind: "raw", Arg: pick(g, []string{"XYZZY", "MAIL u@a.com", "RCPT", "\u00ff", "DATA x y", " ", "AUTH PLAIN =", "VRFYX u"})})
		}
	}
	greet := func() {
		kind := "ehlo"
		if g.p(20) {
			kind = "helo"
		}
		add(Step{Kind: kind, Arg: g.heloName()})
	}
	if !g.p(k.NoHeloPct) {
		greet()
		if g.p(10) || g.p(k.RetryPct) {
			greet()
		}
	}
	if g.p(k.TLSPct) {
		g.starttls(&out)
		greet()
	}
	var last []Step // the latest transaction
	for tr := 1 + g.n(max(1, k.MaxTrans)); tr > 0; tr-- {
		bad()
		if len(last) > 0 && g.p(k.AgainPct) {
			// the same once more, in other circumstances
			add(Step{Kind: "rset"})
			switch {
			case g.p(k.TLSPct):
				g.starttls(&out)
				greet()
			case g.p(75):
				greet()
			}
			out = append(out, last...)
			continue
		}
		start := len(out)
		noise()
		if g.p(k.TickPct) {
			out = append(out, Step{Kind: "tick", N: 60 * (1 + g.n(5))})
		}
		if g.p(k.VarsPct) {
			out = append(out, Step{Kind: "vars"})
		}
		add(Step{Kind: "mail", Arg: g.sender(k.NullPct, k.WeirdPct)})
		if g.p(k.RetryPct) {
			add(Step{Kind: "mail", Arg: g.sender(k.NullPct, k.WeirdPct)})
		}
		if g.big == bigRcpts && g.rare(2) {
			// many that nothing is said about, before those of interest
			for r := g.size(45); r > 0; r-- {
				out = append(out, Step{Kind: "rcpt", Arg: fmt.Sprintf("f%d@fill.example", r)})
			}
		}
		for r := g.n(k.MaxRcpts + 1); r > 0; r-- {
			noise()
			add(Step{Kind: "rcpt", Arg: g.rcpt(k.WeirdPct)})
			if g.p(k.RetryPct) {
				add(Step{Kind: "rcpt", Arg: g.rcpt(k.WeirdPct)})
			}
		}
		if g.p(k.DataPct) {
			s := Step{Kind: "data", Body: g.body(k)}
			if g.p(k.CutPct) {
				s.Cut = 1 + g.n(60)
			}
			add(s)
		}
		if g.p(k.VarsPct) {
			out = append(out, Step{Kind: "vars"})
		}
		last = nil
		for _, s := range out[start:] {
			if (s.Kind == "mail" || s.Kind == "rcpt" || s.Kind == "data") && s.Cut == 0 {
				last = append(last, s)
			}
		}
		if tr > 1 {
			switch g.w(50, 20, 15, 15) {
			case 0, 1:
				add(Step{Kind: "rset"})
			case 2:
				greet()
			}
		}
	}
	if g.p(k.PipePct) {
		for i := range out {
			out[i].Pipe = g.p(70) && out[i].Kind != "tick" && out[i].Kind != "vars"
		}
	}
	switch {
	case g.p(k.QuitPct):
		out = append(out, Step{Kind: "quit"})
	}
	return out
}

// starttls draws a good STARTTLS.
func (g *G) starttls(out *[]Step) {
	s := Step{Kind: "starttls"}
	s.SNI = pick(g, []string{"", "sa.example", "sb.example", "other.example"})
	s.CCert = pick(g, []string{"", "cgood", "cself", "cold", "cnocn", "cserv", "cchain", "cbroken", "cextra", "cone", "cnone", "ctwo"})
	s.TLS12 = g.p(25)
	if s.TLS12 && g.p(70) {
		s.Suite = int(pick(g, []uint16{0xC02B, 0xC02C, 0xCCA9, 0xC009, 0xC00A}))
	}
	*out = append(*out, s)
}

func (g *G) src() string { return pick(g, g.srcs) }
func (g *G) dst(src string) string {
	if strings.Contains(src, ":") {
		return "::1"
	}
	return pick(g, g.dsts)
}

func (g *G) session(k *Knobs) {
	s := &Sess{Src: g.src()}
	s.Dst = g.dst(s.Src)
	if old := g.lastSession(); old != nil && g.p(k.AgainPct) {
		// what a client did before, but for one thing
		s.Steps = append([]Step{}, old.Steps...)
		if g.p(60) {
			s.Src, s.Dst = old.Src, old.Dst
			i := g.n(len(s.Steps))
			switch s.Steps[i].Kind {
			case "ehlo", "helo":
				s.Steps[i].Arg = g.heloName()
			case "mail":
				s.Steps[i].Arg = g.sender(k.NullPct, k.WeirdPct)
			case "rcpt":
				s.Steps[i].Arg = g.rcpt(k.WeirdPct)
			}
		}
	} else {
		s.Steps = g.steps(k)
	}
	s.Hard = g.p(k.HardPct)
	g.ops = append(g.ops, Op{Kind: "session", Sess: s})
}

func (g *G) lastSession() *Sess {
	for i := len(g.ops) - 1; i >= 0; i-- {
		if o := g.ops[i]; o.Kind == "session" && o.Sess != nil && len(o.Sess.Steps) > 0 {
			return o.Sess
		}
	}
	return nil
}

func (g *G) sessions(k *Knobs, maxn int) {
	for i := 1 + g.n(maxn); i > 0; i-- {
		g.session(k)
	}
}

// genDNS draws DNS data for the sources in use and the names in play.
func (g *G) genDNS(withMX bool) {
	d := &g.dns
	d.PTR, d.Addr, d.MX, d.TXT, d.Fail = map[string][]string{}, map[string][]string{}, map[string][]MXRec{}, map[string][]string{}, map[string]bool{}
	names := append([]string{"mail.x.a.com", "c1.example"}, uHosts[:5]...)
	for _, s := range g.srcs {
		switch g.w(3, 8, 1) {
		case 1:
			d.PTR[s] = subset(g, names, 3)
			if g.big == bigDNS {
				// more names than that, most of them of no use
				var l []string
				for i := g.size(22); i > 0; i-- {
					l = append(l, fmt.Sprintf("n%d.example", i))
				}
				if g.rare(3) {
					d.PTR[s] = append(d.PTR[s], l...)
				} else {
					d.PTR[s] = append(l, d.PTR[s]...)
				}
			}
		case 2:
			d.Fail["ptr:"+s] = true
		}
	}
	pool := append(append([]string{}, g.srcs...), "127.5.5.5", "8.8.8.8")
	pool = append(pool, g.srcs...)
	for _, n := range names {
		switch g.w(2, 10, 1) {
		case 1:
			d.Addr[n] = uniq(subset(g, pool, 3))
			if g.p(10) && len(d.Addr[n]) > 0 {
				d.Addr[n] = append(d.Addr[n], pick(g, d.Addr[n]))
			}
			if g.big == bigDNS {
				var l []string
				for i := g.size(40); i > 0; i-- {
					l = append(l, fmt.Sprintf("127.6.6.%d", i))
				}
				d.Addr[n] = append(l, d.Addr[n]...)
			}
		case 2:
			d.Fail["a:"+n] = true
		}
	}
	if !withMX {
		return
	}
	global := []string{"8.8.8.8", "1.2.3.4", "2001:db8::1", "172.32.0.1", "11.0.0.1"}
	if g.p(30) {
		// what is special in other ways, or only just outside
		global = append(global, "100.64.0.1", "198.18.0.1", "192.0.2.1", "203.0.113.5", "240.0.0.1", "9.255.255.255", "172.15.255.255",
			"192.167.255.255", "192.169.0.0", "169.253.1.1", "128.0.0.1", "126.255.255.255", "223.255.255.255", "2002:a00:1::1",
			"64:ff9b::a00:1", "fbff::1", "fe00::1", "fe7f::1", "2001::1", "100::1")
	}
	local := []string{"10.0.0.1", "10.255.255.255", "172.20.1.1", "192.168.255.255", "127.255.255.255", "239.1.1.1", "feff::1", "ff0e::1", "::", "172.16.0.1", "172.31.255.254", "192.168.3.4", "127.0.0.1", "fc00::1", "fdff::1", "fec0::1", "::1", "224.0.0.1", "0.0.0.0", "169.254.1.1", "fe80::1", "255.255.255.255", "ff02::1"}
	for _, n := range append([]string{"mx1.example", "mx2.example", "mx3.example"}, uHosts...) {
		if n == "h" || n == "com" {
			continue
		}
		delete(d.Addr, n)
		delete(d.Fail, "a:"+n)
		switch g.w(8, 4, 2, 2, 2) {
		case 0:
			d.Addr[n] = uniq(subset(g, global, 2))
		case 1:
			d.Addr[n] = uniq(subset(g, local, 2))
		case 2:
			d.Addr[n] = uniq(append(subset(g, global, 2), pick(g, local)))
		case 3:
			d.Fail["a:"+n] = true
		}
	}
	for _, n := range uHosts {
		if n == "h" || n == "com" {
			continue
		}
		switch g.w(5, 8, 2) {
		case 1:
			if g.big == bigDNS {
				for i := g.size(20); i > 0; i-- {
					d.MX[n] = append(d.MX[n], MXRec{Pref: g.n(4) * 10, Host: fmt.Sprintf("nx%d.example", i)})
				}
			}
			for i := 1 + g.n(3); i > 0; i-- {
				h := pick(g, []string{"mx1.example", "mx2.example", "mx3.example", n, "nx.example", "a.com", "localhost", "LocalHost", "", "1.2.3.4"})
				d.MX[n] = append(d.MX[n], MXRec{Pref: g.n(4) * 10, Host: h})
			}
		case 2:
			d.Fail["mx:"+n] = true
		}
	}
}

// newDNS has the DNS change, between sessions.
func (g *G) newDNS(draw func()) {
	old := g.dns
	g.dns = DNSData{}
	draw()
	d := g.dns
	g.dns = old
	g.ops = append(g.ops, Op{Kind: "dns", DNS: &d})
}

func uniq(l []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range l {
		if !seen[s] {
			out = append(out, s)
		}
		seen[s] = true
	}
	return out
}

// genBL lists clients and domains on the blocklists.
func blAddr(g *G) string {
	return pick(g, []string{"127.0.0.2", "127.0.0.2", "127.0.1.2", "127.0.0.1", "127.255.255.254", "8.8.8.8", "::1", "0.0.0.0"})
}

func (g *G) genBL() {
	d := &g.dns
	if d.Addr == nil {
		d.Addr = map[string][]string{}
	}
	if d.Fail == nil {
		d.Fail = map[string]bool{}
	}
	for _, bl := range blDomains {
		for _, s := range g.srcs {
			o := strings.Split(s, ".")
			if len(o) != 4 {
				continue
			}
			rev := o[3] + "." + o[2] + "." + o[1] + "." + o[0] + "." + bl
			if bl == sblDomain && g.p(60) {
				t := subset(g, []string{"http://x/SBL1", "http://x/y/SBL22", "nothing", "x/", "/SBL3", "/", "SBL4/SBL5"}, 3)
				if d.TXT == nil {
					d.TXT = map[string][]string{}
				}
				d.TXT[rev] = t
				if g.p(10) {
					d.Fail["txt:"+rev] = true
				}
			}
			switch g.w(10, 6, 1, 2) {
			case 1:
				d.Addr[rev] = []string{blAddr(g)}
			case 2:
				d.Fail["a:"+rev] = true
			case 3:
				// the unreversed form must not matter
				d.Addr[s+"."+bl] = []string{"127.0.0.2"}
			}
		}
		for _, h := range append([]string{"mail.x.a.com", "c1.example"}, uHosts...) {
			switch g.w(12, 4, 1) {
			case 1:
				d.Addr[h+"."+bl] = []string{blAddr(g)}
			case 2:
				d.Fail["a:"+h+"."+bl] = true
			}
		}
	}
}

func (g *G) build() *Case {
	if g.opt.Two {
		for i := range g.ops {
			o := &g.ops[i]
			if o.Sess != nil && o.Kind != "fuzz" {
				o.Sess.Alt = g.p(40)
			}
			for j := range o.Par {
				o.Par[j].Alt = g.p(40)
			}
		}
	}
	if len(g.dns.Fail) > 0 && g.p(50) {
		// another kind of failure
		var l []string
		for k := range g.dns.Fail {
			l = append(l, k)
		}
		sort.Strings(l)
		g.dns.Trunc = map[string]bool{}
		for _, k := range l {
			if g.p(50) {
				g.dns.Trunc[k] = true
			}
		}
	}
	return &Case{Opt: g.opt, DNS: g.dns, Ops: g.ops, Fresh: g.fresh}
}

func newG(t *rapid.T, v6 bool) *G {
	g := &G{t: t, v6: v6, kindOf: map[string]string{}, files: map[string]string{}}
	g.srcs = uSrcs
	g.dsts = uDsts[:1]

	return g
}
