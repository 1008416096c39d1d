package main

// The properties: how cases are drawn for each, which differences count
// against it, and what makes a case worth counting.

// Prop is a property's check.
type Prop struct {
	ID  string
	Gen func(g *G) *Case
	// Own: categories of mismatch (see exec.go) that violate this property;
	// a name ending in "." is a prefix.
	Own        []string
	Rule       string
	NonTrivial func(c *Case, st *Stats) bool
	Level      string
	Race       bool // also run on the race-detecting build
	Concurrent bool // outcomes depend on scheduling
	NoShrink   bool

	QuickCases   int
	QuickSecs    float64
	ThoroughSecs float64
}

func propByID(id string) *Prop {
	for _, p := range props {
		if p.ID == id {
			return p
		}
	}
	return nil
}

// lastDecided: some rule decided something after others were passed over.
func ntDecided(c *Case, st *Stats) bool { return st.Decided > 0 && st.Passed > 0 }

func ntLeaves(c *Case, st *Stats) bool { return st.LeafTrue > 0 && st.LeafFalse > 0 }

var decisionCats = []string{"connect", "reply."}

func with(l []string, more ...string) []string { return append(append([]string{}, l...), more...) }

var props = []*Prop{
	{ID: "C01", Gen: genC01, Own: with(decisionCats, "envelope"), NonTrivial: ntDecided,
		Rule: "rule sets over all phases, actions, includes, several -r files and convenience options, against sessions with up to three transactions; non-trivial: at least one command decided by a rule after another eligible rule had been tried without matching"},
	{ID: "C02", Gen: genC02, Own: with(decisionCats, "note", "text"),
		NonTrivial: func(c *Case, st *Stats) bool { return st.Notes > 1 && st.Matched > 0 },
		Rule:       "set-with rules whose notes reveal in which phases each rule acts, mixed with deciding rules, over every operator class and every explicit phase; non-trivial: at least two notes were due"},
	{ID: "C03", Gen: genC03, Own: with(decisionCats, "text", "note"), NonTrivial: ntLeaves,
		Rule: "expression trees of depth up to four in one to four clauses, each clause with its own message, against varied sessions; non-trivial: some leaf evaluated true and some false"},
	{ID: "C04", Gen: genC04, Own: with(decisionCats, "text"), NonTrivial: ntLeaves,
		Rule: "a list of '@from/@to reject PATTERN with message mI' rules (patterns inline or in files) against many addresses built from the same parts, recased, plus malformed ones; non-trivial: some pattern matched and some did not"},
	{ID: "C05", Gen: genC05, Own: with(decisionCats, "text"), NonTrivial: ntLeaves,
		Rule: "helo, host and source rules with inline or file patterns against EHLO names, verified and unverified reverse DNS names (with and without final dot) and senders from one pool; non-trivial: some pattern matched and some did not"},
	{ID: "C06", Gen: genC06, Own: with(decisionCats, "text"), NonTrivial: ntLeaves,
		Rule: "from-has/to-has rules with one to three attributes, with and without the standard rules, against addresses strung together from the characters that matter; non-trivial: some attribute test came out true and some false"},
	{ID: "C07", Gen: genC07, Own: with(decisionCats, "text"), NonTrivial: ntLeaves,
		Rule: "helo-has rules with one to three attributes against repeated EHLO/HELO with plain names, no name, '.', IP addresses of the client, the server and others in several spellings, over IPv4 and IPv6; non-trivial: some attribute test came out true and some false"},
	{ID: "C08", Gen: genC08, Own: with(decisionCats, "text"), NonTrivial: ntLeaves,
		Rule: "ip rules naming addresses, CIDR blocks with bits flipped around the mask boundary, and files with junk lines, against several client addresses (IPv4 and IPv6); non-trivial: some test came out true and some false"},
	{ID: "C09", Gen: genC09, Own: with(decisionCats, "text", "save"), NonTrivial: func(c *Case, st *Stats) bool { return ntLeaves(c, st) && len(c.DNS.PTR) > 0 },
		Rule: "dns and host rules over generated PTR and address data (consistent, inconsistent, unresolvable, failing, IPv6), plus the reverse DNS lines of saved messages; non-trivial: PTR data present, some test came out true and some false"},
	{ID: "C10", Gen: genC10, Own: with(decisionCats, "text"), NonTrivial: ntLeaves,
		Rule: "from-has/to-has resolves, baddom, unknown over generated MX and address data (null MX, localhost, private, mixed, failing targets); non-trivial: some test came out true and some false"},
	{ID: "C11", Gen: genC11, Own: with(decisionCats, "text", "hit"), NonTrivial: func(c *Case, st *Stats) bool { return st.Hits > 0 && st.LeafFalse > 0 },
		Rule: "dnsbl and dbl rules over generated blocklist zones (hits, misses, failures, unreversed entries), clients and names, with the hit lines of the SMTP log; non-trivial: at least one hit and one miss"},
	{ID: "C12", Gen: genC12, Own: []string{"text", "note", "save", "reply.message"}, NonTrivial: func(c *Case, st *Stats) bool { return st.Matched > 0 && st.TextChecks+st.Notes+st.Saved > 0 },
		Rule: "many set-with and deciding rules with messages (multi-line, with %, quotes and backslashes), notes and savedirs, with and without an SMTP log; non-trivial: a set-with rule matched and its options or another's were due"},
	{ID: "C13", Gen: genC13, Own: with(decisionCats, "text", "note", "save"), NonTrivial: func(c *Case, st *Stats) bool { return st.Deferred > 0 },
		Rule: "sessions mixing null and ordinary senders, RSET, repeated EHLO and several transactions under rules that often refuse the null sender; non-trivial: a verdict on MAIL FROM:<> was carried to the recipients"},
	{ID: "C14", Gen: genC14, Own: with(decisionCats, "text", "note"), NonTrivial: func(c *Case, st *Stats) bool { return st.Multi > 0 },
		Rule: "@data, @message and phase-free rules about recipients, with several recipients accepted and refused over several transactions; non-trivial: a recipient rule was tried after RCPT TO with at least two accepted recipients"},
	{ID: "C17", Gen: genC17, Own: with(decisionCats, "text"), NonTrivial: func(c *Case, st *Stats) bool { return st.LeafTrue > 0 && (st.Misses > 0 || st.LeafFalse > 0) },
		Rule: "rules consulting pattern files (blank and comment lines, odd spacing, upper case, no final newline, empty, missing, unreadable), alone, under not, or, later clauses and in convenience options, with the files changing between sessions; non-trivial: some test came out true and some file test false or void"},
	{ID: "C27", Gen: genC27, Own: with(decisionCats, "save", "msglog"), NonTrivial: func(c *Case, st *Stats) bool { return st.Decided > 0 },
		Rule: "random sets of -M, -fromreject, -toaccept, -heloreject, -nostdrules, -d with list files present, empty or missing, ahead of rule files that often say the opposite; non-trivial: some command was decided by a rule"},
}

func (g *G) commonOpts() {
	g.opt.NoStd = g.p(50)
	g.opt.M = g.p(8)
}

func genC01(g *G) *Case {
	k := baseKnobs()
	k.MaxRules = 6
	k.MaxClauses = 2
	k.Leaves = append(k.Leaves, "from-has", "to-has", "helo-has", "tls", "host")
	g.commonOpts()
	g.opt.SMTPLog = g.p(30)
	if g.p(8) {
		return genAttempts(g, &k)
	}
	if g.opt.D = g.p(40); g.opt.D {
		k.NarrowPct = 30
	}
	if g.p(25) {
		g.convenience()
	}
	g.ruleFiles(&k)
	g.sessions(&k, 3)
	return g.build()
}

// genAttempts: refused and accepted attempts at every command in turn, each
// session ending in a message whose envelope shows which of them counted.
func genAttempts(g *G, k *Knobs) *Case {
	g.opt.D, g.opt.NRules = true, 1
	g.opt.MsgLog = g.p(50)
	bad := func(op, arg, phase string) Item {
		return Item{Rule: &Rule{Phase: phase, Action: pick(g, []string{"reject", "stall"}), Clauses: []Clause{{Terms: []*Term{{Op: op, Arg: arg}}}}}}
	}
	items := []Item{bad("helo", "x.a.com", pick(g, []string{"", "helo", "from"})), bad("from", "v@a.com", pick(g, []string{"", "from", "to"})),
		bad("to", "v@b.org", pick(g, []string{"", "to", "data"}))}
	if g.p(30) {
		items = append(items, bad("from", "w@a.com", pick(g, []string{"data", "message"})))
	}
	g.addRuleFile("r0", items, k)
	helos := []string{"h.b.com", "x.a.com", "y.a.com"}
	froms := []string{"u@a.com", "v@a.com", "w@a.com", ""}
	tos := []string{"u@b.org", "v@b.org", "w@b.org"}
	for i := 1 + g.n(2); i > 0; i-- {
		var st []Step
		greet := func() {
			for j := 1 + g.w(5, 3, 1); j > 0; j-- {
				st = append(st, Step{Kind: pick(g, []string{"ehlo", "ehlo", "helo"}), Arg: helos[g.w(4, 3, 2)]})
			}
		}
		greet()
		for j := 1 + g.n(3); j > 0; j-- {
			st = append(st, Step{Kind: "mail", Arg: froms[g.w(4, 3, 2, 1)]})
			if g.p(40) {
				st = append(st, Step{Kind: "mail", Arg: froms[g.w(4, 1, 2, 1)]})
			}
			for l := 1 + g.n(3); l > 0; l-- {
				st = append(st, Step{Kind: "rcpt", Arg: tos[g.w(4, 3, 2)]})
			}
			if g.p(70) {
				st = append(st, Step{Kind: "data", Body: "Subject: a\n\nb\n"})
			}
			st = append(st, Step{Kind: "rset"})
			if g.p(35) {
				greet()
			}
		}
		st = append(st, Step{Kind: "quit"})
		g.ops = append(g.ops, Op{Kind: "session", Sess: &Sess{Src: g.srcs[0], Dst: "127.0.0.1", Steps: st}})
	}
	return g.build()
}

// convenience draws convenience options and their files.
func (g *G) convenience() {
	one := func(opt *bool, name, kind string) {
		if *opt = g.p(45); *opt {
			t, bad := g.listText(kind)
			g.ops = append(g.ops, Op{Kind: "list", Name: name, Text: t, Bad: bad})
		}
	}
	one(&g.opt.FromReject, fileFromReject, "addr")
	one(&g.opt.ToAccept, fileToAccept, "addr")
	one(&g.opt.HeloReject, fileHeloReject, "host")
}

func genC02(g *G) *Case {
	k := baseKnobs()
	k.MaxRules = 7
	k.Leaves = []string{"all", "from", "to", "helo", "ip", "dns", "tls", "from-has", "to-has", "helo-has", "source", "host", "dbl", "dnsbl"}
	k.SetW, k.AcceptW, k.RejectW, k.StallW = 60, 15, 15, 10
	k.PhasePct = 60
	k.Withs = []string{"note", "note", "message"}
	k.MaxClauses = 2
	k.NullPct, k.WeirdPct = 8, 4
	k.EarlyPct = 40
	k.TLSPct = 15
	g.opt.SMTPLog = true
	g.opt.NoStd = g.p(60)
	if g.p(30) {
		g.opt.Cert = "sa"
	}
	if g.p(50) {
		g.genDNS(false)
		g.genBL()
	}
	g.ruleFiles(&k)
	g.sessions(&k, 2)
	return g.build()
}

func genC03(g *G) *Case {
	k := baseKnobs()
	k.MaxRules = 3
	k.Depth = 1 + g.n(4)
	k.MaxTerms = 3
	k.MaxClauses = 4
	k.WithPct = 85
	k.Leaves = []string{"from", "to", "helo", "all", "ip", "from", "to", "tls", "dns", "helo-has", "from-has"}
	k.LayoutPct = 35
	k.FilePct = 5
	k.NullPct, k.WeirdPct = 5, 3
	g.opt.NoStd = true
	if g.p(30) {
		g.genDNS(false)
	}
	g.opt.SMTPLog = g.p(40)
	g.ruleFiles(&k)
	g.sessions(&k, 3)
	return g.build()
}

// probeRules makes up to n one-operator rules acting in one phase, each with
// its own message, so that the reply tells which one matched.
func (g *G) probeRules(n int, phases []string, leaves []string, filePct int) {
	k := baseKnobs()
	k.Leaves, k.FilePct = leaves, filePct
	var items []Item
	for i := 1 + g.n(n); i > 0; i-- {
		t := g.leaf(&k)
		if g.p(12) {
			t = &Term{Op: "not", Kids: []*Term{t}}
		}
		r := &Rule{Phase: pick(g, phases), Action: pick(g, []string{"reject", "stall"}), Clauses: []Clause{{Terms: []*Term{t}, Withs: []With{{"message", g.msgText()}}}}}
		if phaseNum[r.Phase] < r.needs() {
			r.Phase = phaseNames[r.needs()-1]
		}
		items = append(items, Item{Rule: r})
	}
	if g.opt.NRules == 0 {
		g.opt.NRules = 1
	}
	g.addRuleFile("r0", items, &k)
}

// probeSession greets and then tries many senders or recipients.
func (g *G) probeSession(k *Knobs, n int, to bool) {
	s := &Sess{Src: g.src()}
	s.Dst = g.dst(s.Src)
	kind := pick(g, []string{"ehlo", "ehlo", "ehlo", "helo"})
	s.Steps = append(s.Steps, Step{Kind: kind, Arg: g.heloName()})
	if to {
		s.Steps = append(s.Steps, Step{Kind: "mail", Arg: pick(g, []string{"q@q.q.net", "q@a.com", "u@b.org"})})
	}
	for i := 1 + g.n(n); i > 0; i-- {
		if to {
			s.Steps = append(s.Steps, Step{Kind: "rcpt", Arg: g.rcpt(k.WeirdPct)})
		} else {
			s.Steps = append(s.Steps, Step{Kind: "mail", Arg: g.sender(k.NullPct, k.WeirdPct)}, Step{Kind: "rset"})
		}
	}
	g.ops = append(g.ops, Op{Kind: "session", Sess: s})
}

func genC04(g *G) *Case {
	g.opt.NoStd = true
	to := g.n(2) == 1
	op, ph := "from", "from"
	if to {
		op, ph = "to", "to"
	}
	k := baseKnobs()
	k.WeirdPct = 25
	g.probeRules(8, []string{ph}, []string{op}, 30)
	for i := 1 + g.n(2); i > 0; i-- {
		g.probeSession(&k, 12, to)
	}
	return g.build()
}

func genC05(g *G) *Case {
	g.opt.NoStd = g.p(70)
	g.opt.Hosts = g.p(15)
	g.srcs = []string{"127.1.0.1", "127.1.0.2", "127.1.1.1"}
	if g.opt.Hosts {
		g.srcs = append(g.srcs, "127.77.0.1", "127.77.0.2", "127.77.0.3")
	}
	if g.v6 && g.p(20) {
		g.srcs = append(g.srcs, "::1")
	}
	g.genDNS(false)
	k := baseKnobs()
	k.WeirdPct = 8
	if g.opt.Hosts && g.p(50) {
		// rules about the hosts file's names
		var items []Item
		for i := 1 + g.n(3); i > 0; i-- {
			p := pick(g, []string{"shortname", "xname", "long.host.example", ".host.example", ".shortname", "shortnam", "shortname.", "hortname"})
			items = append(items, Item{Rule: &Rule{Phase: "from", Action: "reject", Clauses: []Clause{{Terms: []*Term{{Op: pick(g, []string{"host", "source"}), Arg: p}}, Withs: []With{{"message", g.msgText()}}}}}})
		}
		g.opt.NRules = 1
		g.addRuleFile("r0", items, &k)
	} else {
		g.probeRules(6, []string{"from", "from", "to"}, []string{"helo", "host", "source", "ehlo", "host"}, 30)
	}
	for i := 1 + g.n(3); i > 0; i-- {
		s := &Sess{Src: g.src()}
		s.Dst = g.dst(s.Src)
		for j := 1 + g.n(4); j > 0; j-- {
			s.Steps = append(s.Steps, Step{Kind: pick(g, []string{"ehlo", "helo"}), Arg: g.heloName()},
				Step{Kind: "mail", Arg: g.sender(10, 8)}, Step{Kind: "rcpt", Arg: g.rcpt(5)}, Step{Kind: "rset"})
		}
		g.ops = append(g.ops, Op{Kind: "session", Sess: s})
	}
	return g.build()
}

func genC06(g *G) *Case {
	g.opt.NoStd = g.p(65)
	to := g.n(2) == 1
	k := baseKnobs()
	k.WeirdPct = 75
	if to {
		g.probeRules(6, []string{"to"}, []string{"to-has"}, 0)
	} else {
		g.probeRules(6, []string{"from", "from", "to"}, []string{"from-has"}, 0)
	}
	for i := 1 + g.n(2); i > 0; i-- {
		g.probeSession(&k, 14, to)
	}
	return g.build()
}

func genC07(g *G) *Case {
	g.opt.NoStd = g.p(75)
	g.dsts = uDsts
	g.srcs = []string{"127.1.0.1", "127.1.0.2", "127.128.0.1"}
	if g.v6 && g.p(40) {
		g.srcs = append(g.srcs, "::1")
	}
	g.probeRules(7, []string{"from", "from", "from", "helo"}, []string{"helo-has"}, 0)
	for i := 1 + g.n(2); i > 0; i-- {
		s := &Sess{Src: g.src()}
		s.Dst = g.dst(s.Src)
		for j := 1 + g.n(6); j > 0; j-- {
			name := ""
			switch g.w(5, 5, 2) {
			case 0:
				name = g.ipHelo()
			case 1:
				name = g.heloName()
			case 2:
				name = pick(g, []string{s.Src, s.Dst, "[" + s.Src + "]", "[" + s.Dst + "]", ".", ""})
			}
			s.Steps = append(s.Steps, Step{Kind: pick(g, []string{"ehlo", "helo"}), Arg: name},
				Step{Kind: "mail", Arg: "q@q.q.net"}, Step{Kind: "rset"})
		}
		g.ops = append(g.ops, Op{Kind: "session", Sess: s})
	}
	return g.build()
}

func genC08(g *G) *Case {
	g.opt.NoStd = true
	if g.v6 && g.p(30) {
		g.srcs = append(append([]string{}, uSrcs...), "::1")
	}
	g.srcs = append(append([]string{}, g.srcs...), "127.1.0.3", "127.0.0.1", "127.3.255.254")
	g.probeRules(8, []string{"from", "from", "helo", "to"}, []string{"ip"}, 40)
	for _, s := range subset(g, g.srcs, 5) {
		ss := &Sess{Src: s, Dst: g.dst(s)}
		ss.Steps = []Step{{Kind: "ehlo", Arg: "h"}, {Kind: "mail", Arg: "q@q.q.net"}, {Kind: "rcpt", Arg: "u@a.com"}}
		g.ops = append(g.ops, Op{Kind: "session", Sess: ss})
	}
	return g.build()
}

func genC09(g *G) *Case {
	g.opt.NoStd = true
	g.opt.Hosts = g.p(10)
	g.srcs = []string{"127.1.0.1", "127.1.0.2", "127.2.0.1"}
	if g.v6 && g.p(30) {
		g.srcs = append(g.srcs, "::1")
	}
	if g.opt.Hosts {
		g.srcs = append(g.srcs, "127.77.0.1", "127.77.0.3")
	}
	g.genDNS(false)
	g.opt.D = g.p(50)
	g.probeRules(6, []string{"from", "helo", "to", "message", "from"}, []string{"dns", "host", "dns"}, 5)
	some := func() {
		for _, s := range subset(g, g.srcs, 3) {
			ss := &Sess{Src: s, Dst: g.dst(s)}
			ss.Steps = []Step{{Kind: "ehlo", Arg: "h"}, {Kind: "mail", Arg: "q@q.q.net"}, {Kind: "rcpt", Arg: "u@a.com"},
				{Kind: "data", Body: "Subject: x\n\nbody\n"}, {Kind: "quit"}}
			g.ops = append(g.ops, Op{Kind: "session", Sess: ss})
		}
	}
	some()
	if g.p(25) {
		g.newDNS(func() { g.genDNS(false) })
		some()
	}
	return g.build()
}

func genC10(g *G) *Case {
	g.opt.NoStd = true
	g.genDNS(true)
	to := g.n(2) == 1
	k := baseKnobs()
	k.WeirdPct = 10
	op, ph := "from-deliv", "from"
	if to {
		op, ph = "to-deliv", "to"
	}
	g.probeRules(4, []string{ph}, []string{op}, 0)
	for i := 1 + g.n(2); i > 0; i-- {
		g.probeSession(&k, 10, to)
	}
	if g.p(20) {
		g.newDNS(func() { g.genDNS(true) })
		g.probeSession(&k, 10, to)
	}
	return g.build()
}

func genC11(g *G) *Case {
	g.opt.NoStd = true
	g.opt.SMTPLog = true
	g.opt.Hosts = g.p(10)
	g.srcs = []string{"127.1.0.1", "127.1.0.2", "127.2.0.1"}
	if g.v6 && g.p(25) {
		g.srcs = append(g.srcs, "::1")
	}
	if g.opt.Hosts {
		g.srcs = append(g.srcs, "127.77.0.1", "127.77.0.3")
	}
	g.genDNS(false)
	g.genBL()
	if g.opt.Hosts {
		for _, n := range []string{"shortname", "shortnam", "long.host.example"} {
			if g.p(40) {
				g.dns.Addr[n+"."+pick(g, blDomains)] = []string{"127.0.0.2"}
			}
		}
	}
	k := baseKnobs()
	k.Leaves = []string{"dnsbl", "dbl", "dnsbl", "dbl", "dbl", "from", "to"}
	k.MaxRules, k.MaxTerms, k.Depth, k.MaxClauses = 4, 2, 1, 2
	k.SetW = 50
	k.WithPct = 60
	k.WeirdPct = 8
	k.MaxTrans, k.MaxRcpts = 2, 2
	g.ruleFiles(&k)
	g.sessions(&k, 2)
	if g.p(20) {
		g.newDNS(func() {
			g.genDNS(false)
			g.genBL()
		})
		g.sessions(&k, 2)
	}
	return g.build()
}

func genC12(g *G) *Case {
	k := baseKnobs()
	k.MaxRules = 8
	k.MaxClauses = 3
	k.SetW, k.RejectW, k.AcceptW, k.StallW = 55, 20, 15, 10
	k.WithPct = 75
	k.Withs = []string{"message", "note", "savedir", "message"}
	k.Leaves = []string{"all", "from", "to", "helo", "from-has", "all", "to"}
	k.LayoutPct = 30
	k.WeirdPct = 3
	if g.p(12) {
		k.NullPct = 45
	}
	g.opt.NoStd = g.p(60)
	g.opt.SMTPLog = g.p(70)
	g.opt.D = g.p(60)
	g.opt.SaveHash = pick(g, []string{"", "full"})
	g.ruleFiles(&k)
	g.sessions(&k, 2)
	return g.build()
}

func genC13(g *G) *Case {
	k := baseKnobs()
	k.NullPct = 55
	k.Leaves = []string{"from", "all", "from", "to", "helo", "from-has", "source"}
	k.MaxRules = 5
	k.WithPct = 55
	k.WeirdPct = 3
	k.MaxTrans = 4
	k.Noise = 20
	k.AcceptW = 15
	g.opt.NoStd = g.p(60)
	g.opt.SMTPLog = g.p(60)
	if g.p(20) {
		g.opt.D = true
		k.Withs = []string{"message", "note", "savedir", "savedir"}
	}
	g.ruleFiles(&k)
	// patterns that catch the null sender
	if g.p(60) {
		r := &Rule{Phase: pick(g, []string{"", "from"}), Action: pick(g, []string{"reject", "stall"}), Clauses: []Clause{{Terms: []*Term{{Op: "from", Arg: "<>"}}, Withs: g.withs(&k, false)}}}
		for i := range g.ops {
			if o := &g.ops[i]; o.Kind == "rules" && o.Rules.Name == "r0" {
				o.Rules.Items = append(o.Rules.Items, Item{Rule: r})
				o.Rules.Text = renderItems(o.Rules.Items, plainLayout{})
			}
		}
	}
	g.sessions(&k, 2)
	return g.build()
}

func genC14(g *G) *Case {
	k := baseKnobs()
	k.Leaves = []string{"to", "to", "to-has", "to", "from", "all"}
	k.MaxRcpts, k.MaxTrans = 5, 3
	k.PhasePct = 75
	k.MaxClauses = 3
	k.WithPct = 80
	k.Depth = 1
	k.NullPct = 4
	k.WeirdPct = 8
	k.FilePct = 8
	k.SetW, k.RejectW, k.AcceptW, k.StallW = 35, 30, 20, 15
	g.opt.NoStd = g.p(70)
	g.opt.SMTPLog = g.p(60)
	g.opt.NRules = 1
	var items []Item
	for i := 1 + g.n(5); i > 0; i-- {
		r := g.rule(&k)
		if r.needs() <= phTo && g.p(60) {
			r.Phase = pick(g, []string{"data", "message"})
		}
		items = append(items, Item{Rule: r})
	}
	g.addRuleFile("r0", items, &k)
	g.sessions(&k, 2)
	return g.build()
}

func genC17(g *G) *Case {
	g.opt.NoStd = true
	if g.p(30) {
		g.convenience()
	}
	k := baseKnobs()
	g.long = g.p(12)
	k.FilePct = 80
	k.Leaves = []string{"from", "to", "helo", "ip", "from", "source"}
	k.MaxClauses = 3
	k.Depth = 2
	k.MaxTerms = 2
	k.WithPct = 70
	k.WeirdPct = 3
	k.MaxRules = 4
	g.ruleFiles(&k)
	k.MaxTrans = 4
	k.MaxRcpts = 3
	k.DataPct = 40
	for i := 1 + g.n(3); i > 0; i-- {
		g.session(&k)
		if i > 1 && g.p(50) {
			// change a file
			var names []string
			for j := 0; j < 4; j++ {
				if n := "p" + itoa(j); g.kindOf[n] != "" {
					names = append(names, n)
				}
			}
			if len(names) > 0 {
				n := pick(g, names)
				t, bad := g.listText(g.kindOf[n])
				g.ops = append(g.ops, Op{Kind: "list", Name: n, Text: t, Bad: bad})
			}
		}
	}
	return g.build()
}

func genC27(g *G) *Case {
	g.opt.NoStd = g.p(50)
	g.opt.M = g.p(35)
	g.opt.D = g.p(40)
	g.opt.MsgLog = g.p(60)
	g.convenience()
	k := baseKnobs()
	k.MaxRules = 3
	k.AcceptW, k.RejectW, k.StallW, k.SetW = 60, 15, 10, 15
	k.Leaves = []string{"all", "from", "to", "helo", "all"}
	k.WeirdPct = 12
	if g.p(60) {
		g.ruleFiles(&k)
	}
	for i := 1 + g.n(3); i > 0; i-- {
		g.session(&k)
		if i > 1 && g.p(30) && g.opt.FromReject {
			t, bad := g.listText("addr")
			g.ops = append(g.ops, Op{Kind: "list", Name: fileFromReject, Text: t, Bad: bad})
		}
	}
	return g.build()
}
