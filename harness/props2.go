package main

// Properties about files, logs, histories and concurrency.

import (
	"fmt"
	"strings"
)

func init() {
	props = append(props,
		&Prop{ID: "C15", Gen: genC15, Own: with(decisionCats, "save", "msglog", "stderr", "delay"),
			NonTrivial: func(c *Case, st *Stats) bool { return st.Classes["broken rules"] > 0 && st.Classes["good rules"] > 0 },
			Rule:       "histories of rule files and includes going missing, becoming unreadable or unparsable and being repaired, between and during sessions, with and without -dncount; non-trivial: some session met broken rules and some good ones"},
		&Prop{ID: "C18", Gen: genC18, Own: with(decisionCats, "text", "save", "savename", "id", "smtplog", "msglog", "note", "hit", "greet", "starttls", "tls", "ccert", "scert"),
			NonTrivial: func(c *Case, st *Stats) bool {
				return (st.Classes["parallel sessions"] > 0 || st.Classes["interleaved"] > 0) && st.Decided > 0
			},
			Race: true, Concurrent: true,
			Rule: "two to eight sessions interleaved command by command or truly parallel, with rule files replaced meanwhile, each judged as if alone; half the shards run the race-detecting build; non-trivial: sessions overlapped and a rule decided something"},
		&Prop{ID: "C19", Gen: genC19, Own: []string{"save", "savename", "id", "reply.message"},
			NonTrivial: func(c *Case, st *Stats) bool { return st.Saved > 0 },
			Rule:       "messages of every shape (empty, dots, 8-bit, NUL, no final newline, header-like, large, unparsable) with odd envelopes and names, over plain and TLS sessions, refused, cut off, repeated; non-trivial: at least one message was to be saved"},
		&Prop{ID: "C20", Gen: genC20, Own: []string{"save", "savename", "id", "reply.message"},
			NonTrivial: func(c *Case, st *Stats) bool { return st.Saved > 1 },
			Rule:       "repeated and slightly differing messages (data, sender, recipients and their order, EHLO, client, TLS) under each -save-hash; non-trivial: at least two messages were to be saved"},
		&Prop{ID: "C21", Gen: genC21, Own: []string{"save", "savename", "id", "reply.message"}, Level: "fault_enumeration",
			NonTrivial: func(c *Case, st *Stats) bool {
				return st.Classes["fault fired"]+st.Classes["died while saving"]+st.Classes["killed"] > 0
			},
			Rule: "histories of messages and retries with failures of open, write after k bytes, fsync, close and link in the save directory, deaths of the server at those points, and kills after replies, followed by restarts; non-trivial: a fault fired or the server died"},
		&Prop{ID: "C22", Gen: genC22, Own: []string{"smtplog", "msglog", "note", "hit"},
			NonTrivial: func(c *Case, st *Stats) bool { return st.Messages > 0 },
			Race:       false, Concurrent: true,
			Rule: "sessions alone, interleaved command by command and truly parallel, with messages refused at every phase, cut off or complete; every log line is attributed and each session's lines compared in order; non-trivial: at least one complete message"},
		&Prop{ID: "C23", Gen: genC23, Own: with(decisionCats, "delay", "smtplog"),
			NonTrivial: func(c *Case, st *Stats) bool { return st.Stalled > 0 },
			Rule:       "histories of up to twelve sessions from a few addresses getting to various phases, with repeated MAIL FROMs, make-yakker rules, TLS failures, broken rules and the clock moving up to and past -dndur, under every -minphase; non-trivial: some session was stalled"},
		&Prop{ID: "C24", Gen: genC24, Own: with(decisionCats, "starttls", "tls", "ccert", "scert", "save"),
			NonTrivial: func(c *Case, st *Stats) bool { return st.TLS+st.TLSFail > 0 },
			Rule:       "histories of sessions with good and failing TLS handshakes (garbage, old versions, distrust, disconnects), good and bad client certificates, tls-opt and 'tls' rules, and the clock moving up to and past 72 hours; non-trivial: some handshake was attempted"},
		&Prop{ID: "C25", Gen: genC25, Own: []string{"greet", "starttls", "tls", "scert", "connect"},
			NonTrivial: func(c *Case, st *Stats) bool { return st.Classes["conncfg match"] > 0 },
			Rule:       "generated -conncfg files (wildcards, addresses, address:port, CIDR blocks, names, certificates, comments, missing final newline, unloadable) changing between connections to several local addresses; non-trivial: some connection had a matching line"},
		&Prop{ID: "C26", Gen: genC26, Own: with(decisionCats, "leak", "noanswer", "text"),
			NonTrivial: func(c *Case, st *Stats) bool { return true },
			Race:       true, Concurrent: true,
			Rule: "arbitrary and structured bytes on several connections at once with every kind of disconnect, arbitrary and grammar-derived rule, pattern and connection files, modelled sessions alongside; afterwards a probe session must be answered and goroutines and open files be back to where they were; half the shards run the race-detecting build; every case counts"},
		&Prop{ID: "C30", Gen: genC30, Own: []string{"dnlog"},
			NonTrivial: func(c *Case, st *Stats) bool { return st.Stalled > 0 },
			Rule:       "histories as for C23, always with -dnlog, and several sessions of one client under way at once; the do-nothing log and the notices in the SMTP log compared line by line per session; non-trivial: some session was stalled"},
		&Prop{ID: "C31", Gen: genC31, Own: []string{"last"},
			NonTrivial: func(c *Case, st *Stats) bool { return c.Opt.PerIP || c.Opt.Two },
			Rule:       "mixes of sessions to several local addresses and ports, some stalled, refused or complete, with the clock moving in between; the published last times and the tables per local address compared with the history; non-trivial: tables per address are kept"},
		&Prop{ID: "C29", Gen: genC29, Own: []string{"count"},
			NonTrivial: func(c *Case, st *Stats) bool { return st.Decided > 0 },
			Rule:       "mixes of sessions of every kind (refused, cut, quit, aborted, TLS, failing TLS, broken rules, stalled, blocklisted), then all counters compared with the model's totals; non-trivial: some command was decided by a rule"},
	)
}

// breakFile makes a rule file unloadable.
func (g *G) breakFile(name string, items []Item) *RuleFile {
	rf := &RuleFile{Name: name}
	switch g.w(6, 3, 3) {
	case 1:
		rf.Bad = "missing"
	case 2:
		rf.Bad = pick(g, []string{"unreadable", "unreadable", "loop"})
	default:
		rf.Bad = "syntax"
		// which of several broken files is found first is not specified, so
		// a broken file includes nothing
		var own []Item
		for _, it := range items {
			if it.Include == "" {
				own = append(own, it)
			}
		}
		good := renderItems(own, plainLayout{})
		junk := pick(g, []string{"rejekt all\n", "reject\n", "accept from\n", "reject all with message\n", "reject (all\n", "reject all)\n",
			"set-with all\n", "@from reject to u@a.com\n", "reject all with frob 1\n", "reject from-has frob\n", "include\n", "reject all \"x\n", "stall all or\n",
			"reject from-has bad, route\n", "@frob reject all\n", "reject all with note x note y\n"})
		// the last rule must not run into the junk as a continuation
		switch g.n(3) {
		case 0:
			rf.Text = good + junk
		case 1:
			rf.Text = junk + good
		default:
			rf.Text = junk
		}
	}
	return rf
}

func genC15(g *G) *Case {
	k := baseKnobs()
	k.MaxRules = 3
	k.NullPct, k.WeirdPct = 4, 3
	k.MaxTrans = 2
	k.EarlyPct = 5
	g.opt.NoStd = g.p(50)
	g.opt.MsgLog = g.p(60)
	g.opt.D = g.p(50)
	g.opt.SMTPLog = g.p(60)
	if g.p(25) {
		g.opt.SMTPLog = true
		g.opt.DnCount = 1 + g.n(2)
		g.opt.MinPhase = pick(g, []string{"", "message"})
	}
	if g.p(10) {
		g.opt.M = true
	}
	g.opt.NRules = 1 + g.n(2)
	g.srcs = g.srcs[:2]
	// the files: r0 (r1), each may include i0/i1; i1 may be included by i0
	files := map[string][]Item{}
	var names []string
	for _, n := range []string{"i1", "i0", "r0", "r1"} {
		if n == "r1" && g.opt.NRules < 2 {
			continue
		}
		var items []Item
		for i := g.n(3); i > 0; i-- {
			items = append(items, Item{Rule: g.rule(&k)})
		}
		inc := map[string]string{"i0": "i1", "r0": "i0", "r1": "i1"}[n]
		if inc != "" && g.p(60) {
			at := g.n(len(items) + 1)
			items = append(items[:at:at], append([]Item{{Include: inc}}, items[at:]...)...)
		}
		files[n] = items
		names = append(names, n)
		g.addRuleFile(n, items, &k)
	}
	broken := map[string]bool{}
	change := func() {
		n := pick(g, names)
		if broken[n] || g.p(15) {
			delete(broken, n)
			if g.p(30) {
				var items []Item
				for _, it := range files[n] {
					if it.Include != "" {
						items = append(items, it)
					}
				}
				files[n] = append(items, Item{Rule: g.rule(&k)})
			}
			g.addRuleFile(n, files[n], &k)
			return
		}
		broken[n] = true
		g.ops = append(g.ops, Op{Kind: "rules", Rules: g.breakFile(n, files[n])})
	}
	for i := 2 + g.n(5); i > 0; i-- {
		if g.p(70) {
			change()
		}
		if g.p(20) {
			// a session during which the rules change
			s := &Sess{Src: g.src(), Steps: g.steps(&k)}
			s.Dst = g.dst(s.Src)
			g.ops = append(g.ops, Op{Kind: "open", N: 1, Sess: s})
			at := g.n(len(s.Steps))
			for j := range s.Steps {
				if j == at {
					change()
				}
				g.ops = append(g.ops, Op{Kind: "step", N: 1, Step: &s.Steps[j]})
			}
			g.ops = append(g.ops, Op{Kind: "step", N: 1, Step: &Step{Kind: "close"}})
			continue
		}
		g.session(&k)
		if g.p(25) {
			g.session(&k)
		}
	}
	c := g.build()
	c.Fresh = true // servers remember what they last complained about
	return c
}

// interleave merges sessions step by step.
func (g *G) interleave(k *Knobs, n int, between func()) {
	var ss []*Sess
	for i := 0; i < n; i++ {
		s := &Sess{Src: g.src(), Steps: g.steps(k)}
		s.Dst = g.dst(s.Src)
		ss = append(ss, s)
	}
	pos := make([]int, n)
	for i := range pos {
		pos[i] = -1
	}
	left := n
	for left > 0 {
		var alive []int
		for i := range ss {
			if pos[i] <= len(ss[i].Steps) {
				alive = append(alive, i)
			}
		}
		i := pick(g, alive)
		for run := 1 + g.n(3); run > 0 && pos[i] <= len(ss[i].Steps); run-- {
			switch p := pos[i]; {
			case p < 0:
				g.ops = append(g.ops, Op{Kind: "open", N: i + 1, Sess: ss[i]})
			case p < len(ss[i].Steps):
				g.ops = append(g.ops, Op{Kind: "step", N: i + 1, Step: &ss[i].Steps[p]})
			default:
				g.ops = append(g.ops, Op{Kind: "step", N: i + 1, Step: &Step{Kind: "close"}})
				left--
			}
			pos[i]++
		}
		if between != nil {
			between()
		}
	}
}

// noConnectReject keeps rules from dropping connections, so that every
// session shows up in the SMTP log.
func noConnectReject(items []Item) {
	for _, it := range items {
		if r := it.Rule; r != nil && r.Action == "reject" && r.eligible(phConnect) {
			r.Phase = "from"
		}
	}
}

func (g *G) parallel(k *Knobs, n int, rules *RuleFile) {
	o := Op{Kind: "par", Rules: rules, N: g.n(40)}
	if g.big == bigClients {
		n += g.size(24)
	}
	for i := 0; i < n; i++ {
		s := Sess{Src: g.src(), Steps: g.steps(k)}
		s.Dst = g.dst(s.Src)
		o.Par = append(o.Par, s)
	}
	if g.p(40) {
		o.Yield = pick(g, []int{2, 5, 20})
	}
	g.ops = append(g.ops, o)
}

// dnPar: sessions of one client fail all at once, and then more of them one by
// one until the client has to be stalled.
func dnPar(g *G) *Case {
	k := baseKnobs()
	g.opt.NRules = 1
	g.opt.MinPhase = pick(g, []string{"to", "data", "message"})
	g.addRuleFile("r0", []Item{{Rule: &Rule{Phase: "to", Action: pick(g, []string{"reject", "stall"}), Clauses: []Clause{{Terms: []*Term{{Op: "all"}}}}}}}, &k)
	src := pick(g, []string{"127.1.0.1", "127.1.0.2"})
	total := 0
	one := func() []Step {
		st := []Step{{Kind: "ehlo", Arg: "h.b.com"}, {Kind: "mail", Arg: "u@b.com"}}
		total++
		for g.p(20) {
			st = append(st, Step{Kind: "rset"}, Step{Kind: "mail", Arg: "v@b.com"})
			total++
		}
		if g.p(50) {
			st = append(st, Step{Kind: "rcpt", Arg: "u@b.com"})
		}
		if g.p(80) {
			st = append(st, Step{Kind: "quit"})
		}
		return st
	}
	o := Op{Kind: "par", Yield: pick(g, []int{0, 1, 2, 4})}
	for i := 2 + g.n(7); i > 0; i-- {
		o.Par = append(o.Par, Sess{Src: src, Dst: "127.0.0.1", Steps: one()})
	}
	g.ops = append(g.ops, o)
	g.opt.DnCount = total + 1 + g.n(2)
	if g.forceDnLog {
		g.opt.DnLog = true
	}
	for i := g.opt.DnCount - total + 1; i > 0; i-- {
		g.ops = append(g.ops, Op{Kind: "session", Sess: &Sess{Src: src, Dst: "127.0.0.1", Steps: []Step{{Kind: "ehlo", Arg: "h.b.com"}, {Kind: "mail", Arg: "u@b.com"}, {Kind: "quit"}}}})
	}
	return g.build()
}

func (g *G) simpleRules(name string, k *Knobs, n int) *RuleFile {
	var items []Item
	for i := 1 + g.n(n); i > 0; i-- {
		items = append(items, Item{Rule: g.rule(k)})
	}
	noConnectReject(items)
	return g.addRuleFile(name, items, k)
}

// drawRules draws a replacement without writing it yet.
func (g *G) drawRules(name string, k *Knobs, n int) *RuleFile {
	rf := g.simpleRules(name, k, n)
	g.ops = g.ops[:len(g.ops)-1]
	return rf
}

func genC18(g *G) *Case {
	k := baseKnobs()
	k.Leaves = []string{"from", "to", "helo", "ip", "all", "from-has", "to-has", "helo-has", "tls", "host", "source", "from"}
	k.FilePct = 15
	k.EarlyPct = 10
	k.MaxTrans = 2
	k.WithPct = 50
	k.Withs = []string{"message", "note", "savedir", "message"}
	k.CutPct = 5
	k.TLSPct = 15
	k.Depth = 1
	g.opt.NoStd = g.p(50)
	g.opt.Two = g.p(15)
	g.opt.SMTPLog = true
	if g.p(35) {
		// do-nothing sessions are counted, but never too many
		g.opt.DnCount = 1000
	}
	g.opt.Pprof = g.p(15)
	g.opt.MsgLog = g.p(70)
	g.opt.D = g.p(60)
	if g.p(30) {
		g.opt.Cert = "sa"
	} else {
		k.TLSPct = 0
	}
	g.opt.NRules = 1 + g.n(2)
	if g.p(40) {
		g.genDNS(false)
	}
	if g.p(40) {
		g.genBL()
		k.Leaves = append(k.Leaves, "dnsbl", "dnsbl", "dbl", "dbl", "dnsbl")
		if g.p(40) {
			g.srcs = g.srcs[:2]
		}
	}
	if g.p(25) {
		g.convenience()
	}
	for i := 0; i < g.opt.NRules; i++ {
		g.simpleRules(ruleFileName(i), &k, 4)
	}
	switch {
	case g.p(50):
		changes := 0
		g.interleave(&k, 2+g.n(3), func() {
			if changes < 3 && g.p(8) {
				changes++
				g.simpleRules(ruleFileName(g.n(g.opt.NRules)), &k, 4)
			}
		})
	default:
		for i := 1 + g.n(2); i > 0; i-- {
			var rf *RuleFile
			if g.p(50) {
				rf = g.drawRules(ruleFileName(g.n(g.opt.NRules)), &k, 4)
			}
			g.parallel(&k, 2+g.n(7), rf)
		}
	}
	return g.build()
}

func genC19(g *G) *Case {
	k := baseKnobs()
	k.Leaves = []string{"from", "to", "all", "helo"}
	k.MaxRules = 3
	k.EarlyPct = 0
	k.RejectW, k.AcceptW, k.StallW, k.SetW = 20, 20, 20, 40
	k.Withs = []string{"message", "savedir"}
	k.WeirdPct, k.NullPct = 30, 12
	k.DataPct = 92
	k.MaxRcpts = 4
	k.CutPct = 10
	k.HardPct = 6
	k.BigBody = true
	k.TLSPct = 20
	k.TickPct = 15
	g.dsts = uDsts
	g.opt.NoStd = true
	g.opt.D = g.p(85)
	g.opt.SaveHash = pick(g, []string{"", "full", "msg", "all"})
	g.opt.MsgLog = g.opt.SaveHash == "msg" || g.p(20)
	g.opt.SMTPLog = g.p(20)
	g.opt.M = g.p(10)
	if g.p(40) {
		g.opt.Cert = pick(g, []string{"sa", "sa,sb"})
	} else {
		k.TLSPct = 0
	}
	if g.v6 && g.p(20) {
		g.srcs = append([]string{"::1"}, uSrcs...)
	}
	if g.p(50) {
		g.genDNS(false)
	}
	if g.p(60) {
		g.opt.NRules = 1
		var items []Item
		for i := 1 + g.n(3); i > 0; i-- {
			r := g.rule(&k)
			if r.Action != "set-with" && g.p(60) {
				r.Phase = "message"
			}
			items = append(items, Item{Rule: r})
		}
		g.addRuleFile("r0", items, &k)
	}
	g.sessions(&k, 3)
	return g.build()
}

func genC20(g *G) *Case {
	g.opt.D = true
	g.opt.NoStd = true
	g.opt.SaveHash = pick(g, []string{"msg", "full", "all", ""})
	g.opt.MsgLog = g.opt.SaveHash == "msg" || g.p(20)
	k := baseKnobs()
	if g.p(40) {
		k.Leaves = []string{"from", "to", "all"}
		k.EarlyPct = 0
		k.Withs = []string{"savedir", "message"}
		k.SetW = 50
		g.opt.NRules = 1
		var items []Item
		for i := 1 + g.n(2); i > 0; i-- {
			r := g.rule(&k)
			if r.Action != "set-with" {
				r.Phase = "message"
			}
			items = append(items, Item{Rule: r})
		}
		g.addRuleFile("r0", items, &k)
	}
	if g.p(20) {
		g.opt.Cert = "sa"
	}
	long := ""
	if g.big == bigBodies {
		long = strings.Repeat(pick(g, []string{"0123456789\n", "\n", strings.Repeat("x", 900) + "\n"}), g.size(4000))
	}
	bodies := []string{"Subject: s\n\nx\n", "Subject: s\n\ny\n", "Subject: s\n\nx\n\n", "Subject: s\nX: x\n\nx\n", "x\n", "", "\n", "Subject: s\n\nx \n"}
	nb := 1 + g.n(3)
	var pool []string
	for i := 0; i < nb; i++ {
		pool = append(pool, pick(g, bodies))
		if long != "" && g.p(60) {
			// differing at the start, or at the end
			pool[i] = pick(g, []string{"Subject: s\n\n" + long + "x\n", "Subject: s\n\n" + long + "y\n", "Subject: s\n\ny\n" + long, "Subject: s\n\n" + long})
		}
	}
	froms := []string{"u@a.com", "", "U@a.com", "v@b.org"}
	tos := []string{"u@a.com", "v@b.org", "w.z@h"}
	helos := []string{"h", "a.com", "H"}
	srcs := []string{"127.1.0.1", "127.1.0.2"}
	nfill, ntrans := g.size(30), 3
	if g.big == bigTrans {
		ntrans = 15
	}
	for i := 2 + g.n(4); i > 0; i-- {
		s := &Sess{Src: srcs[g.n(1+g.n(2))], Dst: "127.0.0.1"}
		s.Steps = append(s.Steps, Step{Kind: pick(g, []string{"ehlo", "helo"}), Arg: helos[g.n(1+g.n(3))]})
		if g.opt.Cert != "" && g.p(40) {
			s.Steps = append(s.Steps, Step{Kind: "starttls"}, s.Steps[0])
			s.Steps[0].Kind = "ehlo"
		}
		for j := 1 + g.n(ntrans); j > 0; j-- {
			if g.p(10) {
				s.Steps = append(s.Steps, Step{Kind: "tick", N: 60})
			}
			s.Steps = append(s.Steps, Step{Kind: "mail", Arg: froms[g.n(1+g.n(4))]})
			if g.big == bigRcpts {
				for r := nfill; r > 0; r-- {
					s.Steps = append(s.Steps, Step{Kind: "rcpt", Arg: fmt.Sprintf("f%d@fill.example", r)})
				}
			}
			for r := 1 + g.n(2); r > 0; r-- {
				s.Steps = append(s.Steps, Step{Kind: "rcpt", Arg: tos[g.n(1+g.n(3))]})
			}
			s.Steps = append(s.Steps, Step{Kind: "data", Body: pick(g, pool)}, Step{Kind: "rset"})
		}
		if g.p(8) {
			g.ops = append(g.ops, Op{Kind: "plant", Name: pick(g, []string{dirSave, dirSave, "sd0", "sd1"}), Bad: pick(g, pool), Text: pick(g, alienTexts)})
		}
		g.ops = append(g.ops, Op{Kind: "session", Sess: s})
		if g.p(10) {
			g.ops = append(g.ops, Op{Kind: "advance", N: 60})
		}
		if g.p(10) {
			g.ops = append(g.ops, Op{Kind: "spoil", N: g.n(6), Text: pick(g, alienTexts)})
		}
	}
	return g.build()
}

var alienTexts = []string{"", "x", "id 1/1 127.0.0.1:1 x\nbody\n", "something\nelse\n"}

// errnos for injected faults: EIO ENOSPC EDQUOT EACCES EROFS
var faultErrnos = []int{5, 28, 122, 13, 30}

func genC21(g *G) *Case {
	g.opt.D = true
	g.opt.NoStd = true
	g.opt.SaveHash = pick(g, []string{"msg", "full", "all", ""})
	g.opt.MsgLog = g.opt.SaveHash == "msg" || g.p(20)
	g.opt.SMTPLog = g.p(15)
	g.opt.M = g.p(6)
	k := baseKnobs()
	if g.p(40) {
		k.Leaves = []string{"from", "to", "all"}
		k.EarlyPct = 0
		k.Withs = []string{"savedir", "message"}
		k.SetW, k.AcceptW = 40, 40
		g.opt.NRules = 1
		var items []Item
		for i := 1 + g.n(2); i > 0; i-- {
			r := g.rule(&k)
			if r.Action != "set-with" {
				r.Phase = pick(g, []string{"message", "message", "data"})
			}
			items = append(items, Item{Rule: r})
		}
		g.addRuleFile("r0", items, &k)
	}
	pool := []string{"Subject: s\n\nx\n"}
	if g.big == bigBodies {
		pool = append(pool, strings.Repeat("0123456789abcde\n", g.size(1<<17)))
	}
	if g.p(50) {
		pool = append(pool, pick(g, []string{"", "y\n", "Subject: t\n\n" + strings.Repeat("0123456789abcde\n", 1+g.n(700))}))
	}
	src := []string{"127.1.0.1", "127.1.0.1", "127.1.0.2"}
	fault := func() {
		o := Op{Kind: "fault", Name: pick(g, []string{dirSave, dirSave, "sd0", "sd1"}), Point: pick(g, []string{"write", "open", "close", "link", "sync"}), Times: pick(g, []int{1, 1, 50})}
		if !g.p(45) {
			o.Errno = pick(g, faultErrnos)
		}
		if o.Point == "write" {
			o.N = pick(g, []int{0, 1, 20, 60, 100, 150, 200, 250, 4096, 1 << 20}) + g.n(16)
		}
		g.ops = append(g.ops, o)
	}
	session := func(n int) *Sess {
		s := &Sess{Src: pick(g, src), Dst: "127.0.0.1"}
		s.Steps = append(s.Steps, Step{Kind: "ehlo", Arg: pick(g, []string{"h", "h", "a.com"})})
		if g.big == bigTrans {
			n = 12
		}
		for j := 1 + g.n(n); j > 0; j-- {
			s.Steps = append(s.Steps, Step{Kind: "mail", Arg: pick(g, []string{"u@a.com", "u@a.com", ""})}, Step{Kind: "rcpt", Arg: pick(g, []string{"u@a.com", "u@a.com", "v@b.org"})},
				Step{Kind: "data", Body: pick(g, pool)}, Step{Kind: "rset"})
		}
		return s
	}
	for i := 2 + g.n(4); i > 0; i-- {
		if g.p(55) {
			fault()
		}
		if g.p(20) {
			// killed in the middle of a session
			s := session(2)
			g.ops = append(g.ops, Op{Kind: "open", N: 1, Sess: s})
			at := g.n(len(s.Steps) + 1)
			for j := 0; j < at; j++ {
				g.ops = append(g.ops, Op{Kind: "step", N: 1, Step: &s.Steps[j]})
			}
			g.ops = append(g.ops, Op{Kind: "kill"})
			continue
		}
		g.ops = append(g.ops, Op{Kind: "session", Sess: session(2)})
		if g.p(10) {
			g.ops = append(g.ops, Op{Kind: "kill"})
		}
	}
	c := g.build()
	c.Sync = true
	return c
}

func genC22(g *G) *Case {
	k := baseKnobs()
	k.Leaves = []string{"from", "to", "helo", "ip", "all", "from-has", "dnsbl", "dbl"}
	k.EarlyPct = 10
	k.WithPct = 50
	k.MaxTrans = 3
	k.CutPct = 8
	k.BadPct = 8
	k.WeirdPct = 8
	k.DataPct = 85
	k.BigBody = true
	g.opt.Two = g.p(15)
	g.opt.NoStd = g.p(60)
	g.opt.SMTPLog = g.p(85)
	g.opt.MsgLog = g.p(85)
	g.opt.D = g.p(25)
	if g.opt.D && g.opt.MsgLog {
		g.opt.SaveHash = pick(g, []string{"", "all"})
	}
	g.opt.M = g.p(10)
	if g.p(30) {
		g.opt.Cert = "sa"
		k.TLSPct = 30
	}
	g.dsts = uDsts
	if g.v6 && g.p(15) {
		g.srcs = append([]string{"::1"}, uSrcs...)
	}
	if g.p(40) {
		g.genDNS(false)
		g.genBL()
	}
	g.opt.NRules = 1
	g.simpleRules("r0", &k, 4)
	switch g.w(4, 4, 4) {
	case 0:
		k.HardPct = 10
		k.TickPct = 15
		g.sessions(&k, 4)
	case 1:
		g.interleave(&k, 2+g.n(3), nil)
	default:
		g.opt.SMTPLog = true
		g.parallel(&k, 2+g.n(7), nil)
		if g.p(40) {
			g.parallel(&k, 2+g.n(7), nil)
		}
	}
	return g.build()
}

// depthSession goes to a chosen depth.
func (g *G) depthSession(src string, maxMail int) *Sess {
	s := &Sess{Src: src, Dst: "127.0.0.1"}
	d := g.n(8)
	if d == 0 {
		if g.p(50) {
			s.Steps = append(s.Steps, Step{Kind: "quit"})
		}
		return s
	}
	s.Steps = append(s.Steps, Step{Kind: pick(g, []string{"ehlo", "helo"}), Arg: g.host()})
	if d >= 2 {
		for i := 1 + g.n(maxMail); i > 0; i-- {
			s.Steps = append(s.Steps, Step{Kind: "mail", Arg: g.sender(15, 0)})
			if i > 1 {
				switch g.n(8) {
				case 0:
					s.Steps = append(s.Steps, Step{Kind: pick(g, []string{"ehlo", "helo"}), Arg: g.host()})
				case 1:
					s.Steps = append(s.Steps, Step{Kind: "rset"}, Step{Kind: pick(g, []string{"ehlo", "helo"}), Arg: g.host()})
				case 2:
					s.Steps = append(s.Steps, Step{Kind: "rcpt", Arg: g.addr()}, Step{Kind: "rset"})
				default:
					s.Steps = append(s.Steps, Step{Kind: "rset"})
				}
			}
		}
	}
	if d >= 3 {
		s.Steps = append(s.Steps, Step{Kind: "rcpt", Arg: g.addr()})
	}
	if d >= 4 {
		st := Step{Kind: "data", Body: "Subject: x\n\ny\n"}
		if d == 4 {
			st.Cut = 5
		}
		s.Steps = append(s.Steps, st)
	}
	if d >= 6 && g.p(30) {
		s.Steps = append(s.Steps, Step{Kind: "mail", Arg: g.addr()})
	}
	if g.p(60) {
		s.Steps = append(s.Steps, Step{Kind: "quit"})
	}
	return s
}

var minPhases = []string{"", "helo", "ehlo", "from", "to", "data", "message", "accepted"}

// dnHistory is a history of sessions that fail, are forced or succeed, as
// their sender says, with the clock moving in between.
func dnHistory(g *G, ttl int) *Case {
	if g.opt.DnCount == 1 {
		g.opt.DnCount += g.n(3)
	}
	k := baseKnobs()
	yak := Clause{Terms: []*Term{{Op: "from", Arg: "y@"}}, Withs: []With{{Name: "make-yakker"}}}
	fail := Clause{Terms: []*Term{{Op: "from", Arg: "f@"}}}
	items := []Item{
		{Rule: &Rule{Phase: "from", Action: pick(g, []string{"reject", "stall", "accept", "set-with"}), Clauses: []Clause{yak}}},
		{Rule: &Rule{Phase: "from", Action: pick(g, []string{"reject", "stall"}), Clauses: []Clause{fail}}},
	}
	nulls := false
	if g.p(12) {
		// the null sender is the bad one
		items[0].Rule.Clauses = append(items[0].Rule.Clauses, Clause{Terms: []*Term{{Op: "from", Arg: "<>"}}, Withs: []With{{Name: "make-yakker"}}})
		nulls = true
	}
	g.addRuleFile("r0", items, &k)
	srcs := []string{"127.1.0.1", "127.1.0.2"}
	n := 4 + g.n(9)
	if g.big == bigTrans {
		if g.opt.DnCount > 0 {
			g.opt.DnCount = 4 + g.n(9)
		}
		n += 10 + g.n(30)
	}
	for i := n; i > 0; i-- {
		g.crowd(func(string) []Step {
			return []Step{{Kind: "ehlo", Arg: "h.b.com"}, {Kind: "mail", Arg: pick(g, []string{"f@b.com", "f@b.com", "y@b.com"})}, {Kind: "quit"}}
		})
		if g.p(30) && (g.big != bigTrans || g.rare(3)) {
			g.ops = append(g.ops, Op{Kind: "advance", N: pick(g, []int{60, 120, ttl - 60, ttl, ttl / 2 / 60 * 60, ttl / 2 / 60 * 60, ttl/2/60*60 + 60, ttl + 60})})
			continue
		}
		st := []Step{{Kind: "ehlo", Arg: "h.b.com"}}
		sw := g.w(5, 3, 2, 2)
		if nulls && g.p(40) {
			sw = 4
		}
		switch sw {
		case 4:
			st = append(st, Step{Kind: "mail"})
			if g.p(60) {
				st = append(st, Step{Kind: "rcpt", Arg: "u@b.com"})
			}
			if g.p(30) {
				st = append(st, Step{Kind: "rset"}, Step{Kind: "mail", Arg: "g@b.com"})
			}
		case 0:
			st = append(st, Step{Kind: "mail", Arg: "f@b.com"})
		case 1:
			st = append(st, Step{Kind: "mail", Arg: "y@b.com"})
			if g.p(30) {
				st = append(st, Step{Kind: "mail", Arg: "g@b.com"})
			}
		case 2:
			st = append(st, Step{Kind: "mail", Arg: "g@b.com"}, Step{Kind: "rcpt", Arg: "u@b.com"})
			if g.p(60) {
				st = append(st, Step{Kind: "data", Body: "Subject: a\n\nb\n"})
			}
		default:
			for j := 1 + g.n(3); j > 0; j-- {
				st = append(st, Step{Kind: "mail", Arg: "g@b.com"}, Step{Kind: "rset"})
			}
		}
		if g.p(70) {
			st = append(st, Step{Kind: "quit"})
		}
		g.ops = append(g.ops, Op{Kind: "session", Sess: &Sess{Src: srcs[g.w(6, 1)], Dst: "127.0.0.1", Steps: st}})
	}
	return g.build()
}

func genC23(g *G) *Case {
	g.opt.NoStd = true
	g.opt.SMTPLog = true
	g.opt.DnCount = 1 + g.n(3)
	g.opt.DnDur = pick(g, []int{0, 300, 3600})
	g.opt.MinPhase = pick(g, minPhases)
	g.opt.Slow = g.p(10)
	g.opt.DnLog = g.p(20) || g.forceDnLog
	g.opt.MsgLog = g.p(20)
	if (!g.opt.DnLog || g.forceDnLog) && g.p(8) {
		// nobody is counted, whatever they do
		g.opt.DnCount, g.opt.DnLog = 0, false
		g.fresh = true
	}
	ttl := g.opt.DnDur
	if ttl == 0 {
		ttl = 8 * 3600
	}
	if g.p(8) && !g.opt.Slow {
		g.fresh = false
		return dnPar(g)
	}
	if g.p(35) {
		g.opt.NRules = 1
		return dnHistory(g, ttl)
	}
	srcs := []string{"127.1.0.1", "127.1.0.2"}
	k := baseKnobs()
	k.Leaves = []string{"from", "to", "all", "helo", "ip"}
	k.Withs = []string{"make-yakker", "note", "message"}
	k.SetW = 40
	k.MaxRules = 2
	k.EarlyPct = 15
	k.PhasePct = 70
	g.opt.NRules = 1
	var items []Item
	if g.p(50) {
		for i := 1 + g.n(2); i > 0; i-- {
			items = append(items, Item{Rule: g.rule(&k)})
		}
	}
	// a plain set of rules in which a phase always fails makes clients fail
	if g.p(50) {
		items = append(items, Item{Rule: &Rule{Phase: pick(g, []string{"helo", "from", "to", "data", "message"}), Action: pick(g, []string{"reject", "stall"}),
			Clauses: []Clause{{Terms: []*Term{{Op: "all"}}}}}})
	}
	g.addRuleFile("r0", items, &k)
	tls := 2
	if g.p(25) {
		g.opt.Cert = "sa"
		tls = pick(g, []int{2, 2, 12})
	}
	broken := false
	g.opt.D = g.opt.MinPhase == "accepted" || g.p(10)
	for i := 4 + g.n(9); i > 0; i-- {
		if g.opt.D && g.p(30) {
			g.saveFault()
		}
		if !g.opt.Slow {
			g.crowd(func(string) []Step { return []Step{{Kind: "ehlo", Arg: "h.b.com"}, {Kind: "quit"}} })
		}
		src := srcs[g.w(4, 1)]
		switch g.w(20, 5, tls, 2, 2) {
		case 1:
			n := pick(g, []int{60, ttl - 60, ttl, ttl / 2 / 60 * 60, ttl + 60, ttl * 2})
			g.ops = append(g.ops, Op{Kind: "advance", N: n})
			continue
		case 2:
			if g.opt.Cert != "" {
				s := &Sess{Src: src, Dst: "127.0.0.1", Steps: []Step{{Kind: "ehlo", Arg: "h"}, {Kind: "starttls", Mode: pick(g, []string{"garbage", "close"})}}}
				g.ops = append(g.ops, Op{Kind: "session", Sess: s})
				continue
			}
		case 3:
			if broken {
				g.addRuleFile("r0", items, &k)
			} else {
				g.ops = append(g.ops, Op{Kind: "rules", Rules: &RuleFile{Name: "r0", Bad: "missing"}})
			}
			broken = !broken
		case 4:
			// a session over time
			s := g.depthSession(src, 3)
			g.ops = append(g.ops, Op{Kind: "open", N: 1, Sess: s})
			at := g.n(len(s.Steps) + 1)
			for j := range s.Steps {
				if j == at {
					g.ops = append(g.ops, Op{Kind: "advance", N: pick(g, []int{60, ttl - 60, ttl})})
					if g.p(50) {
						g.ops = append(g.ops, Op{Kind: "session", Sess: g.depthSession(src, 2)})
					}
				}
				g.ops = append(g.ops, Op{Kind: "step", N: 1, Step: &s.Steps[j]})
			}
			g.ops = append(g.ops, Op{Kind: "step", N: 1, Step: &Step{Kind: "close"}})
			continue
		}
		g.ops = append(g.ops, Op{Kind: "session", Sess: g.depthSession(src, 4)})
	}
	return g.build()
}

// genC30: histories of do-nothing clients, as seen in the logs.
func genC30(g *G) *Case {
	g.forceDnLog = true
	if g.p(60) {
		return genC23(g)
	}
	g.opt.NoStd = true
	g.opt.SMTPLog = true
	g.opt.DnLog = true
	g.opt.DnCount = 1 + g.n(4)
	g.opt.MinPhase = pick(g, minPhases)
	k := baseKnobs()
	yak := Clause{Terms: []*Term{{Op: "from", Arg: "y@"}}, Withs: []With{{Name: "make-yakker"}}}
	g.opt.NRules = 1
	g.addRuleFile("r0", []Item{
		{Rule: &Rule{Phase: "from", Action: pick(g, []string{"reject", "stall", "accept", "set-with"}), Clauses: []Clause{yak}}},
		{Rule: &Rule{Phase: pick(g, []string{"helo", "from"}), Action: "reject", Clauses: []Clause{{Terms: []*Term{{Op: "all"}}}}}},
	}, &k)
	// sessions of one or two clients, overlapping
	srcs := []string{"127.1.0.1", "127.1.0.2"}
	var open []int
	left := map[int][]Step{}
	next := 1
	for i := 6 + g.n(14); i > 0; i-- {
		if len(open) == 0 || len(open) < 4 && g.p(35) {
			s := &Sess{Src: srcs[g.w(5, 1)], Dst: pick(g, []string{"127.0.0.1", "127.0.0.2"})}
			st := []Step{{Kind: "ehlo", Arg: "h.b.com"}, {Kind: "mail", Arg: pick(g, []string{"g@b.com", "g@b.com", "y@b.com"})}}
			if g.p(20) {
				st = append(st, Step{Kind: "rset"}, Step{Kind: "mail", Arg: "g@b.com"})
			}
			if g.p(30) {
				st = append(st, Step{Kind: "rcpt", Arg: "u@b.com"})
			}
			if g.p(50) {
				st = append(st, Step{Kind: "quit"})
			}
			g.ops = append(g.ops, Op{Kind: "open", N: next, Sess: s})
			left[next] = st
			open = append(open, next)
			next++
			continue
		}
		j := g.n(len(open))
		n := open[j]
		if len(left[n]) == 0 {
			g.ops = append(g.ops, Op{Kind: "step", N: n, Step: &Step{Kind: "close"}})
			open = append(open[:j:j], open[j+1:]...)
			continue
		}
		// most often, all of it
		for first := true; len(left[n]) > 0 && (first || g.p(75)); first = false {
			st := left[n][0]
			left[n] = left[n][1:]
			g.ops = append(g.ops, Op{Kind: "step", N: n, Step: &st})
		}
	}
	return g.build()
}

func genC24(g *G) *Case {
	g.opt.NoStd = true
	g.opt.Cert = pick(g, []string{"sa", "sa,sb", "sa", ""})
	g.opt.SMTPLog = g.p(30)
	g.opt.D = g.p(15)
	g.srcs = []string{"127.1.0.1", "127.1.0.2"}
	k := baseKnobs()
	k.Leaves = []string{"tls", "tls", "ip", "helo", "all"}
	k.Withs = []string{"tls-opt", "message", "tls-opt"}
	k.SetW = 40
	k.MaxRules = 3
	k.EarlyPct = 10
	k.PhasePct = 40
	k.MaxTrans, k.MaxRcpts, k.DataPct = 2, 1, 30
	k.NullPct, k.WeirdPct = 4, 0
	k.Noise = 5
	g.opt.NRules = 1
	var items []Item
	if g.p(75) {
		for i := 1 + g.n(3); i > 0; i-- {
			items = append(items, Item{Rule: g.rule(&k)})
		}
	}
	g.addRuleFile("r0", items, &k)
	fails := g.p(70)
	if len(items) == 0 && g.opt.Cert != "" && g.p(40) {
		// two failures at once, then more
		g.opt.SMTPLog, g.fresh = true, true
		bad := []Step{{Kind: "ehlo", Arg: "h"}, {Kind: "starttls", Mode: "garbage"}}
		src := g.src()
		g.ops = append(g.ops, Op{Kind: "par", Yield: 1 + g.n(3), Par: []Sess{{Src: src, Dst: "127.0.0.1", Steps: bad}, {Src: src, Dst: "127.0.0.1", Steps: bad}}})
		g.ops = append(g.ops, Op{Kind: "session", Sess: &Sess{Src: src, Dst: "127.0.0.1", Steps: []Step{{Kind: "ehlo", Arg: "h"}, {Kind: "quit"}}}})
	}
	for i := 1 + g.n(5); i > 0; i-- {
		if fails && g.p(20) {
			g.ops = append(g.ops, Op{Kind: "advance", N: pick(g, []int{3600, 72*3600 - 60, 72 * 3600, 36 * 3600, 73 * 3600})})
		}
		if fails && g.opt.Cert != "" {
			g.crowd(func(string) []Step { return []Step{{Kind: "ehlo", Arg: "h"}, {Kind: "starttls", Mode: "garbage"}} })
		}
		s := &Sess{Src: g.src(), Dst: "127.0.0.1"}
		add := func(st Step) { s.Steps = append(s.Steps, st) }
		if g.p(6) {
			g.starttls(&s.Steps) // before any greeting
		}
		add(Step{Kind: pick(g, []string{"ehlo", "ehlo", "ehlo", "helo"}), Arg: g.host()})
		if g.p(15) {
			add(Step{Kind: "ehlo", Arg: g.host()})
		}
		if g.p(85) {
			g.starttls(&s.Steps)
			if fails && g.p(55) {
				s.Steps[len(s.Steps)-1].Mode = pick(g, []string{"garbage", "sslv2", "close", "badver", "distrust"})
				g.ops = append(g.ops, Op{Kind: "session", Sess: s})
				continue
			}
			if g.p(12) {
				add(Step{Kind: "mail", Arg: g.addr()})
			}
			add(Step{Kind: "ehlo", Arg: g.host()})
			if g.p(15) {
				g.starttls(&s.Steps) // a second time
			}
		}
		k2 := k
		k2.NoHeloPct = 100
		s.Steps = append(s.Steps, g.steps(&k2)...)
		g.ops = append(g.ops, Op{Kind: "session", Sess: s})
	}
	return g.build()
}

// connCfg draws a -conncfg file.
func (g *G) connCfg() *ConnCfg {
	c := &ConnCfg{}
	switch g.w(16, 1, 1, 2) {
	case 1:
		c.Bad = "missing"
		return c
	case 2:
		c.Bad = "unreadable"
		return c
	case 3:
		c.Bad = "syntax"
	}
	var b strings.Builder
	n := g.n(5)
	at := g.n(n + 1)
	for i := 0; i < n; i++ {
		if g.big == bigPats && (i == 0 || g.rare(3)) {
			for j := g.size(600); j > 0; j-- {
				l := ConnLine{Local: fmt.Sprintf("10.0.%d.%d", j>>8, j&255), Host: "zz" + itoa(j) + ".example"}
				c.Lines = append(c.Lines, l)
				b.WriteString(l.Local + " hostname=" + l.Host + "\n")
			}
		}
		if g.p(15) {
			b.WriteString(pick(g, []string{"\n", "# 127.0.0.1 x\n", "   \n", "#\n", "\t# * zz\n"}))
		}
		if c.Bad != "" && i == at {
			b.WriteString(g.badConnLine())
		}
		l := ConnLine{}
		l.Local = pick(g, []string{"127.0.0.1", "127.0.0.2", "127.9.9.9", "127.0.0.0/8", "127.0.0.0/30", "127.0.0.2/31", "127.9.0.0/16", "*", "127.0.0.1:%PORT%",
			"127.0.0.2:%PORT%", "127.0.0.1:25", "127.9.9.9/32", "10.0.0.0/8", "0.0.0.0/0", "127.9.9.8", "::1", "::/0", "[::1]:%PORT%", "127.0.0.1:1", "127.", "127.0.0", "127.0.0.10", "127.0.0.1:"})
		if g.opt.Two && g.p(35) {
			l.Local = pick(g, []string{"127.0.0.1:%PORT2%", "127.0.0.2:%PORT2%", "127.0.0.1:%PORT%", "[::1]:%PORT2%"})
		}
		if g.p(65) {
			l.Host = pick(g, []string{"n1.example", "n2.example", "n3", "N4.Example"})
			if g.p(10) {
				l.Host = pick(g, []string{"n5.example.", "a=b", "=", "127.0.0.1", "[127.0.0.1]", "'n6'", "%s", "#n7", "n8#", "-", ".", "n9:25"})
			}
		}
		if g.p(55) {
			l.Cert = pick(g, []string{"sa", "sb", "sc", "sa,sb", "sb,sc"})
			if g.certCopies && g.p(20) {
				l.Cert = "cx"
				if c.Copy == "" {
					c.Copy = pick(g, []string{"sa", "sb", "sc"})
				}
			}
		}
		c.Lines = append(c.Lines, l)
		b.WriteString(g.connLine(&l))
		if i < n-1 || g.p(70) {
			b.WriteString("\n")
		}
	}
	if c.Bad != "" && at == n {
		if s := b.String(); s != "" && !strings.HasSuffix(s, "\n") {
			b.WriteString("\n")
		}
		b.WriteString(g.badConnLine())
	}
	c.Text = b.String()
	return c
}

func (g *G) connLine(l *ConnLine) string {
	f := []string{}
	if l.Host != "" {
		f = append(f, "hostname="+l.Host)
	}
	if l.Cert != "" {
		var c, k []string
		for _, n := range strings.Split(l.Cert, ",") {
			if n == "cx" {
				c, k = append(c, "./cx.crt"), append(k, "./cx.key")
				continue
			}
			c = append(c, "%CERTS%/"+n+".crt")
			k = append(k, "%CERTS%/"+n+".key")
		}
		f = append(f, "cert="+strings.Join(c, ","), "key="+strings.Join(k, ","))
	}
	// any order
	for i := 0; i < len(f); i++ {
		j := i + g.n(len(f)-i)
		f[i], f[j] = f[j], f[i]
	}
	sep := pick(g, []string{"\t", " ", "  ", " \t "})
	s := l.Local
	for _, x := range f {
		s += sep + x
	}
	if g.p(10) {
		s = " " + s
	}
	if g.p(10) {
		s += " "
	}
	return s
}

func (g *G) badConnLine() string {
	return pick(g, []string{"* hostname\n", "* frob=1\n", "* cert=%CERTS%/sa.crt\n", "* key=%CERTS%/sa.key\n", "* cert=%CERTS%/nope.crt key=%CERTS%/nope.key\n",
		"127.0.0.1 cert=%CERTS%/sa.crt,%CERTS%/sb.crt key=%CERTS%/sa.key\n", "127.0.0.1 cert=%CERTS%/sa.crt key=%CERTS%/sb.key\n",
		"* hostname=a hostname=b hostname=c hostname=d\n", "10.0.0.1 bad field\n", "* hostname=n1.example #x\n", "127.0.0.1 # nothing\n", "* hostname=a Hostname=b\n", "* =x\n"})
}

func genC25(g *G) *Case {
	g.opt.NoStd = true
	g.opt.ConnCfg, g.certCopies = true, true
	g.opt.Two = g.p(30)
	g.opt.Cert = pick(g, []string{"", "sa", "sc"})
	g.opt.Helo = pick(g, []string{"", "cmd.example"})
	g.opt.Hosts = g.p(15)
	g.dsts = append([]string{"127.0.0.10"}, uDsts...)
	if g.v6 && g.p(30) {
		g.srcs = append([]string{"::1"}, uSrcs[:2]...)
	}
	if g.p(60) {
		g.dns.PTR, g.dns.Fail = map[string][]string{}, map[string]bool{}
		for _, d := range []string{"127.0.0.1", "127.0.0.2", "127.9.9.9", "::1"} {
			switch g.w(4, 4, 1) {
			case 1:
				g.dns.PTR[d] = subset(g, []string{"l1.example", "l2.example", "l3.example"}, 2)
			case 2:
				g.dns.Fail["ptr:"+d] = true
			}
		}
	}
	var last *ConnCfg
	for i := 1 + g.n(4); i > 0; i-- {
		if last != nil && last.Copy != "" && g.p(50) {
			// the same again, with another certificate
			cc := *last
			cc.Copy = pick(g, []string{"sa", "sb", "sc"})
			last = &cc
			g.ops = append(g.ops, Op{Kind: "conncfg", Conn: last})
		} else if i == 1 || g.p(75) {
			last = g.connCfg()
			g.ops = append(g.ops, Op{Kind: "conncfg", Conn: last})
		}
		for j := 1 + g.n(3); j > 0; j-- {
			s := &Sess{Src: g.src()}
			s.Dst = g.dst(s.Src)
			s.Steps = []Step{{Kind: "ehlo", Arg: "h"}}
			if g.p(75) {
				g.starttls(&s.Steps)
				s.Steps[1].SNI = pick(g, []string{"", "sa.example", "sb.example", "sc.example", "other.example"})
				s.Steps[1].CCert = ""
				if g.p(50) {
					s.Steps = append(s.Steps, Step{Kind: "ehlo", Arg: "h"})
				}
			}
			g.ops = append(g.ops, Op{Kind: "session", Sess: s})
		}
	}
	return g.build()
}

// ---- C26

var fuzzBits = []string{"EHLO ", "HELO ", "MAIL FROM:<", "RCPT TO:<", "DATA", "RSET", "NOOP", "QUIT", "STARTTLS", "\r\n", "\r\n", "\r\n", "\n", "\r", "\r\n.\r\n", ".", "\x00", "\u00ff\u00fe", " ", ">", "<", "@", "a.com",
	"u@a.com", "..", "%s%d%n", "\t", "=", ":", "[", "]", "::1", "127.0.0.1", "\x16\x03\x01\x00\u00a5\x01\x00", "\u0080\x2e\x01\x00\x02", "\x15\x03\x03\x00\x02\x01\x00", "SIZE=99999999999999999999", "BODY=8BITMIME", "AUTH PLAIN", "\\", "\"", "(", ")", ","}

func (g *G) junk(n int) string {
	var b strings.Builder
	for i := 1 + g.n(n); i > 0; i-- {
		switch g.w(12, 2, 1) {
		case 1:
			b.WriteRune(rune(g.n(256)))
		case 2:
			b.WriteString(strings.Repeat(pick(g, fuzzBits), 1+g.n(200)))
		default:
			b.WriteString(pick(g, fuzzBits))
		}
	}
	return b.String()
}

// clientBytes draws what a client sends: mostly sane commands with odd
// arguments, so that the handlers are reached.
func (g *G) clientBytes() []string {
	var out []string
	arg := func() string {
		switch g.n(5) {
		case 0:
			return g.weirdAddr()
		case 1:
			return strings.NewReplacer("\r", "", "\n", "").Replace(g.junk(4))
		case 2:
			return strings.Repeat(pick(g, []string{"a", "a.", "@", ".", "a@", "[", "\u00e9"}), 1+g.n(300))
		case 3:
			return ""
		}
		return g.addr()
	}
	for i := 1 + g.n(9); i > 0; i-- {
		var s string
		switch g.n(12) {
		case 0, 1:
			s = "EHLO " + pick(g, []string{g.heloName(), arg()}) + "\r\n"
		case 2:
			s = "MAIL FROM:<" + arg() + ">\r\n"
		case 3, 4:
			s = "MAIL FROM:<" + g.addr() + ">\r\nRCPT TO:<" + arg() + ">\r\n"
		case 5:
			s = "RCPT TO:<" + arg() + ">\r\n"
		case 6:
			s = "DATA\r\n"
		case 7:
			s = g.junk(6) + "\r\n.\r\n"
		case 8:
			s = "STARTTLS\r\n"
		case 9:
			s = "RSET\r\n"
		case 10:
			s = g.junk(8)
		case 11:
			s = "MAIL FROM:<u@a.com>\r\nRCPT TO:<v@b.org>\r\nDATA\r\n" + g.junk(5) + "\r\n.\r\n"
		}
		out = append(out, s)
	}
	return out
}

func (g *G) fuzzConns(n int) Op {
	o := Op{Kind: "fuzz"}
	for i := 1 + g.n(n); i > 0; i-- {
		f := FuzzConn{Src: "127.3.0." + itoa(1+g.n(3)), Dst: "127.0.0.1", Wait: g.p(50), End: pick(g, []string{"", "", "reset", "close"})}
		if g.v6 && g.p(15) {
			f.Src, f.Dst = "::1", "::1"
		}
		f.Chunks = g.clientBytes()
		o.Fuzz = append(o.Fuzz, f)
	}
	return o
}

var ruleBits = []string{"accept", "reject", "stall", "set-with", "include", "@connect", "@helo", "@from", "@to", "@data", "@message", "or", "not", "(", ")", ";", "all", "from", "to", "helo", "host", "ip",
	"from-has", "to-has", "helo-has", "tls", "dns", "dnsbl", "dbl", "source", "with", "message", "note", "savedir", "tls-opt", "make-yakker", "on", "off", "no-client",
	"bad", "bad,route", "nodots,ip", "any", "helo,from", "good", "nodns", "\"\"", "\"@\"", "@", "<>", "a@", "@.", ".", "file:p0", "file:", "/", "./p0", "file:./p0", "127.0.0.0/8", "::/0", "0.0.0.0/99", "bl.example", "sbl.spamhaus.org", "sbl.spamhaus.org.",
	"\"u v\"", "u@a.com", "@a.com", ".a.com", "a.com", "#", "\n", "\n ", "\n", ",", "sd0", "nosuchdir", "\"a\\\"b\""}

// ruleText draws rule text: grammatical with odd arguments, or near-grammatical.
func (g *G) ruleText(k *Knobs) string {
	var b strings.Builder
	odd := []string{`""`, `"@"`, `"."`, `"<>"`, "@", ".", "@.", "a@", "..", "@@", `"\""`, "a.com.", "-", `" "`, "file:p0", "file:p1", "./p0", "%s", "\u00e9", `"\x00"`, "127.0.0.0/8", "::/0", "1.2.3.4/33", "/", "x/y", "1.2.3.4/-1"}
	for i := 1 + g.n(5); i > 0; i-- {
		switch g.w(6, 5, 2) {
		case 0:
			op := pick(g, []string{"from", "to", "helo", "host", "ip", "source", "dnsbl", "dbl any", "dbl helo", "dbl from", "dbl host"})
			arg := pick(g, odd)
			if strings.HasPrefix(op, "d") && g.p(60) {
				arg = pick(g, []string{"bl.example", "sbl.spamhaus.org.", "sbl.spamhaus.org", ".", "bl.example.", strings.Repeat("a.", 120)})
			}
			fmt.Fprintf(&b, "%s %s %s", pick(g, []string{"", "@from", "@to", "@helo", "@data", "@message", "@connect"}), pick(g, []string{"reject", "stall", "accept"}), pick(g, []string{"", "not "}))
			fmt.Fprintf(&b, "%s %s", op, arg)
			if g.p(50) {
				b.WriteString(" with " + pick(g, []string{"message ", "note ", "savedir "}) + pick(g, []string{`""`, `"%s %d"`, `"a\nb"`, "sd0", "nosuchdir", `"` + strings.Repeat("x", 2000) + `"`, "x"}))
			}
			b.WriteString("\n")
		case 1:
			r := g.rule(k)
			b.WriteString(renderItems([]Item{{Rule: r}}, g))
		case 2:
			for j := 1 + g.n(12); j > 0; j-- {
				b.WriteString(pick(g, ruleBits))
				if !g.p(10) {
					b.WriteString(" ")
				}
			}
			b.WriteString("\n")
		}
	}
	s := b.String()
	if g.p(15) && len(s) > 2 {
		// damage it
		i := g.n(len(s))
		switch g.n(3) {
		case 0:
			s = s[:i]
		case 1:
			s = s[:i] + s[i+1:]
		default:
			s = s[:i] + pick(g, []string{"\x00", "\"", "(", ")", ";", "\n", "\t", "\\", ","}) + s[i:]
		}
	}
	return s
}

func (g *G) patText() string {
	var b strings.Builder
	for i := g.n(6); i > 0; i-- {
		b.WriteString(pick(g, []string{"@", ".", "@.", "a@", "u@a.com", "<>", "#", "\x00", "..", "127.0.0.0/8", "::1", "1.2.3.4/99", "/", "@@", "\u00ff", " ", strings.Repeat("x", 70000), "@a.com", ".a.com", "-"}))
		if g.p(85) {
			b.WriteString("\n")
		}
	}
	return b.String()
}

func genC26(g *G) *Case {
	k := baseKnobs()
	k.Leaves = []string{"from", "to", "helo", "ip", "all", "from-has", "to-has", "helo-has", "tls", "host", "source", "dns", "dnsbl", "dbl", "from-deliv", "to-deliv"}
	k.FilePct = 15
	k.Depth = 2
	k.MaxClauses = 2
	k.WithPct = 40
	k.Withs = []string{"message", "note", "tls-opt"}
	g.opt.NoStd = g.p(60)
	g.opt.SMTPLog = g.p(60)
	if g.p(30) {
		g.opt.Cert = "sa"
	}
	g.genDNS(g.p(50))
	g.genBL()
	g.dns.Addr["127.0.0.3.sbl.spamhaus.org"] = []string{"127.0.0.2"}
	for _, h := range []string{"1.0.3.127", "2.0.3.127", "h", "a.com", "b.org"} {
		if g.p(40) {
			g.dns.Addr[h+".sbl.spamhaus.org"] = []string{"127.0.0.2"}
			g.dns.TXT[h+".sbl.spamhaus.org"] = []string{pick(g, []string{"http://x/SBL1", "", "/", "nothing", "x/"})}
		}
	}
	if g.p(40) {
		// modelled sessions must go on undisturbed while others misbehave
		k.FilePct = 0
		g.opt.NRules = 1
		g.ruleFiles(&k)
		for i := 1 + g.n(3); i > 0; i-- {
			s := &Sess{Src: g.src(), Steps: g.steps(&k)}
			s.Dst = g.dst(s.Src)
			g.ops = append(g.ops, Op{Kind: "open", N: 1, Sess: s})
			at := g.n(len(s.Steps))
			for j := range s.Steps {
				if j == at {
					g.ops = append(g.ops, g.fuzzConns(3))
				}
				g.ops = append(g.ops, Op{Kind: "step", N: 1, Step: &s.Steps[j]})
			}
			g.ops = append(g.ops, Op{Kind: "step", N: 1, Step: &Step{Kind: "close"}})
		}
		g.ops = append(g.ops, Op{Kind: "leaks"})
		return g.build()
	}
	k.Withs = append(k.Withs, "savedir", "make-yakker")
	if g.v6 && g.p(25) {
		g.srcs = append(g.srcs, "::1", "::1")
	}
	g.opt.D = g.p(50)
	g.opt.MsgLog = g.p(40)
	g.opt.ConnCfg = g.p(25)
	g.opt.NRules = 1
	if g.p(20) {
		g.opt.SMTPLog = true
		g.opt.DnCount = 1 + g.n(2)
	}
	if g.p(20) {
		g.convenience()
	}
	for i := 1 + g.n(3); i > 0; i-- {
		if g.p(85) {
			g.lay = g.n(2)
			t := g.ruleText(&k)
			if g.p(8) {
				// include loops, and files included many times over
				t = pick(g, []string{"include i0\n" + t, t + "include r0\n", t + "include i0\ninclude i0\n", "include .\n", t + "include i0"})
				if g.p(60) {
					g.ops = append(g.ops, Op{Kind: "file", Name: "i0", Text: pick(g, []string{"include r0\n", "include i0\n", t, "reject helo .\ninclude i1\n", ""})})
				}
				g.ops = append(g.ops, Op{Kind: "file", Name: "i1", Text: pick(g, []string{"include r0\n", "include i0\n", "reject to b.org\n"})})
			}
			g.ops = append(g.ops, Op{Kind: "file", Name: "r0", Text: t})
			g.lay = 0
		}
		for _, n := range []string{"p0", "p1", fileFromReject} {
			if g.p(40) {
				g.ops = append(g.ops, Op{Kind: "file", Name: n, Text: g.patText()})
			}
		}
		if g.opt.ConnCfg && g.p(60) {
			t := g.connCfg().Text
			if g.p(40) {
				t += pick(g, []string{"\x00", "=", "* =", "* hostname=", "* hostname=\x00\n", "[::1]:25 hostname=x\n", "/ hostname=y\n", "* cert= key=\n"})
			}
			g.ops = append(g.ops, Op{Kind: "file", Name: fileConnCfg, Text: t})
		}
		if g.p(6) {
			g.ops = append(g.ops, Op{Kind: "fds", N: g.n(8), Text: pick(g, []string{"", "EHLO a.com\r\n", "EHLO a.com\r\nMAIL FROM:<u@a.com>\r\nRCPT TO:<v@b.org>\r\nDATA\r\nx\r\n.\r\n", "STARTTLS\r\n"})})
		}
		g.ops = append(g.ops, g.fuzzConns(4))
		// a session in sequence: every command must be answered
		s := &Sess{Src: g.src()}
		s.Dst = g.dst(s.Src)
		s.Steps = []Step{{Kind: "ehlo", Arg: g.heloName()}}
		for j := 1 + g.n(3); j > 0; j-- {
			s.Steps = append(s.Steps, Step{Kind: "mail", Arg: g.sender(15, 40)}, Step{Kind: "rcpt", Arg: g.rcpt(40)}, Step{Kind: "rcpt", Arg: g.rcpt(40)},
				Step{Kind: "data", Body: g.body(&k)}, Step{Kind: "rset"})
		}
		s.Steps = append(s.Steps, Step{Kind: "quit"})
		if g.opt.DnCount == 0 {
			g.ops = append(g.ops, Op{Kind: "probe", Sess: s})
		}
	}
	g.ops = append(g.ops, Op{Kind: "leaks"})
	return g.build()
}

// saveFault makes the next save fail.
func (g *G) saveFault() {
	o := Op{Kind: "fault", Name: dirSave, Point: pick(g, []string{"write", "open"}), Times: 50, Errno: pick(g, faultErrnos)}
	if o.Point == "write" {
		o.N = pick(g, []int{0, 1, 60})
	}
	g.ops = append(g.ops, o)
}

func genC31(g *G) *Case {
	k := baseKnobs()
	k.VarsPct = 8
	k.MaxRules = 3
	k.MaxTrans = 2
	g.opt.Pprof = true
	g.opt.NoStd = g.p(50)
	switch g.w(3, 3, 1) {
	case 0:
		g.opt.PerIP = true
	case 1:
		g.opt.Two = true
		g.opt.PerIP = g.p(20)
	}
	g.srcs = []string{"127.1.0.1", "127.1.0.2"}
	g.dsts = []string{"127.0.0.1", "127.0.0.2", "127.9.9.9"}
	g.opt.MinPhase = pick(g, minPhases)
	g.opt.D = g.p(35)
	if g.p(12) {
		g.opt.SMTPLog = true
		g.opt.NRules = 1
		g.simpleRules("r0", &k, 3)
		for i := 1 + g.n(3); i > 0; i-- {
			g.parallel(&k, 2+g.n(5), nil)
			if g.p(40) {
				g.session(&k)
			}
		}
		return g.build()
	}
	if g.p(50) {
		g.opt.SMTPLog = true
		g.opt.DnCount = 1 + g.n(2)
		k.Withs = append(k.Withs, "make-yakker")
	}
	g.opt.NRules = 1
	g.ruleFiles(&k)
	items, broken := g.ops[len(g.ops)-1].Rules.Items, false
	if g.big == bigClients {
		// many local addresses
		for i := g.size(60); i > 0; i-- {
			s := &Sess{Src: g.src(), Dst: fmt.Sprintf("127.5.0.%d", i), Steps: []Step{{Kind: "ehlo", Arg: "h"}, {Kind: "quit"}}}
			g.ops = append(g.ops, Op{Kind: "session", Sess: s})
		}
	}
	for i := 2 + g.n(6); i > 0; i-- {
		if g.opt.D && g.p(40) {
			g.saveFault()
		}
		if g.p(6) {
			// the rules break, or not any more
			if broken {
				g.addRuleFile("r0", items, &k)
			} else {
				g.ops = append(g.ops, Op{Kind: "rules", Rules: &RuleFile{Name: "r0", Bad: "missing"}})
			}
			broken = !broken
		}
		switch g.w(4, 5, 3, 2) {
		case 0:
			g.session(&k)
		case 1:
			s := g.depthSession(g.src(), 3)
			s.Dst = g.dst(s.Src)
			g.ops = append(g.ops, Op{Kind: "session", Sess: s})
		case 2:
			g.ops = append(g.ops, Op{Kind: "advance", N: pick(g, []int{60, 3600, 86400})})
		case 3:
			if g.opt.DnCount == 0 {
				g.interleave(&k, 2, nil)
			}
		}
	}
	return g.build()
}

func genC29(g *G) *Case {
	k := baseKnobs()
	k.VarsPct = 6
	k.Leaves = []string{"from", "to", "helo", "ip", "all", "from-has", "helo-has", "dnsbl", "dbl", "tls"}
	k.EarlyPct = 20
	k.CutPct = 8
	k.HardPct = 5
	k.WithPct = 30
	k.Withs = []string{"message", "note"}
	k.BadPct = 6
	k.WeirdPct = 8
	k.MaxTrans = 2
	g.opt.Pprof = true
	g.opt.NoStd = g.p(50)
	g.opt.SMTPLog = g.p(70)
	g.opt.M = g.p(10)
	g.opt.D = g.p(20)
	g.srcs = []string{"127.1.0.1", "127.1.0.2", "127.2.0.1"}
	if g.p(40) {
		g.opt.SMTPLog = true
		g.opt.DnCount = 1 + g.n(3)
		g.opt.MinPhase = pick(g, minPhases)
		k.Withs = append(k.Withs, "make-yakker")
	}
	if g.p(40) {
		g.opt.Cert = "sa"
		k.TLSPct = 35
	}
	if g.p(50) {
		g.genDNS(false)
		g.genBL()
	}
	g.opt.NRules = 1
	if g.p(20) {
		// sessions at the same time
		g.opt.SMTPLog = true
		if g.opt.DnCount > 0 {
			g.opt.DnCount = 1000
		}
		k.Withs = []string{"message", "note"} // who is forced first is open
		g.simpleRules("r0", &k, 4)
		for i := 1 + g.n(2); i > 0; i-- {
			g.parallel(&k, 2+g.n(7), nil)
		}
		return g.build()
	}
	g.ruleFiles(&k)
	broken := false
	for i := 2 + g.n(6); i > 0; i-- {
		if g.opt.D && g.p(40) {
			g.saveFault()
		}
		switch g.w(10, 1, 1, 2) {
		case 1:
			if broken {
				g.simpleRules("r0", &k, 3)
			} else {
				g.ops = append(g.ops, Op{Kind: "rules", Rules: g.breakFile("r0", nil)})
			}
			broken = !broken
		case 2:
			if g.opt.Cert != "" {
				s := &Sess{Src: g.src(), Dst: "127.0.0.1", Steps: []Step{{Kind: "ehlo", Arg: "h"}, {Kind: "starttls", Mode: pick(g, []string{"garbage", "close", "distrust"})}}}
				g.ops = append(g.ops, Op{Kind: "session", Sess: s})
			}
		case 3:
			if g.opt.DnCount > 0 {
				g.ops = append(g.ops, Op{Kind: "session", Sess: g.depthSession(g.src(), 4)})
				continue
			}
			if g.p(40) {
				g.interleave(&k, 2, nil)
				continue
			}
		}
		g.session(&k)
	}
	return g.build()
}
