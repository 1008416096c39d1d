package main

// C16: the rule language. Rule files come from the grammar with every
// freedom of layout, and from small mutations of such files, as tokens or as
// characters; the reference reader says whether they are rules and what they
// mean.

import (
	"strings"
)

func init() {
	props = append(props, &Prop{ID: "C16", Gen: genC16, Own: with(decisionCats, "text", "save", "note", "msglog"),
		NonTrivial: func(c *Case, st *Stats) bool { return st.Classes["broken rules"] > 0 || st.Decided > 0 },
		Rule:       "rule files from the whole grammar in free layout (spacing, comments, continuations, quoting, parentheses, includes), unchanged or with one to three tokens or characters deleted, inserted, doubled, swapped, quoted or replaced; a reference reader says whether the file must load and what it means; non-trivial: it must not load, or a rule decided something"})
}

var mutWords = append(append([]string{}, keywordList...), "(", ")", ";", ",", "(", ")", ";", "u@a.com", "a.com", "127.1.0.1", "127.1.0.0/16", "x", "bl.example",
	`"helo"`, `"all"`, `"with"`, `"x y"`, `""`, "file:p0", "./p1", "file:", "no-client", "@rcpt", "REJECT", "All", "sd0", "i0", `"a\"b"`, `"a\\"`, `"two
lines"`)

func mutTok(s string) tok {
	switch s {
	case "(", ")", ";":
		return tok{tkPunct, s}
	case ",":
		return tok{tkComma, s}
	}
	return tok{tkRaw, s}
}

// mutateToks changes one logical line.
func (g *G) mutateToks(ts []tok) []tok {
	ts = append([]tok{}, ts...)
	if len(ts) == 0 {
		return ts
	}
	i := g.n(len(ts))
	ins := func(at int, t ...tok) { ts = append(ts[:at:at], append(append([]tok{}, t...), ts[at:]...)...) }
	find := func(f func(t tok) bool) int {
		var l []int
		for j, t := range ts {
			if f(t) {
				l = append(l, j)
			}
		}
		if len(l) == 0 {
			return -1
		}
		return pick(g, l)
	}
	switch g.w(5, 3, 3, 4, 4, 3, 3, 3, 2, 2, 2) {
	case 0: // delete
		ts = append(ts[:i:i], ts[i+1:]...)
	case 1: // double
		ins(i, ts[i])
	case 2: // swap
		if i+1 < len(ts) {
			ts[i], ts[i+1] = ts[i+1], ts[i]
		}
	case 3: // replace
		ts[i] = mutTok(pick(g, mutWords))
	case 4: // insert
		ins(g.n(len(ts)+1), mutTok(pick(g, mutWords)))
	case 5: // quote a keyword
		if j := find(func(t tok) bool { return t.kind == tkWord }); j >= 0 {
			if g.p(60) {
				ts[j] = tok{tkRaw, `"` + ts[j].s + `"`}
			} else {
				ts[j] = tok{tkRaw, g.recase(ts[j].s, 100)}
			}
		}
	case 6: // phase
		ph := tok{tkWord, "@" + pick(g, phaseNames)}
		if ts[0].kind == tkWord && strings.HasPrefix(ts[0].s, "@") {
			ts[0] = ph
		} else {
			ins(0, ph)
		}
	case 7: // a with-option too many, or twice
		w := find(func(t tok) bool {
			return t.kind == tkWord && (t.s == "message" || t.s == "note" || t.s == "savedir" || t.s == "tls-opt" || t.s == "make-yakker")
		})
		if w >= 0 && g.p(25) {
			ins(w, tok{tkWord, "with"})
		} else if w >= 0 && ts[w].s == "make-yakker" {
			ins(w, ts[w])
		} else if w >= 0 && w+1 < len(ts) {
			v := ts[w+1]
			if g.p(40) {
				v = tok{tkArg, pick(g, []string{"off", "no-client", "sd1", "other", ""})}
			}
			if g.p(25) {
				ts[w+1] = tok{tkArg, ""}
			}
			at := w
			if g.p(50) {
				at = w + 2
			}
			ins(at, ts[w], v)
		} else {
			ins(len(ts), tok{tkWord, "with"}, tok{tkWord, "note"}, tok{tkArg, g.noteText()})
			if g.p(40) {
				for n := 1 + g.n(2); n >= 0; n-- {
					w := pick(g, []string{"message", "note", "savedir", "tls-opt", "tls-opt", "make-yakker"})
					ins(len(ts), tok{tkWord, w})
					switch w {
					case "message", "note":
						ins(len(ts), tok{tkArg, g.noteText()})
					case "savedir":
						ins(len(ts), tok{tkArg, "sd0"})
					case "tls-opt":
						ins(len(ts), tok{tkArg, pick(g, []string{"off", "no-client"})})
					}
				}
			}
		}
	case 8: // cut off
		ts = ts[:i]
	case 9: // a stretch of tokens moved to the end
		j := i + 1 + g.n(3)
		if j > len(ts) {
			j = len(ts)
		}
		mid := append([]tok{}, ts[i:j]...)
		ts = append(append(ts[:i:i], ts[j:]...), mid...)
	case 10: // set-with without, reject with
		if j := find(func(t tok) bool {
			return t.kind == tkWord && (t.s == "set-with" || t.s == "reject" || t.s == "accept" || t.s == "stall")
		}); j >= 0 {
			ts[j].s = pick(g, []string{"set-with", "accept", "reject", "stall"})
		}
	}
	return ts
}

// mutateText changes characters.
func (g *G) mutateText(s string) string {
	for n := 1 + g.n(2); n > 0; n-- {
		if s == "" {
			return pick(g, []string{"x", "\"", "(", "reject", ";", ",", "\\\n", "#"})
		}
		i := g.n(len(s))
		switch g.w(4, 6, 2, 2) {
		case 0:
			s = s[:i] + s[i+1:]
		case 1:
			s = s[:i] + pick(g, []string{" ", "\n", "\"", ",", "(", ")", ";", "#", "\t", " \\\n", "a", "@", ".", "\n#x\n", "\\\"", "\\\\", "\"\"", "-"}) + s[i:]
		case 2:
			s = s[:i]
		case 3:
			// an interesting character, if there is one
			if j := strings.IndexAny(s[i:], ",;\"()\n\\"); j >= 0 {
				i += j
				s = s[:i] + pick(g, []string{"", " ", s[i:i+1] + " ", " " + s[i:i+1], s[i:i+1] + s[i:i+1], "\n"}) + s[i+1:]
			}
		}
	}
	return s
}

// langFile draws a rule file, mutated or not.
func (g *G) langFile(name string, items []Item, k *Knobs, incs map[string]bool, mutate bool) {
	if !mutate {
		g.addRuleFile(name, items, k)
		return
	}
	for try := 0; try < 3; try++ {
		g.lay = 0
		if g.p(k.LayoutPct) {
			g.lay = 1
		}
		var text string
		if g.p(65) && len(items) > 0 {
			at := g.n(len(items))
			var b strings.Builder
			for i, it := range items {
				var ts []tok
				if it.Include != "" {
					ts = []tok{{tkWord, "include"}, {tkArg, it.Include}}
				} else {
					ts = it.Rule.toks(g)
				}
				if i == at {
					for n := 1 + g.n(2); n > 0; n-- {
						ts = g.mutateToks(ts)
					}
				}
				b.WriteString(joinToks(ts, g) + "\n")
			}
			text = b.String()
		} else {
			text = g.mutateText(renderItems(items, g))
		}
		g.lay = 0
		got, err := refParse(text, incs)
		if err == errUnspec || err == nil && oddItems(got) {
			continue
		}
		rf := &RuleFile{Name: name, Text: text, Items: got}
		if err != nil {
			rf.Items, rf.Bad = nil, "syntax"
		}
		g.ops = append(g.ops, Op{Kind: "rules", Rules: rf})
		return
	}
	g.addRuleFile(name, items, k)
}

func genC16(g *G) *Case {
	k := baseKnobs()
	k.Leaves = []string{"from", "from", "to", "helo", "ehlo", "ip", "all", "from-has", "to-has", "helo-has", "tls", "host", "source", "dns", "dnsbl", "dbl", "from"}
	k.MaxRules = 3
	k.MaxTerms = 3
	k.MaxClauses = 3
	k.Depth = 2
	k.FilePct = 10
	k.WithPct = 45
	k.Withs = []string{"message", "note", "message", "note", "savedir", "tls-opt", "make-yakker"}
	k.LayoutPct = 85
	k.EarlyPct = 12
	k.MaxTrans = 2
	k.WeirdPct, k.NullPct = 4, 4
	k.Noise = 4
	g.opt.NoStd = true
	g.opt.SMTPLog = g.p(70)
	g.opt.MsgLog = g.p(40)
	g.opt.NRules = 1
	if g.p(30) {
		g.opt.NRules = 2
	}
	if g.big == bigIncludes {
		g.opt.NRules += g.n(4)
	}
	if g.p(30) {
		g.genDNS(false)
		g.genBL()
	}
	incs := map[string]bool{}
	what := g.w(5, 6, 3) // nothing, a rule file, an include
	if g.p(45) || what == 2 {
		// the included file
		var sub []Item
		for j := 1 + g.n(2); j > 0; j-- {
			sub = append(sub, Item{Rule: g.rule(&k)})
		}
		g.langFile("i0", sub, &k, incs, what == 2)
		incs["i0"] = true
	}
	target := g.n(g.opt.NRules)
	for f := 0; f < g.opt.NRules; f++ {
		var items []Item
		for i := 1 + g.n(k.MaxRules); i > 0; i-- {
			items = append(items, Item{Rule: g.rule(&k)})
		}
		if incs["i0"] && (f == target || g.p(30)) {
			at := g.n(len(items) + 1)
			items = append(items[:at:at], append([]Item{{Include: "i0"}}, items[at:]...)...)
			if g.p(15) {
				items = append(items, Item{Include: "i0"})
			}
		}
		g.langFile(ruleFileName(f), items, &k, incs, what == 1 && f == target)
	}
	g.sessions(&k, 2)
	return g.build()
}
