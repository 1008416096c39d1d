package main

// Scale: now and then a case is made large in one direction, so that what
// only shows with many recipients, rules, patterns, clients or bytes shows.

import (
	"fmt"
	"strings"
)

const (
	bigNone     = iota
	bigRcpts    // many recipients
	bigTrans    // many transactions in a session
	bigRules    // many rules and clauses that match nothing, long comments
	bigNames    // long addresses and names
	bigPats     // long pattern files
	bigBodies   // long messages
	bigTexts    // long messages and notes in rules
	bigDNS      // many records
	bigClients  // many other clients
	bigIncludes // chains of includes
	nBig
)

// rare is true once in k times.
func (g *G) rare(k int) bool { return g.n(k) == k-1 }

// drawScale decides whether this case is large, and how.
func (g *G) drawScale(prop string) {
	if !g.rare(10) {
		return
	}
	if l := bigFor[prop]; l != nil {
		g.big = pick(g, l)
		return
	}
	g.big = 1 + g.n(nBig-1)
}

// bigFor: the directions that matter to a property, where not all do.
var bigFor = map[string][]int{
	"C04": {bigNames, bigPats, bigRules},
	"C05": {bigNames, bigPats, bigRules, bigDNS},
	"C06": {bigNames, bigRules},
	"C07": {bigNames, bigRules},
	"C08": {bigPats, bigRules},
	"C09": {bigDNS, bigDNS, bigRules},
	"C10": {bigDNS, bigDNS, bigNames, bigRules},
	"C11": {bigDNS, bigNames, bigRules, bigRcpts, bigTrans},
	"C12": {bigTexts, bigTexts, bigRules, bigTrans, bigRcpts, bigIncludes},
	"C13": {bigRcpts, bigTrans, bigTrans, bigTexts, bigRules},
	"C14": {bigRcpts, bigRcpts, bigTrans, bigRules},
	"C16": {bigRules, bigTexts, bigNames, bigIncludes, bigRules},
	"C17": {bigPats, bigPats, bigRules, bigTrans},
	"C18": {bigClients, bigTrans, bigRules, bigPats, bigTexts, bigBodies, bigRcpts},
	"C19": {bigRcpts, bigTrans, bigNames, bigBodies, bigBodies, bigDNS},
	"C20": {bigRcpts, bigTrans, bigBodies, bigBodies},
	"C21": {bigBodies, bigTrans, bigRcpts},
	"C22": {bigRcpts, bigTrans, bigNames, bigBodies, bigTexts, bigTexts, bigClients},
	"C23": {bigClients, bigTrans},
	"C24": {bigClients, bigTrans, bigRules},
	"C25": {bigPats, bigNone},
	"C27": {bigPats, bigNames, bigRcpts, bigTrans, bigRules},
	"C29": {bigClients, bigTrans, bigRcpts, bigBodies},
	"C30": {bigClients, bigTrans},
	"C31": {bigClients, bigTrans, bigRcpts},
}

// size draws a number up to max, of any order of magnitude.
func (g *G) size(max int) int {
	m := 8
	for m < max && g.n(3) > 0 {
		m *= 2
	}
	if m > max {
		m = max
	}
	return 1 + g.n(m)
}

// filler is a rule that matches nothing the generators send.
func (g *G) filler(i int) *Rule {
	op, ph := "from", "from"
	arg := fmt.Sprintf("zz%d@nomatch.example", i)
	switch i % 5 {
	case 1:
		op, ph = "to", "to"
	case 2:
		op, ph, arg = "helo", "helo", fmt.Sprintf(".zz%d.nomatch.example", i)
	case 3:
		op, ph, arg = "from", "", "zz"+itoa(i)+"@"
	case 4:
		op, ph, arg = "ip", "connect", fmt.Sprintf("10.%d.%d.0/24", i>>8&255, i&255)
	}
	r := &Rule{Phase: ph, Action: []string{"reject", "stall", "accept"}[i%3], Clauses: []Clause{{Terms: []*Term{{Op: op, Arg: arg}}}}}
	if i%7 == 3 {
		r.Clauses[0].Withs = []With{{"message", "filler"}}
	}
	return r
}

// pad puts rules that match nothing among a file's own, and clauses that
// match nothing before a rule's own.
func (g *G) pad(items []Item) []Item {
	if g.big != bigRules {
		return items
	}
	n := 0
	var out []Item
	fill := func(max int) {
		for k := g.size(max); k > 0; k-- {
			out = append(out, Item{Rule: g.filler(n)})
			n++
		}
	}
	for i, it := range items {
		if i == 0 || g.rare(3) {
			fill(120)
		}
		if it.Rule != nil && it.Rule.Action != "set-with" && g.rare(3) {
			r := *it.Rule
			var cl []Clause
			need := r.needs()
			for k := g.size(40); k > 0; k-- {
				t := &Term{Op: "ip", Arg: "10.0.0." + itoa(k&255)}
				if need >= phFrom && k%2 == 0 {
					t = &Term{Op: "from", Arg: "zz" + itoa(k) + "@"}
				}
				cl = append(cl, Clause{Terms: []*Term{t}})
			}
			r.Clauses = append(cl, r.Clauses...)
			it.Rule = &r
		}
		out = append(out, it)
	}
	return out
}

// comments puts long comments into rule text, between the lines that start
// rules.
func (g *G) comments(text string) string {
	if g.big != bigRules || !g.rare(3) {
		return text
	}
	c := "#" + strings.Repeat(pick(g, []string{"x", " reject all", "\""}), g.size(9000)) + "\n"
	if g.rare(2) {
		c = strings.Repeat("# "+strings.Repeat("-", 70)+"\n", g.size(2000))
	}
	return c + text
}

// padList puts lines that match nothing into pattern files.
func (g *G) padList(kind string, b *strings.Builder) {
	if g.big != bigPats {
		return
	}
	for i := g.size(3000); i > 0; i-- {
		switch kind {
		case "addr":
			fmt.Fprintf(b, "zz%d@nomatch.example\n", i)
		case "host":
			fmt.Fprintf(b, ".zz%d.nomatch.example\n", i)
		case "ip":
			fmt.Fprintf(b, "10.%d.%d.%d\n", i>>16&255, i>>8&255, i&255)
		}
	}
}

// bigHost is a long name below host, with labels of legal length.
func (g *G) bigHost(h string) string {
	n := g.size(180 - len(h))
	var b strings.Builder
	for b.Len() < n {
		b.WriteString(strings.Repeat("l", min(1+n%61, n-b.Len())))
		b.WriteString(".")
	}
	return b.String() + h
}

func (g *G) bigLocal() string { return strings.Repeat("q", g.size(700)) }

// crowd has many other clients come by, doing no more than they must.
func (g *G) crowd(step func(src string) []Step) {
	if g.big != bigClients || !g.rare(3) {
		return
	}
	n := g.size(150)
	at := g.n(200)
	for i := 0; i < n; i++ {
		src := fmt.Sprintf("127.4.%d.%d", (at+i)>>6&255, 1+(at+i)&63)
		g.ops = append(g.ops, Op{Kind: "session", Sess: &Sess{Src: src, Dst: "127.0.0.1", Steps: step(src)}})
	}
}
