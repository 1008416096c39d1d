package main

// Rules as the harness thinks of them, and how they are written down.

import (
	"strings"
)

// Term is a node of a match expression.
type Term struct {
	Op   string   `json:"op"`             // an operator, or "and", "or", "not"
	Arg  string   `json:"arg,omitempty"`  // pattern, address, domain, on/off
	File string   `json:"file,omitempty"` // pattern file instead of Arg
	Form int      `json:"form,omitempty"` // how the file name is written
	Opts []string `json:"opts,omitempty"` // attributes or sources
	Kids []*Term  `json:"kids,omitempty"`
}

// With is one with-option.
type With struct {
	Name string `json:"name"`
	Val  string `json:"val,omitempty"`
}

// Clause is an expression with its with-options; Terms are and-ed.
type Clause struct {
	Terms []*Term `json:"terms"`
	Withs []With  `json:"withs,omitempty"`
}

// Rule is a whole rule.
type Rule struct {
	Phase   string   `json:"phase,omitempty"` // connect helo from to data message
	Action  string   `json:"action"`
	Clauses []Clause `json:"clauses"`
}

// Item is an entry of a rule file.
type Item struct {
	Rule    *Rule  `json:"rule,omitempty"`
	Include string `json:"include,omitempty"` // file name
}

// RuleFile is a rule file: what it means and how it is written.
type RuleFile struct {
	Name  string `json:"name"`
	Items []Item `json:"items,omitempty"`
	Text  string `json:"text"`
	// Bad: "" for a loadable file, else "missing", "unreadable" or
	// "syntax".
	Bad string `json:"bad,omitempty"`
}

// layouter makes the choices left open by the language.
type layouter interface {
	pick(n int) int // 0..n-1; 0 is the plainest
}

type plainLayout struct{}

func (plainLayout) pick(int) int { return 0 }

const (
	tkWord  = iota // keyword
	tkArg          // argument, may be quoted
	tkRaw          // argument that must not be quoted
	tkPunct        // ( ) ;
	tkComma
)

type tok struct {
	kind int
	s    string
}

var keywordList = strings.Fields(`include @connect @helo @from @to @data @message
accept reject stall set-with or not all from to helo host from-has to-has
helo-has tls dns ip dnsbl source dbl with message note savedir tls-opt
make-yakker ehlo none bogus nodots bareip properip myip remip otherip nodns
inconsistent noforward unqualified route quoted noat garbage resolves baddom
unknown bad on off good exists any`)

var isKeyword = func() map[string]bool {
	m := map[string]bool{}
	for _, k := range keywordList {
		m[k] = true
	}
	return m
}()

func fileArg(name string, form int) string {
	switch form % 3 {
	case 1:
		return "./" + name
	case 2:
		return "%DIR%/" + name
	}
	return "file:" + name
}

func (t *Term) toks(l layouter, out []tok, prec int) []tok {
	// prec: 0 = and-list level, 1 = inside or, 2 = operand of not
	paren := func(need bool, f func()) {
		if !need && l.pick(12) == 11 {
			need = true
		}
		if need {
			out = append(out, tok{tkPunct, "("})
		}
		f()
		if need {
			out = append(out, tok{tkPunct, ")"})
		}
	}
	switch t.Op {
	case "and":
		paren(true, func() {
			for _, k := range t.Kids {
				out = k.toks(l, out, 0)
			}
		})
	case "or":
		paren(prec > 0, func() {
			for i, k := range t.Kids {
				if i > 0 {
					out = append(out, tok{tkWord, "or"})
				}
				out = k.toks(l, out, 1)
			}
		})
	case "not":
		paren(false, func() {
			out = append(out, tok{tkWord, "not"})
			out = t.Kids[0].toks(l, out, 2)
		})
	case "all":
		paren(false, func() { out = append(out, tok{tkWord, "all"}) })
	default:
		paren(false, func() {
			out = append(out, tok{tkWord, t.Op})
			switch t.Op {
			case "from-has", "to-has", "helo-has", "dns", "dbl":
				for i, o := range t.Opts {
					if i > 0 {
						out = append(out, tok{tkComma, ","})
					}
					out = append(out, tok{tkWord, o})
				}
				if t.Op == "dbl" {
					out = append(out, tok{tkArg, t.Arg})
				}
			case "tls":
				out = append(out, tok{tkWord, t.Arg})
			default:
				switch {
				case t.File != "" && t.Op == "ip":
					out = append(out, tok{tkRaw, fileArg(t.File, t.Form)})
				case t.File != "":
					out = append(out, tok{tkArg, fileArg(t.File, t.Form)})
				default:
					out = append(out, tok{tkArg, t.Arg})
				}
			}
		})
	}
	return out
}

func (r *Rule) toks(l layouter) []tok {
	var out []tok
	if r.Phase != "" {
		out = append(out, tok{tkWord, "@" + r.Phase})
	}
	out = append(out, tok{tkWord, r.Action})
	for i, c := range r.Clauses {
		if i > 0 {
			out = append(out, tok{tkPunct, ";"})
		}
		for _, t := range c.Terms {
			out = t.toks(l, out, 0)
		}
		if len(c.Withs) > 0 {
			out = append(out, tok{tkWord, "with"})
			for _, w := range c.Withs {
				out = append(out, tok{tkWord, w.Name})
				if w.Name != "make-yakker" {
					out = append(out, tok{tkArg, w.Val})
				}
			}
		}
	}
	return out
}

func plainWord(s string) bool {
	if s == "" || strings.ContainsAny(s, "(),;\n \t") || s[0] == '"' || s[0] == '\\' || s[0] == '#' || s == "file:" {
		return false
	}
	return true
}

func quote(s string, l layouter) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"':
			b.WriteString(`\"`)
		case '\\':
			// A backslash before anything but " and \ may stay single.
			if i+1 < len(s) && s[i+1] != '"' && s[i+1] != '\\' && l.pick(2) == 1 {
				b.WriteByte('\\')
			} else {
				b.WriteString(`\\`)
			}
		default:
			b.WriteByte(s[i])
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (t tok) text(l layouter) string {
	if t.kind != tkArg {
		return t.s
	}
	if !plainWord(t.s) {
		return quote(t.s, l)
	}
	if l.pick(4) == 3 {
		return quote(t.s, l)
	}
	return t.s
}

// joinToks writes one logical line, without the end of line.
func joinToks(ts []tok, l layouter) string {
	var b strings.Builder
	lead := []string{"", "", " ", "\t", "   "}
	b.WriteString(lead[l.pick(len(lead))])
	for i, t := range ts {
		if i > 0 {
			p := ts[i-1]
			tight := t.kind == tkPunct || p.kind == tkPunct
			switch {
			case p.kind == tkComma:
				// nothing may follow a comma but the next word
			case t.kind == tkComma:
				b.WriteString([]string{"", "", "", " "}[l.pick(4)])
			default:
				var seps []string
				if tight {
					seps = []string{" ", "", "", "\t", "  ", " \\\n"}
				} else {
					seps = []string{" ", " ", " ", " ", "  ", "\t", " \\\n", " \\\n\t", "\t\\\n  "}
				}
				if p.kind == tkPunct && p.s == ";" {
					seps = []string{" ", "", "\n", "\n\t", " \n  ", "\n\n\t", "\n# note; \"x\n  "}
				}
				b.WriteString(seps[l.pick(len(seps))])
			}
		}
		b.WriteString(t.text(l))
	}
	b.WriteString([]string{"", "", "", " ", "\t"}[l.pick(5)])
	return b.String()
}

var fillers = []string{"", "", "", "", "\n", "# a comment\n", "  # reject all\n", " \t\n", "\n\n", "#\n", "\t\\\n", "# x \\\n", " # reject all; \"(\\\n"}

// Render writes a rule file.
func renderItems(items []Item, l layouter) string {
	var b strings.Builder
	for i, it := range items {
		b.WriteString(fillers[l.pick(len(fillers))])
		if it.Include != "" {
			b.WriteString(joinToks([]tok{{tkWord, "include"}, {tkArg, it.Include}}, l))
		} else {
			b.WriteString(joinToks(it.Rule.toks(l), l))
		}
		if i == len(items)-1 && l.pick(4) == 3 {
			return b.String()
		}
		b.WriteString("\n")
	}
	b.WriteString(fillers[l.pick(len(fillers))])
	return b.String()
}
