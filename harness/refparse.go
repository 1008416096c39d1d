package main

// A reference reader of the rule language, written from doc.go: text in,
// rules out. It has three verdicts: the text is a rule file, it is not, or
// the documentation does not say (errUnspec), in which case no check is made
// of it.

import (
	"errors"
	"net"
	"net/netip"
	"strings"
)

var errUnspec = errors.New("not specified")

type rtok struct {
	kind byte // 'w' word, 'q' quoted, 'p' punctuation, 'n' end of line
	s    string
}

func refLex(text string) ([]rtok, error) {
	var out []rtok
	i := 0
	n := len(text)
	fresh := true // at the start of a line: comments and blank lines
	for i < n {
		c := text[i]
		switch {
		case c == ' ' || c == '\t':
			i++
		case c == '\n':
			if !fresh {
				out = append(out, rtok{'n', "\n"})
			}
			fresh = true
			i++
		case c == '#':
			if !fresh {
				// only whole lines are comments; what a word with # in
				// front is, is left open
				return nil, errUnspec
			}
			j := strings.IndexByte(text[i:], '\n')
			if j < 0 {
				j = n - i
			}
			i += j
		case c == '\\':
			if i+1 < n && text[i+1] == '\n' && (fresh || text[i-1] == ' ' || text[i-1] == '\t') {
				// A comment after a continuation: left open.
				if rest := strings.TrimLeft(text[i+2:], " \t"); !fresh && (strings.HasPrefix(rest, "#") || strings.HasPrefix(rest, "\n") || rest == "") {
					return nil, errUnspec
				}
				i += 2
				continue
			}
			return nil, errUnspec
		case strings.IndexByte("(),;", c) >= 0:
			out = append(out, rtok{'p', string(c)})
			fresh = false
			i++
			if c == ',' && (i == n || text[i] == ' ' || text[i] == '\t' || text[i] == '\n') {
				return nil, errors.New("whitespace after a comma")
			}
			if c == ',' && text[i] == '\\' {
				return nil, errUnspec
			}
		case c == '"':
			fresh = false
			var b strings.Builder
			i++
			for {
				if i >= n {
					return nil, errors.New("unterminated quote")
				}
				if text[i] == '"' {
					i++
					break
				}
				if text[i] == '\\' && i+1 < n && (text[i+1] == '"' || text[i+1] == '\\') {
					i++
				}
				b.WriteByte(text[i])
				i++
			}
			if i < n && strings.IndexByte(" \t\n(),;", text[i]) < 0 {
				return nil, errUnspec
			}
			out = append(out, rtok{'q', b.String()})
		default:
			fresh = false
			j := strings.IndexAny(text[i:], "(),; \t\n")
			if j < 0 {
				j = n - i
			}
			w := text[i : i+j]
			if w == "file:" {
				return nil, errors.New("no file after file:")
			}
			if strings.ContainsAny(w, "\"\\\r") || strings.LastIndex(w, "%DIR%") > 0 {
				return nil, errUnspec
			}
			for k := 0; k < len(w); k++ {
				if w[k] < 0x20 || w[k] >= 0x7f {
					return nil, errUnspec
				}
			}
			out = append(out, rtok{'w', w})
			i += j
		}
	}
	if !fresh {
		out = append(out, rtok{'n', ""})
	}
	return out, nil
}

type refParser struct {
	t []rtok
	i int
	// odd: if it is a rule file at all, its meaning is left open
	odd bool
}

type refErr struct{ err error }

func (p *refParser) fail(s string) { panic(refErr{errors.New(s)}) }
func (p *refParser) open()         { panic(refErr{errUnspec}) }

func (p *refParser) peek() rtok {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return rtok{'e', ""}
}

func (p *refParser) next() rtok {
	t := p.peek()
	p.i++
	return t
}

func (p *refParser) isW(s string) bool { t := p.peek(); return t.kind == 'w' && t.s == s }
func (p *refParser) isP(s string) bool { t := p.peek(); return t.kind == 'p' && t.s == s }

// refParse reads a rule file. incs are the files that can be included.
func refParse(text string, incs map[string]bool) (items []Item, err error) {
	defer func() {
		if e := recover(); e != nil {
			re, ok := e.(refErr)
			if !ok {
				panic(e)
			}
			items, err = nil, re.err
		}
	}()
	ts, err := refLex(text)
	if err != nil && err != errUnspec {
		// Part of the file may be unspecified even so; what matters is
		// that it cannot load, whatever the rest is.
		return nil, err
	}
	if err != nil {
		return nil, err
	}
	p := &refParser{t: ts}
	for p.peek().kind != 'e' {
		if p.isW("include") {
			p.next()
			f := p.arg()
			if !incs[f] {
				if !surelyMissing(f) {
					p.open()
				}
				p.fail("cannot include " + f)
			}
			p.eol()
			items = append(items, Item{Include: f})
			continue
		}
		r := p.rule()
		items = append(items, Item{Rule: r})
	}
	if p.odd {
		return nil, errUnspec
	}
	return items, nil
}

// surelyMissing says that no file of that name exists in the directory the
// server runs in: a name that might be one of the files the harness writes
// there (pattern files, rule files, other spellings of them) is not judged.
func surelyMissing(f string) bool {
	if f == "" || strings.ContainsAny(f, "/:") {
		return false
	}
	return len(f) > 2 && strings.Contains(f, ".") || strings.HasPrefix(f, "no")
}

func (p *refParser) eol() {
	if p.next().kind != 'n' {
		p.fail("expected end of line")
	}
}

// arg is any word or quoted text. Punctuation: left open.
func (p *refParser) arg() string {
	t := p.next()
	switch t.kind {
	case 'w', 'q':
		return t.s
	case 'p':
		p.open()
	}
	p.fail("no argument")
	return ""
}

func (p *refParser) rule() *Rule {
	r := &Rule{}
	if t := p.peek(); t.kind == 'w' && strings.HasPrefix(t.s, "@") {
		ok := false
		for _, n := range phaseNames {
			ok = ok || t.s == "@"+n
		}
		if !ok {
			p.fail("no such phase")
		}
		r.Phase = t.s[1:]
		p.next()
	}
	t := p.next()
	switch {
	case t.kind == 'w' && (t.s == "accept" || t.s == "reject" || t.s == "stall" || t.s == "set-with"):
		r.Action = t.s
	default:
		p.fail("no action")
	}
	for {
		var c Clause
		c.Terms = p.andl()
		if len(c.Terms) == 0 {
			p.fail("no match operation")
		}
		if p.isW("with") {
			p.next()
			c.Withs = p.withs()
		}
		r.Clauses = append(r.Clauses, c)
		if r.Action == "set-with" && len(c.Withs) == 0 {
			p.fail("set-with sets nothing")
		}
		if p.isP(";") {
			p.next()
			if p.peek().kind == 'n' {
				p.next()
			}
			continue
		}
		break
	}
	p.eol()
	if r.Phase != "" {
		for i, n := range phaseNames {
			if n == r.Phase && i+1 < r.needs() {
				p.fail("phase too early")
			}
		}
	}
	return r
}

func (p *refParser) andl() []*Term {
	var out []*Term
	for {
		t := p.orl()
		if t == nil {
			return out
		}
		out = append(out, t)
	}
}

func (p *refParser) orl() *Term {
	t := p.term()
	if !p.isW("or") {
		return t
	}
	if t == nil {
		p.fail("nothing before or")
	}
	o := &Term{Op: "or", Kids: []*Term{t}}
	for p.isW("or") {
		p.next()
		k := p.term()
		if k == nil {
			p.fail("nothing after or")
		}
		o.Kids = append(o.Kids, k)
	}
	return o
}

func (p *refParser) opts(names []string) []string {
	var out []string
	for {
		t := p.next()
		ok := false
		for _, n := range names {
			ok = ok || t.kind == 'w' && t.s == n
		}
		if !ok {
			p.fail("not an attribute: " + t.s)
		}
		out = append(out, t.s)
		if !p.isP(",") {
			return out
		}
		p.next()
	}
}

func (p *refParser) domain() string {
	t := p.next()
	switch {
	case t.kind == 'p':
		p.fail("no domain")
	case t.kind == 'n' || t.kind == 'e':
		p.fail("no domain")
	case isFileArg(t.s):
		if t.kind == 'q' {
			p.open()
		}
		p.fail("a file is not a domain")
	case !strings.Contains(t.s, "."):
		p.fail("not a domain")
	}
	ok := false
	for _, d := range blDomains {
		ok = ok || t.s == d
	}
	if !ok {
		// whatever it is, we have no DNS data for it
		p.open()
	}
	return t.s
}

func isFileArg(s string) bool {
	return strings.HasPrefix(s, "/") || strings.HasPrefix(s, "./") || strings.HasPrefix(s, "file:") || strings.HasPrefix(s, "%DIR%")
}

// pattern fills in an argument that is a pattern or a file of them.
func (p *refParser) pattern(t *Term) *Term {
	a := p.arg()
	if a == "" {
		p.open() // no pattern is documented to be empty
	}
	for i := 0; i < len(a); i++ {
		if a[i] <= 0x20 || a[i] >= 0x7f {
			p.open()
		}
	}
	if isFileArg(a) {
		for form := 0; form < 3; form++ {
			for _, f := range []string{"p0", "p1", "p2", "p3"} {
				if a == fileArg(f, form) {
					t.File, t.Form = f, form
					return t
				}
			}
		}
		p.open()
	}
	t.Arg = a
	return t
}

func (p *refParser) term() *Term {
	t := p.peek()
	if t.kind == 'p' && t.s == "(" {
		p.next()
		l := p.andl()
		if !p.isP(")") {
			p.fail("no closing parenthesis")
		}
		p.next()
		switch len(l) {
		case 0:
			p.fail("empty parentheses")
		case 1:
			return l[0]
		}
		return &Term{Op: "and", Kids: l}
	}
	if t.kind != 'w' {
		return nil
	}
	switch t.s {
	case "not":
		p.next()
		k := p.term()
		if k == nil {
			p.fail("nothing to negate")
		}
		return &Term{Op: "not", Kids: []*Term{k}}
	case "all":
		p.next()
		return &Term{Op: "all"}
	case "tls":
		p.next()
		v := p.next()
		if v.kind != 'w' || v.s != "on" && v.s != "off" {
			p.fail("tls on or off")
		}
		return &Term{Op: "tls", Arg: v.s}
	case "from", "to", "helo", "ehlo", "host", "source":
		p.next()
		return p.pattern(&Term{Op: t.s})
	case "ip":
		p.next()
		if q := p.peek(); q.kind == 'q' && isFileArg(q.s) {
			p.open()
		}
		if q := p.peek(); q.kind == 'p' {
			p.fail("not an address")
		}
		x := p.pattern(&Term{Op: "ip"})
		if x.File == "" {
			_, e1 := netip.ParseAddr(x.Arg)
			_, e2 := netip.ParsePrefix(x.Arg)
			_, _, e3 := net.ParseCIDR(x.Arg)
			good := net.ParseIP(x.Arg) != nil || e3 == nil
			if good != (e1 == nil || e2 == nil) {
				p.open()
			}
			if !good {
				p.fail("not an address")
			}
		}
		return x
	case "dnsbl":
		p.next()
		return &Term{Op: t.s, Arg: p.domain()}
	case "dbl":
		p.next()
		o := p.opts([]string{"host", "helo", "ehlo", "from", "any"})
		return &Term{Op: t.s, Opts: o, Arg: p.domain()}
	case "from-has", "to-has":
		p.next()
		return &Term{Op: t.s, Opts: p.opts(append(append([]string{}, addrAttrNames...), delivNames...))}
	case "helo-has":
		p.next()
		return &Term{Op: t.s, Opts: p.opts(heloAttrNames)}
	case "dns":
		p.next()
		return &Term{Op: t.s, Opts: p.opts(dnsAttrNames)}
	}
	return nil
}

func (p *refParser) withs() []With {
	var out []With
	seen := map[string]bool{}
	for {
		t := p.peek()
		name := ""
		if t.kind == 'w' {
			switch t.s {
			case "message", "note", "savedir", "tls-opt", "make-yakker":
				name = t.s
			}
		}
		if name == "" {
			break
		}
		p.next()
		if seen[name] {
			p.fail("repeated " + name)
		}
		seen[name] = true
		w := With{Name: name}
		if name != "make-yakker" {
			w.Val = p.arg()
		}
		switch name {
		case "note":
			if strings.Contains(w.Val, "\n") {
				p.fail("newline in a note")
			}
			if strings.TrimSpace(w.Val) != w.Val || w.Val == "" {
				p.odd = true
			}
		case "message":
			if strings.TrimSpace(w.Val) != w.Val || w.Val == "" || strings.Contains(w.Val, "\r") {
				p.odd = true
			}
		case "savedir":
			if w.Val != "sd0" && w.Val != "sd1" && w.Val != "./sd0" && w.Val != "./sd1" {
				p.odd = true
			}
		case "tls-opt":
			if w.Val != "off" && w.Val != "no-client" {
				p.fail("tls-opt " + w.Val)
			}
		}
		out = append(out, w)
	}
	if len(out) == 0 {
		p.fail("empty with")
	}
	return out
}

// odd: rules whose effect at run time the model leaves open.
func oddItems(items []Item) bool {
	for _, it := range items {
		r := it.Rule
		if r == nil {
			continue
		}
		need := r.needs()
		if r.hasWith("tls-opt") && (r.Phase != "" && r.Phase != "connect" && r.Phase != "helo" || need > phHelo) {
			return true
		}
		if r.hasWith("make-yakker") && r.Action == "reject" && r.eligible(phConnect) {
			return true
		}
	}
	return false
}
