package main

// Test cases: everything one execution needs, as data, so that it can be
// generated, shrunk, written to a file and replayed.

import (
	"encoding/json"
	"fmt"
	"strings"
)

// Step is something a client does.
type Step struct {
	// Kind: ehlo helo mail rcpt data rset noop quit starttls raw close, or
	// tick (N seconds pass)
	Kind string `json:"k"`
	Arg  string `json:"a,omitempty"`
	// Body of a data step: one rune below 256 per byte, lines end in \n.
	Body string `json:"body,omitempty"`
	// Cut: for data, stop after that many bytes of the encoded message and
	// disconnect (only if > 0).
	Cut int `json:"cut,omitempty"`
	// Pipe: send together with the following step.
	Pipe bool `json:"pipe,omitempty"`
	// TLS
	Mode   string `json:"mode,omitempty"` // "" good, garbage, close, badver, distrust
	SNI    string `json:"sni,omitempty"`
	CCert  string `json:"ccert,omitempty"`
	TLS12  bool   `json:"tls12,omitempty"`
	Suite  int    `json:"suite,omitempty"`  // the only cipher suite the client knows
	Params string `json:"params,omitempty"` // after the address
	Style  int    `json:"style,omitempty"`  // command case and spacing
	N      int    `json:"n,omitempty"`      // of a tick
}

// Sess is one client connection.
type Sess struct {
	Src   string `json:"src"`
	Dst   string `json:"dst"`
	Steps []Step `json:"steps"`
	Hard  bool   `json:"hard,omitempty"` // disconnect with a reset
	Alt   bool   `json:"alt,omitempty"`  // connect to the second port
}

// Op is an entry of a case's history.
type Op struct {
	// Kind: rules list dns conncfg advance session open step fault kill par fuzz file leaks probe
	// spoil plant
	Kind  string    `json:"op"`
	Rules *RuleFile `json:"rules,omitempty"`
	Name  string    `json:"name,omitempty"`
	// Text of a pattern file; Bad: missing or unreadable instead.
	Text string   `json:"text,omitempty"`
	Bad  string   `json:"bad,omitempty"`
	Conn *ConnCfg `json:"conn,omitempty"`
	N    int      `json:"n,omitempty"` // advance: seconds; open/step: session number
	Sess *Sess    `json:"sess,omitempty"`
	Step *Step    `json:"step,omitempty"`
	// fault: the next message's saving in directory Name fails at Point
	// (open, write after N bytes, sync, close, link) with Errno, Times
	// times; Errno 0: the server dies there.
	Point string `json:"point,omitempty"`
	Errno int    `json:"errno,omitempty"`
	Times int    `json:"times,omitempty"`
	// par: sessions running at the same time; Rules, if given, is written
	// N thousandths of a second after they start.
	Par []Sess `json:"par,omitempty"`
	// Yield, if not 0: meanwhile goroutines give way at one in Yield lock
	// operations.
	Yield int `json:"yield,omitempty"`
	// spoil: the Nth saved file (in name order) gets the text Text; plant: a
	// file in directory Name with the name that -save-hash msg gives the data
	// Bad gets the text Text.
	// fuzz
	Fuzz []FuzzConn `json:"fuzz,omitempty"`
	// dns: what the DNS says from now on (with no session open)
	DNS *DNSData `json:"dns,omitempty"`
}

// FuzzConn is a connection on which arbitrary bytes are sent.
type FuzzConn struct {
	Src    string   `json:"src"`
	Dst    string   `json:"dst"`
	Chunks []string `json:"chunks"`         // one rune per byte
	Wait   bool     `json:"wait,omitempty"` // read what comes after each chunk
	End    string   `json:"end,omitempty"`  // "" half-close, "reset", "close"
}

// Case is a whole test case.
type Case struct {
	Opt Options `json:"opt"`
	DNS DNSData `json:"dns"`
	Ops []Op    `json:"ops"`
	// Fresh: must run on a server of its own.
	Fresh bool `json:"fresh,omitempty"`
	// Sync: check that saved files were flushed before the reply.
	Sync bool `json:"sync,omitempty"`
	// Start: not a history but an attempt to start a server.
	Start *StartSpec `json:"start,omitempty"`
}

func (c *Case) JSON() string {
	b, _ := json.Marshal(c)
	return string(b)
}

// bytesOf turns the one-rune-per-byte form into bytes.
func bytesOf(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			b := make([]byte, 0, len(s))
			for _, r := range s {
				b = append(b, byte(r))
			}
			return string(b)
		}
	}
	return s
}

func runesOf(b string) string {
	var o strings.Builder
	for i := 0; i < len(b); i++ {
		o.WriteRune(rune(b[i]))
	}
	return o.String()
}

// line is the command line a step sends.
func (s *Step) line() string {
	v := func(word string) string {
		switch s.Style % 3 {
		case 1:
			return strings.ToLower(word)
		case 2:
			return word[:1] + strings.ToLower(word[1:])
		}
		return word
	}
	switch s.Kind {
	case "ehlo", "helo":
		w := v(strings.ToUpper(s.Kind))
		if s.Arg == "" {
			return w
		}
		if s.Style >= 3 {
			return w + "  " + s.Arg + " "
		}
		return w + " " + s.Arg
	case "mail", "rcpt":
		w := v("MAIL FROM")
		if s.Kind == "rcpt" {
			w = v("RCPT TO")
		}
		sp := ""
		if s.Style >= 3 {
			sp = " "
		}
		p := s.Params
		if p != "" {
			p = " " + p
		}
		return w + ":" + sp + "<" + s.Arg + ">" + p
	case "data":
		return v("DATA")
	case "rset":
		return v("RSET")
	case "noop":
		return v("NOOP")
	case "quit":
		return v("QUIT")
	case "starttls":
		return v("STARTTLS")
	case "raw":
		return bytesOf(s.Arg)
	}
	panic("no line for " + s.Kind)
}

// Mismatch is a difference between the server and the model.
type Mismatch struct {
	Cat string // see the categories in exec.go
	Msg string
}

func (m *Mismatch) String() string { return m.Cat + ": " + m.Msg }

func mism(cat, f string, a ...any) *Mismatch { return &Mismatch{cat, fmt.Sprintf(f, a...)} }
