// Package smtpd is a stand-in for github.com/siebenmann/smtpd, written for
// this verification harness because the real module is not available
// offline. It reproduces the API that package offers and its documented
// behaviour: a Conn turns the client's side of an SMTP conversation into a
// sequence of events (Next), the caller accepts, rejects or tempfails each
// command, and everything about sequencing, greeting, EHLO extensions,
// STARTTLS, dot-stuffing and reply formatting is handled in here.
//
// It is part of the trusted base of every check (see DESIGN.md).
package smtpd

import (
	"bufio"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"net/textproto"
	"strings"
	"time"
)

// TimeFmt is the timestamp format used in SMTP logs.
const TimeFmt = "2006-01-02 15:04:05 -0700"

// Command is an SMTP command.
type Command int

// The SMTP commands.
const (
	noCmd Command = iota
	BadCmd
	HELO
	EHLO
	MAILFROM
	RCPTTO
	DATA
	QUIT
	RSET
	NOOP
	VRFY
	EXPN
	HELP
	AUTH
	STARTTLS
)

var cmdNames = map[Command]string{
	noCmd: "<no-command>", BadCmd: "<bad-command>", HELO: "HELO",
	EHLO: "EHLO", MAILFROM: "MAIL FROM", RCPTTO: "RCPT TO", DATA: "DATA",
	QUIT: "QUIT", RSET: "RSET", NOOP: "NOOP", VRFY: "VRFY", EXPN: "EXPN",
	HELP: "HELP", AUTH: "AUTH", STARTTLS: "STARTTLS",
}

func (v Command) String() string { return cmdNames[v] }

// ParsedLine is a parsed SMTP command line.
type ParsedLine struct {
	Cmd    Command
	Arg    string
	Params string
	Err    string
}

type argStyle int

const (
	noArg argStyle = iota
	canArg
	mustArg
	colonAddress
)

var cmdTable = []struct {
	cmd  Command
	text string
	arg  argStyle
}{
	{HELO, "HELO", canArg}, {EHLO, "EHLO", canArg},
	{MAILFROM, "MAIL FROM", colonAddress}, {RCPTTO, "RCPT TO", colonAddress},
	{DATA, "DATA", noArg}, {QUIT, "QUIT", noArg}, {RSET, "RSET", noArg},
	{NOOP, "NOOP", canArg}, {VRFY, "VRFY", mustArg}, {EXPN, "EXPN", mustArg},
	{HELP, "HELP", canArg}, {STARTTLS, "STARTTLS", noArg}, {AUTH, "AUTH", mustArg},
}

func ascii7(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < ' ' || s[i] > 126 {
			return false
		}
	}
	return true
}

// ParseCmd parses a SMTP command line (without its line ending).
func ParseCmd(line string) ParsedLine {
	var res ParsedLine
	res.Cmd = BadCmd
	if !ascii7(line) {
		res.Err = "command contains non 7-bit ASCII"
		return res
	}
	up := strings.ToUpper(line)
	for _, c := range cmdTable {
		if !strings.HasPrefix(up, c.text) {
			continue
		}
		rest := line[len(c.text):]
		if rest != "" && rest[0] != ' ' && !(c.arg == colonAddress && rest[0] == ':') {
			continue
		}
		res.Cmd = c.cmd
		switch c.arg {
		case noArg:
			if strings.TrimSpace(rest) != "" {
				res.Err = "SMTP command does not take an argument"
			}
		case canArg:
			res.Arg = strings.TrimSpace(rest)
		case mustArg:
			res.Arg = strings.TrimSpace(rest)
			if res.Arg == "" {
				res.Err = "SMTP command requires an argument"
			}
		case colonAddress:
			rest = strings.TrimLeft(rest, " ")
			if rest == "" || rest[0] != ':' {
				res.Err = "improper argument formatting"
				return res
			}
			rest = strings.TrimSpace(rest[1:])
			if rest == "" || rest[0] != '<' {
				res.Err = "improper argument formatting"
				return res
			}
			idx := strings.IndexByte(rest, ' ')
			params := ""
			if idx >= 0 {
				params = strings.TrimSpace(rest[idx:])
				rest = rest[:idx]
			}
			if rest[len(rest)-1] != '>' {
				res.Err = "improper argument formatting"
				return res
			}
			res.Arg = rest[1 : len(rest)-1]
			res.Params = params
		}
		return res
	}
	res.Err = "unrecognized command"
	return res
}

// deadline is when a time limit ends. The harness moves the clock, perhaps
// just between here and the use of the deadline, so there is slack for that.
func deadline(d time.Duration) time.Time {
	return time.Now().Add(d + 10000*time.Hour)
}

// Limits holds time and message limits.
type Limits struct {
	CmdInput time.Duration
	MsgInput time.Duration
	ReplyOut time.Duration
	TLSSetup time.Duration
	MsgSize  int64
	BadCmds  int
	NoParams bool
}

// DefaultLimits are the defaults.
var DefaultLimits = Limits{
	CmdInput: 2 * time.Minute,
	MsgInput: 10 * time.Minute,
	ReplyOut: 2 * time.Minute,
	TLSSetup: 4 * time.Minute,
	MsgSize:  5 * 1024 * 1024,
	BadCmds:  5,
	NoParams: true,
}

// AuthConfig specifies the mechanisms that can be used to authenticate.
type AuthConfig struct {
	Mechanisms []string
}

// Config is the configuration of a connection.
type Config struct {
	TLSConfig *tls.Config
	Limits    *Limits
	Auth      *AuthConfig
	Delay     time.Duration
	SayTime   bool
	LocalName string
	SftName   string
	Announce  string
}

// Event is what happened.
type Event int

// The different types of SMTP events.
const (
	_ Event = iota
	COMMAND
	AUTHRESP
	AUTHABORT
	GOTDATA
	DONE
	ABORT
	TLSERROR
)

// EventInfo is what Conn.Next returns.
type EventInfo struct {
	What Event
	Cmd  Command
	Arg  string
}

type conState int

const (
	sStartup conState = 0
	sInitial conState = 1 << iota
	sHelo
	sMail
	sRcpt
	sData
	sPostData
	sQuit
	sAbort
)

var states = map[Command]struct{ validin, next conState }{
	HELO:     {sInitial | sHelo, sHelo},
	EHLO:     {sInitial | sHelo, sHelo},
	MAILFROM: {sHelo, sMail},
	RCPTTO:   {sMail | sRcpt, sRcpt},
	DATA:     {sRcpt, sData},
}

// Conn is an ongoing SMTP conversation.
type Conn struct {
	conn   net.Conn
	rdr    *bufio.Reader
	logger io.Writer

	// Config may be changed by the caller until EHLO is processed.
	Config Config

	state   conState
	nstate  conState
	badcmds int
	curcmd  Command
	replied bool

	// TLSOn is true if TLS is on; TLSState is then valid.
	TLSOn    bool
	TLSState tls.ConnectionState
}

// Observer, when set, is told about every write to the network together with
// the configured delay. The harness uses it to see Config.Delay without
// having to sit through it.
var Observer func(c *Conn, delay time.Duration)

// NoSleep turns Config.Delay into a record instead of real sleeping.
var NoSleep bool

// NewConn creates a new SMTP conversation from a network connection.
func NewConn(conn net.Conn, cfg Config, log io.Writer) *Conn {
	c := &Conn{state: sStartup, Config: cfg, logger: log}
	if c.Config.Limits == nil {
		l := DefaultLimits
		c.Config.Limits = &l
	}
	if c.Config.SftName == "" {
		c.Config.SftName = "go-smtpd"
	}
	c.setup(conn)
	return c
}

func (c *Conn) setup(conn net.Conn) {
	c.conn = conn
	c.rdr = bufio.NewReader(conn)
}

func (c *Conn) log(dir, format string, elems ...interface{}) {
	if c.logger == nil {
		return
	}
	msg := fmt.Sprintf(format, elems...)
	_, _ = c.logger.Write([]byte(dir + " " + msg + "\n"))
}

func (c *Conn) raw(s string) {
	if c.state == sAbort {
		return
	}
	_ = c.conn.SetWriteDeadline(deadline(c.Config.Limits.ReplyOut))
	if Observer != nil {
		Observer(c, c.Config.Delay)
	}
	var err error
	if c.Config.Delay > 0 && !NoSleep {
		for i := 0; i < len(s) && err == nil; i++ {
			_, err = c.conn.Write([]byte{s[i]})
			time.Sleep(c.Config.Delay)
		}
	} else {
		_, err = c.conn.Write([]byte(s))
	}
	if err != nil {
		c.log("!", "reply abort: %v", err)
		c.state = sAbort
	}
}

func (c *Conn) reply(format string, elems ...interface{}) {
	s := fmt.Sprintf(format, elems...)
	c.log("w", "%s", s)
	c.raw(s + "\r\n")
}

func (c *Conn) replyMore(format string, elems ...interface{}) {
	c.reply(format, elems...)
}

func (c *Conn) replyMulti(code int, format string, elems ...interface{}) {
	s := strings.Trim(fmt.Sprintf(format, elems...), " \t\n")
	sl := strings.Split(s, "\n")
	for i := range sl {
		sep := "-"
		if i == len(sl)-1 {
			sep = " "
		}
		c.reply("%3d%s%s", code, sep, sl[i])
	}
}

func (c *Conn) greet() {
	when := ""
	if c.Config.SayTime {
		when = " " + time.Now().Format(time.RFC1123Z)
	}
	c.log("#", "remote %v at %s", c.conn.RemoteAddr(), time.Now().Format(TimeFmt))
	if c.Config.Announce != "" {
		c.reply("220-%s %s%s", c.Config.LocalName, c.Config.SftName, when)
		c.reply("220 %s", c.Config.Announce)
	} else {
		c.reply("220 %s %s%s", c.Config.LocalName, c.Config.SftName, when)
	}
}

// Accept accepts the current SMTP command.
func (c *Conn) Accept() {
	if c.replied {
		return
	}
	old := c.state
	c.state = c.nstate
	switch c.curcmd {
	case HELO:
		c.reply("250 %s Hello %v", c.Config.LocalName, c.conn.RemoteAddr())
	case EHLO:
		c.reply("250-%s Hello %v", c.Config.LocalName, c.conn.RemoteAddr())
		c.reply("250-8BITMIME")
		c.reply("250-PIPELINING")
		if c.Config.TLSConfig != nil && !c.TLSOn {
			c.reply("250-STARTTLS")
		}
		c.reply("250 HELP")
	case MAILFROM, RCPTTO:
		c.reply("250 Okay, I'll believe you for now")
	case DATA:
		if old == sRcpt {
			c.reply("354 Send away")
		} else {
			c.reply("250 I've put it in a can")
		}
	}
	c.replied = true
}

// AcceptMsg accepts the current command with a custom (perhaps multi-line)
// message. For EHLO and HELO it is the same as Accept.
func (c *Conn) AcceptMsg(format string, elems ...interface{}) {
	if c.replied {
		return
	}
	old := c.state
	switch c.curcmd {
	case HELO, EHLO:
		c.Accept()
		return
	}
	c.state = c.nstate
	switch c.curcmd {
	case MAILFROM, RCPTTO:
		c.replyMulti(250, format, elems...)
	case DATA:
		if old == sRcpt {
			c.replyMulti(354, format, elems...)
		} else {
			c.replyMulti(250, format, elems...)
		}
	}
	c.replied = true
}

// AcceptData accepts a message and tells the client its ID.
func (c *Conn) AcceptData(id string) {
	if c.replied || c.curcmd != DATA || c.state != sPostData {
		return
	}
	c.state = c.nstate
	c.reply("250 I've put it in a can called %s", id)
	c.replied = true
}

// RejectData rejects a message with an ID.
func (c *Conn) RejectData(id string) {
	if c.replied || c.curcmd != DATA || c.state != sPostData {
		return
	}
	c.reply("554 Not put in a can called %s", id)
	c.replied = true
}

// Reject rejects the current command with a 5xx.
func (c *Conn) Reject() {
	if c.replied {
		return
	}
	switch c.curcmd {
	case HELO, EHLO:
		c.reply("550 Not accepted")
	case MAILFROM, RCPTTO:
		c.reply("550 Bad address")
	case DATA:
		c.reply("554 Not accepted")
	}
	c.replied = true
}

// RejectMsg rejects the current command with a custom message.
func (c *Conn) RejectMsg(format string, elems ...interface{}) {
	if c.replied {
		return
	}
	switch c.curcmd {
	case HELO, EHLO, MAILFROM, RCPTTO:
		c.replyMulti(550, format, elems...)
	case DATA:
		c.replyMulti(554, format, elems...)
	}
	c.replied = true
}

// Tempfail temporarily rejects the current command.
func (c *Conn) Tempfail() {
	if c.replied {
		return
	}
	switch c.curcmd {
	case HELO, EHLO:
		c.reply("421 Not available now")
	case MAILFROM, RCPTTO, DATA:
		c.reply("450 Not available")
	}
	c.replied = true
}

// TempfailMsg temporarily rejects the current command with a message.
func (c *Conn) TempfailMsg(format string, elems ...interface{}) {
	if c.replied {
		return
	}
	switch c.curcmd {
	case HELO, EHLO:
		c.replyMulti(421, format, elems...)
	case MAILFROM, RCPTTO, DATA:
		c.replyMulti(450, format, elems...)
	}
	c.replied = true
}

func (c *Conn) readCmd() string {
	_ = c.conn.SetReadDeadline(deadline(c.Config.Limits.CmdInput))
	var buf []byte
	for {
		b, err := c.rdr.ReadByte()
		if err != nil {
			c.state = sAbort
			c.log("!", "command abort %s err: %v", string(buf), err)
			return ""
		}
		if b == '\n' {
			break
		}
		if len(buf) >= 2048 {
			c.state = sAbort
			c.log("!", "command too long")
			return ""
		}
		buf = append(buf, b)
	}
	s := strings.TrimSuffix(string(buf), "\r")
	c.log("r", "%s", s)
	return s
}

func (c *Conn) readData() (string, bool) {
	_ = c.conn.SetReadDeadline(deadline(c.Config.Limits.MsgInput))
	lr := io.LimitReader(c.rdr, c.Config.Limits.MsgSize).(*io.LimitedReader)
	// Read byte-exactly from the shared reader: a bufio.Reader of size one
	// cannot exist, so the dot-unstuffing is done by hand here.
	var out []byte
	bol := true
	next := func() (byte, bool) {
		if lr.N <= 0 {
			return 0, false
		}
		lr.N--
		b, err := c.rdr.ReadByte()
		return b, err == nil
	}
	var line []byte
	for {
		line = line[:0]
		for {
			b, ok := next()
			if !ok {
				c.state = sAbort
				c.log("!", "DATA abort")
				return "", false
			}
			if b == '\n' {
				break
			}
			line = append(line, b)
		}
		if n := len(line); n > 0 && line[n-1] == '\r' {
			line = line[:n-1]
		}
		if bol && len(line) > 0 && line[0] == '.' {
			if len(line) == 1 {
				break
			}
			line = line[1:]
		}
		out = append(out, line...)
		out = append(out, '\n')
	}
	c.log("r", ". <end of data>")
	return string(out), true
}

var _ = textproto.TrimString

// Next returns the next event.
func (c *Conn) Next() EventInfo {
	var evt EventInfo
	if !c.replied && c.curcmd != noCmd {
		c.Accept()
	}
	if c.state == sStartup {
		c.state = sInitial
		c.greet()
	}
	if c.state == sData {
		data, ok := c.readData()
		if ok {
			evt.What = GOTDATA
			evt.Cmd = DATA
			evt.Arg = data
			c.replied = false
			// Only a successful message ends the mail transaction; an
			// unsuccessful one must be RSET.
			c.state = sPostData
			c.nstate = sHelo
			return evt
		}
	}
	for {
		if c.state == sQuit || c.state == sAbort {
			break
		}
		if c.badcmds > c.Config.Limits.BadCmds {
			c.reply("554 Too many bad commands")
			c.state = sAbort
			break
		}
		line := c.readCmd()
		if c.state == sAbort {
			break
		}
		res := ParseCmd(line)
		if res.Cmd == BadCmd {
			c.badcmds++
			c.reply("501 Bad: %s", res.Err)
			continue
		}
		if res.Err != "" {
			c.badcmds++
			c.reply("553 Garbled command: %s", res.Err)
			continue
		}
		t, stateful := states[res.Cmd]
		if !stateful {
			switch res.Cmd {
			case NOOP:
				c.reply("250 Okay")
			case HELP:
				c.reply("214 No help here")
			case RSET:
				if c.state != sInitial {
					c.state = sHelo
				}
				c.reply("250 Okay")
			case QUIT:
				c.state = sQuit
				c.reply("221 Goodbye")
			case STARTTLS:
				if c.Config.TLSConfig == nil || c.TLSOn {
					c.reply("502 Not supported")
					continue
				}
				c.reply("220 Ready to start TLS")
				if c.state == sAbort {
					continue
				}
				_ = c.conn.SetDeadline(deadline(c.Config.Limits.TLSSetup))
				tc := tls.Server(c.conn, c.Config.TLSConfig)
				if err := tc.Handshake(); err != nil {
					c.log("!", "TLS setup failed: %v", err)
					c.state = sAbort
					evt.What = TLSERROR
					evt.Arg = err.Error()
					return evt
				}
				_ = c.conn.SetDeadline(time.Time{})
				c.setup(tc)
				c.TLSOn = true
				c.TLSState = tc.ConnectionState()
				c.log("!", "TLS negotiated with cipher 0x%04x", c.TLSState.CipherSuite)
				// clients must re-EHLO.
				c.state = sInitial
				c.curcmd = noCmd
			default:
				c.reply("502 Not supported")
			}
			continue
		}
		if t.validin&c.state == 0 {
			c.reply("503 Out of sequence command")
			continue
		}
		if res.Cmd == RCPTTO && res.Arg == "" {
			c.reply("550 Bad address")
			continue
		}
		if res.Params != "" && c.Config.Limits.NoParams {
			p := strings.ToUpper(res.Params)
			if !(strings.HasPrefix(p, "BODY=") && res.Cmd == MAILFROM) {
				c.reply("504 Command parameter not implemented")
				continue
			}
		}
		c.nstate = t.next
		c.replied = false
		c.curcmd = res.Cmd
		evt.What = COMMAND
		evt.Cmd = res.Cmd
		evt.Arg = res.Arg
		return evt
	}
	evt.What = ABORT
	if c.state == sQuit {
		evt.What = DONE
	}
	c.log("#", "finished at %v", time.Now().Format(TimeFmt))
	return evt
}
