package main

// The SMTP client side: dials from a chosen source address, sends exactly
// the bytes it is told to, reads replies.

import (
	"bufio"
	"crypto/tls"
	"errors"
	"io"
	"net"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Reply is one SMTP reply as seen by the client.
type Reply struct {
	Code  int
	Lines []string // text of each line, after "NNN-" or "NNN "
	Raw   []string // whole lines without line ending
	EOF   bool     // the connection ended instead
	Err   error    // anything else (a timeout, a garbled reply)
}

func (r Reply) String() string {
	switch {
	case r.EOF:
		return "EOF"
	case r.Err != nil:
		return "error: " + r.Err.Error()
	}
	return strings.Join(r.Raw, "|")
}

// Client is one SMTP connection.
type Client struct {
	nc    net.Conn
	tcp   *net.TCPConn
	r     *bufio.Reader
	Raddr string   // our address as the server sees it
	Laddr string   // the server's address
	w     []string // every reply line received
	sent  []string // every command line sent
	// A replaying client plays back the replies recorded by blind().
	replaying bool
	recs      []Reply
	hs        *hsRec
	undrained bool
}

// hsRec is a recorded TLS handshake.
type hsRec struct {
	st    tls.ConnectionState
	err   error
	asked bool
}

const ipBindAddressNoPort = 24

func dial(src, dst string, port int) (*Client, error) {
	d := net.Dialer{Timeout: 10 * time.Second}
	if src != "" {
		d.LocalAddr = &net.TCPAddr{IP: net.ParseIP(src)}
		d.Control = func(network, address string, c syscall.RawConn) error {
			return c.Control(func(fd uintptr) {
				_ = syscall.SetsockoptInt(int(fd), syscall.IPPROTO_IP, ipBindAddressNoPort, 1)
			})
		}
	}
	nc, err := d.Dial("tcp", net.JoinHostPort(dst, strconv.Itoa(port)))
	if err != nil {
		return nil, err
	}
	c := &Client{nc: nc, r: bufio.NewReader(nc)}
	c.tcp, _ = nc.(*net.TCPConn)
	c.Raddr = nc.LocalAddr().String()
	c.Laddr = nc.RemoteAddr().String()
	return c, nil
}

func isEOF(err error) bool {
	if err == io.EOF || errors.Is(err, io.ErrUnexpectedEOF) || errors.Is(err, syscall.ECONNRESET) || errors.Is(err, syscall.EPIPE) {
		return true
	}
	return strings.Contains(err.Error(), "tls: ") || strings.Contains(err.Error(), "remote error")
}

func (c *Client) read(timeout time.Duration) Reply {
	var r Reply
	if c.replaying {
		if len(c.recs) == 0 {
			return Reply{EOF: true}
		}
		r, c.recs = c.recs[0], c.recs[1:]
		return r
	}
	_ = c.nc.SetReadDeadline(time.Now().Add(timeout))
	for {
		l, err := c.r.ReadString('\n')
		if err != nil {
			if isEOF(err) {
				if l != "" || len(r.Raw) > 0 {
					r.Err = errors.New("connection ended inside a reply: " + strconv.Quote(l))
					return r
				}
				r.EOF = true
				return r
			}
			r.Err = err
			return r
		}
		l = strings.TrimSuffix(strings.TrimSuffix(l, "\n"), "\r")
		c.w = append(c.w, l)
		r.Raw = append(r.Raw, l)
		if len(l) < 3 {
			r.Err = errors.New("garbled reply line " + strconv.Quote(l))
			return r
		}
		code, err := strconv.Atoi(l[:3])
		if err != nil {
			r.Err = errors.New("garbled reply line " + strconv.Quote(l))
			return r
		}
		if r.Code != 0 && code != r.Code {
			r.Err = errors.New("reply code changes within reply " + strconv.Quote(l))
			return r
		}
		r.Code = code
		txt := ""
		if len(l) > 4 {
			txt = l[4:]
		}
		r.Lines = append(r.Lines, txt)
		if len(l) == 3 || l[3] == ' ' {
			return r
		}
	}
}

// isTimeout says whether a reply is missing because we stopped waiting.
func (r Reply) isTimeout() bool {
	var ne net.Error
	return r.Err != nil && errors.As(r.Err, &ne) && ne.Timeout()
}

func (c *Client) writeRaw(s string) error {
	if c.replaying {
		return nil
	}
	_ = c.nc.SetWriteDeadline(time.Now().Add(20 * time.Second))
	_, err := c.nc.Write([]byte(s))
	return err
}

// cmd sends a command line and returns the reply.
func (c *Client) cmd(line string, timeout time.Duration) Reply {
	c.sent = append(c.sent, line)
	if err := c.writeRaw(line + "\r\n"); err != nil {
		if isEOF(err) {
			return Reply{EOF: true}
		}
		return Reply{Err: err}
	}
	return c.read(timeout)
}

func (c *Client) halfClose() {
	if c.tcp != nil && !c.replaying {
		_ = c.tcp.CloseWrite()
	}
}

// drain reads until the server closes; it returns false if it does not.
func (c *Client) drain(timeout time.Duration) bool {
	if c.replaying {
		return !c.undrained
	}
	_ = c.tcp.SetReadDeadline(time.Now().Add(timeout))
	buf := make([]byte, 4096)
	for {
		_, err := c.tcp.Read(buf)
		if err != nil {
			return isEOF(err)
		}
	}
}

func (c *Client) close() { _ = c.nc.Close() }

// startTLS does the client side of a TLS handshake.
func (c *Client) startTLS(cfg *tls.Config, timeout time.Duration) (tls.ConnectionState, error) {
	if c.replaying {
		h := c.hs
		if h == nil {
			return tls.ConnectionState{}, errors.New("no handshake took place")
		}
		if h.asked {
			_, _ = cfg.GetClientCertificate(&tls.CertificateRequestInfo{})
		}
		return h.st, h.err
	}
	_ = c.nc.SetDeadline(time.Now().Add(timeout))
	tc := tls.Client(c.nc, cfg)
	if err := tc.Handshake(); err != nil {
		return tls.ConnectionState{}, err
	}
	_ = c.nc.SetDeadline(time.Time{})
	c.nc = tc
	c.r = bufio.NewReader(tc)
	return tc.ConnectionState(), nil
}

// dotStuff turns message data (LF line ends, a final newline) into what goes
// over the wire, end marker included.
func dotStuff(data string) string {
	var b strings.Builder
	for _, l := range strings.SplitAfter(data, "\n") {
		if l == "" {
			continue
		}
		if l[0] == '.' {
			b.WriteByte('.')
		}
		b.WriteString(strings.TrimSuffix(l, "\n"))
		b.WriteString("\r\n")
	}
	b.WriteString(".\r\n")
	return b.String()
}
