package main

// A tiny authoritative DNS server for the harness: it answers from the
// current case's DNSData and nothing else.

import (
	"encoding/binary"
	"net"
	"strings"
	"sync"
)

// MXRec is one MX record.
type MXRec struct {
	Pref int    `json:"pref"`
	Host string `json:"host"` // without the trailing dot; "" is the root
}

// DNSData is everything the DNS says during a case. Names have no trailing
// dot and are lower case.
type DNSData struct {
	PTR  map[string][]string `json:"ptr,omitempty"`  // IP -> names
	Addr map[string][]string `json:"addr,omitempty"` // name -> IPs (v4 and v6)
	MX   map[string][]MXRec  `json:"mx,omitempty"`
	TXT  map[string][]string `json:"txt,omitempty"`
	// Fail holds names whose lookups get SERVFAIL: "a:NAME" for addresses,
	// "mx:NAME", "ptr:IP".
	Fail map[string]bool `json:"fail,omitempty"`
	// Trunc holds those of Fail that get a truncated reply, with nothing
	// to be had over TCP, in place of SERVFAIL.
	Trunc map[string]bool `json:"trunc,omitempty"`
}

type dnsServer struct {
	pc   *net.UDPConn
	mu   sync.Mutex
	data DNSData
	rev  map[string]string // reverse name -> IP
	nq   int
}

func newDNS() (*dnsServer, error) {
	pc, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		return nil, err
	}
	d := &dnsServer{pc: pc}
	_ = pc.SetReadBuffer(1 << 20)
	go d.serve()
	return d, nil
}

func (d *dnsServer) addr() string { return d.pc.LocalAddr().String() }

func reverseName(ip string) string {
	p := net.ParseIP(ip)
	if v4 := p.To4(); v4 != nil {
		return itoa(int(v4[3])) + "." + itoa(int(v4[2])) + "." + itoa(int(v4[1])) + "." + itoa(int(v4[0])) + ".in-addr.arpa"
	}
	const hex = "0123456789abcdef"
	var b strings.Builder
	for i := 15; i >= 0; i-- {
		b.WriteByte(hex[p[i]&15])
		b.WriteByte('.')
		b.WriteByte(hex[p[i]>>4])
		b.WriteByte('.')
	}
	return b.String() + "ip6.arpa"
}

func (d *dnsServer) Set(data DNSData) {
	rev := map[string]string{}
	for ip := range data.PTR {
		rev[reverseName(ip)] = ip
	}
	for k := range data.Fail {
		if strings.HasPrefix(k, "ptr:") {
			rev[reverseName(k[4:])] = k[4:]
		}
	}
	d.mu.Lock()
	d.data, d.rev = data, rev
	d.mu.Unlock()
}

func (d *dnsServer) serve() {
	buf := make([]byte, 2048)
	for {
		n, from, err := d.pc.ReadFromUDP(buf)
		if err != nil {
			return
		}
		if r := d.answer(buf[:n]); r != nil {
			_, _ = d.pc.WriteToUDP(r, from)
		}
	}
}

func encName(out []byte, name string) []byte {
	if name != "" {
		for _, l := range strings.Split(name, ".") {
			out = append(out, byte(len(l)))
			out = append(out, l...)
		}
	}
	return append(out, 0)
}

func (d *dnsServer) answer(q []byte) []byte {
	if len(q) < 12 || binary.BigEndian.Uint16(q[4:]) != 1 {
		return nil
	}
	pos := 12
	var labels []string
	for {
		if pos >= len(q) {
			return nil
		}
		l := int(q[pos])
		pos++
		if l == 0 {
			break
		}
		if l > 63 || pos+l > len(q) {
			return nil
		}
		labels = append(labels, string(q[pos:pos+l]))
		pos += l
	}
	if pos+4 > len(q) {
		return nil
	}
	qt := binary.BigEndian.Uint16(q[pos:])
	pos += 4
	name := strings.ToLower(strings.Join(labels, "."))

	d.mu.Lock()
	defer d.mu.Unlock()
	d.nq++
	rcode := byte(0)
	tc := byte(0)
	failed := func(key string) bool {
		if !d.data.Fail[key] {
			return false
		}
		if d.data.Trunc[key] {
			tc = 2
		} else {
			rcode = 2
		}
		return true
	}
	var rrs [][]byte
	exists := false
	if _, ok := d.data.Addr[name]; ok {
		exists = true
	}
	if _, ok := d.data.MX[name]; ok {
		exists = true
	}
	if _, ok := d.data.TXT[name]; ok {
		exists = true
	}
	switch qt {
	case 1, 28:
		if failed("a:" + name) {
			break
		}
		for _, s := range d.data.Addr[name] {
			ip := net.ParseIP(s)
			if v4 := ip.To4(); v4 != nil && !strings.Contains(s, ":") {
				if qt == 1 {
					rrs = append(rrs, v4)
				}
			} else if qt == 28 {
				rrs = append(rrs, ip.To16())
			}
		}
	case 15:
		if failed("mx:" + name) {
			break
		}
		for _, m := range d.data.MX[name] {
			rd := []byte{byte(m.Pref >> 8), byte(m.Pref)}
			rrs = append(rrs, encName(rd, m.Host))
		}
	case 16:
		if failed("txt:" + name) {
			break
		}
		for _, t := range d.data.TXT[name] {
			rrs = append(rrs, append([]byte{byte(len(t))}, t...))
		}
	case 12:
		if ip, ok := d.rev[name]; ok {
			exists = true
			if failed("ptr:" + ip) {
				break
			}
			for _, n := range d.data.PTR[ip] {
				rrs = append(rrs, encName(nil, n))
			}
		}
	}
	if rcode == 0 && tc == 0 && !exists {
		rcode = 3
	}
	out := make([]byte, 0, 512)
	out = append(out, q[0], q[1], 0x85|tc, 0x80|rcode, 0, 1, 0, byte(len(rrs)), 0, 0, 0, 0)
	out = append(out, q[12:pos]...)
	for _, rd := range rrs {
		out = append(out, 0xc0, 12, byte(qt>>8), byte(qt), 0, 1, 0, 0, 0, 1)
		out = append(out, byte(len(rd)>>8), byte(len(rd)))
		out = append(out, rd...)
	}
	return out
}
