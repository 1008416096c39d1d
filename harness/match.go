package main

// Reference implementations of the match operators, written from the
// documentation (doc.go) and the property statements.

import (
	"net/netip"
	"sort"
	"strings"
)

func refMatchAddr(addr, pat string) bool {
	addr, pat = strings.ToLower(addr), strings.ToLower(pat)
	if addr == "" {
		return pat == "<>"
	}
	if addr == pat {
		return true
	}
	if pat == "" || strings.HasPrefix(addr, "@") || strings.IndexByte(addr, '@') == len(addr)-1 {
		return false
	}
	local, dom, has := strings.Cut(addr, "@")
	if strings.HasSuffix(pat, "@") && pat[0] != '@' {
		return pat == local+"@"
	}
	if !has {
		return false
	}
	switch {
	case pat == "@":
		return true
	case strings.HasPrefix(pat, "@."):
		b := pat[2:]
		return dom == b || strings.HasSuffix(dom, "."+b)
	case strings.HasPrefix(pat, "@"):
		return dom == pat[1:]
	}
	return false
}

func refMatchHost(host, pat string) bool {
	host, pat = strings.ToLower(host), strings.ToLower(pat)
	if host == "" || pat == "" {
		return false
	}
	if !strings.HasSuffix(pat, ".") {
		host = strings.TrimSuffix(host, ".")
		if host == "" {
			return false
		}
	}
	if host == pat {
		return true
	}
	if strings.HasPrefix(pat, ".") && len(pat) > 1 {
		return host == pat[1:] || strings.HasSuffix(host, pat)
	}
	return pat == "." && strings.HasSuffix(host, ".")
}

func parseAddr(s string) (netip.Addr, bool) {
	a, err := netip.ParseAddr(s)
	if err != nil || a.Zone() != "" {
		return netip.Addr{}, false
	}
	return a.Unmap(), true
}

func refMatchIP(ip, pat string) bool {
	a, ok := parseAddr(ip)
	if !ok {
		return false
	}
	if b, ok := parseAddr(pat); ok {
		return a == b
	}
	p, err := netip.ParsePrefix(pat)
	if err != nil {
		return false
	}
	// bit by bit, the slow obvious way
	if p.Addr().Is4() != a.Is4() {
		return false
	}
	x, y := p.Addr().AsSlice(), a.AsSlice()
	for i := 0; i < p.Bits(); i++ {
		if (x[i/8]^y[i/8])>>(7-i%8)&1 != 0 {
			return false
		}
	}
	return true
}

// addrAttrs gives the syntactic attributes of an address.
func addrAttrs(a string) map[string]bool {
	m := map[string]bool{}
	if a == "" {
		return m
	}
	at := strings.Index(a, "@")
	if at < 0 {
		m["noat"] = true
	} else {
		if !strings.Contains(a[at+1:], ".") {
			m["unqualified"] = true
		}
		if at == 0 {
			if strings.Contains(a[1:], "@") {
				m["route"] = true
			} else {
				m["garbage"] = true
			}
		}
		if at == len(a)-1 {
			m["garbage"] = true
		}
	}
	last := a[len(a)-1:]
	if a[0] == '<' || strings.Contains(`>"].`, last) || strings.Contains(a, "..") || strings.Contains(a, "@@") {
		m["garbage"] = true
	}
	if i := strings.Index(a, `"`); i >= 0 && i != len(a)-1 {
		m["quoted"] = true
	}
	if m["noat"] || m["quoted"] || m["unqualified"] || m["garbage"] {
		m["bad"] = true
	}
	return m
}

// wellFormedDomain gives the domain that deliverability and dbl look at.
func wellFormedDomain(a string) (string, bool) {
	m := addrAttrs(a)
	if a == "" || m["noat"] || m["unqualified"] || m["garbage"] || m["route"] {
		return "", false
	}
	_, d, _ := strings.Cut(a, "@")
	return d, true
}

func heloAttrs(cmd, name, rip, lip string) map[string]bool {
	m := map[string]bool{strings.ToLower(cmd): true}
	switch name {
	case "":
		m["none"], m["nodots"] = true, true
		return m
	case ".":
		m["bogus"], m["nodots"] = true, true
		return m
	}
	if !strings.ContainsAny(name, ".:") {
		m["nodots"] = true
	}
	ip, ok := parseAddr(name)
	if ok {
		m["bareip"] = true
	} else if len(name) > 2 && name[0] == '[' && name[len(name)-1] == ']' {
		if ip, ok = parseAddr(name[1 : len(name)-1]); ok {
			m["properip"] = true
		}
	}
	if ok {
		m["ip"] = true
		r, _ := parseAddr(rip)
		l, _ := parseAddr(lip)
		switch ip {
		case r:
			m["remip"] = true
		case l:
			m["myip"] = true
		default:
			m["otherip"] = true
		}
	}
	return m
}

func globalUnicast(s string) bool {
	a, ok := parseAddr(s)
	if !ok {
		return false
	}
	for _, p := range []string{"0.0.0.0/32", "255.255.255.255/32", "127.0.0.0/8", "224.0.0.0/4", "169.254.0.0/16",
		"::/128", "::1/128", "ff00::/8", "fe80::/10",
		"10.0.0.0/8", "172.16.0.0/12", "192.168.0.0/16", "fc00::/7", "fec0::/10"} {
		if refMatchIP(a.String(), p) {
			return false
		}
	}
	return true
}

func lookupable(name string) bool {
	letter := false
	if name == "" || strings.Contains(name, "..") || name[0] == '.' || len(name) > 250 {
		return false
	}
	for _, l := range strings.Split(name, ".") {
		if len(l) > 63 || l == "" || l[0] == '-' || l[len(l)-1] == '-' {
			return false
		}
	}
	for i := 0; i < len(name); i++ {
		c := name[i] | 0x20
		switch {
		case c >= 'a' && c <= 'z' || name[i] == '_' || name[i] == '-':
			letter = true
		case name[i] >= '0' && name[i] <= '9' || name[i] == '.':
		default:
			return false
		}
	}
	return letter
}

// addrsOf looks up the addresses of a name: found, and whether the failure
// is temporary.
func (d *DNSData) addrsOf(name string) (ips []string, temp bool) {
	name = strings.ToLower(strings.TrimSuffix(name, "."))
	if !lookupable(name) {
		return nil, false
	}
	if d.Fail["a:"+name] {
		return nil, true
	}
	return d.Addr[name], false
}

// deliverable classifies a mail domain: "resolves", "unknown" or "baddom".
func (d *DNSData) deliverable(dom string) string {
	dom = strings.ToLower(dom)
	target := func(h string) int {
		ips, temp := d.addrsOf(h)
		switch {
		case temp:
			return 1
		case len(ips) == 0:
			return 0
		}
		for _, ip := range ips {
			if !globalUnicast(ip) {
				return 0
			}
		}
		return 2
	}
	names := []string{"baddom", "unknown", "resolves"}
	if !lookupable(dom) {
		return "baddom"
	}
	if d.Fail["mx:"+dom] {
		return "unknown"
	}
	mxs := d.MX[dom]
	if len(mxs) == 0 {
		return names[target(dom)]
	}
	best := 0
	for _, m := range mxs {
		h := strings.ToLower(m.Host)
		if h == "" || h == "localhost" {
			return "baddom"
		}
		if v := target(h); v > best {
			best = v
		}
	}
	return names[best]
}

// RDNS is the classification of a client's reverse DNS names, each with its
// trailing dot (names from a hosts file may lack it).
type RDNS struct{ Ver, NoFwd, Incons []string }

func (d *DNSData) rdns(ip string, hosts bool) RDNS {
	var r RDNS
	var names []string
	if hosts && hostsPTR[ip] != nil {
		names = append(names, hostsPTR[ip]...)
	} else {
		if d.Fail["ptr:"+ip] {
			return r
		}
		for _, n := range d.PTR[ip] {
			names = append(names, n+".")
		}
	}
	sort.Strings(names)
	me, _ := parseAddr(ip)
	for _, n := range names {
		var ips []string
		if h := hostsAddr[strings.TrimSuffix(n, ".")]; hosts && h != nil {
			ips = h
		} else {
			ips, _ = d.addrsOf(n)
		}
		if len(ips) == 0 {
			r.NoFwd = append(r.NoFwd, n)
			continue
		}
		ok := false
		for _, s := range ips {
			if a, _ := parseAddr(s); a == me {
				ok = true
			}
		}
		if ok {
			r.Ver = append(r.Ver, n)
		} else {
			r.Incons = append(r.Incons, n)
		}
	}
	return r
}

// The hosts file used when Options.Hosts is set: single-label names come
// back from the resolver without a trailing dot.
const hostsText = "127.77.0.1 shortname\n127.77.0.2 xname\n127.77.0.3 long.host.example\n"

var hostsPTR = map[string][]string{"127.77.0.1": {"shortname"}, "127.77.0.2": {"xname"}, "127.77.0.3": {"long.host.example."}}
var hostsAddr = map[string][]string{"shortname": {"127.77.0.1"}, "xname": {"127.77.0.2"}, "long.host.example": {"127.77.0.3"}}

func dnsAttrs(r RDNS) map[string]bool {
	m := map[string]bool{}
	if len(r.Ver) == 0 {
		m["nodns"] = true
	} else {
		m["exists"] = true
	}
	if len(r.NoFwd) > 0 {
		m["noforward"] = true
	}
	if len(r.Incons) > 0 {
		m["inconsistent"] = true
	}
	if len(r.Ver) > 0 && len(r.NoFwd) == 0 && len(r.Incons) == 0 {
		m["good"] = true
	}
	return m
}

// listLines is the meaning of a pattern file.
func listLines(content string) []string {
	var out []string
	for _, l := range strings.Split(content, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] == '#' {
			continue
		}
		out = append(out, strings.ToLower(l))
	}
	return out
}

// sblRecords are the SBL records the TXT entries of a client name.
func (d *DNSData) sblRecords(ip string) []string {
	o := strings.Split(ip, ".")
	if len(o) != 4 {
		return nil
	}
	n := o[3] + "." + o[2] + "." + o[1] + "." + o[0] + "." + sblDomain
	if d.Fail["txt:"+n] {
		return nil
	}
	var out []string
	for _, t := range d.TXT[n] {
		p := strings.Split(t, "/")
		if last := p[len(p)-1]; len(p) > 1 && last != "" {
			out = append(out, last)
		}
	}
	sort.Strings(out)
	return out
}
