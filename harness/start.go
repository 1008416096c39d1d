package main

// Attempts to start a server (C28): combinations of options and of the state
// of the files and addresses they name, against an oracle that knows which
// combinations must be refused.

import (
	"fmt"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// StartSpec is an attempt to start a server.
type StartSpec struct {
	// Set: option name (without the dash) to value; a flag's value is "".
	Set map[string]string `json:"set"`
	// File states. SaveDir: "" a directory, missing, file. Others: ""
	// fine, missing, unreadable (a directory), noparent.
	SaveDir string            `json:"savedir,omitempty"`
	Logs    map[string]string `json:"logs,omitempty"` // option to state
	Rules   []*RuleFile       `json:"rules,omitempty"`
	Incs    []*RuleFile       `json:"incs,omitempty"` // included files
	Conn    *ConnCfg          `json:"conn,omitempty"`
	Lists   map[string]string `json:"lists,omitempty"` // pattern files and their text
	// Addrs to listen on; %P0% to %P3% are free ports, %Q% one in use.
	Addrs []string `json:"addrs"`
	// Old: what the save directory and the logs hold already.
	Old []string `json:"old,omitempty"`
	// Dashes: write options as --x=v instead of -x v.
	Dashes bool `json:"dashes,omitempty"`
}

func (s *StartSpec) has(o string) bool { _, ok := s.Set[o]; return ok }

func certListOK(c, k string) bool {
	cl, kl := strings.Split(c, ","), strings.Split(k, ",")
	if len(cl) != len(kl) {
		return false
	}
	for i := range cl {
		if cl[i] != kl[i] || (cl[i] != "sa" && cl[i] != "sb" && cl[i] != "sc") {
			return false
		}
	}
	return true
}

// refusals lists the reasons not to start.
func (s *StartSpec) refusals() []string {
	var why []string
	no := func(f string, a ...any) { why = append(why, fmt.Sprintf(f, a...)) }
	if s.Set["d"] == "" && !s.has("M") && !s.has("force-receive") {
		no("none of -d, -M and -force-receive")
	}
	if s.Set["d"] != "" && s.SaveDir != "" {
		no("-d %s", s.SaveDir)
	}
	if s.has("save-hash") {
		switch s.Set["save-hash"] {
		case "all", "full":
		case "msg":
			if s.Set["l"] == "" {
				no("-save-hash msg without -l")
			}
		default:
			no("-save-hash %q", s.Set["save-hash"])
		}
	}
	dn := s.has("dncount") && s.Set["dncount"] != "0"
	if dn {
		if s.Set["smtplog"] == "" {
			no("-dncount without -smtplog")
		}
		switch s.Set["dndur"] {
		case "0", "999ms", "1ms", "999999999ns", "-1h":
			no("-dncount with -dndur %s", s.Set["dndur"])
		}
	} else if s.Set["dnlog"] != "" {
		no("-dnlog without -dncount")
	}
	switch c, k := s.Set["c"], s.Set["k"]; {
	case c != "" && k == "", c == "" && k != "":
		no("-c and -k not together")
	case c != "" && !certListOK(c, k):
		no("certificates %s with keys %s", c, k)
	}
	if s.has("minphase") {
		switch s.Set["minphase"] {
		case "helo", "ehlo", "from", "to", "data", "message", "accepted":
		default:
			no("-minphase %q", s.Set["minphase"])
		}
	}
	for o, st := range s.Logs {
		if s.Set[o] != "" && s.Set[o] != "-" && st != "" {
			no("-%s %s", o, st)
		}
	}
	if s.Conn != nil && s.Conn.Bad != "" {
		no("-conncfg %s", s.Conn.Bad)
	}
	bad := map[string]string{}
	for _, f := range s.Incs {
		bad[f.Name] = f.Bad
	}
	for i := len(s.Incs) - 1; i >= 0; i-- {
		if b := includesBad(s.Incs[i], bad); b != "" && bad[s.Incs[i].Name] == "" {
			bad[s.Incs[i].Name] = b
		}
	}
	for _, f := range s.Rules {
		if f.Bad != "" {
			no("-r %s %s", f.Name, f.Bad)
		} else if b := includesBad(f, bad); b != "" {
			no("-r %s with a %s include", f.Name, b)
		}
	}
	for i, a := range s.Addrs {
		if strings.Contains(a, "%Q%") || a == "127.0.0.1" || strings.HasSuffix(a, ":99999") || strings.HasPrefix(a, "256.") {
			no("address %s", a)
		}
		for _, b := range s.Addrs[:i] {
			if a == b {
				no("address %s twice", a)
			}
		}
	}
	for o := range s.Set {
		if strings.HasPrefix(o, "frob") {
			no("unknown option")
		}
	}
	sort.Strings(why)
	return why
}

func includesBad(f *RuleFile, bad map[string]string) string {
	for _, it := range f.Items {
		if it.Include != "" && bad[it.Include] != "" {
			return bad[it.Include]
		}
	}
	return ""
}

func (s *StartSpec) args(ports []string) []string {
	var names []string
	for o := range s.Set {
		names = append(names, o)
	}
	sort.Strings(names)
	var a []string
	for _, o := range names {
		v := s.Set[o]
		switch o {
		case "M", "S", "force-receive", "nostdrules", "statsperip":
			a = append(a, "-"+o)
			continue
		case "c":
			v = certFilesOf(v, ".crt")
		case "k":
			v = certFilesOf(v, ".key")
		case "pprof":
			v = "127.0.0.1:" + ports[4]
		case "l", "smtplog", "dnlog":
			if v != "" && v != "-" && s.Logs[o] == "noparent" {
				v = "nodir/" + v
			}
		}
		if s.Dashes {
			a = append(a, "--"+o+"="+v)
		} else {
			a = append(a, "-"+o, v)
		}
	}
	for _, x := range s.Addrs {
		a = append(a, subPorts(x, ports))
	}
	return a
}

func certFilesOf(v, ext string) string {
	if v == "" {
		return ""
	}
	return certFiles(v, ext)
}

func subPorts(x string, ports []string) string {
	for i := 0; i < 4; i++ {
		x = strings.ReplaceAll(x, fmt.Sprintf("%%P%d%%", i), ports[i])
	}
	return strings.ReplaceAll(x, "%Q%", ports[5])
}

const oldText = "older contents\n"

func listTree(dir string) map[string]string {
	m := map[string]string{}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
		m[e.Name()] = string(b)
	}
	return m
}

func (e *Env) runStart(c *Case, st *Stats) ([]*Mismatch, error) {
	for try := 0; ; try++ {
		ms, again, err := e.runStart1(c, st)
		if !again || try > 20 {
			return ms, err
		}
	}
}

func (e *Env) runStart1(c *Case, st *Stats) (ms []*Mismatch, again bool, err error) {
	s := c.Start
	add := func(f string, a ...any) { ms = append(ms, mism("start", f, a...)) }
	e.nsrv++
	dir := filepath.Join(e.Work, fmt.Sprintf("t%d", e.nsrv))
	fail := func(err error) ([]*Mismatch, bool, error) { return nil, false, infraf("%v", err) }
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return fail(err)
	}
	if os.Getenv("VERIF_KEEP") == "" {
		defer os.RemoveAll(dir)
	}
	var werr error
	write := func(name, text string) {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(text), 0o644); err != nil {
			werr = err
		}
	}
	state := func(name, text, bad string) {
		switch bad {
		case "missing", "noparent":
		case "loop":
			if err := os.Symlink(name, filepath.Join(dir, name)); err != nil {
				werr = err
			}
		case "unreadable":
			if err := os.Mkdir(filepath.Join(dir, name), 0o755); err != nil {
				werr = err
			}
		default:
			write(name, text)
		}
	}
	var ports []string
	for i := 0; i < 5; i++ {
		ports = append(ports, itoa(e.nextPort()))
	}
	q, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return fail(err)
	}
	defer q.Close()
	ports = append(ports, itoa(q.Addr().(*net.TCPAddr).Port))
	save := filepath.Join(dir, dirSave)
	switch s.SaveDir {
	case "missing":
	case "file":
		write(dirSave, "")
	default:
		werr = os.Mkdir(save, 0o755)
		for i, o := range s.Old {
			write(dirSave+"/"+itoa(i)+o, o)
		}
	}
	logs := map[string]bool{}
	for _, o := range []string{"l", "smtplog", "dnlog"} {
		if v := s.Set[o]; v != "" && v != "-" && !logs[v] {
			logs[v] = true
			switch {
			case s.Logs[o] == "unreadable":
				state(v, "", "unreadable")
			case s.Logs[o] == "" && len(s.Old) > 0:
				write(v, oldText)
			}
		}
	}
	for _, f := range append(append([]*RuleFile{}, s.Rules...), s.Incs...) {
		state(f.Name, bytesOf(f.Text), f.Bad2())
	}
	if s.Conn != nil {
		t := strings.ReplaceAll(s.Conn.Text, "%CERTS%", certDir)
		t = strings.ReplaceAll(t, "%PORT%", ports[0])
		state(fileConnCfg, t, s.Conn.Bad)
	}
	for n, t := range s.Lists {
		write(n, t)
	}
	if werr != nil {
		return fail(werr)
	}
	before := listTree(save)
	why := s.refusals()
	args := s.args(ports)
	cmd := exec.Command(e.Bin, args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "TZ=UTC", "VERIF_DNS=" + e.DNS.addr(),
		"VERIF_HOSTS=" + filepath.Join(dir, "hosts"), "SSL_CERT_FILE=" + certPath("ca"), "SSL_CERT_DIR=/nonexistent", "GOMAXPROCS=" + itoa(sutProcs)}
	so, err := os.Create(filepath.Join(dir, "stdout"))
	if err != nil {
		return fail(err)
	}
	defer so.Close()
	se, err := os.Create(filepath.Join(dir, "stderr"))
	if err != nil {
		return fail(err)
	}
	defer se.Close()
	cmd.Stdout, cmd.Stderr = so, se
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return fail(err)
	}
	done := make(chan struct{})
	go func() { _ = cmd.Wait(); close(done) }()
	dead := false
	stop := func() {
		if !dead {
			_ = cmd.Process.Kill()
			<-done
			dead = true
		}
	}
	defer stop()
	errText := func() string {
		b, _ := os.ReadFile(filepath.Join(dir, "stderr"))
		return string(tail(b, 800))
	}
	shown := strings.ReplaceAll(strings.Join(args, " "), certDir, "%CERTS%")
	inUse := func() bool { return strings.Contains(errText(), "address already in use") }
	addrWhy := false
	for _, w := range why {
		addrWhy = addrWhy || strings.HasPrefix(w, "address")
	}

	if len(why) > 0 {
		st.class("must refuse")
		for _, w := range why {
			st.class("refuse: " + strings.Join(strings.Fields(w)[:min(2, len(strings.Fields(w)))], " "))
		}
		st.Decided++
		deadline := time.Now().Add(20 * time.Second)
		for !dead {
			select {
			case <-done:
				dead = true
				continue
			case <-time.After(4 * time.Millisecond):
			}
			if !addrWhy {
				// does it serve all the same?
				for _, a := range s.Addrs {
					if ok, _ := banner(target(subPorts(a, ports))); ok {
						add("%s: starts and serves %s, must refuse: %s", shown, a, strings.Join(why, ", "))
						return ms, false, nil
					}
				}
			}
			if time.Now().After(deadline) {
				add("%s: neither serves nor exits; must refuse: %s", shown, strings.Join(why, ", "))
				return ms, false, nil
			}
		}
		if code := cmd.ProcessState.ExitCode(); code == 0 {
			add("%s: exits with status 0; must refuse: %s", shown, strings.Join(why, ", "))
		} else if code != 1 && code != 2 || strings.Contains(errText(), "goroutine ") {
			ms = append(ms, mism("crash", "%s: exit %d: %s", shown, code, errText()))
		} else if strings.TrimSpace(errText()) == "" {
			add("%s: refuses without saying why (must: %s)", shown, strings.Join(why, ", "))
		}
		if inUse() && !addrWhy && len(ms) > 0 {
			return nil, true, nil
		}
	} else {
		st.class("must start")
		deadline := time.Now().Add(20 * time.Second)
		for _, a := range s.Addrs {
			for {
				ok, berr := banner(target(subPorts(a, ports)))
				if ok {
					break
				}
				select {
				case <-done:
					dead = true
					if inUse() {
						return nil, true, nil
					}
					add("%s: exits with %v, must start: %s", shown, cmd.ProcessState, errText())
					return ms, false, nil
				case <-time.After(time.Millisecond):
				}
				if time.Now().After(deadline) {
					add("%s: %s is not served: %v", shown, a, berr)
					return ms, false, nil
				}
			}
			st.class("address served")
		}
		if s.has("pprof") {
			for {
				r, err := (&http.Client{Timeout: 5 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}).Get("http://127.0.0.1:" + ports[4] + "/debug/vars")
				if err == nil {
					r.Body.Close()
					if r.StatusCode != 200 {
						add("%s: /debug/vars gives %s", shown, r.Status)
					}
					break
				}
				if time.Now().After(deadline) {
					add("%s: -pprof address is not served: %v", shown, err)
					return ms, false, nil
				}
				time.Sleep(time.Millisecond)
			}
		}
		for _, o := range []string{"smtplog"} {
			if s.Set[o] == "-" {
				b, _ := os.ReadFile(filepath.Join(dir, "stdout"))
				if !s.has("dncount") && !strings.Contains(string(b), "# remote ") {
					add("%s: nothing on standard output", shown)
				}
			}
		}
		stop()
	}
	after := listTree(save)
	for n, t := range before {
		if a, ok := after[n]; !ok || a != t {
			add("%s: file %s in the save directory was changed or removed", shown, n)
		}
	}
	for n := range after {
		if _, ok := before[n]; !ok {
			add("%s: stray file %s in the save directory", shown, n)
		}
	}
	if len(s.Old) > 0 {
		for o, v := range s.Set {
			if (o == "l" || o == "smtplog" || o == "dnlog") && v != "" && v != "-" && s.Logs[o] == "" {
				b, _ := os.ReadFile(filepath.Join(dir, v))
				if !strings.HasPrefix(string(b), oldText) {
					add("%s: the older contents of -%s are gone", shown, o)
				}
			}
		}
	}
	return ms, false, nil
}

// target turns an address to listen on into one to connect to.
func target(a string) string {
	h, p, err := net.SplitHostPort(a)
	if err != nil {
		return ""
	}
	if h == "" || h == "0.0.0.0" {
		h = "127.0.0.3"
	}
	return net.JoinHostPort(h, p)
}

// banner: a server answers at that address.
func banner(a string) (bool, error) {
	if a == "" {
		return false, fmt.Errorf("bad address")
	}
	c, err := net.DialTimeout("tcp", a, 5*time.Second)
	if err != nil {
		return false, err
	}
	defer c.Close()
	_ = c.SetDeadline(time.Now().Add(10 * time.Second))
	buf := make([]byte, 512)
	n, err := c.Read(buf)
	if err != nil || !strings.HasPrefix(string(buf[:n]), "220") {
		return false, fmt.Errorf("%q %v", buf[:n], err)
	}
	_, _ = c.Write([]byte("QUIT\r\n"))
	for {
		if _, err := c.Read(buf); err != nil {
			break
		}
	}
	return true, nil
}

func init() {
	props = append(props, &Prop{ID: "C28", Gen: genC28, Own: []string{"start"}, QuickCases: 8000,
		NonTrivial: func(c *Case, st *Stats) bool { return true },
		Rule:       "combinations of every option, good and bad values, and states of the files, directories and addresses they name; about half must start (every address and the -pprof server must answer), the others must refuse for one or more known reasons; every distinct combination counts"})
}

func genC28(g *G) *Case {
	s := &StartSpec{Set: map[string]string{}, Logs: map[string]string{}, Lists: map[string]string{}}
	set := func(o, v string) { s.Set[o] = v }
	// a good combination first
	switch g.w(8, 3, 3, 2) {
	case 0:
		set("d", dirSave)
	case 1:
		set("M", "")
	case 2:
		set("force-receive", "")
	default:
		set("d", dirSave)
		set(pick(g, []string{"M", "force-receive"}), "")
	}
	if g.p(40) {
		set("l", pick(g, []string{logMsg, logMsg, "-"}))
	}
	if g.p(45) {
		set("smtplog", pick(g, []string{logSMTP, logSMTP, "-"}))
		if g.p(50) {
			set("dncount", pick(g, []string{"1", "5", "0"}))
			if g.p(50) {
				set("dndur", pick(g, []string{"1s", "1h", "1000ms", "72h"}))
			}
			if s.Set["dncount"] != "0" && g.p(40) {
				set("dnlog", pick(g, []string{logDn, logDn, "-"}))
			}
		} else if g.p(10) {
			// nothing it would apply to
			set("dndur", pick(g, []string{"0", "999ms", "1h"}))
		}
	}
	if g.p(30) {
		v := pick(g, []string{"all", "full", "msg"})
		if v == "msg" && s.Set["l"] == "" {
			set("l", logMsg)
		}
		set("save-hash", v)
	}
	if g.p(30) {
		v := pick(g, []string{"sa", "sb", "sa,sb", "sc,sa,sb"})
		set("c", v)
		set("k", v)
	}
	if g.p(25) {
		set("minphase", pick(g, []string{"helo", "ehlo", "from", "to", "data", "message", "accepted"}))
	}
	for _, o := range []string{"nostdrules", "statsperip"} {
		if g.p(20) {
			set(o, "")
		}
	}
	if g.p(15) {
		set("helo", "n.example")
	}
	if g.p(15) {
		set("pprof", "x")
	}
	for _, o := range []string{"fromreject", "toaccept", "heloreject"} {
		if g.p(12) {
			f := map[string]string{"fromreject": fileFromReject, "toaccept": fileToAccept, "heloreject": fileHeloReject}[o]
			set(o, f)
			if g.p(50) {
				s.Lists[f] = pick(g, []string{"", "# x\n", "u@a.com\n", "a.com"})
			}
		}
	}
	k := baseKnobs()
	k.MaxRules = 3
	if g.p(50) {
		n := 1 + g.n(3)
		var names []string
		inc := g.p(40)
		if inc {
			for i := 1; i >= 0; i-- {
				var items []Item
				if g.p(70) {
					items = append(items, Item{Rule: g.rule(&k)})
				}
				if i == 0 && g.p(50) {
					items = append(items, Item{Include: "i1"})
				}
				noConnectReject(items)
				s.Incs = append([]*RuleFile{g.addRuleFile("i"+itoa(i), items, &k)}, s.Incs...)
			}
		}
		for i := 0; i < n; i++ {
			var items []Item
			for j := g.n(3); j > 0; j-- {
				items = append(items, Item{Rule: g.rule(&k)})
			}
			if inc && g.p(50) {
				items = append(items, Item{Include: pick(g, []string{"i0", "i1"})})
			}
			noConnectReject(items)
			s.Rules = append(s.Rules, g.addRuleFile(ruleFileName(i), items, &k))
			names = append(names, ruleFileName(i))
		}
		set("r", strings.Join(names, ","))
	}
	if g.p(30) {
		cc := g.connCfg()
		if cc.Bad == "" {
			s.Conn = cc
			set("conncfg", fileConnCfg)
		}
	}
	hosts := []string{"127.0.0.1", "127.1.0.1", "127.0.0.2", "127.0.0.1"}
	if g.p(25) {
		hosts[0] = ""
	}
	if g.p(15) {
		hosts[1] = "0.0.0.0"
	}
	if g.v6 && g.p(20) {
		hosts[2] = "[::1]"
	}
	for i := 1 + g.w(5, 3, 2, 1); i > 0; i-- {
		s.Addrs = append(s.Addrs, fmt.Sprintf("%s:%%P%d%%", hosts[len(s.Addrs)], len(s.Addrs)))
	}
	if len(s.Addrs) > 1 && g.p(20) {
		// the same port on another address
		if strings.HasPrefix(s.Addrs[0], "127.0.0.1:") {
			s.Addrs[1] = "127.3.3.3:%P0%"
		}
	}
	if g.p(30) {
		s.Old = []string{"x", "y\n"}[:1+g.n(2)]
	}
	s.Dashes = g.p(20)
	// then spoil it
	for n := g.w(9, 8, 2, 1); n > 0; n-- {
		g.spoil(s, &k)
	}
	g.ops = nil
	return &Case{Start: s}
}

func (g *G) spoil(s *StartSpec, k *Knobs) {
	set := func(o, v string) { s.Set[o] = v }
	del := func(o ...string) {
		for _, x := range o {
			delete(s.Set, x)
		}
	}
	switch g.n(17) {
	case 0:
		del("d", "M", "force-receive")
		if g.p(30) {
			set("d", "")
		}
	case 1:
		set("d", dirSave)
		s.SaveDir = pick(g, []string{"missing", "file"})
	case 2:
		set("save-hash", pick(g, []string{"", "ALL", "mesg", "body", "full ", "msg,all", "hash", "none"}))
	case 3:
		set("save-hash", "msg")
		del("l")
		if g.p(50) && !s.has("smtplog") {
			set("smtplog", logSMTP)
		}
	case 4:
		set("dncount", pick(g, []string{"1", "2", "100"}))
		del("smtplog")
	case 5:
		set("dncount", pick(g, []string{"1", "3"}))
		set("smtplog", logSMTP)
		set("dndur", pick(g, []string{"0", "999ms", "1ms", "999999999ns", "-1h"}))
	case 6:
		set("dnlog", logDn)
		if g.p(50) {
			set("dncount", "0")
		} else {
			del("dncount")
		}
	case 7:
		v := pick(g, []string{"sa", "sa,sb"})
		if g.p(50) {
			set("c", v)
			del("k")
		} else {
			set("k", v)
			del("c")
		}
	case 8:
		p := pick(g, [][2]string{{"sa", "sb"}, {"sa,sb", "sa"}, {"sa", "sa,sb"}, {"nope", "nope"}, {"sa,nope", "sa,nope"}, {"sa,sb", "sb,sa"}, {"sa", "nope"}, {"nope,sa", "nope,sa"}, {"sa,sb,sc", "sa,sb,sa"}})
		set("c", p[0])
		set("k", p[1])
	case 9:
		set("minphase", pick(g, []string{"", "HELO", "connect", "mail", "rcpt", "rset", "quit", "accept", "all", "dat", "messages"}))
	case 10:
		o := pick(g, []string{"l", "smtplog", "dnlog"})
		set(o, map[string]string{"l": logMsg, "smtplog": logSMTP, "dnlog": logDn}[o])
		if o == "dnlog" {
			set("dncount", "2")
			if s.Set["smtplog"] == "" {
				set("smtplog", logSMTP)
			}
		}
		s.Logs[o] = pick(g, []string{"unreadable", "noparent"})
	case 11, 12, 13:
		var items []Item
		for j := g.n(3); j > 0; j-- {
			items = append(items, Item{Rule: g.rule(k)})
		}
		noConnectReject(items)
		if len(s.Rules) == 0 || g.p(30) {
			n := ruleFileName(len(s.Rules))
			s.Rules = append(s.Rules, g.breakFile(n, items))
		} else if len(s.Incs) > 0 && g.p(50) {
			i := g.n(len(s.Incs))
			s.Incs[i] = g.breakFile(s.Incs[i].Name, items)
		} else {
			i := g.n(len(s.Rules))
			s.Rules[i] = g.breakFile(s.Rules[i].Name, items)
		}
		var names []string
		for _, f := range s.Rules {
			names = append(names, f.Name)
		}
		set("r", strings.Join(names, ","))
	case 14:
		cc := g.connCfg()
		for i := 0; i < 6 && cc.Bad == ""; i++ {
			cc = g.connCfg()
		}
		s.Conn = cc
		set("conncfg", fileConnCfg)
	case 15:
		i := g.n(len(s.Addrs))
		a := pick(g, []string{"127.0.0.1:%Q%", "127.0.0.1", "127.0.0.1:99999", "256.1.1.1:%P3%", s.Addrs[0]})
		if a == s.Addrs[0] || g.p(50) {
			s.Addrs = append(s.Addrs, a)
		} else {
			s.Addrs[i] = a
		}
	case 16:
		set("frob", "1")
	}
}
