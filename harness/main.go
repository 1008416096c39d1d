package main

// The driver.
//
//	harness run   -prop C01 -tier quick -seed 1 ...   (parent: spawns shards)
//	harness shard -prop C01 ...                       (one search process)
//	harness replay -file F ...                        (re-run a replay file)

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Replay is a replay file.
type Replay struct {
	Property string   `json:"property"`
	Seed     int64    `json:"seed"`
	Category string   `json:"category"`
	What     []string `json:"what"`
	Note     string   `json:"note,omitempty"`
	// Cases run one after another on one fresh server; the last one fails.
	Cases []*Case `json:"cases"`
	// Times the last case may have to be repeated (concurrency).
	Repeat int `json:"repeat,omitempty"`
}

// Result is what a shard reports.
type Result struct {
	Cases     int            `json:"cases"`
	Hashes    []uint64       `json:"hashes"` // distinct non-trivial cases
	Classes   map[string]int `json:"classes"`
	Samples   []string       `json:"samples"`
	Foreign   map[string]int `json:"foreign"` // mismatches owned by other properties
	ForeignEx []string       `json:"foreignex"`
	Slow      int            `json:"slow"`
	Unrepro   []string       `json:"unrepro"` // not reproducible, hence not reported
	Infra     []string       `json:"infra"`
	Violation *Replay        `json:"violation"`
	Regress   int            `json:"regress"`
	WallS     float64        `json:"wall_s"`
	TimedOut  bool           `json:"timed_out"`
}

type cfg struct {
	prop, tier, bin, raceBin, work, verif string
	seed                                  int64
	shard, shards                         int
	secs                                  float64
	cases                                 int
	file                                  string
	out                                   string
}

func parse(args []string) *cfg {
	var c cfg
	fs := flag.NewFlagSet("harness", flag.ExitOnError)
	fs.StringVar(&c.prop, "prop", "", "")
	fs.StringVar(&c.tier, "tier", "quick", "")
	fs.StringVar(&c.bin, "bin", "", "")
	fs.StringVar(&c.raceBin, "racebin", "", "")
	fs.StringVar(&c.work, "work", "", "")
	fs.StringVar(&c.verif, "verif", "/verif", "")
	fs.Int64Var(&c.seed, "seed", 1, "")
	fs.IntVar(&c.shard, "shard", 0, "")
	fs.IntVar(&c.shards, "shards", 8, "")
	fs.Float64Var(&c.secs, "secs", 0, "")
	fs.IntVar(&c.cases, "cases", 0, "")
	fs.StringVar(&c.file, "file", "", "")
	fs.StringVar(&c.out, "out", "", "")
	_ = fs.Parse(args)
	return &c
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness run|shard|replay ...")
		os.Exit(2)
	}
	testing.Init()
	_ = flag.CommandLine.Parse(nil)
	c := parse(os.Args[2:])
	certDir = filepath.Join(c.work, "certs")
	switch os.Args[1] {
	case "run":
		os.Exit(c.run())
	case "shard":
		os.Exit(c.runShard())
	case "replay":
		os.Exit(c.replay())
	}
	os.Exit(2)
}

// ---- the shard

// fakeTB lets rapid run outside a test binary.
type fakeTB struct {
	name   string
	failed bool
	log    []string
}

func (f *fakeTB) Helper()                 {}
func (f *fakeTB) Name() string            { return f.name }
func (f *fakeTB) Logf(s string, a ...any) { f.log = append(f.log, fmt.Sprintf(s, a...)) }
func (f *fakeTB) Log(a ...any)            { f.log = append(f.log, fmt.Sprint(a...)) }
func (f *fakeTB) Skipf(string, ...any)    { runtime.Goexit() }
func (f *fakeTB) Skip(...any)             { runtime.Goexit() }
func (f *fakeTB) SkipNow()                { runtime.Goexit() }
func (f *fakeTB) Errorf(s string, a ...any) {
	f.failed = true
	f.log = append(f.log, fmt.Sprintf(s, a...))
}
func (f *fakeTB) Error(a ...any)            { f.failed = true }
func (f *fakeTB) Fatalf(s string, a ...any) { f.Errorf(s, a...); runtime.Goexit() }
func (f *fakeTB) Fatal(a ...any)            { f.failed = true; runtime.Goexit() }
func (f *fakeTB) FailNow()                  { f.failed = true; runtime.Goexit() }
func (f *fakeTB) Fail()                     { f.failed = true }
func (f *fakeTB) Failed() bool              { return f.failed }

// mix is splitmix64.
func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

type shard struct {
	c    *cfg
	p    *Prop
	env  *Env
	res  *Result
	seen map[uint64]bool
	cand *candidate
	stop bool
	end  time.Time
	// shrinkEnd bounds the time spent minimising
	shrinkEnd time.Time
}

type candidate struct {
	c    *Case
	ms   []*Mismatch
	past []*Case
}

func (p *Prop) owned(ms []*Mismatch) (own, foreign []*Mismatch) {
	for _, m := range ms {
		ok := m.Cat == "crash" || m.Cat == "start" || m.Cat == "hang" || m.Cat == "race"
		for _, o := range p.Own {
			if m.Cat == o || strings.HasSuffix(o, ".") && strings.HasPrefix(m.Cat, o) {
				ok = true
			}
		}
		if ok {
			own = append(own, m)
		} else {
			foreign = append(foreign, m)
		}
	}
	return
}

func strs(ms []*Mismatch) []string {
	var l []string
	for _, m := range ms {
		l = append(l, m.String())
	}
	return l
}

func hashCase(c *Case) uint64 {
	h := sha256.Sum256([]byte(c.JSON()))
	return binary.LittleEndian.Uint64(h[:])
}

// try runs a case and returns the mismatches this property owns.
func (s *shard) try(c *Case, count bool) []*Mismatch {
	st := &Stats{}
	ms, err := s.env.RunCase(c, st, false)
	if err == errSlow {
		s.res.Slow++
		return nil
	}
	if err != nil {
		s.res.Infra = append(s.res.Infra, err.Error())
		if len(s.res.Infra) > 20 {
			s.stop = true
		}
		return nil
	}
	own, foreign := s.p.owned(ms)
	if count {
		s.res.Cases++
		for k, v := range st.Classes {
			s.res.Classes[k] += v
		}
		if s.p.NonTrivial(c, st) {
			h := hashCase(c)
			if !s.seen[h] {
				s.seen[h] = true
				if len(s.res.Samples) < 2 && len(s.seen)%7 == 3 {
					s.res.Samples = append(s.res.Samples, c.JSON())
				}
			}
		}
		for _, m := range foreign {
			s.res.Foreign[m.Cat]++
			if len(s.res.ForeignEx) < 5 {
				s.res.ForeignEx = append(s.res.ForeignEx, m.String()+" CASE "+c.JSON())
			}
		}
	}
	return own
}

func (s *shard) batch(seed uint64, n int) {
	if seed == 0 {
		seed = 1
	}
	_ = flag.Set("rapid.checks", itoa(n))
	_ = flag.Set("rapid.seed", fmt.Sprint(seed))
	_ = flag.Set("rapid.nofailfile", "true")
	_ = flag.Set("rapid.shrinktime", "20s")
	tb := &fakeTB{name: "verif"}
	s.cand = nil
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(tb, func(t *rapid.T) {
			shrinking := s.cand != nil
			if s.stop || !shrinking && time.Now().After(s.end) || shrinking && time.Now().After(s.shrinkEnd) {
				return
			}
			g := newG(t, s.env.HaveV6)
			g.drawScale(s.p.ID)
			c := s.p.Gen(g)
			own := s.try(c, !shrinking)
			if len(own) == 0 {
				return
			}
			if !shrinking {
				s.shrinkEnd = time.Now().Add(20 * time.Second)
			}
			s.cand = &candidate{c, own, s.env.lastPast}
			if s.env.lateCase != nil {
				s.cand.c = s.env.lateCase
			}
			if own[0].Cat == "hang" || s.p.NoShrink {
				// minimising would take for ever
				s.shrinkEnd = time.Now()
			}
			t.Fatalf("%v", own[0])
		})
	}()
	<-done
	if len(tb.log) > 0 && s.cand == nil && tb.failed {
		s.res.Infra = append(s.res.Infra, "rapid: "+strings.Join(tb.log, "; "))
	}
}

// confirm re-runs a failing case on fresh servers.
func (s *shard) confirm(cd *candidate) *Replay {
	mk := func(cases []*Case, ms []*Mismatch, note string, rep int) *Replay {
		return &Replay{Property: s.p.ID, Seed: s.c.seed, Category: ms[0].Cat, What: strs(ms), Cases: cases, Note: note, Repeat: rep}
	}
	times := 2
	if s.p.Concurrent {
		times = 40
	}
	for i := 0; i < times; i++ {
		ms, err := s.env.RunCase(cd.c, &Stats{}, true)
		if err != nil {
			continue
		}
		if own, _ := s.p.owned(ms); len(own) > 0 {
			return mk([]*Case{cd.c}, own, "", times)
		}
	}
	if cd.ms[0].Cat == "race" {
		// The race detector's report is proof enough.
		return mk([]*Case{cd.c}, cd.ms, "reported by the race detector during the search; may need many repetitions", 200)
	}
	// Perhaps it needs what the server did before.
	if len(cd.past) > 1 {
		rp := mk(cd.past, cd.ms, "needs the preceding cases on the same server", 1)
		for i := 0; i < 2; i++ {
			if own := s.runAll(rp); len(own) > 0 {
				rp.What, rp.Category = strs(own), own[0].Cat
				// drop what is not needed, coarsely
				for _, keep := range []int{2, 4, 8, 16, 32, 64} {
					if keep < len(rp.Cases) {
						r2 := *rp
						r2.Cases = rp.Cases[len(rp.Cases)-keep:]
						if own := s.runAll(&r2); len(own) > 0 {
							return &r2
						}
					}
				}
				return rp
			}
		}
	}
	return nil
}

// runAll runs a replay's cases on one fresh server.
func (s *shard) runAll(rp *Replay) []*Mismatch {
	last := rp.Cases[len(rp.Cases)-1]
	if len(rp.Cases) == 1 {
		for i := 0; i < max(1, rp.Repeat); i++ {
			ms, err := s.env.RunCase(last, &Stats{}, true)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				continue
			}
			if own, _ := s.p.owned(ms); len(own) > 0 {
				return own
			}
		}
		return nil
	}
	srv, err := s.env.Start(last.Opt)
	if err != nil {
		return nil
	}
	defer srv.Kill()
	for i, c := range rp.Cases {
		ms, err := s.env.runOn(srv, c, &Stats{})
		if err != nil {
			return nil
		}
		if own, _ := s.p.owned(ms); len(own) > 0 {
			if i < len(rp.Cases)-1 {
				rp.Cases = rp.Cases[:i+1]
			}
			return own
		}
		if !srv.Alive() {
			return nil
		}
	}
	return nil
}

func (c *cfg) newShard() (*shard, error) {
	p := propByID(c.prop)
	if p == nil {
		return nil, fmt.Errorf("no property %s", c.prop)
	}
	work := filepath.Join(c.work, fmt.Sprintf("w%d", c.shard))
	if err := os.MkdirAll(work, 0o755); err != nil {
		return nil, err
	}
	env, err := newEnv(work, c.bin, c.raceBin, c.shard)
	if err != nil {
		return nil, err
	}
	if p.Race && c.raceBin != "" && c.shard%2 == 1 {
		env.raceAlso = true
	}
	env.Prop = p
	return &shard{c: c, p: p, env: env, seen: map[uint64]bool{}, res: &Result{Classes: map[string]int{}, Foreign: map[string]int{}}}, nil
}

func (c *cfg) runShard() int {
	debug.SetGCPercent(200)
	runtime.GOMAXPROCS(4)
	start := time.Now()
	s, err := c.newShard()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	s.end = start.Add(time.Duration(c.secs * float64(time.Second)))
	// regression cases first
	if ents, err := filepath.Glob(filepath.Join(c.verif, "regress", c.prop, "*.json")); err == nil {
		sort.Strings(ents)
		for i, f := range ents {
			if i%c.shards != c.shard {
				continue
			}
			rp, err := readReplay(f)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			s.res.Regress++
			if own := s.runAll(rp); len(own) > 0 {
				again := s.confirm(&candidate{rp.Cases[len(rp.Cases)-1], own, rp.Cases})
				if again == nil {
					s.res.Unrepro = append(s.res.Unrepro, "regression case "+filepath.Base(f)+": "+strings.Join(strs(own), "; "))
					continue
				}
				again.Note = "regression case " + filepath.Base(f)
				s.res.Violation = again
				break
			}
		}
	}
	for b := uint64(0); s.res.Violation == nil && s.res.Cases < c.cases && time.Now().Before(s.end) && !s.stop; b++ {
		before := s.res.Cases
		s.batch(mix(uint64(c.seed)*1000003+uint64(c.shard)*7919+b*104729+sumStr(c.prop)), min(60, c.cases-s.res.Cases))
		if s.cand != nil {
			cd := s.cand
			if rp := s.confirm(cd); rp != nil {
				s.res.Violation = rp
				break
			}
			s.res.Unrepro = append(s.res.Unrepro, strings.Join(strs(cd.ms), "; ")+" CASE "+cd.c.JSON())
			if len(s.res.Unrepro) > 5 {
				break
			}
		}
		if s.res.Cases == before && len(s.res.Infra) > 5 {
			break
		}
	}
	s.res.TimedOut = s.res.Cases < c.cases
	s.env.Close()
	for h := range s.seen {
		s.res.Hashes = append(s.res.Hashes, h)
	}
	s.res.WallS = time.Since(start).Seconds()
	b, err := json.Marshal(s.res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if err := os.WriteFile(c.out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

func sumStr(s string) uint64 {
	h := sha256.Sum256([]byte(s))
	return binary.LittleEndian.Uint64(h[:])
}

func readReplay(f string) (*Replay, error) {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil, err
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		return nil, fmt.Errorf("%s: %v", f, err)
	}
	if len(rp.Cases) == 0 {
		return nil, fmt.Errorf("%s: no cases", f)
	}
	return &rp, nil
}

func (c *cfg) replay() int {
	if err := makeCerts(certDir); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rp, err := readReplay(c.file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if c.prop == "" {
		c.prop = rp.Property
	}
	s, err := c.newShard()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	own := s.runAll(rp)
	s.env.Close()
	if len(own) == 0 {
		fmt.Println("not reproduced: the property holds on this case")
		return 0
	}
	for _, m := range own {
		fmt.Println(m)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, c.file)
	return 1
}

// ---- the parent

// quickCases: about twenty seconds' worth on eight cores, for the properties
// whose cases are costly.
var quickCases = map[string]int{
	"C01": 20000, "C12": 18000, "C15": 10000, "C18": 6000, "C19": 8000, "C20": 15000, "C21": 8000, "C22": 6500, "C23": 10000,
	"C24": 16000, "C25": 20000, "C26": 4500, "C27": 17000, "C29": 3500, "C30": 9000, "C31": 4500,
}

func (c *cfg) run() int {
	start := time.Now()
	p := propByID(c.prop)
	if p == nil {
		fmt.Fprintln(os.Stderr, "no property", c.prop)
		return 2
	}
	secs, cases := p.QuickSecs, p.QuickCases
	if secs == 0 {
		// A safety net: the number of cases is meant to be the bound.
		secs = 100
	}
	if cases == 0 {
		cases = quickCases[p.ID]
	}
	if cases == 0 {
		cases = 24000
	}
	if c.tier == "thorough" {
		secs, cases = 300, cases*40
		if p.ThoroughSecs > 0 {
			secs = p.ThoroughSecs
		}
	}
	if c.secs > 0 {
		secs = c.secs
	}
	if c.cases > 0 {
		cases = c.cases
	}
	per := (cases + c.shards - 1) / c.shards
	if err := makeCerts(certDir); err != nil {
		fmt.Fprintln(os.Stderr, "certificates:", err)
		return 2
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	type outc struct {
		i   int
		err error
	}
	ch := make(chan outc, c.shards)
	var cmds []*exec.Cmd
	var mu sync.Mutex
	for i := 0; i < c.shards; i++ {
		cmd := exec.Command(self, "shard", "-prop", c.prop, "-tier", c.tier, "-bin", c.bin, "-racebin", c.raceBin, "-work", c.work,
			"-verif", c.verif, "-seed", fmt.Sprint(c.seed), "-shard", itoa(i), "-shards", itoa(c.shards), "-secs", fmt.Sprint(secs),
			"-cases", itoa(per), "-out", filepath.Join(c.work, fmt.Sprintf("res%d.json", i)))
		cmd.Dir = c.work
		cmd.Stdout, cmd.Stderr = os.Stderr, os.Stderr
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		cmds = append(cmds, cmd)
		go func() { ch <- outc{i, cmd.Wait()} }()
	}
	hard := time.After(time.Duration(secs+400) * time.Second)
	results := make([]*Result, c.shards)
	var viol *Replay
	bad := 0
	for n := 0; n < c.shards; {
		select {
		case o := <-ch:
			n++
			b, err := os.ReadFile(filepath.Join(c.work, fmt.Sprintf("res%d.json", o.i)))
			if err != nil {
				if viol == nil {
					fmt.Fprintf(os.Stderr, "shard %d: %v, %v\n", o.i, o.err, err)
					bad++
				}
				continue
			}
			var r Result
			if err := json.Unmarshal(b, &r); err != nil {
				fmt.Fprintln(os.Stderr, err)
				bad++
				continue
			}
			results[o.i] = &r
			if r.Violation != nil && viol == nil {
				viol = r.Violation
				mu.Lock()
				// give the others a moment to report, then stop them
				go func() {
					time.Sleep(1500 * time.Millisecond)
					for _, cmd := range cmds {
						_ = cmd.Process.Kill()
					}
				}()
				mu.Unlock()
			}
		case <-hard:
			for _, cmd := range cmds {
				_ = cmd.Process.Kill()
			}
			fmt.Fprintln(os.Stderr, "shards did not finish")
			bad++
			n = c.shards
		}
	}
	tot := &Result{Classes: map[string]int{}, Foreign: map[string]int{}}
	hs := map[uint64]bool{}
	for _, r := range results {
		if r == nil {
			continue
		}
		tot.Cases += r.Cases
		tot.Regress += r.Regress
		for _, h := range r.Hashes {
			hs[h] = true
		}
		for k, v := range r.Classes {
			tot.Classes[k] += v
		}
		for k, v := range r.Foreign {
			tot.Foreign[k] += v
		}
		tot.ForeignEx = append(tot.ForeignEx, r.ForeignEx...)
		tot.Samples = append(tot.Samples, r.Samples...)
		tot.Slow += r.Slow
		tot.Unrepro = append(tot.Unrepro, r.Unrepro...)
		tot.Infra = append(tot.Infra, r.Infra...)
	}
	for _, x := range tot.Unrepro {
		fmt.Fprintln(os.Stderr, "not reproducible, not reported:", x)
	}
	for i, x := range tot.Infra {
		if i < 5 {
			fmt.Fprintln(os.Stderr, x)
		}
	}
	for i, x := range tot.ForeignEx {
		if i < 3 {
			fmt.Fprintln(os.Stderr, "another property's business:", x)
		}
	}
	nviol := 0
	if viol != nil {
		nviol = 1
	}
	var samples []any
	for i, x := range tot.Samples {
		if i >= 3 {
			break
		}
		if len(x) > 6000 {
			x = x[:6000] + "..."
		}
		var v any
		if json.Unmarshal([]byte(x), &v) == nil {
			samples = append(samples, v)
		} else {
			samples = append(samples, x)
		}
	}
	if samples == nil {
		samples = []any{"none: the run ended before a sample was taken"}
	}
	level := "exploration"
	if p.Level != "" {
		level = p.Level
	}
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": level, "wall_s": time.Since(start).Seconds(), "violations": nviol,
		"coverage": map[string]any{
			"evaluations": tot.Cases, "distinct_nontrivial": len(hs), "rule": p.Rule, "samples": samples,
			"classes": tot.Classes, "regression_cases": tot.Regress, "other_properties_mismatches": tot.Foreign,
			"not_judged_too_slow": tot.Slow, "not_reproducible": len(tot.Unrepro), "harness_errors": len(tot.Infra), "shards": c.shards,
		},
		"assumptions": []string{
			"the SMTP protocol engine (siebenmann/smtpd, not available offline) is a stand-in written from the calls sinksmtp makes",
			"DNS, the clock and file faults are supplied by the harness through a build overlay",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755); err == nil {
		err = os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d cases, %d distinct non-trivial, %.1f s\n", c.prop, tot.Cases, len(hs), time.Since(start).Seconds())
	if viol != nil {
		dir := filepath.Join(c.verif, "replays")
		_ = os.MkdirAll(dir, 0o755)
		rb, _ := json.MarshalIndent(viol, "", " ")
		h := sha256.Sum256(rb)
		f := filepath.Join(dir, fmt.Sprintf("%s-%x.json", c.prop, h[:5]))
		if err := os.WriteFile(f, append(rb, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		for _, w := range viol.What {
			fmt.Println(w)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, f)
		return 1
	}
	if bad > 0 || tot.Cases == 0 || len(tot.Infra) > 20+tot.Cases/20 {
		fmt.Fprintln(os.Stderr, "the harness failed; nothing can be said")
		return 2
	}
	return 0
}
