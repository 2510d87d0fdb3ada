//go:build go1.22

package hx

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/acronis/go-raml/v2/zzsim/simrt"
)

// proc is a worker process.
type proc struct {
	cmd    *exec.Cmd
	in     *json.Encoder
	inw    interface{ Close() error }
	out    *bufio.Reader
	errb   *capBuf
	cases  int
	seeds  []uint64
	killed atomic.Bool
	at     *Spec
	cs     *Case
}

// capBuf keeps the beginning of a stream.
type capBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (c *capBuf) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if n := 256<<10 - c.b.Len(); n > 0 {
		if n > len(p) {
			n = len(p)
		}
		c.b.Write(p[:n])
	}
	return len(p), nil
}

func (c *capBuf) String() string { c.mu.Lock(); defer c.mu.Unlock(); return c.b.String() }

var (
	fProp, fTier, fOut, fReplays, fKnown, fCorpus string
	fSeed                                         uint64
	fBudget                                       time.Duration
	fMin, fMax, fWorkers                          int
	fVerbose                                      bool
	fWatch, fShrink                               time.Duration
)

func startProc() *proc {
	c := exec.Command(os.Args[0], "worker", "-prop", fProp, "-tier", fTier)
	c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=3", "GOTRACEBACK=single")
	w, err := c.StdinPipe()
	if err != nil {
		fatal(3, "%v", err)
	}
	o, err := c.StdoutPipe()
	if err != nil {
		fatal(3, "%v", err)
	}
	p := &proc{cmd: c, in: json.NewEncoder(w), inw: w, out: bufio.NewReaderSize(o, 1<<20), errb: &capBuf{}}
	c.Stderr = p.errb
	if err := c.Start(); err != nil {
		fatal(3, "start worker: %v", err)
	}
	return p
}

func (p *proc) stop() {
	if p == nil {
		return
	}
	_ = p.inw.Close()
	_ = p.cmd.Process.Kill()
	_ = p.cmd.Wait()
}

var reFrame = regexp.MustCompile(`(?m)^  ?(github\.com/acronis/go-raml\S*)\(`)

// do runs one command. If the worker dies, the death is the failure.
func (p *proc) do(c *cmd) (*msg, error) {
	p.at, p.cs = nil, nil
	if c.Case != nil {
		p.cs = c.Case
	}
	p.at = c.Spec
	timer := time.AfterFunc(fWatch, func() { p.killed.Store(true); _ = p.cmd.Process.Kill() })
	defer timer.Stop()
	werr := p.in.Encode(c)
	for werr == nil {
		l, err := p.out.ReadBytes('\n')
		if err != nil {
			break
		}
		var m msg
		if err := json.Unmarshal(l, &m); err != nil {
			continue // the code under test wrote to the standard output
		}
		if m.At != nil {
			p.at = m.At
			if m.Case != nil {
				p.cs = m.Case
			}
			continue
		}
		if m.Done {
			p.cases++
			if c.Op == "seed" {
				p.seeds = append(p.seeds, c.Seed)
			}
			return &m, nil
		}
	}
	err := p.cmd.Wait()
	st := p.errb.String()
	f := &Fail{Spec: p.at}
	switch {
	case p.killed.Load():
		f.Class, f.Detail = "stuck", fmt.Sprintf("no result within %s", fWatch)
	case strings.Contains(st, "WARNING: DATA RACE"):
		f.Class = "data-race"
		f.Site, f.Detail = raceSite(st)
	case strings.Contains(st, "stack overflow") || strings.Contains(st, "stack exceeds"):
		f.Class, f.Site, f.Detail = "stack-overflow", overflowSite(st), cut(st, 1500)
	case strings.Contains(st, "fatal error:"):
		i := strings.Index(st, "fatal error:")
		j := strings.IndexByte(st[i:]+"\n", '\n')
		f.Class, f.Site, f.Detail = "fatal", siteOf(st), st[i:i+j]+"\n"+cut(st[i:], 2500)
	case strings.Contains(st, "panic:") && harnessPanic(st):
		return nil, fmt.Errorf("harness: %s", cut(st, 3000))
	case strings.Contains(st, "panic:") || strings.Contains(st, "goroutine "):
		f.Class, f.Site, f.Detail = "crash", siteOf(st), cut(st, 2500)
	default:
		return nil, fmt.Errorf("worker ended: %v: %s", err, cut(st, 2000))
	}
	return &msg{Done: true, Fail: f, Case: p.cs}, fmt.Errorf("worker died (%s)", f.Class)
}

// harnessPanic tells whether a panic came from the harness itself.
func harnessPanic(st string) bool {
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "github.com/acronis/go-raml") {
			return strings.Contains(l, "/zzsim/harness/")
		}
		if strings.HasPrefix(l, "github.com/") || strings.HasPrefix(l, "gopkg.in/") {
			return false
		}
	}
	return false
}

func raceSite(st string) (string, string) {
	var sites []string
	seen := map[string]bool{}
	for _, part := range regexp.MustCompile(`(?m)^(?:Previous )?(?:[Rr]ead|[Ww]rite|atomic \w+) (?:at|by)|^Previous `).Split(st, 4) {
		if m := reFrame.FindAllStringSubmatch(part, -1); m != nil {
			for _, x := range m {
				if strings.Contains(x[1], "/zzsim/") {
					continue
				}
				s := strings.TrimPrefix(x[1], "github.com/acronis/")
				if !seen[s] {
					seen[s] = true
					sites = append(sites, s)
				}
				break
			}
		}
	}
	sort.Strings(sites)
	return strings.Join(sites, " / "), cut(st, 4000)
}

// overflowSite names the functions of the cycle.
func overflowSite(st string) string {
	n := map[string]int{}
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "github.com/acronis/go-raml") && !strings.Contains(l, "/zzsim/") {
			if j := strings.LastIndexByte(l, '('); j > 0 {
				n[strings.TrimPrefix(l[:j], "github.com/acronis/")]++
			}
		}
	}
	var fs []string
	for f, k := range n {
		if k > 1 {
			fs = append(fs, f)
		}
	}
	sort.Strings(fs)
	if len(fs) > 4 {
		fs = fs[:4]
	}
	return strings.Join(fs, ",")
}

// knownLine is an entry of the file of known findings.
type knownLine struct {
	Prop, Class, Site, Text string
	Match                   string
	seen                    bool
}

// known: property=C07 class=panic site=<site> [match=<text without spaces>] :: what fails
func readKnown(p, prop string) []*knownLine {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	var out []*knownLine
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		h, t, _ := strings.Cut(l[7:], " :: ")
		k := &knownLine{Text: t}
		for _, w := range strings.Fields(h) {
			a, v, _ := strings.Cut(w, "=")
			switch a {
			case "property":
				k.Prop = v
			case "class":
				k.Class = v
			case "site":
				k.Site = v
			case "match":
				k.Match = v
			}
		}
		if k.Prop == prop {
			out = append(out, k)
		}
	}
	return out
}

func isKnown(ks []*knownLine, f *Fail) *knownLine {
	for _, k := range ks {
		if k.Class == f.Class && k.Site == f.Site && (k.Match == "" || strings.Contains(f.Detail, k.Match)) {
			return k
		}
	}
	return nil
}

func same(a, b *Fail) bool { return a != nil && b != nil && a.Class == b.Class && a.Site == b.Site }

// Replay is a replay file.
type Replay struct {
	Property string   `json:"property"`
	Class    string   `json:"class"`
	Site     string   `json:"site,omitempty"`
	Detail   string   `json:"detail"`
	Case     *Case    `json:"case"`
	Spec     *Spec    `json:"spec,omitempty"`
	Log      []string `json:"log,omitempty"`
	How      string   `json:"how"`
}

// fresh runs one command in a new process.
func fresh(c *cmd, prefix []uint64) *msg {
	p := startProc()
	defer p.stop()
	for _, s := range prefix {
		if _, err := p.do(&cmd{Op: "seed", Seed: s}); err != nil {
			break
		}
	}
	m, _ := p.do(c)
	return m
}

// reproduce tells whether a failure happens again in a new process.
func reproduce(f *Fail, c *Case, s *Spec) *Fail {
	if f.Class == "history" {
		a := fresh(&cmd{Op: "key", Case: bare(c)}, nil)
		b := fresh(&cmd{Op: "key", Case: bare(c)}, c.Prefix)
		if a != nil && b != nil && a.Fail == nil && b.Fail == nil && a.Key != b.Key {
			return f
		}
		return nil
	}
	op := &cmd{Op: "eval", Case: c, Spec: s}
	if c.Whole {
		op = &cmd{Op: "case", Case: c}
	}
	m := fresh(op, c.Prefix)
	if m == nil || m.Fail == nil {
		return nil
	}
	return m.Fail
}

// confirm looks for the least that makes a failure happen again in a process of its own:
// the execution alone, the executions of its case before it, what ran in the process before.
func confirm(f *Fail, c *Case) (*Fail, *Case) {
	pre := c.Prefix
	if f.Class == "history" {
		return reproduce(f, c, f.Spec), c
	}
	for _, prefix := range [][]uint64{nil, pre} {
		for _, whole := range []bool{false, true} {
			d := bare(c)
			d.Prefix, d.Whole = prefix, whole
			if g := reproduce(f, d, f.Spec); g != nil {
				return g, d
			}
		}
		if len(pre) == 0 {
			break
		}
	}
	return nil, c
}

func bare(c *Case) *Case {
	d := c.clone()
	d.Prefix = nil
	return d
}

// shrink makes a failing case smaller while it fails the same way.
func shrink(f *Fail, c *Case, s *Spec, until time.Time) (*Fail, *Case, *Spec) {
	for n := len(c.Prefix); n > 0 && time.Now().Before(until); {
		d := c.clone()
		d.Prefix = d.Prefix[len(d.Prefix)-n/2:]
		if n/2 > 0 && same(f, reproduce(f, d, s)) {
			c = d
			n = len(c.Prefix)
			continue
		}
		break
	}
	for i := 0; i < len(c.Prefix) && len(c.Prefix) > 1 && time.Now().Before(until); {
		d := c.clone()
		d.Prefix = append(d.Prefix[:i:i], d.Prefix[i+1:]...)
		if same(f, reproduce(f, d, s)) {
			c = d
		} else {
			i++
		}
	}
	if f.Class == "history" {
		return f, c, s
	}
	var p *proc
	defer func() { p.stop() }()
	try := func(cm *cmd) (*Fail, *Case) {
		if c.Whole && cm.Op == "eval" {
			return nil, nil
		}
		if p == nil || len(c.Prefix) > 0 || c.Whole {
			if p != nil {
				p.stop()
			}
			p = startProc()
			for _, sd := range c.Prefix {
				if _, err := p.do(&cmd{Op: "seed", Seed: sd}); err != nil {
					break
				}
			}
		}
		m, err := p.do(cm)
		if err != nil {
			p.stop()
			p = nil
		}
		if m == nil {
			return nil, nil
		}
		return m.Fail, m.Case
	}
	accept := func(g *Fail, d *Case) bool {
		if !same(f, g) {
			return false
		}
		f, c = g, d
		if g.Spec != nil {
			s = g.Spec
		}
		return true
	}
	decs := func() {
		type list struct {
			n   func(*Spec) int
			del func(*Spec, int, int)
		}
		ls := []list{
			{func(s *Spec) int { return len(s.Cfg.Decs) }, func(s *Spec, a, b int) {
				s.Cfg.Decs = append(append([]simrt.Dec(nil), s.Cfg.Decs[:a]...), s.Cfg.Decs[b:]...)
			}},
			{func(s *Spec) int { return len(s.Sched.List) }, func(s *Spec, a, b int) {
				s.Sched.List = append(append([]simrt.Switch(nil), s.Sched.List[:a]...), s.Sched.List[b:]...)
			}},
			{func(s *Spec) int { return len(s.Muts) }, func(s *Spec, a, b int) {
				s.Muts = append(append([]simrt.Mut(nil), s.Muts[:a]...), s.Muts[b:]...)
			}},
		}
		for i := range s.Tasks {
			i := i
			ls = append(ls, list{func(s *Spec) int {
				if i < len(s.Tasks) {
					return len(s.Tasks[i].Decs)
				}
				return 0
			}, func(s *Spec, a, b int) {
				s.Tasks = append([]simrt.Config(nil), s.Tasks...)
				s.Tasks[i].Decs = append(append([]simrt.Dec(nil), s.Tasks[i].Decs[:a]...), s.Tasks[i].Decs[b:]...)
			}})
		}
		for _, l := range ls {
			for size := l.n(s); size >= 1; size /= 2 {
				for a := 0; a < l.n(s); {
					if time.Now().After(until) {
						return
					}
					b := a + size
					if b > l.n(s) {
						b = l.n(s)
					}
					t := *s
					l.del(&t, a, b)
					g, _ := try(&cmd{Op: "eval", Case: c, Spec: &t})
					if same(f, g) {
						f = g
						s = &t
						if g.Spec != nil {
							s = g.Spec
						}
					} else {
						a = b
					}
				}
			}
		}
	}
	if !c.Whole {
		decs()
	}
	for again := true; again && time.Now().Before(until); {
		again = false
		dropCandidates(c, func(d *Case) bool {
			if time.Now().After(until) {
				return true
			}
			if g, _ := try(&cmd{Op: "eval", Case: d, Spec: s}); accept(g, d) {
				again = true
				return true
			}
			if g, _ := try(&cmd{Op: "case", Case: d}); accept(g, d) {
				again = true
				return true
			}
			return false
		})
	}
	if s != nil && !c.Whole {
		decs()
	}
	return f, c, s
}

type stats struct {
	mu       sync.Mutex
	seeds    int
	m        msg
	dist     map[uint64]bool
	samples  []any
	procs    int
	fresh    int
	nondet   []uint64
	skipped  int
	broken   []string
	failures int
}

func (st *stats) add(m *msg) {
	st.mu.Lock()
	defer st.mu.Unlock()
	st.m.Runs += m.Runs
	st.m.Ops += m.Ops
	st.m.Steps += m.Steps
	if m.MaxSt > st.m.MaxSt {
		st.m.MaxSt = m.MaxSt
	}
	st.m.SimNs += m.SimNs
	for k, v := range m.Fired {
		st.m.Fired[k] += v
	}
	for k, v := range m.Notes {
		st.m.Notes[k] += v
	}
	for _, h := range m.Hash {
		if len(st.dist) < 4_000_000 {
			st.dist[h>>1] = st.dist[h>>1] || h&1 == 1
		}
	}
}

type found struct {
	f *Fail
	c *Case
}

// Main is the entry of the simulator.
func Main() {
	if len(os.Args) < 2 {
		fatal(3, "usage: sim worker|check|replay|gen|list …")
	}
	mode := os.Args[1]
	fl := flag.NewFlagSet(mode, flag.ExitOnError)
	fl.StringVar(&fProp, "prop", "", "property")
	fl.StringVar(&fTier, "tier", "quick", "quick or thorough")
	fl.Uint64Var(&fSeed, "seed", 1, "seed")
	fl.DurationVar(&fBudget, "budget", 20*time.Second, "time to search")
	fl.IntVar(&fMin, "min", 100, "least number of seeds")
	fl.IntVar(&fMax, "max", 1<<30, "most seeds")
	fl.IntVar(&fWorkers, "workers", 8, "worker processes")
	fl.StringVar(&fOut, "out", "", "evidence file")
	fl.StringVar(&fReplays, "replays", ".", "directory for replay files")
	fl.StringVar(&fKnown, "known", "", "known findings")
	fl.StringVar(&fCorpus, "corpus", "", "directory of cases to run first")
	fl.BoolVar(&fVerbose, "v", false, "verbose")
	fl.DurationVar(&fWatch, "watchdog", 90*time.Second, "time limit of one case")
	fl.DurationVar(&fShrink, "shrink", 25*time.Second, "time to minimise a failure")
	_ = fl.Parse(os.Args[2:])
	if mode == "replay" {
		replayMain(fl.Args())
		return
	}
	p := props[fProp]
	if p == nil && mode != "gen" {
		fatal(3, "no such property %q", fProp)
	}
	switch mode {
	case "worker":
		workerMain(p, fTier)
	case "check":
		checkMain(p)
	case "case":
		b, _ := json.MarshalIndent(caseOf(p, fSeed, fTier), "", " ")
		fmt.Println(string(b))
	case "gen":
		genMain()
	default:
		fatal(3, "unknown mode %s", mode)
	}
}

func checkMain(p *Property) {
	t0 := time.Now()
	known := readKnown(fKnown, fProp)
	st := &stats{m: msg{Fired: map[string]int{}, Notes: map[string]int{}}, dist: map[uint64]bool{}}
	var next atomic.Int64
	var stop atomic.Bool
	var confirming sync.Mutex
	var confirmed *found
	var unconfirmed []string
	attempts := map[string]int{}
	deadline := t0.Add(fBudget)
	hard := t0.Add(2*fBudget + 30*time.Second)

	// the corpus runs first
	var corpus []*Case
	if fCorpus != "" {
		fs, _ := filepath.Glob(filepath.Join(fCorpus, fProp+"-*.json"))
		sort.Strings(fs)
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			var c Case
			if err := json.Unmarshal(b, &c); err != nil {
				fatal(3, "%s: %v", f, err)
			}
			c.Prop = fProp
			c.S = strings.TrimSpace(c.S + "")
			corpus = append(corpus, &c)
		}
	}
	handle := func(m *msg, isSeed bool) {
		if m == nil {
			return
		}
		st.add(m)
		if m.Fail == nil {
			return
		}
		if k := isKnown(known, m.Fail); k != nil {
			st.mu.Lock()
			k.seen = true
			st.mu.Unlock()
			return
		}
		key := m.Fail.Class + " " + m.Fail.Site
		confirming.Lock()
		defer confirming.Unlock()
		if stop.Load() || attempts[key] >= 4 || len(unconfirmed) >= 12 {
			return
		}
		attempts[key]++
		if m.Case == nil {
			unconfirmed = append(unconfirmed, fmt.Sprintf("%s without a case: %s", key, cut(m.Fail.Detail, 1500)))
			return
		}
		g, c := confirm(m.Fail, m.Case)
		if g == nil {
			unconfirmed = append(unconfirmed, fmt.Sprintf("%s seed %d: %s", key, c.Seed, cut(m.Fail.Detail, 300)))
			return
		}
		if isKnown(known, g) != nil {
			return
		}
		if g.Spec == nil {
			g.Spec = m.Fail.Spec
		}
		confirmed = &found{g, c}
		stop.Store(true)
	}
	var wg sync.WaitGroup
	var nextCorpus atomic.Int64
	for w := 0; w < fWorkers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var pr *proc
			defer func() { pr.stop() }()
			ensure := func() {
				if pr == nil {
					pr = startProc()
					st.mu.Lock()
					st.procs++
					st.mu.Unlock()
				}
			}
			for {
				i := int(nextCorpus.Add(1)) - 1
				if i >= len(corpus) || stop.Load() {
					break
				}
				ensure()
				m, err := pr.do(&cmd{Op: "case", Case: corpus[i]})
				if err != nil {
					pr.stop()
					pr = nil
					if m == nil {
						st.mu.Lock()
						st.broken = append(st.broken, err.Error())
						st.mu.Unlock()
						stop.Store(true)
						return
					}
				}
				handle(m, false)
				pr.stop()
				pr = nil
			}
			for !stop.Load() {
				n := int(next.Add(1)) - 1
				if n >= fMax || (n >= fMin && time.Now().After(deadline)) || time.Now().After(hard) {
					return
				}
				seed := seedOf(fSeed, fProp, n)
				ensure()
				m, err := pr.do(&cmd{Op: "seed", Seed: seed})
				if fVerbose && m != nil {
					for k := range m.Notes {
						if strings.HasPrefix(k, "ended") {
							fmt.Println("seed", n, seed, k)
						}
					}
				}
				hist := []uint64(nil)
				if pr != nil {
					hist = append(hist, pr.seeds...)
				}
				if err != nil {
					pr.stop()
					pr = nil
					if m == nil {
						st.mu.Lock()
						st.broken = append(st.broken, err.Error())
						st.mu.Unlock()
						stop.Store(true)
						return
					}
					if m.Case == nil {
						m.Case = caseOf(p, seed, fTier)
					}
					if m.Fail != nil && m.Fail.Class == "stuck" && fProp != "C07" {
						// not this property's business
						st.mu.Lock()
						st.skipped++
						st.mu.Unlock()
						continue
					}
				}
				st.mu.Lock()
				st.seeds++
				st.mu.Unlock()
				if m.Fail != nil && m.Case != nil && len(hist) > 0 {
					m.Case = m.Case.clone()
					m.Case.Prefix = hist
					if m.Case.Prefix[len(hist)-1] == seed {
						m.Case.Prefix = hist[:len(hist)-1]
					}
				}
				handle(m, true)
				// does the process matter?
				if m.Fail == nil && n%9 == 4 && !stop.Load() {
					op := "seed"
					if p.Key != nil {
						op = "key"
					}
					f := fresh(&cmd{Op: op, Seed: seed}, nil)
					if f != nil && f.Fail == nil {
						st.mu.Lock()
						st.fresh++
						st.mu.Unlock()
						if p.Key != nil && f.Key != m.Key {
							c := caseOf(p, seed, fTier)
							c.Prefix = hist[:len(hist)-1]
							handle(&msg{Fail: &Fail{Class: "history", Detail: fmt.Sprintf(
								"the outcome of the same load differs between a fresh process and one that loaded %d other projects before (observation hash %x instead of %x)", len(c.Prefix), m.Key, f.Key)}, Case: c}, true)
						}
						if p.Key == nil && f.Rec != m.Rec {
							st.mu.Lock()
							st.nondet = append(st.nondet, seed)
							st.mu.Unlock()
						}
					}
				}
				if pr != nil && (pr.cases >= 40 || m.Mem > 1500<<20) {
					pr.stop()
					pr = nil
				}
			}
		}()
	}
	wg.Wait()
	if len(st.broken) > 0 {
		fatal(3, "the simulator broke: %s", st.broken[0])
	}
	searched := time.Since(t0)
	viol := 0
	if confirmed != nil {
		f, c, s := shrink(confirmed.f, confirmed.c, confirmed.f.Spec, time.Now().Add(fShrink))
		if g := reproduce(f, c, s); g != nil {
			f = g
		}
		path := filepath.Join(fReplays, fmt.Sprintf("%s-%d.json", fProp, c.Seed))
		_ = os.MkdirAll(fReplays, 0o755)
		rp := &Replay{Property: fProp, Class: f.Class, Site: f.Site, Detail: f.Detail, Case: c, Spec: s, Log: f.Log,
			How: "sim/bin/replay " + path}
		b, _ := json.MarshalIndent(rp, "", " ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fatal(3, "%v", err)
		}
		fmt.Printf("%s %s: %s\n", f.Class, f.Site, cut(f.Detail, 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", fProp, path)
		viol++
	}
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", fProp, k.Text)
	}
	for _, u := range unconfirmed {
		fmt.Printf("unconfirmed (did not happen again in a process of its own): %s\n", u)
	}
	writeEvidence(p, st, t0, searched, viol, unconfirmed, len(corpus))
	nt := 0
	for _, b := range st.dist {
		if b {
			nt++
		}
	}
	fmt.Printf("%s: %d seeds, %d runs, %d evaluations, %d distinct executions (%d with faults, reordering or preemption), %.1fs\n",
		fProp, st.seeds, st.m.Runs, st.m.Ops, len(st.dist), nt, time.Since(t0).Seconds())
	if fVerbose {
		b, _ := json.Marshal(map[string]any{"fired": st.m.Fired, "notes": st.m.Notes, "maxsteps": st.m.MaxSt, "nondet": st.nondet, "skipped": st.skipped, "fresh": st.fresh})
		fmt.Println(string(b))
	}
	if viol > 0 {
		os.Exit(1)
	}
	if len(unconfirmed) > 0 {
		fmt.Println("warning: there were unconfirmed failures")
	}
}

func writeEvidence(p *Property, st *stats, t0 time.Time, searched time.Duration, viol int, unconfirmed []string, ncorpus int) {
	if fOut == "" {
		return
	}
	nt := 0
	for _, b := range st.dist {
		if b {
			nt++
		}
	}
	hrs := searched.Hours()
	var samples []any
	for n := 0; n < 3 && n < st.seeds; n++ {
		c := caseOf(p, seedOf(fSeed, fProp, n), fTier)
		var fs []any
		for i, f := range c.Files {
			if i < 2 {
				fs = append(fs, map[string]string{"path": f.P, "content": cut(f.D, 500)})
			}
		}
		samples = append(samples, map[string]any{"seed": c.Seed, "files": len(c.Files), "first_files": fs, "entry": c.Entry, "operations": c.Ops, "parameters": c.N, "values": len(c.Vals)})
	}
	if samples == nil {
		samples = []any{}
	}
	ev := map[string]any{
		"property": fProp, "tier": fTier, "seed": fSeed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         st.m.Ops,
			"distinct_nontrivial": nt,
			"rule":                p.Rule + " An execution is counted once per distinct hash of its I/O events, its non-default decisions (faults, read sizes, map orders, random numbers) and its task switches; it is non-trivial if it has at least one such decision, switch or concurrent edit of the disk.",
			"samples":             samples,
			"seeds":               st.seeds,
			"regression_cases":    ncorpus,
			"simulated_runs":      st.m.Runs,
			"seeds_per_hour":      int(float64(st.seeds) / hrs),
			"runs_per_hour":       int(float64(st.m.Runs) / hrs),
			"simulated_steps":     st.m.Steps,
			"longest_run_steps":   st.m.MaxSt,
			"simulated_seconds":   float64(st.m.SimNs) / 1e9,
			"injected":            st.m.Fired,
			"notes":               st.m.Notes,
			"distinct_executions": len(st.dist),
			"worker_processes":    st.procs,
			"fresh_process_repeats": map[string]any{
				"compared": st.fresh, "different": len(st.nondet)},
			"unconfirmed":     unconfirmed,
			"real_components": append([]string{"all code of github.com/acronis/go-raml/v2 in /repo (instrumented copy)", "yaml.v3, ordered-map, antlr, go-stacktrace (unmodified; they run between two preemption points)"}, p.Real...),
			"stub_components": append([]string{"os (in-memory disk)", "task scheduler", "map iteration order", "sync, time, math/rand, path/filepath"}, p.Stubs...),
		},
		"assumptions": []string{
			"preemption happens between statements of go-raml, not inside a statement or inside a dependency",
			"the simulated disk has no symbolic links and no permissions",
		},
		"wall_s": time.Since(t0).Seconds(), "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Dir(fOut), 0o755)
	if err := os.WriteFile(fOut, append(b, '\n'), 0o644); err != nil {
		fatal(3, "%v", err)
	}
}

func replayMain(args []string) {
	if len(args) != 1 {
		fatal(3, "usage: sim replay FILE")
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fatal(3, "%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fatal(3, "%v", err)
	}
	fProp = r.Property
	f := reproduce(&Fail{Class: r.Class, Site: r.Site, Detail: r.Detail}, r.Case, r.Spec)
	if f == nil {
		fmt.Println("not reproduced: the property held on this execution")
		return
	}
	fmt.Printf("%s %s: %s\n", f.Class, f.Site, f.Detail)
	for _, l := range f.Log {
		fmt.Println("  " + l)
	}
	fmt.Printf("reproduced: %v\n", f.Class == r.Class && f.Site == r.Site)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, args[0])
	os.Exit(1)
}
