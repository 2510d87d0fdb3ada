//go:build go1.22

package hx

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"sort"

	"github.com/acronis/go-raml/v2/zzsim/simos"
	"github.com/acronis/go-raml/v2/zzsim/simrt"
)

// Property is how one property is decided.
type Property struct {
	ID string
	// Gen makes a case from a seed.
	Gen func(r *simrt.Rng, tier string) *Case
	// Variants lists the executions of a case that are searched.
	Variants func(cx *Ctx, c *Case) []*Spec
	// Eval performs one execution of a case and judges it.
	Eval func(cx *Ctx, c *Case, s *Spec) *Fail
	// Key is what must be the same in every process, whatever ran in it before.
	Key func(cx *Ctx, c *Case) uint64
	// Conc: the property is about concurrent tasks.
	Conc  bool
	Rule  string
	Stubs []string
	Real  []string
}

var props = map[string]*Property{}

func register(p *Property) { props[p.ID] = p }

// cmd is a command to a worker.
type cmd struct {
	Op   string `json:"op"` // seed, case, eval, key, gen
	Seed uint64 `json:"seed,omitempty"`
	Case *Case  `json:"case,omitempty"`
	Spec *Spec  `json:"spec,omitempty"`
	Full bool   `json:"full,omitempty"`
}

// msg is a message of a worker.
type msg struct {
	At    *Spec          `json:"at,omitempty"`   // about to perform this execution
	Case  *Case          `json:"case,omitempty"` // of this case
	Done  bool           `json:"done,omitempty"`
	Fail  *Fail          `json:"fail,omitempty"`
	Key   uint64         `json:"key,omitempty"`
	Rec   uint64         `json:"rec,omitempty"`
	Runs  int            `json:"runs,omitempty"`
	Ops   int            `json:"ops,omitempty"`
	Steps int64          `json:"steps,omitempty"`
	MaxSt int64          `json:"maxst,omitempty"`
	SimNs int64          `json:"simns,omitempty"`
	Fired map[string]int `json:"fired,omitempty"`
	Notes map[string]int `json:"notes,omitempty"`
	Hash  []uint64       `json:"hash,omitempty"`
	Mem   uint64         `json:"mem,omitempty"`
}

func caseOf(p *Property, seed uint64, tier string) *Case {
	r := simrt.NewRng(seedOf(p.ID, seed))
	c := p.Gen(&r, tier)
	c.Prop, c.Seed = p.ID, seed
	return c
}

// search performs all executions of a case until one fails.
func search(p *Property, cx *Ctx, c *Case, at func(*Spec)) *Fail {
	cx.reset()
	for _, s := range p.Variants(cx, c) {
		if at != nil {
			at(s)
		}
		cx.Ops++
		if f := p.Eval(cx, c, s); f != nil {
			if f.Spec == nil {
				f.Spec = s
			}
			return f
		}
	}
	return nil
}

var (
	stderr   = os.Stderr
	stdCatch *os.File
)

// catchStd sends what the code prints past the simulated streams to a file, so that it cannot disturb the
// protocol of the worker and can be noticed.
func catchStd() {
	f, err := os.CreateTemp("", "hx-std-")
	if err != nil {
		if f, err = os.OpenFile(os.DevNull, os.O_WRONLY, 0); err != nil {
			return
		}
	} else {
		_ = os.Remove(f.Name())
		stdCatch = f
	}
	os.Stdout, os.Stderr = f, f
	log.SetOutput(f)
}

// printed returns what was printed since the last call.
func printed() string {
	out := string(simos.Captured)
	simos.Captured = nil
	if stdCatch == nil {
		return out
	}
	n, err := stdCatch.Seek(0, io.SeekCurrent)
	if err != nil || n == 0 {
		return out
	}
	b := make([]byte, min(n, 4096))
	m, _ := stdCatch.ReadAt(b, 0)
	_ = stdCatch.Truncate(0)
	_, _ = stdCatch.Seek(0, io.SeekStart)
	return out + string(b[:m])
}

func workerMain(p *Property, tier string) {
	debug.SetMaxStack(48 << 20)
	debug.SetGCPercent(200)
	if simrt.RaceBuild {
		runtime.GOMAXPROCS(2)
	} else {
		runtime.GOMAXPROCS(2)
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	catchStd()
	enc := json.NewEncoder(out)
	send := func(m *msg) {
		if err := enc.Encode(m); err != nil {
			os.Exit(0)
		}
		out.Flush()
	}
	dec := json.NewDecoder(in)
	for {
		var c cmd
		if err := dec.Decode(&c); err != nil {
			return
		}
		cx := NewCtx(tier)
		m := &msg{Done: true}
		cs := c.Case
		if cs == nil {
			cs = caseOf(p, c.Seed, tier)
		}
		switch c.Op {
		case "seed", "case":
			first := true
			m.Fail = search(p, cx, cs, func(s *Spec) {
				a := &msg{At: s}
				if first {
					a.Case, first = cs, false
				}
				send(a)
			})
			if p.Key != nil && m.Fail == nil {
				cx.reset()
				m.Key = p.Key(cx, cs)
			}
		case "eval":
			cx.reset()
			m.Fail = p.Eval(cx, cs, c.Spec)
			if m.Fail != nil && m.Fail.Spec == nil {
				m.Fail.Spec = c.Spec
			}
		case "gen":
			m.Case = cs
		case "key":
			cx.reset()
			m.Key = p.Key(cx, cs)
		}
		if m.Fail != nil {
			m.Case = cs
		}
		m.Runs, m.Ops, m.Steps, m.MaxSt, m.SimNs, m.Fired, m.Notes = cx.Runs, cx.Ops, cx.Steps, cx.MaxSt, cx.SimNs, cx.Fired, cx.Notes
		h := uint64(14695981039346656037)
		for _, x := range cx.rec {
			h = (h ^ x) * 1099511628211
		}
		m.Rec = h
		for k, nt := range cx.Hashes {
			x := k << 1
			if nt {
				x |= 1
			}
			m.Hash = append(m.Hash, x)
		}
		sort.Slice(m.Hash, func(i, j int) bool { return m.Hash[i] < m.Hash[j] })
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		m.Mem = ms.Sys
		send(m)
	}
}

func fatal(code int, format string, a ...any) {
	fmt.Fprintf(stderr, format+"\n", a...)
	os.Exit(code)
}
