package simrt

import (
	"fmt"
	"sort"
)

// Dec is one non-default decision of a World: the N-th decision of kind K had value V.
type Dec struct {
	K string `json:"k"`
	N int    `json:"n"`
	V int    `json:"v"`
}

// Config says which decisions a World draws at random. A kind that is absent takes its
// default (0: canonical map order, no fault, whole reads).
type Config struct {
	Prob map[string]float64 `json:"prob,omitempty"` // kind -> probability of a non-default value
	Max  map[string]int     `json:"max,omitempty"`  // kind -> most non-default values in a run (faults)
	Seed uint64             `json:"seed"`
	Decs []Dec              `json:"decs,omitempty"` // explicit decisions; if set, nothing is drawn
	Expl bool               `json:"explicit,omitempty"`
}

// World decides everything the environment of one task does.
type World struct {
	FS    *FS
	cfg   Config
	rng   Rng
	ov    map[string]map[int]int
	ord   map[string]int
	used  map[string]int
	Rec   []Dec
	Hash  uint64
	NLog  int
	Log   []string
	Now   int64 // simulated nanoseconds
	Fired map[string]int
	kids  int
	prof  bool
	// IOOps is the trace of the I/O operations: kind and path, by their "io" ordinal.
	IOOps []IOOp
	// OnFire is told of every fault when it happens.
	OnFire func(kind string)
}

// IOOp is one I/O operation the code under test performed.
type IOOp struct {
	Op   string
	Path string
	N    int // bytes
	EOF  bool
	T    int // the clock of the disk (FS.IO) of the operation
}

// NewWorld makes a World over fs.
func NewWorld(fs *FS, cfg Config) *World {
	w := &World{FS: fs, cfg: cfg, rng: NewRng(cfg.Seed), ord: map[string]int{}, used: map[string]int{},
		Fired: map[string]int{}, Hash: 14695981039346656037}
	if cfg.Expl || len(cfg.Decs) > 0 {
		w.ov = map[string]map[int]int{}
		for _, d := range cfg.Decs {
			if w.ov[d.K] == nil {
				w.ov[d.K] = map[int]int{}
			}
			w.ov[d.K][d.N] = d.V
		}
	}
	w.Now = 1_700_000_000_000_000_000
	if cfg.Seed != 0 {
		w.Now += int64(cfg.Seed%1_000_000) * 1_000_000_000
	}
	return w
}

func (w *World) child() *World {
	w.kids++
	c := w.cfg
	c.Seed = c.Seed*31 + uint64(w.kids)
	k := NewWorld(w.FS, c)
	return k
}

// Event appends to the event log. It never draws and never reads a clock.
func (w *World) Event(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	w.NLog++
	h := w.Hash
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	h ^= '\n'
	h *= 1099511628211
	w.Hash = h
	if len(w.Log) < 4000 {
		w.Log = append(w.Log, s)
	}
}

// Choose draws decision number ord of the given kind: 0 (the default) or one of 1..n-1.
func (w *World) Choose(kind string, n int) int {
	i := w.ord[kind]
	w.ord[kind] = i + 1
	v := 0
	if w.ov != nil {
		v = w.ov[kind][i]
		if n > 0 && v >= n {
			v %= n
		}
	} else if p := w.cfg.Prob[kind]; p > 0 {
		if m, ok := w.cfg.Max[kind]; !ok || w.used[kind] < m {
			if w.rng.P(p) {
				if n > 0 {
					v = 1 + w.rng.Intn(n-1)
				} else {
					v = 1 + w.rng.Intn(1<<30)
				}
			}
		}
	}
	if v != 0 {
		w.used[kind]++
		w.Rec = append(w.Rec, Dec{kind, i, v})
	}
	return v
}

// Ord returns how many decisions of a kind were taken.
func (w *World) Ord(kind string) int { return w.ord[kind] }

// Fire counts a fault that really happened.
func (w *World) Fire(kind string) {
	w.Fired[kind]++
	if w.OnFire != nil {
		w.OnFire(kind)
	}
}

// FiredList renders the fault counts.
func (w *World) FiredList() []string {
	var out []string
	for k, n := range w.Fired {
		out = append(out, fmt.Sprintf("%s=%d", k, n))
	}
	sort.Strings(out)
	return out
}
