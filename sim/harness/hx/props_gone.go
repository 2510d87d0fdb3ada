//go:build go1.22

package hx

import (
	"context"
	"fmt"
	"runtime"
	"strings"
	"time"
	"weak"

	raml "github.com/acronis/go-raml/v2"
	"github.com/acronis/go-raml/v2/zzsim/hooks"
	"github.com/acronis/go-raml/v2/zzsim/simrt"
	"github.com/acronis/go-raml/v2/zzsim/simsync"
)

// ---- C24

// alive tells whether an object is still there.
type alive struct {
	what string
	get  func() bool
}

func watch[T any](out *[]alive, p *T, format string, args ...any) {
	if p != nil {
		w := weak.Make(p)
		*out = append(*out, alive{fmt.Sprintf(format, args...), func() bool { return w.Value() != nil }})
	}
}

// useAndDrop loads into a new model, uses it, and returns what there was of it.
func useAndDrop(c *Case, entry string, fs *simrt.FS, how How) (out []alive) {
	r := raml.New(context.WithValue(bg, ctxToken{}, new(int)))
	watch(&out, r, "the model")
	if n, ok := c.N["hook"]; ok {
		left := c.N["left"]
		r.AppendHook(hooks.Keys[n%len(hooks.Keys)], func(context.Context, *raml.RAML, ...any) error {
			if left--; left < 0 {
				return &tokenErr{0}
			}
			return nil
		})
	}
	ps := pathsOf(c.Files)
	for i, p := range ps { // the project may have been copied
		ps[i] = strings.TrimSuffix(entry, strings.TrimPrefix(c.Entry, root)) + strings.TrimPrefix(p, root)
	}
	see := func() {
		for _, t := range listTypes(r, ps) {
			watch(&out, t.B, "type %s", t.Name)
		}
		for _, p := range ps {
			switch f := r.GetFragment(p).(type) {
			case *raml.Library:
				watch(&out, f, "library %s", p)
			case *raml.DataType:
				watch(&out, f, "data type %s", p)
			}
		}
	}
	err := parseInto(r, fs, entry, how)
	see()
	if err != nil {
		return out
	}
	if how.Post {
		_, _ = exercise(r, ps, c.Vals, 6, 3)
		for i, t := range listTypes(r, ps) {
			if i == 3 {
				break
			}
			watch(&out, t.B.CloneDetached(), "a copy of type %s", t.Name)
		}
	} else if r.UnwrapShapes() == nil {
		see()
	}
	return out
}

// collect runs garbage collections and returns what is still there.
func collect(objs []alive) (string, int) {
	first, n := "", 0
	for i := 0; i < 8; i++ {
		if i > 2 {
			time.Sleep(time.Millisecond) // finalizers run
		}
		simsync.DropPools()
		runtime.GC()
		first, n = "", 0
		for _, o := range objs {
			if o.get() {
				if n == 0 {
					first = o.what
				}
				n++
			}
		}
		if n == 0 {
			break
		}
	}
	return first, n
}

// growth is how much memory loads of n copies of the project leave in use.
func (cx *Ctx) growth(c *Case, s *Spec, how How, n int) int64 {
	rec := len(cx.rec)
	cx.Run(c.Files, c.Cwd, s, func(_ *simrt.World, fs *simrt.FS) {
		for i := 0; i < n; i++ {
			cx.copies++
			to := fmt.Sprintf("/w/copy%09d", cx.copies)
			for _, f := range c.Files {
				fs.Put(to+strings.TrimPrefix(f.P, root), f.D)
			}
			_ = useAndDrop(c, to+strings.TrimPrefix(c.Entry, root), fs, how)
		}
	})
	for _, h := range cx.rec[rec:] { // names of copies depend on what was done before
		delete(cx.Hashes, h)
	}
	cx.rec = cx.rec[:rec]
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		simsync.DropPools()
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	d := int64(m.HeapAlloc) - cx.heap
	cx.heap = int64(m.HeapAlloc)
	return d
}

func init() {
	register(&Property{ID: "C24",
		Rule: "A case is a generated RAML project (some damaged), a way of loading and sometimes a failing hook; it is loaded and used under I/O faults and everything is dropped: after garbage collections no part of the model may be left, and loading copies of the project from ever new directories must not make the process grow.",
		Gen: func(r *simrt.Rng, tier string) *Case {
			o := sizes(r)
			o.Bad = r.Intn(3) * r.Intn(2)
			c := baseCase(r, o)
			c.N["mode"] = r.Intn(nModes)
			if r.P(0.2) {
				c.N["str"] = 1
			}
			if r.P(0.2) { // a file that is referred to is not there
				i := r.Intn(len(c.Files))
				if c.Files[i].P != c.Entry {
					c.Files = append(c.Files[:i:i], c.Files[i+1:]...)
				}
			}
			if r.P(0.3) {
				c.N["hook"], c.N["left"] = r.Intn(1<<10), r.Intn(30)
			}
			return c
		},
		Variants: func(cx *Ctx, c *Case) []*Spec {
			r := simrt.NewRng(seedOf(c.Seed, "v"))
			out := []*Spec{{K: "drop"}}
			for i := 0; i < limitN(cx, 4, 15); i++ {
				out = append(out, &Spec{K: "drop", Cfg: simrt.Config{Seed: r.Next(), Prob: map[string]float64{"io": []float64{0.02, 0.1}[i%2], "chunk": 0.2, "map": 0.3, "close": 0.02}, Max: map[string]int{"io": 1}}})
			}
			if cx.Tier == "thorough" || r.P(0.3) {
				out = append(out, &Spec{K: "grow"}, &Spec{K: "grow", Cfg: simrt.Config{Seed: r.Next(), Prob: map[string]float64{"io": 0.02, "close": 0.02}}})
			}
			return out
		},
		Eval: func(cx *Ctx, c *Case, s *Spec) *Fail {
			how := howOf(c)
			if s.K == "grow" {
				const n, limit = 24, 1536
				cx.growth(c, s, how, n)
				cx.growth(c, s, how, n)
				least := int64(1 << 60)
				for i := 0; i < 4; i++ {
					if least = min(least, cx.growth(c, s, how, n)); least < limit {
						cx.note(fmt.Sprint("no growth", i, " ", least/100))
						return nil
					}
				}
				return &Fail{Class: "growth", Detail: fmt.Sprintf("every %d loads of copies of the project in new directories leave more than %d bytes in use for ever", n, limit)}
			}
			var objs []alive
			e := cx.Run(c.Files, c.Cwd, s, func(_ *simrt.World, fs *simrt.FS) {
				objs = useAndDrop(c, c.Entry, fs, how)
			})
			if e.Panic != nil {
				cx.note("ended: " + e.Panic.Kind)
				return nil // C07 decides
			}
			if what, n := collect(objs); n > 0 {
				return finish(&Fail{Class: "kept", Site: strings.SplitN(what, " /", 2)[0], Detail: fmt.Sprintf("%d of %d objects of the model are still in use after it was dropped, the first is %s", n, len(objs), what)}, s, e)
			}
			cx.note(fmt.Sprint("dropped ", min(len(objs)/10*10, 50)))
			return nil
		}})
}
