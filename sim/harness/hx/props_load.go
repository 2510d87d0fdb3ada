//go:build go1.22

package hx

import (
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"path"
	"sort"
	"strings"

	raml "github.com/acronis/go-raml/v2"
	"github.com/acronis/go-raml/v2/zzsim/hooks"
	"github.com/acronis/go-raml/v2/zzsim/simrt"
	"github.com/acronis/go-stacktrace"
)

const root = "/w/p"

// baseCase makes a case with one project.
func baseCase(r *simrt.Rng, o GenOpt) *Case {
	files, entry, vals := Project(r, root, o)
	return &Case{Files: files, Entry: entry, Cwd: root, Vals: vals, N: map[string]int{}}
}

func sizes(r *simrt.Rng) GenOpt {
	return GenOpt{Libs: r.Intn(4), Types: 3 + r.Intn(7), Frags: r.P(0.6), Recurse: r.P(0.4), JSONType: r.P(0.25), Cycles: r.P(0.3), Mix: r.P(0.3), Same: r.P(0.35)}
}

// modes of loading
const (
	mBoth = iota
	mUnwrap
	mValidate
	mPlain
	mSteps
	nModes
)

func howOf(c *Case) How {
	h := How{Vals: c.Vals, Model: true}
	switch c.N["mode"] {
	case mBoth:
		h.Unwrap, h.Validate, h.Post = true, true, true
	case mUnwrap:
		h.Unwrap, h.Post = true, true
	case mValidate:
		h.Validate = true
	case mPlain:
	case mSteps:
		h.SepUnwrap, h.SepValidate, h.Post = true, true, true
	}
	h.Str = c.N["str"] == 1
	h.Func = funcOf(c)
	return h
}

// funcOf chooses between methods and functions.
func funcOf(c *Case) int { return max(0, int(c.Seed>>7%5)-2) }

func (cx *Ctx) base(c *Case, how How) *Obs {
	return memoize(cx, fmt.Sprintf("base %+v %p", how.Strip, how.Prep)+fmt.Sprint(how.Unwrap, how.Validate, how.SepUnwrap, how.SepValidate, how.Str, how.Post), func() *Obs {
		o, _ := cx.Load(c.Files, c.Cwd, c.Entry, &Spec{}, how)
		if o.V != "ok" && o.V != "err" {
			cx.note("base-" + o.V)
		} else {
			cx.note("base-" + o.V)
		}
		return o
	})
}

func (o *Obs) done() bool { return o.V == "ok" || o.V == "err" }

// diffObs compares what two loads did. Nil if they are the same.
func diffObs(a, b *Obs, text, model bool) *Fail {
	if a.V != b.V {
		return &Fail{Class: "verdict", Detail: fmt.Sprintf("one load ends with %q, the other with %q\n--- %s\n--- %s", a.V, b.V, cut(a.Err, 1200), cut(b.Err, 1200))}
	}
	if text && a.Err != b.Err {
		return &Fail{Class: "error-text", Detail: firstDiff(a.Err, b.Err)}
	}
	if model && a.Model != b.Model {
		return &Fail{Class: "model", Detail: firstDiff(a.Model, b.Model)}
	}
	if a.PostV != b.PostV {
		return &Fail{Class: "answers", Detail: firstDiff(a.PostV, b.PostV)}
	}
	if text && a.Post != b.Post {
		return &Fail{Class: "answer-text", Detail: firstDiff(a.Post, b.Post)}
	}
	return nil
}

func finish(f *Fail, s *Spec, e *Env) *Fail {
	if f == nil {
		return nil
	}
	if e != nil {
		f.Spec = pin(s, e)
		f.Log = tail(e.W.Log, 60)
	}
	return f
}

func entropy(seed uint64, p float64) simrt.Config {
	return simrt.Config{Seed: seed, Prob: map[string]float64{"map": p, "maplate": p, "rand": 1, "pool": 0.5}}
}

// ---- C01, C02

func orderVariants(cx *Ctx, c *Case) []*Spec {
	n := 3
	if cx.Tier == "thorough" {
		n = 8
	}
	var out []*Spec
	ps := []float64{1, 0.4, 1, 0.1, 0.7, 1, 0.02, 1}
	for i := 0; i < n; i++ {
		out = append(out, &Spec{K: "order", Cfg: entropy(seedOf(c.Seed, "o", i), ps[i])})
	}
	if len(c.More) > 0 {
		out = append(out, &Spec{K: "history"})
	}
	return out
}

func evalOrder(text bool) func(cx *Ctx, c *Case, s *Spec) *Fail {
	return func(cx *Ctx, c *Case, s *Spec) *Fail {
		how := howOf(c)
		b := cx.base(c, how)
		if !b.done() {
			return nil
		}
		if s.K == "history" {
			// other projects, and the same one, were loaded before in this process
			for _, p := range c.More {
				cx.Load(p.Files, c.Cwd, p.Entry, &Spec{}, how)
			}
		}
		o, e := cx.Load(c.Files, c.Cwd, c.Entry, s, how)
		f := diffObs(b, o, text, !text)
		if f != nil && (f.Class == "error-text" || f.Class == "answer-text") != text {
			return nil
		}
		if f != nil && !o.done() {
			return nil // C07 decides
		}
		return finish(f, s, e)
	}
}

func keyOrder(text bool) func(cx *Ctx, c *Case) uint64 {
	return func(cx *Ctx, c *Case) uint64 {
		o, _ := cx.Load(c.Files, c.Cwd, c.Entry, &Spec{}, howOf(c))
		if text {
			return seedOf(o.V, o.Err, o.Post)
		}
		return seedOf(o.V, o.Model, o.PostV)
	}
}

// other makes a second project on the same paths.
func other(r *simrt.Rng, c *Case, o GenOpt) Proj {
	if r.P(0.5) {
		files, _ := Mutate(r, c.Files)
		return Proj{Files: files, Entry: c.Entry}
	}
	files, entry, _ := Project(r, root, o)
	return Proj{Files: files, Entry: entry}
}

func init() {
	gen := func(text bool) func(r *simrt.Rng, tier string) *Case {
		return func(r *simrt.Rng, tier string) *Case {
			o := sizes(r)
			if text {
				o.Bad = 1 + r.Intn(5)
				o.Hot = r.P(0.5)
				if r.P(0.3) {
					o.Bad = 0
				}
			} else if r.P(0.15) {
				o.Bad = 1
			}
			c := baseCase(r, o)
			if r.P(0.2) {
				c.Files, _ = Mutate(r, c.Files)
			}
			if r.P(0.4) {
				c.N["mode"] = r.Intn(nModes)
			}
			for i := r.Intn(2); i > 0; i-- {
				c.More = append(c.More, other(r, c, o))
			}
			return c
		}
	}
	register(&Property{ID: "C01", Gen: gen(false), Variants: orderVariants, Eval: evalOrder(false), Key: keyOrder(false),
		Rule: "A case is a generated RAML project loaded several times under different seeded map iteration orders, random numbers, clocks and process histories; verdict, model and answers must be the same as in the canonical order."})
	register(&Property{ID: "C02", Gen: gen(true), Variants: orderVariants, Eval: evalOrder(true), Key: keyOrder(true),
		Rule: "A case is a generated RAML project with defects, and values to validate, loaded several times under different seeded map iteration orders, random numbers, clocks and process histories; every error text must be the same byte for byte as in the canonical order."})
}

// ---- C03

type ioBase struct {
	o   *Obs
	ops []simrt.IOOp
}

func (cx *Ctx) ioBase(c *Case, how How) *ioBase {
	return memoize(cx, "io", func() *ioBase {
		o, e := cx.Load(c.Files, c.Cwd, c.Entry, &Spec{}, how)
		cx.note("base-" + o.V)
		return &ioBase{o, e.W.IOOps}
	})
}

var ioValues = simrt.IOValues

func closeFailed(w *simrt.World) bool {
	for k := range w.Fired {
		if strings.HasPrefix(k, "close-") {
			return true
		}
	}
	return false
}

// sample keeps n elements of xs, chosen by the seed.
func sample[T any](r *simrt.Rng, xs []T, n int) []T {
	if len(xs) <= n {
		return xs
	}
	var out []T
	p := r.Perm(len(xs))[:n]
	sort.Ints(p)
	for _, i := range p {
		out = append(out, xs[i])
	}
	return out
}

func limitN(cx *Ctx, quick, thorough int) int {
	if cx.Tier == "thorough" {
		return thorough
	}
	return quick
}

func ioSweep(cx *Ctx, c *Case, how How, n int) []*Spec {
	b := cx.ioBase(c, how)
	if !b.o.done() {
		return nil
	}
	r := simrt.NewRng(seedOf(c.Seed, "sweep"))
	var out []*Spec
	for i, op := range b.ops {
		first := 1 + r.Intn(ioValues[op.Op])
		for v := 1; v <= ioValues[op.Op]; v++ {
			if v != first && !r.P(0.1) {
				continue
			}
			out = append(out, &Spec{K: "io", Cfg: simrt.Config{Decs: []simrt.Dec{{K: "io", N: i, V: v}}, Expl: true}})
		}
	}
	return sample(&r, out, n)
}

func init() {
	register(&Property{ID: "C03",
		Rule: "A case is a generated RAML project; every I/O operation of its load (a seeded sample if there are many) is made to fail in turn with each kind of error, files are removed or replaced by directories, the number of open files is limited, and read faults are combined with short reads; the load must fail and name the file.",
		Gen: func(r *simrt.Rng, tier string) *Case {
			o := sizes(r)
			o.Frags = r.P(0.8)
			if r.P(0.15) {
				o.Bad = 1
			}
			c := baseCase(r, o)
			c.N["mode"] = r.Intn(nModes)
			if r.P(0.15) {
				c.N["str"] = 1
			}
			if r.P(0.4) && c.N["str"] == 0 {
				c.S = path.Base(c.Entry) // relative to the working directory
				c.Cwd = path.Dir(c.Entry)
			}
			if r.P(0.3) { // content longer than the buffers that read it
				i := r.Intn(len(c.Files))
				c.Files[i].D += strings.Repeat("\n"+strings.Repeat(" ", 60), 80+r.Intn(300)) + "\n"
			}
			return c
		},
		Variants: func(cx *Ctx, c *Case) []*Spec {
			how := howOf(c)
			how.Model, how.Post = false, false
			cc := *c
			if c.S != "" {
				cc.Entry = c.S
			}
			out := ioSweep(cx, &cc, how, limitN(cx, 30, 400))
			r := simrt.NewRng(seedOf(c.Seed, "v"))
			b := cx.ioBase(&cc, how)
			if !b.o.done() {
				return nil
			}
			// faults while reads are short
			for i := 0; i < 4; i++ {
				out = append(out, &Spec{K: "io", Cfg: simrt.Config{Seed: r.Next(), Prob: map[string]float64{"io": 0.05, "chunk": 0.8}, Max: map[string]int{"io": 1 + r.Intn(2)}}})
			}
			seen := map[string]bool{}
			for _, op := range b.ops {
				if op.Op == "open" && !seen[op.Path] && op.Path != c.Entry {
					seen[op.Path] = true
				}
			}
			ks := make([]string, 0, len(seen))
			for k := range seen {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range sample(&r, ks, 4) {
				out = append(out, &Spec{K: "gone", S: k}, &Spec{K: "dir", S: k})
			}
			out = append(out, &Spec{K: "limit", A: []int{1 + r.Intn(3)}})
			return out
		},
		Eval: func(cx *Ctx, c *Case, s *Spec) *Fail {
			how := howOf(c)
			how.Model, how.Post = false, false
			entry := c.Entry
			if c.S != "" {
				entry = c.S
			}
			cc := *c
			cc.Entry = entry
			b := cx.ioBase(&cc, how)
			if !b.o.done() {
				return nil
			}
			files := c.Files
			if s.K == "gone" || s.K == "dir" {
				files = nil
				for _, f := range c.Files {
					if f.P == s.S {
						if s.K == "dir" {
							files = append(files, FileC{f.P + "/x", ""})
						}
						continue
					}
					files = append(files, f)
				}
			}
			o := &Obs{}
			fs := simrt.NewFS(fileMap(files), c.Cwd)
			fs.Muts = s.Muts
			if s.K == "limit" && len(s.A) > 0 {
				fs.Limit = s.A[0]
			}
			e := cx.RunFS(fs, s, func(_ *simrt.World, fs *simrt.FS) {
				o.R = raml.New(bg)
				o.E = parseInto(o.R, fs, entry, how)
				o.observe(how, files)
			})
			o.ended(e)
			// what failed?
			var failed []string
			for i, op := range e.W.IOOps {
				for _, d := range e.W.Rec {
					if d.K == "io" && d.N == i {
						p := op.Path
						if op.Op == "getwd" {
							p = path.Base(c.Entry)
						}
						failed = append(failed, op.Op+" "+p)
					}
				}
			}
			if s.K == "limit" && e.W.Fired["open-limit"] > 0 {
				failed = append(failed, "open ")
			}
			if (s.K == "gone" || s.K == "dir") && len(e.W.IOOps) > 0 {
				for _, op := range e.W.IOOps {
					if op.Op == "open" && op.Path == s.S {
						failed = append(failed, "open "+s.S)
						break
					}
				}
			}
			if len(failed) == 0 {
				return nil
			}
			if !o.done() {
				return finish(&Fail{Class: o.V, Site: o.Site, Detail: fmt.Sprintf("%s failed, and the load ended with %s: %s", failed, o.V, o.Err)}, s, e)
			}
			kind := strings.Fields(failed[0])[0]
			if o.V == "ok" {
				return finish(&Fail{Class: "swallowed", Site: kind, Detail: fmt.Sprintf("%s failed, but the load succeeded", failed)}, s, e)
			}
			if b.o.V == "ok" {
				named := false
				for _, x := range failed {
					p := x[strings.IndexByte(x, ' ')+1:]
					if p == "" {
						// some path must be named that exists
						for _, f := range c.Files {
							if strings.Contains(o.Err, f.P) && f.P != c.Entry {
								named = true
							}
						}
					} else if strings.Contains(o.Err, p) {
						named = true
					}
				}
				reason := s.K == "gone" || s.K == "dir"
				for k := range e.W.Fired {
					_, text, _ := strings.Cut(k, "-")
					if k == "open-limit" {
						text = "too many open files"
					}
					if strings.Contains(o.Err, text) {
						reason = true
					}
				}
				if !reason {
					return finish(&Fail{Class: "no-reason", Site: kind, Detail: fmt.Sprintf("%s failed, but the error does not say why: %s", failed, cut(o.Err, 800))}, s, e)
				}
				if !named {
					return finish(&Fail{Class: "not-named", Site: kind, Detail: fmt.Sprintf("%s failed, but the error does not name it: %s", failed, cut(o.Err, 800))}, s, e)
				}
			}
			return nil
		}})
}

// ---- C04

func init() {
	register(&Property{ID: "C04",
		Rule: "A case is a generated, partly damaged RAML project (long first lines, CRLF, multi-byte text included); it is loaded again with the content of its files split over reads in seeded ways, and must give the same verdict, error text and model as with whole reads.",
		Gen: func(r *simrt.Rng, tier string) *Case {
			o := sizes(r)
			o.Frags = r.P(0.8)
			o.Bad = r.Intn(2) * r.Intn(3)
			c := baseCase(r, o)
			c.N["mode"] = r.Intn(nModes)
			switch r.Intn(6) {
			case 0:
				c.Files, _ = Mutate(r, c.Files)
			case 1: // a long first line
				i := r.Intn(len(c.Files))
				if h, t, ok := strings.Cut(c.Files[i].D, "\n"); ok && strings.HasPrefix(h, "#%") {
					c.Files[i].D = h + strings.Repeat(" ", 4000+r.Intn(300)) + pick(r, "\n", "\r\n") + t
				}
			case 2:
				for i := range c.Files {
					c.Files[i].D = strings.ReplaceAll(c.Files[i].D, "\n", "\r\n")
				}
			case 3:
				for i := range c.Files {
					c.Files[i].D = strings.ReplaceAll(c.Files[i].D, "about", "über – 漢字 🎉")
				}
			case 4: // long lines
				i := r.Intn(len(c.Files))
				c.Files[i].D += "# " + strings.Repeat("é", 3000+r.Intn(3000)) + "\n"
			}
			return c
		},
		Variants: func(cx *Ctx, c *Case) []*Spec {
			var out []*Spec
			ps := []float64{1, 0.5, 0.1, 1, 1, 0.9, 0.02, 0.3, 1, 1}
			for i := 0; i < limitN(cx, 5, 10); i++ {
				out = append(out, &Spec{K: "chunk", Cfg: simrt.Config{Seed: seedOf(c.Seed, "c", i), Prob: map[string]float64{"chunk": ps[i]}}})
			}
			return out
		},
		Eval: func(cx *Ctx, c *Case, s *Spec) *Fail {
			how := howOf(c)
			b := cx.base(c, how)
			if !b.done() {
				return nil
			}
			o, e := cx.Load(c.Files, c.Cwd, c.Entry, s, how)
			// how far the YAML reader has read ahead when it meets an invalid character
			// decides which of two problems of such a file it reports
			text := true
			for _, f := range c.Files {
				text = text && isText(f.D)
			}
			return finish(diffObs(b, o, text || b.V == "ok", true), s, e)
		}})
}

// isText tells whether YAML allows every character of d.
func isText(d string) bool {
	for _, x := range strings.TrimPrefix(d, "\ufeff") {
		switch {
		case x == 9, x == 10, x == 13, x >= 0x20 && x <= 0x7e, x == 0x85, x >= 0xa0 && x <= 0xd7ff,
			x >= 0xe000 && x < 0xfffd && x != 0xfeff, x >= 0x10000:
		default:
			return false // 0xfffd also stands for an invalid byte
		}
	}
	return true
}

// ---- hooks

type tokenErr struct{ n int }

func (t *tokenErr) Error() string {
	return fmt.Sprintf("hook failure %d-%d of the simulator", t.n, t.n*7+1)
}

var hookFired int // failing hook calls of the current run (load runs have one task)

type hookCalls struct {
	keys []int // key of every call, in order
	at   map[int]*tokenErr
	fail map[int]bool
}

// prepHooks installs on every hook point a hook that counts and fails at given calls.
func prepHooks(h *hookCalls) func(r *raml.RAML) {
	return func(r *raml.RAML) {
		for i, k := range hooks.Keys {
			i := i
			r.AppendHook(k, func(_ context.Context, _ *raml.RAML, _ ...any) error {
				n := len(h.keys)
				h.keys = append(h.keys, i)
				if h.fail[n] {
					e := &tokenErr{n}
					if h.at == nil {
						h.at = map[int]*tokenErr{}
					}
					h.at[n] = e
					hookFired++
					return e
				}
				return nil
			})
		}
	}
}

func failHooks(ns ...int) *hookCalls {
	h := &hookCalls{fail: map[int]bool{}}
	for _, n := range ns {
		h.fail[n] = true
	}
	return h
}

// hookSample picks calls so that every hook point is covered.
func hookSample(r *simrt.Rng, keys []int, n int) []int {
	by := map[int][]int{}
	for i, k := range keys {
		by[k] = append(by[k], i)
	}
	var ks []int
	for k := range by {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var out []int
	have := map[int]bool{}
	add := func(x int) {
		if !have[x] {
			have[x] = true
			out = append(out, x)
		}
	}
	for _, k := range ks {
		add(by[k][r.Intn(len(by[k]))])
		add(by[k][len(by[k])-1])
		add(by[k][0])
	}
	for i := 0; len(out) < n && i < n && len(keys) > 0; i++ {
		add(r.Intn(len(keys)))
	}
	if len(out) > n {
		out = sample(r, out, n)
	}
	return out
}

func (cx *Ctx) hookBase(c *Case, how How) (*Obs, []int) {
	type hb struct {
		o *Obs
		k []int
	}
	x := memoize(cx, "hooks", func() *hb {
		h := failHooks()
		how.Prep = prepHooks(h)
		o, _ := cx.Load(c.Files, c.Cwd, c.Entry, &Spec{}, how)
		return &hb{o, h.keys}
	})
	return x.o, x.k
}

// hasErr tells if err includes the error of a hook.
func hasErr(err error, t *tokenErr) bool {
	if err == nil {
		return false
	}
	return strings.Contains(errText(err), t.Error()) && reaches(err, t)
}

// reaches tells if the error of a hook can be found in err: as a cause, or in a stack trace.
func reaches(err error, t *tokenErr) bool {
	for err != nil {
		if errors.Is(err, t) {
			return true
		}
		if st, ok := err.(*stacktrace.StackTrace); ok {
			if st == nil {
				return false
			}
			for _, x := range st.List {
				if reaches(x, t) {
					return true
				}
			}
			if st.Wrapped != nil && reaches(st.Wrapped, t) {
				return true
			}
			err = st.Err
			continue
		}
		err = errors.Unwrap(err)
	}
	return false
}

// ---- C05

func handlesOK(fs *simrt.FS) string {
	for _, h := range fs.Handles {
		if h.Closes != 1 {
			return fmt.Sprintf("%s was closed %d times", h.Path, h.Closes)
		}
	}
	return ""
}

func init() {
	register(&Property{ID: "C05",
		Rule: "A case is a generated, often defective or damaged RAML project loaded in one of five ways; I/O operations and close calls are made to fail in turn (and in seeded combinations), and hooks are made to fail; when the load returns every file opened must have been closed exactly once, and a failing close must be an ordinary error.",
		Gen: func(r *simrt.Rng, tier string) *Case {
			o := sizes(r)
			o.Frags = r.P(0.8)
			o.Bad = r.Intn(3)
			c := baseCase(r, o)
			c.N["mode"] = r.Intn(nModes)
			if r.P(0.4) {
				c.Files, _ = Mutate(r, c.Files)
			}
			return c
		},
		Variants: func(cx *Ctx, c *Case) []*Spec {
			how := howOf(c)
			how.Model, how.Post = false, false
			out := []*Spec{{K: "plain"}}
			b := cx.ioBase(c, how)
			if !b.o.done() {
				return nil
			}
			r := simrt.NewRng(seedOf(c.Seed, "v"))
			nc := 0
			for _, op := range b.ops {
				if op.Op == "open" {
					nc++
				}
			}
			var cl []*Spec
			for i := 0; i < nc; i++ {
				cl = append(cl, &Spec{K: "close", Cfg: simrt.Config{Decs: []simrt.Dec{{K: "close", N: i, V: 1 + r.Intn(ioValues["close"])}}, Expl: true}})
			}
			out = append(out, sample(&r, cl, limitN(cx, 8, 100))...)
			out = append(out, ioSweep(cx, c, how, limitN(cx, 14, 200))...)
			for i := 0; i < 4; i++ {
				out = append(out, &Spec{K: "mix", Cfg: simrt.Config{Seed: r.Next(), Prob: map[string]float64{"io": 0.08, "close": 0.3, "chunk": 0.3}, Max: map[string]int{"io": 3}}})
			}
			_, keys := cx.hookBase(c, how)
			for _, n := range hookSample(&r, keys, limitN(cx, 5, 60)) {
				out = append(out, &Spec{K: "hook", A: []int{n}})
			}
			return out
		},
		Eval: func(cx *Ctx, c *Case, s *Spec) *Fail {
			how := howOf(c)
			how.Model, how.Post = false, false
			if s.K == "hook" {
				how.Prep = prepHooks(failHooks(s.A...))
			}
			b := cx.ioBase(c, how)
			if !b.o.done() {
				return nil
			}
			var bad string
			o := &Obs{}
			e := cx.Run(c.Files, c.Cwd, s, func(_ *simrt.World, fs *simrt.FS) {
				o.R = raml.New(bg)
				if how.Prep != nil {
					how.Prep(o.R)
				}
				o.E = parseInto(o.R, fs, c.Entry, how)
				bad = handlesOK(fs)
				o.observe(how, c.Files)
			})
			o.ended(e)
			if !o.done() {
				return finish(&Fail{Class: o.V, Site: o.Site, Detail: fmt.Sprintf("%v: %s", e.W.FiredList(), o.Err)}, s, e)
			}
			if bad != "" {
				return finish(&Fail{Class: "handle", Detail: bad + "; the load returned: " + cut(o.Err, 500)}, s, e)
			}
			if closeFailed(e.W) && o.V == "ok" {
				return finish(&Fail{Class: "close-swallowed", Detail: "a close failed, but the load succeeded"}, s, e)
			}
			return nil
		}})
}

// ---- C06

func isFragment(f FileC) bool {
	return strings.HasPrefix(f.D, "#%RAML 1.0") || strings.HasPrefix(path.Base(f.P), "j") && strings.HasSuffix(f.P, ".json")
}

func init() {
	register(&Property{ID: "C06",
		Rule: "A case is a generated RAML project whose fragments are referenced repeatedly, through different spellings of their paths and through cycles; during a load each fragment must be opened at most once, all references must denote the same object, and replacing or deleting a fragment right after it was opened (seeded instants) must not change the outcome.",
		Gen: func(r *simrt.Rng, tier string) *Case {
			o := sizes(r)
			o.Frags, o.Libs, o.Cycles = true, 1+r.Intn(4), r.P(0.6)
			var c *Case
			if r.P(0.3) {
				c = graphCase(r)
			} else {
				c = baseCase(r, o)
			}
			c.N["mode"] = r.Intn(nModes)
			c.N["name"] = r.Intn(4)
			return c
		},
		Variants: func(cx *Ctx, c *Case) []*Spec {
			out := []*Spec{{K: "once"}}
			how := howOf(c)
			e := entryName(c)
			cc := *c
			cc.Entry = e
			b := cx.ioBase(&cc, how)
			if b.o.V != "ok" {
				return out
			}
			r := simrt.NewRng(seedOf(c.Seed, "v"))
			first := map[string]int{}
			var order []string
			for _, op := range b.ops {
				if op.Op == "open" {
					if _, ok := first[op.Path]; !ok {
						first[op.Path] = op.T
						order = append(order, op.Path)
					}
				}
			}
			frag := map[string]bool{}
			for _, f := range c.Files {
				frag[f.P] = isFragment(f)
			}
			var ms []*Spec
			for _, p := range order {
				if !frag[p] {
					continue
				}
				at := first[p] + 1
				ms = append(ms, &Spec{K: "edit", Muts: []simrt.Mut{{At: at, Path: p, Delete: true}}})
				ms = append(ms, &Spec{K: "edit", Muts: []simrt.Mut{{At: at + r.Intn(3), Path: p, Data: pick(&r, "", "#%RAML 1.0 Library\ntypes:\n  Z: string\n", "#%RAML 1.0 DataType\ntype: integer\n", "broken: [")}}})
			}
			ms = sample(&r, ms, limitN(cx, 6, 60))
			// all at once
			var all []simrt.Mut
			for _, p := range order {
				if frag[p] {
					all = append(all, simrt.Mut{At: first[p] + 1, Path: p, Delete: true})
				}
			}
			if len(all) > 0 {
				ms = append(ms, &Spec{K: "edit", Muts: all})
			}
			return append(out, ms...)
		},
		Eval: func(cx *Ctx, c *Case, s *Spec) *Fail {
			how := howOf(c)
			name := entryName(c)
			if s.K == "once" {
				o := &Obs{}
				plain := How{}
				if c.N["graph"] != 0 {
					plain = howOf(c)
				}
				var bad string
				e := cx.Run(c.Files, c.Cwd, s, func(_ *simrt.World, fs *simrt.FS) {
					o.R = raml.New(bg)
					o.E = parseInto(o.R, fs, name, plain)
					o.observe(plain, c.Files)
					if o.E == nil && !plain.Unwrap && !plain.SepUnwrap {
						bad = sharing(o.R)
					}
				})
				o.ended(e)
				if o.V == "err" && c.N["graph"] != 0 && c.N["graph"] == sumOf(c.Files) {
					return finish(&Fail{Class: "rejected", Detail: "files that only refer to each other are rejected: " + cut(o.Err, 800)}, s, e)
				}
				if o.V != "ok" {
					return nil
				}
				frag := map[string]bool{}
				for _, f := range c.Files {
					frag[f.P] = isFragment(f)
				}
				n := map[string]int{}
				for _, h := range e.FS.Handles {
					n[h.Path]++
					if frag[h.Path] && n[h.Path] > 1 {
						return finish(&Fail{Class: "opened-again", Detail: fmt.Sprintf("%s was opened %d times", h.Path, n[h.Path])}, s, e)
					}
				}
				if bad != "" {
					return finish(&Fail{Class: "two-objects", Detail: bad}, s, e)
				}
				return nil
			}
			cc := *c
			cc.Entry = name
			b := cx.ioBase(&cc, how)
			if b.o.V != "ok" {
				return nil
			}
			o, e := cx.Load(c.Files, c.Cwd, name, s, how)
			if len(e.W.FiredList()) == 0 {
				return nil
			}
			return finish(diffObs(b.o, o, true, true), s, e)
		}})
}

// graphCase makes files that refer to each other in any way, cycles included, and nothing else: all of them are valid.
func graphCase(r *simrt.Rng) *Case {
	c := &Case{Cwd: root, N: map[string]int{}}
	n := 1 + r.Intn(7)
	lib := make([]bool, n)
	at := make([]string, n)
	for i := range at {
		lib[i] = r.P(0.5)
		at[i] = root + pick(r, "", "", "/a", "/a/b", "/c") + fmt.Sprintf("/f%d.raml", i)
		c.Files = append(c.Files, FileC{P: at[i]})
	}
	ref := func(i, j int) string {
		s := rel(at[i], at[j])
		switch r.Intn(8) {
		case 0:
			s = "./" + s
		case 1:
			s = "../" + path.Base(path.Dir(at[i])) + "/" + s
		case 2:
			// A leading slash means nothing.
			s = pick(r, "/", "//", "/./", "/x/../") + s
		case 3:
			s = pick(r, "x/../", ".//", "././", "x/./y/../../") + s
		}
		return s
	}
	for i := range at {
		var b strings.Builder
		b.WriteString("#%RAML 1.0 " + map[bool]string{true: "Library", false: "DataType"}[lib[i]] + "\n")
		var used []int
		for j := range at {
			if lib[j] && r.P(0.5) {
				used = append(used, j)
			}
		}
		uses := ""
		if len(used) > 0 {
			uses = "uses:\n"
			for _, j := range used {
				uses += fmt.Sprintf("  u%d: %s\n", j, ref(i, j))
			}
		}
		type1 := func(ind string) string {
			t := ind + "type: object\n"
			if r.P(0.3) {
				t = ""
			}
			t += ind + "properties:\n"
			for k := 1 + r.Intn(3); k > 0; k-- {
				x := "string"
				if j := r.Intn(n); !lib[j] {
					x = "!include " + ref(i, j)
					if r.P(0.2) {
						x = "\n" + ind + "    type: " + x
					}
				} else if len(used) > 0 {
					x = fmt.Sprintf("u%d.T%d", used[r.Intn(len(used))], r.Intn(2)) + pick(r, "", "[]", " | nil", "?")
				} else if lib[i] {
					x = fmt.Sprintf("T%d", r.Intn(2)) + pick(r, "", "[]", " | nil", "?")
				}
				t += fmt.Sprintf("%s  p%d?: %s\n", ind, k, x)
			}
			return t
		}
		if lib[i] {
			types := "types:\n"
			for k := 0; k < 2; k++ {
				if j := r.Intn(n); !lib[j] && r.P(0.4) {
					types += fmt.Sprintf("  T%d: !include %s\n", k, ref(i, j))
				} else {
					types += fmt.Sprintf("  T%d:\n%s", k, type1("    "))
				}
			}
			if r.P(0.3) {
				b.WriteString(types + uses)
			} else {
				b.WriteString(uses + types)
			}
		} else if r.P(0.3) {
			b.WriteString(type1("") + uses)
		} else {
			b.WriteString(uses + type1(""))
		}
		c.Files[i].D = b.String()
	}
	c.Entry = at[r.Intn(n)]
	c.N["graph"] = sumOf(c.Files)
	return c
}

// sumOf tells whether files are as they were made.
func sumOf(files []FileC) int {
	h := fnv.New32a()
	for _, f := range files {
		fmt.Fprintf(h, "%q %q\n", f.P, f.D)
	}
	return int(h.Sum32())
}

// stale makes an older version of a project: the same structure with other texts and values.
func stale(files []FileC) []FileC {
	rep := strings.NewReplacer("about ", "once about ", "shown ", "was shown ", "minimum: 2", "minimum: 1", "strict: true", "strict: false", "maxLength: ", "maxLength: 1")
	out := make([]FileC, len(files))
	for i, f := range files {
		out[i] = f
		switch {
		case isFragment(f):
			out[i].D = rep.Replace(f.D)
		case strings.HasSuffix(f.P, ".txt"):
			out[i].D = "old" + f.D
		default:
			out[i].D = "\"old\"\n"
		}
	}
	return out
}

// entryName is how the case names its entry.
func entryName(c *Case) string {
	d, b := dirBase(c.Entry)
	switch c.N["name"] {
	case 1:
		return d + "/./" + b
	case 2:
		return d + "/../" + path.Base(d) + "/" + b
	case 3:
		return rel(c.Cwd+"/x", c.Entry)
	}
	return c.Entry
}

// sharing checks that all references to a fragment denote the same object.
func sharing(r *raml.RAML) string {
	libs, dts, nes := map[string]*raml.Library{}, map[string]*raml.DataType{}, map[string]*raml.NamedExample{}
	bad := ""
	seen := map[any]bool{}
	var shape func(b *raml.BaseShape)
	var lib func(l *raml.Library)
	var dt func(d *raml.DataType)
	check := func(loc string, got raml.Fragment) {
		if w := r.GetFragment(loc); w != nil && w != got && bad == "" {
			bad = fmt.Sprintf("a reference to %s denotes another object than the fragment of the model", loc)
		}
	}
	ex := func(e *raml.Examples) {
		if e != nil && e.Link != nil {
			if o := nes[e.Link.Location]; o != nil && o != e.Link && bad == "" {
				bad = "two objects for " + e.Link.Location
			}
			nes[e.Link.Location] = e.Link
			check(e.Link.Location, e.Link)
		}
	}
	shape = func(b *raml.BaseShape) {
		if b == nil || seen[b] || bad != "" {
			return
		}
		seen[b] = true
		if b.Link != nil {
			dt(b.Link)
		}
		ex(b.Examples)
		for _, i := range b.Inherits {
			shape(i)
		}
		shape(b.Alias)
		switch s := b.Shape.(type) {
		case *raml.ObjectShape:
			for p := s.Properties.Oldest(); p != nil; p = p.Next() {
				shape(p.Value.Base)
			}
			for p := s.PatternProperties.Oldest(); p != nil; p = p.Next() {
				shape(p.Value.Base)
			}
		case *raml.ArrayShape:
			shape(s.Items)
		case *raml.UnionShape:
			for _, m := range s.AnyOf {
				shape(m)
			}
		}
	}
	lib = func(l *raml.Library) {
		if l == nil || seen[l] || bad != "" {
			return
		}
		seen[l] = true
		if o := libs[l.Location]; o != nil && o != l {
			bad = "two objects for " + l.Location
		}
		libs[l.Location] = l
		check(l.Location, l)
		for p := l.Uses.Oldest(); p != nil; p = p.Next() {
			lib(p.Value.Link)
		}
		for p := l.Types.Oldest(); p != nil; p = p.Next() {
			shape(p.Value)
		}
		for p := l.AnnotationTypes.Oldest(); p != nil; p = p.Next() {
			shape(p.Value)
		}
	}
	dt = func(d *raml.DataType) {
		if d == nil || seen[d] || bad != "" {
			return
		}
		seen[d] = true
		if o := dts[d.Location]; o != nil && o != d {
			bad = "two objects for " + d.Location
		}
		dts[d.Location] = d
		check(d.Location, d)
		for p := d.Uses.Oldest(); p != nil; p = p.Next() {
			lib(p.Value.Link)
		}
		shape(d.Shape)
	}
	switch f := r.EntryPoint().(type) {
	case *raml.Library:
		lib(f)
	case *raml.DataType:
		dt(f)
	}
	return bad
}

// ---- C08

func init() {
	register(&Property{ID: "C08",
		Rule: "A case is a generated RAML project (some defective) loaded in one of five ways with a hook on all hook points; hooks that return nil must not change the outcome, and the hook is made to fail at calls sampled so that every hook point that is reached is covered (first, last and random calls, also two calls): the operation must fail and include the error of the hook.",
		Gen: func(r *simrt.Rng, tier string) *Case {
			o := sizes(r)
			o.Bad = r.Intn(2) * r.Intn(2)
			c := baseCase(r, o)
			c.N["mode"] = r.Intn(nModes)
			return c
		},
		Variants: func(cx *Ctx, c *Case) []*Spec {
			how := howOf(c)
			o, keys := cx.hookBase(c, how)
			if !o.done() {
				return nil
			}
			out := []*Spec{{K: "nil"}}
			r := simrt.NewRng(seedOf(c.Seed, "v"))
			for _, n := range hookSample(&r, keys, limitN(cx, 26, 400)) {
				out = append(out, &Spec{K: "fail", A: []int{n}})
				if r.P(0.15) {
					out = append(out, &Spec{K: "fail", A: []int{n, n + 1 + r.Intn(10)}})
				}
			}
			for i := 0; i < 3; i++ {
				if len(keys) > 0 {
					out = append(out, &Spec{K: "fail", A: []int{r.Intn(len(keys))}, Cfg: entropy(r.Next(), 0.5)})
				}
			}
			return out
		},
		Eval: func(cx *Ctx, c *Case, s *Spec) *Fail {
			how := howOf(c)
			if s.K == "nil" {
				b := cx.base(c, how)
				if !b.done() {
					return nil
				}
				how.Prep = prepHooks(failHooks())
				o, e := cx.Load(c.Files, c.Cwd, c.Entry, s, how)
				return finish(diffObs(b, o, true, true), s, e)
			}
			b, _ := cx.hookBase(c, how)
			if !b.done() {
				return nil
			}
			h := failHooks(s.A...)
			how.Prep = prepHooks(h)
			how.Model, how.Post = false, false
			o, e := cx.Load(c.Files, c.Cwd, c.Entry, s, how)
			if len(h.at) == 0 {
				return nil
			}
			var ns []int
			for n := range h.at {
				ns = append(ns, n)
			}
			sort.Ints(ns)
			site := hooks.Names[h.keys[ns[0]]]
			cx.note("failed " + site)
			if !o.done() {
				return finish(&Fail{Class: o.V, Site: site, Detail: fmt.Sprintf("hook call %v fails: %s at %s", ns, o.Err, o.Site)}, s, e)
			}
			if o.V == "ok" {
				return finish(&Fail{Class: "swallowed", Site: site, Detail: fmt.Sprintf("the hook failed at call %v, but the operation succeeded", ns)}, s, e)
			}
			for _, n := range ns {
				if !hasErr(o.E, h.at[n]) {
					site = hooks.Names[h.keys[n]]
					return finish(&Fail{Class: "lost", Site: site, Detail: fmt.Sprintf("the error does not include the error of the hook (call %d): %s", n, cut(o.Err, 1500))}, s, e)
				}
			}
			return nil
		}})
}

// ---- C12

func init() {
	register(&Property{ID: "C12",
		Rule: "A case is a generated RAML project, optionally another project loaded before into the same model; a load fails while files are read or references resolved (seeded I/O faults at every operation, damaged files, failing hooks); the model must contain what it contained before, and loading again once the cause is gone must equal loading into a model without the failure.",
		Gen: func(r *simrt.Rng, tier string) *Case {
			o := sizes(r)
			o.Frags = r.P(0.8)
			c := baseCase(r, o)
			c.N["mode"] = pick(r, mPlain, mPlain, mBoth, mUnwrap, mSteps)
			if r.P(0.5) {
				files, entry, _ := Project(r, "/w/first", sizes(r))
				c.More = append(c.More, Proj{files, entry})
			}
			// damaged versions of the project
			for i := 0; i < 3; i++ {
				files, _ := Mutate(r, c.Files)
				c.More = append(c.More, Proj{files, c.Entry})
			}
			c.N["first"] = len(c.More) - 3
			c.N["stale"] = 1
			return c
		},
		Variants: func(cx *Ctx, c *Case) []*Spec {
			b := cx.ioBase(c, How{})
			if b.o.V != "ok" {
				return nil
			}
			out := ioSweep(cx, c, How{}, limitN(cx, 12, 200))
			r := simrt.NewRng(seedOf(c.Seed, "v"))
			_, keys := cx.hookBase(c, How{})
			for _, n := range hookSample(&r, keys, limitN(cx, 12, 100)) {
				out = append(out, &Spec{K: "hook", A: []int{n}})
			}
			for i := c.N["first"]; i < len(c.More); i++ {
				out = append(out, &Spec{K: "damaged", A: []int{i}})
			}
			var cl []*Spec
			n := 0
			for _, op := range b.ops {
				// the entry is closed last, when the load is complete
				if op.Op == "open" && op.Path != c.Entry {
					cl = append(cl, &Spec{K: "io", Cfg: simrt.Config{Decs: []simrt.Dec{{K: "close", N: n, V: 1 + r.Intn(ioValues["close"])}}, Expl: true}})
					n++
				}
			}
			out = append(out, sample(&r, cl, 3)...)
			if c.N["stale"] == 1 {
				// the failing load finds an older version of the files
				var old []*Spec
				for _, s := range out {
					if s.K == "io" || s.K == "hook" {
						t := *s
						t.S = "stale"
						old = append(old, &t)
					}
				}
				out = append(out, sample(&r, old, limitN(cx, 6, 60))...)
			}
			// the project has been loaded; loading it or another file of it again fails
			var again []*Spec
			for _, s := range out {
				t := *s
				t.A = append(append([]int(nil), s.A...), r.Intn(1+2*len(c.Files)))
				t.K = "again-" + s.K
				again = append(again, &t)
			}
			return append(out, sample(&r, again, limitN(cx, 6, 60))...)
		},
		Eval: func(cx *Ctx, c *Case, s *Spec) *Fail {
			how := howOf(c)
			if strings.HasPrefix(s.K, "again-") {
				return failAgain(cx, c, s)
			}
			hasFirst := c.N["first"] > 0 && len(c.More) > 0
			all := append([]FileC(nil), c.Files...)
			if hasFirst {
				all = append(all, c.More[0].Files...)
			}
			// without the failure
			type st struct {
				o     *Obs
				first string
			}
			want := memoize(cx, "without", func() *st {
				x := &st{o: &Obs{}}
				e := cx.Run(all, c.Cwd, &Spec{}, func(_ *simrt.World, fs *simrt.FS) {
					x.o.R = raml.New(bg)
					if hasFirst {
						if parseInto(x.o.R, fs, c.More[0].Entry, How{}) != nil {
							x.first = "failed"
							return
						}
						x.first = dumpModel(x.o.R, pathsOf(c.More[0].Files), "")
					}
					x.o.E = parseInto(x.o.R, fs, c.Entry, how)
					x.o.observe(how, all)
				})
				x.o.ended(e)
				return x
			})
			if !want.o.done() || want.first == "failed" {
				return nil
			}
			if s.K == "io" {
				opens := 0
				for _, op := range cx.ioBase(c, How{}).ops {
					if op.Op == "open" {
						opens++
					}
				}
				for _, d := range s.Cfg.Decs {
					if d.K == "close" && d.N >= opens-1 {
						return nil // the entry is closed last, when the load is complete
					}
				}
			}
			bad := all
			if s.K == "damaged" {
				if s.A[0] >= len(c.More) {
					return nil
				}
				bad = append(append([]FileC(nil), c.More[s.A[0]].Files...), all[len(c.Files):]...)
			}
			if s.S == "stale" {
				bad = append(stale(c.Files), all[len(c.Files):]...)
			}
			// the failing load runs in a world of its own: its I/O ordinals start at zero
			var f *Fail
			o := &Obs{}
			fired := ""
			fs := simrt.NewFS(fileMap(all), c.Cwd)
			cx.odd = true // the failing load has a world of its own
			defer func() { cx.odd = false }()
			e := cx.RunFS(fs, s0(s), func(w *simrt.World, _ *simrt.FS) {
				r := raml.New(bg)
				o.R = r
				var before string
				if hasFirst {
					if parseInto(r, fs, c.More[0].Entry, How{}) != nil {
						return
					}
				}
				before = dumpModel(r, pathsOf(all), "")
				fs2 := simrt.NewFS(fileMap(bad), c.Cwd)
				w2 := simrt.NewWorld(fs2, s.Cfg)
				var h *hookCalls
				if s.K == "damaged" {
					cx.Fired["disk-damaged"]++
				}
				if s.S == "stale" {
					cx.Fired["disk-older"]++
				}
				if s.K == "hook" {
					h = failHooks(s.A...)
					prepHooks(h)(r)
				}
				simrt.SetWorld(w2)
				err := parseInto(r, fs2, c.Entry, How{})
				simrt.SetWorld(w)
				for _, x := range w2.FiredList() {
					fired += x + " "
				}
				for k, n := range w2.Fired {
					cx.Fired[k] += n
				}
				w.Event("first load: %d io, fired %s", len(w2.IOOps), fired)
				for _, k := range hooks.Keys {
					r.ClearHooks(k)
				}
				if err == nil {
					cx.note("did not fail")
					o.V = "skip"
					return
				}
				cx.note("failed")
				if after := dumpModel(r, pathsOf(all), ""); after != before {
					f = &Fail{Class: "left-behind", Detail: "after the failed load the model is not what it was before: " + firstDiff(before, after) + "\nthe load failed with " + cut(errText(err), 600)}
					return
				}
				if hasFirst {
					if d := dumpModel(r, pathsOf(c.More[0].Files), ""); d != want.first {
						f = &Fail{Class: "earlier-load-changed", Detail: firstDiff(want.first, d)}
						return
					}
				}
				o.E = parseInto(r, fs, c.Entry, how)
				o.observe(how, all)
			})
			o.V0(e)
			if o.V == "skip" {
				return nil
			}
			if f == nil && e.Panic != nil {
				f = &Fail{Class: o.V, Site: o.Site, Detail: "after a failed load (" + fired + "): " + o.Err}
			}
			if f == nil {
				if f = diffObs(want.o, o, true, true); f != nil {
					f.Class = "retry-" + f.Class
					f.Detail = "loading again after a failed load (" + fired + ") differs from loading without the failure: " + f.Detail
				}
			}
			return f
		}})
}

// failAgain loads the project and then fails to load it, or another file of it, into the same model.
func failAgain(cx *Ctx, c *Case, s *Spec) *Fail {
	how := howOf(c)
	how.Model, how.Post = false, false
	entry := c.Entry
	if n := s.A[len(s.A)-1]; n < len(c.Files) {
		entry = c.Files[n].P
	}
	bad := c.Files
	if s.K == "again-damaged" {
		if s.A[0] >= len(c.More) {
			return nil
		}
		bad = c.More[s.A[0]].Files
	}
	if s.S == "stale" {
		bad = stale(c.Files)
	}
	var f *Fail
	cx.odd = true // the failing load has a world of its own
	defer func() { cx.odd = false }()
	e := cx.RunFS(simrt.NewFS(fileMap(c.Files), c.Cwd), s0(s), func(w *simrt.World, fs *simrt.FS) {
		r := raml.New(bg)
		if parseInto(r, fs, c.Entry, how) != nil {
			return
		}
		before := dumpModel(r, pathsOf(c.Files), "")
		use := func() string {
			if !how.Unwrap && !how.SepUnwrap {
				return ""
			}
			s, _ := exercise(r, pathsOf(c.Files), c.Vals, 8, 6)
			return s
		}
		was := use()
		fs2 := simrt.NewFS(fileMap(bad), c.Cwd)
		w2 := simrt.NewWorld(fs2, s.Cfg)
		if s.K == "again-hook" {
			prepHooks(failHooks(s.A[:1]...))(r)
		}
		simrt.SetWorld(w2)
		err := parseInto(r, fs2, entry, How{})
		simrt.SetWorld(w)
		for k, n := range w2.Fired {
			cx.Fired[k] += n
		}
		w.Event("load again: %d io", len(w2.IOOps))
		for _, k := range hooks.Keys {
			r.ClearHooks(k)
		}
		opens := 0
		for _, op := range w2.IOOps {
			if op.Op == "open" {
				opens++
			}
		}
		if d := s.Cfg.Decs; len(d) > 0 && d[0].K == "close" && d[0].N >= opens-1 {
			return // the entry is closed last, when the load is complete
		}
		if err == nil {
			cx.note("again: did not fail")
			return
		}
		cx.note("again: failed")
		if after := dumpModel(r, pathsOf(c.Files), ""); after != before {
			f = &Fail{Class: "left-behind", Detail: "after a failed load of " + entry + ", which was loaded before, the model is not what it was: " + firstDiff(before, after) + "\nthe load failed with " + cut(errText(err), 600)}
			return
		}
		if is := use(); is != was {
			f = &Fail{Class: "earlier-load-changed", Detail: firstDiff(was, is)}
		}
	})
	if f == nil && e.Panic != nil && e.Panic.Kind != "panic" {
		return nil // C07 decides
	}
	return finish(f, s, e)
}

// s0 is a spec without faults that counts as an execution of its own.
func s0(s *Spec) *Spec {
	t := &Spec{K: s.K, A: append([]int(nil), s.A...)}
	for _, d := range s.Cfg.Decs {
		t.K += d.K
		t.A = append(t.A, d.N, d.V)
	}
	return t
}

// V0 is ended, but keeps what was observed.
func (o *Obs) V0(e *Env) {
	if e.Panic != nil {
		o.ended(e)
	}
}

// ---- C13

func init() {
	register(&Property{ID: "C13",
		Rule: "A case is a generated RAML project, with or without defects and unwrapped or not; the model is printed completely before and after validation - successful, failing, or aborted by a hook at sampled calls, under seeded map orders - and repeated validation and later operations must see the same model.",
		Gen: func(r *simrt.Rng, tier string) *Case {
			o := sizes(r)
			o.Bad = r.Intn(3)
			if r.P(0.4) {
				o.Bad = 0
			}
			c := baseCase(r, o)
			c.N["unwrap"] = r.Intn(2)
			return c
		},
		Variants: func(cx *Ctx, c *Case) []*Spec {
			out := []*Spec{{K: "validate"}, {K: "validate", Cfg: entropy(seedOf(c.Seed, "v1"), 1)}}
			how := How{Unwrap: c.N["unwrap"] == 1}
			k := memoize(cx, "n", func() []int {
				var keys []int
				cx.Run(c.Files, c.Cwd, &Spec{}, func(_ *simrt.World, fs *simrt.FS) {
					r := raml.New(bg)
					if parseInto(r, fs, c.Entry, how) == nil {
						h := failHooks()
						prepHooks(h)(r)
						_ = r.ValidateShapes()
						keys = h.keys
					}
				})
				return keys
			})
			r := simrt.NewRng(seedOf(c.Seed, "v"))
			for _, n := range hookSample(&r, k, limitN(cx, 10, 100)) {
				out = append(out, &Spec{K: "abort", A: []int{n}})
			}
			return out
		},
		Eval: func(cx *Ctx, c *Case, s *Spec) *Fail {
			how := How{Unwrap: c.N["unwrap"] == 1}
			type st struct {
				v1, v2, dump, later string
			}
			never := memoize(cx, "never", func() *st {
				x := &st{}
				e := cx.Run(c.Files, c.Cwd, &Spec{}, func(_ *simrt.World, fs *simrt.FS) {
					r := raml.New(bg)
					if err := parseInto(r, fs, c.Entry, how); err != nil {
						x.v1 = "load"
						return
					}
					x.dump = dumpModel(r, pathsOf(c.Files), "")
					x.later = later(r, c, how.Unwrap)
				})
				if e.Panic != nil {
					x.v1 = "panic"
				}
				return x
			})
			if never.v1 != "" {
				cx.note("not loaded")
				return nil
			}
			cx.note("loaded")
			var f *Fail
			e := cx.Run(c.Files, c.Cwd, s, func(_ *simrt.World, fs *simrt.FS) {
				r := raml.New(bg)
				if parseInto(r, fs, c.Entry, how) != nil {
					return
				}
				before := dumpModel(r, pathsOf(c.Files), "")
				var h *hookCalls
				if s.K == "abort" {
					h = failHooks(s.A...)
					prepHooks(h)(r)
				}
				e1 := errText(r.ValidateShapes())
				for _, k := range hooks.Keys {
					r.ClearHooks(k)
				}
				if e1 == "" {
					cx.note("valid")
				} else {
					cx.note("invalid")
				}
				after := dumpModel(r, pathsOf(c.Files), "")
				if after != before {
					f = &Fail{Class: "model-changed", Detail: firstDiff(before, after) + "\nvalidation returned " + cut(e1, 400)}
					return
				}
				e2 := errText(r.ValidateShapes())
				if s.K != "abort" && e1 != e2 {
					f = &Fail{Class: "verdict-changed", Detail: firstDiff(e1, e2)}
					return
				}
				if after2 := dumpModel(r, pathsOf(c.Files), ""); after2 != before {
					f = &Fail{Class: "model-changed", Detail: "by the second validation: " + firstDiff(before, after2)}
					return
				}
				if s.K == "abort" {
					// the verdict of a validation that is not aborted
					r2 := raml.New(bg)
					if parseInto(r2, fs, c.Entry, how) == nil {
						if e3 := errText(r2.ValidateShapes()); e3 != e2 {
							f = &Fail{Class: "verdict-changed", Detail: "after an aborted validation: " + firstDiff(e3, e2)}
							return
						}
					}
				}
				if l := later(r, c, how.Unwrap); l != never.later {
					f = &Fail{Class: "later", Detail: "operations after validation differ: " + firstDiff(never.later, l)}
				}
			})
			if f == nil && e.Panic != nil {
				if s.K == "abort" {
					f = &Fail{Class: e.Panic.Kind, Site: e.Panic.Site, Detail: e.Panic.Msg}
				} else {
					return nil // C07 decides
				}
			}
			return finish(f, s, e)
		}})
}

// later are operations after validation.
func later(r *raml.RAML, c *Case, unwrapped bool) string {
	s := ""
	if !unwrapped {
		err := r.UnwrapShapes()
		s += errText(err) + "\n"
		if err != nil {
			return s // what is half unwrapped is not for use
		}
		s += dumpModel(r, pathsOf(c.Files), "")
	}
	p, _ := exercise(r, pathsOf(c.Files), c.Vals, 8, 6)
	return s + p
}

// ---- C16

// the base name stays: a project may name its own directory
const otherRoot = "/elsewhere/deep/copy of it/p"

func init() {
	register(&Property{ID: "C16",
		Rule: "A case is a generated RAML project; its entry is named in seeded ways (absolute, relative to one of several working directories, with redundant elements, a copy of the project elsewhere, content plus directory) and the working directory changes at seeded instants after the entry was opened; verdict and model must equal those of the absolute clean path, apart from the directory.",
		Gen: func(r *simrt.Rng, tier string) *Case {
			o := sizes(r)
			o.Frags, o.Cycles = r.P(0.8), r.P(0.5)
			o.Bad = r.Intn(2) * r.Intn(2)
			c := baseCase(r, o)
			c.N["mode"] = r.Intn(nModes)
			return c
		},
		Variants: func(cx *Ctx, c *Case) []*Spec {
			d, b := dirBase(c.Entry)
			var out []*Spec
			r := simrt.NewRng(seedOf(c.Seed, "v"))
			add := func(cwd, name string) { out = append(out, &Spec{K: "name", S: cwd + "|" + name}) }
			add("/", c.Entry)
			add("/", c.Entry[1:])
			add(d, b)
			add(d, "./"+b)
			add("/w", rel("/w/x", c.Entry))
			add("/w/q/z", rel("/w/q/z/x", c.Entry))
			add("/", d+"//"+b)
			add("/", d+"/../"+path.Base(d)+"/./"+b)
			add(d, "x/../"+b)
			add(d+"/lib", rel(d+"/lib/x", c.Entry))
			out = sample(&r, out, limitN(cx, 5, 20))
			out = append(out, &Spec{K: "string", S: "clean"}, &Spec{K: "string", S: "unclean"}, &Spec{K: "string", S: "sub"})
			out = append(out, &Spec{K: "moved", S: "abs"}, &Spec{K: "moved", S: "rel"})
			for i := 0; i < 2; i++ {
				out = append(out, &Spec{K: "chdir", Muts: []simrt.Mut{{At: 2 + r.Intn(6), Path: pick(&r, "/", "/w", "/w/q", otherRoot), Chdir: true}}})
			}
			return out
		},
		Eval: func(cx *Ctx, c *Case, s *Spec) *Fail {
			how := howOf(c)
			how.Strip = root
			b := cx.base(c, how)
			if !b.done() {
				return nil
			}
			files, cwd, name := c.Files, c.Cwd, c.Entry
			_, base := dirBase(c.Entry)
			switch s.K {
			case "name":
				cwd, name, _ = strings.Cut(s.S, "|")
			case "string":
				how.Str = true
				switch s.S {
				case "unclean":
					how.StrDir, how.StrName = path.Dir(c.Entry)+"/../"+path.Base(path.Dir(c.Entry))+"/", "./"+base
				case "sub":
					how.StrDir, how.StrName = path.Dir(path.Dir(c.Entry)), path.Base(path.Dir(c.Entry))+"/"+base
				}
			case "moved":
				files = nil
				for _, f := range c.Files {
					files = append(files, FileC{otherRoot + strings.TrimPrefix(f.P, root), strings.ReplaceAll(f.D, root, otherRoot)})
				}
				name = otherRoot + strings.TrimPrefix(c.Entry, root)
				cwd = path.Dir(name)
				how.Strip = otherRoot
				if s.S == "rel" {
					name = base
				}
			case "chdir":
				name = base
				cwd = path.Dir(c.Entry)
			}
			cx.odd = true // another name, directory or working directory
			defer func() { cx.odd = false }()
			o, e := cx.Load(files, cwd, name, s, how)
			f := diffObs(b, o, false, true)
			if f != nil {
				f.Site = s.K
				f.Detail = fmt.Sprintf("entry %q in %q, %s: %s", name, cwd, s.K, f.Detail)
			}
			return finish(f, s, e)
		}})
}

// ---- C17

func init() {
	register(&Property{ID: "C17",
		Rule: "A case is a generated RAML project (some defective); it is loaded with options and, in another run with the same or other map orders and with hooks failing at the same sampled calls, without options followed by the same steps; verdict, error content and model must be the same, and unwrapping an unwrapped type must return it unchanged.",
		Gen: func(r *simrt.Rng, tier string) *Case {
			o := sizes(r)
			o.Bad = r.Intn(3)
			if r.P(0.4) {
				o.Bad = 0
			}
			c := baseCase(r, o)
			c.N["opt"] = 1 + r.Intn(3)
			c.N["order"] = r.Intn(4)
			if r.P(0.25) {
				c.N["before"] = 1 + r.Intn(8)
			}
			if r.P(0.15) {
				c.N["str"] = 1
			}
			return c
		},
		Variants: func(cx *Ctx, c *Case) []*Spec {
			out := []*Spec{{K: "steps"}, {K: "steps", Cfg: entropy(seedOf(c.Seed, "a"), 1)}, {K: "again"}, {K: "again", Cfg: entropy(seedOf(c.Seed, "b"), 1)}}
			r := simrt.NewRng(seedOf(c.Seed, "v"))
			o, keys := cx.hookBase(c, c17opts(c))
			if !o.done() {
				return nil
			}
			for _, n := range hookSample(&r, keys, limitN(cx, 5, 60)) {
				out = append(out, &Spec{K: "steps", A: []int{n}})
			}
			return out
		},
		Eval: func(cx *Ctx, c *Case, s *Spec) *Fail {
			a := c17opts(c)
			b := How{SepUnwrap: a.Unwrap, SepValidate: a.Validate, Model: true, Post: a.Post, Vals: c.Vals, Before: a.Before, Str: a.Str, Func: int(c.Seed >> 5 % 3)}
			if s.K == "again" {
				var f *Fail
				e := cx.Run(c.Files, c.Cwd, s, func(_ *simrt.World, fs *simrt.FS) {
					r := raml.New(bg)
					if parseInto(r, fs, c.Entry, How{Unwrap: true}) != nil {
						return
					}
					cx.note("unwrapped again")
					before := dumpModel(r, pathsOf(c.Files), "")
					for _, t := range listTypes(r, pathsOf(c.Files)) {
						if !t.B.IsUnwrapped() {
							f = &Fail{Class: "not-unwrapped", Detail: t.Name + " is not unwrapped after loading with unwrapping"}
							return
						}
						u, err := r.UnwrapShape(t.B)
						if err != nil || u != t.B {
							f = &Fail{Class: "again", Detail: fmt.Sprintf("unwrapping %s again returns another type or an error: %v", t.Name, err)}
							return
						}
					}
					if after := dumpModel(r, pathsOf(c.Files), ""); after != before {
						f = &Fail{Class: "again", Detail: "unwrapping again changed the model: " + firstDiff(before, after)}
					}
				})
				if e.Panic != nil {
					return nil
				}
				return finish(f, s, e)
			}
			var ha, hb *hookCalls
			if len(s.A) > 0 {
				ha, hb = failHooks(s.A...), failHooks(s.A...)
				a.Prep, b.Prep = prepHooks(ha), prepHooks(hb)
			}
			oa, ea := cx.Load(c.Files, c.Cwd, c.Entry, &Spec{}, a)
			ob, e := cx.Load(c.Files, c.Cwd, c.Entry, s, b)
			if ea.Panic != nil && e.Panic != nil {
				return nil
			}
			if oa.V == "err" && ob.V == "err" && ob.E != nil {
				// the load wraps the error of a step
				if !strings.Contains(oa.Err, strings.TrimSpace(strings.SplitN(ob.E.Error(), "\n", 2)[0])) && !strings.Contains(oa.E.Error(), ob.E.Error()) {
					return finish(&Fail{Class: "error-content", Detail: fmt.Sprintf("with options: %s\nas steps: %s", cut(oa.Err, 1000), cut(ob.Err, 1000))}, s, e)
				}
				return nil
			}
			f := diffObs(oa, ob, false, true)
			return finish(f, s, e)
		}})
}

func c17opts(c *Case) How {
	how := How{Unwrap: c.N["opt"]&1 == 1, Validate: c.N["opt"]&2 == 2, Model: true, Post: c.N["opt"]&1 == 1, Vals: c.Vals,
		OptOrder: c.N["order"], Str: c.N["str"] == 1, Func: funcOf(c)}
	if n := c.N["before"]; n > 0 && len(c.Files) > 0 {
		how.Before = c.Files[n%len(c.Files)].P
	}
	return how
}
