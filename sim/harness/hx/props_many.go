//go:build go1.22

package hx

import (
	"context"
	"errors"
	"fmt"
	"strings"

	raml "github.com/acronis/go-raml/v2"
	"github.com/acronis/go-raml/v2/zzsim/simrt"
)

// ---- C21

// fragAlone is what a fragment is when it is the only one that is loaded into a model (with what it refers to).
type fragAlone struct {
	loads, ok bool
	names     []string
	text      []string
	notes     string
}

// annotationsOf describes the annotations in a file of an unwrapped model.
func annotationsOf(r *raml.RAML, p string) string {
	out := ""
	for _, d := range r.GetAllAnnotationsPtr() {
		if d.Location != p {
			continue
		}
		out += d.Name + ": "
		if d.Extension != nil {
			out += dumpAny(d.Extension.Value)
		}
		if d.DefinedBy != nil {
			out += d.DefinedBy.Location + " " + dumpMeaning(d.DefinedBy, 2)
		}
	}
	return out
}

func entriesOf(c *Case) []string {
	var out []string
	for _, p := range pathsOf(c.Files) {
		for _, f := range c.Files {
			if f.P == p && (strings.HasPrefix(f.D, "#%RAML 1.0 Library\n") || strings.HasPrefix(f.D, "#%RAML 1.0 DataType\n")) {
				out = append(out, p)
			}
		}
	}
	return out
}

// fragments finds out what each fragment is alone. Nil if the case cannot be used.
func (cx *Ctx) fragments(c *Case) map[string]*fragAlone {
	return *memoize(cx, "fragments", func() *map[string]*fragAlone {
		m := map[string]*fragAlone{}
		for _, p := range entriesOf(c) {
			a := &fragAlone{}
			bad := false
			e := cx.Run(c.Files, c.Cwd, &Spec{}, func(_ *simrt.World, fs *simrt.FS) {
				r := raml.New(bg)
				if parseInto(r, fs, p, How{}) != nil {
					return
				}
				a.loads = true
				var bs []*raml.BaseShape
				for _, t := range listTypes(r, pathsOf(c.Files)) {
					bs = append(bs, t.B)
				}
				if cyclicParents(bs) {
					bad = true
					return
				}
				r = raml.New(bg)
				if parseInto(r, fs, p, How{Unwrap: true, Validate: true}) != nil {
					return
				}
				a.ok = true
				for _, t := range listTypes(r, []string{p}) {
					a.names = append(a.names, t.Name)
					a.text = append(a.text, dumpMeaning(t.B, meaningDepth)+verdicts(t.B, c.Vals))
				}
				a.notes = annotationsOf(r, p)
			})
			if bad || e.Panic != nil {
				cx.note("left out")
				var none map[string]*fragAlone
				return &none
			}
			m[p] = a
		}
		return &m
	})
}

func genMany(r *simrt.Rng, tier string) *Case {
	o := sizes(r)
	o.Libs = 1 + r.Intn(4)
	o.Types = 2 + r.Intn(5)
	o.Frags = r.P(0.8)
	if r.P(0.2) {
		o.Bad = 1
	}
	c := baseCase(r, o)
	if r.P(0.4) {
		files, entry, vals := Project(r, "/w/second", sizes(r))
		c.More = []Proj{{Entry: entry}}
		c.Files = append(c.Files, files...)
		c.Vals = append(c.Vals, vals...)
	}
	for i := 3 + r.Intn(9); i > 0; i-- {
		c.Ops = append(c.Ops, Op{K: pick(r, "load", "load", "load", "load", "torn", "hook", "unwrap", "validate", "use", "use"), A: r.Intn(1 << 16), B: r.Intn(1 << 16)})
	}
	return c
}

func variantsMany(cx *Ctx, c *Case) []*Spec {
	if cx.fragments(c) == nil {
		return nil
	}
	out := []*Spec{{K: "plain"}, {K: "orders", Cfg: entropy(seedOf(c.Seed, "m"), 0.5)}}
	for i := 0; i < limitN(cx, 3, 12); i++ {
		out = append(out, &Spec{K: "faults", A: []int{i}, Cfg: simrt.Config{Seed: seedOf(c.Seed, "f", i), Prob: map[string]float64{"io": 0.02, "chunk": 0.1, "map": 0.3, "maplate": 0.3}, Max: map[string]int{"io": 1 + i%3}}})
	}
	return out
}

// many performs the history of the case. If there is look2, it decides after each operation, and not what
// the fragments are alone; unwrapped tells that all types of the model are.
func many(cx *Ctx, c *Case, s *Spec, look2 func(w *simrt.World, r *raml.RAML, ps []string, unwrapped bool, when string) *Fail) *Fail {
	m := cx.fragments(c)
	if len(m) == 0 {
		return nil
	}
	ps := entriesOf(c)
	var f *Fail
	e := cx.Run(c.Files, c.Cwd, s, func(w *simrt.World, fs *simrt.FS) {
		r := raml.New(bg)
		frags := map[string]raml.Fragment{} // what was seen in the model
		held := map[string]*raml.BaseShape{}
		var entry raml.Fragment
		last := false // everything in the model is unwrapped
		faults := func() int {
			n := 0
			for k, x := range w.Fired {
				if k != "short-read" {
					n += x
				}
			}
			return n
		}
		fail := func(class, site, format string, args ...any) bool {
			if look2 == nil { // otherwise C21 decides
				f = &Fail{Class: class, Site: site, Detail: fmt.Sprintf(format, args...)}
			}
			return false
		}
		allOK := func() bool { // no fragment in the model that is not valid alone
			for _, p := range ps {
				if r.GetFragment(p) != nil && !m[p].ok {
					cx.note("invalid fragment in the model")
					return false
				}
			}
			return true
		}
		look := func(when string) bool {
			if closeFailed(w) { // the load is complete and fails nevertheless: what is there is not known
				last, entry = false, r.EntryPoint()
			}
			for _, p := range ps {
				x := r.GetFragment(p)
				if was, ok := frags[p]; ok {
					if x != was {
						return fail("fragment", "replaced", "%s the model has another object for %s", when, p)
					}
				} else if x != nil {
					frags[p] = x
				}
			}
			if look2 != nil {
				f = look2(w, r, ps, last, when)
				if f == nil && r.EntryPoint() != entry {
					f = &Fail{Class: "entry", Detail: when + " the entry point is not that of the last load that succeeded"}
				}
				return f == nil
			}
			if last {
				for _, t := range listTypes(r, ps) {
					if held[t.Name] == nil {
						held[t.Name] = t.B
					}
				}
			}
			return true
		}
		judge := func(when string) bool {
			for _, p := range ps {
				x, a := r.GetFragment(p), m[p]
				if x == nil {
					continue
				}
				if !a.ok {
					return allOK()
				}
				ts := listTypes(r, []string{p})
				if len(ts) != len(a.names) {
					return fail("types", "", "%s %s has %d types, alone it has %d", when, p, len(ts), len(a.names))
				}
				for i, t := range ts {
					if t.Name != a.names[i] {
						return fail("types", "", "%s type %d of %s is %s, alone it is %s", when, i, p, t.Name, a.names[i])
					}
					for _, b := range []*raml.BaseShape{t.B, held[t.Name]} {
						if b == nil {
							continue
						}
						if got := dumpMeaning(b, meaningDepth) + verdicts(b, c.Vals); got != a.text[i] {
							return fail("meaning", "", "%s the type %s is not what it is when %s is loaded alone: %s", when, t.Name, p, firstDiff(a.text[i], got))
						}
					}
				}
				if got := annotationsOf(r, p); got != a.notes {
					return fail("annotations", "", "%s the annotations in %s are not what they are when it is loaded alone: %s", when, p, firstDiff(a.notes, got))
				}
			}
			return true
		}
		for n, op := range c.Ops {
			p := ps[op.A%len(ps)]
			a := m[p]
			when := fmt.Sprintf("after operation %d (%s of %s)", n, op.K, p)
			switch op.K {
			case "load", "torn", "hook":
				if r.GetFragment(p) != nil || a.loads && !a.ok {
					continue
				}
				how := How{Unwrap: op.B&1 == 1, Validate: op.B&2 == 2, Str: op.B&12 == 12}
				if op.K == "torn" {
					q := ps[op.B/16%len(ps)]
					if frags[q] != nil {
						continue
					}
					text, _ := fs.Read(q)
					fs.Put(q, text[:19+op.B/64%(len(text)-18)])
					err := parseInto(r, fs, p, How{})
					fs.Put(q, text)
					if err == nil {
						for _, x := range ps {
							if r.GetFragment(x) != nil && x == q {
								cx.note("torn but valid")
								return
							}
						}
						last, entry = false, r.GetFragment(p)
					}
					cx.note("torn")
					if !look(when) {
						return
					}
					continue
				}
				if op.K == "hook" {
					left, called := op.B/16%40, false
					failing := func(context.Context, *raml.RAML, ...any) error {
						if left--; left < 0 {
							called = true
							return errors.New("the hook says no")
						}
						return nil
					}
					r.AppendHook(raml.HookBeforeRAMLMakeNewShapeYAML, failing)
					err := parseInto(r, fs, p, How{})
					r.ClearHooks(raml.HookBeforeRAMLMakeNewShapeYAML)
					if err == nil {
						if called {
							return // C08 decides
						}
						last, entry = false, r.GetFragment(p)
					}
					cx.note("hook")
					if !look(when) {
						return
					}
					continue
				}
				n0 := faults()
				err := parseInto(r, fs, p, how)
				switch {
				case err == nil && !a.loads && n0 == faults():
					fail("accepted", "", "%s the load succeeded, alone it fails", when)
					return
				case err != nil && a.ok && n0 == faults():
					fail("fails", "", "%s the load fails, alone it succeeds: %s", when, cut(errText(err), 800))
					return
				}
				if err == nil {
					last, entry = how.Unwrap, r.GetFragment(p)
				}
				cx.note("load " + verdict(err))
			case "unwrap":
				if err := r.UnwrapShapes(); err != nil {
					_ = allOK() && fail("fails", "unwrap", "%s it fails, for each fragment alone it does not: %s", when, cut(errText(err), 800))
					return
				}
				last = true
			case "validate":
				if err := r.ValidateShapes(); err != nil {
					_ = allOK() && fail("fails", "validate", "%s it fails, for each fragment alone it does not: %s", when, cut(errText(err), 800))
					return
				}
			case "use":
				ts := listTypes(r, ps)
				if !last || len(ts) == 0 {
					continue
				}
				t := ts[op.B%len(ts)]
				switch op.B >> 8 % 4 {
				case 0:
					_ = verdicts(t.B, c.Vals)
				case 1:
					_ = convert(t.B)
				case 2:
					_ = t.B.CloneDetached()
				case 3:
					_ = t.B.Clone(map[int64]*raml.BaseShape{})
				}
				cx.note("used")
			}
			if !look(when) {
				return
			}
		}
		if !last {
			if err := r.UnwrapShapes(); err != nil {
				_ = allOK() && fail("fails", "unwrap", "after all operations unwrapping fails, for each fragment alone it does not: %s", cut(errText(err), 800))
				return
			}
			last = true
		}
		if !look("after all operations") || look2 == nil && !judge("after all operations") {
			return
		}
		if err := r.ValidateShapes(); err != nil {
			_ = allOK() && fail("fails", "validate", "after all operations validation fails, for each fragment alone it does not: %s", cut(errText(err), 800))
			return
		}
		cx.note(fmt.Sprintf("fragments %d", min(len(frags), 5)))
	})
	if f == nil && e.Panic != nil {
		cx.note("ended: " + e.Panic.Kind)
		return nil // C07 decides
	}
	return finish(f, s, e)
}

func init() {
	register(&Property{ID: "C21",
		Rule:     "A case is one or two generated RAML projects of several fragments (some damaged) and a seeded history of loads of these fragments into one model in any order and way, with I/O faults, torn files and failing hooks in some loads, and validations, unwrapping and use of the types in between; every load must end as it does alone, and at the end every fragment in the model must be what it is when it is loaded alone, while objects obtained earlier stay valid.",
		Gen:      genMany,
		Variants: variantsMany,
		Eval:     func(cx *Ctx, c *Case, s *Spec) *Fail { return many(cx, c, s, nil) }})
}
