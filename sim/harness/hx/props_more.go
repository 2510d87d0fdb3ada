//go:build go1.22

package hx

import (
	"fmt"

	raml "github.com/acronis/go-raml/v2"
	"github.com/acronis/go-raml/v2/zzsim/simrt"
)

// ---- C19

const meaningDepth = 4

// cyclicParents tells whether some type inherits, directly or indirectly, from a type that is made of it.
// What such a type inherits depends on which of the two is unwrapped first (a known finding).
func cyclicParents(bs []*raml.BaseShape) bool {
	// Tarjan's strongly connected components
	index, low, on := map[*raml.BaseShape]int{}, map[*raml.BaseShape]int{}, map[*raml.BaseShape]bool{}
	var stack []*raml.BaseShape
	found := false
	next := func(b *raml.BaseShape) []*raml.BaseShape {
		out := append([]*raml.BaseShape(nil), b.Inherits...)
		if b.Alias != nil {
			out = append(out, b.Alias)
		}
		if b.Link != nil && b.Link.Shape != nil {
			out = append(out, b.Link.Shape)
		}
		for p := b.CustomShapeFacetDefinitions.Oldest(); p != nil; p = p.Next() {
			out = append(out, p.Value.Base)
		}
		switch s := b.Shape.(type) {
		case *raml.ObjectShape:
			for p := s.Properties.Oldest(); p != nil; p = p.Next() {
				out = append(out, p.Value.Base)
			}
			for p := s.PatternProperties.Oldest(); p != nil; p = p.Next() {
				out = append(out, p.Value.Base)
			}
		case *raml.ArrayShape:
			if s.Items != nil {
				out = append(out, s.Items)
			}
		case *raml.UnionShape:
			out = append(out, s.AnyOf...)
		}
		return out
	}
	n := 0
	var rec func(b *raml.BaseShape)
	rec = func(b *raml.BaseShape) {
		n++
		index[b], low[b] = n, n
		stack = append(stack, b)
		on[b] = true
		for _, x := range next(b) {
			if index[x] == 0 {
				rec(x)
				low[b] = min(low[b], low[x])
			} else if on[x] {
				low[b] = min(low[b], index[x])
			}
		}
		if low[b] != index[b] {
			return
		}
		size, inh := 0, false
		for {
			x := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			on[x] = false
			size++
			inh = inh || len(x.Inherits) > 0 || x.Link != nil
			if x == b {
				break
			}
		}
		if size > 1 && inh {
			found = true
		}
	}
	for _, b := range bs {
		if index[b] == 0 {
			rec(b)
		}
	}
	return found
}

// verdicts are the answers of a type.
func verdicts(b *raml.BaseShape, vals []string) string {
	out := ""
	for j, v := range valsFor(vals, b.Name) {
		if j >= 12 {
			break
		}
		out += verdict(b.Validate(value(v))) + "\n"
	}
	return out + "check " + verdict(b.Check()) + "\n"
}

type meant struct {
	ok    bool
	names []string
	text  []string
}

// alone finds out what each type of a case means, each in a model of which nothing else was unwrapped.
func (cx *Ctx) alone(c *Case) *meant {
	return memoize(cx, "alone", func() *meant {
		m := &meant{ok: true}
		e := cx.Run(c.Files, c.Cwd, &Spec{}, func(_ *simrt.World, fs *simrt.FS) {
			all := raml.New(bg)
			if parseInto(all, fs, c.Entry, How{}) != nil || func() bool {
				r := raml.New(bg)
				return parseInto(r, fs, c.Entry, How{Unwrap: true}) != nil
			}() {
				m.ok = false
				cx.note("not loaded")
				return
			}
			ts := listTypes(all, pathsOf(c.Files))
			var bs []*raml.BaseShape
			for _, t := range ts {
				bs = append(bs, t.B)
			}
			if cyclicParents(bs) && c.N["cyclic"] == 0 {
				m.ok = false
				cx.note("left out: inherits from what it is part of")
				return
			}
			for _, t := range ts {
				b := t.B.CloneDetached()
				u, err := all.UnwrapShape(b)
				if err != nil {
					m.ok = false
					cx.note("not unwrapped alone")
					return
				}
				if _, err = all.FindAndMarkRecursion(u); err != nil {
					m.ok = false
					return
				}
				m.names = append(m.names, t.Name)
				m.text = append(m.text, dumpMeaning(u, meaningDepth)+verdicts(u, c.Vals))
			}
			cx.note("loaded")
		})
		if e.Panic != nil {
			m.ok = false
			cx.note("ended: " + e.Panic.Kind)
		}
		return m
	})
}

func init() {
	register(&Property{ID: "C19",
		Rule: "A case is a generated RAML project with types that combine each other by inheritance, references and copies; what each type means - its complete unfolding to a depth, and its answers - after seeded histories of unwrapping, marking, copying, checking, validating and converting types in any order, and after unwrapping the whole model, must be what it means when a copy of it is unwrapped alone.",
		Gen: func(r *simrt.Rng, tier string) *Case {
			o := sizes(r)
			o.Recurse = r.P(0.25)
			o.Mix = r.P(0.8)
			c := baseCase(r, o)
			for i := 3 + r.Intn(14); i > 0; i-- {
				c.Ops = append(c.Ops, Op{K: pick(r, "unwrap", "unwrap", "unwrap", "unwrap", "copy", "copy", "mark", "check", "answers", "convert", "validate"), A: r.Intn(1 << 16), B: r.Intn(1 << 8)})
			}
			return c
		},
		Variants: func(cx *Ctx, c *Case) []*Spec {
			if !cx.alone(c).ok {
				return nil
			}
			out := []*Spec{{K: "whole"}, {K: "whole", Cfg: entropy(seedOf(c.Seed, "w"), 1)}, {K: "validated"}, {K: "history", A: []int{0}}, {K: "history", A: []int{1}, Cfg: entropy(seedOf(c.Seed, "h"), 0.5)}}
			for i := 2; i < limitN(cx, 4, 12); i++ {
				out = append(out, &Spec{K: "history", A: []int{i}})
			}
			return out
		},
		Eval: func(cx *Ctx, c *Case, s *Spec) *Fail {
			m := cx.alone(c)
			if !m.ok {
				return nil
			}
			var f *Fail
			e := cx.Run(c.Files, c.Cwd, s, func(_ *simrt.World, fs *simrt.FS) {
				r := raml.New(bg)
				if parseInto(r, fs, c.Entry, How{}) != nil {
					return
				}
				ts := listTypes(r, pathsOf(c.Files))
				if len(ts) != len(m.names) {
					return
				}
				judge := func(i int, b *raml.BaseShape, when string) bool {
					if got := dumpMeaning(b, meaningDepth) + verdicts(b, c.Vals); got != m.text[i] {
						f = &Fail{Class: "meaning", Detail: fmt.Sprintf("%s the type %s does not mean what it means when it is unwrapped alone: %s", when, ts[i].Name, firstDiff(m.text[i], got))}
						return false
					}
					return true
				}
				if s.K != "history" {
					if s.K == "validated" {
						_ = r.ValidateShapes()
					}
					if err := r.UnwrapShapes(); err != nil {
						f = &Fail{Class: "fails", Detail: "unwrapping the whole model fails, each type alone can be unwrapped: " + cut(errText(err), 600)}
						return
					}
					for i, t := range listTypes(r, pathsOf(c.Files)) {
						if i >= len(ts) || t.Name != m.names[i] {
							return
						}
						if !judge(i, t.B, "in the unwrapped model") {
							return
						}
					}
					cx.note("whole")
					return
				}
				// the order of types is part of the schedule
				rr := simrt.NewRng(seedOf(c.Seed, "order", s.A))
				perm := rr.Perm(len(ts))
				cur := make([]*raml.BaseShape, len(ts))
				unwrap := func(i int) bool {
					u, err := r.UnwrapShape(ts[i].B)
					if err != nil {
						f = &Fail{Class: "fails", Detail: fmt.Sprintf("unwrapping %s fails, it does not when it is unwrapped alone: %s", ts[i].Name, cut(errText(err), 600))}
						return false
					}
					cur[i] = u
					return true
				}
				// what can be done before all types are unwrapped and their recursions marked, and what after that
				marked := false
				phase := func(n int, op Op) bool {
					i := perm[op.A%len(ts)]
					if marked != (op.K != "unwrap" && op.K != "copy") && !(marked && op.K == "copy" && op.B%2 == 0) {
						return true
					}
					cx.note("op " + op.K)
					when := fmt.Sprintf("after operation %d (%s of %s)", n, op.K, ts[i].Name)
					switch op.K {
					case "unwrap":
						return unwrap(i)
					case "copy":
						b := ts[i].B
						if cur[i] != nil {
							b = cur[i]
						}
						u, err := r.UnwrapShape(b.CloneDetached())
						if err != nil {
							f = &Fail{Class: "fails", Detail: fmt.Sprintf("%s unwrapping the copy fails: %s", when, cut(errText(err), 600))}
							return false
						}
						if _, err = r.FindAndMarkRecursion(u); err != nil {
							return false
						}
						return judge(i, u, when+" the copy of")
					case "mark":
						_, err := r.FindAndMarkRecursion(cur[i])
						return err == nil
					case "check":
						_ = cur[i].Check()
					case "answers":
						_ = verdicts(cur[i], c.Vals)
					case "convert":
						_ = convert(cur[i])
					case "validate":
						_ = r.ValidateShapes()
					}
					return true
				}
				for n, op := range c.Ops {
					if !phase(n, op) {
						return
					}
				}
				for _, i := range perm {
					if cur[i] == nil && !unwrap(i) {
						return
					}
				}
				for _, i := range perm {
					if _, err := r.FindAndMarkRecursion(cur[i]); err != nil {
						return
					}
				}
				marked = true
				for n, op := range c.Ops {
					if !phase(n, op) {
						return
					}
				}
				for _, i := range perm {
					if !judge(i, cur[i], "after all operations") {
						return
					}
				}
			})
			if f == nil && e.Panic != nil {
				cx.note("ended: " + e.Panic.Kind)
				return nil // C07 decides
			}
			if f != nil && c.S != "" {
				f.Detail += " (" + c.S + ")"
			}
			return finish(f, s, e)
		}})
}
