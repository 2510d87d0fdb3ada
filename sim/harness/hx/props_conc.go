//go:build go1.22

package hx

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	orderedmap "github.com/wk8/go-ordered-map/v2"

	raml "github.com/acronis/go-raml/v2"
	"github.com/acronis/go-raml/v2/zzsim/simrt"
)

func schedVariants(cx *Ctx, c *Case, quick, thorough int) []*Spec {
	var out []*Spec
	ps := []float64{0.01, 0.1, 0.5, 0.002, 0.05}
	for i := 0; i < limitN(cx, quick, thorough); i++ {
		out = append(out, &Spec{K: "tasks", Sched: simrt.Sched{Random: true, Seed: seedOf(c.Seed, "s", i), Prob: ps[i%len(ps)]}})
	}
	return out
}

func taskFail(pis []*PanicInfo, s *Spec, e *Env) *Fail {
	if e.Panic != nil {
		return finish(&Fail{Class: e.Panic.Kind, Site: e.Panic.Site, Detail: e.Panic.Msg}, s, e)
	}
	for i, p := range pis {
		if p != nil {
			return finish(&Fail{Class: p.Kind, Site: p.Site, Detail: fmt.Sprintf("task %d: %s\n%s", i, p.Msg, cut(p.Stack, 2500))}, s, e)
		}
	}
	return nil
}

// tasksFirst tells whether the concurrent run of a case comes before the runs that show what
// is expected: what the process remembers must be there before the tasks in one half of the
// cases, and not be there yet in the other.
func tasksFirst(c *Case) bool { return c.Seed>>7&1 == 1 }

// ---- C10

// partsOf lists the types that a type is made of.
func partsOf(b *raml.BaseShape) []*raml.BaseShape {
	var out []*raml.BaseShape
	switch s := b.Shape.(type) {
	case *raml.ObjectShape:
		for p := s.Properties.Oldest(); p != nil; p = p.Next() {
			out = append(out, p.Value.Base)
		}
		for p := s.PatternProperties.Oldest(); p != nil; p = p.Next() {
			out = append(out, p.Value.Base)
		}
	case *raml.ArrayShape:
		if s.Items != nil {
			out = append(out, s.Items)
		}
	case *raml.UnionShape:
		out = append(out, s.AnyOf...)
	case *raml.RecursiveShape:
		out = append(out, s.Head)
	}
	for p := b.CustomShapeFacetDefinitions.Oldest(); p != nil; p = p.Next() {
		out = append(out, p.Value.Base)
	}
	return append(out, b.Inherits...)
}

// useOp performs one reading operation on a model.
func useOp(r *raml.RAML, ts []NT, c *Case, o Op) string {
	if len(ts) == 0 {
		return ""
	}
	t := ts[o.A%len(ts)]
	for d := o.B >> 12; d > 0; d /= 64 {
		in := partsOf(t.B)
		if len(in) == 0 {
			break
		}
		t.B = in[d%64%len(in)]
	}
	switch o.K {
	case "validate":
		if len(c.Vals) == 0 {
			return ""
		}
		if own := valsOf(c.Vals, t.B.Name); len(own) > 0 && o.B&1 == 0 {
			return errText(t.B.Validate(value(own[o.B/2%len(own)])))
		}
		return errText(t.B.Validate(value(c.Vals[o.B%len(c.Vals)])))
	case "check":
		return errText(t.B.Check())
	case "print":
		return t.B.String()
	case "get":
		var b strings.Builder
		b.WriteString(r.GetLocation())
		for _, x := range r.GetShapes() {
			b.WriteString(" " + x.Name + ":" + x.Type)
		}
		fmt.Fprintf(&b, " %d %d", len(r.GetAllAnnotations()), len(r.GetAllAnnotationsPtr()))
		for _, p := range pathsOf(c.Files) {
			if f := r.GetFragment(p); f != nil {
				m := r.GetFragmentTypePtrs(p)
				ks := make([]string, 0, len(m))
				for k := range m {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				b.WriteString(" " + f.GetLocation() + fmt.Sprint(ks))
			}
		}
		loc, name, ok := strings.Cut(t.Name, "#")
		if ok && !strings.HasPrefix(name, "a.") {
			x, err := r.GetTypeFromFragmentPtr(loc, name)
			fmt.Fprintf(&b, " %v %v", x != nil, err)
			y, err := r.GetReferencedType(name, loc)
			fmt.Fprintf(&b, " %v %v", y == x, err)
		}
		return b.String()
	}
	return ""
}

func init() {
	register(&Property{ID: "C10", Conc: true,
		Rule: "A case is a generated RAML project, loaded and unwrapped, and two to five tasks with seeded lists of validations, checks, prints and getter calls, run concurrently under seeded preemption with the race detector; every answer must equal the answer given alone and the model must not change.",
		Gen: func(r *simrt.Rng, tier string) *Case {
			o := sizes(r)
			o.Recurse = r.P(0.6)
			c := baseCase(r, o)
			c.N["tasks"] = 2 + r.Intn(4)
			c.N["validate"] = r.Intn(2)
			n := c.N["tasks"] * (4 + r.Intn(10))
			for i := 0; i < n; i++ {
				o := Op{K: pick(r, "validate", "validate", "validate", "validate", "check", "print", "get"), A: r.Intn(1 << 12), B: r.Intn(1 << 12)}
				if r.P(0.4) {
					o.B |= r.Intn(1<<18) << 12 // a part of the type, or a part of a part
				}
				c.Ops = append(c.Ops, o)
			}
			// hot spots: several tasks use the same type
			if r.P(0.5) {
				for i := range c.Ops {
					c.Ops[i].A %= 3
				}
			}
			return c
		},
		Variants: func(cx *Ctx, c *Case) []*Spec { return schedVariants(cx, c, 3, 20) },
		Eval: func(cx *Ctx, c *Case, s *Spec) *Fail {
			how := How{Unwrap: true, Validate: c.N["validate"] == 1}
			n := c.N["tasks"]
			if n == 0 {
				return nil
			}
			var r *raml.RAML
			var ts []NT
			loaded := false
			// alone: on a model of its own, so that the shared one is used first by the tasks
			alone := func() []string {
				return memoize(cx, "alone", func() []string {
					var out []string
					e := cx.Run(c.Files, c.Cwd, &Spec{}, func(_ *simrt.World, fs *simrt.FS) {
						r := raml.New(bg)
						if parseInto(r, fs, c.Entry, how) != nil {
							return
						}
						ts := listTypes(r, pathsOf(c.Files))
						for _, o := range c.Ops {
							out = append(out, useOp(r, ts, c, o))
						}
					})
					if e.Panic != nil {
						return nil
					}
					return out
				})
			}
			if !tasksFirst(c) && alone() == nil {
				cx.note("not loaded")
				return nil
			}
			before, after := "", ""
			got := make([]string, len(c.Ops))
			tasks := make([]func(*simrt.World), n)
			for i := range tasks {
				i := i
				tasks[i] = func(*simrt.World) {
					if !loaded {
						return
					}
					for j := i; j < len(c.Ops); j += n {
						got[j] = useOp(r, ts, c, c.Ops[j])
					}
				}
			}
			fs := simrt.NewFS(fileMap(c.Files), c.Cwd)
			e, pis := cx.RunTasks(fs, s, func() {
				r = raml.New(bg)
				if parseInto(r, fs, c.Entry, how) != nil {
					return
				}
				loaded = true
				ts = listTypes(r, pathsOf(c.Files))
				// Nothing looks at the shared model before the tasks do: looking may be what changes it.
				twin := raml.New(bg)
				if parseInto(twin, fs, c.Entry, how) == nil {
					before = dumpModel(twin, pathsOf(c.Files), "")
				}
			}, tasks, func() {
				if loaded {
					after = dumpModel(r, pathsOf(c.Files), "")
				}
			})
			if f := taskFail(pis, s, e); f != nil {
				if f.Class == "hang" && alone() == nil {
					return nil // it takes that long alone, too
				}
				return f
			}
			if !loaded {
				return nil
			}
			want := alone()
			if want == nil {
				return nil
			}
			cx.note("used")
			for j := range got {
				if got[j] != want[j] {
					return finish(&Fail{Class: "answer", Site: c.Ops[j].K, Detail: fmt.Sprintf("operation %d (%s of %s) answered differently than alone: %s", j, c.Ops[j].K, ts[c.Ops[j].A%len(ts)].Name, firstDiff(want[j], got[j]))}, s, e)
				}
			}
			if before != after && before != "" {
				return finish(&Fail{Class: "model-changed", Detail: firstDiff(before, after)}, s, e)
			}
			return nil
		}})

	// ---- C11
	register(&Property{ID: "C11", Conc: true,
		Rule: "A case is two to four generated RAML projects (some the same, some on the same paths, some defective), each loaded, unwrapped and validated by a task of its own under seeded preemption and seeded I/O faults, with the race detector; every task must get exactly the result it gets alone.",
		Gen: func(r *simrt.Rng, tier string) *Case {
			c := &Case{N: map[string]int{}, Cwd: root}
			n := 2 + r.Intn(3)
			for i := 0; i < n; i++ {
				o := sizes(r)
				o.Libs, o.Types = r.Intn(3), 2+r.Intn(5)
				o.Bad = r.Intn(3) * r.Intn(2)
				switch {
				case i > 0 && r.P(0.4):
					c.More = append(c.More, c.More[0]) // the same files
				default:
					d := root
					if r.P(0.5) {
						d = fmt.Sprintf("%s/d%d", root, i)
					}
					files, entry, vals := Project(r, d, o)
					c.More = append(c.More, Proj{files, entry})
					if i == 0 {
						c.Vals = vals
					}
				}
				c.Ops = append(c.Ops, Op{K: "load", A: r.Intn(nModes), B: r.Intn(4)})
			}
			return c
		},
		Variants: func(cx *Ctx, c *Case) []*Spec {
			out := schedVariants(cx, c, 3, 20)
			r := simrt.NewRng(seedOf(c.Seed, "f"))
			// one of the tasks meets faults
			s := *out[len(out)-1]
			s.Tasks = make([]simrt.Config, len(c.More))
			s.Tasks[r.Intn(len(c.More))] = simrt.Config{Seed: r.Next(), Prob: map[string]float64{"io": 0.05, "close": 0.05, "chunk": 0.3}}
			return append(out, &s)
		},
		Eval: func(cx *Ctx, c *Case, s *Spec) *Fail {
			n := len(c.More)
			how := func(i int) How {
				k := *c
				k.N = map[string]int{"mode": c.Ops[i%len(c.Ops)].A}
				h := howOf(&k)
				h.Model = true
				return h
			}
			cfg := func(i int) simrt.Config {
				if i < len(s.Tasks) {
					return s.Tasks[i]
				}
				return simrt.Config{}
			}
			b, _ := json.Marshal(s.Tasks)
			alone := func() []*Obs {
				return memoize(cx, "alone"+string(b), func() []*Obs {
					var out []*Obs
					for i, p := range c.More {
						o, _ := cx.Load(p.Files, c.Cwd, p.Entry, &Spec{Cfg: cfg(i)}, how(i))
						cx.note("alone " + o.V)
						out = append(out, o)
					}
					return out
				})
			}
			ended := func() bool {
				for _, o := range alone() {
					if !o.done() {
						return false
					}
				}
				return true
			}
			if !tasksFirst(c) && !ended() {
				return nil
			}
			got := make([]*Obs, n)
			tasks := make([]func(*simrt.World), n)
			for i := range tasks {
				i := i
				got[i] = &Obs{}
				fs := simrt.NewFS(fileMap(c.More[i].Files), c.Cwd)
				tasks[i] = func(w *simrt.World) {
					w.FS = fs
					o := got[i]
					o.R = raml.New(bg)
					o.E = parseInto(o.R, fs, c.More[i].Entry, how(i))
					o.observe(how(i), c.More[i].Files)
				}
			}
			e, pis := cx.RunTasks(simrt.NewFS(nil, c.Cwd), s, nil, tasks, nil)
			f := taskFail(pis, s, e)
			if !ended() {
				return nil
			}
			if f != nil {
				return f
			}
			want := alone()
			for i := range got {
				if f := diffObs(want[i], got[i], true, true); f != nil {
					f.Detail = fmt.Sprintf("task %d got another result than alone: %s", i, f.Detail)
					return finish(f, s, e)
				}
			}
			return nil
		}})

	// ---- C18
	register(&Property{ID: "C18", Conc: true,
		Rule: "A case is a generated RAML project, loaded and unwrapped, and seeded lists of conversions of its types to JSON Schema - repeated, in different orders, with new and reused converters, by concurrent tasks under seeded preemption with the race detector, with edits of returned schemas, their copies and their maps between them and under seeded map orders; every document must equal, byte for byte, the one a conversion alone gives, copies and maps must say the same, and the model must not change.",
		Gen: func(r *simrt.Rng, tier string) *Case {
			o := sizes(r)
			o.Recurse = r.P(0.7)
			o.JSONType = r.P(0.4)
			c := baseCase(r, o)
			c.N["tasks"] = 1 + r.Intn(4)
			n := c.N["tasks"] * (3 + r.Intn(6))
			for i := 0; i < n; i++ {
				c.Ops = append(c.Ops, Op{K: pick(r, "new", "reuse", "reuse", "edit", "copy", "plain", "pcopy", "pedit"), A: r.Intn(1 << 12), B: r.Intn(1 << 12)})
			}
			if r.P(0.4) {
				for i := range c.Ops {
					c.Ops[i].A %= 4
				}
			}
			return c
		},
		Variants: func(cx *Ctx, c *Case) []*Spec {
			out := schedVariants(cx, c, 2, 20)
			s := *out[0]
			s.Tasks = make([]simrt.Config, c.N["tasks"])
			for i := range s.Tasks {
				s.Tasks[i] = entropy(seedOf(c.Seed, "e", i), 1)
			}
			return append(out, &s)
		},
		Eval: func(cx *Ctx, c *Case, s *Spec) *Fail {
			n := c.N["tasks"]
			if n == 0 {
				return nil
			}
			how := How{Unwrap: true}
			var r *raml.RAML
			var ts []NT
			alone := func() map[string]string {
				return memoize(cx, "alone", func() map[string]string {
					out := map[string]string{}
					ok := false
					e := cx.Run(c.Files, c.Cwd, &Spec{}, func(_ *simrt.World, fs *simrt.FS) {
						r := raml.New(bg)
						if parseInto(r, fs, c.Entry, how) != nil {
							return
						}
						ok = true
						for _, t := range listTypes(r, pathsOf(c.Files)) {
							out[t.Name] = convert(t.B)
							out["plain "+t.Name] = convertPlain(t.B)
						}
					})
					if !ok || e.Panic != nil {
						return nil
					}
					return out
				})
			}
			if !tasksFirst(c) && len(alone()) == 0 {
				cx.note("not loaded")
				return nil
			}
			var before, after string
			loaded := false
			got := make([]string, len(c.Ops))
			tasks := make([]func(*simrt.World), n)
			for i := range tasks {
				i := i
				tasks[i] = func(*simrt.World) {
					if !loaded || len(ts) == 0 {
						return
					}
					conv, err := raml.NewJSONSchemaConverter[*raml.JSONSchemaRAML](raml.WithWrapper(raml.JSONSchemaWrapper))
					if err != nil {
						return
					}
					plain, err := raml.NewJSONSchemaConverter[*raml.JSONSchema]()
					if err != nil {
						return
					}
					var kept []kept
					for j := i; j < len(c.Ops); j += n {
						o := c.Ops[j]
						t := ts[o.A%len(ts)]
						switch o.K {
						case "plain":
							got[j] = convertPlain(t.B)
						case "pcopy", "pedit":
							sc, err := plain.Convert(t.B.Shape)
							got[j] = renderPlain(sc, err)
							switch {
							case err != nil:
							case o.K == "pcopy":
								got[j] = checkForms(sc, newSchema, got[j], o.B)
							default:
								editSchema(sc, newSchema, o.B, false)
								got[j] += changed(kept)
							}
							if err == nil && o.K == "pcopy" {
								kept = keep(kept, got[j], func() string { return renderPlain(sc, nil) })
							}
						case "new":
							got[j] = convert(t.B)
						default:
							sc, err := conv.Convert(t.B.Shape)
							got[j] = render(sc, err)
							switch {
							case err != nil:
							case o.K == "copy":
								got[j] = checkForms(sc, newRAMLSchema, got[j], o.B)
							case o.K == "edit":
								editSchema(sc, newRAMLSchema, o.B, false)
								got[j] += changed(kept)
							}
							if err == nil && o.K != "edit" {
								kept = keep(kept, got[j], func() string { return render(sc, nil) })
							}
						}
					}
				}
			}
			fs := simrt.NewFS(fileMap(c.Files), c.Cwd)
			e, pis := cx.RunTasks(fs, s, func() {
				r = raml.New(bg)
				if parseInto(r, fs, c.Entry, how) != nil {
					return
				}
				loaded = true
				ts = listTypes(r, pathsOf(c.Files))
				before = dumpModel(r, pathsOf(c.Files), "")
			}, tasks, func() {
				if loaded {
					after = dumpModel(r, pathsOf(c.Files), "")
				}
			})
			if f := taskFail(pis, s, e); f != nil {
				if f.Class == "hang" && alone() == nil {
					return nil // it takes that long alone, too
				}
				return f
			}
			if !loaded || len(ts) == 0 {
				return nil
			}
			want := alone()
			if len(want) == 0 {
				return nil
			}
			cx.note("converted")
			for j := range got {
				t := ts[c.Ops[j].A%len(ts)].Name
				w := want[t]
				if c.Ops[j].K[0] == 'p' {
					w = want["plain "+t]
				}
				if got[j] != w {
					return finish(&Fail{Class: "document", Site: c.Ops[j].K, Detail: fmt.Sprintf("conversion %d (%s of %s) gave another document than alone: %s", j, c.Ops[j].K, t, diffAt(w, got[j]))}, s, e)
				}
			}
			if before != after {
				return finish(&Fail{Class: "model-changed", Detail: firstDiff(before, after)}, s, e)
			}
			return nil
		}})
}

// kept is a schema that was returned and not edited since, with what it must say.
type kept struct {
	text string
	now  func() string
}

func keep(l []kept, text string, now func() string) []kept {
	if len(l) == 4 {
		l = l[1:]
	}
	return append(l[:len(l):len(l)], kept{text, now})
}

// changed tells which of the schemas says something else than it did.
func changed(l []kept) string {
	for i, k := range l {
		if t := k.now(); t != k.text {
			return fmt.Sprintf("; editing it changed the schema returned %d conversions before: %s", len(l)-i, diffAt(k.text, t))
		}
	}
	return ""
}

func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 80
	if lo < 0 {
		lo = 0
	}
	return fmt.Sprintf("at byte %d: …%s <> …%s", i, cut(a[lo:], 300), cut(b[lo:], 300))
}

func render(s *raml.JSONSchemaRAML, err error) string {
	if err != nil {
		return "raml: " + err.Error() + "\n"
	}
	j, err := json.Marshal(s)
	return "raml: " + string(j) + fmt.Sprint(err) + "\n"
}

// convertPlain uses the converter without a wrapper.
func convertPlain(b *raml.BaseShape) string {
	c, err := raml.NewJSONSchemaConverter[*raml.JSONSchema]()
	if err != nil {
		return err.Error()
	}
	return renderPlain(c.Convert(b.Shape))
}

func renderPlain(s *raml.JSONSchema, err error) string {
	if err != nil {
		return err.Error()
	}
	j, err := json.Marshal(s)
	return string(j) + fmt.Sprint(err)
}

// schema is a schema of either flavour.
type schema[T raml.Copyable[T]] interface {
	comparable
	DeepCopy() T
	ShallowCopy() T
	Map() map[string]any
	Generic() *raml.JSONSchemaGeneric[T]
}

// kids calls f for all schemas directly in s.
func kids[T schema[T]](s *raml.JSONSchemaGeneric[T], f func(T)) {
	ks := make([]string, 0, len(s.Definitions))
	for d := range s.Definitions {
		ks = append(ks, d)
	}
	sort.Strings(ks)
	for _, d := range ks {
		f(s.Definitions[d])
	}
	if s.Properties != nil {
		for p := s.Properties.Oldest(); p != nil; p = p.Next() {
			f(p.Value)
		}
	}
	if s.PatternProperties != nil {
		for p := s.PatternProperties.Oldest(); p != nil; p = p.Next() {
			f(p.Value)
		}
	}
	for _, l := range [][]T{s.AllOf, s.AnyOf, s.OneOf, {s.Not, s.If, s.Then, s.Else, s.Items, s.PropertyNames}} {
		for _, x := range l {
			f(x)
		}
	}
}

// editSchema adds and replaces keywords, properties and definitions of a schema, everywhere in it; with deep, elements of lists too.
func editSchema[T schema[T]](root T, mk func() T, k int, deep bool) {
	var zero T
	seen := map[T]bool{}
	var rec func(x T)
	rec = func(x T) {
		if x == zero || seen[x] {
			return
		}
		seen[x] = true
		s := x.Generic()
		kids(s, rec)
		if s.Properties != nil {
			s.Properties.Set("edited", mk())
			if k%2 == 0 {
				if p := s.Properties.Oldest(); p != nil {
					s.Properties.Delete(p.Key)
				}
			}
		}
		if s.PatternProperties != nil {
			s.PatternProperties.Set("edited", mk())
		}
		if s.Definitions != nil {
			if k%3 == 0 {
				for d := range s.Definitions {
					delete(s.Definitions, d)
				}
			}
			s.Definitions["edited"] = mk()
		}
		s.Title, s.Description, s.Type, s.Pattern, s.Format, s.Comment = "edited", "edited", "edited", "edited", "edited", "edited"
		s.Minimum, s.Maximum, s.MultipleOf = "1", "2", "3"
		s.MinLength, s.MaxItems, s.AdditionalProperties, s.UniqueItems = nil, nil, nil, nil
		if deep {
			for i := range s.Required {
				s.Required[i] = "edited"
			}
			for i := range s.Enum {
				s.Enum[i] = "edited"
			}
			for i := range s.Examples {
				s.Examples[i] = "edited"
			}
		}
		s.Required = append(s.Required[:len(s.Required):len(s.Required)], "edited")
		s.Enum = append(s.Enum[:len(s.Enum):len(s.Enum)], "edited")
		s.Default, s.Const = "edited", "edited"
		for _, l := range [][]T{s.AllOf, s.AnyOf, s.OneOf} {
			for i := range l {
				l[i] = mk()
			}
		}
		s.AnyOf = append(s.AnyOf, mk())
		s.Not, s.If, s.Then, s.Else, s.Items, s.PropertyNames = mk(), mk(), mk(), mk(), mk(), mk()
	}
	rec(root)
	x, ok := any(root).(*raml.JSONSchemaRAML)
	if !ok || x == nil {
		return
	}
	if x.Annotations != nil {
		x.Annotations.Set("edited", 1)
		x.Annotations.Delete(x.Annotations.Oldest().Key)
	}
	if x.FacetData != nil {
		x.FacetData.Set("edited", 1)
		x.FacetData.Delete(x.FacetData.Oldest().Key)
	}
	if d := x.FacetDefinitions; d != nil {
		for p := d.Oldest(); p != nil; p = p.Next() {
			editSchema(p.Value, newRAMLSchema, k, deep)
		}
		d.Set("edited", newRAMLSchema())
	}
}

func newRAMLSchema() *raml.JSONSchemaRAML { return &raml.JSONSchemaRAML{} }
func newSchema() *raml.JSONSchema         { return &raml.JSONSchema{} }

// checkForms compares the forms of a schema with its document, edits copies of it and returns a complaint.
func checkForms[T schema[T]](s T, mk func() T, doc string, k int) string {
	text := func(x any) string {
		j, err := json.Marshal(x)
		return string(j) + fmt.Sprint(err)
	}
	was := text(s)
	d := s.DeepCopy()
	if t := text(d); t != was {
		return "a deep copy differs: " + diffAt(was, t)
	}
	editSchema(d, mk, k, true)
	if t := text(s); t != was {
		return "editing a deep copy changed the schema: " + diffAt(was, t)
	}
	h := s.ShallowCopy()
	if t := text(h); t != was {
		return "a shallow copy differs: " + diffAt(was, t)
	}
	g := h.Generic()
	g.Title, g.Description, g.Type, g.Default, g.Required, g.Enum, g.Properties, g.Definitions, g.Items = "edited", "edited", "edited", 1, nil, nil, nil, nil, mk()
	if x, ok := any(h).(*raml.JSONSchemaRAML); ok {
		for _, m := range []*orderedmap.OrderedMap[string, any]{x.Annotations, x.FacetData} {
			if m != nil {
				m.Set("edited", 1)
			}
		}
		if x.FacetDefinitions != nil {
			x.FacetDefinitions.Set("edited", newRAMLSchema())
		}
	}
	if t := text(s); t != was {
		return "editing a shallow copy changed the schema: " + diffAt(was, t)
	}
	if _, err := json.Marshal(s); err != nil {
		return doc // it has values that JSON has not
	}
	m := s.Map()
	if a, b := plainJSON(text(m)), plainJSON(was); a != b {
		return "the map differs from the document: " + diffAt(b, a)
	}
	for key := range m {
		m[key] = "edited"
	}
	if t := text(s); t != was {
		return "editing the map changed the schema: " + diffAt(was, t)
	}
	return doc
}

// plainJSON writes a document without the keywords that say nothing, keys in order.
func plainJSON(doc string) string {
	var v any
	d := json.NewDecoder(strings.NewReader(doc))
	d.UseNumber()
	if d.Decode(&v) != nil {
		return doc
	}
	b, _ := json.Marshal(v)
	return string(b)
}
