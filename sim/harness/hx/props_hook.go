//go:build go1.22

package hx

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"strings"

	orderedmap "github.com/wk8/go-ordered-map/v2"

	raml "github.com/acronis/go-raml/v2"
	"github.com/acronis/go-raml/v2/zzsim/hooks"
	"github.com/acronis/go-raml/v2/zzsim/simrt"
	"gopkg.in/yaml.v3"
)

// ---- C23

type ctxToken struct{}

// trace records the calls of hooks of one model.
type trace struct {
	r     *raml.RAML
	token *int
	calls []string
	keys  []int
	f     *Fail
	at    func(n int) error // what the hook does at its call n
}

func describeShape(b *raml.BaseShape) string {
	if b == nil {
		return "nil"
	}
	return fmt.Sprintf("%s %s %d:%d %s %T", b.Name, b.Location, b.Position.Line, b.Position.Column, b.Type, b.Shape)
}

// describeParam describes a parameter of a hook by what a user can tell it from others.
func describeParam(p any) string {
	switch x := p.(type) {
	case nil:
		return "nil"
	case *raml.BaseShape:
		return describeShape(x)
	case *raml.Library:
		return "library " + x.Location
	case *raml.DataType:
		return "data type " + x.Location
	case raml.Shape:
		if reflect.ValueOf(x).IsNil() {
			return "nil"
		}
		return "shape " + describeShape(x.Base())
	case *orderedmap.OrderedMap[string, *raml.BaseShape]:
		out := "types"
		for pr := x.Oldest(); pr != nil; pr = pr.Next() {
			out += " " + pr.Key
		}
		return out
	case *yaml.Node:
		return fmt.Sprintf("node %d %s %d:%d", x.Kind, x.Value, x.Line, x.Column)
	case []*yaml.Node:
		out := "nodes"
		for _, n := range x {
			out += " " + describeParam(n)
		}
		return out
	case string:
		return "text " + x
	}
	if v := reflect.ValueOf(p); v.Kind() == reflect.Map || v.Kind() == reflect.Slice {
		return fmt.Sprintf("%T %d", p, v.Len())
	}
	return fmt.Sprintf("%T", p)
}

// register installs hooks on all points, or only on the point only.
func (t *trace) register(only int) {
	for i, k := range hooks.Keys {
		if only >= 0 && i != only {
			continue
		}
		i := i
		t.r.AppendHook(k, func(ctx context.Context, r *raml.RAML, params ...any) error {
			n := len(t.calls)
			out := hooks.Names[i]
			for _, p := range params {
				out += " | " + describeParam(p)
			}
			t.calls = append(t.calls, out)
			t.keys = append(t.keys, i)
			if t.f == nil {
				if r != t.r {
					t.f = &Fail{Class: "model", Site: hooks.Names[i], Detail: "the hook is called with another model: " + out}
				} else if ctx == nil || ctx.Value(ctxToken{}) != any(t.token) {
					t.f = &Fail{Class: "context", Site: hooks.Names[i], Detail: "the hook is called with a context that does not have the values of the model's context: " + out}
				}
			}
			if t.at != nil {
				return t.at(n)
			}
			return nil
		})
	}
}

func newTrace(only int, churn uint64) *trace {
	t := &trace{token: new(int)}
	t.r = raml.New(context.WithValue(bg, ctxToken{}, t.token))
	if churn != 0 { // hooks that come and go before
		r := simrt.NewRng(churn)
		h := func(context.Context, *raml.RAML, ...any) error { return errors.New("this hook was removed") }
		for i := r.Intn(6); i > 0; i-- {
			k := hooks.Keys[r.Intn(len(hooks.Keys))]
			switch r.Intn(4) {
			case 0:
				t.r.AppendHook(k, h)
			case 1:
				t.r.PrependHook(k, h)
			case 2:
				t.r.RemoveHook(k, h)
			}
			t.r.ClearHooks(k)
		}
	}
	t.register(only)
	return t
}

type traceBase struct {
	v     string
	calls []string
	keys  []int
}

func (cx *Ctx) traceBase(c *Case, entry string, how How) *traceBase {
	return memoize(cx, "trace "+entry, func() *traceBase {
		t := newTrace(-1, 0)
		b := &traceBase{}
		e := cx.Run(c.Files, c.Cwd, &Spec{}, func(_ *simrt.World, fs *simrt.FS) {
			b.v = verdict(parseInto(t.r, fs, entry, how))
		})
		if e.Panic != nil {
			b.v = ""
		}
		b.calls, b.keys = t.calls, t.keys
		return b
	})
}

// diffCalls compares calls.
func diffCalls(class string, want, got []string) *Fail {
	i := 0
	for n, x := range got {
		if i == len(want) {
			return &Fail{Class: class, Detail: fmt.Sprintf("call %d of %d is too many: %s", n, len(got), x)}
		}
		if want[i] != x {
			return &Fail{Class: class, Detail: fmt.Sprintf("call %d is %s; without that it is %s", n, x, want[i])}
		}
		i++
	}
	if i < len(want) {
		return &Fail{Class: class, Detail: fmt.Sprintf("there are %d calls, without that %d; the first that is missing is %s", len(got), len(want), want[i])}
	}
	return nil
}

func init() {
	register(&Property{ID: "C23",
		Rule: "A case is a generated RAML project (some damaged) loaded in some way by a model with recording hooks on all points; the calls (point, parameters, order) must be the same under seeded map orders, random numbers and split reads, after other loads, with loads inside hooks, with a hook on one point only, and up to the instant at which a hook or an operation on the disk fails.",
		Gen: func(r *simrt.Rng, tier string) *Case {
			o := sizes(r)
			o.Bad = r.Intn(3) * r.Intn(2)
			c := baseCase(r, o)
			c.N["mode"] = r.Intn(nModes)
			if r.P(0.2) {
				c.N["str"] = 1
			}
			if r.P(0.3) {
				files, entry, _ := Project(r, "/w/second", sizes(r))
				c.More = []Proj{{Entry: entry}}
				c.Files = append(c.Files, files...)
			}
			return c
		},
		Variants: func(cx *Ctx, c *Case) []*Spec {
			b := cx.traceBase(c, c.Entry, howOf(c))
			if b.v == "" {
				return nil
			}
			cx.note("calls " + fmt.Sprint(min(len(b.calls)/100, 9)))
			r := simrt.NewRng(seedOf(c.Seed, "v"))
			var out []*Spec
			for i := 0; i < limitN(cx, 3, 10); i++ {
				out = append(out, &Spec{K: "orders", Cfg: entropy(r.Next(), []float64{1, 0.3, 0.7, 0.05}[i%4])})
			}
			out = append(out, &Spec{K: "orders", Cfg: simrt.Config{Seed: r.Next(), Prob: map[string]float64{"chunk": 0.7}}})
			for i := range hooks.Keys {
				if r.P(0.25) {
					out = append(out, &Spec{K: "one", A: []int{i}, Cfg: entropy(r.Next(), 0.2)})
				}
			}
			out = append(out, &Spec{K: "after", Cfg: entropy(r.Next(), 0.2)})
			if n := len(b.calls); n > 0 {
				for i := 0; i < limitN(cx, 3, 10); i++ {
					out = append(out, &Spec{K: "nested", A: []int{r.Intn(n)}}, &Spec{K: "fail", A: []int{r.Intn(n)}})
				}
			}
			for i := 0; i < limitN(cx, 4, 20); i++ {
				out = append(out, &Spec{K: "io", Cfg: simrt.Config{Seed: r.Next(), Prob: map[string]float64{"io": []float64{0.03, 0.1}[i%2], "chunk": 0.2}, Max: map[string]int{"io": 1}}})
			}
			return out
		},
		Eval: func(cx *Ctx, c *Case, s *Spec) *Fail {
			how := howOf(c)
			b := cx.traceBase(c, c.Entry, how)
			if b.v == "" {
				return nil
			}
			only := -1
			if s.K == "one" {
				only = s.A[0] % len(hooks.Keys)
			}
			t := newTrace(only, s.Cfg.Seed)
			others := []string{c.Entry}
			for _, m := range c.More {
				others = append(others, m.Entry)
			}
			var f *Fail
			e := cx.Run(c.Files, c.Cwd, s, func(w *simrt.World, fs *simrt.FS) {
				inner := func(class string) {
					for _, entry := range others {
						u := newTrace(-1, 0)
						v := verdict(parseInto(u.r, fs, entry, how))
						if f == nil {
							f = u.f
						}
						if entry == c.Entry && f == nil {
							if v != b.v {
								f = &Fail{Class: class, Site: "verdict", Detail: "a load in between is " + v + ", alone it is " + b.v}
							} else {
								f = diffCalls(class, b.calls, u.calls)
							}
						}
					}
				}
				fired := -1 // calls before the first fault
				if s.K == "io" {
					w.OnFire = func(kind string) {
						if fired < 0 && kind != "short-read" {
							fired = len(t.calls)
						}
					}
				}
				switch s.K {
				case "after":
					inner("after")
				case "nested":
					t.at = func(n int) error {
						if n == s.A[0] {
							inner("nested")
						}
						return nil
					}
				case "fail":
					t.at = func(n int) error {
						if n == s.A[0] {
							return &tokenErr{n}
						}
						return nil
					}
				}
				v := verdict(parseInto(t.r, fs, c.Entry, how))
				if f == nil {
					f = t.f
				}
				if f != nil {
					return
				}
				switch s.K {
				case "fail":
					k := min(s.A[0]+1, len(t.calls))
					f = diffCalls(s.K, b.calls[:s.A[0]+1], t.calls[:k])
				case "io":
					if fired < 0 {
						fired = len(b.calls)
					} else {
						cx.note("io " + v)
					}
					f = diffCalls(s.K, b.calls[:min(fired, len(b.calls))], t.calls[:min(fired, len(t.calls))])
				default:
					want := b.calls
					if only >= 0 {
						want = nil
						for i, k := range b.keys {
							if k == only {
								want = append(want, b.calls[i])
							}
						}
					}
					if v != b.v {
						f = &Fail{Class: s.K, Site: "verdict", Detail: "the load is " + v + ", otherwise it is " + b.v}
					} else {
						f = diffCalls(s.K, want, t.calls)
					}
				}
			})
			if f != nil && f.Site == "" {
				f.Site = strings.SplitN(f.Detail, " | ", 2)[0]
				f.Site = f.Site[strings.LastIndex(f.Site, " ")+1:]
			}
			if f == nil && e.Panic != nil {
				cx.note("ended: " + e.Panic.Kind)
				return nil // C07 decides
			}
			return finish(f, s, e)
		}})
}
