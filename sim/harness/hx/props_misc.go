//go:build go1.22

package hx

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path"
	"reflect"
	"regexp"
	"strings"

	raml "github.com/acronis/go-raml/v2"
	"github.com/acronis/go-raml/v2/zzsim/hooks"
	"github.com/acronis/go-raml/v2/zzsim/simos"
	"github.com/acronis/go-raml/v2/zzsim/simrt"
	"github.com/acronis/go-stacktrace"
)

// ---- C07

var reKind = regexp.MustCompile("^[A-Za-z]+( of another file| damaged| moved| repeated| lost)?")

// workLimit bounds the steps of one run: loads of this size take far fewer.
const workLimit = 30_000_000

func init() {
	register(&Property{ID: "C07",
		Rule: "A case is a generated RAML project damaged in one to five seeded places (torn, truncated, corrupted, zeroed, exchanged and empty files, values and keys replaced by unusual ones, blocks moved, fragments and types referring to themselves and each other); loading it in every mode, and validating values against, checking, cloning, printing, unwrapping and converting what was accepted, must end without panic, stack overflow or exit within a bounded number of steps.",
		Gen: func(r *simrt.Rng, tier string) *Case {
			o := sizes(r)
			o.Types = 2 + r.Intn(6)
			o.Libs = r.Intn(3)
			o.Bad = r.Intn(2)
			c := baseCase(r, o)
			n := 1 + r.Intn(3)
			if r.P(0.1) {
				n = 5
			}
			if r.P(0.05) {
				n = 0
			}
			for i := 0; i < n && len(c.Files) > 0; i++ {
				var w string
				fs, w := Mutate(r, c.Files)
				if len(fs) > 0 {
					c.Files = fs
					c.S += w + "; "
				}
			}
			c.Vals = append(c.Vals, `{"p1":{"a":[1,2,{"b":null}]},"kind":"x"}`, `1e300`, `[[],[],[[]]]`, `-7`, `{"":""}`, `"2015-02-30"`, `99999999999999999999`)
			return c
		},
		Variants: func(cx *Ctx, c *Case) []*Spec {
			l := simrt.Sched{Limit: workLimit}
			for _, w := range strings.Split(c.S, "; ") {
				if w != "" {
					cx.Fired["disk-"+strings.Trim(reKind.FindString(w), " ")]++
				}
			}
			out := []*Spec{{K: "both", Sched: l}, {K: "unwrap", Sched: l}, {K: "plain", Sched: l}, {K: "validate", Sched: l}}
			if cx.Tier == "thorough" {
				out = append(out, &Spec{K: "both", Sched: l, Cfg: entropy(seedOf(c.Seed, 1), 1)}, &Spec{K: "validate", Sched: l, Cfg: entropy(seedOf(c.Seed, 2), 1)})
			}
			return out
		},
		Eval: func(cx *Ctx, c *Case, s *Spec) *Fail {
			how := How{Unwrap: s.K == "both" || s.K == "unwrap", Validate: s.K == "both" || s.K == "validate"}
			var o Obs
			stage := "loading"
			cx.odd = c.S != ""
			defer func() { cx.odd = false }()
			e := cx.Run(c.Files, c.Cwd, s, func(_ *simrt.World, fs *simrt.FS) {
				o.R = raml.New(bg)
				o.E = parseInto(o.R, fs, c.Entry, how)
				_ = errText(o.E)
				if o.E != nil {
					return
				}
				cx.note("accepted " + s.K)
				for i, t := range listTypes(o.R, pathsOf(c.Files)) {
					if i >= 14 {
						break
					}
					stage = "checking " + t.Name
					_ = errText(t.B.Check())
					stage = "printing " + t.Name
					_ = t.B.String()
					for j, v := range valsFor(c.Vals, t.B.Name) {
						if j > 16 {
							break
						}
						stage = "validating " + v + " against " + t.Name
						_ = errText(t.B.Validate(value(v)))
					}
					stage = "cloning " + t.Name
					k := t.B.CloneDetached()
					if how.Unwrap {
						stage = "converting " + t.Name
						_ = convert(t.B)
						stage = "converting the copy of " + t.Name
						_ = convert(k)
					} else {
						stage = "unwrapping a copy of " + t.Name
						if u, err := o.R.UnwrapShape(k); err == nil {
							stage = "marking recursion in a copy of " + t.Name
							if _, err = o.R.FindAndMarkRecursion(u); err == nil {
								stage = "converting the copy of " + t.Name
								_ = convert(u)
								for j, v := range valsFor(c.Vals, t.B.Name) {
									if j < 6 {
										stage = "validating " + v + " against the copy of " + t.Name
										_ = errText(u.Validate(value(v)))
									}
								}
							}
						}
					}
				}
				if how.Unwrap {
					for _, a := range o.R.GetAllAnnotationsPtr() {
						if a.DefinedBy == nil {
							panic("an annotation of the accepted model has no definition: " + a.Name)
						}
					}
				}
			})
			if e.Panic != nil {
				f := failPanic(e.Panic, stage+" ("+c.S+")")
				return finish(f, s, e)
			}
			return nil
		}})
}

// ---- C09

// named hook functions: removal compares functions
type hookEv struct {
	model, key, fn int
}

type hookLab struct {
	models []*raml.RAML
	log    []hookEv
	// re-entrant changes: at the n-th logged event perform the ops
	at map[int][]Op
	// reference model
	want [][][]int // model -> key -> functions
	do   func(Op)
	ctx  context.Context
}

var lab *hookLab // only one run at a time in a process

func labHook(fn int) func(context.Context, *raml.RAML, ...any) error {
	return func(ctx context.Context, r *raml.RAML, _ ...any) error { return nil }
}

func fire(ctx context.Context, r *raml.RAML, fn int, key int) error {
	m := -1
	for i, x := range lab.models {
		if x == r {
			m = i
		}
	}
	n := len(lab.log)
	lab.log = append(lab.log, hookEv{m, key, fn})
	lab.ctx = ctx
	for _, o := range lab.at[n] {
		lab.do(o)
	}
	return nil
}

func k0f0(c context.Context, r *raml.RAML, _ ...any) error { return fire(c, r, 0, 0) }
func k0f1(c context.Context, r *raml.RAML, _ ...any) error { return fire(c, r, 1, 0) }
func k0f2(c context.Context, r *raml.RAML, _ ...any) error { return fire(c, r, 2, 0) }
func k0f3(c context.Context, r *raml.RAML, _ ...any) error { return fire(c, r, 3, 0) }
func k1f0(c context.Context, r *raml.RAML, _ ...any) error { return fire(c, r, 0, 1) }
func k1f1(c context.Context, r *raml.RAML, _ ...any) error { return fire(c, r, 1, 1) }
func k1f2(c context.Context, r *raml.RAML, _ ...any) error { return fire(c, r, 2, 1) }
func k1f3(c context.Context, r *raml.RAML, _ ...any) error { return fire(c, r, 3, 1) }
func k2f0(c context.Context, r *raml.RAML, _ ...any) error { return fire(c, r, 0, 2) }
func k2f1(c context.Context, r *raml.RAML, _ ...any) error { return fire(c, r, 1, 2) }
func k2f2(c context.Context, r *raml.RAML, _ ...any) error { return fire(c, r, 2, 2) }
func k2f3(c context.Context, r *raml.RAML, _ ...any) error { return fire(c, r, 3, 2) }

var labFns = [3][4]raml.HookFunc{{k0f0, k0f1, k0f2, k0f3}, {k1f0, k1f1, k1f2, k1f3}, {k2f0, k2f1, k2f2, k2f3}}

// the hook points of the lab; set per case
type labKey = raml.HookKey

// Ops of the lab: K append/prepend/remove/clear/new/newctx/fire; A = model, B = key*4+fn; S = "shape" goes through a type.
func genLab(r *simrt.Rng) *Case {
	c := &Case{N: map[string]int{}, Cwd: root}
	c.N["models"] = 1 + r.Intn(3)
	c.N["sharectx"] = r.Intn(2)
	for i := 0; i < 3; i++ {
		c.N[fmt.Sprintf("key%d", i)] = r.Intn(1 << 16)
	}
	op := func() Op {
		o := Op{K: pick(r, "append", "append", "append", "prepend", "prepend", "remove", "remove", "clear", "nil"), A: r.Intn(4), B: r.Intn(12)}
		if o.K == "clear" && r.P(0.5) {
			o.K = "append"
		}
		if r.P(0.2) {
			o.S = "shape"
		}
		return o
	}
	n := 3 + r.Intn(22)
	for i := 0; i < n; i++ {
		switch r.Intn(8) {
		case 0:
			c.Ops = append(c.Ops, Op{K: pick(r, "new", "newctx"), A: r.Intn(4)})
		case 1, 2:
			c.Ops = append(c.Ops, Op{K: "fire", A: r.Intn(4)})
		default:
			c.Ops = append(c.Ops, op())
		}
	}
	c.Ops = append(c.Ops, Op{K: "fire", A: 0}, Op{K: "fire", A: 1}, Op{K: "fire", A: 2}, Op{K: "fire", A: 3})
	// re-entrant changes
	for i := r.Intn(5); i > 0; i-- {
		o := op()
		if r.P(0.3) {
			o = Op{K: "newctx", A: r.Intn(4)}
		}
		o.S = fmt.Sprintf("@%d", r.Intn(40))
		c.Ops = append(c.Ops, o)
	}
	return c
}

const labFile = "#%RAML 1.0 Library\nuses:\n  u: lib.raml\nannotationTypes:\n  A: string\ntypes:\n  S: string\n  O:\n    properties:\n      a: S\n      b?: O\n  C:\n    type: O\n    (A): x\n    properties:\n      c: integer\n      d: O | S\n  U: S | u.L\n  V:\n    type: U\n    minLength: 1\n  D: !include dt.raml\n"

var labFiles = []FileC{{root + "/api.raml", labFile},
	{root + "/lib.raml", "#%RAML 1.0 Library\ntypes:\n  L:\n    type: string\n    maxLength: 9\n  M: L[]\n"},
	{root + "/dt.raml", "#%RAML 1.0 DataType\ntype: object\nproperties:\n  q: integer\nexample: { q: 1 }\n"}}

func evalLab(cx *Ctx, c *Case, s *Spec) *Fail {
	var f *Fail
	keys := [3]raml.HookKey{}
	idx := map[int]bool{}
	for i := 0; i < 3; i++ {
		k := c.N[fmt.Sprintf("key%d", i)] % len(hooks.Keys)
		for idx[k] {
			k = (k + 1) % len(hooks.Keys)
		}
		idx[k] = true
		keys[i] = hooks.Keys[k]
	}
	e := cx.Run(labFiles, c.Cwd, s, func(_ *simrt.World, fs *simrt.FS) {
		lab = &hookLab{at: map[int][]Op{}}
		shared := context.WithValue(context.Background(), raml.HookKey("unrelated"), 1)
		newModel := func(ctx context.Context, w [][]int) {
			lab.models = append(lab.models, raml.New(ctx))
			var cp [][]int
			for i := 0; i < 3; i++ {
				var l []int
				if w != nil {
					l = append([]int(nil), w[i]...)
				}
				cp = append(cp, l)
			}
			lab.want = append(lab.want, cp)
		}
		for i := 0; i < c.N["models"]; i++ {
			if c.N["sharectx"] == 1 {
				newModel(shared, nil)
			} else {
				newModel(context.Background(), nil)
			}
		}
		// the reference: what the hook point currently calls, per model and key
		type snap struct {
			rest []int
			full []int
		}
		snaps := map[[2]int]*snap{}
		lab.do = func(o Op) {
			m := o.A % len(lab.models)
			k, fn := o.B/4%3, o.B%4
			r := lab.models[m]
			w := lab.want[m]
			if o.K == "new" {
				if len(lab.models) < 6 {
					ctx := context.Background()
					if c.N["sharectx"] == 1 {
						ctx = shared
					}
					newModel(ctx, nil)
				}
				return
			}
			if o.K == "newctx" {
				// a model created from the context a hook received has the hooks registered at that moment
				return
			}
			var b *raml.BaseShape
			if o.S == "shape" {
				b = r.MakeBaseShape("tmp", "/x", stacktrace.Position{Line: 1, Column: 1})
			}
			switch o.K {
			case "append":
				if b != nil {
					b.AppendRAMLHook(keys[k], labFns[k][fn])
				} else {
					r.AppendHook(keys[k], labFns[k][fn])
				}
				w[k] = append(append([]int(nil), w[k]...), fn)
			case "prepend":
				if b != nil {
					b.PrepenRAMLHook(keys[k], labFns[k][fn])
				} else {
					r.PrependHook(keys[k], labFns[k][fn])
				}
				w[k] = append([]int{fn}, w[k]...)
			case "remove":
				if b != nil {
					b.RemoveRAMLHook(keys[k], labFns[k][fn])
				} else {
					r.RemoveHook(keys[k], labFns[k][fn])
				}
				for i, x := range w[k] {
					if x == fn {
						w[k] = append(append([]int(nil), w[k][:i]...), w[k][i+1:]...)
						break
					}
				}
			case "nil": // a list may have entries that are no functions
				if fn%2 == 0 {
					r.AppendHook(keys[k], nil)
				} else {
					r.PrependHook(keys[k], nil)
				}
			case "clear":
				if b != nil {
					b.ClearRAMLHooks(keys[k])
				} else {
					r.ClearHooks(keys[k])
				}
				w[k] = nil
			}
		}
		for _, o := range c.Ops {
			if strings.HasPrefix(o.S, "@") {
				n := 0
				fmt.Sscanf(o.S, "@%d", &n)
				lab.at[n] = append(lab.at[n], Op{K: o.K, A: o.A, B: o.B})
			}
		}
		// how often each point is called by a load, without any hook of ours
		calls := [3]int{}
		{
			r := raml.New(bg)
			for i := range keys {
				i := i
				r.AppendHook(keys[i], func(context.Context, *raml.RAML, ...any) error { calls[i]++; return nil })
			}
			if err := r.ParseFromPath(root+"/api.raml", raml.OptWithUnwrap(), raml.OptWithValidate()); err != nil {
				panic("the project of the hook lab is not valid: " + err.Error())
			}
		}
		sawCtx := false
		loaded := map[int]bool{}
		fires := 0
		for _, o := range c.Ops {
			if strings.HasPrefix(o.S, "@") {
				continue
			}
			if o.K == "newctx" {
				if lab.ctx != nil && len(lab.models) < 6 {
					sawCtx = true
					// the context of the last hook call: its model's lists at that moment are unknown to the
					// reference only if they changed during the call, so they are read off by a probe load
					newModel(lab.ctx, nil)
					m := len(lab.models) - 1
					mark := len(lab.log)
					at := lab.at
					lab.at = map[int][]Op{}
					_ = lab.models[m].ParseFromPath(root + "/api.raml")
					loaded[m] = true
					lab.at = at
					for k := 0; k < 3; k++ {
						lab.want[m][k] = nil
					}
					seq := [3][]int{}
					for _, ev := range lab.log[mark:] {
						if ev.model == m {
							seq[ev.key] = append(seq[ev.key], ev.fn)
						}
					}
					lab.log = lab.log[:mark]
					for k := 0; k < 3; k++ {
						// stop using what was inherited; start from nothing
						lab.models[m].ClearHooks(keys[k])
					}
				}
				continue
			}
			if o.K != "fire" {
				lab.do(o)
				continue
			}
			m := o.A % len(lab.models)
			r := lab.models[m]
			mark := len(lab.log)
			before := make([][][]int, len(lab.want))
			for i := range lab.want {
				for k := range lab.want[i] {
					before[i] = append(before[i], append([]int(nil), lab.want[i][k]...))
				}
			}
			// a fresh entry point each time: the model reuses what it has loaded
			fires++
			name := fmt.Sprintf("%s/f%d.raml", root, fires)
			fs.Put(name, labFile)
			changed := false
			_ = changed
			// predict: replay the log against the reference with snapshot semantics
			savedAt := lab.at
			curWant := before
			at := map[int][]Op{}
			for n, ops := range savedAt {
				if n >= mark {
					at[n] = ops
				}
			}
			lab.at = at
			if err := r.ParseFromPath(name, raml.OptWithUnwrap(), raml.OptWithValidate()); err != nil {
				f = &Fail{Class: "load", Detail: "the load that calls the hooks fails: " + err.Error()}
				return
			}
			lab.at = savedAt
			counts := [3]int{}
			dyn := false
			nm := len(before)
			for n := mark; n < len(lab.log); n++ {
				ev := lab.log[n]
				if ev.model != m {
					f = &Fail{Class: "isolation", Detail: fmt.Sprintf("a load into model %d called hook %d of point %s with model %d", m, ev.fn, keys[ev.key], ev.model)}
					return
				}
				sk := [2]int{ev.model, ev.key}
				sn := snaps[sk]
				if sn == nil || len(sn.rest) == 0 {
					full := append([]int(nil), curWant[m][ev.key]...)
					sn = &snap{rest: full, full: full}
					snaps[sk] = sn
					counts[ev.key]++
				}
				if len(sn.rest) == 0 || sn.rest[0] != ev.fn {
					f = &Fail{Class: "order", Detail: fmt.Sprintf("hook point %s of model %d called hook %d; the list is %v, of which %v was still to be called (event %d, operations %s)", keys[ev.key], m, ev.fn, sn.full, sn.rest, n, opsText(c.Ops))}
					return
				}
				sn.rest = sn.rest[1:]
				for _, o := range at[n] {
					// the reference for the events that follow
					dyn = true
					if o.K == "new" || o.K == "newctx" {
						continue
					}
					mm, k, fn := o.A%max(nm, 1), o.B/4%3, o.B%4
					if mm >= len(curWant) {
						continue
					}
					w := curWant[mm]
					switch o.K {
					case "append":
						w[k] = append(append([]int(nil), w[k]...), fn)
					case "prepend":
						w[k] = append([]int{fn}, w[k]...)
					case "remove":
						for i, x := range w[k] {
							if x == fn {
								w[k] = append(append([]int(nil), w[k][:i]...), w[k][i+1:]...)
								break
							}
						}
					case "clear":
						w[k] = nil
					}
				}
			}
			for k := 0; k < 3; k++ {
				if sn := snaps[[2]int{m, k}]; sn != nil && len(sn.rest) > 0 {
					f = &Fail{Class: "skipped", Detail: fmt.Sprintf("hook point %s of model %d did not call %v of its list %v", keys[k], m, sn.rest, sn.full)}
					return
				}
				delete(snaps, [2]int{m, k})
				if !dyn && len(before[m][k]) > 0 && counts[k] < calls[k] && !loaded[m] {
					f = &Fail{Class: "not-called", Detail: fmt.Sprintf("hook point %s of model %d called its hooks %d times, but is passed %d times by such a load", keys[k], m, counts[k], calls[k])}
					return
				}
			}
			loaded[m] = true // later loads reuse fragments
		}
		_ = sawCtx
		cx.Notes["hook calls"] += len(lab.log)
	})
	if f == nil && e.Panic != nil {
		f = &Fail{Class: e.Panic.Kind, Site: e.Panic.Site, Detail: e.Panic.Msg}
	}
	return finish(f, s, e)
}

func opsText(ops []Op) string {
	var s []string
	for _, o := range ops {
		s = append(s, fmt.Sprintf("%s(%d,%d.%d%s)", o.K, o.A, o.B/4%3, o.B%4, o.S))
	}
	return strings.Join(s, " ")
}

// evalLabTasks: models of one context, changed and used by concurrent tasks.
func evalLabTasks(cx *Ctx, c *Case, s *Spec) *Fail {
	n := 2 + c.N["models"]%3
	logs := make([][]int, n)
	wants := make([][]int, n)
	fails := make([]string, n)
	key := hooks.Keys[c.N["key0"]%len(hooks.Keys)]
	var base context.Context
	mk := func(i, id int) raml.HookFunc {
		return func(context.Context, *raml.RAML, ...any) error { logs[i] = append(logs[i], id); return nil }
	}
	fs := simrt.NewFS(fileMap(labFiles), root)
	models := make([]*raml.RAML, n)
	tasks := make([]func(*simrt.World), n)
	for i := range tasks {
		i := i
		tasks[i] = func(*simrt.World) {
			r := raml.New(base)
			models[i] = r
			for j := 0; j < 2+c.N["key1"]%4; j++ {
				if (c.N["key2"]>>j)&1 == 0 {
					r.AppendHook(key, mk(i, i*100+j))
					wants[i] = append(wants[i], i*100+j)
				} else {
					r.PrependHook(key, mk(i, i*100+j))
					wants[i] = append([]int{i*100 + j}, wants[i]...)
				}
			}
			if err := r.ParseFromPath(root+"/api.raml", raml.OptWithUnwrap(), raml.OptWithValidate()); err != nil {
				fails[i] = err.Error()
			}
		}
	}
	e, pis := cx.RunTasks(fs, s, func() {
		// a context that already carries hooks (as a hook receives it)
		r := raml.New(bg)
		setup := true
		for j := 0; j < 1+c.N["key1"]%3; j++ {
			r.AppendHook(key, func(ctx context.Context, _ *raml.RAML, _ ...any) error {
				if setup {
					base = ctx
				}
				return nil
			})
		}
		base = bg
		_ = r.ParseFromPath(root+"/api.raml", raml.OptWithUnwrap(), raml.OptWithValidate())
		setup = false
		if c.N["sharectx"] == 0 {
			base = bg
		}
	}, tasks, nil)
	for i, p := range pis {
		if p != nil {
			return finish(&Fail{Class: p.Kind, Site: p.Site, Detail: p.Msg}, s, e)
		}
		if fails[i] != "" {
			return finish(&Fail{Class: "load", Detail: fails[i]}, s, e)
		}
		if len(logs[i])%len(wants[i]) != 0 {
			return finish(&Fail{Class: "isolation", Detail: fmt.Sprintf("task %d: the hooks %v were called as %v", i, wants[i], cutInts(logs[i]))}, s, e)
		}
		for j, x := range logs[i] {
			if x != wants[i][j%len(wants[i])] {
				return finish(&Fail{Class: "isolation", Detail: fmt.Sprintf("task %d: the hooks %v were called as %v", i, wants[i], cutInts(logs[i]))}, s, e)
			}
		}
		cx.Notes["hook calls in tasks"] += len(logs[i])
	}
	return nil
}

func cutInts(x []int) []int {
	if len(x) > 24 {
		return x[:24]
	}
	return x
}

func init() {
	register(&Property{ID: "C09",
		Rule: "A case is a seeded history of registering, prepending, removing and clearing hooks on several models (some created from one context, or from the context a hook received), with changes made by running hooks, between loads that call them; every call sequence is compared with an executable reference of the registry. A second kind of execution has concurrent tasks on models of one context under seeded preemption.",
		Gen:  func(r *simrt.Rng, tier string) *Case { return genLab(r) },
		Variants: func(cx *Ctx, c *Case) []*Spec {
			out := []*Spec{{K: "history"}}
			for i := 0; i < limitN(cx, 2, 6); i++ {
				out = append(out, &Spec{K: "tasks", Sched: simrt.Sched{Random: true, Seed: seedOf(c.Seed, "t", i), Prob: []float64{0.02, 0.2}[i%2]}})
			}
			return out
		},
		Eval: func(cx *Ctx, c *Case, s *Spec) *Fail {
			if s.K == "tasks" {
				return evalLabTasks(cx, c, s)
			}
			return evalLab(cx, c, s)
		}})
}

// ---- C14

func init() {
	register(&Property{ID: "C14",
		Rule: "A case is a generated RAML project (mutually referring and recursive types included) and a seeded history of copying types (detached, or with a shared map), unwrapping, recursion marking, inheriting and editing on one side; after every operation the complete print of the other side must be unchanged, and no copy made with a shared map may refer to an original.",
		Gen: func(r *simrt.Rng, tier string) *Case {
			o := sizes(r)
			o.Recurse = r.P(0.7)
			o.Frags = r.P(0.4)
			c := baseCase(r, o)
			c.N["unwrap"] = r.Intn(2)
			c.N["shared"] = r.Intn(2)
			c.N["clones"] = 1 + r.Intn(3)
			for i := 2 + r.Intn(8); i > 0; i-- {
				c.Ops = append(c.Ops, Op{K: pick(r, "unwrap", "mark", "inherit", "prop", "items", "members", "facet", "facet", "meta", "walk", "walk", "clone", "validate", "shallow"), A: r.Intn(1 << 16), B: r.Intn(1 << 16)})
			}
			if c.N["unwrap"] == 0 && r.P(0.5) {
				c.N["pre"] = 1 + r.Intn(3)
			}
			return c
		},
		Variants: func(cx *Ctx, c *Case) []*Spec {
			return []*Spec{{K: "copy"}, {K: "original"}, {K: "copy", Cfg: entropy(seedOf(c.Seed, 1), 1)}}
		},
		Eval: evalClone})
}

// reach lists the types reachable from b inside the type graph (not through fragments, annotations or the model).
func reach(b *raml.BaseShape) []*raml.BaseShape {
	var out []*raml.BaseShape
	seen := map[*raml.BaseShape]bool{}
	var rec func(b *raml.BaseShape)
	rec = func(b *raml.BaseShape) {
		if b == nil || seen[b] {
			return
		}
		seen[b] = true
		out = append(out, b)
		for _, i := range b.Inherits {
			rec(i)
		}
		rec(b.Alias)
		if b.Link != nil {
			rec(b.Link.Shape)
		}
		for p := b.CustomShapeFacetDefinitions.Oldest(); p != nil; p = p.Next() {
			rec(p.Value.Base)
		}
		switch s := b.Shape.(type) {
		case *raml.ObjectShape:
			for p := s.Properties.Oldest(); p != nil; p = p.Next() {
				rec(p.Value.Base)
			}
			for p := s.PatternProperties.Oldest(); p != nil; p = p.Next() {
				rec(p.Value.Base)
			}
		case *raml.ArrayShape:
			rec(s.Items)
		case *raml.UnionShape:
			for _, m := range s.AnyOf {
				rec(m)
			}
		case *raml.RecursiveShape:
			rec(s.Head)
		}
		if b.Shape != nil {
			rec(b.Shape.Base())
		}
	}
	rec(b)
	return out
}

func dumpShapes(bs []*raml.BaseShape) string {
	d := newDumper()
	d.own = true
	for i, b := range bs {
		d.val(fmt.Sprint(i), reflect.ValueOf(b))
	}
	return d.b.String()
}

func evalClone(cx *Ctx, c *Case, s *Spec) *Fail {
	var f *Fail
	what := ""
	how := How{Unwrap: c.N["unwrap"] == 1}
	cx.odd = len(c.Ops) > 0
	defer func() { cx.odd = false }()
	e := cx.Run(c.Files, c.Cwd, s, func(_ *simrt.World, fs *simrt.FS) {
		r := raml.New(bg)
		if parseInto(r, fs, c.Entry, how) != nil {
			what = "load"
			return
		}
		cx.note("loaded")
		ts := listTypes(r, pathsOf(c.Files))
		if len(ts) == 0 {
			return
		}
		// some types are unwrapped before others are copied
		for i := 0; i < c.N["pre"]; i++ {
			t := ts[int(seedOf(c.Seed, "pre", i)%uint64(len(ts)))]
			if _, err := r.UnwrapShape(t.B); err != nil {
				what = "unwrap"
				return
			}
		}
		// which types are copied
		rr := simrt.NewRng(seedOf(c.Seed, "pick"))
		var origs, copies []*raml.BaseShape
		shared := map[int64]*raml.BaseShape{}
		n := c.N["clones"]
		if c.N["shared"] == 1 {
			n = len(ts)
		}
		perm := rr.Perm(len(ts))
		before := dumpModel(r, pathsOf(c.Files), "")
		var allO []*raml.BaseShape
		for _, t := range ts {
			allO = append(allO, t.B)
		}
		for i := 0; i < n && i < len(ts); i++ {
			o := ts[perm[i]].B
			var k *raml.BaseShape
			if c.N["shared"] == 1 {
				k = o.Clone(shared)
			} else {
				k = o.CloneDetached()
			}
			origs, copies = append(origs, o), append(copies, k)
			if a, b := dumpAnyNoID(o), dumpAnyNoID(k); a != b {
				f = &Fail{Class: "copy-differs", Detail: "the copy is not like the original: " + firstDiff(a, b)}
				return
			}
		}
		if d := dumpModel(r, pathsOf(c.Files), ""); d != before {
			f = &Fail{Class: "copying-changes", Detail: "copying changed the model: " + firstDiff(before, d)}
			return
		}
		// no copy refers to an original
		orig := map[*raml.BaseShape]bool{}
		for _, o := range allO {
			for _, x := range reach(o) {
				orig[x] = true
			}
		}
		refers := func(when string) bool {
			for _, k := range copies {
				for _, x := range reach(k) {
					if orig[x] {
						f = &Fail{Class: "refers-to-original", Detail: fmt.Sprintf("%s the copy of %s refers to the original %s (%s)", when, k.Name, x.Name, x.Type)}
						return true
					}
				}
			}
			return false
		}
		if refers("after copying") {
			return
		}
		if c.N["shared"] == 1 {
			for id, k := range shared {
				for _, x := range copies {
					for _, y := range reach(x) {
						if y.ID == id && y != k {
							f = &Fail{Class: "two-copies", Detail: fmt.Sprintf("with a shared map there are two copies of %s", y.Name)}
							return
						}
					}
				}
			}
		}
		// operations on one side; the other side does not change
		side, otherSide := copies, allO
		if s.K == "original" {
			side, otherSide = origs, copies
		}
		otherDump := func() string {
			if s.K == "original" {
				return dumpShapes(otherSide)
			}
			return dumpModel(r, pathsOf(c.Files), "")
		}
		// shapes of the model are listed in r.shapes: unwrapping a copy adds the copy there, which is not part of the original
		if s.K != "original" {
			otherDump = func() string { return dumpShapes(otherSide) }
		}
		want := otherDump()
		for i, op := range c.Ops {
			what = fmt.Sprintf("operation %d %s", i, op.K)
			k := op.A % len(side)
			side[k] = editShape(r, side, k, op, c)
			if d := otherDump(); d != want {
				f = &Fail{Class: "other-side-changed", Site: op.K, Detail: fmt.Sprintf("%s on the %s changed the other side: %s", op.K, s.K, firstDiff(want, d))}
				return
			}
			cx.note("op " + op.K)
		}
	})
	if f == nil && e.Panic != nil {
		if what == "load" {
			return nil
		}
		cx.note("ended: " + e.Panic.Kind)
		return nil // C07 decides
	}
	return finish(f, s, e)
}

// dumpAnyNoID prints a type without what a copy may have of its own.
func dumpAnyNoID(b *raml.BaseShape) string {
	return dumpShapes([]*raml.BaseShape{b})
}

func editShape(r *raml.RAML, side []*raml.BaseShape, k int, op Op, c *Case) *raml.BaseShape {
	b := side[k]
	// some reachable type of this side
	rs := reach(b)
	x := rs[op.B%len(rs)]
	one := uint64(op.B % 7)
	// what edits put in: a type of its own, so that no edit makes a cycle that no file can make
	leaf := r.MakeBaseShape("leaf", "/w/p/leaf.raml", stacktrace.Position{Line: 1, Column: 1})
	leaf.Type = raml.TypeString
	leaf.SetShape(&raml.StringShape{BaseShape: leaf})
	str := "edited"
	switch op.K {
	case "unwrap":
		if u, err := r.UnwrapShape(b); err == nil {
			return u
		}
	case "mark":
		if b.IsUnwrapped() {
			_, _ = r.FindAndMarkRecursion(b)
		}
	case "inherit":
		p := side[(k+1)%len(side)]
		if p != b && p.Type == b.Type {
			if u, err := b.Inherit(p); err == nil && u != nil {
				return u
			}
		}
	case "prop":
		if o, ok := x.Shape.(*raml.ObjectShape); ok && o.Properties != nil {
			switch op.A % 3 {
			case 0:
				o.Properties.Set("added", raml.Property{Name: "added", Base: leaf})
			case 1:
				if p := o.Properties.Oldest(); p != nil {
					o.Properties.Delete(p.Key)
				}
			case 2:
				if p := o.Properties.Newest(); p != nil {
					v := p.Value
					v.Required = !v.Required
					o.Properties.Set(p.Key, v)
				}
			}
		}
		if o, ok := x.Shape.(*raml.ObjectShape); ok && o.PatternProperties != nil {
			if p := o.PatternProperties.Oldest(); p != nil && op.A%2 == 0 {
				o.PatternProperties.Delete(p.Key)
			} else {
				o.PatternProperties.Set("/^added/", raml.PatternProperty{Pattern: regexp.MustCompile("^added"), Base: leaf})
			}
		}
	case "items":
		if a, ok := x.Shape.(*raml.ArrayShape); ok {
			a.Items = leaf
			a.MinItems = &one
		}
	case "members":
		if u, ok := x.Shape.(*raml.UnionShape); ok && len(u.AnyOf) > 0 {
			switch op.A % 2 {
			case 0:
				u.AnyOf[op.A%len(u.AnyOf)] = leaf
			case 1:
				u.AnyOf = append(u.AnyOf, leaf)
			}
		}
	case "facet":
		switch t := x.Shape.(type) {
		case *raml.StringShape:
			t.MinLength = &one
			t.Enum = nil
		case *raml.IntegerShape:
			t.Format = &str
			t.Minimum = nil
		case *raml.NumberShape:
			t.Maximum = nil
			t.Format = &str
		case *raml.ObjectShape:
			t.MinProperties = &one
			t.Discriminator = &str
			t.AdditionalProperties = nil
		case *raml.ArrayShape:
			t.MaxItems = &one
			t.UniqueItems = nil
		case *raml.FileShape:
			t.MinLength = &one
		case *raml.DateTimeShape:
			t.Format = &str
		}
	case "meta":
		x.Description = &str
		x.DisplayName = &str
		x.Required = nil
		x.Name = "renamed"
		x.TypeLabel = "renamed"
		x.Default = nil
		x.Example = nil
		if x.CustomShapeFacets != nil {
			x.CustomShapeFacets.Set("added", &raml.Node{Value: 1})
		}
		if x.CustomDomainProperties != nil {
			x.CustomDomainProperties.Set("added", &raml.DomainExtension{Name: "added"})
		}
		if x.CustomShapeFacetDefinitions != nil {
			if p := x.CustomShapeFacetDefinitions.Oldest(); p != nil && op.A%2 == 0 {
				x.CustomShapeFacetDefinitions.Delete(p.Key)
			} else {
				x.CustomShapeFacetDefinitions.Set("added", raml.Property{Name: "added", Base: leaf})
			}
		}
		if len(x.Inherits) > 0 {
			x.Inherits[0] = leaf
		}
		x.ShapeVisited = false
	case "walk":
		// an edit deep inside
		for i, y := range rs {
			if i%3 == op.A%3 {
				y.Description = &str
				if s, ok := y.Shape.(*raml.StringShape); ok {
					s.MaxLength = &one
				}
			}
		}
	case "clone":
		return b.CloneDetached()
	case "shallow":
		q := b.CloneShallow()
		q.Description = &str
		if q.CustomShapeFacets != nil {
			q.CustomShapeFacets.Set("added", &raml.Node{Value: 1})
		}
	case "validate":
		for j, v := range valsFor(c.Vals, b.Name) {
			if j < 4 && b.IsUnwrapped() {
				_ = b.Validate(value(v))
			}
		}
	}
	return b
}

// ---- C15

func init() {
	register(&Property{ID: "C15",
		Rule: "A case is a list of RAML files, valid, invalid in seeded ways, missing, directories or the same file again, given to the validate command of the real command line program; I/O faults strike at seeded operations; status and reports are compared with what loading each file alone gives.",
		Gen: func(r *simrt.Rng, tier string) *Case {
			c := &Case{N: map[string]int{}, Cwd: root}
			n := 1 + r.Intn(4)
			for i := 0; i < n; i++ {
				d := fmt.Sprintf("%s/d%d", root, i)
				if r.P(0.12) {
					d += pick(r, " x", "*", "[0]", "%20", "~", "?", "{a,b}", "$HOME", ",")
				}
				o := sizes(r)
				o.Types, o.Libs = 2+r.Intn(4), r.Intn(2)
				if r.P(0.4) {
					o.Bad = 1 + r.Intn(2)
				}
				files, entry, _ := Project(r, d, o)
				if r.P(0.1) {
					files, _ = Mutate(r, files)
				}
				if r.P(0.08) {
					entry = d + "/missing.raml"
				} else if r.P(0.05) {
					entry = d
				}
				c.More = append(c.More, Proj{files, entry})
			}
			for i := 0; i < n; i++ {
				a := c.More[i].Entry
				switch r.Intn(5) {
				case 0:
					a = strings.TrimPrefix(a, root+"/")
				case 1:
					a = "./" + strings.TrimPrefix(a, root+"/")
				case 2:
					if d := path.Dir(a); d != root && d != "/" {
						a = d + "/../" + path.Base(d) + "/" + path.Base(a)
					}
				}
				if r.P(0.02) {
					a = ""
				}
				c.Ops = append(c.Ops, Op{K: "arg", A: i, S: a})
			}
			if r.P(0.006) {
				// a status has eight bits
				k := pick(r, 127, 128, 255, 256, 256, 256, 257, 300, 512)
				for len(c.Ops) < k {
					c.Ops = append(c.Ops, c.Ops[r.Intn(n)])
				}
				if r.P(0.7) {
					for i := range c.Ops {
						c.Ops[i] = c.Ops[0]
					}
				}
			}
			if r.P(0.2) {
				c.Ops = append(c.Ops, c.Ops[r.Intn(len(c.Ops))])
			}
			if r.P(0.2) {
				c.N["v"] = 1
			}
			return c
		},
		Variants: func(cx *Ctx, c *Case) []*Spec {
			out := []*Spec{{K: "plain"}}
			r := simrt.NewRng(seedOf(c.Seed, "v"))
			x := c15base(cx, c)
			if x == nil {
				return nil
			}
			if len(c.Ops) > 100 {
				cx.note("many arguments")
				return out
			}
			var fs []*Spec
			i, nc := 0, 0
			for _, ops := range x.ops {
				for _, op := range ops {
					v := 1 + r.Intn(ioValues[op.Op])
					fs = append(fs, &Spec{K: "io", Cfg: simrt.Config{Decs: []simrt.Dec{{K: "io", N: i, V: v}}, Expl: true}})
					i++
					if op.Op == "open" && r.P(0.5) {
						fs = append(fs, &Spec{K: "io", Cfg: simrt.Config{Decs: []simrt.Dec{{K: "close", N: nc, V: 1 + r.Intn(ioValues["close"])}}, Expl: true}})
					}
					if op.Op == "open" {
						nc++
					}
				}
			}
			out = append(out, sample(&r, fs, limitN(cx, 5, 60))...)
			for i := 0; i < 2; i++ {
				out = append(out, &Spec{K: "order", Cfg: entropy(r.Next(), 1)})
			}
			return out
		},
		Eval:  evalCLI,
		Real:  []string{"cmd/raml (the validate command, cobra, slog and its handlers)"},
		Stubs: []string{"os.Exit, os.Args, standard error (captured)"}})
}

type c15 struct {
	ops   [][]simrt.IOOp
	opens []int
	valid []bool
}

func c15files(c *Case) []FileC {
	var all []FileC
	for _, m := range c.More {
		all = append(all, m.Files...)
	}
	return all
}

// c15base loads every argument alone.
func c15base(cx *Ctx, c *Case) *c15 {
	return memoize(cx, "alone", func() *c15 {
		x := &c15{}
		first := map[string]int{}
		for i, o := range c.Ops {
			if j, ok := first[o.S]; ok {
				x.ops, x.opens, x.valid = append(x.ops, x.ops[j]), append(x.opens, x.opens[j]), append(x.valid, x.valid[j])
				continue
			}
			first[o.S] = i
			ob, e := cx.Load(c15files(c), c.Cwd, o.S, &Spec{}, How{Unwrap: true, Validate: true})
			if !ob.done() {
				return nil
			}
			cx.note("alone " + ob.V)
			x.ops = append(x.ops, e.W.IOOps)
			x.opens = append(x.opens, len(e.FS.Handles))
			x.valid = append(x.valid, ob.V == "ok")
		}
		return x
	})
}

var reANSI = regexp.MustCompile("\x1b\\[[0-9;]*m")

func evalCLI(cx *Ctx, c *Case, s *Spec) *Fail {
	if CLI == nil {
		fatal(3, "the command line program is not linked in")
	}
	x := c15base(cx, c)
	if x == nil {
		return nil
	}
	args := []string{"raml", "validate"}
	if c.N["v"] == 1 {
		args = append(args, "-v")
	}
	for _, o := range c.Ops {
		args = append(args, o.S)
	}
	old := os.Args
	os.Args = args
	code := -1
	want := append([]bool(nil), x.valid...)
	e := cx.Run(c15files(c), c.Cwd, s, func(w *simrt.World, _ *simrt.FS) {
		// a fault makes the file invalid that is validated when it strikes
		w.OnFire = func(k string) {
			switch strings.SplitN(k, "-", 2)[0] {
			case "open", "read", "seek", "close", "getwd":
				n := bytes.Count(reANSI.ReplaceAll(simos.Captured, nil), []byte("Validating RAML"))
				if n > 0 && n <= len(want) {
					want[n-1] = false
				}
			}
		}
		defer func() {
			v := recover()
			if x, ok := v.(simrt.ExitCalled); ok {
				code = x.Code
				return
			}
			if v != nil {
				panic(v)
			}
			code = 0
		}()
		CLI()
	})
	os.Args = old
	out := reANSI.ReplaceAllString(string(simos.Captured), "")
	if e.Panic != nil {
		return finish(&Fail{Class: e.Panic.Kind, Site: e.Panic.Site, Detail: e.Panic.Msg}, s, e)
	}
	all := true
	for _, v := range want {
		all = all && v
	}
	cx.note(fmt.Sprintf("status %d", code))
	if all != (code == 0) {
		return finish(&Fail{Class: "status", Detail: fmt.Sprintf("%d arguments %s, valid alone: %s, exit status %d\n%s", len(c.Ops), cut(fmt.Sprint(args[2:]), 600), cut(fmt.Sprint(want), 300), code, cut(out, 1500))}, s, e)
	}
	// the reports, in order
	var got []string
	for _, l := range strings.Split(out, "\n") {
		switch {
		case strings.Contains(l, "Validating RAML"):
			got = append(got, "start")
		case strings.Contains(l, "RAML is valid"):
			got = append(got, "valid")
		case strings.Contains(l, "RAML is invalid"):
			got = append(got, "invalid")
		}
	}
	var exp []string
	for _, v := range want {
		exp = append(exp, "start", map[bool]string{true: "valid", false: "invalid"}[v])
	}
	if strings.Join(got, " ") != strings.Join(exp, " ") {
		return finish(&Fail{Class: "reports", Detail: fmt.Sprintf("%d arguments %s: expected the reports %s, got %s\n%s", len(c.Ops), cut(fmt.Sprint(args[2:]), 600), cut(fmt.Sprint(exp), 600), cut(fmt.Sprint(got), 600), cut(out, 1500))}, s, e)
	}
	return nil
}
