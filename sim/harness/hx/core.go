//go:build go1.22

// Package hx is the test harness that runs the real go-raml code on the simulator: it
// generates projects, decides schedules, faults and map orders from seeds, and judges
// what the code did by the properties of /verif/properties.jsonl.
package hx

import (
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	raml "github.com/acronis/go-raml/v2"
	"github.com/acronis/go-raml/v2/zzsim/simos"
	"github.com/acronis/go-raml/v2/zzsim/simrt"
)

var bg = context.Background()

// CLI runs the command line program, if it is linked in.
var CLI func()

// Op is one operation of a history.
type Op struct {
	K string `json:"k"`
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	S string `json:"s,omitempty"`
}

// Proj is a project on the simulated disk.
type Proj struct {
	Files []FileC `json:"files"`
	Entry string  `json:"entry"`
}

// Case is one generated input of a property.
type Case struct {
	Prop  string         `json:"prop"`
	Seed  uint64         `json:"seed"`
	Files []FileC        `json:"files,omitempty"`
	Cwd   string         `json:"cwd,omitempty"`
	Entry string         `json:"entry,omitempty"`
	Vals  []string       `json:"vals,omitempty"`
	More  []Proj         `json:"more,omitempty"`
	Ops   []Op           `json:"ops,omitempty"`
	N     map[string]int `json:"n,omitempty"`
	S     string         `json:"s,omitempty"`
	// Prefix are the cases that ran before in the same process.
	Prefix []uint64 `json:"prefix,omitempty"`
	// Whole: the failure needs the executions of the case that come before the failing one.
	Whole bool `json:"whole,omitempty"`
}

func (c *Case) clone() *Case {
	b, _ := json.Marshal(c)
	var d Case
	_ = json.Unmarshal(b, &d)
	return &d
}

// Spec is one execution of a case: what the simulator does to it.
type Spec struct {
	K     string         `json:"k,omitempty"`
	Cfg   simrt.Config   `json:"cfg"`
	Tasks []simrt.Config `json:"tasks,omitempty"`
	Muts  []simrt.Mut    `json:"muts,omitempty"`
	Sched simrt.Sched    `json:"sched"`
	A     []int          `json:"a,omitempty"`
	S     string         `json:"s,omitempty"`
}

// Fail is a violation.
type Fail struct {
	Class  string   `json:"class"`
	Site   string   `json:"site,omitempty"`
	Detail string   `json:"detail"`
	Spec   *Spec    `json:"spec,omitempty"`
	Log    []string `json:"log,omitempty"`
}

// PanicInfo is how a run ended if it did not end by itself.
type PanicInfo struct {
	Kind  string // panic, hang, exit, deadlock
	Msg   string
	Site  string
	Stack string
}

func (p *PanicInfo) String() string {
	if p == nil {
		return ""
	}
	return p.Kind + " at " + p.Site + ": " + p.Msg
}

// Env is what one run did.
type Env struct {
	W     *simrt.World
	Ws    []*simrt.World
	FS    *simrt.FS
	Info  simrt.RunInfo
	Panic *PanicInfo
}

// Ctx runs the executions of one case and counts.
type Ctx struct {
	Tier   string
	Runs   int
	Steps  int64
	SimNs  int64
	MaxSt  int64
	Fired  map[string]int
	Hashes map[uint64]bool // hash of an execution -> nontrivial
	Ops    int             // property-level evaluations
	Notes  map[string]int
	memo   map[string]any
	rec    []uint64 // hashes in order, for the determinism check
	odd    bool     // the run is non-trivial in a way that its world does not know of
	disk   uint64   // hash of the content of the disk
	copies int      // copies of projects made by C24
	heap   int64    // memory in use when C24 looked last
}

// NewCtx makes a context.
func NewCtx(tier string) *Ctx {
	return &Ctx{Tier: tier, Fired: map[string]int{}, Hashes: map[uint64]bool{}, Notes: map[string]int{}, memo: map[string]any{}}
}

func (cx *Ctx) reset() { cx.memo = map[string]any{} }

func (cx *Ctx) note(k string) { cx.Notes[k]++ }

func memoize[T any](cx *Ctx, k string, f func() T) T {
	if v, ok := cx.memo[k]; ok {
		return v.(T)
	}
	v := f()
	cx.memo[k] = v
	return v
}

func fileMap(fs []FileC) map[string]string {
	m := make(map[string]string, len(fs))
	for _, f := range fs {
		m[f.P] = f.D
	}
	return m
}

func pathsOf(fs []FileC) []string {
	var out []string
	for _, f := range fs {
		out = append(out, f.P)
	}
	sort.Strings(out)
	return out
}

var reAddr = regexp.MustCompile(`0x[0-9a-f]{6,}`)

// siteOf finds the topmost frame of the code under test in a stack.
func siteOf(stack string) string {
	lines := strings.Split(stack, "\n")
	seenPanic := !strings.Contains(stack, "panic(")
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
			continue
		}
		if !seenPanic {
			continue
		}
		if strings.HasPrefix(l, "github.com/acronis/go-raml") && !strings.Contains(l, "/zzsim/") {
			if j := strings.LastIndexByte(l, '('); j > 0 {
				l = l[:j]
			}
			l = strings.TrimSuffix(l, "(...)")
			return strings.TrimPrefix(l, "github.com/acronis/")
		}
	}
	return "?"
}

func panicInfo(v any, stack string) *PanicInfo {
	switch x := v.(type) {
	case simrt.StepLimit:
		return &PanicInfo{Kind: "hang", Msg: x.Error(), Stack: stack}
	case simrt.ExitCalled:
		return &PanicInfo{Kind: "exit", Msg: x.Error(), Site: siteOf(stack), Stack: stack}
	case simrt.Deadlock:
		return &PanicInfo{Kind: "deadlock", Msg: x.Error(), Site: siteOf(stack), Stack: stack}
	}
	return &PanicInfo{Kind: "panic", Msg: reAddr.ReplaceAllString(fmt.Sprint(v), "0x?"), Site: siteOf(stack), Stack: cut(stack, 6000)}
}

// guard runs f and reports how it ended. Values the scheduler needs are passed on.
func guard(f func()) (pi *PanicInfo) {
	defer func() {
		if v := recover(); v != nil {
			if simrt.Internal(v) {
				panic(v)
			}
			pi = panicInfo(v, string(debug.Stack()))
		}
	}()
	f()
	return nil
}

// Run performs one simulated run of f over files.
func (cx *Ctx) Run(files []FileC, cwd string, s *Spec, f func(w *simrt.World, fs *simrt.FS)) *Env {
	fs := simrt.NewFS(fileMap(files), cwd)
	fs.Muts = s.Muts
	h := uint64(14695981039346656037)
	for _, x := range files {
		for _, t := range [2]string{x.P, x.D} {
			for i := 0; i < len(t); i++ {
				h = (h ^ uint64(t[i])) * 1099511628211
			}
			h *= 31
		}
	}
	cx.disk = h
	defer func() { cx.disk = 0 }()
	return cx.RunFS(fs, s, f)
}

// RunFS performs one simulated run of f on a disk.
func (cx *Ctx) RunFS(fs *simrt.FS, s *Spec, f func(w *simrt.World, fs *simrt.FS)) *Env {
	w := simrt.NewWorld(fs, s.Cfg)
	e := &Env{W: w, FS: fs}
	simos.Captured = nil
	var pv any
	t0 := w.Now
	e.Info, pv = simrt.Run(s.Sched, w, func() {
		e.Panic = guard(func() { f(w, fs) })
	})
	if pv != nil && e.Panic == nil {
		e.Panic = panicInfo(pv, "")
	}
	cx.Runs++
	cx.Steps += e.Info.Steps
	if e.Info.Steps > cx.MaxSt {
		cx.MaxSt = e.Info.Steps
	}
	cx.SimNs += w.Now - t0 + e.Info.Steps*10
	for k, n := range w.Fired {
		cx.Fired[k] += n
	}
	if hookFired > 0 {
		cx.Fired["hook-error"] += hookFired
		cx.odd = true
		defer func(b bool) { cx.odd = b }(false)
		hookFired = 0
	}
	h := w.Hash ^ e.Info.SchedHash*31
	for _, d := range w.Rec {
		h = (h ^ uint64(d.N)<<32 ^ uint64(d.V)) * 1099511628211
	}
	h = (h ^ cx.disk) * 1099511628211
	for _, a := range s.A {
		h = (h ^ uint64(a+1)) * 1099511628211
	}
	for _, t := range [2]string{s.K, s.S} {
		for i := 0; i < len(t); i++ {
			h = (h ^ uint64(t[i])) * 1099511628211
		}
	}
	nt := len(w.Rec) > 0 || e.Info.Switches > 0 || len(s.Muts) > 0 || cx.odd
	cx.Hashes[h&(1<<48-1)] = cx.Hashes[h&(1<<48-1)] || nt
	cx.rec = append(cx.rec, h)
	return e
}

// addWorld counts the world of a task.
func (cx *Ctx) addWorld(e *Env, w *simrt.World) {
	e.Ws = append(e.Ws, w)
	for k, n := range w.Fired {
		cx.Fired[k] += n
	}
}

// pin makes the spec of a finished run explicit, so that it repeats without drawing.
func pin(s *Spec, e *Env) *Spec {
	p := *s
	p.Cfg = pinCfg(s.Cfg, e.W)
	if len(e.Ws) > 0 {
		p.Tasks = nil
		for i, w := range e.Ws {
			var c simrt.Config
			if i < len(s.Tasks) {
				c = s.Tasks[i]
			}
			p.Tasks = append(p.Tasks, pinCfg(c, w))
		}
	}
	if s.Sched.Random {
		p.Sched = simrt.Sched{List: e.Info.Rec, Limit: s.Sched.Limit}
	}
	return &p
}

func pinCfg(c simrt.Config, w *simrt.World) simrt.Config {
	if c.Expl || len(c.Decs) > 0 {
		// decisions that were not reached stay: that they were not may be the point
		return simrt.Config{Seed: c.Seed, Decs: c.Decs, Expl: true}
	}
	return simrt.Config{Seed: c.Seed, Decs: append([]simrt.Dec(nil), w.Rec...), Expl: true}
}

// How says what a load does after reading.
type How struct {
	Unwrap, Validate bool // options
	Str              bool // ParseFromString
	SepUnwrap        bool // UnwrapShapes as a separate step
	SepValidate      bool
	Post             bool // exercise the model
	Model            bool
	Strip            string
	Prep             func(r *raml.RAML)
	Vals             []string
	OptOrder         int    // 1: options in reverse order, 2: each option twice
	Before           string // entry of a load into the same model before
	StrDir, StrName  string // how ParseFromString is told where the entry is
	Func             int    // 1, 2: use the functions of the package instead of a new model's methods, if that is possible
}

// Obs is what a user observes of a load.
type Obs struct {
	V     string // ok, err, or how the run ended
	Err   string
	Model string
	Post  string // answers of the model, error texts included
	PostV string // verdicts only
	E     error  `json:"-"`
	Site  string
	R     *raml.RAML `json:"-"`
}

func (o *Obs) hash() uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s\x00%s\x00%s\x00%s", o.V, o.Err, o.Model, o.Post)
	return h.Sum64()
}

func (how How) opts() []raml.ParseOpt {
	var o []raml.ParseOpt
	if how.Unwrap {
		o = append(o, raml.OptWithUnwrap())
	}
	if how.Validate {
		o = append(o, raml.OptWithValidate())
	}
	if how.OptOrder&1 != 0 && len(o) == 2 {
		o[0], o[1] = o[1], o[0]
	}
	if how.OptOrder&2 != 0 {
		o = append(o, o...)
	}
	return o
}

func dirBase(p string) (string, string) {
	i := strings.LastIndexByte(p, '/')
	return p[:i], p[i+1:]
}

// parseInto loads the entry into r the way how says.
func parseInto(r *raml.RAML, fs *simrt.FS, entry string, how How) error {
	var err error
	if b := how.Before; b != "" {
		how.Before = ""
		if err = parseInto(r, fs, b, how); err != nil {
			return err
		}
	}
	if how.Str {
		content, _ := fs.Read(entry)
		d, b := dirBase(entry)
		if how.StrName != "" {
			d, b = how.StrDir, how.StrName
		}
		err = r.ParseFromString(content, b, d, how.opts()...)
	} else {
		err = r.ParseFromPath(entry, how.opts()...)
	}
	if err == nil && how.SepUnwrap {
		err = r.UnwrapShapes()
	}
	if err == nil && how.SepValidate {
		err = r.ValidateShapes()
	}
	return err
}

// parseNew loads into a new model.
func parseNew(fs *simrt.FS, entry string, how How) (*raml.RAML, error) {
	if how.Func == 0 || how.Prep != nil || how.Before != "" || how.StrName != "" {
		r := raml.New(bg)
		if how.Prep != nil {
			how.Prep(r)
		}
		return r, parseInto(r, fs, entry, how)
	}
	var r *raml.RAML
	var err error
	if how.Str {
		content, _ := fs.Read(entry)
		d, b := dirBase(entry)
		if how.Func == 1 {
			r, err = raml.ParseFromString(content, b, d, how.opts()...)
		} else {
			r, err = raml.ParseFromStringCtx(bg, content, b, d, how.opts()...)
		}
	} else if how.Func == 1 {
		r, err = raml.ParseFromPath(entry, how.opts()...)
	} else {
		r, err = raml.ParseFromPathCtx(bg, entry, how.opts()...)
	}
	if err == nil && how.SepUnwrap {
		err = r.UnwrapShapes()
	}
	if err == nil && how.SepValidate {
		err = r.ValidateShapes()
	}
	return r, err
}

// Load runs one load and observes it.
func (cx *Ctx) Load(files []FileC, cwd, entry string, s *Spec, how How) (*Obs, *Env) {
	o := &Obs{}
	e := cx.Run(files, cwd, s, func(_ *simrt.World, fs *simrt.FS) {
		o.R, o.E = parseNew(fs, entry, how)
		o.observe(how, files)
	})
	o.ended(e)
	return o, e
}

func (o *Obs) ended(e *Env) {
	if e.Panic != nil {
		o.V = e.Panic.Kind
		o.Err = e.Panic.Msg
		o.Site = e.Panic.Site
		o.Model, o.Post = "", ""
	}
}

// observe fills in the outcome of a load into o.R that returned o.E.
func (o *Obs) observe(how How, files []FileC) {
	if o.E != nil {
		o.V = "err"
		o.Err = errText(o.E)
		if how.Strip != "" {
			o.Err = strings.ReplaceAll(o.Err, how.Strip, "<root>")
		}
		return
	}
	o.V = "ok"
	if how.Model {
		o.Model = dumpModel(o.R, pathsOf(files), how.Strip)
	}
	if how.Post {
		o.Post, o.PostV = exercise(o.R, pathsOf(files), how.Vals, 10, 10)
		if how.Strip != "" {
			o.Post = strings.ReplaceAll(o.Post, how.Strip, "<root>")
			o.PostV = strings.ReplaceAll(o.PostV, how.Strip, "<root>")
		}
	}
}

// NT is a named type of a model.
type NT struct {
	Name string
	B    *raml.BaseShape
}

// listTypes lists the types of a model in a fixed order.
func listTypes(r *raml.RAML, paths []string) []NT {
	var out []NT
	for _, p := range paths {
		switch f := r.GetFragment(p).(type) {
		case *raml.Library:
			if f == nil {
				continue
			}
			for pr := f.AnnotationTypes.Oldest(); pr != nil; pr = pr.Next() {
				out = append(out, NT{p + "#a." + pr.Key, pr.Value})
			}
			for pr := f.Types.Oldest(); pr != nil; pr = pr.Next() {
				out = append(out, NT{p + "#" + pr.Key, pr.Value})
			}
		case *raml.DataType:
			if f == nil {
				continue
			}
			out = append(out, NT{p, f.Shape})
		}
	}
	return out
}

// value decodes a JSON text into what a user passes: integers as int.
func value(s string) any {
	kind := byte('0')
	if tag, text, ok := strings.Cut(s, "|"); ok && strings.HasPrefix(s, "~") {
		kind, s = tag[1], text
	}
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v any
	if d.Decode(&v) != nil {
		return nil
	}
	return fixNum(v, kind)
}

// nKinds is the number of kinds of numbers that values may have.
const nKinds = 5

func fixNum(v any, kind byte) any {
	switch x := v.(type) {
	case json.Number:
		n, err := strconv.Atoi(string(x))
		f, _ := x.Float64()
		switch {
		case kind == '1' || err != nil:
			return f
		case kind == '2' && n >= 0:
			return uint(n)
		case kind == '3':
			return int64(n)
		case kind == '4':
			return x
		}
		return n
	case []any:
		for i := range x {
			x[i] = fixNum(x[i], kind)
		}
	case map[string]any:
		for k := range x {
			x[k] = fixNum(x[k], kind)
		}
	}
	return v
}

// valsOf are the values that were made for a type.
func valsOf(vals []string, name string) []string {
	var out []string
	for _, s := range vals {
		if tag, _, ok := strings.Cut(s, "|"); ok && strings.HasPrefix(s, "~") && tag[2:] == "@"+name {
			out = append(out, s)
		}
	}
	return out
}

// valsFor are all values, first those that were made for a type.
func valsFor(vals []string, name string) []string {
	own := valsOf(vals, name)
	if len(own) == 0 {
		return vals
	}
	for _, s := range vals {
		if tag, _, ok := strings.Cut(s, "|"); !ok || !strings.HasPrefix(s, "~") || tag[2:] != "@"+name {
			own = append(own, s)
		}
	}
	return own
}

// convert converts a type with both kinds of converter.
func convert(b *raml.BaseShape) string {
	var out string
	c1, err := raml.NewJSONSchemaConverter[*raml.JSONSchemaRAML](raml.WithWrapper(raml.JSONSchemaWrapper))
	if err != nil {
		return "converter: " + err.Error()
	}
	s1, err := c1.Convert(b.Shape)
	if err != nil {
		out += "raml: " + err.Error() + "\n"
	} else {
		j, err := json.Marshal(s1)
		out += "raml: " + string(j) + fmt.Sprint(err) + "\n"
	}
	return out
}

// exercise uses every type of a model and records the answers: in full, and verdicts only.
func exercise(r *raml.RAML, paths []string, vals []string, maxT, maxV int) (string, string) {
	var b, v strings.Builder
	for i, t := range listTypes(r, paths) {
		if i >= maxT {
			break
		}
		useType(&b, &v, t, vals, maxV)
	}
	return b.String(), v.String()
}

func verdict(err error) string {
	if err == nil {
		return "ok"
	}
	return "rejected"
}

func useType(b, v *strings.Builder, t NT, vals []string, maxV int) {
	b.WriteString(t.Name + " " + t.B.String() + "\n")
	v.WriteString(t.Name + " " + t.B.String() + "\n")
	for j, x := range valsFor(vals, t.B.Name) {
		if j >= maxV {
			break
		}
		err := t.B.Validate(value(x))
		fmt.Fprintf(b, " %d %s\n", j, errText(err))
		fmt.Fprintf(v, " %d %s\n", j, verdict(err))
	}
	err := t.B.Check()
	b.WriteString(" check " + errText(err) + "\n")
	v.WriteString(" check " + verdict(err) + "\n")
	if t.B.IsUnwrapped() {
		s := " schema " + convert(t.B) + "\n"
		b.WriteString(s)
		v.WriteString(s)
	}
}

// RunTasks runs functions as concurrent tasks of one simulated run.
func (cx *Ctx) RunTasks(fs *simrt.FS, s *Spec, before func(), tasks []func(w *simrt.World), after func()) (*Env, []*PanicInfo) {
	pis := make([]*PanicInfo, len(tasks))
	ws := make([]*simrt.World, len(tasks))
	e := cx.RunFS(fs, s, func(_ *simrt.World, _ *simrt.FS) {
		if before != nil {
			before()
		}
		joins := make([]func(), len(tasks))
		for i := range tasks {
			var c simrt.Config
			if i < len(s.Tasks) {
				c = s.Tasks[i]
			}
			w := simrt.NewWorld(fs.Fork(), c)
			ws[i] = w
			f, i := tasks[i], i
			joins[i] = simrt.Spawn(w, func() { pis[i] = guard(func() { f(w) }) }, nil)
		}
		for _, j := range joins {
			j()
		}
		if after != nil {
			after()
		}
	})
	for _, w := range ws {
		if w != nil {
			cx.addWorld(e, w)
		}
	}
	return e, pis
}

func failPanic(pi *PanicInfo, what string) *Fail {
	return &Fail{Class: pi.Kind, Site: pi.Site, Detail: what + ": " + pi.Msg + "\n" + cut(pi.Stack, 3000)}
}

func tail(log []string, n int) []string {
	if len(log) > n {
		return append([]string{fmt.Sprintf("… %d earlier events", len(log)-n)}, log[len(log)-n:]...)
	}
	return log
}

func seedOf(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	x := h.Sum64()
	if x == 0 {
		x = 1
	}
	return x
}
