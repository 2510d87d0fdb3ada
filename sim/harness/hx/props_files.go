//go:build go1.22

package hx

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"gopkg.in/yaml.v3"

	raml "github.com/acronis/go-raml/v2"
	"github.com/acronis/go-raml/v2/zzsim/simrt"
)

// references lists the files that a file refers to: by its uses and by includes.
func references(p, text string) (out []string) {
	defer func() {
		if recover() != nil {
			out = nil
		}
	}()
	var doc yaml.Node
	if yaml.NewDecoder(strings.NewReader(text)).Decode(&doc) != nil {
		return nil
	}
	dir := path.Dir(p)
	seen := map[*yaml.Node]bool{}
	var walk func(n *yaml.Node, all bool)
	walk = func(n *yaml.Node, all bool) {
		if n == nil || seen[n] && !all {
			return
		}
		seen[n] = true
		if n.Kind == yaml.AliasNode {
			walk(n.Alias, all)
			return
		}
		if all || n.Tag == "!include" {
			out = append(out, path.Join(dir, n.Value))
		}
		for _, k := range n.Content {
			walk(k, all && n.Kind == yaml.MappingNode)
		}
	}
	walk(&doc, false)
	if len(doc.Content) == 1 && doc.Content[0].Kind == yaml.MappingNode {
		m := doc.Content[0]
		for i := 0; i+1 < len(m.Content); i += 2 {
			if m.Content[i].Value == "uses" && m.Content[i+1].Kind == yaml.MappingNode {
				u := m.Content[i+1]
				for j := 0; j+1 < len(u.Content); j += 2 {
					walk(u.Content[j+1], true)
				}
			}
		}
	}
	return out
}

// reachOf follows the references from the entry.
func reachOf(files []FileC, entry string, ok func(p string) bool) map[string]bool {
	text := fileMap(files)
	out := map[string]bool{}
	var visit func(p string)
	visit = func(p string) {
		if out[p] {
			return
		}
		out[p] = true
		if t, there := text[p]; there && ok(p) {
			for _, q := range references(p, t) {
				visit(q)
			}
		}
	}
	visit(entry)
	return out
}

func fragmentFiles(files []FileC) func(string) bool {
	text := fileMap(files)
	return func(p string) bool { return strings.HasPrefix(text[p], "#%RAML") }
}

func listOf(m map[string]bool) string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// touched lists the files on which operations were performed.
func touched(w *simrt.World, from int) map[string]bool {
	out := map[string]bool{}
	for _, op := range w.IOOps[from:] {
		if op.Path != "" {
			out[op.Path] = true
		}
	}
	return out
}

// sideEffects finds what a run did besides reading.
func sideEffects(fs *simrt.FS, when string) *Fail {
	if len(fs.Fouls) > 0 {
		return &Fail{Class: "writes", Detail: when + " tries to change the disk or the process: " + strings.Join(fs.Fouls, ", ")}
	}
	if p := printed(); p != "" {
		return &Fail{Class: "prints", Detail: fmt.Sprintf("%s prints %q", when, cut(p, 300))}
	}
	if n := simrt.Alive(); n > 1 {
		return &Fail{Class: "leaves-tasks", Detail: fmt.Sprintf("%s leaves %d goroutines behind", when, n-1)}
	}
	return nil
}

func init() {
	register(&Property{ID: "C20",
		Rule: "A case is a generated RAML project (some damaged) on a disk with files that it does not refer to; it is loaded in every mode, with I/O faults, twice into one model and from a string, and everything is done with the model after the disk was wiped; the ledger of the disk must show operations only on files that are referred to, all of them if the load is accepted, none after the load, and nothing must be written, printed or left running.",
		Gen: func(r *simrt.Rng, tier string) *Case {
			o := sizes(r)
			o.Frags = r.P(0.8)
			if r.P(0.3) {
				o.Bad = 1
			}
			c := baseCase(r, o)
			if r.P(0.15) {
				c = graphCase(r)
			}
			c.N["mode"] = r.Intn(nModes)
			if r.P(0.15) {
				c.N["str"] = 1
			}
			if r.P(0.3) && len(c.Files) > 0 {
				if fs, w := Mutate(r, c.Files); len(fs) > 0 {
					c.Files, c.S = fs, w
				}
			}
			// neighbours that nothing refers to
			have := fileMap(c.Files)
			for i := r.Intn(4); i > 0 && len(c.Files) > 0; i-- {
				p := c.Files[r.Intn(len(c.Files))].P
				switch r.Intn(5) {
				case 0:
					p += pick(r, "~", ".bak", ".lock", ".cache", ".tmp")
				case 1:
					p = strings.TrimSuffix(p, path.Ext(p)) + pick(r, ".json", ".yaml", ".raml", "")
				case 2:
					p = path.Join(path.Dir(p), pick(r, "exchange.json", ".ramlrc", "api.raml", "index.raml", "types.raml"))
				case 3:
					p = path.Join(c.Cwd, path.Base(p))
				case 4:
					p = path.Join(path.Dir(path.Dir(p)), path.Base(p))
				}
				if _, there := have[p]; !there && path.Clean(p) == p && p != "/" && p != path.Dir(c.Entry) {
					have[p] = ""
					c.Files = append(c.Files, FileC{P: p, D: pick(r, "#%RAML 1.0 Library\ntypes:\n  Stray: string\n", "#%RAML 1.0 DataType\ntype: string\n", "{}\n", "")})
				}
			}
			return c
		},
		Variants: func(cx *Ctx, c *Case) []*Spec {
			out := []*Spec{{K: "load"}, {K: "load", Cfg: entropy(seedOf(c.Seed, "e"), 1)}, {K: "after"}, {K: "twice", A: []int{0}}, {K: "twice", A: []int{1 + int(c.Seed%7)}}}
			how := howOf(c)
			how.Model, how.Post = false, false
			return append(out, ioSweep(cx, c, how, limitN(cx, 8, 100))...)
		},
		Eval: func(cx *Ctx, c *Case, s *Spec) *Fail {
			how := howOf(c)
			how.Model, how.Post = false, false
			entries := []string{c.Entry}
			if s.K == "twice" {
				entries = append(entries, c.Entry)
				if n := s.A[0]; n > 0 {
					entries[1] = c.Files[n%len(c.Files)].P
				}
			}
			may, must := map[string]bool{}, map[string]bool{}
			for _, e := range entries {
				for p := range reachOf(c.Files, e, func(string) bool { return true }) {
					may[p] = true
				}
			}
			if c.S == "" { // in a damaged project, references may stand where they mean nothing
				must = reachOf(c.Files, c.Entry, fragmentFiles(c.Files))
			}
			if how.Str {
				delete(must, c.Entry)
			}
			var f *Fail
			printed()
			cx.odd = c.S != ""
			defer func() { cx.odd = false }()
			lim := *s
			lim.Sched.Limit = workLimit
			e := cx.Run(c.Files, c.Cwd, &lim, func(w *simrt.World, fs *simrt.FS) {
				r := raml.New(bg)
				var err error
				for i, x := range entries {
					err = parseInto(r, fs, x, how)
					if err != nil && (how.Unwrap || how.SepUnwrap) {
						break // what is half unwrapped is not for use
					}
					if i == 0 && err == nil {
						cx.note("accepted")
						got := touched(w, 0)
						for p := range must {
							if !got[p] {
								f = &Fail{Class: "not-read", Detail: fmt.Sprintf("the load is accepted and has not read %s, which the project refers to; it has read %s", p, listOf(got))}
								return
							}
						}
					}
				}
				for p := range touched(w, 0) {
					if !may[p] {
						f = &Fail{Class: "reads", Detail: fmt.Sprintf("the load has touched %s, which nothing it has read refers to (error: %s)", p, cut(errText(err), 300))}
						return
					}
				}
				if f = sideEffects(fs, "loading"); f != nil || err != nil || s.K != "after" {
					return
				}
				for _, p := range fs.Paths() {
					fs.Delete(p)
				}
				fs.CwdGone = true
				n := len(w.IOOps)
				steps := []func(){
					func() { _ = r.ValidateShapes() },
					func() { err = r.UnwrapShapes() },
					func() { _ = r.ValidateShapes() },
					func() { exercise(r, pathsOf(c.Files), c.Vals, 20, 10) },
					func() {
						for _, t := range listTypes(r, pathsOf(c.Files)) {
							u, uerr := r.UnwrapShape(t.B.CloneDetached())
							if uerr != nil {
								continue
							}
							if _, uerr = r.FindAndMarkRecursion(u); uerr == nil {
								_ = convert(u) + convertPlain(u)
							}
						}
					},
					func() { dumpModel(r, pathsOf(c.Files), "") },
				}
				for i, g := range steps {
					if err != nil {
						return // what is half unwrapped is not for use
					}
					g()
					if len(w.IOOps) != n {
						f = &Fail{Class: "io-after-load", Detail: fmt.Sprintf("step %d with a loaded model performs file operations: %s %s", i, w.IOOps[n].Op, w.IOOps[n].Path)}
						return
					}
					if f = sideEffects(fs, fmt.Sprintf("step %d with a loaded model", i)); f != nil {
						return
					}
				}
				cx.note("used without disk")
			})
			if f == nil && e.Panic != nil {
				cx.note("ended: " + e.Panic.Kind)
				return nil // C07 decides
			}
			return finish(f, s, e)
		}})
}
