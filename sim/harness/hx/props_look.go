//go:build go1.22

package hx

import (
	"fmt"
	"sort"
	"strings"

	raml "github.com/acronis/go-raml/v2"
	"github.com/acronis/go-raml/v2/zzsim/simrt"
	orderedmap "github.com/wk8/go-ordered-map/v2"
)

// ---- C22

// looker checks that all ways to look something up in a model agree.
type looker struct {
	r         *raml.RAML
	unwrapped bool
	when      string
	f         *Fail
}

func (l *looker) bad(class, format string, args ...any) {
	if l.f == nil {
		l.f = &Fail{Class: class, Detail: l.when + " " + fmt.Sprintf(format, args...)}
	}
}

// is checks the answer x, err of a lookup of b.
func (l *looker) is(class, what string, b, x *raml.BaseShape, err error) {
	switch {
	case err != nil:
		l.bad(class, "%s is an error: %v", what, err)
	case x == nil:
		l.bad(class, "%s is nil", what)
	case x != b && !(l.unwrapped && x.Name == b.Name && x.Location == b.Location && dumpMeaning(x, meaningDepth) == dumpMeaning(b, meaningDepth)):
		l.bad(class, "%s is another type", what)
	}
}

func keys(m map[string]*raml.BaseShape) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

// missing checks that a name that nothing has is not found.
func (l *looker) missing(p string) {
	const no = "No Such Type"
	r := l.r
	if x, _ := r.GetTypeFromFragmentPtr(p, no); x != nil {
		l.bad("found", "a type that is not in %s is found", p)
	}
	if x, _ := r.GetAnnotationTypeFromFragmentPtr(p, no); x != nil {
		l.bad("found", "an annotation type that is not in %s is found", p)
	}
	if x, err := r.GetReferencedType(no, p); x != nil || err == nil {
		l.bad("found", "a type that is not in %s can be referred to: %v, %v", p, x != nil, err)
	}
	if x, err := r.GetReferencedAnnotationType(no, p); x != nil || err == nil {
		l.bad("found", "an annotation type that is not in %s can be referred to: %v, %v", p, x != nil, err)
	}
}

// strangers checks that names that are declared elsewhere, or as the other kind of type, are not found.
func (l *looker) strangers(p string, f raml.Fragment, names []string, uses *orderedmap.OrderedMap[string, *raml.LibraryLink], types, ann *orderedmap.OrderedMap[string, *raml.BaseShape]) {
	has := func(m *orderedmap.OrderedMap[string, *raml.BaseShape], n string) bool {
		if m == nil {
			return false
		}
		_, ok := m.Get(n)
		return ok
	}
	r := l.r
	for _, n := range names {
		if !has(types, n) && types != nil {
			if x, _ := r.GetTypeFromFragmentPtr(p, n); x != nil {
				l.bad("found", "a type %s is found in %s, which has none", n, p)
			}
		}
		if !has(ann, n) {
			if x, _ := r.GetAnnotationTypeFromFragmentPtr(p, n); x != nil {
				l.bad("found", "an annotation type %s is found in %s, which has none", n, p)
			}
		}
		if strings.Contains(n, ".") {
			continue
		}
		if !has(types, n) {
			if x, err := r.GetReferencedType(n, p); x != nil || err == nil {
				l.bad("found", "a type %s can be referred to in %s, which has none", n, p)
			}
		}
		if !has(ann, n) {
			if x, err := r.GetReferencedAnnotationType(n, p); x != nil || err == nil {
				l.bad("found", "an annotation type %s can be referred to in %s, which has none", n, p)
			}
		}
		for u := uses.Oldest(); u != nil; u = u.Next() {
			ref := u.Key + "." + n
			if lib := u.Value.Link; lib != nil && strings.Count(ref, ".") == 1 {
				if !has(lib.Types, n) && !has(types, ref) {
					if x, err := f.GetReferenceType(ref); x != nil || err == nil {
						l.bad("found", "a type %s can be referred to in %s, but the library has none", ref, p)
					}
				}
				if !has(lib.AnnotationTypes, n) && !has(ann, ref) {
					if x, err := f.GetReferenceAnnotationType(ref); x != nil || err == nil {
						l.bad("found", "an annotation type %s can be referred to in %s, but the library has none", ref, p)
					}
				}
			}
		}
	}
}

// plain returns the names alone of names with paths.
func plain(names []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, n := range names {
		if _, name, ok := strings.Cut(n, "#"); ok {
			name = strings.TrimPrefix(strings.TrimPrefix(name, "a."), "t.")
			if name != "" && !seen[name] {
				seen[name] = true
				out = append(out, name)
			}
		}
	}
	return out
}

// used checks references through the libraries that a fragment uses.
func (l *looker) used(p string, f raml.Fragment, name string, lib *raml.Library, local, localAnn func(string) (*raml.BaseShape, bool)) {
	if lib == nil || l.r.GetFragment(lib.Location) != raml.Fragment(lib) {
		l.bad("library", "%s uses a library %s that is not the one in the model", p, name)
		return
	}
	for pr := lib.Types.Oldest(); pr != nil; pr = pr.Next() {
		ref := name + "." + pr.Key
		want := pr.Value
		if b, ok := local(ref); ok {
			want = b
		}
		x, err := f.GetReferenceType(ref)
		l.is("reference", "the type "+ref+" as seen from "+p, want, x, err)
	}
	for pr := lib.AnnotationTypes.Oldest(); pr != nil; pr = pr.Next() {
		ref := name + "." + pr.Key
		want := pr.Value
		if b, ok := localAnn(ref); ok {
			want = b
		}
		x, err := f.GetReferenceAnnotationType(ref)
		l.is("reference", "the annotation type "+ref+" as seen from "+p, want, x, err)
	}
}

func lookups(r *raml.RAML, ps, names []string, unwrapped bool, when string) *Fail {
	l := &looker{r: r, unwrapped: unwrapped, when: when}
	short := plain(names)
	for _, p := range ps {
		switch f := r.GetFragment(p).(type) {
		case nil:
			if m := r.GetFragmentTypePtrs(p); len(m) > 0 {
				l.bad("left over", "there are types of %s, which is not in the model: %s", p, keys(m))
			}
			for _, n := range names {
				if q, name, ok := strings.Cut(n, "#a."); ok && q == p {
					if x, _ := r.GetAnnotationTypeFromFragmentPtr(p, name); x != nil {
						l.bad("left over", "there is an annotation type %s of %s, which is not in the model", name, p)
					}
				}
			}
		case *raml.Library:
			if f.GetLocation() != p {
				l.bad("location", "the fragment %s says that it is %s", p, f.GetLocation())
			}
			m := map[string]*raml.BaseShape{}
			for pr := f.Types.Oldest(); pr != nil; pr = pr.Next() {
				m[pr.Key] = pr.Value
				if pr.Value.Name != pr.Key || pr.Value.Location != p {
					l.bad("name", "type %s of %s has the name %s and the location %s", pr.Key, p, pr.Value.Name, pr.Value.Location)
				}
				x, err := r.GetTypeFromFragmentPtr(p, pr.Key)
				l.is("type", "type "+pr.Key+" in the table of "+p, pr.Value, x, err)
				x, err = r.GetReferencedType(pr.Key, p)
				l.is("reference", "a reference to type "+pr.Key+" of "+p, pr.Value, x, err)
			}
			if got, want := keys(r.GetFragmentTypePtrs(p)), keys(m); got != want {
				l.bad("types", "the table of types of %s has %s, the library has %s", p, got, want)
			}
			for pr := f.AnnotationTypes.Oldest(); pr != nil; pr = pr.Next() {
				if pr.Value.Name != pr.Key || pr.Value.Location != p {
					l.bad("name", "annotation type %s of %s has the name %s and the location %s", pr.Key, p, pr.Value.Name, pr.Value.Location)
				}
				x, err := r.GetAnnotationTypeFromFragmentPtr(p, pr.Key)
				l.is("type", "annotation type "+pr.Key+" in the table of "+p, pr.Value, x, err)
				x, err = r.GetReferencedAnnotationType(pr.Key, p)
				l.is("reference", "a reference to annotation type "+pr.Key+" of "+p, pr.Value, x, err)
			}
			for u := f.Uses.Oldest(); u != nil; u = u.Next() {
				l.used(p, f, u.Key, u.Value.Link, f.Types.Get, f.AnnotationTypes.Get)
			}
			l.missing(p)
			l.strangers(p, f, short, f.Uses, f.Types, f.AnnotationTypes)
		case *raml.DataType:
			if f.GetLocation() != p || f.Shape.Location != p {
				l.bad("location", "the fragment %s says that it is %s, and its type %s", p, f.GetLocation(), f.Shape.Location)
			}
			if unwrapped {
				x, err := r.GetTypeFromFragmentPtr(p, f.Shape.Name)
				l.is("type", "the type in the table of "+p, f.Shape, x, err)
				if n := len(r.GetFragmentTypePtrs(p)); n != 1 {
					l.bad("types", "the table of types of %s has %d types", p, n)
				}
			}
			none := func(string) (*raml.BaseShape, bool) { return nil, false }
			for u := f.Uses.Oldest(); u != nil; u = u.Next() {
				l.used(p, f, u.Key, u.Value.Link, none, none)
			}
			l.missing(p)
			l.strangers(p, f, short, f.Uses, nil, nil)
		}
		if l.f != nil {
			return l.f
		}
	}
	if x := r.GetFragment("/no/such/file"); x != nil {
		l.bad("found", "a fragment that nobody loaded is found")
	}
	if e := r.EntryPoint(); e != nil && r.GetLocation() != e.GetLocation() {
		l.bad("location", "the model is at %s, its entry point at %s", r.GetLocation(), e.GetLocation())
	}
	ds := r.GetAllAnnotationsPtr()
	copies := r.GetAllAnnotations()
	if len(ds) != len(copies) {
		l.bad("annotations", "there are %d annotations and %d copies of them", len(ds), len(copies))
		return l.f
	}
	for i, d := range ds {
		if d == nil || d.DefinedBy == nil {
			l.bad("annotations", "annotation %d has no definition", i)
			return l.f
		}
		if *d != copies[i] {
			l.bad("annotations", "the copy of annotation %s in %s differs from it", d.Name, d.Location)
		}
		if r.GetFragment(d.Location) == nil && r.GetFragment(d.DefinedBy.Location) == nil {
			l.bad("left over", "there is an annotation %s in %s, which is not in the model", d.Name, d.Location)
		}
		x, err := r.GetAnnotationTypeFromFragmentPtr(d.DefinedBy.Location, d.DefinedBy.Name)
		l.is("annotations", "the definition of annotation "+d.Name+" in "+d.Location, d.DefinedBy, x, err)
		if r.GetFragment(d.Location) != nil {
			x, err = r.GetReferencedAnnotationType(d.Name, d.Location)
			l.is("annotations", "the definition of annotation "+d.Name+" in "+d.Location+" by its name", d.DefinedBy, x, err)
		}
	}
	return l.f
}

func init() {
	register(&Property{ID: "C22",
		Rule:     "A case is one or two generated RAML projects of several fragments (some damaged) and a seeded history of loads of these fragments into one model, with I/O faults, torn files and failing hooks in some loads, and validations, unwrapping and use of the types in between; after every operation all ways to look a fragment, type, annotation type, annotation or reference up must agree.",
		Gen:      genMany,
		Variants: variantsMany,
		Eval: func(cx *Ctx, c *Case, s *Spec) *Fail {
			var names []string
			for _, a := range cx.fragments(c) {
				names = append(names, a.names...)
			}
			sort.Strings(names)
			return many(cx, c, s, func(_ *simrt.World, r *raml.RAML, ps []string, unwrapped bool, when string) *Fail {
				return lookups(r, ps, names, unwrapped, when)
			})
		}})
}
