//go:build go1.22

package hx

import (
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/acronis/go-raml/v2/zzsim/simrt"
)

// FileC is a file of a project.
type FileC struct {
	P string `json:"p"`
	D string `json:"d"`
}

// Content that is not valid UTF-8 is kept as base64.
type fileJSON struct {
	P string `json:"p"`
	D string `json:"d,omitempty"`
	B []byte `json:"b,omitempty"`
}

func (f FileC) MarshalJSON() ([]byte, error) {
	j := fileJSON{P: f.P}
	if utf8.ValidString(f.D) {
		j.D = f.D
	} else {
		j.B = []byte(f.D)
	}
	return json.Marshal(j)
}

func (f *FileC) UnmarshalJSON(b []byte) error {
	var j fileJSON
	if err := json.Unmarshal(b, &j); err != nil {
		return err
	}
	f.P, f.D = j.P, j.D
	if j.B != nil {
		f.D = string(j.B)
	}
	return nil
}

// yn is a YAML node to write.
type yn struct {
	k    byte // s scalar as is, m map, l list, f flow/json text
	s    string
	keys []string
	kids []*yn
}

func ys(s string) *yn  { return &yn{k: 's', s: s} }
func yq(s string) *yn  { return &yn{k: 's', s: strconv.Quote(s)} }
func yi(n int) *yn     { return ys(strconv.Itoa(n)) }
func ym() *yn          { return &yn{k: 'm'} }
func yl() *yn          { return &yn{k: 'l'} }
func inc(p string) *yn { return ys("!include " + p) }
func yj(v any) *yn {
	b, err := json.Marshal(v)
	if err != nil {
		return ys("null")
	}
	return ys(string(b))
}

func (n *yn) set(k string, v *yn) *yn {
	for i, kk := range n.keys {
		if kk == k {
			n.kids[i] = v
			return n
		}
	}
	n.keys, n.kids = append(n.keys, k), append(n.kids, v)
	return n
}

func (n *yn) get(k string) *yn {
	for i, kk := range n.keys {
		if kk == k {
			return n.kids[i]
		}
	}
	return nil
}

func (n *yn) del(k string) {
	for i, kk := range n.keys {
		if kk == k {
			n.keys = append(n.keys[:i:i], n.keys[i+1:]...)
			n.kids = append(n.kids[:i:i], n.kids[i+1:]...)
			return
		}
	}
}

func (n *yn) has(k string) bool { return n.get(k) != nil }

func (n *yn) add(v *yn) *yn { n.kids = append(n.kids, v); return n }

func keyText(k string) string {
	plain := k != ""
	for _, c := range k {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '-' || c == '.') {
			plain = false
		}
	}
	if plain && !strings.HasPrefix(k, "-") && strings.ToLower(k) != "null" && strings.ToLower(k) != "true" && strings.ToLower(k) != "y" && strings.ToLower(k) != "n" {
		return k
	}
	if strings.HasPrefix(k, "(") || strings.HasSuffix(k, "?") && !strings.ContainsAny(k, " :#") {
		return k
	}
	return strconv.Quote(k)
}

func (n *yn) write(b *strings.Builder, ind int) {
	pad := strings.Repeat("  ", ind)
	switch n.k {
	case 's':
		b.WriteString(" " + n.s + "\n")
	case 'm':
		if len(n.keys) == 0 {
			b.WriteString(" {}\n")
			return
		}
		b.WriteString("\n")
		for i, k := range n.keys {
			b.WriteString(pad + keyText(k) + ":")
			n.kids[i].write(b, ind+1)
		}
	case 'l':
		if len(n.kids) == 0 {
			b.WriteString(" []\n")
			return
		}
		b.WriteString("\n")
		for _, k := range n.kids {
			b.WriteString(pad + "-")
			k.write(b, ind+1)
		}
	}
}

func (n *yn) doc(head string) string {
	var b strings.Builder
	b.WriteString(head + "\n")
	if n.k == 'm' && len(n.keys) == 0 {
		b.WriteString("{}\n")
		return b.String()
	}
	for i, k := range n.keys {
		b.WriteString(keyText(k) + ":")
		n.kids[i].write(&b, 1)
	}
	return b.String()
}

// gT is a type the generator knows.
type gT struct {
	name string
	lib  *gLib
	kind string
	node *yn
	// effective facets
	minL, maxL int // -1 = none
	min, max   int
	hasMin     bool
	hasMax     bool
	enum       []any
	props      []gP
	pats       []gPat
	items      *gR
	members    []*gR
	addl       bool
	facets     []gP // custom facet definitions
	pattern    string
	format     string
	uniq       bool
	disc       string
	recursive  bool
	done       bool
}

type gP struct {
	name string
	req  bool
	r    *gR
}

// gPat is a pattern property: the prefix of the keys it is for, if values use it.
type gPat struct {
	prefix string
	r      *gR
}

// gR is a use of a type.
type gR struct {
	t   *gT
	arr int // number of []
	opt bool
	uni []*gR
}

type gLib struct {
	p     string
	dt    bool
	uses  map[string]*gLib
	order []string
	types []*gT
	anns  []*gT
	node  *yn
	shape *gT // of a data type fragment
	twins []gTwin
	cnt   int
}

type gTwin struct {
	name string
	node *yn
}

// Gen makes a project.
type Gen struct {
	r     *simrt.Rng
	files []FileC
	libs  []*gLib
	dts   []*gLib
	n     int
	o     GenOpt
	entry string
	vals  []string
	bad   int
	dir   string
	nfrag int
	used  map[string]bool
	jsons []string
	style int // how files are named: 0 plainly, 1 alike but for the case of letters, 2 with unusual characters
	paths []string
}

// GenOpt says what to generate.
type GenOpt struct {
	Libs     int // most libraries besides the entry
	Types    int // most types per library
	Bad      int // number of defects
	Cycles   bool
	Frags    bool // data type and example fragments
	Recurse  bool
	Flat     bool // no raw includes
	Hot      bool // favour many properties with several defects in one shape
	JSONType bool
	Mix      bool // types that combine other, unrelated types by inheritance
	Same     bool // files, types, annotations and aliases with the same names in different places
}

var dirs = []string{"", "lib/", "lib/deep/", "common/", "lib/../", "./"}

// Project generates a project below root and returns its files and its entry.
func Project(r *simrt.Rng, root string, o GenOpt) ([]FileC, string, []string) {
	g := &Gen{r: r, o: o, dir: root, used: map[string]bool{}}
	if r.P(0.5) {
		g.n = r.Intn(5000) // names that other projects do not have
	}
	g.build()
	return g.files, g.entry, g.vals
}

func (g *Gen) p(x float64) bool { return g.r.P(x) }
func (g *Gen) id(pre string) string {
	g.n++
	return pre + strconv.Itoa(g.n)
}

// name makes a name that is unique in its library only if the project has the same names in several places.
func (g *Gen) name(l *gLib, pre string) string {
	if !g.o.Same {
		return g.id(pre)
	}
	l.cnt++
	return pre + strconv.Itoa(l.cnt)
}

// alias makes the name under which a fragment uses the library with an index.
func (g *Gen) alias(l *gLib, i int) string {
	if g.o.Same {
		i = len(l.order)
	}
	return "u" + strconv.Itoa(i)
}

// odd gives a new file an unusual name.
func (g *Gen) odd(p string) string {
	if g.style == 0 {
		return p
	}
	q, ext := p, path.Ext(p)
	switch {
	case g.style == 2 && g.p(0.6):
		q = strings.TrimSuffix(p, ext) + pick(g.r, "%20x", "%2e", "%", "a+b", " y", "#z", "é", "~", "@2", "..v1", ".raml", "[1]", "$HOME", "&", "=", "'", "?q", "_*") + ext
	case g.style == 1 && len(g.paths) > 0 && g.p(0.7):
		o := g.paths[g.r.Intn(len(g.paths))]
		d, b := path.Split(o)
		if path.Ext(o) == ext {
			b = strings.TrimSuffix(b, ext)
			q = d + pick(g.r, strings.ToUpper(b)+ext, strings.ToUpper(b[:1])+b[1:]+ext, strings.ToLower(b)+ext)
		}
	}
	if g.used[q] {
		q = p
	}
	g.used[q] = true
	g.paths = append(g.paths, q)
	return q
}

// fname makes the path of a new file in one of the given directories.
func (g *Gen) fname(pre, ext string, subs ...string) string {
	sub := pick(g.r, subs...)
	if !g.o.Same {
		return g.odd(path.Join(g.dir, sub, g.id(pre)+ext))
	}
	for i := 0; ; i++ {
		p := path.Join(g.dir, sub, pre+ext)
		if i > 0 {
			p = path.Join(g.dir, sub, pre+strconv.Itoa(i)+ext)
		}
		if !g.used[p] {
			g.used[p] = true
			return p
		}
	}
}

func (g *Gen) put(p, d string) {
	for i := range g.files {
		if g.files[i].P == p {
			g.files[i].D = d
			return
		}
	}
	g.files = append(g.files, FileC{p, d})
}

func rel(from, to string) string {
	a, b := strings.Split(path.Dir(from), "/"), strings.Split(to, "/")
	i := 0
	for i < len(a) && i < len(b)-1 && a[i] == b[i] {
		i++
	}
	var out []string
	for j := i; j < len(a); j++ {
		if a[j] != "" {
			out = append(out, "..")
		}
	}
	return strings.Join(append(out, b[i:]...), "/")
}

// relv writes the same relative path in one of several spellings.
func (g *Gen) relv(from, to string) string {
	p := rel(from, to)
	switch g.r.Intn(6) {
	case 0:
		return "./" + p
	case 1:
		d := path.Base(path.Dir(to))
		if !strings.Contains(p, "/") && d != "/" && path.Dir(from) == path.Dir(to) && d != "." {
			return "../" + d + "/" + p
		}
	}
	return p
}

func (g *Gen) build() {
	n := 0
	if g.o.Libs > 0 {
		n = g.r.Intn(g.o.Libs + 1)
	}
	sub := []string{"", "lib", "lib/deep", "common"}
	if g.p(0.12) {
		g.style = 1 + g.r.Intn(2)
	}
	for i := 0; i <= n; i++ {
		p := path.Join(g.dir, sub[g.r.Intn(len(sub))], fmt.Sprintf("l%d.raml", i))
		if g.o.Same {
			p = g.fname("api", ".raml", sub...)
		} else {
			p = g.odd(p)
		}
		if i == 0 {
			p = path.Join(g.dir, "api.raml")
			g.used[p] = true
			g.paths = append(g.paths, p)
		}
		g.libs = append(g.libs, &gLib{p: p, uses: map[string]*gLib{}})
	}
	// the last library is generated first: the others may use it
	for i := n; i >= 0; i-- {
		l := g.libs[i]
		for j := i + 1; j <= n; j++ {
			if g.p(0.7) {
				a := g.alias(l, j)
				l.uses[a] = g.libs[j]
				l.order = append(l.order, a)
				if g.p(0.15) { // the same library under a second name
					l.uses[a+"x"] = g.libs[j]
					l.order = append(l.order, a+"x")
				}
			}
		}
		if g.o.Cycles && g.p(0.5) {
			j := g.r.Intn(i + 1)
			a := fmt.Sprintf("b%d", j)
			l.uses[a] = g.libs[j]
			l.order = append(l.order, a)
		}
		g.lib(l)
	}
	if g.p(0.1) {
		g.facade(sub)
	}
	if g.p(0.012) {
		g.many(g.libs[g.r.Intn(len(g.libs))], sub)
	}
	entryIdx := 0
	if g.o.Frags && len(g.dts) > 0 && g.p(0.15) {
		g.entry = g.dts[g.r.Intn(len(g.dts))].p
	} else {
		g.entry = g.libs[entryIdx].p
	}
	for i := 0; i < g.o.Bad; i++ {
		g.defect()
	}
	if g.o.Mix {
		for i := 1 + g.r.Intn(3); i > 0; i-- {
			g.mix(g.libs[g.r.Intn(len(g.libs))])
		}
	}
	for _, l := range g.libs {
		g.put(l.p, g.libText(l))
	}
	for _, l := range g.dts {
		g.put(l.p, g.dtText(l))
	}
	// values to validate
	for _, l := range g.libs {
		for _, t := range l.types {
			if len(g.vals) < 12 {
				v := g.val(&gR{t: t}, 4)
				g.vals = append(g.vals, g.encode(t.name, v))
				if g.p(0.4) {
					g.vals = append(g.vals, g.encode(t.name, g.spoil(v, 3)))
				}
			}
		}
	}
	g.vals = append(g.vals, "null", "true", `"x"`, "3.5", `{"p1":1,"a":"b","c":null,"zz":[1,2]}`, `["a","a",1.0]`)
	sort.SliceStable(g.files, func(i, j int) bool { return g.files[i].P < g.files[j].P })
}

// many adds a lot of one thing.
func (g *Gen) many(l *gLib, sub []string) {
	n := 33 + g.r.Intn(70)
	pre := g.id("Mn")
	add := func(i int, node *yn) string {
		name := pre + "x" + strconv.Itoa(i)
		l.twins = append(l.twins, gTwin{name, node})
		return name
	}
	val := func(name string, v any) { g.vals = append(g.vals, g.encode(name, v)) }
	switch g.r.Intn(7) {
	case 0: // annotations
		ann := pre + "a"
		l.anns = append(l.anns, &gT{name: ann, lib: l, node: ym().set("type", ys("string")), kind: "string", minL: -1, maxL: -1, addl: true})
		for i := 0; i < n; i++ {
			add(i, ym().set("type", ys("string")).set("("+ann+")", ys("v"+strconv.Itoa(i))))
		}
	case 1: // generations
		last := "string"
		for i := 0; i < n; i++ {
			node := ym().set("type", ys(last))
			if i%5 == 0 {
				node.set("maxLength", yi(500-i))
			}
			if i == 7 {
				node.set("example", ys("abc"))
			}
			last = add(i, node)
		}
		val(last, "abc")
		val(last, strings.Repeat("a", 501))
	case 2: // properties
		ps, v := ym(), map[string]any{}
		for i := 0; i < n; i++ {
			ps.set(fmt.Sprintf("k%d", i), ys(pick(g.r, "string", "any")))
			v[fmt.Sprintf("k%d", i)] = "x"
		}
		val(add(0, ym().set("properties", ps)), v)
		w := map[string]any{}
		for k := range v {
			w[k] = 5
		}
		delete(w, "k3")
		val(pre+"x0", w)
		val(add(1, ym().set("type", ys(pre+"x0")).set("properties", ym().set("k0", ys("string")))), v)
	case 3: // members
		var ms []string
		for i := 0; i < n/3; i++ {
			ms = append(ms, add(i, ym().set("type", ys("string")).set("maxLength", yi(i))))
		}
		name := add(n, ys(strings.Join(ms, " | ")))
		val(name, "abcd")
		val(name, strings.Repeat("z", n))
	case 4: // enum
		e := yl()
		for i := 0; i < n; i++ {
			e.add(ys("e" + strconv.Itoa(i)))
		}
		name := add(0, ym().set("type", ys("string")).set("enum", e))
		val(name, "e"+strconv.Itoa(n-1))
		val(name, "none")
		val(add(1, ym().set("type", ys(name)).set("default", ys("e1"))), "e0")
	case 5: // libraries
		by := l
		for i := 0; i < n/2; i++ {
			x := &gLib{p: path.Join(g.dir, pick(g.r, sub...), fmt.Sprintf("%s_%d.raml", pre, i)), uses: map[string]*gLib{}}
			x.twins = append(x.twins, gTwin{"Only", ys("string")})
			by.uses[pre] = x
			by.order = append(by.order, pre)
			g.libs = append(g.libs, x)
			if g.p(0.7) {
				by.twins = append(by.twins, gTwin{fmt.Sprintf("%sx%d", pre, i), ys(pre + ".Only")})
				by = x
			}
			pre = g.id("mn")
		}
	case 6: // examples
		ex := ym()
		for i := 0; i < n; i++ {
			ex.set("ex"+strconv.Itoa(i), ys("v"+strconv.Itoa(i)))
		}
		add(0, ym().set("type", ys("string")).set("examples", ex))
	}
}

// facade adds a library that only uses another one, and a use of it.
func (g *Gen) facade(sub []string) {
	mk := func() *gLib {
		l := &gLib{p: g.fname("v", ".raml", sub...), uses: map[string]*gLib{}}
		g.libs = append(g.libs, l)
		return l
	}
	use := func(l, of *gLib, a string) {
		l.uses[a] = of
		l.order = append(l.order, a)
	}
	by := g.libs[g.r.Intn(len(g.libs))]
	l := mk()
	use(by, l, g.id("w"))
	for g.p(0.3) {
		n := mk()
		use(l, n, g.id("w"))
		l = n
	}
	end := mk()
	g.lib(end)
	use(l, end, g.id("w"))
}

// encode writes a value as JSON, with the type it is made for and the kind of numbers it has.
func (g *Gen) encode(t string, v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "null"
	}
	kind := 0
	if g.p(0.3) {
		kind = 1 + g.r.Intn(nKinds-1)
	}
	return fmt.Sprintf("~%d@%s|%s", kind, t, b)
}

func (g *Gen) usesNode(l *gLib) *yn {
	if len(l.order) == 0 {
		return nil
	}
	u := ym()
	for _, a := range l.order {
		u.set(a, ys(g.relv(l.p, l.uses[a].p)))
	}
	return u
}

func (g *Gen) libText(l *gLib) string {
	d := ym()
	if g.p(0.3) {
		d.set("usage", ys("lib "+path.Base(l.p)))
	}
	un := g.usesNode(l)
	ord := g.r.Intn(3)
	if un != nil && ord != 2 {
		d.set("uses", un)
	}
	types := ym()
	order := g.r.Perm(len(l.types))
	if g.p(0.5) {
		for i := range order {
			order[i] = i
		}
	}
	for _, i := range order {
		types.set(l.types[i].name, l.types[i].node)
	}
	for _, t := range l.twins {
		types.set(t.name, t.node)
	}
	ann := ym()
	for _, a := range l.anns {
		ann.set(a.name, a.node)
	}
	if ord == 1 && len(ann.keys) > 0 {
		d.set("annotationTypes", ann)
	}
	if len(types.keys) > 0 {
		d.set("types", types)
	}
	if ord != 1 && len(ann.keys) > 0 {
		d.set("annotationTypes", ann)
	}
	if un != nil && ord == 2 {
		d.set("uses", un)
	}
	if l.node != nil {
		for i, k := range l.node.keys {
			d.set(k, l.node.kids[i])
		}
	}
	return d.doc("#%RAML 1.0 Library")
}

func (g *Gen) dtText(l *gLib) string {
	d := ym()
	if un := g.usesNode(l); un != nil {
		d.set("uses", un)
	}
	if l.shape != nil && l.shape.node.k == 'm' {
		for i, k := range l.shape.node.keys {
			d.set(k, l.shape.node.kids[i])
		}
	}
	return d.doc("#%RAML 1.0 DataType")
}

func (g *Gen) lib(l *gLib) {
	for i := g.r.Intn(3); i > 0; i-- {
		t := g.scalarT(l, g.name(l, "Ann"), pick(g.r, "string", "integer", "boolean", "any", "nil", "datetime-only"))
		if g.p(0.2) {
			t = g.objectT(l, g.name(l, "Ann"), 0, true)
		}
		l.anns = append(l.anns, t)
	}
	n := 1 + g.r.Intn(g.o.Types)
	for i := 0; i < n; i++ {
		l.types = append(l.types, g.newType(l, g.name(l, "T")))
	}
	if g.o.Recurse && g.p(0.6) {
		g.recursion(l)
	}
	for g.p(0.2) {
		g.agreement(l)
	}
	for g.p(0.15) {
		g.lone(l, implied[g.r.Intn(len(implied))])
	}
	if g.p(0.2) && len(l.anns) > 0 {
		l.node = ym()
		a := l.anns[g.r.Intn(len(l.anns))]
		l.node.set("("+a.name+")", g.valNode(l, &gR{t: a}))
	}
}

func pick[T any](r *simrt.Rng, xs ...T) T { return xs[r.Intn(len(xs))] }

var scalarKinds = []string{"string", "integer", "number", "boolean", "datetime", "datetime-only", "date-only", "time-only", "file", "any", "nil"}

func (g *Gen) newType(l *gLib, name string) *gT {
	// inheritance from or use of what exists
	ts := g.visible(l)
	x := g.r.Intn(20)
	switch {
	case x < 4:
		return g.finish(g.scalarT(l, name, scalarKinds[g.r.Intn(len(scalarKinds))]))
	case x < 9:
		return g.finish(g.objectT(l, name, 2, true))
	case x < 11:
		return g.finish(g.arrayT(l, name))
	case x < 12:
		return g.finish(g.unionT(l, name))
	case x < 18 && len(ts) > 0:
		return g.finish(g.childT(l, name, ts[g.r.Intn(len(ts))]))
	case x < 19 && g.o.Frags:
		return g.finish(g.linkT(l, name))
	}
	if g.o.JSONType && g.p(0.3) {
		t := g.mk(l, name, "json")
		t.node = ys("'" + jsonSchemas[g.r.Intn(len(jsonSchemas))] + "'")
		return t
	}
	return g.finish(g.objectT(l, name, 1, true))
}

var jsonSchemas = []string{
	`{"type":"object","properties":{"a":{"type":"string"},"b":{"type":"integer","minimum":1}},"required":["a"]}`,
	`{"$schema":"http://json-schema.org/draft-07/schema","type":"array","items":{"type":"string"},"title":"J","examples":[["x"],["y","z"]]}`,
	`{"anyOf":[{"type":"string","enum":["a","b"]},{"type":"number"}],"definitions":{"d":{"type":"null"},"e":{"type":"string"}}}`,
	`{"type":"string","enum":["q","w","e"],"default":"q","description":"desc"}`,
	`{"type":"object","patternProperties":{"^x":{"type":"integer"},"^y":{"type":"boolean"}},"propertyNames":{"pattern":"^[a-z]"},"additionalProperties":false}`,
	`{"allOf":[{"type":"object","properties":{"a":{"$ref":"#/definitions/d"},"b":{"type":"string"}}},{"required":["a"]}],"oneOf":[{"minProperties":1},{"maxProperties":0}],"not":{"type":"string"},"definitions":{"d":{"type":"string","maxLength":5}}}`,
	`{"if":{"type":"string"},"then":{"minLength":1,"pattern":"^a"},"else":{"const":3},"$comment":"c","$id":"http://example.com/y"}`,
	`{"type":"number","multipleOf":2,"minimum":0,"maximum":10,"examples":[2,4]}`,
	`{"type":"array","minItems":1,"maxItems":3,"uniqueItems":true,"items":{"type":"integer","format":"int32"}}`,
}

type vis struct {
	ref string
	t   *gT
}

func (g *Gen) visible(l *gLib) []vis {
	var out []vis
	if !l.dt {
		for _, t := range l.types {
			out = append(out, vis{t.name, t})
		}
	}
	for _, a := range l.order {
		for _, t := range l.uses[a].types {
			out = append(out, vis{a + "." + t.name, t})
		}
	}
	return out
}

func (g *Gen) visibleAnns(l *gLib) []vis {
	var out []vis
	if !l.dt {
		for _, t := range l.anns {
			out = append(out, vis{t.name, t})
		}
	}
	for _, a := range l.order {
		for _, t := range l.uses[a].anns {
			out = append(out, vis{a + "." + t.name, t})
		}
	}
	return out
}

func (g *Gen) mk(l *gLib, name, kind string) *gT {
	return &gT{name: name, lib: l, kind: kind, node: ym(), minL: -1, maxL: -1, addl: true}
}

func (g *Gen) scalarT(l *gLib, name, kind string) *gT {
	t := g.mk(l, name, kind)
	switch kind {
	case "boolean", "nil", "any", "file", "integer", "number":
		t.node.set("type", ys(kind))
	case "string":
		if g.p(0.6) {
			t.node.set("type", ys(kind))
		}
	default:
		t.node.set("type", ys(kind))
	}
	switch kind {
	case "string":
		switch g.r.Intn(5) {
		case 0:
			e := yl()
			for i := 0; i < 2+g.r.Intn(4); i++ {
				v := fmt.Sprintf("e%d", i)
				t.enum = append(t.enum, v)
				e.add(ys(v))
			}
			t.node.set("enum", e)
		case 1:
			t.pattern = "^[a-z0-9]+$"
			t.node.set("pattern", yq(t.pattern))
		case 2, 3:
			t.minL, t.maxL = g.r.Intn(4), 6+g.r.Intn(10)
			t.node.set("minLength", yi(t.minL))
			t.node.set("maxLength", yi(t.maxL))
		}
	case "integer", "number":
		switch g.r.Intn(4) {
		case 0:
			e := yl()
			for i := 0; i < 2+g.r.Intn(4); i++ {
				t.enum = append(t.enum, 2+i*3)
				e.add(yi(2 + i*3))
			}
			t.node.set("enum", e)
		case 1, 2:
			t.min, t.max, t.hasMin, t.hasMax = g.r.Intn(5), 10+g.r.Intn(20), true, true
			t.node.set("minimum", yi(t.min))
			t.node.set("maximum", yi(t.max))
			if g.p(0.3) {
				t.node.set("format", ys(pick(g.r, "int32", "int64", "int8", "int")))
				if kind == "number" {
					t.node.set("format", ys(pick(g.r, "float", "double")))
				}
			}
		}
	case "datetime":
		if g.p(0.5) {
			t.format = pick(g.r, "rfc3339", "rfc2616")
			t.node.set("format", ys(t.format))
		}
	case "file":
		if g.p(0.5) {
			e := yl()
			e.add(ys("image/png"))
			if g.p(0.5) {
				e.add(ys("image/jpeg"))
			}
			t.node.set("fileTypes", e)
		}
		if g.p(0.4) {
			t.minL, t.maxL = 1, 50
			t.node.set("minLength", yi(1))
			t.node.set("maxLength", yi(50))
		}
	}
	return t
}

// use picks a type and returns how to write it.
func (g *Gen) use(l *gLib, depth int) (*gR, *yn) {
	ts := g.visible(l)
	x := g.r.Intn(20)
	if x < 9 && len(ts) > 0 {
		v := ts[g.r.Intn(len(ts))]
		r := &gR{t: v.t}
		e := v.ref
		switch g.r.Intn(10) {
		case 0, 1:
			e, r.arr = e+"[]", 1
		case 2:
			e, r.opt = e+"?", true
		case 3:
			v2 := ts[g.r.Intn(len(ts))]
			e = e + " | " + v2.ref
			r = &gR{uni: []*gR{{t: v.t}, {t: v2.t}}}
			if g.p(0.3) {
				e = "(" + e + ")[]"
				r.arr = 1
			}
		case 4:
			e, r.opt = e+" | nil", true
		}
		if g.p(0.3) {
			return r, ym().set("type", ys(e))
		}
		return r, ys(e)
	}
	if x < 14 || depth <= 0 {
		t := g.scalarT(l, "", scalarKinds[g.r.Intn(len(scalarKinds))])
		r := &gR{t: t}
		if len(t.node.keys) == 1 && t.node.has("type") && g.p(0.7) {
			e := t.kind
			switch g.r.Intn(6) {
			case 0:
				e, r.arr = e+"[]", 1
			case 1:
				e, r.opt = e+"?", true
			}
			return r, ys(e)
		}
		if len(t.node.keys) == 0 {
			if g.p(0.3) {
				return r, ys("")
			}
			return r, ys("string")
		}
		return r, t.node
	}
	if x < 17 {
		t := g.objectT(l, "", depth-1, false)
		return &gR{t: t}, t.node
	}
	if x < 19 {
		t := g.arrayT(l, "")
		return &gR{t: t}, t.node
	}
	if g.o.Frags && len(g.dts) > 0 && g.p(0.5) {
		d := g.dts[g.r.Intn(len(g.dts))]
		if d != l && d.shape != nil {
			return &gR{t: d.shape}, ym().set("type", inc(g.relv(l.p, d.p)))
		}
	}
	t := g.childOrScalar(l)
	return &gR{t: t}, t.node
}

func (g *Gen) childOrScalar(l *gLib) *gT {
	ts := g.visible(l)
	if len(ts) == 0 {
		return g.scalarT(l, "", "integer")
	}
	return g.childT(l, "", ts[g.r.Intn(len(ts))])
}

func (g *Gen) objectT(l *gLib, name string, depth int, top bool) *gT {
	t := g.mk(l, name, "object")
	if g.p(0.6) {
		t.node.set("type", ys("object"))
	}
	n := 1 + g.r.Intn(4)
	if g.o.Hot && top {
		n = 3 + g.r.Intn(5)
	}
	props := ym()
	for i := 0; i < n; i++ {
		g.addProp(l, t, props, depth)
	}
	t.node.set("properties", props)
	if g.p(0.15) {
		t.addl = false
		t.node.set("additionalProperties", ys("false"))
	} else {
		for i := g.r.Intn(3); i > 0 && g.p(0.5); i-- {
			r, n := g.use(l, 0)
			if n.k == 'm' {
				n.del("required")
			}
			if g.p(0.25) {
				t.pats = append(t.pats, gPat{})
				props.set(fmt.Sprintf("/^%s.*$/", pick(g.r, "x-", "y", "z")), n)
				continue
			}
			// a prefix no other key has
			k := g.id("k") + "-"
			t.pats = append(t.pats, gPat{k, r})
			props.set("/^"+k+pick(g.r, ".*$", "[a-z0-9]+$", "", "(a|b).?")+"/", n)
		}
	}
	if g.p(0.15) {
		t.node.set("minProperties", yi(0))
		t.node.set("maxProperties", yi(len(t.props)+5))
	}
	if top && g.p(0.1) {
		k := pick(g.r, "string", "string", "integer", "number", "boolean")
		props.set("kind", ys(k))
		t.props = append(t.props, gP{"kind", true, &gR{t: g.scalarTPlain(k)}})
		t.node.set("discriminator", ys("kind"))
		t.disc = "kind"
		if k == "boolean" {
			t.node.set("discriminatorValue", ys(pick(g.r, "true", "false")))
		} else if k != "string" {
			t.node.set("discriminatorValue", yi(g.r.Intn(9)))
		} else if g.p(0.5) && name != "" {
			t.node.set("discriminatorValue", ys(name))
		}
	}
	return t
}

func (g *Gen) scalarTPlain(kind string) *gT { return &gT{kind: kind, minL: -1, maxL: -1, addl: true} }

func (g *Gen) addProp(l *gLib, t *gT, props *yn, depth int) {
	name := fmt.Sprintf("p%d", len(t.props)+1)
	if g.p(0.1) {
		name = g.id("q")
	}
	for _, p := range t.props {
		if p.name == name {
			name = g.id("q")
		}
	}
	r, node := g.use(l, depth)
	req := true
	key := name
	switch g.r.Intn(6) {
	case 0:
		key, req = name+"?", false
	case 1:
		if node.k == 's' && node.s != "" {
			node = ym().set("type", node)
		}
		if node.k == 'm' {
			req = g.p(0.4)
			node.set("required", ys(strconv.FormatBool(req)))
		}
	}
	props.set(key, node)
	t.props = append(t.props, gP{name, req, r})
	if node.k == 'm' && g.p(0.12) {
		g.meta(l, node, r)
	}
}

func (g *Gen) arrayT(l *gLib, name string) *gT {
	t := g.mk(l, name, "array")
	r, node := g.use(l, 1)
	t.items = r
	if g.p(0.7) {
		t.node.set("type", ys("array"))
	}
	t.node.set("items", node)
	if g.p(0.4) {
		t.minL, t.maxL = g.r.Intn(2), 4+g.r.Intn(4)
		t.node.set("minItems", yi(t.minL))
		t.node.set("maxItems", yi(t.maxL))
	}
	if g.p(0.15) {
		t.uniq = true
		t.maxL = 1
		t.minL = 0
		t.node.set("minItems", yi(0))
		t.node.set("maxItems", yi(1))
		t.node.set("uniqueItems", ys("true"))
	}
	return t
}

func (g *Gen) unionT(l *gLib, name string) *gT {
	t := g.mk(l, name, "union")
	var es []string
	ts := g.visible(l)
	for i := 0; i < 2+g.r.Intn(2); i++ {
		if len(ts) > 0 && g.p(0.6) {
			v := ts[g.r.Intn(len(ts))]
			es = append(es, v.ref)
			t.members = append(t.members, &gR{t: v.t})
		} else {
			k := pick(g.r, "string", "integer", "boolean", "nil", "number")
			es = append(es, k)
			t.members = append(t.members, &gR{t: g.scalarTPlain(k)})
		}
	}
	t.node.set("type", ys(strings.Join(es, " | ")))
	return t
}

func (t *gT) copyFacets(p *gT) {
	t.kind, t.minL, t.maxL, t.min, t.max, t.hasMin, t.hasMax = p.kind, p.minL, p.maxL, p.min, p.max, p.hasMin, p.hasMax
	t.enum, t.items, t.members, t.addl, t.pattern, t.format, t.uniq, t.disc = p.enum, p.items, p.members, p.addl, p.pattern, p.format, p.uniq, p.disc
	t.props = append([]gP(nil), p.props...)
	t.pats, t.recursive = append([]gPat(nil), p.pats...), p.recursive
}

func (g *Gen) childT(l *gLib, name string, v vis) *gT {
	t := g.mk(l, name, v.t.kind)
	t.copyFacets(v.t)
	if v.t.kind == "json" {
		t.node = ys(v.ref)
		return t
	}
	x := g.r.Intn(10)
	switch {
	case x == 0: // alias
		t.node = ys(v.ref)
		return t
	case x == 1: // plain child
		t.node.set("type", ys(v.ref))
	case x == 2 && t.kind == "object":
		// several parents
		ts := g.visible(l)
		var o []vis
		for _, w := range ts {
			if w.t.kind == "object" && w.t != v.t && !w.t.recursive && w.t.disc == "" {
				o = append(o, w)
			}
		}
		if len(o) == 0 || v.t.recursive {
			t.node.set("type", ys(v.ref))
			break
		}
		w := o[g.r.Intn(len(o))]
		t.node.set("type", ys("["+v.ref+", "+w.ref+"]"))
		have := map[string]bool{}
		for _, p := range t.props {
			have[p.name] = true
		}
		for _, p := range w.t.props {
			if !have[p.name] {
				t.props = append(t.props, p)
			}
		}
		t.pats = append(t.pats, w.t.pats...)
		if w.t.disc != "" {
			t.disc = w.t.disc
		}
		return t
	default:
		t.node.set("type", ys(v.ref))
	}
	switch t.kind {
	case "object":
		if g.p(0.6) {
			props := ym()
			for i := 1 + g.r.Intn(2); i > 0; i-- {
				name := g.id("q")
				r, n := g.use(l, 0)
				req := !g.p(0.4)
				k := name
				if !req {
					k += "?"
				}
				props.set(k, n)
				t.props = append(t.props, gP{name, req, r})
			}
			// narrow an inherited property
			if len(v.t.props) > 0 && g.p(0.35) {
				p := v.t.props[g.r.Intn(len(v.t.props))]
				if p.r != nil && p.r.t != nil && p.r.arr == 0 && !p.r.opt && (p.r.t.kind == "string" || p.r.t.kind == "integer" || p.r.t.kind == "number") {
					n := ym().set("type", ys(p.r.t.kind))
					nt := g.narrow(p.r.t, n)
					if p.name != "kind" {
						props.set(p.name, n)
						for i := range t.props {
							if t.props[i].name == p.name {
								t.props[i] = gP{p.name, true, &gR{t: nt}}
							}
						}
					}
				}
			}
			t.node.set("properties", props)
		}
	case "string", "integer", "number", "array":
		if g.p(0.6) {
			nt := g.narrow(v.t, t.node)
			nt.name, nt.lib, nt.node = t.name, t.lib, t.node
			t = nt
		}
	}
	g.useFacets(l, t, v.t)
	return t
}

// narrow writes narrower facets into n.
func (g *Gen) narrow(p *gT, n *yn) *gT {
	t := &gT{minL: -1, maxL: -1}
	t.copyFacets(p)
	switch p.kind {
	case "string":
		if p.enum != nil && len(p.enum) > 1 {
			t.enum = p.enum[:1+g.r.Intn(len(p.enum))]
			e := yl()
			for _, x := range t.enum {
				e.add(ys(fmt.Sprint(x)))
			}
			n.set("enum", e)
		} else if p.minL >= 0 && p.pattern == "" {
			if p.maxL-p.minL > 2 {
				t.minL, t.maxL = p.minL+g.r.Intn(2), p.maxL-g.r.Intn(2)
			}
			n.set("minLength", yi(t.minL))
			n.set("maxLength", yi(t.maxL))
		} else if p.pattern == "" && p.enum == nil {
			t.minL, t.maxL = 1, 12
			n.set("minLength", yi(1))
			n.set("maxLength", yi(12))
		}
	case "integer", "number":
		if p.enum != nil && len(p.enum) > 1 {
			t.enum = p.enum[:1+g.r.Intn(len(p.enum))]
			e := yl()
			for _, x := range t.enum {
				e.add(ys(fmt.Sprint(x)))
			}
			n.set("enum", e)
		} else if p.hasMin {
			t.min, t.max = p.min+g.r.Intn(3), p.max-g.r.Intn(3)
			n.set("minimum", yi(t.min))
			n.set("maximum", yi(t.max))
		} else if p.enum == nil {
			t.min, t.max, t.hasMin, t.hasMax = 1, 9, true, true
			n.set("minimum", yi(1))
			n.set("maximum", yi(9))
		}
	case "array":
		if !p.uniq && p.minL < 0 {
			t.minL, t.maxL = 0, 5
			n.set("minItems", yi(0))
			n.set("maxItems", yi(5))
		}
	}
	return t
}

// finish adds examples, annotations, custom facets and texts.
func (g *Gen) finish(t *gT) *gT {
	if t.node.k != 'm' {
		return t
	}
	if g.p(0.15) && (t.kind == "object" || t.kind == "string" || t.kind == "integer") && len(t.facets) == 0 {
		f := ym()
		for i := 1 + g.r.Intn(2); i > 0; i-- {
			nm := g.id("f")
			k := pick(g.r, "string", "integer", "boolean")
			req := g.p(0.4)
			key := nm
			if !req {
				key += "?"
			}
			f.set(key, ys(k))
			t.facets = append(t.facets, gP{nm, req, &gR{t: g.scalarTPlain(k)}})
		}
		t.node.set("facets", f)
	}
	g.meta(t.lib, t.node, &gR{t: t})
	return t
}

func (g *Gen) useFacets(l *gLib, t *gT, parent *gT) {
	for _, f := range parent.facets {
		if f.req || g.p(0.5) {
			t.node.set(f.name, g.valNode(l, f.r))
		}
	}
}

func (g *Gen) meta(l *gLib, n *yn, r *gR) {
	if g.p(0.2) {
		n.set("description", ys("about "+g.id("d")))
	}
	if g.p(0.1) {
		n.set("displayName", ys("shown "+g.id("d")))
	}
	if as := g.visibleAnns(l); len(as) > 0 && g.p(0.25) {
		v := as[g.r.Intn(len(as))]
		n.set("("+v.ref+")", g.valNode(l, &gR{t: v.t}))
	}
	if r.t != nil && r.t.recursive {
		return
	}
	switch g.r.Intn(9) {
	case 0, 1:
		n.set("example", g.exNode(l, r))
	case 2:
		ex := ym()
		for i := 1 + g.r.Intn(3); i > 0; i-- {
			ex.set(g.id("ex"), g.exNode(l, r))
		}
		n.set("examples", ex)
	case 3:
		if g.o.Frags && !g.o.Flat {
			p := g.fname("ne", ".raml", "", "ex")
			d := ym()
			for i := 1 + g.r.Intn(2); i > 0; i-- {
				d.set(g.id("ex"), ym().set("value", g.valNode(&gLib{p: p, dt: true}, r)))
			}
			g.put(p, d.doc("#%RAML 1.0 NamedExample"))
			n.set("examples", inc(g.relv(l.p, p)))
			if r.t != nil && r.arr == 0 && !r.opt && r.t.name != "" && r.t.lib == l && n == r.t.node && !l.dt {
				// another type refers to the same examples
				for i := 1 + g.r.Intn(2); i > 0 && g.p(0.6); i-- {
					t := ym().set("type", ys(r.t.name)).set("examples", inc(g.relv(l.p, p)))
					if as := g.visibleAnns(l); len(as) > 0 && g.p(0.4) {
						v := as[g.r.Intn(len(as))]
						t.set("("+v.ref+")", g.valNode(l, &gR{t: v.t}))
					}
					l.twins = append(l.twins, gTwin{g.id("Tw"), t})
				}
			}
		}
	case 4:
		n.set("default", g.valNode(l, r))
	}
}

func (g *Gen) exNode(l *gLib, r *gR) *yn {
	if g.p(0.3) {
		n := ym().set("value", g.valNode(l, r))
		if g.p(0.3) {
			n.set("strict", ys("true"))
		}
		if g.p(0.3) {
			n.set("displayName", ys("example"))
		}
		if g.p(0.2) {
			n.set("description", ys("example "+g.id("d")))
		}
		if as := g.visibleAnns(l); len(as) > 0 && g.p(0.3) {
			v := as[g.r.Intn(len(as))]
			n.set("("+v.ref+")", g.valNode(l, &gR{t: v.t}))
		}
		return n
	}
	return g.valNode(l, r)
}

// valNode writes a value, in one of the ways values can be written.
func (g *Gen) valNode(l *gLib, r *gR) *yn {
	v := g.val(r, 4)
	_, isObj := v.(map[string]any)
	_, isArr := v.([]any)
	if !g.o.Flat && g.p(0.15) {
		b, _ := json.MarshalIndent(v, "", "  ")
		ext := pick(g.r, ".json", ".yaml", ".txt")
		if _, ok := v.(string); !ok && ext == ".txt" {
			ext = ".json"
		}
		p := g.fname("v", ext, "", "ex", "lib")
		s := string(b) + "\n"
		if ext == ".txt" {
			s = v.(string)
		}
		if ext == ".yaml" && isObj && g.p(0.5) {
			var sb strings.Builder
			goYaml(v).write(&sb, 0)
			s = sb.String()
		}
		g.put(p, s)
		return inc(g.relv(l.p, p))
	}
	if isObj && g.p(0.2) {
		b, _ := json.Marshal(v)
		return ys("'" + strings.ReplaceAll(string(b), "'", "''") + "'")
	}
	if (isObj || isArr) && g.p(0.5) {
		if !g.o.Flat && g.p(0.2) {
			return g.parts(l, v)
		}
		return goYaml(v)
	}
	return yj(v)
}

// parts writes a value of which some parts are in files of their own.
func (g *Gen) parts(l *gLib, v any) *yn {
	if g.p(0.2) {
		s, ok := v.(string)
		if !ok || g.p(0.3) {
			b, _ := json.Marshal(v)
			p := g.fname("w", pick(g.r, ".yaml", ".yml"), "", "ex", "lib")
			g.put(p, string(b)+"\n")
			return inc(g.relv(l.p, p))
		}
		p := g.fname("w", pick(g.r, ".txt", "", ".md"), "", "ex", "lib")
		g.put(p, s)
		return inc(g.relv(l.p, p))
	}
	switch v := v.(type) {
	case map[string]any:
		m := ym()
		ks := make([]string, 0, len(v))
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			m.set(k, g.parts(l, v[k]))
		}
		return m
	case []any:
		y := yl()
		for _, x := range v {
			n := g.parts(l, x)
			if n.k != 's' {
				n = yj(x)
			}
			y.add(n)
		}
		return y
	}
	return yj(v)
}

func goYaml(v any) *yn {
	switch v := v.(type) {
	case map[string]any:
		m := ym()
		ks := make([]string, 0, len(v))
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			m.set(k, goYaml(v[k]))
		}
		return m
	case []any:
		l := yl()
		for _, x := range v {
			n := goYaml(x)
			if n.k != 's' {
				n = yj(x)
			}
			l.add(n)
		}
		return l
	}
	return yj(v)
}

func (g *Gen) linkT(l *gLib, name string) *gT {
	var d *gLib
	if len(g.dts) > 0 && g.p(0.5) {
		d = g.dts[g.r.Intn(len(g.dts))]
		if d == l || d.shape == nil {
			return g.objectT(l, name, 1, true)
		}
	} else if len(g.dts) > 4 {
		return g.objectT(l, name, 1, true)
	} else if g.o.JSONType && g.p(0.2) {
		var p string
		if len(g.jsons) > 0 && g.p(0.5) {
			p = pick(g.r, g.jsons...)
		} else {
			p = g.fname("j", ".json", "", "dt")
			g.put(p, jsonSchemas[g.r.Intn(len(jsonSchemas))]+"\n")
			g.jsons = append(g.jsons, p)
		}
		t := g.mk(l, name, "json")
		t.node.set("type", inc(g.relv(l.p, p)))
		return t
	} else {
		d = &gLib{p: g.fname("d", ".raml", "", "dt", "lib"), dt: true, uses: map[string]*gLib{}}
		for j, x := range g.libs {
			if x != l && len(x.types) > 0 && g.p(0.4) {
				a := g.alias(d, j)
				d.uses[a] = x
				d.order = append(d.order, a)
			}
		}
		g.dts = append(g.dts, d)
		sh := g.newDT(d)
		d.shape = sh
	}
	t := g.mk(l, name, d.shape.kind)
	t.copyFacets(d.shape)
	t.node.set("type", inc(g.relv(l.p, d.p)))
	if t.kind == "object" && g.p(0.4) {
		nm := g.id("q")
		t.node.set("properties", ym().set(nm+"?", ys("string")))
		t.props = append(t.props, gP{nm, false, &gR{t: g.scalarTPlain("string")}})
	}
	g.useFacets(l, t, d.shape)
	return t
}

func (g *Gen) newDT(d *gLib) *gT {
	ts := g.visible(d)
	switch g.r.Intn(4) {
	case 0:
		return g.finish(g.scalarT(d, "", pick(g.r, "string", "integer", "number", "boolean")))
	case 1:
		if len(ts) > 0 {
			t := g.childT(d, "", ts[g.r.Intn(len(ts))])
			if t.node.k == 'm' {
				return g.finish(t)
			}
		}
	}
	return g.finish(g.objectT(d, "", 1, true))
}

// recursion ties some types of a library into cycles.
func (g *Gen) recursion(l *gLib) {
	var objs []*gT
	for _, t := range l.types {
		if t.kind == "object" && t.node.k == 'm' && t.node.has("properties") {
			objs = append(objs, t)
		}
	}
	if len(objs) == 0 {
		return
	}
	for i := 1 + g.r.Intn(2); i > 0; i-- {
		a, b := objs[g.r.Intn(len(objs))], objs[g.r.Intn(len(objs))]
		nm := g.id("r")
		e := b.name
		switch g.r.Intn(4) {
		case 0:
			e += "[]"
		case 1:
			e += "?"
		case 2:
			e += " | nil"
		}
		a.node.get("properties").set(nm+"?", ys(e))
		a.recursive, b.recursive = true, true
	}
}

// val makes a value of a type (usually a valid one).
func (g *Gen) val(r *gR, depth int) any {
	if r == nil {
		return "x"
	}
	if r.arr > 0 {
		n := g.r.Intn(3)
		if depth <= 0 {
			n = 0
		}
		out := []any{}
		for i := 0; i < n; i++ {
			out = append(out, g.val(&gR{t: r.t, uni: r.uni}, depth-1))
		}
		return out
	}
	if r.opt && g.p(0.4) {
		return nil
	}
	if len(r.uni) > 0 {
		return g.val(r.uni[g.r.Intn(len(r.uni))], depth-1)
	}
	t := r.t
	if t == nil {
		return "x"
	}
	switch t.kind {
	case "string":
		if len(t.enum) > 0 {
			return t.enum[g.r.Intn(len(t.enum))]
		}
		if t.pattern != "" {
			return "abc1"
		}
		n := 5
		if t.minL >= 0 {
			n = t.minL + (t.maxL-t.minL)/2
		}
		if n < 0 {
			n = 0
		}
		return strings.Repeat("s", n)
	case "integer", "number":
		if len(t.enum) > 0 {
			return t.enum[g.r.Intn(len(t.enum))]
		}
		if t.hasMin {
			return t.min + (t.max-t.min)/2
		}
		return g.r.Intn(100)
	case "boolean":
		return g.p(0.5)
	case "datetime":
		if t.format == "rfc2616" {
			return "Sun, 28 Feb 2016 16:41:41 GMT"
		}
		return "2016-02-28T16:41:41.090Z"
	case "datetime-only":
		return "2015-07-04T21:00:00"
	case "date-only":
		return "2015-05-23"
	case "time-only":
		return "12:30:00"
	case "file":
		return "c29tZSBmaWxlIGNvbnRlbnQ="
	case "nil":
		return nil
	case "any", "json":
		return pick[any](g.r, "any", 1, true, map[string]any{"a": 1})
	case "array":
		n := 1
		if t.minL >= 0 {
			n = t.minL
			if t.maxL > t.minL && !t.uniq && depth > 1 {
				n++
			}
		}
		if depth <= 0 && t.minL <= 0 {
			n = 0
		}
		out := []any{}
		for i := 0; i < n; i++ {
			out = append(out, g.val(t.items, depth-1))
		}
		return out
	case "union":
		if len(t.members) == 0 {
			return nil
		}
		return g.val(t.members[g.r.Intn(len(t.members))], depth-1)
	case "object":
		out := map[string]any{}
		for _, p := range t.props {
			if p.req || (depth > 1 && g.p(0.6)) {
				if depth < -6 {
					break
				}
				out[p.name] = g.val(p.r, depth-1)
			}
		}
		for _, p := range t.pats {
			if p.r != nil && depth > 1 && g.p(0.4) {
				out[p.prefix+pick(g.r, "a", "b2")] = g.val(p.r, depth-1)
			}
		}
		if t.addl && len(t.pats) == 0 && g.p(0.2) {
			out["extra"] = "more"
		}
		return out
	}
	return "v"
}

// spoil makes a value that differs from v somewhere and so may violate a facet.
func (g *Gen) spoil(v any, depth int) any {
	switch x := v.(type) {
	case map[string]any:
		out := map[string]any{}
		var ks []string
		for k, e := range x {
			out[k] = e
			ks = append(ks, k)
		}
		sort.Strings(ks)
		switch n := g.r.Intn(6); {
		case n == 0 || len(ks) == 0:
			out[pick(g.r, "extra", "k1-a", "x-", "", "p1", "kind")] = pick[any](g.r, "v", 1, nil, []any{})
		case n == 1:
			delete(out, ks[g.r.Intn(len(ks))])
		case n == 2:
			out[ks[g.r.Intn(len(ks))]] = nil
		default:
			for i := 1 + g.r.Intn(2); i > 0; i-- {
				k := ks[g.r.Intn(len(ks))]
				out[k] = g.spoil(out[k], depth-1)
			}
		}
		return out
	case []any:
		out := append([]any(nil), x...)
		switch n := g.r.Intn(4); {
		case n == 0 || len(out) == 0:
			out = append(out, pick[any](g.r, "v", 1, nil, map[string]any{}))
		case n == 1:
			out = append(out, out[0])
		case n == 2:
			out = out[1:]
		default:
			i := g.r.Intn(len(out))
			out[i] = g.spoil(out[i], depth-1)
		}
		return out
	case string:
		return pick[any](g.r, "", x+x+"~", strings.ToUpper(x), 7, "2016-13-01", x+" ", "é日本", nil)
	case int:
		return pick[any](g.r, x+1000, -x-1000, fmt.Sprint(x), float64(x)+0.5, true)
	case bool:
		return pick[any](g.r, "true", 1, nil)
	}
	return pick[any](g.r, "v", 1, []any{1}, map[string]any{"a": nil})
}

// defect breaks something.
func (g *Gen) defect() {
	var all []*gT
	for _, l := range g.libs {
		for _, t := range l.types {
			if t.node.k == 'm' {
				all = append(all, t)
			}
		}
	}
	for _, d := range g.dts {
		if d.shape != nil && d.shape.node.k == 'm' {
			all = append(all, d.shape)
		}
	}
	if len(all) == 0 {
		return
	}
	g.bad++
	t := all[g.r.Intn(len(all))]
	n := t.node
	if g.p(0.35) {
		g.conflict()
		return
	}
	if g.p(0.3) {
		l := g.libs[g.r.Intn(len(g.libs))]
		for i := 1 + g.r.Intn(2); i > 0; i-- {
			g.lone(l, faulty[g.r.Intn(len(faulty))])
		}
		return
	}
	switch g.r.Intn(19) {
	case 0:
		n.set("example", yj(map[string]any{"wrong": []any{1, "x"}, "p1": map[string]any{"zz": 1}}))
		n.del("examples")
	case 1:
		n.set("example", pick(g.r, ys("[1, 2]"), ys("12.75"), ys("true"), ys("wrong"), ys("null")))
		n.del("examples")
	case 2:
		for _, k := range []string{"nofacet", "unknown1", "zfacet"} {
			if g.p(0.7) {
				n.set(k, ys("1"))
			}
		}
	case 3:
		n.set("type", ys(pick(g.r, "Missing", "u1.Missing", "nolib.T", "string |", "T1[", "(T1")))
	case 4:
		if t.kind == "string" {
			n.set("minLength", ys("9"))
			n.set("maxLength", ys("2"))
		} else if t.kind == "integer" || t.kind == "number" {
			n.set("minimum", ys("50"))
			n.set("maximum", ys("2"))
		} else {
			n.set("(missingAnn)", ys("1"))
		}
	case 5:
		// widen inherited facets
		n.set("minLength", ys("0"))
		n.set("maxLength", ys("9999"))
	case 6:
		if p := n.get("properties"); p != nil && p.k == 'm' {
			for i := 0; i < 2+g.r.Intn(3); i++ {
				p.set(g.id("bad"), ym().set("type", ys("integer")).set("default", ys("notanumber")))
			}
		}
	case 7:
		n.set("example", inc("missing.json"))
		n.del("examples")
	case 8:
		n.set("default", pick(g.r, ys("[[]]"), ys("{a: 1}"), ys("zzz"), ys("-1")))
	case 9:
		n.set("examples", ym().set("a", ys("wrong")).set("b", ys("[1]")).set("c", ys("{x: y}")))
		n.del("example")
	case 10:
		n.set("discriminator", ys("nosuch"))
	case 11:
		if p := n.get("properties"); p != nil && p.k == 'm' && len(t.props) > 0 {
			p.set(t.props[0].name, ys(pick(g.r, "boolean", "integer[]", "nil", "datetime")))
		} else {
			n.set("minItems", ys("x"))
		}
	case 12:
		n.set("enum", pick(g.r, ys("[1, two, [3]]"), ys("notalist"), ys("[{a: 1}]")))
	case 13:
		f := ym()
		for i := 0; i < 3; i++ {
			f.set(g.id("rf"), ys("integer"))
		}
		n.set("facets", f)
	case 14:
		// a facet some parent requires goes missing, several wrong
		for _, f := range t.facets {
			n.set(f.name, ys("[bad]"))
		}
		n.set("pattern", yq("([a-z"))
	case 15:
		n.set("type", inc(pick(g.r, "nofile.raml", path.Base(g.libs[0].p), "api.raml")))
	case 16:
		if len(g.libs) > 0 {
			l := g.libs[g.r.Intn(len(g.libs))]
			l.uses["gone"] = &gLib{p: path.Join(g.dir, pick(g.r, "gone.raml", "ex/none.raml"))}
			l.order = append(l.order, "gone")
		}
	case 17:
		n.set("format", ys(pick(g.r, "int128", "nope")))
	case 18:
		if t.kind == "object" {
			n.set("additionalProperties", ys("false"))
			if p := n.get("properties"); p != nil && p.k == 'm' {
				p.set("/^pp/", ys("string"))
			}
		} else {
			n.set("type", ys("[string, integer]"))
		}
	}
}

// faulty are declarations that mean nothing.
var faulty = []string{
	"type: array, minItems: 5, maxItems: 2",
	"type: object, minProperties: 5, maxProperties: 2",
	"type: string, minLength: 5, maxLength: 2",
	"type: file, minLength: 5, maxLength: 2",
	"type: object, properties: { a: { type: object } }, discriminator: a",
	"type: object, properties: { a: [string] }, discriminator: b",
	"type: object, properties: { /^x/: { type: string, required: true } }",
	"type: object, properties: { a: { type: string, required: maybe } }",
	"type: object, properties: [a, b]",
	"type: object, additionalProperties: maybe",
	"type: integer, minimum: x", "type: integer, minimum: 1.5", "type: integer, maximum: [1]", "type: integer, minimum: 5, maximum: 2",
	"type: number, minimum: x", "type: number, maximum: {}", "type: number, multipleOf: zero", "type: integer, multipleOf: 0.5",
	"type: integer, format: 7", "type: number, format: int8", "type: integer, format: float", "type: datetime, format: iso",
	"type: string, pattern: [a]", "type: string, pattern: '('", "type: string, minLength: -1", "type: string, maxLength: 1.5",
	"type: array, minItems: -1", "type: array, uniqueItems: 3", "type: array, items: { type: nosuch }", "items: [string, nosuch]",
	"type: string, example: a, examples: { x: b }", "type: string, examples: [a, b]", "type: string, examples: a",
	"type: string, example: { value: a, strict: maybe }", "type: string, example: { value: a, description: [x] }",
	"type: string, example: { value: a, displayName: {} }", "type: string, examples: { x: { value: a, strict: maybe } }",
	"type: string, example: { value: [a], strict: false }", "type: string, example: { value: a, (none): 1 }",
	"type: string, facets: { minLength: integer }", "type: string, facets: { a: nosuch }", "type: string, facets: [a]", "type: object, facets: { a: integer }, a: 1",
	"type: string, allowedTargets: x", "type: string, displayName: [x]", "type: string, description: { a: b }",
	"type: string, default: [1]", "type: string, enum: { a: b }", "type: integer, enum: [1, a]", "type: boolean, enum: [yes, 3]",
	"type: []", "type: ['']", "type: {}", "type: [string, '']", "type: [string, [integer]]", "type: [string, !include none.raml]",
	"maxLength: 4, minimum: 3", "items: string, properties: { a: string }", "fileTypes: [a], pattern: b", "minItems: 3, maxLength: 2",
	"type: '{\"type\":\"object\"}', properties: { a: string }", "type: ['{\"type\":\"object\"}', '{\"type\":\"string\"}']", "type: '{\"type\":'", "type: '{\"type\":[]}'",
	"type: file, fileTypes: image/png", "type: nil, enum: [1]", "type: any, minimum: 1", "type: date-only, format: rfc3339",
	"type: string, (none): 1", "type: none.T", "type: a.b.c", "type: 'string |'", "type: '| string'", "type: '(string'", "type: 'string[]]'", "type: 'string??'",
	"type: object, discriminator: a, discriminatorValue: x", "type: string, discriminator: a", "type: 'string | integer', discriminator: a",
}

// implied are declarations that leave out the type.
var implied = []string{
	"fileTypes: ['image/png']", "fileTypes: [a], maxLength: 5", "maxLength: 5, fileTypes: [a]", "minLength: 1, pattern: '^a'",
	"minimum: 3", "multipleOf: 2, maximum: 9", "items: string, minItems: 0", "uniqueItems: true", "items: { items: integer }",
	"properties: { a: string }, minProperties: 1", "additionalProperties: false", "minProperties: 0", "enum: [a, b]", "description: x", "default: x",
	"type: ", "type: '', minLength: 2", "type: any, example: .inf", "type: any, default: 2020-01-02", "type: any, example: 0x1F", "type: any, example: !!binary aGk=",
	"type: any, example: [~, 1_000, 0o17, .5, 1e3, !!str 5]", "type: number, example: 1e3", "type: integer, default: 0x1F", "type: string, example: !!str 5",
	"type: any, example: { value: { a: ~, b: [] }, description: d, displayName: n, strict: false }", "type: date-only, example: 2020-01-02",
	"type: string, examples: { x: { value: a, strict: true, description: d }, y: b }",
}

// lone adds a type, or a part of a type, that is written as given.
func (g *Gen) lone(l *gLib, d string) {
	n := ys("{ " + d + " }")
	switch g.r.Intn(6) {
	case 0:
		n = ym().set("type", ys("object")).set("properties", ym().set("k", n))
	case 1:
		n = ym().set("type", ys("array")).set("items", n)
	case 2:
		n = ym().set("type", ys("object")).set("properties", ym().set("/^k/", n))
	}
	l.types = append(l.types, &gT{name: g.id("L"), lib: l, kind: "odd", node: n, minL: -1, maxL: -1, addl: true, recursive: true})
}

// conflicts are facets of a type and of a type that inherits from it which do not agree.
var conflicts = [][4]string{
	{"object", "minProperties: 5", "minProperties: 3", "ok"},
	{"object", "maxProperties: 3", "maxProperties: 5", "ok"},
	{"object", "properties: { a: string }", "properties: { 'a?': string }", "ok"},
	{"object", "properties: { a: string, b: integer }", "properties: { b: string, a: integer }", ""},
	{"object", "properties: { a: { minLength: 3 }, b: { maximum: 3 }, c: [string] }", "properties: { c: integer, b: { maximum: 4 }, a: { minLength: 2 } }", ""},
	{"object", "properties: { /^a/: string, /^b/: integer }", "properties: { /^b/: string, /^a/: integer }", ""},
	{"object", "additionalProperties: false", "additionalProperties: true", "ok"},
	{"object", "discriminator: a", "discriminator: b", ""},
	{"array", "minItems: 5", "minItems: 3", "ok"},
	{"array", "maxItems: 3", "maxItems: 5", "ok"},
	{"array", "uniqueItems: true", "uniqueItems: false", "ok"},
	{"array", "items: integer", "items: string", ""},
	{"array", "items: { type: integer, maximum: 3 }", "items: { type: integer, maximum: 5 }", "ok"},
	{"string", "minLength: 5", "minLength: 3", "ok"},
	{"string", "maxLength: 3", "maxLength: 5", "ok"},
	{"string", "enum: [a, b, c, d]", "enum: [x, a, y]", ""},
	{"string", "pattern: '^a$'", "pattern: '^b$'", ""},
	{"integer", "minimum: 5", "minimum: 3", "ok"},
	{"integer", "maximum: 3", "maximum: 5", "ok"},
	{"integer", "enum: [1, 2, 3]", "enum: [7, 1, 8]", ""},
	{"integer", "format: int8", "format: int64", ""},
	{"integer", "multipleOf: 4", "multipleOf: 3", ""},
	{"number", "minimum: 5.5", "minimum: 3.5", "ok"},
	{"number", "maximum: 3.5", "maximum: 5.5", "ok"},
	{"number", "enum: [1.5, 2.5]", "enum: [7.5]", ""},
	{"number", "format: float", "format: double", ""},
	{"number", "multipleOf: 4", "multipleOf: 3", ""},
	{"file", "minLength: 5", "minLength: 3", "ok"},
	{"file", "maxLength: 3", "maxLength: 5", "ok"},
	{"file", "fileTypes: ['image/png', 'image/gif']", "fileTypes: ['image/jpeg', 'image/x']", ""},
	{"datetime", "format: rfc3339", "format: rfc2616", ""},
	{"boolean", "enum: [true]", "enum: [false]", ""},
	{"string | integer", "", "minLength: 3", ""},
	{"'string[] | integer'", "", "items: integer", ""},
}

func (g *Gen) conflict() {
	l := g.libs[g.r.Intn(len(g.libs))]
	for i := 1 + g.r.Intn(2); i > 0; i-- {
		g.pair(l, conflicts[g.r.Intn(len(conflicts))])
	}
}

// agreement adds types that inherit from each other in the ways of conflicts, but narrow what they inherit.
func (g *Gen) agreement(l *gLib) {
	c := conflicts[g.r.Intn(len(conflicts))]
	if c[3] == "" {
		c = conflicts[0]
	}
	c[1], c[2] = c[2], c[1]
	g.pair(l, c)
}

// pair adds a type and a type that inherits from it.
func (g *Gen) pair(l *gLib, c [4]string) {
	flow := func(parts ...string) *yn {
		var out []string
		for _, p := range parts {
			if p != "" {
				out = append(out, p)
			}
		}
		return ys("{ " + strings.Join(out, ", ") + " }")
	}
	add := func(name string, n *yn) {
		l.types = append(l.types, &gT{name: name, lib: l, kind: "odd", node: n, minL: -1, maxL: -1, addl: true, recursive: true})
	}
	pn, cn, on := g.id("CP"), g.id("CC"), g.id("CO")
	switch g.r.Intn(8) {
	case 0: // in a property
		add(pn, flow("type: object", "properties: { k: "+flow("type: "+c[0], c[1]).s+" }"))
		add(cn, flow("type: "+pn, "properties: { k: "+flow("type: "+c[0], c[2]).s+" }"))
	case 1: // in items
		add(pn, flow("type: array", "items: "+flow("type: "+c[0], c[1]).s))
		add(cn, flow("type: "+pn, "items: "+flow("type: "+c[0], c[2]).s))
	case 2: // between parents
		add(pn, flow("type: "+c[0], c[1]))
		add(on, flow("type: "+c[0], c[2]))
		add(cn, flow("type: ["+on+", "+pn+"]"))
	case 3: // with members of a union
		add(pn, flow("type: "+c[0], c[1]))
		add(on, flow("type: "+pn+" | boolean"))
		add(cn, flow("type: "+on, c[2]))
	case 4: // further away
		add(pn, flow("type: "+c[0], c[1]))
		add(on, flow("type: "+pn))
		add(cn, flow("type: "+on, c[2]))
	case 5: // child of a union made of children
		add(pn, flow("type: "+c[0], c[1]))
		add(on, flow("type: "+c[0], c[2]))
		add(cn, flow("type: "+pn+" | "+on))
		add(g.id("CX"), flow("type: "+cn, c[2]))
	default:
		add(pn, flow("type: "+c[0], c[1]))
		add(cn, flow("type: "+pn, c[2]))
	}
}

// mix adds types that make what is inherited and what refers to existing types meet in one place.
func (g *Gen) mix(l *gLib) {
	var o []vis
	for _, v := range g.visible(l) {
		if v.t.kind == "object" && v.t.disc == "" {
			o = append(o, v)
		}
	}
	if len(o) < 2 {
		return
	}
	i := g.r.Intn(len(o))
	a, b := o[i], o[(i+1+g.r.Intn(len(o)-1))%len(o)]
	add := func(n *yn) string {
		nm := g.id("M")
		l.types = append(l.types, &gT{name: nm, lib: l, kind: "odd", node: n, minL: -1, maxL: -1, addl: true, recursive: true})
		return nm
	}
	of := func(k, e string) *yn {
		switch k {
		case "items":
			return ym().set("type", ys("array")).set("items", ys(e))
		case "array":
			return ym().set("type", ys("object")).set("properties", ym().set("m", ys(e+"[]")))
		case "pattern":
			return ym().set("type", ys("object")).set("properties", ym().set("/^m/", ys(e)))
		case "nested":
			return ym().set("type", ys("object")).set("properties", ym().set("m", ym().set("type", ys("object")).set("properties", ym().set("n", ys(e)))))
		}
		return ym().set("type", ys("object")).set("properties", ym().set("m", ys(e)))
	}
	k := pick(g.r, "prop", "prop", "items", "array", "pattern", "nested", "parents", "parents", "parents", "union", "member", "member", "narrow", "unions", "clash")
	if g.p(0.4) {
		// what uses the type comes before it in some models and after it in others
		defer func() {
			t := l.types[len(l.types)-1]
			nm := g.id("M")
			u := &gT{name: nm, lib: l, kind: "odd", node: of(pick(g.r, "prop", "items", "array", "pattern"), t.name), minL: -1, maxL: -1, addl: true, recursive: true}
			if g.p(0.5) {
				l.types = append([]*gT{u}, l.types...)
			} else {
				l.types = append(l.types, u)
			}
		}()
	}
	switch k {
	case "member":
		// a declaration that only one member of the inherited union fits
		p := add(of("prop", pick(g.r, "string | ", "integer | ", "nil | ")+a.ref))
		n := ym().set("type", ys("object"))
		if g.p(0.5) {
			n = ys(b.ref)
		}
		add(ym().set("type", ys(p)).set("properties", ym().set("m", n)))
	case "unions":
		// unions that inherit from unions
		sc := pick(g.r, " | string", " | integer", " | nil", "")
		x, y := a.ref+sc, b.ref+sc
		if sc == "" {
			y += " | " + a.ref
		}
		if g.p(0.5) {
			x = add(ys(x))
		}
		if g.p(0.5) {
			y = add(ys(y))
		}
		if g.p(0.3) {
			add(ys("[" + x + ", " + y + "]"))
			return
		}
		k := pick(g.r, "prop", "items", "pattern")
		p := add(of(k, x))
		add(of(k, y).set("type", ys(p)))
	case "clash":
		// some declarations fit only some of the members of a union that all of them inherit
		u := add(ys(add(ym().set("type", ys("string")).set("maxLength", yi(2+g.r.Intn(3)))) + " | " + add(ym().set("type", ys("string")).set("minLength", ys(strconv.Itoa(1+g.r.Intn(3)))))))
		p := add(of("prop", u))
		for i := 2 + g.r.Intn(2); i > 0; i-- {
			n := ym().set("type", ys("string"))
			if g.p(0.7) {
				n.set("minLength", yi(1+g.r.Intn(5)))
			}
			if g.p(0.5) {
				n.set("maxLength", yi(4+g.r.Intn(5)))
			}
			add(ym().set("type", ys(p)).set("properties", ym().set("m", n)))
		}
	case "narrow":
		// of several parents one is a union and only one of its members fits
		x := add(ym().set("type", ys("object")).set("properties", ym().set("zk", ys("string"))))
		y := add(ym().set("type", ys("object")).set("properties", ym().set("zk", ys("integer"))))
		add(ym().set("type", ys("["+a.ref+", "+x+" | "+y+"]")).set("properties", ym().set("zk", ys(pick(g.r, "string", "integer", "boolean")))))
	case "parents":
		// the first parent may be the type itself or one that shares what it has
		x := a.ref
		switch g.r.Intn(3) {
		case 0:
			x = add(ym().set("type", ys(a.ref)).set("description", ys("mixed")))
		case 1:
			x = add(ys(a.ref))
		}
		add(ym().set("type", ys("["+x+", "+b.ref+"]")))
	case "union":
		p := add(of("prop", "object"))
		add(of("prop", a.ref+" | "+b.ref).set("type", ys(p)))
	default:
		p := add(of(k, b.ref))
		add(of(k, a.ref).set("type", ys(p)))
	}
}
