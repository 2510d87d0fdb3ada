//go:build go1.22

package hx

import (
	"fmt"
	"math/big"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	raml "github.com/acronis/go-raml/v2"
	"github.com/acronis/go-stacktrace"
)

// dumper prints object graphs: exported fields, pointers numbered in the order of the
// first visit (so sharing and cycles show), type identifiers renumbered the same way.
type dumper struct {
	b    strings.Builder
	ptr  map[uintptr]map[reflect.Type]int
	np   int
	ids  map[int64]int
	path []string
	strp string // directory prefix to leave out of strings
	lim  int
	own  bool // do not leave the type graph: annotation types and fragments are not part of a type
	tree int  // print what a type means, this many types deep: no identity, no origin
	at   int
}

func newDumper() *dumper {
	return &dumper{ptr: map[uintptr]map[reflect.Type]int{}, ids: map[int64]int{}, lim: 8 << 20}
}

var (
	tBase     = reflect.TypeOf(raml.BaseShape{})
	tRegexp   = reflect.TypeOf(regexp.Regexp{})
	tBig      = reflect.TypeOf(big.Int{})
	tDataType = reflect.TypeOf(raml.DataType{})
	tRAML     = reflect.TypeOf(raml.RAML{})
)

func (d *dumper) line(s string) {
	if d.b.Len() > d.lim {
		return
	}
	for i := 0; i < len(d.path); i++ {
		d.b.WriteByte(' ')
	}
	d.b.WriteString(s)
	d.b.WriteByte('\n')
}

func (d *dumper) put(label, s string) {
	if d.b.Len() > d.lim {
		return
	}
	for i := 0; i < len(d.path); i++ {
		d.b.WriteByte(' ')
	}
	d.b.WriteString(label)
	d.b.WriteString(": ")
	d.b.WriteString(s)
	d.b.WriteByte('\n')
}

func (d *dumper) str(s string) string {
	if d.strp != "" {
		s = strings.ReplaceAll(s, d.strp, "<root>")
	}
	return strconv.Quote(s)
}

func isOrderedMap(t reflect.Type) bool {
	return t.Kind() == reflect.Ptr && strings.HasPrefix(t.Elem().Name(), "OrderedMap[") && strings.Contains(t.Elem().PkgPath(), "orderedmap") ||
		t.Kind() == reflect.Ptr && strings.HasPrefix(t.Elem().Name(), "OrderedMap[") && strings.Contains(t.Elem().PkgPath(), "ordered-map")
}

func (d *dumper) val(label string, v reflect.Value) {
	if !v.IsValid() {
		d.put(label, "nil")
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			d.put(label, "nil")
			return
		}
		d.val(label, v.Elem())
	case reflect.Ptr:
		t := v.Type()
		if v.IsNil() {
			if isOrderedMap(t) {
				d.put(label, "map[0]")
				return
			}
			d.put(label, "nil")
			return
		}
		e := t.Elem()
		switch e {
		case tRAML:
			return
		case tRegexp:
			d.put(label, "re "+d.str(v.Interface().(*regexp.Regexp).String()))
			return
		case tBig:
			d.put(label, "big "+v.Interface().(*big.Int).String())
			return
		}
		switch e.Kind() {
		case reflect.Struct:
		default:
			d.val(label, v.Elem())
			return
		}
		if isOrderedMap(t) {
			d.omap(label, v)
			return
		}
		if d.own && e == tDataType {
			l := v.Interface().(*raml.DataType)
			d.put(label, "link "+d.str(l.Location))
			d.val(label, reflect.ValueOf(l.Shape))
			return
		}
		if d.tree > 0 {
			if e == tBase {
				d.meaning(label, v.Interface().(*raml.BaseShape))
				return
			}
			if len(d.path) > 80 {
				d.put(label, "…")
				return
			}
			d.put(label, e.Name())
			d.fields(v.Elem(), v)
			return
		}
		p := v.Pointer()
		if m := d.ptr[p]; m != nil {
			if n, ok := m[e]; ok {
				d.put(label, "@"+strconv.Itoa(n))
				return
			}
		} else {
			d.ptr[p] = map[reflect.Type]int{}
		}
		d.np++
		d.ptr[p][e] = d.np
		d.put(label, "*"+e.Name()+"#"+strconv.Itoa(d.np))
		d.fields(v.Elem(), v)
	case reflect.Struct:
		d.put(label, v.Type().Name())
		d.fields(v, reflect.Value{})
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			d.put(label, fmt.Sprintf("bytes %q", v.Bytes()))
			return
		}
		d.put(label, "["+strconv.Itoa(v.Len())+"]")
		d.path = append(d.path, "")
		for i := 0; i < v.Len(); i++ {
			d.val(strconv.Itoa(i), v.Index(i))
		}
		d.path = d.path[:len(d.path)-1]
	case reflect.Map:
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		d.put(label, "map["+strconv.Itoa(len(ks))+"]")
		d.path = append(d.path, "")
		for _, k := range ks {
			d.val(d.str(fmt.Sprint(k)), v.MapIndex(k))
		}
		d.path = d.path[:len(d.path)-1]
	case reflect.String:
		d.put(label, d.str(v.String()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.put(label, v.Kind().String()+" "+strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		d.put(label, v.Kind().String()+" "+strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		d.put(label, "float "+strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.Bool:
		d.put(label, strconv.FormatBool(v.Bool()))
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
	default:
		d.put(label, v.Kind().String())
	}
}

func (d *dumper) omap(label string, v reflect.Value) {
	n := int(v.MethodByName("Len").Call(nil)[0].Int())
	d.put(label, "map["+strconv.Itoa(n)+"]")
	d.path = append(d.path, "")
	for p := v.MethodByName("Oldest").Call(nil)[0]; !p.IsNil(); p = p.MethodByName("Next").Call(nil)[0] {
		k, x := p.Elem().FieldByName("Key"), p.Elem().FieldByName("Value")
		d.val(d.str(fmt.Sprint(k)), x)
		n--
		if n < -2 {
			d.line("...")
			break
		}
	}
	d.path = d.path[:len(d.path)-1]
}

// meaning prints a type to a depth: an unwrapped type is what it has, wherever it got it from.
func (d *dumper) meaning(label string, b *raml.BaseShape) {
	for i := 0; i < 64; i++ {
		r, ok := b.Shape.(*raml.RecursiveShape)
		if !ok || r.Head == nil {
			break
		}
		b = r.Head
	}
	if d.at >= d.tree {
		d.put(label, "type "+d.str(b.Type)+" …")
		return
	}
	d.at++
	d.put(label, "type "+d.str(b.Type))
	d.fields(reflect.ValueOf(b).Elem(), reflect.ValueOf(b))
	d.at--
}

// notMeaning are fields that say who a type is and where it comes from.
var notMeaning = map[string]bool{"ID": true, "Name": true, "Inherits": true, "Alias": true, "Link": true, "Location": true, "Position": true, "TypeLabel": true, "ShapeVisited": true, "BaseShape": true, "Source": true}

// dumpMeaning prints what a type means, to a depth.
func dumpMeaning(b *raml.BaseShape, depth int) string {
	d := newDumper()
	d.own, d.tree, d.lim = true, depth, 1<<19
	d.meaning("type", b)
	return d.b.String()
}

func (d *dumper) fields(v, p reflect.Value) {
	t := v.Type()
	// names of properties and files are meant, those of types are not
	skip := d.tree > 0 && (t == tBase || t.Kind() == reflect.Struct && strings.HasSuffix(t.Name(), "Shape"))
	d.path = append(d.path, "")
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if !f.IsExported() {
			continue
		}
		if t == tBase && f.Name == "ID" && d.tree == 0 {
			id := v.Field(i).Int()
			n, ok := d.ids[id]
			if !ok {
				n = len(d.ids) + 1
				d.ids[id] = n
			}
			d.put("ID", "id"+strconv.Itoa(n))
			continue
		}
		if skip && notMeaning[f.Name] || d.tree > 0 && (f.Name == "Location" || f.Name == "Position" || f.Name == "ID") {
			continue
		}
		if d.own && (f.Name == "DefinedBy" || f.Name == "Uses") {
			continue
		}
		fv := v.Field(i)
		switch fv.Kind() { // zero values say nothing
		case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map:
			if fv.IsNil() {
				continue
			}
			if f.Name == "AnyOf" && fv.Kind() == reflect.Slice && fv.Len() == 0 || isOrderedMap(f.Type) && fv.MethodByName("Len").Call(nil)[0].Int() == 0 {
				continue // as good as nil
			}
		}
		d.val(f.Name, fv)
	}
	if t == tBase && p.IsValid() && d.tree == 0 {
		d.put("unwrapped", strconv.FormatBool(p.Interface().(*raml.BaseShape).IsUnwrapped()))
	}
	d.path = d.path[:len(d.path)-1]
}

// dumpModel prints everything a user can reach of a model.
func dumpModel(r *raml.RAML, paths []string, strip string) string {
	d := newDumper()
	d.strp = strip
	d.val("entry", reflect.ValueOf(r.EntryPoint()))
	d.put("location", d.str(r.GetLocation()))
	for _, p := range paths {
		f := r.GetFragment(p)
		if f == nil {
			continue
		}
		d.val("fragment "+d.str(p), reflect.ValueOf(f))
		d.val("types "+d.str(p), reflect.ValueOf(r.GetFragmentTypePtrs(p)))
	}
	d.val("annotations", reflect.ValueOf(r.GetAllAnnotationsPtr()))
	d.val("shapes", reflect.ValueOf(r.GetShapes()))
	return d.b.String()
}

func dumpAny(x any) string {
	d := newDumper()
	d.val("v", reflect.ValueOf(x))
	return d.b.String()
}

// errText renders an error completely: its text, and the tree of positions and details.
func errText(err error) string {
	if err == nil {
		return ""
	}
	var b strings.Builder
	b.WriteString(err.Error())
	b.WriteByte('\n')
	seen := map[*stacktrace.StackTrace]bool{}
	var rec func(st *stacktrace.StackTrace, ind int)
	rec = func(st *stacktrace.StackTrace, ind int) {
		pad := strings.Repeat(" ", ind)
		if st == nil {
			return
		}
		if seen[st] {
			b.WriteString(pad + "(again)\n")
			return
		}
		seen[st] = true
		b.WriteString(pad + "- " + st.OrigString() + "\n")
		rec(st.Wrapped, ind+1)
		for _, x := range st.List {
			b.WriteString(pad + "  +\n")
			rec(x, ind+2)
		}
	}
	if st, ok := stacktrace.Unwrap(err); ok && st != nil {
		func() {
			defer func() {
				if v := recover(); v != nil {
					fmt.Fprintf(&b, "(rendering panics: %v)", v)
				}
			}()
			rec(st, 0)
		}()
	}
	return b.String()
}

// firstDiff shows where two texts differ.
func firstDiff(a, b string) string {
	if a == b {
		return ""
	}
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "<end>", "<end>"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			ctx := ""
			for j := i - 1; j >= 0 && j >= i-3 && j < len(la); j-- {
				ctx = strings.TrimSpace(la[j]) + " / " + ctx
			}
			return fmt.Sprintf("line %d: %s| %s <> %s", i+1, cut(ctx, 200), cut(strings.TrimSpace(x), 300), cut(strings.TrimSpace(y), 300))
		}
	}
	return "?"
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
