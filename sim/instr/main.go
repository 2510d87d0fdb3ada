// Command instr copies a Go module and rewrites it for the simulator: a preemption
// point before every statement, map iteration, goroutines, channels, and the packages
// through which nondeterminism enters (os, sync, time, ...) replaced by simulated ones.
//
//	instr -src /repo -dst DIR -rt /verif/sim/rt -harness /verif/sim/harness [-cli]
//
// It judges nothing: what it writes does what the source does, on the simulator.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var simPkgs = map[string]string{
	"os": "simos", "sync": "simsync", "log": "simlog", "time": "simtime",
	"math/rand": "simrand", "path/filepath": "simfilepath", "io/ioutil": "simioutil", "maps": "simmaps",
}

// packages whose simulated version re-exports everything it does not define itself
var passthrough = map[string]string{
	"simos": "os", "simlog": "log", "simtime": "time", "simrand": "math/rand", "simfilepath": "path/filepath",
}

var modPath string

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", a...)
	os.Exit(3)
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

type edit struct {
	at, end int
	text    string
	seq     int
}

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	DepOnly    bool
	Error      *struct{ Err string }
	Module     *struct{ Path, GoVersion string }
}

func goList(dir string, args ...string) []listPkg {
	cmd := exec.Command("go", append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,DepOnly,Error,Module"}, args...)...)
	cmd.Dir = dir
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		die("go list in %s: %v\n%s", dir, err, eb.String())
	}
	var pkgs []listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		pkgs = append(pkgs, p)
	}
	return pkgs
}

// copyModule copies the non-test Go files and go.mod/go.sum of src (nested modules excluded).
func copyModule(src, dst string) {
	must(filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if d.IsDir() {
			n := d.Name()
			if rel != "." && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "fixtures" || n == "zzsim" || n == "zzcli") {
				return filepath.SkipDir
			}
			if rel != "." {
				if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
					return filepath.SkipDir
				}
			}
			return nil
		}
		n := d.Name()
		if !d.Type().IsRegular() {
			return nil
		}
		if n == "go.mod" || n == "go.sum" || (strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go")) {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			to := filepath.Join(dst, rel)
			if err := os.MkdirAll(filepath.Dir(to), 0o755); err != nil {
				return err
			}
			return os.WriteFile(to, b, 0o644)
		}
		return nil
	}))
}

type instrumenter struct {
	fset    *token.FileSet
	src     []byte
	base    int
	info    *types.Info
	edits   []edit
	n       int
	rtUsed  bool
	stats   *stats
	skipRec bool
}

type stats struct {
	Files, Yields, MapRanges, Gos, ChanOps, Selects int
	Imports                                         map[string]int
	Packages                                        []string
}

func (in *instrumenter) off(p token.Pos) int { return in.fset.PositionFor(p, false).Offset }

func (in *instrumenter) ins(at int, text string) {
	in.edits = append(in.edits, edit{at, at, text, len(in.edits)})
}

func (in *instrumenter) rep(at, end int, text string) {
	in.edits = append(in.edits, edit{at, end, text, len(in.edits)})
}

const rt = "zzsimrt"

func (in *instrumenter) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch e := s.(type) {
		case *ast.EmptyStmt:
			if e.Implicit {
				continue
			}
		case *ast.CaseClause, *ast.CommClause:
			continue
		}
		in.ins(in.off(s.Pos()), rt+".Y(); ")
		in.stats.Yields++
	}
}

func (in *instrumenter) text(n ast.Node) string {
	return string(in.src[in.off(n.Pos()):in.off(n.End())])
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	u := t.Underlying()
	if iface, ok := u.(*types.Interface); ok {
		// a type parameter: its core type
		var core types.Type
		for i := 0; i < iface.NumEmbeddeds(); i++ {
			switch e := iface.EmbeddedType(i).(type) {
			case *types.Union:
				for j := 0; j < e.Len(); j++ {
					core = e.Term(j).Type().Underlying()
				}
			default:
				core = e.Underlying()
			}
		}
		if _, isTP := t.(*types.TypeParam); isTP && core != nil {
			return core
		}
	}
	return u
}

func (in *instrumenter) typeOf(e ast.Expr) types.Type { return in.info.TypeOf(e) }

func (in *instrumenter) isBuiltin(call *ast.CallExpr, name string) bool {
	id, ok := call.Fun.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = in.info.Uses[id].(*types.Builtin)
	return ok
}

func (in *instrumenter) file(f *ast.File) {
	// receives that are two-valued
	two := map[*ast.UnaryExpr]bool{}
	inSelect := map[ast.Node]bool{}
	labeled := map[*ast.SelectStmt]*ast.LabeledStmt{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u, ok := ast.Unparen(n.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					two[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u, ok := ast.Unparen(n.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					two[u] = true
				}
			}
		case *ast.CommClause:
			if n.Comm != nil {
				ast.Inspect(n.Comm, func(m ast.Node) bool {
					if m != nil {
						inSelect[m] = true
					}
					return true
				})
			}
		}
		return true
	})
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			in.stmts(n.List)
		case *ast.CaseClause:
			in.stmts(n.Body)
		case *ast.CommClause:
			in.stmts(n.Body)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				in.ins(in.off(n.Body.Lbrace)+1, " "+rt+".Y() ")
			}
		case *ast.RangeStmt:
			u := under(in.typeOf(n.X))
			if _, ok := u.(*types.Map); ok {
				in.mapRange(n)
			} else if _, ok := u.(*types.Chan); ok {
				in.chanRange(n)
			} else if len(n.Body.List) == 0 {
				in.ins(in.off(n.Body.Lbrace)+1, " "+rt+".Y() ")
			}
		case *ast.LabeledStmt:
			if sel, ok := n.Stmt.(*ast.SelectStmt); ok {
				labeled[sel] = n
			}
		case *ast.SelectStmt:
			in.selectStmt(n, labeled[n])
		case *ast.GoStmt:
			in.goStmt(n)
		case *ast.SendStmt:
			if !inSelect[n] {
				in.stats.ChanOps++
				in.ins(in.off(n.Chan.Pos()), rt+".Send(")
				in.rep(in.off(n.Chan.End()), in.off(n.Value.Pos()), ", ")
				in.ins(in.off(n.Value.End()), ")")
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !inSelect[n] {
				in.stats.ChanOps++
				f := ".Recv("
				if two[n] {
					f = ".Recv2("
				}
				in.rep(in.off(n.OpPos), in.off(n.X.Pos()), rt+f)
				in.ins(in.off(n.X.End()), ")")
			}
		case *ast.CallExpr:
			if in.isBuiltin(n, "close") && len(n.Args) == 1 {
				in.stats.ChanOps++
				in.rep(in.off(n.Fun.Pos()), in.off(n.Fun.End()), rt+".Close")
			}
		}
		return true
	})
	for _, is := range f.Imports {
		p, _ := strconv.Unquote(is.Path.Value)
		s, ok := simPkgs[p]
		if !ok {
			continue
		}
		name := p[strings.LastIndexByte(p, '/')+1:]
		if is.Name != nil {
			name = ""
		}
		in.stats.Imports[p]++
		in.rep(in.off(is.Path.Pos()), in.off(is.Path.End()), strings.TrimSpace(name+" "+strconv.Quote(modPath+"/zzsim/"+s)))
	}
	in.ins(in.off(f.Name.End()), "; import "+rt+" "+strconv.Quote(modPath+"/zzsim/simrt")+"; ")
	in.ins(len(in.src), "\nvar _ = "+rt+".Y\n")
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (in *instrumenter) mapRange(n *ast.RangeStmt) {
	in.n++
	in.stats.MapRanges++
	it := fmt.Sprintf("zzit%d", in.n)
	k, v := fmt.Sprintf("zzk%d", in.n), fmt.Sprintf("zzv%d", in.n)
	assign := ""
	if n.Tok == token.DEFINE {
		if !isBlank(n.Key) {
			k = in.text(n.Key)
		}
		if !isBlank(n.Value) {
			v = in.text(n.Value)
		}
	} else {
		var l, r []string
		if !isBlank(n.Key) {
			l, r = append(l, in.text(n.Key)), append(r, k)
		}
		if !isBlank(n.Value) {
			l, r = append(l, in.text(n.Value)), append(r, v)
		}
		if len(l) > 0 {
			assign = " " + strings.Join(l, ", ") + " = " + strings.Join(r, ", ") + "; "
		}
	}
	in.rep(in.off(n.For), in.off(n.X.Pos()), fmt.Sprintf("for %s, %s, %s := %s.Iter(", it, k, v, rt))
	in.rep(in.off(n.X.End()), in.off(n.Body.Lbrace), fmt.Sprintf("); %s.Next(&%s, &%s); ", it, k, v))
	if len(n.Body.List) == 0 {
		assign += " " + rt + ".Y() "
	}
	if assign != "" {
		in.ins(in.off(n.Body.Lbrace)+1, assign)
	}
}

func (in *instrumenter) chanRange(n *ast.RangeStmt) {
	in.n++
	in.stats.ChanOps++
	ch, v, ok := fmt.Sprintf("zzch%d", in.n), fmt.Sprintf("zzv%d", in.n), fmt.Sprintf("zzok%d", in.n)
	body := fmt.Sprintf(" %s, %s := %s.Recv2(%s); if !%s { break }; _ = %s; ", v, ok, rt, ch, ok, v)
	if !isBlank(n.Key) {
		op := "="
		if n.Tok == token.DEFINE {
			op = ":="
		}
		body += in.text(n.Key) + " " + op + " " + v + "; "
	}
	in.rep(in.off(n.For), in.off(n.X.Pos()), fmt.Sprintf("for %s := (", ch))
	in.rep(in.off(n.X.End()), in.off(n.Body.Lbrace), "); ; ")
	in.ins(in.off(n.Body.Lbrace)+1, body)
}

// selectStmt makes a blocking select one that waits in the simulator.
func (in *instrumenter) selectStmt(n *ast.SelectStmt, l *ast.LabeledStmt) {
	in.stats.ChanOps++
	in.stats.Selects++
	for _, c := range n.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			return // has a default
		}
	}
	for _, c := range n.Body.List {
		in.ins(in.off(c.(*ast.CommClause).Colon)+1, " "+rt+".Changed(); ")
	}
	in.n++
	label := fmt.Sprintf("zzsel%d", in.n)
	at := in.off(n.Pos())
	if l != nil {
		at = in.off(l.Pos())
	}
	in.ins(at, label+": ")
	in.ins(in.off(n.Body.Rbrace), fmt.Sprintf("; default: %s.WaitChange(); goto %s; ", rt, label))
}

func (in *instrumenter) goStmt(n *ast.GoStmt) {
	in.stats.Gos++
	call := n.Call
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		_ = fl
		in.rep(in.off(n.Go), in.off(call.Fun.Pos()), rt+".Go(")
		in.rep(in.off(call.Fun.End()), in.off(call.End()), ")")
		return
	}
	// arguments and the function value are evaluated now
	in.n++
	pre := "{ "
	fn := fmt.Sprintf("zzf%d", in.n)
	pre += fn + " := "
	in.rep(in.off(n.Go), in.off(call.Fun.Pos()), pre)
	var names []string
	prevEnd := in.off(call.Fun.End())
	for i, a := range call.Args {
		nm := fmt.Sprintf("zza%d_%d", in.n, i)
		t := in.typeOf(a)
		decl := "; " + nm + " := "
		if b, ok := t.(*types.Basic); ok && (b.Kind() == types.UntypedNil || b.Info()&types.IsUntyped != 0) {
			names = append(names, in.text(a))
			in.rep(prevEnd, in.off(a.End()), "")
			prevEnd = in.off(a.End())
			continue
		}
		in.rep(prevEnd, in.off(a.Pos()), decl)
		prevEnd = in.off(a.End())
		names = append(names, nm)
	}
	args := strings.Join(names, ", ")
	if call.Ellipsis.IsValid() {
		args += "..."
	}
	in.rep(prevEnd, in.off(call.End()), fmt.Sprintf("; %s.Go(func() { %s(%s) }) }", rt, fn, args))
}

func (in *instrumenter) apply() []byte {
	sort.SliceStable(in.edits, func(i, j int) bool {
		a, b := in.edits[i], in.edits[j]
		if a.at != b.at {
			return a.at < b.at
		}
		// insertions before replacements at the same place; otherwise in order
		ai, bi := a.at == a.end, b.at == b.end
		if ai != bi {
			return ai
		}
		return a.seq < b.seq
	})
	var out bytes.Buffer
	pos := 0
	for _, e := range in.edits {
		if e.at < pos {
			if e.at == e.end {
				continue // inside replaced text
			}
			die("overlapping edits")
		}
		out.Write(in.src[pos:e.at])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(in.src[pos:])
	return out.Bytes()
}

func instrument(pkgs []listPkg, want func(listPkg) bool, st *stats) {
	exports := map[string]string{}
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
	}
	lookup := func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	}
	for _, p := range pkgs {
		if !want(p) {
			continue
		}
		fset := token.NewFileSet()
		var files []*ast.File
		var srcs [][]byte
		var names []string
		for _, g := range p.GoFiles {
			fn := filepath.Join(p.Dir, g)
			b, err := os.ReadFile(fn)
			must(err)
			f, err := parser.ParseFile(fset, fn, b, parser.ParseComments|parser.SkipObjectResolution)
			must(err)
			files, srcs, names = append(files, f), append(srcs, b), append(names, fn)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup)}
		if p.Module != nil && p.Module.GoVersion != "" {
			conf.GoVersion = "go" + p.Module.GoVersion
		}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			die("type checking %s: %v", p.ImportPath, err)
		}
		st.Packages = append(st.Packages, p.ImportPath)
		for i, f := range files {
			in := &instrumenter{fset: fset, src: srcs[i], info: info, stats: st}
			in.file(f)
			must(os.WriteFile(names[i], in.apply(), 0o644))
			st.Files++
		}
	}
}

// genPassthrough writes zz_pass.go in the simulated package dir, re-exporting what the
// real package exports and the simulated one does not define.
func genPassthrough(dir, name, real string, exports map[string]string) {
	fset := token.NewFileSet()
	parsed, err := parser.ParseDir(fset, dir, func(fi fs.FileInfo) bool { return !strings.HasPrefix(fi.Name(), "zz_") }, parser.SkipObjectResolution)
	must(err)
	have := map[string]bool{}
	for _, p := range parsed {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						have[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							have[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								have[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	pkg, err := imp.Import(real)
	must(err)
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport real %q\n\n", name, real)
	names := pkg.Scope().Names()
	n := 0
	for _, nm := range names {
		if !token.IsExported(nm) || have[nm] {
			continue
		}
		switch o := pkg.Scope().Lookup(nm).(type) {
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = real.%s\n", nm, nm)
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real.%s\n", nm, nm)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real.%s\n", nm, nm)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = real.%s\n", nm, nm)
		default:
			continue
		}
		n++
	}
	if n == 0 {
		return
	}
	must(os.WriteFile(filepath.Join(dir, "zz_pass.go"), b.Bytes(), 0o644))
}

func copyTree(src, dst string, sub func([]byte) []byte) {
	must(filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if d.IsDir() {
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), sub(b), 0o644)
	}))
}

func modulePath(gomod string) string {
	b, err := os.ReadFile(gomod)
	must(err)
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) >= 2 && f[0] == "module" {
			return strings.Trim(f[1], `"`)
		}
	}
	die("no module line in %s", gomod)
	return ""
}

const basePath = "github.com/acronis/go-raml/v2"

func main() {
	src := flag.String("src", "/repo", "module to instrument")
	dst := flag.String("dst", "", "output directory (empty)")
	rtDir := flag.String("rt", "", "runtime packages")
	hDir := flag.String("harness", "", "harness package")
	cli := flag.Bool("cli", false, "include cmd/raml")
	flag.Parse()
	copyModule(*src, *dst)
	modPath = modulePath(filepath.Join(*dst, "go.mod"))
	st := &stats{Imports: map[string]int{}}
	sub := func(b []byte) []byte { return bytes.ReplaceAll(b, []byte(basePath), []byte(modPath)) }

	var std []string
	for _, r := range passthrough {
		std = append(std, r)
	}
	sort.Strings(std)
	pkgs := goList(*dst, append([]string{"./..."}, std...)...)
	inMod := func(p listPkg) bool {
		return p.Module != nil && p.Module.Path == modPath && !p.DepOnly
	}
	exports := map[string]string{}
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
	}
	var cliPkgs []listPkg
	cliDst := filepath.Join(*dst, "zzcli")
	if *cli {
		copyCLI(*src, *dst, cliDst)
		cliPkgs = goList(cliDst, "./...")
	}
	instrument(pkgs, inMod, st)
	if *cli {
		instrument(cliPkgs, func(p listPkg) bool { return p.Module != nil && p.Module.Path == modPath+"/zzcli" && !p.DepOnly }, st)
	}
	copyTree(*rtDir, filepath.Join(*dst, "zzsim"), sub)
	for s, r := range passthrough {
		genPassthrough(filepath.Join(*dst, "zzsim", s), s, r, exports)
	}
	genHooks(*dst)
	if *hDir != "" {
		hTo := filepath.Join(*dst, "zzsim", "harness")
		copyTree(*hDir, hTo, sub)
		must(os.RemoveAll(filepath.Join(hTo, "_climain")))
		if *cli {
			copyTree(filepath.Join(*hDir, "_climain"), filepath.Join(cliDst, "zzharness"), sub)
		}
	}
	b, _ := json.Marshal(st)
	must(os.WriteFile(filepath.Join(*dst, "zz_instr.json"), b, 0o644))
	fmt.Println(string(b))
}

// copyCLI copies cmd/raml as an importable package of a module of its own, whose go-raml
// is the instrumented one.
func copyCLI(src, dst, cliDst string) {
	from := filepath.Join(src, "cmd", "raml")
	must(os.MkdirAll(cliDst, 0o755))
	ents, err := os.ReadDir(from)
	must(err)
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() {
			if n != "testdata" && !strings.HasPrefix(n, ".") {
				copyTree(filepath.Join(from, n), filepath.Join(cliDst, n), func(b []byte) []byte { return b })
			}
			continue
		}
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(from, n))
		must(err)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, n, b, parser.PackageClauseOnly|parser.ParseComments)
		must(err)
		if f.Name.Name == "main" {
			o := fset.Position(f.Name.Pos()).Offset
			b = append(append(append([]byte{}, b[:o]...), []byte("zzcli")...), b[o+len("main"):]...)
		}
		skip := false
		for _, cg := range f.Comments {
			for _, c := range cg.List {
				if constraint.IsGoBuild(c.Text) && strings.Contains(c.Text, "ignore") {
					skip = true
				}
			}
		}
		if !skip {
			must(os.WriteFile(filepath.Join(cliDst, n), b, 0o644))
		}
	}
	must(os.WriteFile(filepath.Join(cliDst, "zz_entry.go"), []byte("package zzcli\n\n// Main runs the command.\nfunc Main() { main() }\n"), 0o644))
	gm, err := os.ReadFile(filepath.Join(from, "go.mod"))
	must(err)
	rootReq := map[string]bool{}
	var rootLines []string
	rm, err := os.ReadFile(filepath.Join(dst, "go.mod"))
	must(err)
	for _, l := range strings.Split(string(rm), "\n") {
		f := strings.Fields(l)
		if len(f) > 0 && f[0] == "require" {
			f = f[1:]
		}
		if len(f) >= 2 && strings.HasPrefix(f[1], "v") {
			rootReq[f[0]] = true
			if !strings.Contains(l, "// indirect") {
				rootLines = append(rootLines, "require "+f[0]+" "+f[1])
			}
		}
	}
	var out []string
	for _, l := range strings.Split(string(gm), "\n") {
		f := strings.Fields(l)
		if len(f) >= 2 && f[0] == "module" {
			l = "module " + modPath + "/zzcli"
		}
		// go-raml is the instrumented one; what it requires itself comes in its versions
		if strings.Contains(l, "acronis/go-raml") && !strings.HasPrefix(l, "module") {
			continue
		}
		if len(f) >= 2 && strings.HasPrefix(f[1], "v") && rootReq[f[0]] {
			continue
		}
		out = append(out, l)
	}
	out = append(out, rootLines...)
	out = append(out, "require "+modPath+" v2.999.0", "replace "+modPath+" => ../", "")
	must(os.WriteFile(filepath.Join(cliDst, "go.mod"), []byte(strings.Join(out, "\n")), 0o644))
	s1, _ := os.ReadFile(filepath.Join(from, "go.sum"))
	s2, _ := os.ReadFile(filepath.Join(dst, "go.sum"))
	must(os.WriteFile(filepath.Join(cliDst, "go.sum"), append(s1, s2...), 0o644))
}

// genHooks writes a package that lists the hook points the module exports.
func genHooks(dst string) {
	fset := token.NewFileSet()
	parsed, err := parser.ParseDir(fset, dst, nil, parser.SkipObjectResolution)
	must(err)
	var names []string
	pkg := ""
	for n, p := range parsed {
		pkg = n
		for _, f := range p.Files {
			for _, d := range f.Decls {
				if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.CONST {
					for _, s := range g.Specs {
						for _, n := range s.(*ast.ValueSpec).Names {
							if strings.HasPrefix(n.Name, "Hook") {
								names = append(names, n.Name)
							}
						}
					}
				}
			}
		}
	}
	sort.Strings(names)
	var b bytes.Buffer
	fmt.Fprintf(&b, "// Package hooks lists the hook points of the module.\npackage hooks\n\nimport %s %q\n\n// Keys are the hook points.\nvar Keys = []%s.HookKey{\n", pkg, modPath, pkg)
	for _, n := range names {
		fmt.Fprintf(&b, "\t%s.HookKey(%s.%s),\n", pkg, pkg, n)
	}
	b.WriteString("}\n\n// Names are their names.\nvar Names = []string{\n")
	for _, n := range names {
		fmt.Fprintf(&b, "\t%q,\n", n)
	}
	b.WriteString("}\n")
	d := filepath.Join(dst, "zzsim", "hooks")
	must(os.MkdirAll(d, 0o755))
	must(os.WriteFile(filepath.Join(d, "hooks.go"), b.Bytes(), 0o644))
}
