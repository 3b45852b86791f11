// Command instrument rewrites the sources of the code under test, putting every source of
// nondeterminism behind the simulator: a preemption point before each statement, go
// statements, channel operations, package sync, listening sockets, disk and key generation.
// It edits text (not syntax trees), so line numbers and comments are preserved, and it knows
// nothing about what the code does.
//
// usage: instrument REPO OUTDIR OVERLAY.json EXPORTS [extra=replacement ...] [+dir=name ...]
//
// EXPORTS is the output of go list -export -deps -f '{{.ImportPath}}={{.Export}}' ./...; it
// gives the types needed to tell iterations over maps, whose order is put under control too.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	pos, end int
	text     string
	seq      int
}

type rewriter struct {
	fset    *token.FileSet
	src     []byte
	file    *ast.File
	rel     string
	edits   []edit
	imports map[string]string // local name -> path
	keep    map[string]bool
	inComm  map[ast.Node]bool
	skip    map[ast.Node]bool
	stats   map[string]int
}

var total = map[string]int{}

// functions and types taken over by the simulator
var seams = map[string]map[string]string{
	"net":        {"Listen": "__vsim.NetListen", "ListenConfig": "__vsim.ListenConfig"},
	"runtime":    {"Gosched": "__vsim.Gosched"},
	"io/ioutil":  {"ReadFile": "__vsim.ReadFile", "WriteFile": "__vsim.WriteFile"},
	"crypto/tls": {"Listen": "__vsimtls.Listen", "LoadX509KeyPair": "__vsimtls.LoadX509KeyPair", "NewListener": "__vsimtls.NewListener"},
	"crypto/rsa": {"GenerateKey": "__vsimtls.GenerateKey"},
	"os": {
		"Open": "__vsim.Open", "Create": "__vsim.Create", "OpenFile": "__vsim.OpenFile", "Stat": "__vsim.Stat",
		"Lstat": "__vsim.Lstat", "MkdirAll": "__vsim.MkdirAll", "Mkdir": "__vsim.Mkdir", "ReadFile": "__vsim.ReadFile",
		"WriteFile": "__vsim.WriteFile", "Rename": "__vsim.Rename", "Remove": "__vsim.Remove", "RemoveAll": "__vsim.RemoveAll",
		"CreateTemp": "__vsim.CreateTemp", "Getenv": "__vsim.Getenv", "LookupEnv": "__vsim.LookupEnv", "Chmod": "__vsim.Chmod", "UserHomeDir": "__vsim.UserHomeDir", "UserCacheDir": "__vsim.UserCacheDir", "File": "__vsim.File",
	},
	"time": {"Sleep": "__vsim.SleepD", "AfterFunc": "__vsim.AfterFunc"},
}

var keepalive = map[string]string{
	"net": "var _ %s.Addr", "crypto/tls": "var _ = %s.VersionTLS10", "crypto/rsa": "var _ = %s.ErrVerification",
	"os": "var _ = %s.ErrNotExist", "time": "var _ = %s.Second",
	"runtime": "var _ = %s.GOOS", "io/ioutil": "var _ = %s.Discard",
}

func main() {
	repo, out, overlayPath := os.Args[1], os.Args[2], os.Args[3]
	overlay := map[string]string{}
	mapRanges, states := analyse(repo, os.Args[4])
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if fi.IsDir() {
			if rel == ".git" || rel == "examples" || strings.HasPrefix(fi.Name(), "_") || fi.Name() == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		res, err := rewrite(p, rel, mapRanges, states[p])
		if err != nil {
			return fmt.Errorf("%s: %w", rel, err)
		}
		dst := filepath.Join(out, rel)
		if err = os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return err
		}
		overlay[p] = dst
		return os.WriteFile(dst, res, 0o644)
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(2)
	}
	for _, a := range os.Args[5:] {
		i := strings.IndexByte(a, '=')
		if a[0] == '+' {
			// a package from outside of the repository
			if err = foreign(a[1:i], a[i+1:], out, overlay); err != nil {
				fmt.Fprintln(os.Stderr, "instrument:", err)
				os.Exit(2)
			}
			continue
		}
		overlay[a[:i]] = a[i+1:]
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err = os.WriteFile(overlayPath, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(2)
	}
	t, _ := json.Marshal(total)
	fmt.Println(string(t))
}

// foreign instruments a single package of another module.
func foreign(dir, rel, out string, overlay map[string]string) error {
	files, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return err
	}
	if err = os.MkdirAll(filepath.Join(out, "+", rel), 0o755); err != nil {
		return err
	}
	for _, p := range files {
		if strings.HasSuffix(p, "_test.go") {
			continue
		}
		name := filepath.Join("+", rel, filepath.Base(p))
		res, err := rewrite(p, rel+"/"+filepath.Base(p), map[string]bool{}, nil)
		if err != nil {
			return fmt.Errorf("%s: %w", p, err)
		}
		dst := filepath.Join(out, name)
		overlay[p] = dst
		if err = os.WriteFile(dst, res, 0o644); err != nil {
			return err
		}
	}
	return nil
}

// initial is how a package-level variable gets its initial value.
type initial struct {
	pkg      string
	order    int
	names    string
	from, to int // the expression; none: the zero value
	call     string
	at       int
}

// analyse tells by "file:offset" which range statements iterate over maps and channels, and
// by file how the state of packages is initialised.
func analyse(repo, exports string) (map[string]bool, map[string][]initial) {
	found := map[string]bool{}
	states := map[string][]initial{}
	var later []func()
	touched := map[string]bool{} // "package.variable" which something is assigned to
	files := map[string]string{}
	b, err := os.ReadFile(exports)
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(2)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.IndexByte(l, '='); i > 0 {
			files[l[:i]] = l[i+1:]
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) { return os.Open(files[path]) })
	dirs := map[string][]string{}
	_ = filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.IsDir() && fi.Name() == ".git" {
			return filepath.SkipDir
		}
		if err == nil && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			dirs[filepath.Dir(p)] = append(dirs[filepath.Dir(p)], p)
		}
		return nil
	})
	for dir, names := range dirs {
		var fs []*ast.File
		for _, n := range names {
			if f, err := parser.ParseFile(fset, n, nil, parser.ParseComments); err == nil {
				fs = append(fs, f)
			}
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
		cfg := types.Config{Importer: imp, Error: func(error) {}}
		if pkg, err := cfg.Check(dir, fset, fs, info); err == nil {
			dir, fs := dir, fs
			findTouched(fs, info, touched)
			later = append(later, func() { findState(dir, fset, fs, pkg, info, touched, states) })
		}
		for _, f := range fs {
			if os.Getenv("VERIF_WHOLE_STATEMENTS") == "" {
				findShared(f, fset, info, found)
			}
			ast.Inspect(f, func(n ast.Node) bool {
				if x, ok := n.(*ast.RangeStmt); ok {
					if tv, ok := info.Types[x.X]; ok && tv.Type != nil {
						if _, ok = tv.Type.Underlying().(*types.Chan); ok {
							p := fset.Position(x.Pos())
							found[fmt.Sprintf("chan:%s:%d", p.Filename, p.Offset)] = true
						} else if m, ok := tv.Type.Underlying().(*types.Map); ok {
							if !plainKey(m.Key()) {
								return true
							}
							p := fset.Position(x.Pos())
							found[fmt.Sprintf("%s:%d", p.Filename, p.Offset)] = true
						} else if tp, ok := tv.Type.(*types.TypeParam); ok {
							if _, ok = tp.Constraint().Underlying().(*types.Map); ok {
								p := fset.Position(x.Pos())
								found[fmt.Sprintf("%s:%d", p.Filename, p.Offset)] = true
							}
						}
					}
				}
				return true
			})
		}
	}
	for _, f := range later {
		f()
	}
	return found, states
}

// plainKey tells whether a type satisfies comparable in every version of the language.
func plainKey(t types.Type) bool {
	if _, ok := t.(*types.TypeParam); ok {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return false
	case *types.Array:
		return plainKey(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !plainKey(u.Field(i).Type()) {
				return false
			}
		}
	}
	return true
}

// findShared notes operations which are not atomic, whoever may interfere with them: reading from
// and writing to maps ("mr:", "mw:"), and modifications of what is not local ("rmw:").
func findShared(f *ast.File, fset *token.FileSet, info *types.Info, found map[string]bool) {
	key := func(kind string, n ast.Node) string {
		p := fset.Position(n.Pos())
		return fmt.Sprintf("%s:%s:%d:%d", kind, p.Filename, p.Offset, fset.Position(n.End()).Offset)
	}
	isMap := func(e ast.Expr) bool {
		tv, ok := info.Types[e]
		if !ok || tv.Type == nil {
			return false
		}
		if _, ok = tv.Type.(*types.TypeParam); ok {
			return false
		}
		m, ok := tv.Type.Underlying().(*types.Map)
		return ok && plainKey(m.Key())
	}
	// calm tells whether an expression runs no other code
	calm := func(es ...ast.Expr) bool {
		ok := true
		for _, e := range es {
			if e == nil {
				continue
			}
			ast.Inspect(e, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.CallExpr:
					tv := info.Types[x.Fun]
					id, _ := unparen(x.Fun).(*ast.Ident)
					ok = ok && (tv.IsType() || tv.IsBuiltin() && id != nil && (id.Name == "append" || id.Name == "len" || id.Name == "cap"))
				case *ast.FuncLit:
					ok = false
				case *ast.UnaryExpr:
					ok = ok && x.Op != token.ARROW
				}
				return true
			})
		}
		return ok
	}
	var funcs []ast.Node // the enclosing ones
	shared := func(e ast.Expr) bool {
		switch x := unparen(e).(type) {
		case *ast.Ident:
			v, ok := info.Uses[x].(*types.Var)
			if !ok || x.Name == "_" {
				return false
			}
			in := funcs[len(funcs)-1]
			return v.Pos() < in.Pos() || v.Pos() > in.End()
		case *ast.SelectorExpr, *ast.StarExpr:
			return true
		case *ast.IndexExpr:
			return !isMap(x.X)
		}
		return false
	}
	writes := map[ast.Expr]bool{}
	write := func(e ast.Expr, others ...ast.Expr) {
		if x, ok := unparen(e).(*ast.IndexExpr); ok && isMap(x.X) {
			writes[x] = true
			if calm(append(others, x.Index)...) {
				found[key("mw", x)] = true
			}
		}
	}
	text := func(e ast.Expr) string { return types.ExprString(e) }
	var visit func(n ast.Node) bool
	walk := func(n ast.Node) { ast.Inspect(n, visit) }
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Body != nil {
				funcs = append(funcs, x)
				walk(x.Body)
				funcs = funcs[:len(funcs)-1]
			}
			return false
		case *ast.FuncLit:
			funcs = append(funcs, x)
			walk(x.Body)
			funcs = funcs[:len(funcs)-1]
			return false
		case *ast.IncDecStmt:
			write(x.X)
			if len(funcs) > 0 && shared(x.X) && calm(x.X) {
				found[key("rmw", x)] = true
			}
		case *ast.AssignStmt:
			if i, ok := unparen(x.Lhs[0]).(*ast.IndexExpr); ok && x.Tok == token.ASSIGN && len(x.Lhs) == 1 && len(x.Rhs) == 1 && i == x.Lhs[0] && isMap(i.X) {
				writes[i] = true
				found[key("mp", x)] = true
				break
			}
			for _, l := range x.Lhs {
				write(l, x.Rhs...)
			}
			if len(x.Lhs) != 1 || len(x.Rhs) != 1 || len(funcs) == 0 || !shared(x.Lhs[0]) || !calm(x.Lhs[0], x.Rhs[0]) {
				break
			}
			switch x.Tok {
			case token.DEFINE:
			case token.ASSIGN:
				l, r := info.Types[x.Lhs[0]].Type, info.Types[x.Rhs[0]].Type
				same := l != nil && r != nil && types.Identical(l, r)
				again := false
				ast.Inspect(x.Rhs[0], func(n ast.Node) bool {
					if e, ok := n.(ast.Expr); ok && text(e) == text(x.Lhs[0]) {
						again = true
					}
					return true
				})
				if same && again {
					found[key("rmw", x)] = true
				}
			default:
				found[key("rmw", x)] = true
			}
		case *ast.CallExpr:
			if id, ok := unparen(x.Fun).(*ast.Ident); ok && info.Types[x.Fun].IsBuiltin() && (id.Name == "delete" || id.Name == "clear") && len(x.Args) > 0 && isMap(x.Args[0]) && calm(x.Args...) {
				found[key("mw", x)] = true
			}
		case *ast.IndexExpr:
			if isMap(x.X) && !writes[x] {
				found[key("mr", x)] = true
			}
		}
		return true
	}
	walk(f)
}

// findTouched notes the variables which are assigned to or whose address is taken.
func findTouched(fs []*ast.File, info *types.Info, touched map[string]bool) {
	var root func(e ast.Expr)
	root = func(e ast.Expr) {
		switch x := unparen(e).(type) {
		case *ast.Ident:
			if v, ok := info.Uses[x].(*types.Var); ok && v.Pkg() != nil {
				touched[v.Pkg().Name()+"."+v.Name()] = true
			}
		case *ast.SelectorExpr:
			root(x.X)
			root(x.Sel)
		case *ast.IndexExpr:
			root(x.X)
		case *ast.SliceExpr:
			root(x.X)
		case *ast.StarExpr:
			root(x.X)
		}
	}
	for _, f := range fs {
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					root(l)
				}
			case *ast.IncDecStmt:
				root(x.X)
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					root(x.X)
				}
			case *ast.SliceExpr:
				root(x.X)
			case *ast.RangeStmt:
				if x.Tok == token.ASSIGN {
					root(x.Key)
					if x.Value != nil {
						root(x.Value)
					}
				}
			}
			return true
		})
	}
}

// stateful tells whether a value of that type can be changed without being assigned to.
func stateful(t types.Type, depth int) bool {
	if n, ok := t.(*types.Named); ok {
		for i := 0; i < n.NumMethods(); i++ {
			if s, ok := n.Method(i).Type().(*types.Signature); ok && s.Recv() != nil {
				if _, ok = s.Recv().Type().(*types.Pointer); ok {
					return true
				}
			}
		}
	}
	if depth > 8 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Chan, *types.Map, *types.Slice, *types.Pointer, *types.Signature:
		return true
	case *types.Array:
		return stateful(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if stateful(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

// findState notes the package-level variables which may keep something from one run to the
// next one, so that every run can begin with those of a process which has just been started.
func findState(dir string, fset *token.FileSet, fs []*ast.File, pkg *types.Package, info *types.Info, touched map[string]bool, states map[string][]initial) {
	wanted := func(v *types.Var) bool {
		return v.Name() != "_" && (touched[pkg.Name()+"."+v.Name()] || stateful(v.Type(), 0))
	}
	skip := map[string]bool{}
	for _, f := range fs {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				v := s.(*ast.ValueSpec)
				for _, doc := range []*ast.CommentGroup{g.Doc, v.Doc} {
					if doc == nil {
						continue
					}
					for _, c := range doc.List {
						if strings.HasPrefix(c.Text, "//go:") {
							for _, n := range v.Names {
								skip[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	set := map[string]bool{}
	for i, in := range info.InitOrder {
		var names []string
		want := false
		for _, v := range in.Lhs {
			set[v.Name()] = true
			names = append(names, v.Name())
			want = want || wanted(v) && !skip[v.Name()]
		}
		if !want {
			continue
		}
		from, to := fset.Position(in.Rhs.Pos()), fset.Position(in.Rhs.End())
		states[from.Filename] = append(states[from.Filename], initial{pkg: dir, order: i + 1, names: strings.Join(names, ", "), from: from.Offset, to: to.Offset})
	}
	for _, name := range pkg.Scope().Names() {
		if v, ok := pkg.Scope().Lookup(name).(*types.Var); ok && !set[name] && !skip[name] && wanted(v) {
			f := fset.Position(v.Pos()).Filename
			states[f] = append(states[f], initial{pkg: dir, names: name})
		}
	}
	// functions called init run once more
	sort.Slice(fs, func(i, j int) bool { return fset.Position(fs[i].Pos()).Filename < fset.Position(fs[j].Pos()).Filename })
	n := 0
	for _, f := range fs {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				n++
				p := fset.Position(fd.Name.Pos())
				states[p.Filename] = append(states[p.Filename], initial{pkg: dir, order: 1<<20 + n, call: fmt.Sprintf("__vinit%d", n), at: p.Offset})
			}
		}
	}
}

func rewrite(path, rel string, mapRanges map[string]bool, state []initial) ([]byte, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	r := &rewriter{fset: fset, src: src, file: f, rel: rel, imports: map[string]string{}, keep: map[string]bool{}, inComm: map[ast.Node]bool{}, skip: map[ast.Node]bool{}}
	tlsUsed := false
	for _, imp := range f.Imports {
		p, _ := strconv.Unquote(imp.Path.Value)
		name := p[strings.LastIndexByte(p, '/')+1:]
		if imp.Name != nil {
			name = imp.Name.Name
		}
		if p == "C" {
			return src, nil
		}
		r.imports[name] = p
		if p == "sync" && name != "_" && name != "." {
			text := `"verif.local/sim/simsync"`
			if imp.Name == nil {
				text = "sync " + text
			}
			r.replace(imp.Path.Pos(), imp.Path.End(), text)
			total["sync-imports"]++
		}
	}
	// communication clauses of select keep their operations
	ast.Inspect(f, func(n ast.Node) bool {
		if cc, ok := n.(*ast.CommClause); ok && cc.Comm != nil {
			ast.Inspect(cc.Comm, func(m ast.Node) bool {
				switch x := m.(type) {
				case *ast.SendStmt:
					r.inComm[x] = true
				case *ast.UnaryExpr:
					if x.Op == token.ARROW {
						r.inComm[x] = true
						return true
					}
				case *ast.FuncLit:
					return false
				}
				return true
			})
		}
		return true
	})
	ok2 := map[ast.Node]bool{}
	var selects []*ast.SelectStmt
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			if r.noted(mapRanges, path, x, "mp") != "" {
				i := x.Lhs[0].(*ast.IndexExpr)
				r.insert(x.Pos(), "__vsim.MPut(")
				r.replace(i.X.End(), i.Index.Pos(), ")(")
				r.replace(i.Index.End(), x.Rhs[0].Pos(), ", ")
				r.insert(x.Rhs[0].End(), ")")
				total["map-mw"]++
			}
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					ok2[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := unparen(x.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					ok2[u] = true
				}
			}
		case *ast.BlockStmt:
			r.list(mapRanges, path, x.List)
		case *ast.CaseClause:
			r.list(mapRanges, path, x.Body)
		case *ast.CommClause:
			r.list(mapRanges, path, x.Body)
		case *ast.RangeStmt:
			if mapRanges[fmt.Sprintf("%s:%d", path, r.off(x.Pos()))] {
				r.mapRange(x)
			} else if mapRanges[fmt.Sprintf("chan:%s:%d", path, r.off(x.Pos()))] {
				r.chanRange(x)
			}
		case *ast.SelectStmt:
			selects = append(selects, x)
		case *ast.IndexExpr:
			if kind := r.noted(mapRanges, path, x, "mr", "mw"); kind != "" {
				r.insert(x.X.Pos(), "__vsim."+strings.ToUpper(kind)+"(")
				r.insert(x.X.End(), ")")
				total["map-"+kind]++
			}
		case *ast.CallExpr:
			if r.noted(mapRanges, path, x, "mw") != "" {
				r.insert(x.Args[0].Pos(), "__vsim.MW(")
				r.insert(x.Args[0].End(), ")")
				total["map-mw"]++
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !r.inComm[x] {
				fn := "__vsim.Recv("
				if ok2[x] {
					fn = "__vsim.Recv2("
				}
				r.replace(x.OpPos, x.X.Pos(), fn)
				r.insert(x.End(), ")")
				total["receives"]++
			}
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok || id.Obj != nil {
				break
			}
			p := r.imports[id.Name]
			if to := seams[p][x.Sel.Name]; to != "" {
				r.replace(x.Pos(), x.End(), to)
				r.keep[id.Name] = true
				if strings.HasPrefix(to, "__vsimtls") {
					tlsUsed = true
				}
				total["seam:"+p+"."+x.Sel.Name]++
			}
		}
		return true
	})
	for i := len(selects) - 1; i >= 0; i-- {
		r.selectStmt(selects[i])
	}
	header := `; import __vsim "verif.local/sim"`
	if tlsUsed {
		header += `; import __vsimtls "verif.local/sim/simtls"`
	}
	r.insert(f.Name.End(), header)
	var inits []string
	for _, s := range state {
		total["state-resets"]++
		switch {
		case s.call != "":
			r.edits = append(r.edits, edit{s.at, s.at + len("init"), s.call, len(r.edits)})
			inits = append(inits, fmt.Sprintf("func init() { %s(); __vsim.AtRun(%q, %d, %s) }", s.call, s.pkg, s.order, s.call))
		case s.to > 0:
			inits = append(inits, fmt.Sprintf("func init() { __vsim.AtRun(%q, %d, func() { %s = %s }) }", s.pkg, s.order, s.names, r.applied(s.from, s.to)))
		default:
			inits = append(inits, fmt.Sprintf("func init() { __vsim.AtRun(%q, %d, func() { __vsim.Zero(&%s) }) }", s.pkg, s.order, s.names))
		}
	}
	res := r.apply()
	if len(inits) > 0 {
		res = append(res, ("\n" + strings.Join(inits, "\n") + "\n")...)
	}
	res = append(res, "\nvar _ = __vsim.Y\n"...)
	names := make([]string, 0, len(r.keep))
	for n := range r.keep {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		res = append(res, fmt.Sprintf(keepalive[r.imports[n]]+"\n", n)...)
	}
	return res, nil
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }

func (r *rewriter) insert(p token.Pos, text string) { r.replace(p, p, text) }

func (r *rewriter) replace(p, e token.Pos, text string) {
	r.edits = append(r.edits, edit{r.off(p), r.off(e), text, len(r.edits)})
}

// noted tells which of the kinds of operations a node is.
func (r *rewriter) noted(found map[string]bool, path string, n ast.Node, kinds ...string) string {
	for _, k := range kinds {
		if !r.skip[n] && found[fmt.Sprintf("%s:%s:%d:%d", k, path, r.off(n.Pos()), r.off(n.End()))] {
			return k
		}
	}
	return ""
}

// modify splits a modification into reading and writing.
func (r *rewriter) modify(s ast.Stmt) {
	total["modifications"]++
	const between = "; __vsim.Y(); "
	// the left side is copied as it is
	left := func(e ast.Expr) string {
		ast.Inspect(e, func(n ast.Node) bool {
			r.skip[n] = n != nil
			return true
		})
		return string(r.src[r.off(e.Pos()):r.off(e.End())])
	}
	switch x := s.(type) {
	case *ast.IncDecStmt:
		l := left(x.X)
		r.replace(x.Pos(), x.End(), fmt.Sprintf("{ __vw := %s%s%s = __vw %s 1 }", l, between, l, x.Tok.String()[:1]))
	case *ast.AssignStmt:
		l := left(x.Lhs[0])
		if x.Tok == token.ASSIGN {
			r.replace(x.Pos(), x.Rhs[0].Pos(), "{ __vw := ")
			r.insert(x.Rhs[0].End(), between+l+" = __vw }")
			return
		}
		r.replace(x.Pos(), x.Rhs[0].Pos(), fmt.Sprintf("{ __vw := %s %s (", l, strings.TrimSuffix(x.Tok.String(), "=")))
		r.insert(x.Rhs[0].End(), ")"+between+l+" = __vw }")
	}
}

func (r *rewriter) list(found map[string]bool, path string, stmts []ast.Stmt) {
	for _, s := range stmts {
		switch x := s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		case *ast.SendStmt:
			if !r.inComm[x] {
				r.insert(s.Pos(), "__vsim.Y(); select { case ")
				r.insert(s.End(), ": __vsim.YB(); case <-__vsim.PoisonC(): __vsim.Die() }")
				total["sends"]++
				continue
			}
		case *ast.GoStmt:
			r.insert(s.Pos(), "__vsim.Y(); ")
			r.goStmt(x)
			continue
		}
		total["yield-points"]++
		r.insert(s.Pos(), "__vsim.Y(); ")
		if r.noted(found, path, s, "rmw") != "" {
			r.modify(s)
		}
	}
}

func (r *rewriter) goStmt(g *ast.GoStmt) {
	call := g.Call
	if id, ok := call.Fun.(*ast.Ident); ok && id.Obj == nil {
		switch id.Name {
		case "close", "panic", "print", "println", "delete", "copy", "append":
			return
		}
	}
	total["go-statements"]++
	pos := r.fset.Position(g.Pos())
	name := fmt.Sprintf("%s:%d", r.rel, pos.Line)
	if id, ok := call.Fun.(*ast.SelectorExpr); ok {
		name = r.rel + ":" + id.Sel.Name
	} else if id, ok := call.Fun.(*ast.Ident); ok {
		name = r.rel + ":" + id.Name
	}
	r.replace(g.Pos(), call.Fun.Pos(), "func() { __vf := ")
	r.replace(call.Lparen, call.Lparen+1, "; ")
	var args []string
	for i, a := range call.Args {
		inline := false
		switch x := a.(type) {
		case *ast.BasicLit:
			inline = true
		case *ast.Ident:
			inline = x.Name == "nil" || x.Name == "true" || x.Name == "false"
		}
		var end token.Pos
		if i+1 < len(call.Args) {
			end = call.Args[i+1].Pos()
		} else {
			end = call.Rparen
		}
		if inline {
			args = append(args, string(r.src[r.off(a.Pos()):r.off(a.End())]))
			r.replace(a.Pos(), end, "")
			continue
		}
		v := fmt.Sprintf("__va%d", i)
		r.insert(a.Pos(), v+" := ")
		r.replace(a.End(), end, "; ")
		if call.Ellipsis.IsValid() && i+1 == len(call.Args) {
			v += "..."
		}
		args = append(args, v)
	}
	r.replace(call.Rparen, call.Rparen+1, fmt.Sprintf("; __vsim.Go(%q, func() { __vf(%s) }) }()", name, strings.Join(args, ", ")))
}

// mapRange makes the order of iteration a decision of the simulator. Loop variables stay
// shared between iterations.
func (r *rewriter) mapRange(s *ast.RangeStmt) {
	text := func(e ast.Expr) string {
		if e == nil {
			return "_"
		}
		return string(r.src[r.off(e.Pos()):r.off(e.End())])
	}
	k, v := text(s.Key), text(s.Value)
	ref := func(t string) string {
		if t == "_" {
			return "nil"
		}
		return "&" + t
	}
	if s.Tok == token.DEFINE {
		r.replace(s.For, s.X.Pos(), fmt.Sprintf("for %s, %s, __vit := __vsim.MapIter(", k, v))
	} else {
		r.replace(s.For, s.X.Pos(), "for _, _, __vit := __vsim.MapIter(")
	}
	r.insert(s.X.End(), fmt.Sprintf("); __vit.Next(%s, %s); ", ref(k), ref(v)))
	total["map-iterations"]++
}

// chanRange turns an iteration over a channel into receives.
func (r *rewriter) chanRange(s *ast.RangeStmt) {
	r.replace(s.For, s.X.Pos(), "for __vch := (")
	r.insert(s.X.End(), "); ; ")
	k := "_"
	if s.Key != nil {
		k = string(r.src[r.off(s.Key.Pos()):r.off(s.Key.End())])
	}
	text := fmt.Sprintf(" %s, __vok := __vsim.Recv2(__vch); if !__vok { break };", k)
	if s.Tok == token.ASSIGN {
		text = fmt.Sprintf(" var __vok bool; %s, __vok = __vsim.Recv2(__vch); if !__vok { break };", k)
	}
	r.insert(s.Body.Lbrace+1, text)
	total["receives"]++
}

// drawnSelect turns a select into a switch over the case the simulator has drawn of those
// which are ready.
func (r *rewriter) drawnSelect(s *ast.SelectStmt) {
	hasDefault := false
	var names, inits []string
	type repl struct {
		from, to token.Pos
		text     string
	}
	var repls []repl
	src := func(e ast.Expr) string { return string(r.applied(r.off(e.Pos()), r.off(e.End()))) }
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			continue
		}
		name := fmt.Sprintf("__vs%d", len(names))
		text := fmt.Sprintf("case %d: ", len(names))
		recv := func(e ast.Expr) {
			inits = append(inits, "__vsim.RC("+src(unparen(e).(*ast.UnaryExpr).X)+")")
		}
		switch x := cc.Comm.(type) {
		case *ast.SendStmt:
			inits = append(inits, "__vsim.SC("+src(x.Chan)+")("+src(x.Value)+")")
		case *ast.ExprStmt:
			recv(x.X)
		case *ast.AssignStmt:
			recv(x.Rhs[0])
			text += src(x.Lhs[0])
			if len(x.Lhs) > 1 {
				text += ", " + src(x.Lhs[1])
			}
			text += " " + x.Tok.String() + " " + name + ".V"
			if len(x.Lhs) > 1 {
				text += ", " + name + ".OK"
			}
			text += "; "
		}
		names = append(names, name)
		repls = append(repls, repl{cc.Case, cc.Colon + 1, text})
	}
	r.replace(s.Select, s.Body.Lbrace+1, fmt.Sprintf("switch %s := %s; __vsim.Select(%v, %s) {", strings.Join(names, ", "), strings.Join(inits, ", "), hasDefault, strings.Join(names, ", ")))
	for _, p := range repls {
		r.replace(p.from, p.to, p.text)
	}
	if !hasDefault {
		r.insert(s.Body.Rbrace, ` default: panic("unreachable"); `)
	}
	total["selects"]++
}

func (r *rewriter) selectStmt(s *ast.SelectStmt) {
	comms := 0
	for _, c := range s.Body.List {
		if c.(*ast.CommClause).Comm != nil {
			comms++
		}
	}
	if comms > 1 && os.Getenv("VERIF_WHOLE_STATEMENTS") == "" {
		r.drawnSelect(s)
		return
	}
	hasDefault := false
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			continue
		}
		r.insert(cc.Colon+1, " __vsim.YB(); ")
	}
	total["selects"]++
	if !hasDefault {
		r.insert(s.Body.Lbrace+1, ` case <-__vsim.PoisonC(): __vsim.Die(); panic("unreachable");`)
	}
}

func (r *rewriter) apply() []byte { return r.applied(0, len(r.src)) }

// applied is a part of the source with the edits in it.
func (r *rewriter) applied(from, to int) []byte {
	sort.SliceStable(r.edits, func(i, j int) bool {
		if r.edits[i].pos != r.edits[j].pos {
			return r.edits[i].pos < r.edits[j].pos
		}
		// of edits at the same place, insertions registered first come first, and
		// pure insertions come before replacements
		a, b := r.edits[i], r.edits[j]
		if (a.pos == a.end) != (b.pos == b.end) {
			return a.pos == a.end
		}
		return a.seq < b.seq
	})
	var out []byte
	last := from
	for _, e := range r.edits {
		if e.pos < from || e.end > to {
			continue
		}
		if e.pos < last {
			if e.end <= last {
				continue // inside a replaced region
			}
			continue
		}
		out = append(out, r.src[last:e.pos]...)
		out = append(out, e.text...)
		last = e.end
	}
	return append(out, r.src[last:to]...)
}
