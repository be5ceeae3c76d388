// Command instr writes an instrumented copy of the tcpx package (and of packages of the same module it imports) in
// which every source of nondeterminism goes to the simulator.
//
//	instr -repo /repo -modfile M -out DIR
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

const simPath = "github.com/fwhezfwhez/tcpx/zsim"

// replacements of package-level functions and types
var table = map[string]map[string]string{
	"sync":         {"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once", "Cond": "Cond", "NewCond": "NewCond", "Map": "Map", "Pool": "Pool", "OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues"},
	"time":         {"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep", "After": "After", "AfterFunc": "AfterFunc", "NewTimer": "NewTimer", "NewTicker": "NewTicker", "Tick": "Tick", "Timer": "Timer", "Ticker": "Ticker"},
	"net":          {"Listen": "Listen", "ListenPacket": "ListenPacket", "Dial": "Dial", "DialTimeout": "DialTimeout", "ListenConfig": "ListenConfig", "Dialer": "Dialer", "Pipe": "Pipe", "TCPConn": "TCPConn", "UnixConn": "UnixConn", "UDPConn": "UDPConn", "TCPListener": "TCPListener", "UnixListener": "UnixListener", "ListenTCP": "ListenTCP", "ListenUnix": "ListenUnix", "ListenUDP": "ListenUDP", "Buffers": "Buffers"},
	"crypto/tls":   {"Listen": "TLSListen", "NewListener": "TLSNewListener", "Conn": "TLSConn", "Server": "TLSServer"},
	"os":           {"Exit": "Exit"},
	"os/signal":    {"Notify": "SignalNotify", "Stop": "SignalStop", "Ignore": "SignalIgnore", "Reset": "SignalReset", "NotifyContext": "SignalNotifyContext"},
	"runtime":      {"Gosched": "Gosched", "Goexit": "Goexit", "NumGoroutine": "NumGoroutine"},
	"context":      {"WithCancel": "CtxWithCancel", "WithTimeout": "CtxWithTimeout", "WithDeadline": "CtxWithDeadline", "WithCancelCause": "CtxWithCancelCause", "Cause": "CtxCause", "AfterFunc": "CtxAfterFunc", "WithoutCancel": "CtxWithoutCancel", "WithDeadlineCause": "CtxWithDeadlineCause", "WithTimeoutCause": "CtxWithTimeoutCause"},
	"fmt":          {"Print": "Print", "Println": "Println", "Printf": "Printf"},
	"log":          {"Fatal": "LogFatal", "Fatalf": "LogFatalf", "Fatalln": "LogFatalln"},
	"math/rand":    {"Int": "RandInt", "Intn": "RandIntn", "Int31": "RandInt31", "Int31n": "RandInt31n", "Int63": "RandInt63", "Int63n": "RandInt63n", "Float64": "RandFloat64", "Perm": "RandPerm", "Shuffle": "RandShuffle", "Seed": "RandSeed", "Uint32": "RandUint32", "Uint64": "RandUint64"},
	"math/rand/v2": {"Int": "RandInt", "IntN": "RandIntn", "Int32": "RandInt31", "Int32N": "RandInt31n", "Int64": "RandInt63", "Int64N": "RandInt63n", "Float64": "RandFloat64", "Perm": "RandPerm", "Shuffle": "RandShuffle", "Uint32": "RandUint32", "Uint64": "RandUint64"},
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	ImportMap  map[string]string
	Module     *struct {
		Main            bool
		Path, GoVersion string
	}
	Standard bool
	DepOnly  bool
	Error    *struct{ Err string }
}

var sites []string

type rw struct {
	fset                    *token.FileSet
	info                    *types.Info
	pkg                     *types.Package
	used                    bool
	tmp                     int
	lhs                     map[ast.Expr]bool
	two                     map[ast.Expr]bool
	newLV                   bool
	counts                  map[string]int
	gotos, breaks, jumpDone map[types.Object]bool
}

func main() {
	repo := flag.String("repo", "/repo", "")
	modfile := flag.String("modfile", "", "")
	out := flag.String("out", "", "")
	flag.Parse()
	args := []string{"list", "-deps", "-export", "-json=ImportPath,Dir,Export,GoFiles,CgoFiles,ImportMap,Module,Standard,DepOnly,Error"}
	args = append(args, "-mod=mod", "-modfile="+*modfile, ".")
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(o))
	exports := map[string]string{}
	var mine []*listPkg
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("%v", err)
		}
		if p.Error != nil {
			fatal("%s: %s", p.ImportPath, p.Error.Err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			mine = append(mine, p)
		}
	}
	root := mine[len(mine)-1]
	var resets []string
	for _, p := range mine {
		rel, err := filepath.Rel(root.Dir, p.Dir)
		if err != nil {
			fatal("%v", err)
		}
		dst := filepath.Join(*out, rel)
		if err := os.MkdirAll(dst, 0o755); err != nil {
			fatal("%v", err)
		}
		instrument(p, exports, dst)
		resets = append(resets, p.ImportPath)
	}
	// site table
	var b bytes.Buffer
	fmt.Fprintf(&b, "package zsim\n\nfunc init() { RegisterSites([]string{\n")
	for _, s := range sites {
		fmt.Fprintf(&b, "%q,\n", s)
	}
	fmt.Fprintf(&b, "}) }\n")
	if err := os.MkdirAll(filepath.Join(*out, "zsim"), 0o755); err != nil {
		fatal("%v", err)
	}
	os.WriteFile(filepath.Join(*out, "zsim", "zz_sites.go"), b.Bytes(), 0o644)
	os.WriteFile(filepath.Join(*out, "zsim", "package.list"), []byte(strings.Join(resets, "\n")+"\n"), 0o644)
}

func goMinor(v string) int {
	parts := strings.Split(strings.TrimPrefix(v, "go"), ".")
	if len(parts) < 2 {
		return 0
	}
	n := 0
	for _, c := range parts[1] {
		if c < '0' || c > '9' {
			break
		}
		n = n*10 + int(c-'0')
	}
	return n
}

func instrument(p *listPkg, exports map[string]string, dst string) {
	if len(p.CgoFiles) > 0 {
		fatal("cgo files in %s", p.ImportPath)
	}
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range p.GoFiles {
		a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, a)
	}
	lookup := func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	}
	gv := ""
	newLV := false
	if p.Module.GoVersion != "" {
		gv = "go" + p.Module.GoVersion
		newLV = goMinor(p.Module.GoVersion) >= 22
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup), GoVersion: gv}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}}
	pkg, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		fatal("type check: %v", err)
	}
	// remember where initialisers are
	type initAt struct {
		file *ast.File
		spec *ast.ValueSpec
		idx  int
	}
	at := map[ast.Expr]initAt{}
	var zero []struct {
		file *ast.File
		name *ast.Ident
		spec *ast.ValueSpec // its type is rewritten in place
	}
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				for i, v := range vs.Values {
					at[v] = initAt{f, vs, i}
				}
				if len(vs.Values) == 0 {
					for _, n := range vs.Names {
						if n.Name != "_" {
							zero = append(zero, struct {
								file *ast.File
								name *ast.Ident
								spec *ast.ValueSpec
							}{f, n, vs})
						}
					}
				}
			}
		}
	}
	var inits []initAt
	var lhss [][]string
	for _, in := range info.InitOrder {
		a, ok := at[in.Rhs]
		if !ok {
			fatal("initialiser not found")
		}
		var names []string
		for _, v := range in.Lhs {
			names = append(names, v.Name())
		}
		inits = append(inits, a)
		lhss = append(lhss, names)
	}
	r := &rw{fset: fset, info: info, pkg: pkg, lhs: map[ast.Expr]bool{}, two: map[ast.Expr]bool{}, newLV: newLV, counts: map[string]int{},
		gotos: map[types.Object]bool{}, breaks: map[types.Object]bool{}, jumpDone: map[types.Object]bool{}}
	for _, f := range files {
		r.scanLabels(f)
	}
	for _, f := range files {
		r.file(f)
	}
	// reset functions
	extra := map[*ast.File][]string{}
	var calls []string
	text := func(n any) string {
		var b bytes.Buffer
		if err := (&printer.Config{Mode: printer.RawFormat}).Fprint(&b, token.NewFileSet(), n); err != nil {
			fatal("%v", err)
		}
		return b.String()
	}
	n := 0
	for _, z := range zero {
		n++
		fn := fmt.Sprintf("__simreset_%d", n)
		extra[z.file] = append(extra[z.file], fmt.Sprintf("func %s() { var z %s; %s = z }", fn, text(z.spec.Type), z.name.Name))
		calls = append(calls, fn)
	}
	for i, a := range inits {
		n++
		fn := fmt.Sprintf("__simreset_%d", n)
		extra[a.file] = append(extra[a.file], fmt.Sprintf("func %s() { %s = %s }", fn, strings.Join(lhss[i], ", "), text(a.spec.Values[a.idx])))
		calls = append(calls, fn)
	}
	for _, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if ok && fd.Recv == nil && fd.Name.Name == "init" {
				n++
				fn := fmt.Sprintf("__siminit_%d", n)
				fd.Name = ast.NewIdent(fn)
				calls = append(calls, fn)
				extra[f] = append(extra[f], fmt.Sprintf("func init() { %s() }", fn))
			}
		}
	}
	for i, f := range files {
		r.imports(f)
		var b bytes.Buffer
		if err := format.Node(&b, fset, f); err != nil {
			// positions of moved nodes can confuse the printer: print without them
			b.Reset()
			if err := (&printer.Config{Mode: printer.RawFormat}).Fprint(&b, token.NewFileSet(), f); err != nil {
				fatal("%v", err)
			}
		}
		for _, e := range extra[f] {
			fmt.Fprintf(&b, "\n%s\n", e)
		}
		if err := os.WriteFile(filepath.Join(dst, p.GoFiles[i]), b.Bytes(), 0o644); err != nil {
			fatal("%v", err)
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport __sim %q\n\nfunc init() { __sim.RegisterReset(func() {\n", pkg.Name(), simPath)
	for _, c := range calls {
		fmt.Fprintf(&b, "%s()\n", c)
	}
	fmt.Fprintf(&b, "}) }\n")
	if err := os.WriteFile(filepath.Join(dst, "zz_simreset.go"), b.Bytes(), 0o644); err != nil {
		fatal("%v", err)
	}
	var ks []string
	for k, v := range r.counts {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	fmt.Printf("instrumented %s: %d files, %s\n", p.ImportPath, len(files), strings.Join(ks, " "))
}

func (r *rw) site(pos token.Pos) ast.Expr {
	p := r.fset.Position(pos)
	sites = append(sites, fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line))
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(sites))}
}

func (r *rw) sim(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("__sim"), Sel: ast.NewIdent(name)}
}
func (r *rw) call(name string, args ...ast.Expr) *ast.CallExpr {
	r.counts[name]++
	return &ast.CallExpr{Fun: r.sim(name), Args: args}
}
func (r *rw) temp() string { r.tmp++; return fmt.Sprintf("__t%d", r.tmp) }
func define(name string, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}
func id(n string) *ast.Ident { return ast.NewIdent(n) }

func (r *rw) file(f *ast.File) {
	r.used = false
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			r.node(d)
		case *ast.GenDecl:
			if d.Tok != token.IMPORT {
				r.node(d)
			}
		}
	}
}

// imports drops imports nothing refers to any more and adds the simulator.
func (r *rw) imports(f *ast.File) {
	used := map[types.Object]bool{}
	usesSim := false
	ast.Inspect(f, func(n ast.Node) bool {
		if i, ok := n.(*ast.Ident); ok {
			if o, ok := r.info.Uses[i].(*types.PkgName); ok {
				used[o] = true
			}
			if i.Name == "__sim" {
				usesSim = true
			}
		}
		return true
	})
	var decls []ast.Decl
	if usesSim {
		decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: id("__sim"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(simPath)}}}})
	}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		var keep []ast.Spec
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			var o types.Object
			if is.Name != nil {
				o = r.info.Defs[is.Name]
			} else {
				o = r.info.Implicits[is]
			}
			if is.Name != nil && (is.Name.Name == "_" || is.Name.Name == ".") || o == nil || used[o] {
				keep = append(keep, s)
			}
		}
		if len(keep) > 0 {
			g.Specs = keep
			if len(keep) > 1 && !g.Lparen.IsValid() {
				g.Lparen = g.Pos()
			}
			decls = append(decls, g)
		}
	}
	f.Decls = decls
	f.Imports = nil
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[i]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[i]; o != nil {
			return o.Type()
		}
	}
	return nil
}
func (r *rw) isMap(e ast.Expr) *types.Map {
	t := r.typeOf(e)
	if t == nil {
		return nil
	}
	if _, ok := t.(*types.TypeParam); ok {
		return nil
	}
	m, _ := t.Underlying().(*types.Map)
	return m
}
func (r *rw) isChan(e ast.Expr) bool {
	t := r.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

var exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
var declT = reflect.TypeOf((*ast.Decl)(nil)).Elem()
var stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
var nodeT = reflect.TypeOf((*ast.Node)(nil)).Elem()

// node rewrites everything below n, which is not itself an expression or statement to be replaced.
func (r *rw) node(n ast.Node) {
	v := reflect.ValueOf(n)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return
	}
	v = v.Elem()
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if !f.CanSet() {
			continue
		}
		switch {
		case f.Type() == exprT:
			if !f.IsNil() {
				f.Set(reflect.ValueOf(r.expr(f.Interface().(ast.Expr))))
			}
		case f.Type() == stmtT:
			if !f.IsNil() {
				f.Set(reflect.ValueOf(r.oneStmt(f.Interface().(ast.Stmt))))
			}
		case f.Type() == declT:
			if !f.IsNil() {
				r.node(f.Interface().(ast.Node))
			}
		case f.Type() == reflect.TypeOf([]ast.Expr(nil)):
			for j := 0; j < f.Len(); j++ {
				e := f.Index(j)
				if !e.IsNil() {
					e.Set(reflect.ValueOf(r.expr(e.Interface().(ast.Expr))))
				}
			}
		case f.Type() == reflect.TypeOf([]ast.Stmt(nil)):
			f.Set(reflect.ValueOf(r.stmts(f.Interface().([]ast.Stmt))))
		case f.Type() == reflect.TypeOf([]ast.Spec(nil)):
			for j := 0; j < f.Len(); j++ {
				r.spec(f.Index(j).Interface().(ast.Spec))
			}
		case f.Type() == reflect.TypeOf([]*ast.Field(nil)):
			for j := 0; j < f.Len(); j++ {
				r.node(f.Index(j).Interface().(ast.Node))
			}
		case f.Type() == reflect.TypeOf((*ast.Ident)(nil)), f.Type() == reflect.TypeOf([]*ast.Ident(nil)),
			f.Type() == reflect.TypeOf((*ast.CommentGroup)(nil)), f.Type() == reflect.TypeOf((*ast.Object)(nil)), f.Type() == reflect.TypeOf((*ast.Scope)(nil)):
		case f.Kind() == reflect.Ptr && f.Type().Implements(nodeT):
			if !f.IsNil() {
				r.node(f.Interface().(ast.Node))
			}
		}
	}
	if b, ok := n.(*ast.BlockStmt); ok && b != nil {
		_ = b
	}
	switch x := n.(type) {
	case *ast.ForStmt:
		r.emptyLoop(x.Body)
	case *ast.RangeStmt:
		r.emptyLoop(x.Body)
	}
}

func (r *rw) emptyLoop(b *ast.BlockStmt) {
	if len(b.List) == 0 {
		b.List = []ast.Stmt{&ast.ExprStmt{X: r.call("Y", r.site(b.Pos()))}}
	}
}

func (r *rw) spec(s ast.Spec) {
	if vs, ok := s.(*ast.ValueSpec); ok && len(vs.Names) == 2 && len(vs.Values) == 1 {
		if u := unparen(vs.Values[0]); u != nil {
			r.two[u] = true
		}
	}
	r.node(s)
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// stmts rewrites a statement list and puts a yield point before every statement.
func (r *rw) stmts(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		switch x := s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			r.node(s)
			out = append(out, s)
			continue
		case *ast.EmptyStmt:
			out = append(out, x)
			continue
		}
		out = append(out, &ast.ExprStmt{X: r.call("Y", r.site(s.Pos()))})
		out = append(out, r.stmt(s)...)
	}
	return out
}

// oneStmt rewrites a statement in a position that holds exactly one (if/for/switch init, else branch, post).
func (r *rw) oneStmt(s ast.Stmt) ast.Stmt {
	switch s.(type) {
	case *ast.AssignStmt, *ast.IncDecStmt:
		// simple statements stay simple: an init or post position cannot hold a block
		if as, ok := s.(*ast.AssignStmt); ok {
			r.markAssign(as)
		}
		if id, ok := s.(*ast.IncDecStmt); ok {
			if ix, ok := unparen(id.X).(*ast.IndexExpr); ok {
				r.lhs[ix] = true
			}
		}
		r.node(s)
		return s
	}
	l := r.stmt(s)
	if len(l) == 1 {
		return l[0]
	}
	return &ast.BlockStmt{List: l}
}

func (r *rw) markAssign(x *ast.AssignStmt) {
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		r.two[unparen(x.Rhs[0])] = true
	}
	for _, l := range x.Lhs {
		if ix, ok := unparen(l).(*ast.IndexExpr); ok {
			r.lhs[ix] = true
		}
	}
}

func (r *rw) stmt(s ast.Stmt) []ast.Stmt {
	switch x := s.(type) {
	case *ast.BranchStmt:
		if x.Tok == token.GOTO && x.Label != nil {
			x.Label = id(x.Label.Name + "_zg")
		}
		return []ast.Stmt{x}
	case *ast.LabeledStmt:
		// a goto must not jump past what is evaluated before the statement: it gets a label of its own
		o := r.info.Defs[x.Label]
		jumped, named := r.labelUse(o)
		if jumped {
			pre := &ast.LabeledStmt{Label: id(x.Label.Name + "_zg"), Stmt: &ast.EmptyStmt{Implicit: true}}
			rest := []ast.Stmt{x}
			if named {
				r.jumpDone[o] = true
				rest = r.stmt(x)
			} else {
				rest = r.stmt(x.Stmt)
			}
			return append([]ast.Stmt{pre}, rest...)
		}
		l := r.stmt(x.Stmt)
		// the label stays with the last statement, which is the loop or switch it names
		x.Stmt = l[len(l)-1]
		l[len(l)-1] = x
		if b, ok := x.Stmt.(*ast.BlockStmt); ok && len(b.List) > 0 {
			// { prelude; switch/for }: move the label inside
			switch b.List[len(b.List)-1].(type) {
			case *ast.SwitchStmt, *ast.ForStmt, *ast.RangeStmt:
				if _, isSel := origSel[b]; isSel {
					x.Stmt = b.List[len(b.List)-1]
					b.List[len(b.List)-1] = x
					l[len(l)-1] = b
				}
			}
		}
		return l
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		if c, ok := r.expr(x.Call).(*ast.CallExpr); ok {
			x.Call = c
		}
		return []ast.Stmt{x}
	case *ast.SendStmt:
		ch, v := r.expr(x.Chan), r.expr(x.Value)
		r.counts["send"]++
		return []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: r.call("SendTo", ch), Sel: id("Do")}, Args: []ast.Expr{v}}}}
	case *ast.SelectStmt:
		return r.selectStmt(x)
	case *ast.RangeStmt:
		if m := r.isMap(x.X); m != nil {
			return r.rangeMap(x)
		}
		if r.isChan(x.X) {
			return r.rangeChan(x)
		}
	case *ast.AssignStmt:
		r.markAssign(x)
	case *ast.IncDecStmt:
		if ix, ok := unparen(x.X).(*ast.IndexExpr); ok {
			r.lhs[ix] = true
		}
	}
	shared := r.sharedAssign(s)
	r.node(s)
	if shared {
		return r.split(s)
	}
	return []ast.Stmt{s}
}

// labelUse: whether a label is the target of a goto, and whether a break or continue names it.
func (r *rw) labelUse(o types.Object) (jumped, named bool) {
	return r.gotos[o] && !r.jumpDone[o], r.breaks[o]
}

func (r *rw) scanLabels(f ast.Node) {
	ast.Inspect(f, func(n ast.Node) bool {
		if b, ok := n.(*ast.BranchStmt); ok && b.Label != nil {
			if o := r.info.Uses[b.Label]; o != nil {
				if b.Tok == token.GOTO {
					r.gotos[o] = true
				} else {
					r.breaks[o] = true
				}
			}
		}
		return true
	})
}

// sharedVar reports whether e names memory other goroutines can reach: a field, a dereference or a package variable.
func (r *rw) sharedVar(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.SelectorExpr:
		if hasCall(x) {
			return false
		}
		if sel := r.info.Selections[x]; sel != nil {
			return sel.Kind() == types.FieldVal
		}
		v, ok := r.info.Uses[x.Sel].(*types.Var)
		return ok && v != nil
	case *ast.StarExpr:
		return !hasCall(x)
	case *ast.Ident:
		v, ok := r.info.Uses[x].(*types.Var)
		return ok && v.Parent() == r.pkg.Scope()
	}
	return false
}

// sharedAssign reports whether s is an assignment to shared memory computed from something: reading and writing are
// then two steps.
func (r *rw) sharedAssign(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.IncDecStmt:
		return r.sharedVar(x.X)
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 || x.Tok == token.DEFINE || !r.sharedVar(x.Lhs[0]) {
			return false
		}
		tv, ok := r.info.Types[x.Rhs[0]]
		if !ok || tv.Value != nil && x.Tok == token.ASSIGN || tv.IsNil() || tv.Type == nil {
			return false
		}
		if x.Tok == token.ASSIGN {
			lt := r.typeOf(x.Lhs[0])
			return lt != nil && types.Identical(lt, tv.Type)
		}
		return true
	}
	return false
}

func (r *rw) split(s ast.Stmt) []ast.Stmt {
	r.counts["split"]++
	n := r.temp()
	y := func() ast.Stmt { return &ast.ExprStmt{X: r.call("Y", r.site(s.Pos()))} }
	var l []ast.Stmt
	switch x := s.(type) {
	case *ast.IncDecStmt:
		op := token.ADD_ASSIGN
		if x.Tok == token.DEC {
			op = token.SUB_ASSIGN
		}
		l = []ast.Stmt{define(n, x.X), &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: op, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "1"}}}, y(),
			&ast.AssignStmt{Lhs: []ast.Expr{x.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(n)}}}
	case *ast.AssignStmt:
		if x.Tok == token.ASSIGN {
			l = []ast.Stmt{define(n, x.Rhs[0]), y(), &ast.AssignStmt{Lhs: x.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{id(n)}}}
		} else {
			l = []ast.Stmt{define(n, x.Lhs[0]), &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: x.Tok, Rhs: x.Rhs}, y(),
				&ast.AssignStmt{Lhs: x.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{id(n)}}}
		}
	}
	return []ast.Stmt{&ast.BlockStmt{List: l}}
}

var origSel = map[*ast.BlockStmt]bool{}

func hasCall(e ast.Node) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		case *ast.FuncLit:
			return false
		}
		return !found
	})
	return found
}

func sortable(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsOrdered|types.IsBoolean) != 0
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		// dot imports
		if o := r.info.Uses[x]; o != nil && o.Pkg() != nil && o.Pkg() != r.pkg && o.Parent() == o.Pkg().Scope() {
			if n, ok := table[o.Pkg().Path()][o.Name()]; ok {
				return r.repl(o.Pkg().Path(), n)
			}
		}
		return e
	case *ast.SelectorExpr:
		if pid, ok := x.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[pid].(*types.PkgName); ok {
				if n, ok := table[pn.Imported().Path()][x.Sel.Name]; ok {
					return r.repl(pn.Imported().Path(), n)
				}
				return e
			}
		}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			two := r.two[x]
			ch := r.expr(x.X)
			if two {
				return r.call("Recv2", ch)
			}
			return r.call("Recv", ch)
		}
	case *ast.IndexExpr:
		if m := r.isMap(x.X); m != nil {
			write := r.lhs[x]
			complexKey := hasCall(x.Index)
			x.X = r.expr(x.X)
			x.Index = r.expr(x.Index)
			if !complexKey {
				if write {
					x.X = r.call("MapW", x.X)
				} else {
					x.X = r.call("MapR", x.X)
				}
			}
			if write && !sortable(m.Key()) {
				x.Index = r.call("Key", x.Index)
			}
			return x
		}
	case *ast.CompositeLit:
		if t := r.typeOf(x); t != nil {
			if m, ok := t.Underlying().(*types.Map); ok && !sortable(m.Key()) {
				r.node(x)
				for _, el := range x.Elts {
					if kv, ok := el.(*ast.KeyValueExpr); ok {
						if _, lit := kv.Key.(*ast.CompositeLit); !lit {
							kv.Key = r.call("Key", kv.Key)
						}
					}
				}
				return x
			}
			if _, ok := t.Underlying().(*types.Struct); ok {
				// keys are field names
				if x.Type != nil {
					x.Type = r.expr(x.Type)
				}
				for i, el := range x.Elts {
					if kv, ok := el.(*ast.KeyValueExpr); ok {
						kv.Value = r.expr(kv.Value)
					} else {
						x.Elts[i] = r.expr(el)
					}
				}
				return x
			}
		}
	case *ast.CallExpr:
		if fid, ok := unparen(x.Fun).(*ast.Ident); ok {
			if _, ok := r.info.Uses[fid].(*types.Builtin); ok && len(x.Args) > 0 {
				switch fid.Name {
				case "close":
					return r.call("Close", r.expr(x.Args[0]))
				case "len":
					if r.isChan(x.Args[0]) {
						return r.call("ChanLen", r.expr(x.Args[0]))
					}
					if r.isMap(x.Args[0]) != nil {
						x.Args[0] = r.call("MapR", r.expr(x.Args[0]))
						return x
					}
				case "delete", "clear":
					if r.isMap(x.Args[0]) != nil {
						cx := len(x.Args) > 1 && hasCall(x.Args[1])
						for i := range x.Args {
							x.Args[i] = r.expr(x.Args[i])
						}
						if !cx {
							x.Args[0] = r.call("MapW", x.Args[0])
						}
						return x
					}
				}
			}
		}
	case *ast.KeyValueExpr:
		x.Key = r.expr(x.Key)
		x.Value = r.expr(x.Value)
		return x
	}
	r.node(e)
	return e
}

func (r *rw) repl(path, name string) ast.Expr {
	r.counts[path]++
	return r.sim(name)
}

// go f(a, b) becomes { f, a, b evaluated now; sim.Go(func() { f(a, b) }) }
func (r *rw) goStmt(x *ast.GoStmt) []ast.Stmt {
	site := r.site(x.Pos())
	c := x.Call
	var pre []ast.Stmt
	var fun ast.Expr
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		r.node(fl)
		return []ast.Stmt{&ast.ExprStmt{X: r.call("Go", site, fl)}}
	}
	builtin := false
	if fid, ok := unparen(c.Fun).(*ast.Ident); ok {
		if _, ok := r.info.Uses[fid].(*types.Builtin); ok {
			builtin = true
		}
	}
	keep := make([]bool, len(c.Args))
	for i, a := range c.Args {
		tv := r.info.Types[a]
		keep[i] = tv.Value != nil || tv.IsNil() || tv.IsType()
	}
	// parameter types, so that untyped or interface conversions behave as in the call
	multi := len(c.Args) == 1 && isTuple(r.typeOf(c.Args[0]))
	switch f := unparen(c.Fun).(type) {
	case *ast.Ident:
		if o, ok := r.info.Uses[f].(*types.Func); builtin || ok && o != nil {
			fun = f
		}
	case *ast.SelectorExpr:
		if pid, ok := f.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[pid].(*types.PkgName); ok {
				fun = r.expr(f)
			}
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		fun = r.expr(c.Fun)
	}
	if builtin {
		var ce ast.Expr = r.expr(c)
		return []ast.Stmt{&ast.ExprStmt{X: r.call("Go", site, lit(&ast.ExprStmt{X: ce}))}}
	}
	if fun == nil {
		n := r.temp()
		pre = append(pre, define(n, r.expr(c.Fun)))
		fun = id(n)
	}
	var args []ast.Expr
	if multi {
		// go f(g()) with several results: evaluate g inside; rare enough
		args = []ast.Expr{r.expr(c.Args[0])}
	} else {
		for i, a := range c.Args {
			if keep[i] {
				args = append(args, r.expr(a))
				continue
			}
			n := r.temp()
			pre = append(pre, define(n, r.expr(a)))
			args = append(args, id(n))
		}
	}
	call := &ast.CallExpr{Fun: fun, Args: args}
	if c.Ellipsis.IsValid() {
		call.Ellipsis = 1
	}
	pre = append(pre, &ast.ExprStmt{X: r.call("Go", site, lit(&ast.ExprStmt{X: call}))})
	if len(pre) == 1 {
		return pre
	}
	return []ast.Stmt{&ast.BlockStmt{List: pre}}
}

func isTuple(t types.Type) bool {
	tp, ok := t.(*types.Tuple)
	return ok && tp.Len() > 1
}

func lit(body ...ast.Stmt) *ast.FuncLit {
	return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
}

func (r *rw) selectStmt(x *ast.SelectStmt) []ast.Stmt {
	r.counts["select"]++
	if len(x.Body.List) == 0 {
		return []ast.Stmt{
			&ast.ExprStmt{X: r.call("BlockForever")},
			&ast.ExprStmt{X: &ast.CallExpr{Fun: id("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}},
		}
	}
	sel := r.temp()
	pre := []ast.Stmt{define(sel, r.call("NewSel"))}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDefault := "false"
	idx := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		var bodyPre []ast.Stmt
		cl := &ast.CaseClause{}
		switch comm := cc.Comm.(type) {
		case nil:
			hasDefault = "true"
			cl.List = []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}
		case *ast.SendStmt:
			ch, v := r.expr(comm.Chan), r.expr(comm.Value)
			pre = append(pre, &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: r.call("SelSend", id(sel), ch), Sel: id("With")}, Args: []ast.Expr{v}}})
		case *ast.ExprStmt:
			u := unparen(comm.X).(*ast.UnaryExpr)
			pre = append(pre, &ast.ExprStmt{X: r.call("SelRecv", id(sel), r.expr(u.X))})
		case *ast.AssignStmt:
			u := unparen(comm.Rhs[0]).(*ast.UnaryExpr)
			rc := r.temp()
			pre = append(pre, define(rc, r.call("SelRecv", id(sel), r.expr(u.X))))
			rhs := []ast.Expr{&ast.SelectorExpr{X: id(rc), Sel: id("V")}}
			if len(comm.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: id(rc), Sel: id("OK")})
			}
			for _, l := range comm.Lhs {
				if ix, ok := unparen(l).(*ast.IndexExpr); ok {
					r.lhs[ix] = true
				}
			}
			var lhs []ast.Expr
			for _, l := range comm.Lhs {
				lhs = append(lhs, r.expr(l))
			}
			tok := comm.Tok
			allBlank := true
			for _, l := range lhs {
				if i, ok := l.(*ast.Ident); !ok || i.Name != "_" {
					allBlank = false
				}
			}
			if allBlank {
				tok = token.ASSIGN
			}
			bodyPre = append(bodyPre, &ast.AssignStmt{Lhs: lhs, Tok: tok, Rhs: rhs})
		}
		if cc.Comm != nil {
			cl.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}
			idx++
		}
		cl.Body = append(bodyPre, r.stmts(cc.Body)...)
		sw.Body.List = append(sw.Body.List, cl)
	}
	// the last clause is written as default, so that a terminating select stays a terminating statement
	sw.Body.List[len(sw.Body.List)-1].(*ast.CaseClause).List = nil
	sw.Tag = &ast.CallExpr{Fun: &ast.SelectorExpr{X: id(sel), Sel: id("Do")}, Args: []ast.Expr{id(hasDefault)}}
	b := &ast.BlockStmt{List: append(pre, sw)}
	origSel[b] = true
	return []ast.Stmt{b}
}

func blank(e ast.Expr) bool {
	i, ok := e.(*ast.Ident)
	return e == nil || ok && i.Name == "_"
}

func (r *rw) rangeMap(x *ast.RangeStmt) []ast.Stmt {
	r.counts["rangemap"]++
	m, k, okv := r.temp(), r.temp(), r.temp()
	pre := []ast.Stmt{define(m, r.expr(x.X))}
	hasK, hasV := x.Key != nil && !blank(x.Key), x.Value != nil && !blank(x.Value)
	for _, e := range []ast.Expr{x.Key, x.Value} {
		if e != nil {
			if ix, ok := unparen(e).(*ast.IndexExpr); ok {
				r.lhs[ix] = true
			}
		}
	}
	r.node(x.Body)
	var head []ast.Stmt
	vn := "_"
	if hasV {
		vn = r.temp()
	}
	head = append(head,
		&ast.AssignStmt{Lhs: []ast.Expr{id(vn), id(okv)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: id(m), Index: id(k)}}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(okv)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
	var lhs, rhs []ast.Expr
	if hasK {
		lhs = append(lhs, r.expr(x.Key))
		rhs = append(rhs, id(k))
	}
	if hasV {
		lhs = append(lhs, r.expr(x.Value))
		rhs = append(rhs, id(vn))
	}
	if len(lhs) > 0 {
		tok := token.ASSIGN
		if x.Tok == token.DEFINE {
			if r.newLV {
				tok = token.DEFINE
			} else {
				kk, vv := ast.Expr(id("_")), ast.Expr(id("_"))
				if hasK {
					kk = id(x.Key.(*ast.Ident).Name)
				}
				if hasV {
					vv = id(x.Value.(*ast.Ident).Name)
				}
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{kk, vv}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("ZeroKV", id(m))}})
			}
		}
		head = append(head, &ast.AssignStmt{Lhs: lhs, Tok: tok, Rhs: rhs})
	}
	body := &ast.BlockStmt{List: append(head, x.Body.List...)}
	loop := &ast.RangeStmt{Key: id("_"), Value: id(k), Tok: token.DEFINE, X: r.call("MapKeys", id(m)), Body: body}
	b := &ast.BlockStmt{List: append(pre, loop)}
	origSel[b] = true
	return []ast.Stmt{b}
}

func (r *rw) rangeChan(x *ast.RangeStmt) []ast.Stmt {
	r.counts["rangechan"]++
	c, okv := r.temp(), r.temp()
	pre := []ast.Stmt{define(c, r.expr(x.X))}
	r.node(x.Body)
	vn := "_"
	has := x.Key != nil && !blank(x.Key)
	if has {
		vn = r.temp()
	}
	head := []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{id(vn), id(okv)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("Recv2", id(c))}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(okv)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
	}
	if has {
		tok := token.ASSIGN
		if x.Tok == token.DEFINE {
			if r.newLV {
				tok = token.DEFINE
			} else {
				pre = append(pre, define(x.Key.(*ast.Ident).Name, r.call("ZeroChan", id(c))))
			}
		}
		head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(x.Key)}, Tok: tok, Rhs: []ast.Expr{id(vn)}})
	}
	loop := &ast.ForStmt{Body: &ast.BlockStmt{List: append(head, x.Body.List...)}}
	b := &ast.BlockStmt{List: append(pre, loop)}
	origSel[b] = true
	return []ast.Stmt{b}
}
