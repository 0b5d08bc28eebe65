// Command instr rewrites the Go packages of a module so that every source of
// nondeterminism (scheduling, clocks, map order, files, SQL, process exit) goes
// through the shims in /verif/rt, and writes a `go build -overlay` file.
//
// It never touches the module on disk. It judges code by its types only: which
// package a selector belongs to, whether an operand is a channel or a map.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listedPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Imports    []string
	Module     *struct{ Path, Dir string }
}

// shimOf maps an original import path to the shim package (relative to zzverif).
var shimOf = map[string]string{
	"sync":                          "vsync",
	"sync/atomic":                   "vatomic",
	"time":                          "vtime",
	"runtime":                       "vruntime",
	"github.com/puzpuzpuz/xsync/v3": "vxsync",
	"os":                            "vos",
	"log":                           "vlog",
	"fmt":                           "vfmt",
	"database/sql":                  "vsql",
	"encoding/csv":                  "vcsv",
	"bufio":                         "vbufio",
}

var (
	repo    = flag.String("repo", "/repo", "module root")
	verif   = flag.String("verif", "/verif", "verif root")
	out     = flag.String("out", "", "output dir")
	mode    = flag.String("mode", "full", "full | io (no scheduling rewrites)")
	race    = flag.Bool("race", false, "drop heavy drivers, for the race build")
	modPath string
)

var ioShims = map[string]bool{"vos": true, "vlog": true, "vfmt": true, "vsql": true}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	flag.Parse()

	if err := os.MkdirAll(*out, 0o755); err != nil {
		die("%v", err)
	}

	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,GoFiles,Standard,Imports,Module", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr

	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}

	dec := json.NewDecoder(bytes.NewReader(b))
	exports := map[string]string{}

	var own []listedPkg

	for {
		var p listedPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("decode: %v", err)
		}

		exports[p.ImportPath] = p.Export

		if p.Module != nil && p.Module.Dir == *repo {
			modPath = p.Module.Path
			own = append(own, p)
		}
	}

	shims := shimExports()
	overlay := map[string]string{}

	for _, p := range own {
		if strings.HasPrefix(p.ImportPath, modPath+"/zzverif") {
			continue
		}

		instrument(p, exports, shims, overlay)
	}

	// Shim, runtime and harness packages.
	addTree := func(src, dst string) {
		_ = filepath.Walk(src, func(path string, info os.FileInfo, err error) error {
			if err != nil || info.IsDir() || !strings.HasSuffix(path, ".go") {
				return nil
			}

			rel, _ := filepath.Rel(src, path)
			overlay[filepath.Join(*repo, "zzverif", dst, rel)] = path

			return nil
		})
	}

	addTree(filepath.Join(*verif, "rt"), ".")
	addTree(filepath.Join(*verif, "mc"), "mc")

	ob, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), ob, 0o644); err != nil {
		die("%v", err)
	}
}

// shimExports parses the shim packages and returns their exported names.
func shimExports() map[string]map[string]bool {
	res := map[string]map[string]bool{}

	for imp, s := range shimOf {
		names := map[string]bool{}
		files, _ := filepath.Glob(filepath.Join(*verif, "rt", s, "*.go"))

		for _, fn := range files {
			f, err := parser.ParseFile(token.NewFileSet(), fn, nil, 0)
			if err != nil {
				die("parse shim %s: %v", fn, err)
			}

			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						names[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, sp := range d.Specs {
						switch sp := sp.(type) {
						case *ast.TypeSpec:
							names[sp.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range sp.Names {
								names[n.Name] = true
							}
						}
					}
				}
			}
		}

		res[imp] = names
	}

	return res
}

type edit struct {
	pos, end int // byte offsets replaced
	text     string
	ord      int // ordering among inserts at one position
}

type rewriter struct {
	fset   *token.FileSet
	src    []byte
	info   *types.Info
	shims  map[string]map[string]bool
	edits  []edit
	n      int
	needed map[string]bool // shims used
	usedRT bool
	kept   map[string]bool // original imports (by path) still referenced
	done   map[ast.Node]bool
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }

// Inserts nest properly: "before" inserts are added in pre-order, "after" inserts post-order.
func (r *rewriter) before(p token.Pos, s string) {
	r.n++
	r.edits = append(r.edits, edit{r.off(p), r.off(p), s, -1000000 + r.n})
}

func (r *rewriter) after(p token.Pos, s string) {
	r.n++
	r.edits = append(r.edits, edit{r.off(p), r.off(p), s, -2000000 + r.n})
}

func (r *rewriter) replace(a, b token.Pos, s string) {
	r.n++
	// Preserve newlines so that line numbers stay.
	r.edits = append(r.edits, edit{r.off(a), r.off(b), s, 0})
}

func (r *rewriter) apply() []byte {
	sort.SliceStable(r.edits, func(i, j int) bool {
		a, b := r.edits[i], r.edits[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		return a.ord < b.ord
	})

	var res bytes.Buffer

	at := 0

	for _, e := range r.edits {
		if e.pos < at {
			die("overlapping edits at %d: %q", e.pos, e.text)
		}

		res.Write(r.src[at:e.pos])
		res.WriteString(e.text)

		at = e.end
	}

	res.Write(r.src[at:])

	return res.Bytes()
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}

	_, ok := t.Underlying().(*types.Chan)

	return ok
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}

	_, ok := t.Underlying().(*types.Map)

	return ok
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}

	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}

	return nil
}

func (r *rewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}

	_, ok = r.info.Uses[id].(*types.Builtin)

	return ok
}

func (r *rewriter) rt() string {
	r.usedRT = true
	return "zzrt"
}

func (r *rewriter) walkList(l []ast.Expr) {
	for _, e := range l {
		r.walk(e)
	}
}

// children walks the direct children of n with the rewriter.
func (r *rewriter) children(n ast.Node) {
	first := true

	ast.Inspect(n, func(c ast.Node) bool {
		if first {
			first = false
			return true
		}

		if c == nil {
			return false
		}

		r.walk(c)

		return false
	})
}

// statements puts a point before each statement, which does nothing unless a case asks for it.
func (r *rewriter) statements(n ast.Node) {
	var l []ast.Stmt

	switch n := n.(type) {
	case *ast.BlockStmt:
		l = n.List
	case *ast.CaseClause:
		l = n.Body
	case *ast.CommClause:
		l = n.Body
	}

	for _, s := range l {
		switch s := s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
		default:
			r.before(s.Pos(), r.rt()+".S(); ")
		}
	}
}

func full() bool { return *mode == "full" }

func (r *rewriter) walk(n ast.Node) {
	if n == nil {
		return
	}

	if full() {
		r.statements(n)
	}

	switch n := n.(type) {
	case *ast.SelectorExpr:
		id, ok := n.X.(*ast.Ident)
		if !ok {
			r.children(n)
			return
		}

		pn, ok := r.info.Uses[id].(*types.PkgName)
		if !ok {
			return
		}

		path := pn.Imported().Path()
		if s, ok := shimOf[path]; ok && r.shims[path][n.Sel.Name] && (full() || ioShims[s]) {
			r.needed[s] = true
			r.replace(id.Pos(), id.End(), "zz"+s)
		} else {
			r.kept[path] = true
		}

		return

	case *ast.ExprStmt:
		// Discarded results of commutative atomic additions.
		if c, ok := n.X.(*ast.CallExpr); ok && full() {
			if se, ok := c.Fun.(*ast.SelectorExpr); ok {
				if id, ok := se.X.(*ast.Ident); ok {
					if pn, ok := r.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "sync/atomic" &&
						strings.HasPrefix(se.Sel.Name, "Add") && r.shims["sync/atomic"][se.Sel.Name+"D"] {
						r.needed["vatomic"] = true
						r.replace(se.Pos(), se.End(), "zzvatomic."+se.Sel.Name+"D")
						r.walkList(c.Args)

						return
					}
				}

				if sel, ok := r.info.Selections[se]; ok && se.Sel.Name == "Add" {
					if named := namedOf(sel.Recv()); named != nil && named.Obj().Pkg() != nil && named.Obj().Pkg().Path() == "sync/atomic" {
						r.replace(se.Sel.Pos(), se.Sel.End(), "AddD")
						r.walk(se.X)
						r.walkList(c.Args)

						return
					}
				}
			}
		}

	case *ast.ChanType:
		if full() {
			r.replace(n.Begin, n.Value.Pos(), "*"+r.rt()+".Chan[")
			r.walk(n.Value)
			r.after(n.Value.End(), "]")

			return
		}

	case *ast.SendStmt:
		if full() {
			r.before(n.Chan.Pos(), "(")
			r.walk(n.Chan)
			r.replace(n.Chan.End(), n.Value.Pos(), ").Send(")
			r.walk(n.Value)
			r.after(n.Value.End(), ")")

			return
		}

	case *ast.UnaryExpr:
		if n.Op == token.ARROW && full() {
			r.recv(n, "Recv()")
			return
		}

	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 && full() {
			if u, ok := unparen(n.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.walkList(n.Lhs)
				r.recv(u, "Recv2()")

				return
			}
		}

	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 && full() {
			if u, ok := unparen(n.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				if n.Type != nil {
					r.walk(n.Type)
				}

				r.recv(u, "Recv2()")

				return
			}
		}

	case *ast.CallExpr:
		for _, b := range []string{"print", "println"} {
			if full() && r.isBuiltin(n.Fun, b) {
				r.needed["vos"] = true
				r.replace(n.Fun.Pos(), n.Fun.End(), "zzvos.B"+b)
				r.walkList(n.Args)

				return
			}
		}

		if full() && len(n.Args) > 0 {
			switch {
			case r.isBuiltin(n.Fun, "make") && isChan(r.typeOf(n.Args[0])):
				if ct, ok := n.Args[0].(*ast.ChanType); ok {
					r.replace(n.Pos(), ct.Value.Pos(), r.rt()+".MakeChan[")
					r.walk(ct.Value)

					if len(n.Args) > 1 {
						r.replace(ct.Value.End(), n.Args[1].Pos(), "](")
						r.walk(n.Args[1])
					} else {
						r.after(ct.Value.End(), "](0")
					}
				} else {
					die("make of a named channel type is not supported at %s", r.fset.Position(n.Pos()))
				}

				return
			case r.isBuiltin(n.Fun, "close") && isChan(r.typeOf(n.Args[0])):
				r.replace(n.Fun.Pos(), n.Fun.End(), r.rt()+".ChClose")
				r.walkList(n.Args)

				return
			case r.isBuiltin(n.Fun, "len") && isChan(r.typeOf(n.Args[0])):
				r.replace(n.Fun.Pos(), n.Fun.End(), r.rt()+".ChLen")
				r.walkList(n.Args)

				return
			case r.isBuiltin(n.Fun, "cap") && isChan(r.typeOf(n.Args[0])):
				r.replace(n.Fun.Pos(), n.Fun.End(), r.rt()+".ChCap")
				r.walkList(n.Args)

				return
			}
		}

	case *ast.RangeStmt:
		t := r.typeOf(n.X)

		switch {
		case isChan(t) && full():
			r.children2(n.Key, n.Value)
			r.before(n.X.Pos(), "(")
			r.walk(n.X)
			r.after(n.X.End(), ").All()")
			r.walk(n.Body)

			return
		case isMap(t):
			r.children2(n.Key, n.Value)
			r.before(n.X.Pos(), r.rt()+".RangeMap(")
			r.walk(n.X)
			r.after(n.X.End(), ")")
			r.walk(n.Body)

			return
		}

	case *ast.GoStmt:
		if full() {
			r.goStmt(n)
			return
		}

	case *ast.SelectStmt:
		if full() {
			r.selectStmt(n)
			return
		}

	case *ast.ImportSpec:
		return
	}

	r.children(n)
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}

	n, _ := t.(*types.Named)

	return n
}

func (r *rewriter) children2(es ...ast.Expr) {
	for _, e := range es {
		if e != nil {
			r.walk(e)
		}
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}

		e = p.X
	}
}

func (r *rewriter) recv(u *ast.UnaryExpr, m string) {
	r.replace(u.OpPos, u.X.Pos(), "(")
	r.walk(u.X)
	r.after(u.X.End(), ")."+m)
}

func (r *rewriter) goStmt(n *ast.GoStmt) {
	c := n.Call
	// go func() {...}()
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		r.replace(n.Go, c.Fun.Pos(), r.rt()+".Go(")
		r.walk(fl)
		r.replace(c.Lparen, c.Rparen+1, ")")

		return
	}

	// Hoist function value and non-constant arguments.
	id := strconv.Itoa(r.off(n.Pos()))
	names := []string{}

	r.replace(n.Go, c.Fun.Pos(), "")

	hoist := "zzf" + id
	names = append(names, hoist)

	// { zzf, zza1 := fun, args...; rt.Go(func() { zzf(zza1, const...) }) }
	r.before(c.Fun.Pos(), "{ ")

	var lhs []string

	lhs = append(lhs, hoist)

	callArgs := []string{}

	for i, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			callArgs = append(callArgs, string(r.src[r.off(a.Pos()):r.off(a.End())]))

			continue
		}

		v := fmt.Sprintf("zza%s_%d", id, i)
		lhs = append(lhs, v)
		callArgs = append(callArgs, v)
	}

	r.before(c.Fun.Pos(), strings.Join(lhs, ", ")+" := ")
	r.walk(c.Fun)

	prev := c.Fun.End()

	for _, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			r.replace(prev, a.End(), "")
			prev = a.End()

			continue
		}

		r.replace(prev, a.Pos(), ", ")
		r.walk(a)

		prev = a.End()
	}

	ell := ""
	if c.Ellipsis.IsValid() {
		ell = "..."
	}

	r.replace(prev, c.Rparen+1, "; "+r.rt()+".Go(func() { "+hoist+"("+strings.Join(callArgs, ", ")+ell+") }) }")

	_ = names
}

func (r *rewriter) selectStmt(n *ast.SelectStmt) {
	id := strconv.Itoa(r.off(n.Pos()))

	var (
		lhs, rhs []string
		hasDef   = "false"
	)

	i := 0
	idx := map[*ast.CommClause]int{}

	sub := func(e ast.Expr) string {
		// Operand text is duplicated to the header: simple operands only.
		return string(r.src[r.off(e.Pos()):r.off(e.End())])
	}
	rewriteText := func(e ast.Expr) string {
		rr := *r
		rr.edits = nil
		rr.walk(e)
		r.n = rr.n
		r.usedRT = r.usedRT || rr.usedRT

		base := r.off(e.Pos())
		txt := []byte(sub(e))

		for k := range rr.edits {
			rr.edits[k].pos -= base
			rr.edits[k].end -= base
		}

		rr.src = txt

		return string(rr.apply())
	}

	for _, s := range n.Body.List {
		cc := s.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			idx[cc] = -1

			continue
		}

		v := fmt.Sprintf("zzs%s_%d", id, i)
		idx[cc] = i
		i++

		lhs = append(lhs, v)

		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, "("+rewriteText(cm.Chan)+").SendCase("+rewriteText(cm.Value)+")")
		case *ast.ExprStmt:
			u := unparen(cm.X).(*ast.UnaryExpr)
			rhs = append(rhs, "("+rewriteText(u.X)+").RecvCase()")
		case *ast.AssignStmt:
			u := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			rhs = append(rhs, "("+rewriteText(u.X)+").RecvCase()")
		}
	}

	hdr := "switch "
	if len(lhs) > 0 {
		hdr += strings.Join(lhs, ", ") + " := " + strings.Join(rhs, ", ") + "; "
	}

	hdr += r.rt() + ".Select(" + strings.Join(append([]string{hasDef}, lhs...), ", ") + ") {"

	r.replace(n.Select, n.Body.Lbrace+1, hdr)

	for _, s := range n.Body.List {
		cc := s.(*ast.CommClause)
		k := idx[cc]

		if k < 0 {
			r.replace(cc.Case, cc.Colon+1, "default:")
		} else {
			t := fmt.Sprintf("case %d:", k)

			if as, ok := cc.Comm.(*ast.AssignStmt); ok {
				v := fmt.Sprintf("zzs%s_%d", id, k)
				l := []string{}

				for _, e := range as.Lhs {
					l = append(l, rewriteText(e))
				}

				vals := v + ".V"
				if len(l) == 2 {
					vals += ", " + v + ".OK"
				}

				t += " " + strings.Join(l, ", ") + " " + as.Tok.String() + " " + vals + "; "
			}

			r.replace(cc.Case, cc.Colon+1, t)
		}

		for _, st := range cc.Body {
			r.walk(st)
		}
	}
}

func instrument(p listedPkg, exports map[string]string, shims map[string]map[string]bool, overlay map[string]string) {
	fset := token.NewFileSet()

	var files []*ast.File

	srcs := map[*ast.File][]byte{}
	names := map[*ast.File]string{}

	for _, fn := range p.GoFiles {
		full := filepath.Join(p.Dir, fn)

		src, err := os.ReadFile(full)
		if err != nil {
			die("%v", err)
		}

		f, err := parser.ParseFile(fset, full, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}

		files = append(files, f)
		srcs[f] = src
		names[f] = fn
	}

	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}

		return os.Open(e)
	})

	info := &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Uses:       map[*ast.Ident]types.Object{},
		Defs:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	conf := types.Config{Importer: imp, Error: func(err error) {}}

	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		die("type check %s: %v", p.ImportPath, err)
	}

	isMain := p.Name == "main"

	for _, f := range files {
		r := &rewriter{
			fset: fset, src: srcs[f], info: info, shims: shims,
			needed: map[string]bool{}, kept: map[string]bool{},
		}

		for _, d := range f.Decls {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
				continue
			}

			if fd, ok := d.(*ast.FuncDecl); ok && isMain && fd.Recv == nil && fd.Name.Name == "main" {
				r.replace(fd.Name.Pos(), fd.Name.End(), "Main")
			}

			r.walk(d)
		}

		// Import specs that are no longer referenced become blank (init effects stay).
		for _, is := range f.Imports {
			path, _ := strconv.Unquote(is.Path.Value)

			if *race && path == "modernc.org/sqlite" {
				r.replace(is.Pos(), is.End(), `_ "fmt"`)

				continue
			}

			if _, ok := shimOf[path]; !ok || r.kept[path] {
				continue
			}

			if is.Name != nil && (is.Name.Name == "_" || is.Name.Name == ".") {
				continue
			}

			if is.Name != nil {
				r.replace(is.Name.Pos(), is.Name.End(), "_")
			} else {
				r.before(is.Path.Pos(), "_ ")
			}
		}

		extra := ""

		var sn []string
		for s := range r.needed {
			sn = append(sn, s)
		}

		sort.Strings(sn)

		for _, s := range sn {
			extra += fmt.Sprintf("; import zz%s %q", s, modPath+"/zzverif/"+s)
		}

		if r.usedRT {
			extra += fmt.Sprintf("; import zzrt %q", modPath+"/zzverif/rt")
		}

		if isMain {
			lib := filepath.Base(p.Dir)
			if p.Dir == *repo {
				lib = "rootmain"
			}

			r.replace(f.Name.Pos(), f.Name.End(), lib+extra)
		} else {
			r.after(f.Name.End(), extra)
		}

		res := r.apply()
		fn := names[f]

		if isMain {
			lib := filepath.Base(p.Dir)
			if p.Dir == *repo {
				lib = "rootmain"
			}

			dst := filepath.Join(*out, lib+"__"+fn)
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				die("%v", err)
			}

			overlay[filepath.Join(*repo, "zzverif", lib, fn)] = dst

			continue
		}

		rel, _ := filepath.Rel(*repo, filepath.Join(p.Dir, fn))

		dst := filepath.Join(*out, strings.ReplaceAll(rel, "/", "__"))
		if err := os.WriteFile(dst, res, 0o644); err != nil {
			die("%v", err)
		}

		overlay[filepath.Join(p.Dir, fn)] = dst
	}
}
