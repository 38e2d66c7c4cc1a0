// Command instrument copies the library packages of a golang/freetype working
// tree into a build directory and rewrites the copy so that a simulator owns
// its nondeterminism:
//
//   - a call of simrt.Y (a yield point) is inserted before every statement,
//     so the simulator decides where callers are interleaved and can count
//     steps;
//     Statements that write to what several callers can share (package variables,
//     fonts and what they refer to) or that synchronize get a call of simrt.H
//     before and after them, where the simulator can be told to preempt often;
//   - ranging over a map goes through simrt.MapIter, so the simulator decides
//     the iteration order;
//   - package sync is replaced by simsync, whose blocking operations are
//     scheduled by the simulator and whose Pool is deterministic;
//   - go statements start simulated tasks;
//   - the clock, the functions of math/rand, and the numbers of CPUs and
//     goroutines are those of the simulated environment;
//   - every package gets a function VerifGlobals that returns pointers to its
//     package variables, so a run can start from pristine package state.
//
// The rewriting works on the text (by insertion at positions taken from the
// syntax tree), never looks at names or shapes of the library's own code, and
// leaves line numbers as they are. /repo itself is not touched.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/golang/freetype"

var skipDirs = map[string]bool{"example": true, "cmd": true, "testdata": true, "licenses": true, ".git": true}

type edit struct {
	off int
	del int
	ins string
	seq int
}

func fatal(args ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"instrument:"}, args...)...)
	os.Exit(2)
}

func main() {
	src := flag.String("src", "/repo", "working tree")
	dst := flag.String("dst", "", "build directory (module root)")
	noYield := flag.Bool("noyield", false, "leave out the yield points")
	flag.Parse()
	if *dst == "" {
		fatal("-dst missing")
	}
	var dirs []string
	err := filepath.Walk(*src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if p != *src && (skipDirs[fi.Name()] || strings.HasPrefix(fi.Name(), ".") || strings.HasPrefix(fi.Name(), "_")) {
				return filepath.SkipDir
			}
			dirs = append(dirs, p)
		}
		return nil
	})
	if err != nil {
		fatal(err)
	}
	type pkg struct {
		dir, rel string
		files    []string // base names
	}
	var pkgs []pkg
	for _, d := range dirs {
		ents, _ := os.ReadDir(d)
		rel, _ := filepath.Rel(*src, d)
		var fs []string
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || strings.HasSuffix(n, "_test.go") {
				continue
			}
			if strings.HasSuffix(n, ".go") {
				fs = append(fs, n)
			} else if rel != "." && e.Type().IsRegular() {
				// Possibly embedded data or assembly: copy as it is.
				copyFile(filepath.Join(d, n), filepath.Join(*dst, rel, n))
			}
		}
		if len(fs) > 0 {
			pkgs = append(pkgs, pkg{d, rel, fs})
		}
	}
	// First pass: plain copies, so that "go list -export" can compile them and
	// give type information.
	for _, p := range pkgs {
		for _, f := range p.files {
			copyFile(filepath.Join(p.dir, f), filepath.Join(*dst, p.rel, f))
		}
	}
	exports := listExports(*dst, func() (pats []string) {
		for _, p := range pkgs {
			pats = append(pats, "./"+filepath.ToSlash(p.rel))
		}
		return
	}())
	lookup := func(path string) (io.ReadCloser, error) {
		if f, ok := exports[path]; ok && f != "" {
			return os.Open(f)
		}
		return nil, fmt.Errorf("no export data for %q", path)
	}
	ctx := build.Default
	ctx.CgoEnabled = false
	total := 0
	for _, p := range pkgs {
		fset := token.NewFileSet()
		var files []*ast.File
		var names []string
		srcs := map[string][]byte{}
		for _, f := range p.files {
			if ok, _ := ctx.MatchFile(p.dir, f); !ok {
				continue
			}
			b, err := os.ReadFile(filepath.Join(p.dir, f))
			if err != nil {
				fatal(err)
			}
			af, err := parser.ParseFile(fset, f, b, parser.ParseComments)
			if err != nil {
				fatal(err)
			}
			files = append(files, af)
			names = append(names, f)
			srcs[f] = b
		}
		if len(files) == 0 {
			continue
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup), Error: func(err error) {}}
		tp, _ := conf.Check(modPath, fset, files, info)
		sh := newSharing(tp, info)
		var globals []string
		for i, af := range files {
			out, n := rewrite(fset, af, srcs[names[i]], info, sh, *noYield)
			total += n
			if err := os.WriteFile(filepath.Join(*dst, p.rel, names[i]), out, 0o644); err != nil {
				fatal(err)
			}
			for _, d := range af.Decls {
				if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
					for _, s := range gd.Specs {
						for _, id := range s.(*ast.ValueSpec).Names {
							if id.Name != "_" {
								globals = append(globals, id.Name)
							}
						}
					}
				}
			}
		}
		sort.Strings(globals)
		var b bytes.Buffer
		fmt.Fprintf(&b, "package %s\n\n// VerifGlobals returns pointers to the package's variables.\nfunc VerifGlobals() []any {\n\treturn []any{", files[0].Name.Name)
		for i, g := range globals {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString("&" + g)
		}
		b.WriteString("}\n}\n")
		if err := os.WriteFile(filepath.Join(*dst, p.rel, "zz_verif_globals.go"), b.Bytes(), 0o644); err != nil {
			fatal(err)
		}
	}
	// A package that returns the globals of all of them.
	var b bytes.Buffer
	b.WriteString("// Package libglobals collects the package variables of every library package.\npackage libglobals\n\nimport (\n")
	for i, p := range pkgs {
		path := modPath
		if p.rel != "." {
			path += "/" + filepath.ToSlash(p.rel)
		}
		fmt.Fprintf(&b, "\tp%d %q\n", i, path)
	}
	b.WriteString(")\n\n// All returns pointers to all package variables.\nfunc All() (r []any) {\n")
	for i := range pkgs {
		fmt.Fprintf(&b, "\tr = append(r, p%d.VerifGlobals()...)\n", i)
	}
	fmt.Fprintf(&b, "\treturn\n}\n\n// YieldPoints is the number of yield points inserted.\nconst YieldPoints = %d\n", total)
	os.MkdirAll(filepath.Join(*dst, "verifsim", "libglobals"), 0o755)
	if err := os.WriteFile(filepath.Join(*dst, "verifsim", "libglobals", "libglobals.go"), b.Bytes(), 0o644); err != nil {
		fatal(err)
	}
}

func copyFile(from, to string) {
	b, err := os.ReadFile(from)
	if err != nil {
		fatal(err)
	}
	os.MkdirAll(filepath.Dir(to), 0o755)
	if err := os.WriteFile(to, b, 0o644); err != nil {
		fatal(err)
	}
}

func listExports(dir string, pats []string) map[string]string {
	args := append([]string{"list", "-export", "-deps", "-f", "{{.ImportPath}} {{.Export}}"}, pats...)
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		fatal("go list:", err)
	}
	m := map[string]string{}
	for _, l := range strings.Split(string(out), "\n") {
		if f := strings.Fields(l); len(f) == 2 {
			m[f[0]] = f[1]
		}
	}
	return m
}

// sharing knows which memory several callers can share, judged by types.
type sharing struct {
	pkg   *types.Package
	info  *types.Info
	reach map[*types.TypeName]bool
}

func newSharing(pkg *types.Package, info *types.Info) *sharing {
	s := &sharing{pkg, info, map[*types.TypeName]bool{}}
	if pkg == nil {
		return s
	}
	for _, n := range pkg.Scope().Names() {
		switch o := pkg.Scope().Lookup(n).(type) {
		case *types.Var:
			s.add(o.Type(), 0, false)
		case *types.TypeName:
			if n == "Font" {
				s.add(o.Type(), 0, true)
			}
		}
	}
	return s
}

// add marks the struct types that t refers to, and t itself if mark is set.
func (s *sharing) add(t types.Type, depth int, mark bool) {
	if t == nil || depth > 20 {
		return
	}
	switch x := types.Unalias(t).(type) {
	case *types.Named:
		if _, ok := x.Underlying().(*types.Struct); ok && x.Obj().Pkg() == s.pkg && mark {
			if s.reach[x.Obj()] {
				return
			}
			s.reach[x.Obj()] = true
		}
		for i := 0; i < x.TypeArgs().Len(); i++ {
			s.add(x.TypeArgs().At(i), depth+1, true)
		}
		s.add(x.Underlying(), depth+1, mark)
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			s.add(x.Field(i).Type(), depth+1, mark)
		}
	case *types.Pointer:
		s.add(x.Elem(), depth+1, true)
	case *types.Slice:
		s.add(x.Elem(), depth+1, true)
	case *types.Array:
		s.add(x.Elem(), depth+1, true)
	case *types.Map:
		s.add(x.Key(), depth+1, true)
		s.add(x.Elem(), depth+1, true)
	case *types.Chan:
		s.add(x.Elem(), depth+1, true)
	}
}

// shared reports whether the memory e denotes may be shared.
func (s *sharing) shared(e ast.Expr) bool {
	for leaf := true; ; leaf = false {
		if t, ok := s.info.Types[e]; ok && t.Type != nil && !leaf {
			u := types.Unalias(t.Type)
			if p, ok := u.(*types.Pointer); ok {
				u = types.Unalias(p.Elem())
			}
			if n, ok := u.(*types.Named); ok && s.reach[n.Obj()] {
				return true
			}
		}
		switch x := e.(type) {
		case *ast.Ident:
			v, ok := s.info.Uses[x].(*types.Var)
			return ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
		case *ast.SelectorExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		case *ast.UnaryExpr:
			e = x.X
		default:
			return false
		}
	}
}

// hot reports whether a statement, without the statements in it, writes to
// memory that may be shared, or synchronizes.
func (s *sharing) hot(st ast.Stmt) bool {
	call := func(e ast.Expr) bool {
		found := false
		ast.Inspect(e, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.CallExpr:
				switch f := x.Fun.(type) {
				case *ast.Ident:
					switch f.Name {
					case "copy", "clear", "delete":
						if len(x.Args) > 0 && s.shared(x.Args[0]) {
							found = true
						}
					}
				case *ast.SelectorExpr:
					if o, ok := s.info.Uses[f.Sel]; ok && o.Pkg() != nil && (o.Pkg().Path() == "sync" || o.Pkg().Path() == "sync/atomic") {
						found = true
					}
				}
			}
			return !found
		})
		return found
	}
	switch x := st.(type) {
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			for _, l := range x.Lhs {
				if s.shared(l) {
					return true
				}
			}
		}
		for _, r := range x.Rhs {
			if call(r) {
				return true
			}
		}
	case *ast.IncDecStmt:
		return s.shared(x.X)
	case *ast.ExprStmt:
		return call(x.X)
	case *ast.SendStmt:
		return true
	case *ast.ReturnStmt:
		for _, r := range x.Results {
			if call(r) {
				return true
			}
		}
	}
	return false
}

func rewrite(fset *token.FileSet, af *ast.File, src []byte, info *types.Info, sh *sharing, noYield bool) ([]byte, int) {
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(o, del int, ins string) { edits = append(edits, edit{o, del, ins, len(edits)}) }
	n := 0
	yield := func(p token.Pos) {
		if !noYield {
			add(off(p), 0, "simrt.Y();")
			n++
		}
	}
	stmts := func(l []ast.Stmt) {
		was := false
		for i, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			hot := sh.hot(s)
			if (hot || was) && !noYield {
				add(off(s.Pos()), 0, "simrt.H();")
				n++
			} else {
				yield(s.Pos())
			}
			if _, ok := s.(*ast.ReturnStmt); hot && !ok && i == len(l)-1 && !noYield {
				add(off(s.End()), 0, ";simrt.H()")
				n++
			}
			was = hot
		}
	}
	add(off(af.Name.End()), 0, `;import simrt "`+modPath+`/verifsim/simrt"`)
	for _, im := range af.Imports {
		if im.Path.Value == `"sync"` {
			ins := strconv.Quote(modPath + "/verifsim/simsync")
			if im.Name == nil {
				ins = "sync " + ins
			}
			add(off(im.Path.Pos()), len(im.Path.Value), ins)
		}
	}
	ast.Inspect(af, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.BlockStmt:
			// The body of a switch or select holds clauses only.
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				yield(x.Body.Lbrace + 1)
			}
		case *ast.RangeStmt:
			if len(x.Body.List) == 0 {
				yield(x.Body.Lbrace + 1)
			}
			if t, ok := info.Types[x.X]; ok && t.Type != nil {
				if _, ok := t.Type.Underlying().(*types.Map); ok {
					add(off(x.X.Pos()), 0, "simrt.MapIter(")
					add(off(x.X.End()), 0, ")")
				}
			}
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok {
				break
			}
			pn, ok := info.Uses[id].(*types.PkgName)
			if !ok {
				break
			}
			if _, ok := info.Uses[x.Sel].(*types.Func); !ok {
				break
			}
			switch path, name := pn.Imported().Path(), x.Sel.Name; path {
			case "time":
				switch name {
				case "Now", "Since", "Until", "Sleep":
					add(off(id.Pos()), len(id.Name), "simrt")
				}
			case "runtime":
				switch name {
				case "NumCPU", "GOMAXPROCS", "NumGoroutine", "Gosched":
					add(off(id.Pos()), len(id.Name), "simrt")
				}
			case "math/rand":
				if !strings.HasPrefix(name, "New") {
					add(off(id.Pos()), len(id.Name), "simrt.Rand()")
				}
			case "math/rand/v2":
				if !strings.HasPrefix(name, "New") && name != "N" {
					add(off(id.Pos()), len(id.Name), "simrt.Rand2()")
				}
			}
		case *ast.GoStmt:
			t, ok := info.Types[x.Call.Fun]
			if ok && t.IsValue() && len(x.Call.Args) > 0 && x.Call.Ellipsis == token.NoPos {
				// The arguments are evaluated here.
				add(off(x.Go), 2, "simrt.GoCall(")
				add(off(x.Call.Lparen), 1, ",")
			} else {
				add(off(x.Go), 2, "simrt.Go(func() {")
				add(off(x.End()), 0, "})")
			}
		}
		return true
	})
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].seq < edits[j].seq
	})
	var b bytes.Buffer
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			fatal("overlapping edits in", fset.Position(af.Pos()).Filename)
		}
		b.Write(src[pos:e.off])
		b.WriteString(e.ins)
		pos = e.off + e.del
	}
	b.Write(src[pos:])
	b.WriteString("\n\nvar _ = simrt.Y\n")
	// Imports of which nothing may be left in use.
	for _, im := range af.Imports {
		use := map[string][2]string{"time": {"time", "Now"}, "runtime": {"runtime", "GC"}, "math/rand": {"rand", "New"}, "math/rand/v2": {"rand", "New"}}
		path, _ := strconv.Unquote(im.Path.Value)
		if u, ok := use[path]; ok {
			if im.Name != nil {
				u[0] = im.Name.Name
			}
			if u[0] != "_" && u[0] != "." {
				fmt.Fprintf(&b, "\nvar _ = %s.%s\n", u[0], u[1])
			}
		}
	}
	return b.Bytes(), n
}
