// Command instr generates a build overlay for the Go module under test.
//
// For every non-test Go file of the module's library packages it writes an instrumented copy in
// which (1) a scheduling point precedes every statement, (2) ranging over a map visits the entries
// in an order decided by the simulator, (3) `go` statements, channel operations and package sync go through
// the simulator. The files in the repository are not touched: the copies are handed to the compiler with
// `go build -overlay`. It also adds the packages verifrt and verifrt/verifsync to the module, again
// only through the overlay.
//
// All edits are textual insertions at positions found in the syntax tree, so that the code compiled
// is the code in the working tree, whatever it looks like.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

type edit struct {
	off, end int
	text     string
	order    int
}

type report struct {
	Files       int      `json:"files"`
	Sites       int      `json:"yield_sites"`
	MapRanges   int      `json:"map_ranges"`
	MapIters    int      `json:"map_iterator_calls"`
	GoStmts     int      `json:"go_statements"`
	SyncImports int      `json:"sync_imports"`
	ChanOps     int      `json:"channel_operations"`
	Unsupported []string `json:"unsupported"`
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "module under test")
	rt := flag.String("rt", "", "directory with the verifrt package")
	out := flag.String("out", "", "output directory")
	pattern := flag.String("pattern", "./deflect/...", "package pattern to instrument")
	flag.Parse()

	modPath, err := modulePath(filepath.Join(*repo, "go.mod"))
	if err != nil {
		fatal("%v", err)
	}

	pkgs, err := list(*repo, *pattern)
	if err != nil {
		fatal("go list: %v", err)
	}

	exports := map[string]string{}
	for _, p := range pkgs {
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
	}

	overlay := map[string]string{}
	var rep report

	for _, p := range pkgs {
		if p.Module == nil || p.Module.Path != modPath {
			continue
		}
		if err := instrument(p, modPath, exports, *out, overlay, &rep); err != nil {
			fatal("%v: %v", p.ImportPath, err)
		}
	}

	if rep.Files == 0 {
		fatal("no files instrumented")
	}

	err = filepath.Walk(*rt, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(*rt, path)
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		src = bytes.ReplaceAll(src, []byte("@MODULE@"), []byte(modPath))
		dst := filepath.Join(*out, "rt", rel)
		if err := write(dst, src); err != nil {
			return err
		}
		overlay[filepath.Join(*repo, "verifrt", rel)] = dst
		return nil
	})
	if err != nil {
		fatal("%v", err)
	}

	data, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := write(filepath.Join(*out, "overlay.json"), data); err != nil {
		fatal("%v", err)
	}
	data, _ = json.MarshalIndent(rep, "", " ")
	if err := write(filepath.Join(*out, "instr.json"), data); err != nil {
		fatal("%v", err)
	}
}

func write(path string, data []byte) error {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	return os.WriteFile(path, data, 0o644)
}

func modulePath(file string) (string, error) {
	data, err := os.ReadFile(file)
	if err != nil {
		return "", err
	}
	for _, line := range strings.Split(string(data), "\n") {
		f := strings.Fields(line)
		if len(f) >= 2 && f[0] == "module" {
			return strings.Trim(f[1], `"`), nil
		}
	}
	return "", errors.New("no module line in go.mod")
}

func list(dir, pattern string) ([]pkgInfo, error) {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,GoFiles,CgoFiles,Module,Error", pattern)
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	var pkgs []pkgInfo
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			return pkgs, nil
		} else if err != nil {
			return nil, err
		}
		if p.Error != nil {
			return nil, errors.New(p.Error.Err)
		}
		pkgs = append(pkgs, p)
	}
}

func instrument(p pkgInfo, modPath string, exports map[string]string, out string, overlay map[string]string, rep *report) error {
	fset := token.NewFileSet()
	var files []*ast.File
	srcs := map[string][]byte{}

	for _, name := range p.GoFiles {
		path := filepath.Join(p.Dir, name)
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			return err
		}
		files = append(files, f)
		srcs[path] = src
	}

	lookup := func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %v", path)
		}
		return os.Open(e)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup), Error: func(error) {}}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		return fmt.Errorf("type-check: %w", err)
	}

	for _, f := range files {
		path := fset.Position(f.Pos()).Filename
		if f.Name == nil {
			continue
		}
		text := instrumentFile(fset, f, srcs[path], info, modPath, rep)
		rel := strings.ReplaceAll(strings.TrimPrefix(path, "/"), "/", "_")
		dst := filepath.Join(out, "src", rel)
		if err := write(dst, text); err != nil {
			return err
		}
		overlay[path] = dst
		rep.Files++
	}
	return nil
}

func instrumentFile(fset *token.FileSet, f *ast.File, src []byte, info *types.Info, modPath string, rep *report) []byte {
	var edits []edit
	n := 0
	add := func(pos, end token.Pos, text string) {
		edits = append(edits, edit{fset.Position(pos).Offset, fset.Position(end).Offset, text, n})
		n++
	}
	str := func(a, b token.Pos) string {
		return string(src[fset.Position(a).Offset:fset.Position(b).Offset])
	}

	uses := 0
	mapsUsed := ""
	temp := 0
	site := func() string {
		rep.Sites++
		uses++
		return "vfrt.Yield(" + strconv.Itoa(rep.Sites) + "); "
	}
	// Receive expressions with two results.
	both := map[ast.Expr]bool{}
	isChan := func(e ast.Expr) bool {
		tv, ok := info.Types[e]
		if !ok {
			return false
		}
		_, ok = tv.Type.Underlying().(*types.Chan)
		return ok
	}

	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			if _, empty := s.(*ast.EmptyStmt); !empty {
				add(s.Pos(), s.Pos(), site())
			}
		}
	}

	var visit func(node ast.Node) bool
	visit = func(node ast.Node) bool {
		switch x := node.(type) {
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				both[ast.Unparen(x.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				both[ast.Unparen(x.Values[0])] = true
			}
		case *ast.UnaryExpr:
			if x.Op != token.ARROW {
				return true
			}
			rep.ChanOps++
			uses++
			name := "Recv"
			if both[x] {
				name = "Recv2"
			}
			add(x.OpPos, x.X.Pos(), "vfrt."+name+"(")
			// The closing one comes after whatever is inserted at the same place inside.
			ast.Inspect(x.X, visit)
			add(x.X.End(), x.X.End(), ")")
			return false
		case *ast.SendStmt:
			rep.ChanOps++
			uses++
			add(x.Pos(), x.Pos(), "vfrt.Send(")
			ast.Inspect(x.Chan, visit)
			add(x.Chan.End(), x.Value.Pos(), ")(")
			ast.Inspect(x.Value, visit)
			add(x.Value.End(), x.Value.End(), ")")
			return false
		case *ast.SelectStmt:
			rep.ChanOps++
			uses++
			temp++
			if len(x.Body.List) == 0 {
				add(x.Pos(), x.End(), "vfrt.Select(false)")
				return false
			}
			var names, vals []string
			def := "false"
			for i, c := range x.Body.List {
				cc := c.(*ast.CommClause)
				nm := fmt.Sprintf("vfsel%dc%d", temp, i)
				if cc.Comm == nil {
					def = "true"
					stmts(cc.Body)
					for _, s := range cc.Body {
						ast.Inspect(s, visit)
					}
					continue
				}
				bind := ""
				var recv ast.Expr
				switch y := cc.Comm.(type) {
				case *ast.SendStmt:
					vals = append(vals, "vfrt.SendCase("+str(y.Chan.Pos(), y.Chan.End())+")("+str(y.Value.Pos(), y.Value.End())+")")
				case *ast.ExprStmt:
					recv = y.X
				case *ast.AssignStmt:
					recv = y.Rhs[0]
					l := str(y.Lhs[0].Pos(), y.Lhs[len(y.Lhs)-1].End())
					bind = " " + l + " " + y.Tok.String() + " " + nm + ".V"
					if len(y.Lhs) == 2 {
						bind += ", " + nm + ".OK"
					}
					bind += ";"
				}
				if recv != nil {
					ch := ast.Unparen(recv).(*ast.UnaryExpr).X
					vals = append(vals, "vfrt.RecvCase("+str(ch.Pos(), ch.End())+")")
				}
				add(cc.Case, cc.Colon+1, fmt.Sprintf("case %d:%s", len(names), bind))
				names = append(names, nm)
				stmts(cc.Body)
				for _, s := range cc.Body {
					ast.Inspect(s, visit)
				}
			}
			init := ""
			if len(names) > 0 {
				init = strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
			}
			add(x.Select, x.Body.Lbrace, "switch "+init+"vfrt.Select("+strings.Join(append([]string{def}, names...), ", ")+") ")
			if def == "false" {
				add(x.Body.Rbrace, x.Body.Rbrace, "default: panic(\"no case\")\n")
			}
			return false
		case *ast.BlockStmt:
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause:
					return true
				}
			}
			stmts(x.List)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				add(x.Body.Lbrace+1, x.Body.Lbrace+1, " "+site())
			}
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.GoStmt:
			rep.GoStmts++
			uses++
			call := x.Call
			temp++
			if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
				add(x.Go, fl.Pos(), "vfrt.Go(")
				add(fl.End(), call.End(), ")")
				return true
			}
			// Evaluate function and arguments now, call later.
			var names, vals []string
			base := fmt.Sprintf("vfgo%d", temp)
			names = append(names, base+"f")
			vals = append(vals, str(call.Fun.Pos(), call.Fun.End()))
			var pass []string
			for i, a := range call.Args {
				nm := fmt.Sprintf("%sa%d", base, i)
				names = append(names, nm)
				vals = append(vals, str(a.Pos(), a.End()))
				pass = append(pass, nm)
			}
			args := strings.Join(pass, ", ")
			if call.Ellipsis.IsValid() {
				args += "..."
			}
			add(x.Pos(), x.End(), fmt.Sprintf("{ %s := %s; vfrt.Go(func() { %sf(%s) }) }",
				strings.Join(names, ", "), strings.Join(vals, ", "), base, args))
			return false
		case *ast.RangeStmt:
			tv, ok := info.Types[x.X]
			if !ok {
				return true
			}
			if isChan(x.X) {
				rep.ChanOps++
				uses++
				temp++
				c := fmt.Sprintf("vfch%d", temp)
				bind := ""
				if id, ok := x.Key.(*ast.Ident); x.Key != nil && !(ok && id.Name == "_") {
					bind = " " + str(x.Key.Pos(), x.Key.End()) + " " + x.Tok.String() + " " + c + "v;"
				} else {
					bind = " _ = " + c + "v;"
				}
				add(x.For, x.X.Pos(), "for "+c+" := ")
				ast.Inspect(x.X, visit)
				add(x.X.End(), x.Body.Lbrace, "; ; ")
				add(x.Body.Lbrace+1, x.Body.Lbrace+1, " "+c+"v, "+c+"ok := vfrt.Recv2("+c+"); if !"+c+"ok { break };"+bind+" ")
				ast.Inspect(x.Body, visit)
				return false
			}
			if _, isMap := tv.Type.Underlying().(*types.Map); !isMap {
				return true
			}
			rep.MapRanges++
			uses++
			temp++
			e := fmt.Sprintf("vfent%d", temp)
			blank := func(ex ast.Expr) bool {
				if ex == nil {
					return true
				}
				id, ok := ex.(*ast.Ident)
				return ok && id.Name == "_"
			}
			bind := ""
			tok := x.Tok.String()
			if !blank(x.Key) {
				bind += " " + str(x.Key.Pos(), x.Key.End()) + " " + tok + " " + e + ".K;"
			}
			if !blank(x.Value) {
				bind += " " + str(x.Value.Pos(), x.Value.End()) + " " + tok + " " + e + ".V();"
			}
			head := "for _, " + e + " := range vfrt.Entries("
			add(x.For, x.X.Pos(), head)
			add(x.X.End(), x.Body.Lbrace, ") ")
			add(x.Body.Lbrace+1, x.Body.Lbrace+1, " if !"+e+".Live() { continue };"+bind+" ")
		case *ast.CallExpr:
			sel, ok := unindex(call(x)).(*ast.SelectorExpr)
			if !ok {
				return true
			}
			id, ok := sel.X.(*ast.Ident)
			if !ok {
				return true
			}
			pn, ok := info.Uses[id].(*types.PkgName)
			if !ok || pn.Imported().Path() != "maps" {
				return true
			}
			switch sel.Sel.Name {
			case "Keys", "Values", "All":
				rep.MapIters++
				uses++
				mapsUsed = id.Name
				add(sel.Pos(), sel.End(), "vfrt.Maps"+sel.Sel.Name)
			}
		}
		return true
	}
	ast.Inspect(f, visit)

	for _, imp := range f.Imports {
		if imp.Path.Value == `"sync"` {
			rep.SyncImports++
			name := "sync "
			if imp.Name != nil {
				name = ""
			}
			add(imp.Path.Pos(), imp.Path.End(), name+strconv.Quote(modPath+"/verifrt/verifsync"))
		}
	}

	tail := ""
	if uses > 0 {
		add(f.Name.End(), f.Name.End(), "; import vfrt "+strconv.Quote(modPath+"/verifrt"))
	}
	if mapsUsed != "" {
		tail += "\nvar _ = " + mapsUsed + ".Clone[map[int]int]\n"
	}

	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		// Pure insertions precede replacements at the same position.
		pi, pj := edits[i].end == edits[i].off, edits[j].end == edits[j].off
		if pi != pj {
			return pi
		}
		return edits[i].order < edits[j].order
	})

	var buf bytes.Buffer
	last := 0
	for _, e := range edits {
		if e.off < last {
			fatal("overlapping edits in %v at offset %v", fset.Position(f.Pos()).Filename, e.off)
		}
		buf.Write(src[last:e.off])
		buf.WriteString(e.text)
		last = e.end
	}
	buf.Write(src[last:])
	buf.WriteString(tail)
	return buf.Bytes()
}

func call(c *ast.CallExpr) ast.Expr { return c.Fun }

func unindex(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.IndexExpr:
		return x.X
	case *ast.IndexListExpr:
		return x.X
	}
	return e
}
