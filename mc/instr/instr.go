// Package instr inserts scheduling points into the Go files of the packages
// of a module, as a build overlay: the files of the module are not touched.
//
// Before every statement a call of verifsched.P is inserted, as a coarse
// one if the statement mentions a package variable, writes through a selector
// or an index, or is the first one of a function. Increments and appends to
// variables and fields are split into a read and a write with a point between
// them. The package sync is replaced by a cooperative one. For every package
// a function is generated which initializes its variables anew.
package instr

import (
	"bytes"
	"embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

//go:embed sched/*.go vsync/*.go
var runtime embed.FS

// Info is what was instrumented.
type Info struct {
	Overlay     string // file name of the overlay
	Packages    int
	Files       int
	Points      int // fine and coarse
	Coarse      int
	Splits      int
	Vars        int      // package variables reset between executions
	Unsupported []string // constructs the scheduler doesn't control
}

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	Imports    []string
	Module     *struct{ Path string }
}

type edit struct {
	pos, end int
	text     string
	order    int
}

type file struct {
	name  string
	src   []byte
	edits []edit
}

func (f *file) insert(pos int, text string) {
	f.edits = append(f.edits, edit{pos, pos, text, len(f.edits)})
}
func (f *file) replace(pos, end int, text string) {
	f.edits = append(f.edits, edit{pos, end, text, len(f.edits)})
}

// render applies the edits within [from,to).
func (f *file) render(from, to int) string {
	es := append([]edit{}, f.edits...)
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].pos != es[j].pos {
			return es[i].pos < es[j].pos
		}
		return es[i].order < es[j].order
	})
	var b strings.Builder
	at := from
	for _, e := range es {
		if e.pos < from || e.end > to || e.pos < at || e.pos == to && e.end == to && e.pos != from && to != len(f.src) {
			continue
		}
		b.Write(f.src[at:e.pos])
		b.WriteString(e.text)
		at = e.end
	}
	b.Write(f.src[at:to])
	return b.String()
}

// Generate instruments the packages of the module in dir.
func Generate(dir, out string) (*Info, error) {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,Export,Standard,Imports,Module", "./...")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	b, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %w\n%s", err, stderr.String())
	}
	exports := map[string]string{}
	var pkgs []*pkgInfo
	modPath := ""
	for d := json.NewDecoder(bytes.NewReader(b)); ; {
		p := &pkgInfo{}
		if err := d.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		exports[p.ImportPath] = p.Export
		if !p.Standard && p.Module != nil && p.Name != "main" && strings.HasPrefix(p.Dir+"/", dir+"/") {
			pkgs = append(pkgs, p) // in order of dependency
			modPath = p.Module.Path
		}
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	if err := os.RemoveAll(out); err != nil {
		return nil, err
	}
	if err := os.MkdirAll(out, 0o755); err != nil {
		return nil, err
	}
	info := &Info{Overlay: filepath.Join(out, "overlay.json")}
	replace := map[string]string{}
	add := func(target, name string, content []byte) error {
		p := filepath.Join(out, name)
		replace[target] = p
		return os.WriteFile(p, content, 0o644)
	}
	schedPath, syncPath := modPath+"/verifsched", modPath+"/verifsync"
	b, _ = runtime.ReadFile("sched/sched.go")
	if err := add(filepath.Join(dir, "verifsched", "sched.go"), "verifsched.go", b); err != nil {
		return nil, err
	}
	b, _ = runtime.ReadFile("vsync/vsync.go")
	b = bytes.ReplaceAll(b, []byte("verif.local/mc/instr/sched"), []byte(schedPath))
	if err := add(filepath.Join(dir, "verifsync", "vsync.go"), "verifsync.go", b); err != nil {
		return nil, err
	}

	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	for pi, p := range pkgs {
		info.Packages++
		var files []*file
		var asts []*ast.File
		for _, n := range p.GoFiles {
			name := filepath.Join(p.Dir, n)
			src, err := os.ReadFile(name)
			if err != nil {
				return nil, err
			}
			a, err := parser.ParseFile(fset, name, src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			files = append(files, &file{name: name, src: src})
			asts = append(asts, a)
		}
		ti := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{},
		}
		conf := types.Config{Importer: imp}
		tp, err := conf.Check(p.ImportPath, fset, asts, ti)
		if err != nil {
			return nil, err
		}
		ins := &inserter{fset: fset, ti: ti, info: info, pkg: tp}
		byName := map[string]int{}
		inits := make([]string, 0)
		for i, a := range asts {
			f := files[i]
			byName[f.name] = i
			ins.f = f
			ins.file(a)
		}
		// the initializers, rendered with their edits, in the order of initialization
		tail := make([]strings.Builder, len(files))
		var calls []string
		n := 0
		fresh := func() string { n++; return fmt.Sprintf("verifInit_%d", n) }
		hasInit := map[types.Object]bool{}
		var late []string
		for _, o := range ti.InitOrder {
			var lhs []string
			for _, v := range o.Lhs {
				hasInit[v] = true
				lhs = append(lhs, v.Name())
			}
			if strings.Join(lhs, "") == strings.Repeat("_", len(lhs)) {
				continue
			}
			pos := fset.Position(o.Rhs.Pos())
			i := byName[pos.Filename]
			rhs := files[i].render(pos.Offset, fset.Position(o.Rhs.End()).Offset)
			name := fresh()
			fmt.Fprintf(&tail[i], "\nfunc %s() {\n%s = %s\n}\n", name, strings.Join(lhs, ", "), rhs)
			late = append(late, name)
			info.Vars += len(lhs)
		}
		for i, a := range asts {
			for _, d := range a.Decls {
				switch d := d.(type) {
				case *ast.GenDecl:
					if d.Tok != token.VAR {
						continue
					}
					for _, s := range d.Specs {
						for _, id := range s.(*ast.ValueSpec).Names {
							obj := ti.Defs[id]
							if id.Name == "_" || obj == nil || hasInit[obj] {
								continue
							}
							name := fresh()
							// an alias of the type: *new(T) copies locks, which is wanted here
							fmt.Fprintf(&tail[i], "\nfunc %s() {\nverifZero(&%s)\n}\n", name, id.Name)
							calls = append(calls, name)
							info.Vars++
						}
					}
				case *ast.FuncDecl:
					if d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
						name := fresh()
						off := fset.Position(d.Name.Pos()).Offset
						files[i].replace(off, off+len("init"), name)
						fmt.Fprintf(&tail[i], "\nfunc init() { %s() }\n", name)
						inits = append(inits, name)
					}
				}
			}
		}
		calls = append(append(calls, late...), inits...)
		fmt.Fprintf(&tail[0], "\nfunc verifZero[T any](p *T) { var z T; *p = z }\n\nfunc verifReset() {\n")
		for _, c := range calls {
			fmt.Fprintf(&tail[0], "\t%s()\n", c)
		}
		fmt.Fprintf(&tail[0], "}\n\nfunc init() { verifsched.OnReset(verifReset) }\n")
		for i, a := range asts {
			f := files[i]
			off := fset.Position(a.Name.End()).Offset
			f.insert(off, fmt.Sprintf("; import verifsched %q", schedPath))
			for _, im := range a.Imports {
				if im.Path.Value == `"sync"` {
					name := "sync"
					if im.Name != nil {
						name = im.Name.Name
					}
					from := fset.Position(im.Pos()).Offset
					f.replace(from, fset.Position(im.End()).Offset, fmt.Sprintf("%s %q", name, syncPath))
				}
			}
			text := f.render(0, len(f.src)) + "\n\nvar _ = verifsched.P\n" + tail[i].String()
			if err := add(f.name, fmt.Sprintf("p%d_%s", pi, filepath.Base(f.name)), []byte(text)); err != nil {
				return nil, err
			}
			info.Files++
		}
	}
	b, _ = json.Marshal(map[string]any{"Replace": replace})
	return info, os.WriteFile(info.Overlay, b, 0o644)
}

type inserter struct {
	fset *token.FileSet
	ti   *types.Info
	pkg  *types.Package
	info *Info
	f    *file
}

func (in *inserter) off(p token.Pos) int { return in.fset.Position(p).Offset }

// site returns a new coarse place.
func (in *inserter) site() int {
	in.info.Points++
	in.info.Coarse++
	return -in.info.Points
}

func (in *inserter) unsupported(n ast.Node, what string) {
	in.info.Unsupported = append(in.info.Unsupported, fmt.Sprintf("%s: %s", in.fset.Position(n.Pos()), what))
}

func (in *inserter) file(a *ast.File) {
	ast.Inspect(a, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			if n.Body != nil {
				in.list(n.Body.List, true)
			}
		case *ast.FuncLit:
			in.list(n.Body.List, true)
		case *ast.BlockStmt:
			in.list(n.List, false)
		case *ast.CaseClause:
			in.list(n.Body, false)
		case *ast.CommClause:
			in.list(n.Body, false)
		case *ast.GoStmt:
			in.unsupported(n, "go statement")
		case *ast.SelectStmt:
			blocking := true
			for _, c := range n.Body.List {
				if c.(*ast.CommClause).Comm == nil {
					blocking = false
				}
			}
			if blocking {
				in.unsupported(n, "select")
			}
		}
		return true
	})
}

var done = map[ast.Stmt]bool{}

func (in *inserter) list(list []ast.Stmt, entry bool) {
	for i, s := range list {
		if done[s] {
			continue
		}
		done[s] = true
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		in.info.Points++
		site := in.info.Points
		if entry && i == 0 || in.coarse(s) {
			in.info.Coarse++
			site = -site
		}
		in.f.insert(in.off(s.Pos()), fmt.Sprintf("verifsched.P(%d);", site))
		in.split(s)
	}
}

// simple are expressions which can be evaluated twice.
func simple(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return e.Name != "_"
	case *ast.SelectorExpr:
		return simple(e.X)
	case *ast.StarExpr:
		return simple(e.X)
	case *ast.ParenExpr:
		return simple(e.X)
	}
	return false
}

func (in *inserter) local(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	if !ok {
		return false
	}
	v, ok := in.ti.Uses[id].(*types.Var)
	return ok && v.Parent() != in.pkg.Scope()
}

func (in *inserter) split(s ast.Stmt) {
	text := func(n ast.Node) string { return string(in.f.src[in.off(n.Pos()):in.off(n.End())]) }
	noFuncLit := func(n ast.Node) bool {
		ok := true
		ast.Inspect(n, func(n ast.Node) bool {
			if _, is := n.(*ast.FuncLit); is {
				ok = false
			}
			return ok
		})
		return ok
	}
	switch s := s.(type) {
	case *ast.IncDecStmt:
		if !simple(s.X) || in.local(s.X) {
			return
		}
		in.info.Splits++
		x := text(s.X)
		in.f.replace(in.off(s.Pos()), in.off(s.End()), fmt.Sprintf("{ verifT := %s; verifsched.P(%d); %s = verifT; %s%s }", x, in.site(), x, x, s.Tok))
	case *ast.AssignStmt:
		if len(s.Lhs) != 1 || len(s.Rhs) != 1 || !simple(s.Lhs[0]) || in.local(s.Lhs[0]) || !noFuncLit(s) {
			return
		}
		x := text(s.Lhs[0])
		switch s.Tok {
		case token.ASSIGN:
			call, ok := s.Rhs[0].(*ast.CallExpr)
			if !ok {
				return
			}
			if id, ok := call.Fun.(*ast.Ident); !ok || id.Name != "append" {
				return
			}
			in.info.Splits++
			in.f.replace(in.off(s.Pos()), in.off(s.End()), fmt.Sprintf("{ verifT := %s; verifsched.P(%d); %s = verifT }", text(s.Rhs[0]), in.site(), x))
		case token.ADD_ASSIGN, token.SUB_ASSIGN, token.OR_ASSIGN, token.MUL_ASSIGN:
			in.info.Splits++
			in.f.replace(in.off(s.Pos()), in.off(s.End()), fmt.Sprintf("{ verifT := %s; verifsched.P(%d); verifT %s %s; %s = verifT }", x, in.site(), s.Tok, text(s.Rhs[0]), x))
		}
	}
}

// coarse reports whether the statement itself (not the blocks inside)
// mentions a package variable or writes through a selector or index.
func (in *inserter) coarse(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.Ident:
			v, ok := in.ti.Uses[n].(*types.Var)
			if ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() && !constantVar(v) {
				found = true
			}
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				switch l.(type) {
				case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
					found = true
				}
			}
		case *ast.IncDecStmt:
			if !in.local(n.X) {
				found = true
			}
		case *ast.CallExpr:
			if sel, ok := n.Fun.(*ast.SelectorExpr); ok {
				if o := in.ti.Uses[sel.Sel]; o != nil && o.Pkg() != nil && (o.Pkg().Path() == "sync" || o.Pkg().Path() == "sync/atomic") {
					found = true
				}
			}
		}
		return !found
	})
	return found
}

// constantVar are variables of the module which are errors or types: never written usually.
func constantVar(v *types.Var) bool {
	t := v.Type().String()
	return t == "error" || t == "reflect.Type"
}
