package engine

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"path"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Unit is a set of generated Go files, with names relative to the base package.
type Unit struct {
	Base  string
	Files map[string]string

	// Errors are the syntax and type errors.
	Errors []GenError
	pkgs   map[string]*genPkg
	order  []*genPkg
}

// GenError is an error of generated code.
type GenError struct {
	File string
	Line int
	Msg  string
	Text string // of the line
}

type genPkg struct {
	path  string
	files []*ast.File
	deps  []string
	types *types.Package
	info  *types.Info
	mark  int
}

// stdSelectors are the packages that goimports adds when they are missing.
var stdSelectors = map[string]string{
	"bufio": "bufio", "bytes": "bytes", "context": "context", "errors": "errors", "fmt": "fmt", "io": "io", "ioutil": "io/ioutil",
	"http": "net/http", "url": "net/url", "os": "os", "path": "path", "filepath": "path/filepath", "sort": "sort",
	"strconv": "strconv", "strings": "strings", "time": "time", "sync": "sync", "math": "math", "json": "encoding/json",
	"reflect": "reflect", "regexp": "regexp", "unicode": "unicode", "utf8": "unicode/utf8", "atomic": "sync/atomic", "net": "net",
	"bits": "math/bits", "log": "log", "base64": "encoding/base64", "hex": "encoding/hex", "runtime": "runtime",
}

// fixImports does the changes of imports that goimports would do: removes those that aren't used, and
// adds the missing packages of the standard library.
func fixImports(fset *token.FileSet, f *ast.File, names func(path string) string) {
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok && id.Obj == nil {
				used[id.Name] = true
			}
		}
		return true
	})
	have := map[string]bool{}
	for _, i := range append([]*ast.ImportSpec(nil), f.Imports...) {
		p, _ := strconv.Unquote(i.Path.Value)
		name := ""
		if i.Name != nil {
			name = i.Name.Name
		}
		sel := name
		if sel == "" {
			sel = names(p)
		}
		if sel == "_" || sel == "." {
			continue
		}
		if !used[sel] {
			astutil.DeleteNamedImport(fset, f, name, p)
			continue
		}
		have[sel] = true
	}
	var missing []string
	for u := range used {
		if u == "jsoniter" && !have[u] {
			// It is found because it is a dependency of the module:
			astutil.AddNamedImport(fset, f, u, "github.com/json-iterator/go")
		}
		if !have[u] && stdSelectors[u] != "" {
			missing = append(missing, u)
		}
	}
	sort.Strings(missing)
	for _, u := range missing {
		astutil.AddImport(fset, f, stdSelectors[u])
	}
}

// LoadUnits parses, type checks and builds the SSA form of generated code. The directory should contain
// the module where the dependencies can be found.
func LoadUnits(dir string, units []*Unit) (*Program, error) {
	fset := token.NewFileSet()
	external := map[string]bool{"github.com/json-iterator/go": true, "net/http": true, "context": true, "io": true, "time": true}
	self := map[string]string{} // path -> name of package
	for _, u := range units {
		u.pkgs = map[string]*genPkg{}
		var names []string
		for n := range u.Files {
			if strings.HasSuffix(n, ".go") {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			f, err := parser.ParseFile(fset, u.Base+"/"+n, u.Files[n], 0)
			if err != nil {
				u.fail(fset, err)
				continue
			}
			p := path.Join(u.Base, path.Dir(n))
			if u.pkgs[p] == nil {
				u.pkgs[p] = &genPkg{path: p}
				self[p] = f.Name.Name
			}
			u.pkgs[p].files = append(u.pkgs[p].files, f)
		}
	}
	pkgName := func(p string) string {
		if n, ok := self[p]; ok {
			return n
		}
		if p == "github.com/json-iterator/go" {
			return "jsoniter"
		}
		b := path.Base(p)
		if len(b) > 1 && b[0] == 'v' && b[1] >= '0' && b[1] <= '9' {
			b = path.Base(path.Dir(p))
		}
		if strings.HasSuffix(b, ".go") || strings.HasPrefix(b, "go-") {
			b = strings.TrimPrefix(strings.TrimSuffix(b, ".go"), "go-")
		}
		return b
	}
	for _, u := range units {
		for _, p := range u.pkgs {
			for _, f := range p.files {
				fixImports(fset, f, pkgName)
				for _, i := range f.Imports {
					q, _ := strconv.Unquote(i.Path.Value)
					if _, ok := self[q]; ok {
						p.deps = append(p.deps, q)
					} else {
						external[q] = true
					}
				}
			}
		}
	}
	var patterns []string
	for e := range external {
		patterns = append(patterns, e)
	}
	sort.Strings(patterns)
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Fset: fset, Env: loadEnv("-mod=readonly")}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	known := map[string]*types.Package{"unsafe": types.Unsafe}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if len(p.Errors) == 0 && p.Types != nil {
			known[p.PkgPath] = p.Types
		}
	})
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	r := &Program{SSA: prog, Pkgs: pkgs, own: map[*types.Package]bool{}}
	for _, u := range units {
		var visit func(p *genPkg)
		visit = func(p *genPkg) {
			if p.mark != 0 {
				return
			}
			p.mark = 1
			sort.Strings(p.deps)
			for _, d := range p.deps {
				if q := u.pkgs[d]; q != nil {
					visit(q)
				}
			}
			u.order = append(u.order, p)
		}
		var paths []string
		for p := range u.pkgs {
			paths = append(paths, p)
		}
		sort.Strings(paths)
		for _, p := range paths {
			visit(u.pkgs[p])
		}
		for _, p := range u.order {
			p.info = &types.Info{
				Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
				Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
				Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
			}
			conf := types.Config{
				Importer: importerFunc(func(q string) (*types.Package, error) {
					if k := known[q]; k != nil {
						return k, nil
					}
					return nil, fmt.Errorf("can't import %s", q)
				}),
				Error: func(err error) { u.fail(fset, err) },
			}
			t, _ := conf.Check(p.path, fset, p.files, p.info)
			p.types = t
			if len(u.Errors) == 0 {
				known[p.path] = t
			} else if t != nil {
				// Avoid cascades of errors:
				known[p.path] = t
			}
		}
		if len(u.Errors) > 0 {
			continue
		}
		for _, p := range u.order {
			sp := prog.CreatePackage(p.types, p.files, p.info, true)
			r.Own = append(r.Own, sp)
			r.own[p.types] = true
		}
	}
	prog.Build()
	return r, nil
}

func (u *Unit) fail(fset *token.FileSet, err error) {
	if te, ok := err.(types.Error); ok {
		p := fset.Position(te.Pos)
		u.add(p, te.Msg)
		return
	}
	u.add(token.Position{}, err.Error())
}

func (u *Unit) add(p token.Position, msg string) {
	e := GenError{File: p.Filename, Line: p.Line, Msg: msg}
	if p.Filename == "" {
		// Syntax errors contain the position in the text:
		f := strings.SplitN(msg, ":", 4)
		if len(f) == 4 {
			e.File = f[0]
			e.Line, _ = strconv.Atoi(f[1])
			e.Msg = strings.TrimSpace(f[3])
		}
	}
	if t, ok := u.Files[strings.TrimPrefix(e.File, u.Base+"/")]; ok {
		l := strings.Split(t, "\n")
		if e.Line > 0 && e.Line <= len(l) {
			e.Text = strings.TrimSpace(l[e.Line-1])
		}
	}
	u.Errors = append(u.Errors, e)
}

type importerFunc func(path string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }
