package engine

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is a loaded program.
type Program struct {
	SSA  *ssa.Program
	Pkgs []*packages.Package
	// Own are the packages of the program under analysis, in dependency order.
	Own []*ssa.Package
	own map[*types.Package]bool
}

// LoadOptions are the options of the Load function.
type LoadOptions struct {
	Dir      string
	Patterns []string
	Overlay  map[string][]byte
	// Own decides if a package belongs to the program under analysis.
	Own func(path string) bool
	Env []string
}

func loadEnv(flags string) []string {
	return append(os.Environ(), "GOWORK=off", "GOPROXY=off", "CGO_ENABLED=0", "GOFLAGS="+flags, "GOTOOLCHAIN=local")
}

// Load loads a program.
func Load(opts LoadOptions) (*Program, []error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     opts.Dir,
		Overlay: opts.Overlay,
		Env:     append(loadEnv("-mod=readonly"), opts.Env...),
	}
	pkgs, err := packages.Load(cfg, opts.Patterns...)
	if err != nil {
		return nil, []error{err}
	}
	var errs []error
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, fmt.Errorf("%s", e))
		}
	})
	if len(errs) > 0 {
		return &Program{Pkgs: pkgs}, errs
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	r := &Program{SSA: prog, Pkgs: pkgs, own: map[*types.Package]bool{}}
	seen := map[string]bool{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.Types == nil || seen[p.PkgPath] || !opts.Own(p.PkgPath) {
			return
		}
		seen[p.PkgPath] = true
		if sp := prog.Package(p.Types); sp != nil {
			r.Own = append(r.Own, sp)
			r.own[p.Types] = true
		}
	})
	return r, nil
}

// IsOwn returns true if the function belongs to the program under analysis.
func (p *Program) IsOwn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return p.own[fn.Pkg.Pkg]
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return p.own[o.Pkg()]
	}
	// Wrappers, thunks and bound methods:
	return fn.Synthetic != ""
}

var stdInterpreted = map[string]bool{
	"strings": true, "bytes": true, "sort": true, "slices": true, "maps": true, "path": true,
	"path/filepath": true, "unicode": true, "unicode/utf8": true, "strconv": true, "cmp": true,
	"math/bits": true, "iter": true, "errors": true, "fmt": true, "container/list": true,
	"container/heap": true, "internal/stringslite": true, "internal/bytealg": true, "io": true,
	"html": true, "io/fs": true,
}

// stdInitialized are the standard packages that have global variables that are used by the functions
// that are interpreted.
var stdInitialized = map[string]bool{
	"strings": true, "bytes": true, "strconv": true, "sort": true, "slices": true, "path": true,
}

// Interpretable returns the function that decides what to interpret.
func (p *Program) Interpretable(fn *ssa.Function) bool {
	if p.IsOwn(fn) {
		return true
	}
	for _, kind := range []string{"bound method wrapper", "thunk", "wrapper for"} {
		if strings.HasPrefix(fn.Synthetic, kind) {
			return true
		}
	}
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	var path string
	if f.Pkg != nil {
		path = f.Pkg.Pkg.Path()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		path = o.Pkg().Path()
	}
	if path == "fmt" || path == "io" || path == "io/fs" {
		return f.Signature.Recv() != nil
	}
	return stdInterpreted[path]
}

// Package finds a package.
func (p *Program) Package(suffix string) *ssa.Package {
	for _, o := range p.Own {
		if o.Pkg.Path() == suffix || strings.HasSuffix(o.Pkg.Path(), "/"+suffix) {
			return o
		}
	}
	return nil
}

// Func finds a function or method, for example "concepts.NewModel" or "concepts.(*Model).AddService".
func (p *Program) Func(pkg, name string) *ssa.Function {
	sp := p.Package(pkg)
	if sp == nil {
		return nil
	}
	if strings.HasPrefix(name, "(") {
		k := strings.Index(name, ").")
		tn := strings.TrimPrefix(name[1:k], "*")
		m := sp.Type(tn)
		if m == nil {
			return nil
		}
		var t types.Type = m.Type()
		if strings.HasPrefix(name, "(*") {
			t = types.NewPointer(t)
		}
		return p.SSA.LookupMethod(t, sp.Pkg, name[k+2:])
	}
	return sp.Func(name)
}

// Base creates an interpreter and the state after running the initializers.
func (p *Program) Base(setup func(it *Interp)) (it *Interp, st *State, err error) {
	it = New(p.SSA)
	it.Interpretable = p.Interpretable
	if setup != nil {
		setup(it)
	}
	st = &State{}
	err = Protect(func() {
		it.AllocGlobals(st, func(sp *ssa.Package) bool { return p.own[sp.Pkg] || stdInitialized[sp.Pkg.Path()] })
		it.InitFS(st)
		for _, sp := range p.Own {
			st = it.InitPackage(st, sp)
		}
	})
	return
}

// Copy creates an independent interpreter that shares the program.
func (it *Interp) Copy() *Interp {
	n := *it
	n.Models = map[string]Model{}
	for k, v := range it.Models {
		n.Models[k] = v
	}
	n.Called = map[*ssa.Function]int{}
	n.Unknown = map[string]int{}
	n.Havoc = map[string]int{}
	n.TraceLog = nil
	n.stack = nil
	n.Steps = 0
	n.SourceHits = 0
	return &n
}

// Protect runs the function and converts the panics raised for undecided analysis into errors.
func Protect(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Undecided); ok {
				err = u
				return
			}
			if d, ok := r.(dPanic); ok {
				err = fmt.Errorf("panic outside of direct model: %s %s", d.o.Panic, d.o.Where)
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

// SortedKeys returns the sorted keys of a map.
func SortedKeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
