package mm

import (
	"fmt"
	"go/types"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	. "verif/tool/engine"
)

// Module is the import path of the metamodel.
const Module = "github.com/openshift-online/ocm-api-metamodel"

// Session is the metamodel loaded for analysis.
type Session struct {
	Prog  *Program
	It    *Interp
	Base  *State
	flags Flags
}

// Open loads the metamodel.
func Open(dir string, setup ...func(it *Interp)) (*Session, error) {
	prog, errs := Load(LoadOptions{
		Dir:      dir,
		Patterns: []string{"./cmd/...", "./pkg/..."},
		Own:      func(path string) bool { return path == Module || strings.HasPrefix(path, Module+"/") },
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("can't load %s: %v", dir, errs)
	}
	s := &Session{Prog: prog, flags: Flags{}}
	lang := prog.Package("pkg/language")
	if lang == nil {
		return nil, fmt.Errorf("can't find the package of the language")
	}
	it, st, err := prog.Base(func(it *Interp) {
		m := &antlrModels{prog: prog, pkg: lang}
		m.register(it)
		s.flags.register(it)
		registerJSON(it)
		for _, f := range setup {
			f(it)
		}
		it.Interpretable = func(fn *ssa.Function) bool {
			if p := fn.Pkg; p != nil && p == lang && fn.Name() == "init" && fn.Synthetic != "" {
				return true
			}
			return prog.Interpretable(fn)
		}
	})
	if err != nil {
		return nil, err
	}
	s.It, s.Base = it, st
	return s, nil
}

// Result is one of the outcomes of a command.
type Result struct {
	S     *State
	It    *Interp
	Exit  int // -1 for crash
	Crash string
	Where string
}

// Stderr returns the errors reported, without colors.
func (r *Result) Stderr() string {
	t := r.It.Files(r.S)["<stderr>"]
	t = strings.ReplaceAll(t, "\033[0;31m", "")
	t = strings.ReplaceAll(t, "\033[m", "")
	return t
}

// Output returns the files generated inside a directory, with paths relative to it.
func (r *Result) Output(dir string) map[string]string {
	m := map[string]string{}
	for k, v := range r.It.Files(r.S) {
		if strings.HasPrefix(k, dir+"/") {
			m[strings.TrimPrefix(k, dir+"/")] = v
		}
	}
	return m
}

// Input is what is given to a command.
type Input struct {
	Files map[string]string // relative to the /model directory
	Dirs  []string
	// Inputs are the directories given to the reader, by default only the model directory.
	Inputs []string
	Flags  map[string]interface{}
	// Order of the iteration of maps.
	MapOrder int
	Setup    func(it *Interp)
	// Existing are the files that already exist in the output directory.
	Existing map[string]string
}

// ModelDir and OutputDir are the virtual directories used for the input and the output.
const (
	ModelDir  = "/model"
	OutputDir = "/output"
)

// put creates the virtual files.
func (s *Session) put(it *Interp, st *State, in Input) {
	it.PutDir(st, ModelDir)
	for _, d := range in.Dirs {
		it.PutDir(st, filepath.Join(ModelDir, d))
	}
	var names []string
	for n := range in.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		it.PutFile(st, filepath.Join(ModelDir, n), in.Files[n])
	}
	names = nil
	for n := range in.Existing {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		it.PutFile(st, filepath.Join(OutputDir, n), in.Existing[n])
	}
}

// Run analyses a command, for example "check" or "generate/golang".
func (s *Session) Run(cmd string, in Input) (results []*Result, it *Interp, err error) {
	pkg := s.Prog.Package("cmd/metamodel/" + cmd)
	if pkg == nil {
		return nil, nil, fmt.Errorf("there is no command %s", cmd)
	}
	it = s.It.Copy()
	it.MapOrder = in.MapOrder
	it.Deadline = time.Now().Add(150 * time.Second)
	if in.Setup != nil {
		in.Setup(it)
	}
	err = Protect(func() {
		st := s.Base.Clone()
		s.put(it, st, in)
		flags := map[string]interface{}{"model": []string{ModelDir}, "output": OutputDir, "base": "gen"}
		for k, v := range in.Flags {
			flags[k] = v
		}
		for k, v := range flags {
			p, ok := s.flags[pkg.Pkg.Path()][k]
			if !ok {
				continue
			}
			switch x := v.(type) {
			case string:
				it.Store(st, p, C(x))
			case []string:
				var l []Value
				for _, e := range x {
					l = append(l, C(e))
				}
				it.Store(st, p, it.MakeSlice(st, l))
			}
		}
		fn := s.entry(it, st, pkg)
		outs := it.CallValue(st, fn, []Value{Sym{Term: "cmd", T: types.Typ[types.UnsafePointer]}, Nil{}})
		for _, o := range outs {
			r := &Result{S: o.S, It: it}
			switch {
			case o.Panic == "":
				if i, ok := o.V.(Iface); ok && i.T != nil {
					r.Exit = 1
				}
			case strings.HasPrefix(o.Panic, "exit:"):
				fmt.Sscanf(o.Panic, "exit:%d", &r.Exit)
				// The operating system only keeps the lower bits:
				r.Exit &= 255
			default:
				r.Exit = -1
				r.Crash = o.Panic
				r.Where = o.Where
			}
			results = append(results, r)
		}
	})
	return
}

// entry finds the function that implements the command.
func (s *Session) entry(it *Interp, st *State, pkg *ssa.Package) Value {
	g := pkg.Var("Cmd")
	if g == nil {
		it.Undecided("there is no Cmd variable in %s", pkg.Pkg.Path())
	}
	p, _ := it.Load(st, it.GlobalAddr(st, g), nil)
	v, msg := it.Load(st, p, nil)
	if msg != "" {
		it.Undecided("the command of %s isn't initialized", pkg.Pkg.Path())
	}
	t := g.Type().(*types.Pointer).Elem().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	for _, name := range []string{"Run", "RunE"} {
		for i := 0; i < t.NumFields(); i++ {
			if t.Field(i).Name() == name {
				if f, ok := v.(*Struct).F[i].(*Func); ok {
					return f
				}
			}
		}
	}
	it.Undecided("can't find the entry point of %s", pkg.Pkg.Path())
	return nil
}
