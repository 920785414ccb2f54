package mm

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/tool/engine"
)

// View is used to query objects of an abstract state, interpreting their methods.
type View struct {
	S  *Session
	It *Interp
	St *State
	// ParamNames are the names of the parameters of annotations.
	ParamNames []string
}

// Obj is an object and its type.
type Obj struct {
	V Value
	T types.Type
}

// Nil returns true if the object is nil.
func (o Obj) Nil() bool {
	switch x := o.V.(type) {
	case Nil:
		return true
	case Iface:
		return x.T == nil
	}
	return o.V == nil
}

// Same returns true if both are the same object.
func (o Obj) Same(x Obj) bool { return Show(o.V) == Show(x.V) }

// TypeOf finds a type of the metamodel, for example "pkg/concepts.Type".
func (v *View) TypeOf(name string) types.Type {
	i := strings.LastIndex(name, ".")
	pkg := v.S.Prog.Package(name[:i])
	if pkg == nil || pkg.Type(name[i+1:]) == nil {
		v.It.Undecided("there is no type %s", name)
	}
	return pkg.Type(name[i+1:]).Type()
}

// FuncOf calls a function of the metamodel.
func (v *View) FuncOf(pkg, name string, args ...Value) Obj {
	p := v.S.Prog.Package(pkg)
	if p == nil || p.Func(name) == nil {
		v.It.Undecided("there is no function %s in %s", name, pkg)
	}
	fn := p.Func(name)
	return v.result(fn, v.It.CallFn(v.St, fn, args, nil, nil))
}

// Crash is the panic used when the methods called crash.
type Crash struct{ Msg, Where string }

func (v *View) result(fn *ssa.Function, outs []Outcome) Obj {
	if len(outs) != 1 {
		v.It.Undecided("%s has %d outcomes", fn, len(outs))
	}
	if outs[0].Panic != "" {
		panic(Crash{outs[0].Panic, outs[0].Where})
	}
	v.St = outs[0].S
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return Obj{}
	case 1:
		return Obj{outs[0].V, r.At(0).Type()}
	}
	return Obj{outs[0].V, r}
}

// Method finds a method.
func (v *View) Method(t types.Type, name string) *ssa.Function {
	if _, ok := t.Underlying().(*types.Struct); ok {
		t = types.NewPointer(t)
	}
	ms := v.It.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return v.It.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// Call calls a method.
func (v *View) Call(o Obj, name string, args ...Value) Obj {
	fn := v.Method(o.T, name)
	if fn == nil {
		v.It.Undecided("there is no method %s in %s", name, o.T)
	}
	return v.result(fn, v.It.CallFn(v.St, fn, append([]Value{o.V}, args...), nil, nil))
}

// Item returns an item of a tuple.
func (o Obj) Item(i int) Obj {
	return Obj{o.V.(Tuple)[i], o.T.(*types.Tuple).At(i).Type()}
}

// List returns the elements of a slice.
func (v *View) List(o Obj) (r []Obj) {
	t := o.T.Underlying().(*types.Slice).Elem()
	for _, e := range v.It.Elems(v.St, o.V) {
		r = append(r, Obj{e, t})
	}
	return
}

// Text returns a string.
func (v *View) Text(o Obj) string {
	if s, ok := o.V.(Str); ok {
		return s.Render()
	}
	v.It.Undecided("%s isn't text", Show(o.V))
	return ""
}

// Bool returns a boolean.
func (v *View) Bool(o Obj) bool {
	if b, ok := o.V.(bool); ok {
		return b
	}
	v.It.Undecided("%s isn't boolean", Show(o.V))
	return false
}

// NameOf returns the name of a concept.
func (v *View) NameOf(o Obj) string {
	n := v.Call(o, "Name")
	if n.Nil() {
		return "-"
	}
	return v.NameText(n)
}

// NameText returns the words of a name.
func (v *View) NameText(n Obj) string {
	var l []string
	for _, w := range v.List(v.Call(n, "Words")) {
		l = append(l, v.Text(v.Call(w, "String")))
	}
	return strings.Join(l, "_")
}

func (v *View) plain(o Obj) string {
	switch x := o.V.(type) {
	case Iface:
		switch y := x.V.(type) {
		case Str:
			return fmt.Sprintf("%s:%s", x.T, y.Render())
		default:
			return fmt.Sprintf("%s:%v", x.T, y)
		}
	case Nil:
		return "<nil>:<nil>"
	}
	return Show(o.V)
}

func (v *View) dumpBase(o Obj) string {
	var l []string
	for _, a := range v.List(v.Call(o, "Annotations")) {
		// The parameters aren't listed by the API, so they are looked up by name:
		var p []string
		for _, n := range v.ParamNames {
			if x := v.Call(a, "FindParameter", C(n)); !x.Nil() {
				p = append(p, n+"="+v.plain(x))
			}
		}
		sort.Strings(p)
		l = append(l, v.Text(v.Call(a, "Name"))+"("+strings.Join(p, ",")+")")
	}
	return fmt.Sprintf("%s doc=%q annotations=%v", v.NameOf(o), v.Text(v.Call(o, "Doc")), l)
}

func (v *View) tname(o Obj) string {
	if o.Nil() {
		return "-"
	}
	return v.NameOf(o)
}

// KindOf returns the kind of a type.
func (v *View) KindOf(t Obj) string {
	for _, k := range []string{"Class", "Struct", "Enum", "Interface", "List", "Map", "Scalar"} {
		if v.Bool(v.Call(t, "Is"+k)) {
			return strings.ToLower(k)
		}
	}
	return "undefined"
}

// DumpModel returns a textual representation of a model, one line per fact, in the same format used
// by the specification. It also returns inconsistencies of owners and lookups.
func (v *View) DumpModel(m Obj) (r, bad []string) {
	p := func(format string, args ...interface{}) { r = append(r, fmt.Sprintf(format, args...)) }
	owner := func(what string, o, want Obj) {
		if got := v.Call(o, "Owner"); !got.Same(want) {
			bad = append(bad, fmt.Sprintf("the owner of %s %s isn't the concept that contains it", what, v.NameOf(o)))
		}
	}
	find := func(what string, in Obj, method string, o Obj) {
		if got := v.Call(in, method, v.Call(o, "Name").V); !got.Same(o) {
			bad = append(bad, fmt.Sprintf("%s doesn't find %s %s", method, what, v.NameOf(o)))
		}
	}
	for _, s := range v.List(v.Call(m, "Services")) {
		p("service %s", v.NameOf(s))
		owner("service", s, m)
		find("service", m, "FindService", s)
		for _, ver := range v.List(v.Call(s, "Versions")) {
			vp := v.NameOf(s) + "/" + v.NameOf(ver)
			p("version %s", vp)
			owner("version", ver, s)
			find("version", s, "FindVersion", ver)
			for _, t := range v.List(v.Call(ver, "Types")) {
				tp := vp + "/" + v.NameOf(t)
				p("type %s: %s kind=%s element=%s index=%s", tp, v.dumpBase(t), v.KindOf(t), v.tname(v.Call(t, "Element")), v.tname(v.Call(t, "Index")))
				owner("type", t, ver)
				find("type", ver, "FindType", t)
				for _, a := range v.List(v.Call(t, "Attributes")) {
					at := v.Call(a, "Type")
					p("attribute %s: %s type=%s link=%v", tp, v.dumpBase(a), v.tname(at), v.Bool(v.Call(a, "Link")))
					owner("attribute", a, t)
					find("attribute", t, "FindAttribute", a)
					find("type of attribute", ver, "FindType", at)
				}
				for _, x := range v.List(v.Call(t, "Values")) {
					p("value %s: %s", tp, v.dumpBase(x))
					if !v.Call(x, "Type").Same(t) {
						bad = append(bad, "the type of value "+v.NameOf(x)+" isn't the one that contains it")
					}
				}
				for _, x := range []string{"Element", "Index"} {
					if e := v.Call(t, x); !e.Nil() {
						find("type", ver, "FindType", e)
					}
				}
			}
			root := v.Call(ver, "Root")
			for _, x := range v.List(v.Call(ver, "Resources")) {
				rp := vp + "/" + v.NameOf(x)
				isRoot := v.Bool(v.Call(x, "IsRoot"))
				if isRoot != root.Same(x) {
					bad = append(bad, "IsRoot and Root don't agree for "+v.NameOf(x))
				}
				p("resource %s: %s root=%v", rp, v.dumpBase(x), isRoot)
				owner("resource", x, ver)
				find("resource", ver, "FindResource", x)
				for _, y := range v.List(v.Call(x, "Methods")) {
					p("method %s: %s", rp, v.dumpBase(y))
					owner("method", y, x)
					find("method", x, "FindMethod", y)
					for _, z := range v.List(v.Call(y, "Parameters")) {
						p("parameter %s/%s: %s type=%s in=%v out=%v default=%s", rp, v.NameOf(y), v.dumpBase(z), v.tname(v.Call(z, "Type")),
							v.Bool(v.Call(z, "In")), v.Bool(v.Call(z, "Out")), v.plain(v.Call(z, "Default")))
						owner("parameter", z, y)
						find("parameter", y, "GetParameter", z)
						find("type of parameter", ver, "FindType", v.Call(z, "Type"))
					}
				}
				for _, y := range v.List(v.Call(x, "Locators")) {
					t := v.Call(y, "Target")
					p("locator %s: %s variable=%v target=%s", rp, v.dumpBase(y), v.Bool(v.Call(y, "Variable")), v.tname(t))
					owner("locator", y, x)
					if !t.Nil() {
						find("target", ver, "FindResource", t)
					}
				}
			}
			for _, e := range v.List(v.Call(ver, "Errors")) {
				p("error %s: %s code=%v", vp, v.dumpBase(e), v.Call(e, "Code").V)
				owner("error", e, ver)
				find("error", ver, "FindError", e)
			}
		}
	}
	return
}

// ReadResult is one of the outcomes of reading a model.
type ReadResult struct {
	View   *View
	Model  Obj
	Failed bool
	Crash  string
	Where  string
	// Reported is the number of errors reported
	Reported int64
}

// Read analyses the reader.
func (s *Session) Read(in Input) (results []*ReadResult, it *Interp, err error) {
	it = s.It.Copy()
	it.MapOrder = in.MapOrder
	if in.Setup != nil {
		in.Setup(it)
	}
	err = Protect(func() {
		st := s.Base.Clone()
		s.put(it, st, in)
		v := &View{S: s, It: it, St: st}
		rep := v.Call(v.FuncOf("pkg/reporter", "New"), "Build")
		reporter := rep.Item(0)
		reader := v.FuncOf("pkg/language", "NewReader")
		reader = v.Call(reader, "Reporter", reporter.V)
		inputs := []string{ModelDir}
		if in.Inputs != nil {
			inputs = in.Inputs
		}
		for _, i := range inputs {
			reader = v.Call(reader, "Input", C(i))
		}
		fn := v.Method(reader.T, "Read")
		if fn == nil {
			it.Undecided("there is no Read method")
		}
		for _, o := range it.CallFn(v.St, fn, []Value{reader.V}, nil, nil) {
			r := &ReadResult{View: &View{S: s, It: it, St: o.S}, Crash: o.Panic, Where: o.Where}
			results = append(results, r)
			if o.Panic != "" {
				continue
			}
			t := fn.Signature.Results()
			m := Obj{o.V, t}
			r.Model = m.Item(0)
			r.Failed = !m.Item(1).Nil()
			r.Reported, _ = r.View.Call(reporter, "Errors").V.(int64)
		}
	})
	return
}

// NewView creates a view of the initial state.
func (s *Session) NewView() *View {
	return &View{S: s, It: s.It.Copy(), St: s.Base.Clone()}
}

// Slice creates a slice.
func (v *View) Slice(l []Obj) Value {
	var e []Value
	for _, x := range l {
		e = append(e, x.V)
	}
	return v.It.MakeSlice(v.St, e)
}

// Int returns an integer.
func (v *View) Int(o Obj) int64 {
	if i, ok := o.V.(int64); ok {
		return i
	}
	v.It.Undecided("%s isn't an integer", Show(o.V))
	return 0
}

// Int64Type returns the type of integers.
func (v *View) Int64Type() types.Type { return types.Typ[types.Int] }
