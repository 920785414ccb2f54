// Package engine implements an abstract interpreter for the SSA form of Go programs. Strings are
// symbolic (sequences of constants and opaque atoms), lists can be segmented, unknown values are
// symbols, and branches that depend on unknown values are explored both ways.
package engine

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is an abstract value: bool, int64, float64, Str, Nil, Sym, Bits, Ptr, Slice,
// *Struct, *Array, MapRef, *MapV, Iface, *Func, Tuple or *Ext.
type Value interface{}

// Nil is the nil pointer, slice, map, function or interface.
type Nil struct{}

// Atom is an opaque piece of text. Generic atoms stand for an arbitrary word that is different to
// any other text. Unknown atoms may be equal to anything.
type Atom struct {
	Base    string // identity
	Ops     string // operations applied, for example "lower" or "head.upper"
	Text    string // how it is rendered when actual text is needed
	Unknown bool
}

// Part is a part of a string.
type Part struct {
	C string
	A *Atom
}

// Str is a symbolic string.
type Str struct {
	Parts []Part
}

// Sym is an unknown value.
type Sym struct {
	Term string
	T    types.Type
}

// Bits is an unknown integer, (term &^ zeros) | ones
type Bits struct {
	Term        string
	Ones, Zeros uint64
	T           types.Type
}

// Ptr is a pointer.
type Ptr struct {
	Obj  int
	Path string // steps separated by /
}

// Slice is a slice of an array with known length.
type Slice struct {
	Obj           int
	Path          string
	Off, Len, Cap int
}

// Struct is the content of an structure.
type Struct struct {
	F []Value
}

// Array is the content of an array.
type Array struct {
	E []Value
}

// MapRef is a reference to a map.
type MapRef struct {
	Obj int
}

// MapV is the content of a map.
type MapV struct {
	K, V []Value
}

// Iface is a non nil interface value.
type Iface struct {
	T types.Type
	V Value
}

// Func is a function value.
type Func struct {
	Fn   *ssa.Function
	Free []Value
	Name string // for intrinsics
	Data Value
}

// Tuple is the result of a function with multiple results.
type Tuple []Value

// Ext is the content of an object that is managed by the models.
type Ext struct {
	Kind string
	D    []Value
	X    interface{}
}

// C creates a constant string.
func C(s string) Str {
	if s == "" {
		return Str{}
	}
	return Str{Parts: []Part{{C: s}}}
}

// U creates a string that is completely unknown.
func U(base string) Str {
	return Str{Parts: []Part{{A: &Atom{Base: base, Text: base, Unknown: true}}}}
}

// Const returns the constant text, if the string is constant.
func (s Str) Const() (string, bool) {
	switch len(s.Parts) {
	case 0:
		return "", true
	case 1:
		if s.Parts[0].A == nil {
			return s.Parts[0].C, true
		}
	}
	return "", false
}

// HasUnknown returns true if some part is unknown.
func (s Str) HasUnknown() bool {
	for _, p := range s.Parts {
		if p.A != nil && p.A.Unknown {
			return true
		}
	}
	return false
}

// Cat concatenates strings.
func Cat(list ...Str) Str {
	var r []Part
	for _, s := range list {
		for _, p := range s.Parts {
			if p.A == nil && p.C == "" {
				continue
			}
			if p.A == nil && len(r) > 0 && r[len(r)-1].A == nil {
				r[len(r)-1] = Part{C: r[len(r)-1].C + p.C}
				continue
			}
			if p.A != nil && len(r) > 0 && r[len(r)-1].A != nil {
				// head+tail of the same atom is the atom:
				l := r[len(r)-1].A
				if l.Base == p.A.Base && l.Unknown == p.A.Unknown {
					lo, ok1 := cutOp(l.Ops, "head")
					ro, ok2 := cutOp(p.A.Ops, "tail")
					if ok1 && ok2 && lo == ro {
						r[len(r)-1] = Part{A: &Atom{Base: l.Base, Ops: lo, Text: l.Text + p.A.Text, Unknown: l.Unknown}}
						continue
					}
				}
			}
			r = append(r, p)
		}
	}
	return Str{Parts: r}
}

func cutOp(ops, op string) (string, bool) {
	if ops == op {
		return "", true
	}
	if strings.HasSuffix(ops, "."+op) {
		return ops[:len(ops)-len(op)-1], true
	}
	return "", false
}

// Render returns actual text for the string, replacing atoms with their text.
func (s Str) Render() string {
	var b strings.Builder
	for _, p := range s.Parts {
		if p.A != nil {
			b.WriteString(p.A.Text)
		} else {
			b.WriteString(p.C)
		}
	}
	return b.String()
}

func (a *Atom) op(name string, text string) *Atom {
	ops := a.Ops
	switch name {
	case "lower":
		if strings.ToLower(a.Text) == a.Text {
			return a
		}
		if o, ok := cutOp(ops, "upper"); ok {
			ops = o
			return (&Atom{Base: a.Base, Ops: ops, Text: text, Unknown: a.Unknown})
		}
	case "upper":
		if strings.ToUpper(a.Text) == a.Text {
			return a
		}
	}
	if ops != "" {
		ops += "."
	}
	return &Atom{Base: a.Base, Ops: ops + name, Text: text, Unknown: a.Unknown}
}

func (s Str) mapParts(f func(string) string, name string) Str {
	r := make([]Str, 0, len(s.Parts))
	for _, p := range s.Parts {
		if p.A == nil {
			r = append(r, C(f(p.C)))
		} else {
			r = append(r, Str{Parts: []Part{{A: p.A.op(name, f(p.A.Text))}}})
		}
	}
	return Cat(r...)
}

// ID returns a string that identifies the value.
func (s Str) ID() string {
	var b strings.Builder
	for _, p := range s.Parts {
		if p.A != nil {
			b.WriteString("⟨" + p.A.Base + "." + p.A.Ops + "⟩")
		} else {
			b.WriteString(p.C)
		}
	}
	return b.String()
}

// Show converts a value to text, for diagnostics and for the calculation of keys.
func Show(v Value) string {
	switch t := v.(type) {
	case nil:
		return "_"
	case bool:
		return strconv.FormatBool(t)
	case int64:
		return strconv.FormatInt(t, 10)
	case float64:
		return strconv.FormatFloat(t, 'g', -1, 64)
	case Str:
		return strconv.Quote(t.ID())
	case Nil:
		return "nil"
	case Sym:
		return "$" + t.Term
	case Bits:
		return fmt.Sprintf("bits(%s,%x,%x)", t.Term, t.Ones, t.Zeros)
	case Ptr:
		return fmt.Sprintf("&#%d/%s", t.Obj, t.Path)
	case Slice:
		return fmt.Sprintf("slice(#%d/%s,%d,%d,%d)", t.Obj, t.Path, t.Off, t.Len, t.Cap)
	case *Struct:
		return "{" + showList(t.F) + "}"
	case *Array:
		return "[" + showList(t.E) + "]"
	case MapRef:
		return fmt.Sprintf("map(#%d)", t.Obj)
	case *MapV:
		l := make([]string, len(t.K))
		for i := range t.K {
			l[i] = Show(t.K[i]) + ":" + Show(t.V[i])
		}
		sort.Strings(l)
		return "map{" + strings.Join(l, ",") + "}"
	case Iface:
		return fmt.Sprintf("(%s)%s", t.T, Show(t.V))
	case *Func:
		if t.Fn != nil {
			return "func:" + t.Fn.String() + "(" + showList(t.Free) + ")"
		}
		return "func:" + t.Name + "(" + Show(t.Data) + ")"
	case *invoke:
		return "invoke:" + t.method.FullName() + "(" + Show(t.recv) + ")"
	case Tuple:
		return "(" + showList(t) + ")"
	case Maybe:
		return "maybe(" + t.Term + "," + Show(t.V) + ")"
	case *Ext:
		return t.Kind + "{" + showList(t.D) + "}" + fmt.Sprint(t.X)
	}
	return fmt.Sprintf("?%T", v)
}

func showList(l []Value) string {
	s := make([]string, len(l))
	for i, v := range l {
		s[i] = Show(v)
	}
	return strings.Join(s, ",")
}

// refs calls the function for each object directly referenced by the value.
func refs(v Value, f func(int)) {
	switch t := v.(type) {
	case Ptr:
		f(t.Obj)
	case Slice:
		f(t.Obj)
	case MapRef:
		f(t.Obj)
	case *Struct:
		for _, x := range t.F {
			refs(x, f)
		}
	case *Array:
		for _, x := range t.E {
			refs(x, f)
		}
	case *MapV:
		for _, x := range t.K {
			refs(x, f)
		}
		for _, x := range t.V {
			refs(x, f)
		}
	case Iface:
		refs(t.V, f)
	case *Func:
		for _, x := range t.Free {
			refs(x, f)
		}
		refs(t.Data, f)
	case *invoke:
		refs(t.recv, f)
	case Tuple:
		for _, x := range t {
			refs(x, f)
		}
	case Maybe:
		refs(t.V, f)
	case *Ext:
		for _, x := range t.D {
			refs(x, f)
		}
	}
}
