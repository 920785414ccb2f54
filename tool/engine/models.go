package engine

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var baseModels = map[string]Model{}

// Rope is an immutable sequence of texts.
type Rope struct {
	prev *Rope
	s    Str
	h    uint64
}

func (r *Rope) String() string {
	if r == nil {
		return "rope0"
	}
	return "rope" + strconv.FormatUint(r.h, 16)
}

// Add adds text.
func (r *Rope) Add(s Str) *Rope {
	if len(s.Parts) == 0 {
		return r
	}
	f := fnv.New64a()
	var p uint64
	if r != nil {
		p = r.h
	}
	fmt.Fprintf(f, "%d:%s", p, s.ID())
	return &Rope{prev: r, s: s, h: f.Sum64()}
}

// Text returns the complete text.
func (r *Rope) Text() Str {
	var l []Str
	for x := r; x != nil; x = x.prev {
		l = append(l, x.s)
	}
	for a, b := 0, len(l)-1; a < b; a, b = a+1, b-1 {
		l[a], l[b] = l[b], l[a]
	}
	return fastCat(l)
}

func fastCat(l []Str) Str {
	var r []Part
	var sb strings.Builder
	flush := func() {
		if sb.Len() > 0 {
			r = append(r, Part{C: sb.String()})
			sb.Reset()
		}
	}
	for _, s := range l {
		for _, p := range s.Parts {
			if p.A == nil {
				sb.WriteString(p.C)
			} else {
				flush()
				r = append(r, p)
			}
		}
	}
	flush()
	return Str{Parts: r}
}

// LookupType finds a named type of a package.
func (it *Interp) LookupType(pkg, name string) types.Type {
	p := it.Prog.ImportedPackage(pkg)
	if p == nil {
		it.undecided("package %s isn't loaded", pkg)
	}
	m := p.Type(name)
	if m == nil {
		it.undecided("type %s.%s doesn't exist", pkg, name)
	}
	return m.Type()
}

// NewError creates an error.
func (it *Interp) NewError(st *State, msg Str, wrapped Value) Value {
	if wrapped != nil {
		t := it.LookupType("fmt", "wrapError")
		id := st.Alloc(&Struct{F: []Value{msg, wrapped}})
		return Iface{T: types.NewPointer(t), V: Ptr{Obj: id}}
	}
	t := it.LookupType("errors", "errorString")
	id := st.Alloc(&Struct{F: []Value{msg}})
	return Iface{T: types.NewPointer(t), V: Ptr{Obj: id}}
}

// ErrorText returns the text of an error.
func (it *Interp) ErrorText(st *State, v Value) Str {
	if i, ok := v.(Iface); ok {
		if p, ok := i.V.(Ptr); ok {
			if s, ok := st.Get(p.Obj).(*Struct); ok && p.Path == "" && len(s.F) > 0 {
				if t, ok := s.F[0].(Str); ok {
					return t
				}
			}
		}
	}
	return U("error(" + Show(v) + ")")
}

// bufText returns the text accumulated in a bytes.Buffer or strings.Builder.
func (it *Interp) bufRope(st *State, p Value) *Rope {
	v, msg := it.Load(st, p, nil)
	if msg != "" {
		panic(dPanic{Outcome{S: st, Panic: msg}})
	}
	s, ok := v.(*Struct)
	if !ok {
		it.undecided("buffer is %s", Show(v))
	}
	for _, f := range s.F {
		if e, ok := f.(*Ext); ok && e.Kind == "rope" {
			return e.X.(*Rope)
		}
	}
	for _, f := range s.F {
		// Initialized with actual bytes:
		if sl, ok := f.(Slice); ok {
			return (*Rope)(nil).Add(it.bytesText(st, sl))
		}
	}
	return nil
}

func (it *Interp) setRope(st *State, p Value, r *Rope) {
	v, _ := it.Load(st, p, nil)
	s := v.(*Struct)
	n := &Struct{F: append([]Value(nil), s.F...)}
	done := false
	for i, f := range n.F {
		if e, ok := f.(*Ext); ok && e.Kind == "rope" {
			n.F[i] = &Ext{Kind: "rope", X: r}
			done = true
		}
	}
	if !done {
		n.F[0] = &Ext{Kind: "rope", X: r}
		for i := 1; i < len(n.F); i++ {
			if _, ok := n.F[i].(Slice); ok {
				n.F[i] = Nil{}
			}
		}
	}
	it.Store(st, p, n)
}

// bytesText converts bytes to text.
// byteTexts contains the texts of the slices of bytes with unknown content.
var byteTexts sync.Map

// symText returns the text of a slice of bytes with unknown content.
func symText(s Sym) Str {
	if x, ok := byteTexts.Load(s.Term); ok {
		return x.(Str)
	}
	return U("str(" + s.Term + ")")
}

func (it *Interp) bytesText(st *State, v Value) Str {
	switch x := v.(type) {
	case Nil:
		return Str{}
	case Sym:
		return symText(x)
	case Str:
		return x
	}
	var sb strings.Builder
	for _, e := range it.Elems(st, v) {
		n, ok := e.(int64)
		if !ok {
			return U("str(" + Show(v) + ")")
		}
		sb.WriteByte(byte(n))
	}
	return C(sb.String())
}

func (it *Interp) TextBytes(st *State, s Str) Value {
	return it.convert(st, s, types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]))
}

func strLen(s Str) Value {
	if c, ok := s.Const(); ok {
		return int64(len(c))
	}
	term := "len:str:" + strconv.Quote(s.ID())
	if s.NonEmpty() {
		nonEmpty.Store(term, true)
	}
	return Sym{Term: term, T: types.Typ[types.Int]}
}

// nonEmpty contains the terms for the lengths of the texts that aren't known, but aren't empty.
var nonEmpty sync.Map

func nonEmptyLen(term string) bool {
	_, ok := nonEmpty.Load(term)
	return ok
}

// NonEmpty tells if the text is known to have something.
func (s Str) NonEmpty() bool {
	for _, p := range s.Parts {
		if p.A == nil {
			if p.C != "" {
				return true
			}
			continue
		}
		if _, ok := texts.Load(p.A.Base); ok && p.A.Ops == "" {
			return true
		}
	}
	return false
}

// WriteText writes text to an io.Writer, and returns the tuple with the size and the error.
func (d *D) WriteText(w Value, s Str) Value {
	i, ok := w.(Iface)
	if !ok {
		if _, isNil := w.(Nil); isNil {
			d.Panic("nil dereference: write to nil writer")
		}
		if m, ok := d.I.Models["sym:write"]; ok {
			return d.Pick(m(&Call{I: d.I, S: d.S, Name: "sym:write", Args: []Value{w, s}, Site: d.site()}))
		}
		return Tuple{strLen(s), d.I.SymOf(d.S, d.S.Fresh(":write"), types.Universe.Lookup("error").Type())}
	}
	if fn := d.I.FindMethod(i.T, "WriteString"); fn != nil {
		if _, ok := d.I.Models[fn.String()]; ok {
			return d.CallFn(fn, i.V, s)
		}
	}
	if p, ok := i.V.(Ptr); ok {
		if x, ok := d.S.Get(p.Obj).(*Ext); ok && p.Path == "" {
			if m, ok := d.I.Models[x.Kind+".WriteString"]; ok {
				return d.Pick(m(&Call{I: d.I, S: d.S, Name: x.Kind + ".WriteString", Args: []Value{i.V, s}, Site: d.site()}))
			}
		}
	}
	r, ok := d.Method(i.T, i.V, "Write", d.I.TextBytes(d.S, s))
	if !ok {
		d.I.undecided("no Write method in %s", i.T)
	}
	return r
}

func init() {
	reg := func(name string, f func(d *D, a []Value) Value) { baseModels[name] = Direct(f) }

	// Errors:
	reg("errors.New", func(d *D, a []Value) Value { return d.I.NewError(d.S, a[0].(Str), nil) })
	reg("fmt.Errorf", func(d *D, a []Value) Value {
		format := a[0].(Str)
		args := d.I.Elems(d.S, a[1])
		text := d.Sprintf(format, args)
		var wrapped Value
		if c, ok := format.Const(); ok && strings.Contains(c, "%w") {
			n := 0
			for k := 0; k+1 < len(c); k++ {
				if c[k] == '%' {
					if c[k+1] == '%' {
						k++
						continue
					}
					if c[k+1] == 'w' && n < len(args) {
						wrapped = args[n]
					}
					n++
				}
			}
		}
		if _, isNil := wrapped.(Nil); isNil {
			wrapped = nil
		}
		return d.I.NewError(d.S, text, wrapped)
	})
	reg("errors.Unwrap", func(d *D, a []Value) Value { return d.unwrap(a[0]) })
	reg("errors.Is", func(d *D, a []Value) Value {
		e := a[0]
		for n := 0; n < 20; n++ {
			if d.Bool(d.I.Eq(d.S, e, a[1])) {
				return true
			}
			if _, ok := e.(Iface); !ok {
				return false
			}
			e = d.unwrap(e)
			if _, ok := e.(Nil); ok {
				return false
			}
		}
		return false
	})
	reg("errors.As", func(d *D, a []Value) Value {
		tgt, ok := a[1].(Iface)
		if !ok {
			d.I.undecided("errors.As with unknown target")
		}
		want := tgt.T.Underlying().(*types.Pointer).Elem()
		e := a[0]
		for n := 0; n < 20; n++ {
			switch x := e.(type) {
			case Nil:
				return false
			case Iface:
				if iface, ok := want.Underlying().(*types.Interface); ok {
					if types.Implements(x.T, iface) {
						d.I.Store(d.S, tgt.V, x)
						return true
					}
				} else if types.Identical(x.T, want) {
					d.I.Store(d.S, tgt.V, x.V)
					return true
				}
				e = d.unwrap(e)
			case Sym:
				if d.Bool(Sym{Term: "is(" + x.Term + "," + want.String() + ")", T: types.Typ[types.Bool]}) {
					d.I.Store(d.S, tgt.V, d.I.SymOf(d.S, "as("+x.Term+","+want.String()+")", want))
					return true
				}
				return false
			}
		}
		return false
	})

	// Formatting:
	reg("fmt.Sprintf", func(d *D, a []Value) Value { return d.Sprintf(a[0].(Str), d.I.Elems(d.S, a[1])) })
	reg("fmt.Sprint", func(d *D, a []Value) Value { return d.sprint(d.I.Elems(d.S, a[0]), false) })
	reg("fmt.Sprintln", func(d *D, a []Value) Value { return Cat(d.sprint(d.I.Elems(d.S, a[0]), true), C("\n")) })
	reg("fmt.Fprintf", func(d *D, a []Value) Value {
		s := d.Sprintf(a[1].(Str), d.I.Elems(d.S, a[2]))
		return d.WriteText(a[0], s)
	})
	reg("fmt.Fprint", func(d *D, a []Value) Value {
		return d.WriteText(a[0], d.sprint(d.I.Elems(d.S, a[1]), false))
	})
	reg("fmt.Fprintln", func(d *D, a []Value) Value {
		return d.WriteText(a[0], Cat(d.sprint(d.I.Elems(d.S, a[1]), true), C("\n")))
	})
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		reg(n, func(d *D, a []Value) Value { return Tuple{int64(0), Nil{}} })
	}
	reg("io.WriteString", func(d *D, a []Value) Value { return d.WriteText(a[0], a[1].(Str)) })

	// Text buffers:
	for _, t := range []string{"(*bytes.Buffer)", "(*strings.Builder)"} {
		add := func(d *D, p Value, s Str) { d.I.setRope(d.S, p, d.I.bufRope(d.S, p).Add(s)) }
		reg(t+".WriteString", func(d *D, a []Value) Value {
			add(d, a[0], a[1].(Str))
			return Tuple{strLen(a[1].(Str)), Nil{}}
		})
		reg(t+".Write", func(d *D, a []Value) Value {
			s := d.I.bytesText(d.S, a[1])
			add(d, a[0], s)
			return Tuple{strLen(s), Nil{}}
		})
		reg(t+".WriteByte", func(d *D, a []Value) Value {
			if n, ok := a[1].(int64); ok {
				add(d, a[0], C(string([]byte{byte(n)})))
			} else {
				add(d, a[0], U("byte("+Show(a[1])+")"))
			}
			return Nil{}
		})
		reg(t+".WriteRune", func(d *D, a []Value) Value {
			if n, ok := a[1].(int64); ok {
				add(d, a[0], C(string(rune(n))))
				return Tuple{int64(utf8.RuneLen(rune(n))), Nil{}}
			}
			add(d, a[0], U("rune("+Show(a[1])+")"))
			return Tuple{int64(1), Nil{}}
		})
		reg(t+".String", func(d *D, a []Value) Value {
			if _, ok := a[0].(Nil); ok {
				return C("<nil>")
			}
			return d.I.bufRope(d.S, a[0]).Text()
		})
		reg(t+".Len", func(d *D, a []Value) Value { return strLen(d.I.bufRope(d.S, a[0]).Text()) })
		reg(t+".Grow", func(d *D, a []Value) Value { return nil })
		reg(t+".Reset", func(d *D, a []Value) Value { d.I.setRope(d.S, a[0], nil); return nil })
		reg(t+".Bytes", func(d *D, a []Value) Value {
			return d.I.TextBytes(d.S, d.I.bufRope(d.S, a[0]).Text())
		})
		reg(t+".WriteTo", func(d *D, a []Value) Value {
			s := d.I.bufRope(d.S, a[0]).Text()
			r := d.WriteText(a[1], s)
			d.I.setRope(d.S, a[0], nil)
			return r
		})
		reg(t+".ReadFrom", func(d *D, a []Value) Value {
			s, fail := d.Drain(a[1])
			add(d, a[0], s)
			return Tuple{strLen(s), fail}
		})
	}
	reg("bytes.NewBuffer", func(d *D, a []Value) Value { return d.newBuffer(d.I.bytesText(d.S, a[0])) })
	reg("bytes.NewBufferString", func(d *D, a []Value) Value { return d.newBuffer(a[0].(Str)) })
	reg("strings.NewReader", func(d *D, a []Value) Value {
		p := Ptr{Obj: d.S.Alloc(d.I.Zero(d.I.LookupType("strings", "Reader")))}
		d.I.setRope(d.S, p, (*Rope)(nil).Add(a[0].(Str)))
		return p
	})
	reg("bytes.NewReader", func(d *D, a []Value) Value {
		p := Ptr{Obj: d.S.Alloc(d.I.Zero(d.I.LookupType("bytes", "Reader")))}
		d.I.setRope(d.S, p, (*Rope)(nil).Add(d.I.bytesText(d.S, a[0])))
		return p
	})

	// Scanner and buffered writers:
	reg("bufio.NewScanner", func(d *D, a []Value) Value {
		return Ptr{Obj: d.S.Alloc(&Ext{Kind: "scanner", D: []Value{a[0], Nil{}, Str{}}})}
	})
	reg("(*bufio.Scanner).Scan", func(d *D, a []Value) Value {
		p := a[0].(Ptr)
		e := d.S.Get(p.Obj).(*Ext)
		if err := d.Fail("scan"); err != (Nil{}) {
			d.S.Set(p.Obj, &Ext{Kind: "scanner", D: []Value{e.D[0], Tuple{}, Str{}, err}})
			return false
		}
		rest := e.D[1]
		if _, ok := rest.(Nil); ok {
			s := d.readAll(e.D[0])
			c, ok := s.Const()
			if !ok {
				d.I.undecided("scan of unknown text")
			}
			var lines Tuple
			for len(c) > 0 {
				k := strings.IndexByte(c, '\n')
				line := c
				if k >= 0 {
					line, c = c[:k], c[k+1:]
				} else {
					c = ""
				}
				lines = append(lines, C(strings.TrimSuffix(line, "\r")))
			}
			if lines == nil {
				lines = Tuple{}
			}
			rest = lines
		}
		lines := rest.(Tuple)
		if len(lines) == 0 {
			d.S.Set(p.Obj, &Ext{Kind: "scanner", D: append([]Value{e.D[0], lines, Str{}}, e.D[3:]...)})
			return false
		}
		d.S.Set(p.Obj, &Ext{Kind: "scanner", D: []Value{e.D[0], lines[1:], lines[0]}})
		return true
	})
	reg("(*bufio.Scanner).Text", func(d *D, a []Value) Value { return d.S.Get(a[0].(Ptr).Obj).(*Ext).D[2] })
	reg("(*bufio.Scanner).Bytes", func(d *D, a []Value) Value {
		return d.I.TextBytes(d.S, d.S.Get(a[0].(Ptr).Obj).(*Ext).D[2].(Str))
	})
	reg("(*bufio.Scanner).Err", func(d *D, a []Value) Value {
		if e := d.S.Get(a[0].(Ptr).Obj).(*Ext); len(e.D) > 3 {
			return e.D[3]
		}
		return Nil{}
	})
	reg("(*bufio.Scanner).Buffer", func(d *D, a []Value) Value { return nil })
	reg("(*bufio.Scanner).Split", func(d *D, a []Value) Value { return nil })
	for _, n := range []string{"bufio.NewWriter", "bufio.NewWriterSize"} {
		reg(n, func(d *D, a []Value) Value {
			return Ptr{Obj: d.S.Alloc(&Ext{Kind: "bufwriter", D: []Value{a[0]}, X: (*Rope)(nil)})}
		})
	}
	bufw := func(name string, conv func(d *D, v Value) Str, ret func(s Str) Value) {
		reg("(*bufio.Writer)."+name, func(d *D, a []Value) Value {
			p := a[0].(Ptr)
			e := d.S.Get(p.Obj).(*Ext)
			s := conv(d, a[1])
			d.S.Set(p.Obj, &Ext{Kind: e.Kind, D: e.D, X: e.X.(*Rope).Add(s)})
			return ret(s)
		})
	}
	sizeAndNil := func(s Str) Value { return Tuple{strLen(s), Nil{}} }
	bufw("WriteString", func(d *D, v Value) Str { return v.(Str) }, sizeAndNil)
	bufw("Write", func(d *D, v Value) Str { return d.I.bytesText(d.S, v) }, sizeAndNil)
	bufw("WriteByte", func(d *D, v Value) Str { return C(string([]byte{byte(v.(int64))})) }, func(Str) Value { return Nil{} })
	bufw("WriteRune", func(d *D, v Value) Str { return C(string(rune(v.(int64)))) }, sizeAndNil)
	reg("(*bufio.Writer).Flush", func(d *D, a []Value) Value {
		p := a[0].(Ptr)
		e := d.S.Get(p.Obj).(*Ext)
		s := e.X.(*Rope).Text()
		d.S.Set(p.Obj, &Ext{Kind: e.Kind, D: e.D, X: (*Rope)(nil)})
		r := d.WriteText(e.D[0], s).(Tuple)
		return r[1]
	})
	readAll := func(d *D, a []Value) Value {
		s, fail := d.Drain(a[0])
		return Tuple{d.I.TextBytes(d.S, s), fail}
	}
	reg("io.Copy", func(d *D, a []Value) Value {
		s, fail := d.Drain(a[1])
		r, ok := d.WriteText(a[0], s).(Tuple)
		if ok && len(r) == 2 && r[1] == (Nil{}) {
			r = Tuple{r[0], fail}
		}
		return r
	})
	reg("io.MultiReader", func(d *D, a []Value) Value {
		return d.ExtIface("io", "multiReader", "multireader", append([]Value(nil), d.I.Elems(d.S, a[0])...)...)
	})
	reg("io.MultiWriter", func(d *D, a []Value) Value {
		return d.ExtIface("io", "multiWriter", "multiwriter", append([]Value(nil), d.I.Elems(d.S, a[0])...)...)
	})
	baseModels["multiwriter.WriteString"] = Direct(func(d *D, a []Value) Value {
		var r Value = Tuple{int64(0), Nil{}}
		for _, w := range d.S.Get(a[0].(Ptr).Obj).(*Ext).D {
			r = d.WriteText(w, a[1].(Str))
			if t, ok := r.(Tuple); ok && t[1] != (Nil{}) {
				break
			}
		}
		return r
	})
	reg("io.ReadAll", readAll)
	reg("io/ioutil.ReadAll", readAll)

	// Sorting:
	sortSlice := func(d *D, a []Value) Value {
		x := a[0].(Iface).V
		if _, ok := x.(Nil); ok {
			return nil
		}
		s := x.(Slice)
		swap := func(i, j int) {
			e := append([]Value(nil), d.I.Elems(d.S, s)...)
			e[i], e[j] = e[j], e[i]
			d.setElems(s, e)
		}
		for i := 1; i < s.Len; i++ {
			for j := i; j > 0; j-- {
				if !d.Bool(d.CallValue(a[1], int64(j), int64(j-1))) {
					break
				}
				swap(j, j-1)
			}
		}
		return nil
	}
	reg("sort.Slice", sortSlice)
	reg("sort.SliceStable", sortSlice)
	reg("sort.SliceIsSorted", func(d *D, a []Value) Value {
		s, ok := a[0].(Iface).V.(Slice)
		if !ok {
			return true
		}
		for j := s.Len - 1; j > 0; j-- {
			if d.Bool(d.CallValue(a[1], int64(j), int64(j-1))) {
				return false
			}
		}
		return true
	})
	sortIface := func(d *D, a []Value) Value {
		m := func(name string, args ...Value) Value {
			i := a[0].(Iface)
			r, ok := d.Method(i.T, i.V, name, args...)
			if !ok {
				d.I.undecided("no method %s in %s", name, i.T)
			}
			return r
		}
		n, ok := m("Len").(int64)
		if !ok {
			d.I.undecided("sort of unknown length")
		}
		for i := int64(1); i < n; i++ {
			for j := i; j > 0; j-- {
				if !d.Bool(m("Less", j, j-1)) {
					break
				}
				m("Swap", j, j-1)
			}
		}
		return nil
	}
	reg("sort.Sort", sortIface)
	reg("sort.Stable", sortIface)
	sortStrings := func(d *D, a []Value) Value {
		s, ok := a[0].(Slice)
		if !ok {
			return nil
		}
		e := append([]Value(nil), d.I.Elems(d.S, s)...)
		for _, v := range e {
			if _, ok := v.(Str).Const(); !ok {
				d.I.undecided("sort of unknown texts")
			}
		}
		sort.Slice(e, func(i, j int) bool { return e[i].(Str).Render() < e[j].(Str).Render() })
		d.setElems(s, e)
		return nil
	}
	reg("sort.Strings", sortStrings)
	reg("sort.Ints", func(d *D, a []Value) Value {
		s, ok := a[0].(Slice)
		if !ok {
			return nil
		}
		e := append([]Value(nil), d.I.Elems(d.S, s)...)
		sort.Slice(e, func(i, j int) bool { return e[i].(int64) < e[j].(int64) })
		d.setElems(s, e)
		return nil
	})
	reg("slices.Sort", func(d *D, a []Value) Value {
		s, ok := a[0].(Slice)
		if !ok {
			return nil
		}
		e := append([]Value(nil), d.I.Elems(d.S, s)...)
		sort.SliceStable(e, func(i, j int) bool { return d.Bool(d.I.lt(d.S, e[i], e[j], false)) })
		d.setElems(s, e)
		return nil
	})
	sortFunc := func(d *D, a []Value) Value {
		s, ok := a[0].(Slice)
		if !ok {
			return nil
		}
		e := append([]Value(nil), d.I.Elems(d.S, s)...)
		for i := 1; i < len(e); i++ {
			for j := i; j > 0; j-- {
				if !d.Bool(d.I.lt(d.S, d.CallValue(a[1], e[j], e[j-1]), int64(0), false)) {
					break
				}
				e[j], e[j-1] = e[j-1], e[j]
			}
		}
		d.setElems(s, e)
		return nil
	}
	reg("slices.SortFunc", sortFunc)
	reg("slices.SortStableFunc", sortFunc)

	// strings.Join accepts unknown parts:
	reg("strings.Join", func(d *D, a []Value) Value {
		var l []Str
		for i, e := range d.I.Elems(d.S, a[0]) {
			if i > 0 {
				l = append(l, a[1].(Str))
			}
			l = append(l, e.(Str))
		}
		return fastCat(l)
	})

	// Reflection, only what is needed to call functions:
	reg("reflect.ValueOf", func(d *D, a []Value) Value { return &Ext{Kind: "rv", D: []Value{a[0]}} })
	reg("(reflect.Value).Interface", func(d *D, a []Value) Value {
		e, ok := a[0].(*Ext)
		if !ok {
			d.Panic("panic: reflect: call of Interface on zero Value")
		}
		return e.D[0]
	})
	reg("(reflect.Value).IsValid", func(d *D, a []Value) Value {
		e, ok := a[0].(*Ext)
		if !ok {
			return false
		}
		_, isNil := e.D[0].(Nil)
		return !isNil
	})
	reg("(reflect.Value).Call", func(d *D, a []Value) Value {
		e, ok := a[0].(*Ext)
		if !ok {
			d.Panic("panic: reflect: call of zero Value")
		}
		fn, ok := e.D[0].(Iface)
		if !ok {
			d.Panic("panic: reflect: call of nil Value")
		}
		var args []Value
		for _, x := range d.I.Elems(d.S, a[1]) {
			xe, ok := x.(*Ext)
			if !ok {
				d.Panic("panic: reflect: Call using zero Value argument")
			}
			args = append(args, xe.D[0])
		}
		rv, sig := d.callDynamic(fn, args)
		var res []Value
		for i := 0; i < sig.Results().Len(); i++ {
			v := rv
			if t, ok := rv.(Tuple); ok && sig.Results().Len() > 1 {
				v = t[i]
			}
			res = append(res, &Ext{Kind: "rv", D: []Value{box(v, sig.Results().At(i).Type())}})
		}
		return d.I.MakeSlice(d.S, res)
	})
	// Synchronization is irrelevant, as there are no concurrent threads in the analysis:
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		reg(n, func(d *D, a []Value) Value { d.S.SetVar("synchronized", "yes"); return nil })
	}
	reg("(*sync.Once).Do", func(d *D, a []Value) Value {
		d.S.SetVar("synchronized", "yes")
		v, _ := d.I.Load(d.S, a[0], nil)
		s := v.(*Struct)
		if e, ok := s.F[0].(*Ext); ok && e.Kind == "done" {
			return nil
		}
		n := &Struct{F: append([]Value(nil), s.F...)}
		n.F[0] = &Ext{Kind: "done"}
		d.I.Store(d.S, a[0], n)
		d.CallValue(a[1])
		return nil
	})
}

// box converts a value of the given static type to an interface value.
func box(v Value, t types.Type) Value {
	if types.IsInterface(t) {
		return v
	}
	return Iface{T: t, V: v}
}

// callDynamic calls a function contained in an interface with arguments contained in interfaces.
func (d *D) callDynamic(fn Iface, args []Value) (Value, *types.Signature) {
	sig, ok := fn.T.Underlying().(*types.Signature)
	if !ok {
		d.Panic("panic: reflect: call of non function " + fn.T.String())
	}
	conv := func(a Value, t types.Type) Value {
		if types.IsInterface(t) {
			if i, ok := a.(Iface); ok {
				if !types.AssignableTo(i.T, t) {
					d.Panic(fmt.Sprintf("panic: reflect: Call using %s as type %s", i.T, t))
				}
			}
			return a
		}
		switch i := a.(type) {
		case Iface:
			if !types.AssignableTo(i.T, t) {
				d.Panic(fmt.Sprintf("panic: reflect: Call using %s as type %s", i.T, t))
			}
			return i.V
		case Nil:
			d.Panic("panic: reflect: Call using zero Value argument")
		}
		return a
	}
	np := sig.Params().Len()
	var in []Value
	if sig.Variadic() {
		if len(args) < np-1 {
			d.Panic("panic: reflect: Call with too few input arguments")
		}
		for i := 0; i < np-1; i++ {
			in = append(in, conv(args[i], sig.Params().At(i).Type()))
		}
		et := sig.Params().At(np - 1).Type().(*types.Slice).Elem()
		var rest []Value
		for _, a := range args[np-1:] {
			rest = append(rest, conv(a, et))
		}
		if rest == nil {
			in = append(in, Nil{})
		} else {
			in = append(in, d.I.MakeSlice(d.S, rest))
		}
	} else {
		if len(args) != np {
			d.Panic("panic: reflect: Call with wrong number of input arguments")
		}
		for i := range args {
			in = append(in, conv(args[i], sig.Params().At(i).Type()))
		}
	}
	return d.CallValue(fn.V, in...), sig
}

func (d *D) setElems(s Slice, e []Value) {
	a, _ := d.I.Load(d.S, Ptr{Obj: s.Obj, Path: s.Path}, nil)
	n := append([]Value(nil), a.(*Array).E...)
	copy(n[s.Off:s.Off+s.Len], e)
	d.I.Store(d.S, Ptr{Obj: s.Obj, Path: s.Path}, &Array{E: n})
}

func (d *D) newBuffer(s Str) Value {
	p := Ptr{Obj: d.S.Alloc(d.I.Zero(d.I.LookupType("bytes", "Buffer")))}
	d.I.setRope(d.S, p, (*Rope)(nil).Add(s))
	return p
}

// readAll reads everything from a reader.
func (d *D) readAll(r Value) Str {
	i, ok := r.(Iface)
	if !ok {
		return U("read(" + Show(r) + ")")
	}
	switch i.T.String() {
	case "*bytes.Buffer", "*strings.Reader", "*bytes.Reader":
		s := d.I.bufRope(d.S, i.V).Text()
		d.I.setRope(d.S, i.V, nil)
		return s
	}
	if p, ok := i.V.(Ptr); ok {
		if x, ok := d.S.Get(p.Obj).(*Ext); ok {
			if m, ok := d.I.Models[x.Kind+".readAll"]; ok {
				return d.Pick(m(&Call{I: d.I, S: d.S, Args: []Value{p}})).(Str)
			}
		}
	}
	return U("read(" + Show(r) + ")")
}

func (d *D) unwrap(e Value) Value {
	i, ok := e.(Iface)
	if !ok {
		return Nil{}
	}
	r, ok := d.Method(i.T, i.V, "Unwrap")
	if !ok {
		return Nil{}
	}
	return r
}

// Sprintf formats text.
func (d *D) Sprintf(format Str, args []Value) Str {
	var out []Str
	n := 0
	for _, p := range format.Parts {
		if p.A != nil {
			out = append(out, Str{Parts: []Part{p}})
			continue
		}
		c := p.C
		for len(c) > 0 {
			k := strings.IndexByte(c, '%')
			if k < 0 {
				out = append(out, C(c))
				break
			}
			out = append(out, C(c[:k]))
			c = c[k+1:]
			// Flags, width and precision:
			e := 0
			for e < len(c) && strings.IndexByte("+-# 0123456789.[]*", c[e]) >= 0 {
				e++
			}
			if e >= len(c) {
				out = append(out, C("%!(NOVERB)"))
				break
			}
			spec := c[:e]
			r, size := utf8.DecodeRuneInString(c[e:])
			c = c[e+size:]
			if r == '%' {
				out = append(out, C("%"))
				continue
			}
			if strings.ContainsAny(spec, "[]*") {
				d.I.undecided("format with explicit indexes")
			}
			if n >= len(args) {
				out = append(out, C("%!"+string(r)+"(MISSING)"))
				continue
			}
			out = append(out, d.format(spec, r, args[n]))
			n++
		}
	}
	if n < len(args) {
		out = append(out, C("%!(EXTRA ...)"))
	}
	return fastCat(out)
}

func (d *D) sprint(args []Value, spaces bool) Str {
	var out []Str
	prevStr := true
	for i, a := range args {
		isStr := false
		if f, ok := a.(Iface); ok {
			_, isStr = f.V.(Str)
		}
		if i > 0 && (spaces || (!isStr && !prevStr)) {
			out = append(out, C(" "))
		}
		prevStr = isStr
		out = append(out, d.format("", 'v', a))
	}
	return fastCat(out)
}

// format formats one value.
func (d *D) format(spec string, verb rune, arg Value) Str {
	if verb == 'w' {
		verb = 'v'
	}
	if verb == 'T' {
		if i, ok := arg.(Iface); ok {
			return C(types.TypeString(i.T, func(p *types.Package) string { return p.Name() }))
		}
		return C("<nil>")
	}
	i, ok := arg.(Iface)
	if !ok {
		if _, isNil := arg.(Nil); isNil {
			if verb == 'v' {
				return C("<nil>")
			}
			return C("%!" + string(verb) + "(<nil>)")
		}
		return U("fmt(" + Show(arg) + ")")
	}
	if strings.ContainsRune("vsqxX", verb) && !strings.Contains(spec, "#") {
		for _, m := range []string{"Error", "String"} {
			if d.isStringMethod(i.T, m) {
				if _, isNil := i.V.(Nil); isNil {
					return C("<nil>")
				}
				r, _ := d.Method(i.T, i.V, m)
				return d.formatBasic(spec, verb, r, types.Typ[types.String])
			}
		}
	}
	return d.formatBasic(spec, verb, i.V, i.T)
}

func (d *D) isStringMethod(t types.Type, name string) bool {
	if types.IsInterface(t) {
		return false
	}
	sel := d.I.Prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return false
	}
	sig := sel.Type().(*types.Signature)
	return sig.Params().Len() == 0 && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), types.Typ[types.String])
}

func (d *D) formatBasic(spec string, verb rune, v Value, t types.Type) Str {
	f := "%" + spec + string(verb)
	if verb == 'p' {
		return C(fmt.Sprintf("0xc%d000", d.I.Variant))
	}
	switch x := v.(type) {
	case Str:
		if c, ok := x.Const(); ok {
			return C(fmt.Sprintf(f, c))
		}
		if (verb == 's' || verb == 'v') && spec == "" {
			return x
		}
		return U("fmt(" + f + "," + x.ID() + ")")
	case int64:
		b, ok := t.Underlying().(*types.Basic)
		if ok {
			switch b.Kind() {
			case types.Uint8:
				return C(fmt.Sprintf(f, uint8(x)))
			case types.Uint16:
				return C(fmt.Sprintf(f, uint16(x)))
			case types.Uint32:
				return C(fmt.Sprintf(f, uint32(x)))
			case types.Uint64, types.Uint, types.Uintptr:
				return C(fmt.Sprintf(f, uint64(x)))
			case types.Int32:
				return C(fmt.Sprintf(f, int32(x)))
			}
		}
		return C(fmt.Sprintf(f, x))
	case float64:
		return C(fmt.Sprintf(f, x))
	case bool:
		return C(fmt.Sprintf(f, x))
	case Nil:
		switch t.Underlying().(type) {
		case *types.Slice:
			return C("[]")
		case *types.Map:
			return C("map[]")
		}
		return C("<nil>")
	case Slice:
		if b, ok := t.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && (verb == 's' || verb == 'q' || verb == 'x') {
			return d.formatBasic(spec, verb, d.I.bytesText(d.S, x), types.Typ[types.String])
		}
		et := t.Underlying().(*types.Slice).Elem()
		out := []Str{C("[")}
		for k, e := range d.I.Elems(d.S, x) {
			if k > 0 {
				out = append(out, C(" "))
			}
			out = append(out, d.format(spec, verb, box(e, et)))
		}
		out = append(out, C("]"))
		return fastCat(out)
	}
	if s, ok := v.(Sym); ok && spec == "" {
		if b, ok := t.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v'):
				return numText(s, "int")
			case b.Info()&types.IsBoolean != 0 && (verb == 't' || verb == 'v'):
				return numText(s, "bool")
			case b.Info()&types.IsFloat != 0 && verb == 'v':
				return numText(s, "float")
			}
		}
	}
	return U("fmt(" + f + "," + Show(v) + ")")
}

var _ = ssa.NaiveForm
