package mm

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/tool/engine"
)

const antlrPath = "github.com/antlr/antlr4/runtime/Go/antlr"

// antlrModels are the models of the parser and of the runtime library that it uses. The parse tree
// is built with our own implementation of the grammar; everything that the reader does with it is
// analysed.
type antlrModels struct {
	prog *Program
	pkg  *ssa.Package
}

func (m *antlrModels) typ(it *Interp, name string) types.Type { return it.LookupType(antlrPath, name) }

func (m *antlrModels) tokenType(kind string) int64 {
	if kind == "EOF" {
		return -1
	}
	c := m.pkg.Const("ModelLexer" + kind)
	if c == nil {
		return -100
	}
	n, _ := constant.Int64Val(c.Value.Value)
	return n
}

func (m *antlrModels) token(it *Interp, st *State, t *Tok) Value {
	if t == nil {
		return Nil{}
	}
	id := st.Alloc(&Ext{Kind: "token", X: *t})
	return Iface{T: types.NewPointer(m.typ(it, "CommonToken")), V: Ptr{Obj: id}}
}

// build creates the objects that represent a node of the tree.
func (m *antlrModels) build(it *Interp, st *State, n *Node) Value {
	name := strings.ToUpper(n.Rule[:1]) + n.Rule[1:] + "Context"
	mt := m.pkg.Type(name)
	if mt == nil {
		it.Undecided("there is no type %s", name)
	}
	obj := map[interface{}]Value{}
	var children []Value
	for _, c := range n.Children {
		switch x := c.(type) {
		case *Node:
			v := m.build(it, st, x)
			obj[x] = v
			children = append(children, v)
		case *Tok:
			v := m.token(it, st, x)
			obj[x] = v
			id := st.Alloc(&Ext{Kind: "terminal", D: []Value{v}})
			children = append(children, Iface{T: types.NewPointer(m.typ(it, "TerminalNodeImpl")), V: Ptr{Obj: id}})
		}
	}
	base := st.Alloc(&Ext{Kind: "ctx", D: append([]Value{m.token(it, st, n.Start)}, children...)})
	s := it.Zero(mt.Type()).(*Struct)
	str := mt.Type().Underlying().(*types.Struct)
	for i := 0; i < str.NumFields(); i++ {
		f := str.Field(i)
		switch {
		case f.Name() == "BaseParserRuleContext":
			s.F[i] = Ptr{Obj: base}
		case n.Labels[f.Name()] != nil:
			s.F[i] = obj[n.Labels[f.Name()]]
		case n.Lists[f.Name()] != nil:
			var l []Value
			for _, c := range n.Lists[f.Name()] {
				l = append(l, obj[c])
			}
			s.F[i] = it.MakeSlice(st, l)
		}
	}
	return Iface{T: types.NewPointer(mt.Type()), V: Ptr{Obj: st.Alloc(s)}}
}

func text(st *State, v Value) string {
	p := v.(Iface).V.(Ptr)
	switch x := st.Get(p.Obj).(type) {
	case *Ext:
		switch x.Kind {
		case "token":
			return x.X.(Tok).Text
		case "terminal":
			return text(st, x.D[0])
		case "ctx":
			var sb strings.Builder
			for _, c := range x.D[1:] {
				sb.WriteString(text(st, c))
			}
			return sb.String()
		}
	case *Struct:
		for _, f := range x.F {
			if p, ok := f.(Ptr); ok {
				if e, ok := st.Get(p.Obj).(*Ext); ok && e.Kind == "ctx" {
					return text(st, Iface{V: p})
				}
			}
		}
	}
	return ""
}

// register registers the models.
func (m *antlrModels) register(it *Interp) {
	reg := func(name string, f func(d *D, a []Value) Value) { it.Models[name] = Direct(f) }
	ext := func(d *D, v Value) *Ext {
		p, ok := v.(Ptr)
		if !ok {
			d.Panic("nil dereference: " + Show(v))
		}
		e, ok := d.S.Get(p.Obj).(*Ext)
		if !ok {
			d.I.Undecided("object %s isn't managed by the models", Show(v))
		}
		return e
	}
	lang := m.pkg.Pkg.Path()
	A := antlrPath

	// Tokens and terminals:
	tok := func(d *D, v Value) Tok { return ext(d, v).X.(Tok) }
	reg("token.GetText", func(d *D, a []Value) Value { return C(tok(d, a[0]).Text) })
	reg("token.GetLine", func(d *D, a []Value) Value { return int64(tok(d, a[0]).Line) })
	reg("token.GetColumn", func(d *D, a []Value) Value { return int64(tok(d, a[0]).Col) })
	reg("token.GetTokenType", func(d *D, a []Value) Value { return m.tokenType(tok(d, a[0]).Kind) })
	reg("terminal.GetText", func(d *D, a []Value) Value { return C(text(d.S, ext(d, a[0]).D[0])) })
	reg("terminal.GetSymbol", func(d *D, a []Value) Value { return ext(d, a[0]).D[0] })

	// Contexts:
	B := "(*" + A + ".BaseParserRuleContext)."
	reg(B+"GetStart", func(d *D, a []Value) Value { return ext(d, a[0]).D[0] })
	reg(B+"GetText", func(d *D, a []Value) Value { return C(text(d.S, Iface{V: a[0]})) })
	reg(B+"GetChildCount", func(d *D, a []Value) Value { return int64(len(ext(d, a[0]).D) - 1) })
	reg(B+"GetChild", func(d *D, a []Value) Value { return ext(d, a[0]).D[1+a[1].(int64)] })
	reg(B+"GetChildren", func(d *D, a []Value) Value { return d.I.MakeSlice(d.S, ext(d, a[0]).D[1:]) })
	typed := func(d *D, a []Value) []Value {
		t := ext(d, a[1].(Iface).V).X.(types.Type).Underlying().(*types.Interface)
		var r []Value
		for _, c := range ext(d, a[0]).D[1:] {
			if types.Implements(c.(Iface).T, t) {
				r = append(r, c)
			}
		}
		return r
	}
	reg(B+"GetTypedRuleContexts", func(d *D, a []Value) Value { return d.I.MakeSlice(d.S, typed(d, a)) })
	reg(B+"GetTypedRuleContext", func(d *D, a []Value) Value {
		l := typed(d, a)
		k := a[2].(int64)
		if k < int64(len(l)) {
			return l[k]
		}
		return Nil{}
	})
	tokens := func(d *D, a []Value) []Value {
		var r []Value
		for _, c := range ext(d, a[0]).D[1:] {
			if p, ok := c.(Iface).V.(Ptr); ok {
				if e, ok := d.S.Get(p.Obj).(*Ext); ok && e.Kind == "terminal" {
					if m.tokenType(tok(d, e.D[0].(Iface).V).Kind) == a[1].(int64) {
						r = append(r, c)
					}
				}
			}
		}
		return r
	}
	reg(B+"GetTokens", func(d *D, a []Value) Value { return d.I.MakeSlice(d.S, tokens(d, a)) })
	reg(B+"GetToken", func(d *D, a []Value) Value {
		l := tokens(d, a)
		k := a[2].(int64)
		if k < int64(len(l)) {
			return l[k]
		}
		return Nil{}
	})
	reg("reflect.TypeOf", func(d *D, a []Value) Value {
		i, ok := a[0].(Iface)
		if !ok {
			return Nil{}
		}
		return Iface{T: types.NewPointer(d.I.LookupType("reflect", "rtype")), V: Ptr{Obj: d.S.Alloc(&Ext{Kind: "rtype", X: i.T})}}
	})
	reg("rtype.Elem", func(d *D, a []Value) Value {
		t := ext(d, a[0]).X.(types.Type).Underlying()
		p, ok := t.(*types.Pointer)
		if !ok {
			d.I.Undecided("element of type %s", t)
		}
		return Iface{T: types.NewPointer(d.I.LookupType("reflect", "rtype")), V: Ptr{Obj: d.S.Alloc(&Ext{Kind: "rtype", X: p.Elem()})}}
	})

	// Streams, lexer and parser:
	reg(A+".NewFileStream", func(d *D, a []Value) Value {
		if err := d.Fail("input"); err != (Nil{}) {
			return Tuple{Nil{}, err}
		}
		path, ok := a[0].(Str).Const()
		if !ok {
			d.I.Undecided("unknown input file")
		}
		if _, ok := d.I.File(d.S, path); !ok {
			return Tuple{Nil{}, d.I.NotExist(d.S, path)}
		}
		return Tuple{Ptr{Obj: d.S.Alloc(&Ext{Kind: "filestream", D: []Value{a[0]}})}, Nil{}}
	})
	reg(A+".NewInputStream", func(d *D, a []Value) Value {
		return Ptr{Obj: d.S.Alloc(&Ext{Kind: "inputstream", D: []Value{a[0]}})}
	})
	wrap := func(d *D, typ string, base Value) Value {
		t := m.pkg.Type(typ).Type()
		s := d.I.Zero(t).(*Struct)
		s.F[0] = base
		return Ptr{Obj: d.S.Alloc(s)}
	}
	reg(lang+".NewModelLexer", func(d *D, a []Value) Value {
		return wrap(d, "ModelLexer", Ptr{Obj: d.S.Alloc(&Ext{Kind: "lexer", D: []Value{a[0], int64(0), C("")}})})
	})
	reg(lang+".NewModelParser", func(d *D, a []Value) Value {
		return wrap(d, "ModelParser", Ptr{Obj: d.S.Alloc(&Ext{Kind: "parser", D: []Value{a[0]}})})
	})
	reg(A+".NewCommonTokenStream", func(d *D, a []Value) Value {
		return Ptr{Obj: d.S.Alloc(&Ext{Kind: "tokens", D: []Value{a[0], Nil{}}})}
	})
	base := func(d *D, v Value) Value {
		p, ok := v.(Ptr)
		if !ok {
			d.Panic("nil dereference: recognizer")
		}
		if _, ok := d.S.Get(p.Obj).(*Ext); ok {
			return v
		}
		return d.S.Get(p.Obj).(*Struct).F[0]
	}
	// Listeners are stored after the fixed fields of the object:
	add := func(d *D, recv, l Value) {
		b := base(d, recv).(Ptr)
		e := ext(d, b)
		d.S.Set(b.Obj, &Ext{Kind: e.Kind, D: append(append([]Value(nil), e.D...), l), X: e.X})
	}
	first := map[string]int{"lexer": 3, "parser": 1}
	remove := func(d *D, recv Value) {
		b := base(d, recv).(Ptr)
		e := ext(d, b)
		d.S.Set(b.Obj, &Ext{Kind: e.Kind, D: append([]Value(nil), e.D[:first[e.Kind]]...), X: e.X})
	}
	reg("(*"+A+".BaseRecognizer).RemoveErrorListeners", func(d *D, a []Value) Value { remove(d, a[0]); return nil })
	reg("(*"+A+".BaseRecognizer).AddErrorListener", func(d *D, a []Value) Value { add(d, a[0], a[1]); return nil })
	reg("(*"+A+".BaseLexer).GetLine", func(d *D, a []Value) Value { return ext(d, a[0]).D[1] })
	reg("(*"+A+".BaseLexer).GetText", func(d *D, a []Value) Value { return ext(d, a[0]).D[2] })
	lt := func(d *D, a []Value) Value { return ext(d, a[0]).D[1] }
	reg("(*"+A+".CommonTokenStream).LT", lt)
	reg("(*"+A+".CommonTokenStream).Get", lt)
	reg("(*"+A+".CommonTokenStream).LA", func(d *D, a []Value) Value {
		return m.tokenType(tok(d, ext(d, a[0]).D[1].(Iface).V).Kind)
	})
	reg("(*"+lang+".ModelParser).File", func(d *D, a []Value) Value {
		pb := base(d, a[0]).(Ptr)
		streamV := ext(d, pb).D[0]
		stream := streamV.(Iface).V.(Ptr)
		lexer := ext(d, stream).D[0].(Iface).V
		lb := base(d, lexer).(Ptr)
		in := ext(d, lb).D[0].(Iface).V
		e := ext(d, in)
		src, ok := e.D[0].(Str).Const()
		if !ok {
			d.I.Undecided("unknown source")
		}
		if e.Kind == "filestream" {
			s, _ := d.I.File(d.S, src)
			src = s
		}
		p := Parse(src)
		// Comments:
		comment := d.I.Prog.LookupMethod(types.NewPointer(m.pkg.Type("ModelLexer").Type()), m.pkg.Pkg, "comment")
		for _, c := range p.Comments {
			if comment == nil {
				break
			}
			le := ext(d, lb)
			n := append([]Value(nil), le.D...)
			n[1], n[2] = int64(c.Line), C(c.Text)
			d.S.Set(lb.Obj, &Ext{Kind: le.Kind, D: n})
			d.CallFn(comment, lexer)
		}
		// Errors:
		for _, se := range p.Errors {
			b := pb
			if se.Lexer {
				b = lb
			}
			x := ext(d, b)
			for _, l := range x.D[first[x.Kind]:] {
				i := l.(Iface)
				d.Method(i.T, i.V, "SyntaxError", Nil{}, Nil{}, int64(se.Line), int64(se.Col), C(se.Msg), Nil{})
			}
		}
		st := ext(d, stream)
		d.S.Set(stream.Obj, &Ext{Kind: st.Kind, D: []Value{st.D[0], m.token(d.I, d.S, p.Next)}})
		return m.build(d.I, d.S, p.Tree)
	})

	// Walker:
	var walk func(d *D, l Iface, t Value)
	walk = func(d *D, l Iface, t Value) {
		i, ok := t.(Iface)
		if !ok {
			d.Panic("nil dereference: tree")
		}
		p := i.V.(Ptr)
		if e, ok := d.S.Get(p.Obj).(*Ext); ok && e.Kind == "terminal" {
			d.Method(l.T, l.V, "VisitTerminal", t)
			return
		}
		d.Method(l.T, l.V, "EnterEveryRule", t)
		d.Method(i.T, i.V, "EnterRule", l)
		for _, f := range d.S.Get(p.Obj).(*Struct).F {
			if bp, ok := f.(Ptr); ok {
				if e, ok := d.S.Get(bp.Obj).(*Ext); ok && e.Kind == "ctx" {
					for _, c := range e.D[1:] {
						walk(d, l, c)
					}
					break
				}
			}
		}
		d.Method(i.T, i.V, "ExitRule", l)
		d.Method(l.T, l.V, "ExitEveryRule", t)
	}
	reg("(*"+A+".ParseTreeWalker).Walk", func(d *D, a []Value) Value {
		l, ok := a[1].(Iface)
		if !ok {
			d.Panic("nil dereference: listener")
		}
		walk(d, l, a[2])
		return nil
	})
}
