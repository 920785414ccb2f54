package engine

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"text/template/parse"
)

// Templates are modelled with an evaluator of the parsed templates over abstract values.

type tmplExt struct {
	name  string
	trees map[string]*parse.Tree
	key   string
}

func (t *tmplExt) String() string { return t.key }

// tmplErr is used to finish the evaluation of a template.
type tmplErr struct{ msg string }

type tmplBreak struct{ cont bool }

var builtinFuncs = map[string]interface{}{
	"and": true, "or": true, "not": true, "len": true, "index": true, "slice": true, "print": true, "printf": true,
	"println": true, "html": true, "js": true, "urlquery": true, "call": true,
	"eq": true, "ge": true, "gt": true, "le": true, "lt": true, "ne": true, "break": true, "continue": true,
}

func init() {
	reg := func(name string, f func(d *D, a []Value) Value) { baseModels[name] = Direct(f) }
	reg("text/template.New", func(d *D, a []Value) Value {
		return Ptr{Obj: d.S.Alloc(&Ext{Kind: "template", D: []Value{Nil{}}, X: &tmplExt{name: a[0].(Str).Render()}})}
	})
	reg("(*text/template.Template).Funcs", func(d *D, a []Value) Value {
		p := a[0].(Ptr)
		e := d.S.Get(p.Obj).(*Ext)
		// Copy to a new map:
		n := &MapV{}
		if old, ok := e.D[0].(MapRef); ok {
			m := d.S.Get(old.Obj).(*MapV)
			n.K = append(n.K, m.K...)
			n.V = append(n.V, m.V...)
		}
		ref := MapRef{Obj: d.S.Alloc(n)}
		if m, ok := a[1].(MapRef); ok {
			mv := d.S.Get(m.Obj).(*MapV)
			for i, k := range mv.K {
				d.I.MapSet(d.S, ref, k, mv.V[i])
			}
		}
		d.S.Set(p.Obj, &Ext{Kind: "template", D: []Value{ref}, X: e.X})
		return p
	})
	reg("(*text/template.Template).Option", func(d *D, a []Value) Value { return a[0] })
	reg("(*text/template.Template).Parse", func(d *D, a []Value) Value {
		p := a[0].(Ptr)
		e := d.S.Get(p.Obj).(*Ext)
		text, ok := a[1].(Str).Const()
		if !ok {
			d.I.undecided("template with unknown text")
		}
		if err := d.Fail("template parsing"); err != (Nil{}) {
			return Tuple{Nil{}, err}
		}
		funcs := map[string]interface{}{}
		if m, ok := e.D[0].(MapRef); ok {
			for _, k := range d.S.Get(m.Obj).(*MapV).K {
				funcs[k.(Str).Render()] = true
			}
		}
		old := e.X.(*tmplExt)
		trees, err := parse.Parse(old.name, text, "", "", builtinFuncs, funcs)
		if err != nil {
			return Tuple{Nil{}, d.I.NewError(d.S, C(err.Error()), nil)}
		}
		x := &tmplExt{name: old.name, trees: map[string]*parse.Tree{}, key: old.key + text}
		for n, t := range old.trees {
			x.trees[n] = t
		}
		for n, t := range trees {
			x.trees[n] = t
		}
		d.S.Set(p.Obj, &Ext{Kind: "template", D: e.D, X: x})
		return Tuple{p, Nil{}}
	})
	reg("text/template.Must", func(d *D, a []Value) Value {
		if !d.Bool(d.I.IsNil(d.S, a[1])) {
			d.Panic("panic: " + d.I.ErrorText(d.S, a[1]).Render())
		}
		return a[0]
	})
	reg("(*text/template.Template).Execute", func(d *D, a []Value) Value {
		p := a[0].(Ptr)
		e := d.S.Get(p.Obj).(*Ext)
		x := e.X.(*tmplExt)
		tree := x.trees[x.name]
		if tree == nil {
			return d.I.NewError(d.S, C("template is an incomplete or empty template"), nil)
		}
		ev := &tmplEval{d: d, x: x, funcs: e.D[0]}
		data := a[2]
		if err := d.Fail("template execution"); err != (Nil{}) {
			return err
		}
		msg := ev.execute(tree, data)
		out := fastCat(ev.out)
		r := d.WriteText(a[1], out).(Tuple)
		if msg != "" {
			return d.I.NewError(d.S, C(msg), nil)
		}
		return r[1]
	})
	for name, f := range map[string]func(string) string{
		"text/template.HTMLEscapeString": func(s string) string { return s },
	} {
		f := f
		reg(name, func(d *D, a []Value) Value { return C(f(a[0].(Str).Render())) })
	}
}

type tmplEval struct {
	d     *D
	x     *tmplExt
	funcs Value
	out   []Str
	vars  []tmplVar
}

type tmplVar struct {
	name string
	v    Value
}

func (e *tmplEval) fail(format string, args ...interface{}) {
	panic(tmplErr{fmt.Sprintf(format, args...)})
}

func (e *tmplEval) execute(tree *parse.Tree, data Value) (msg string) {
	depth := len(e.d.I.stack)
	defer func() {
		if r := recover(); r != nil {
			t, ok := r.(tmplErr)
			if !ok {
				panic(r)
			}
			e.d.I.stack = e.d.I.stack[:depth]
			msg = t.msg
		}
	}()
	e.vars = []tmplVar{{"$", data}}
	e.walk(data, tree.Root)
	return ""
}

// All the values inside the evaluator are interface values (Iface or Nil), or unknown.
func (e *tmplEval) walk(dot Value, node parse.Node) {
	switch n := node.(type) {
	case *parse.ListNode:
		for _, x := range n.Nodes {
			e.walk(dot, x)
		}
	case *parse.TextNode:
		e.out = append(e.out, C(string(n.Text)))
	case *parse.CommentNode:
	case *parse.ActionNode:
		v := e.pipeline(dot, n.Pipe)
		if len(n.Pipe.Decl) == 0 {
			e.out = append(e.out, e.print(v))
		}
	case *parse.IfNode:
		mark := len(e.vars)
		if e.truth(e.pipeline(dot, n.Pipe)) {
			e.walk(dot, n.List)
		} else if n.ElseList != nil {
			e.walk(dot, n.ElseList)
		}
		e.vars = e.vars[:mark]
	case *parse.WithNode:
		mark := len(e.vars)
		v := e.pipeline(dot, n.Pipe)
		if e.truth(v) {
			e.walk(v, n.List)
		} else if n.ElseList != nil {
			e.walk(dot, n.ElseList)
		}
		e.vars = e.vars[:mark]
	case *parse.RangeNode:
		e.walkRange(dot, n)
	case *parse.TemplateNode:
		tree := e.x.trees[n.Name]
		if tree == nil {
			e.fail("template %q not defined", n.Name)
		}
		var v Value = Nil{}
		if n.Pipe != nil {
			v = e.pipeline(dot, n.Pipe)
		}
		saved := e.vars
		e.vars = []tmplVar{{"$", v}}
		e.walk(v, tree.Root)
		e.vars = saved
	case *parse.BreakNode:
		panic(tmplBreak{false})
	case *parse.ContinueNode:
		panic(tmplBreak{true})
	default:
		e.d.I.undecided("template node %T", node)
	}
}

func (e *tmplEval) walkRange(dot Value, n *parse.RangeNode) {
	mark := len(e.vars)
	defer func() { e.vars = e.vars[:mark] }()
	v := e.arg(dot, n.Pipe)
	st := e.d.S
	type pair struct{ k, v Value }
	var pairs []pair
	i, ok := v.(Iface)
	if !ok {
		if _, isNil := v.(Nil); !isNil {
			e.d.I.undecided("range of unknown in template")
		}
	} else {
		i = e.indirect(i)
		switch t := i.T.Underlying().(type) {
		case *types.Slice:
			for k, x := range e.d.I.Elems(st, i.V) {
				pairs = append(pairs, pair{Iface{types.Typ[types.Int], int64(k)}, box(x, t.Elem())})
			}
		case *types.Array:
			for k, x := range i.V.(*Array).E {
				pairs = append(pairs, pair{Iface{types.Typ[types.Int], int64(k)}, box(x, t.Elem())})
			}
		case *types.Map:
			if m, ok := i.V.(MapRef); ok {
				mv := st.Get(m.Obj).(*MapV)
				for k := range mv.K {
					pairs = append(pairs, pair{box(mv.K[k], t.Key()), box(mv.V[k], t.Elem())})
				}
				sort.SliceStable(pairs, func(a, b int) bool { return Show(pairs[a].k) < Show(pairs[b].k) })
			}
		case *types.Basic:
			c, ok := i.V.(int64)
			if !ok {
				e.fail("range can't iterate over %s", i.T)
			}
			for k := int64(0); k < c; k++ {
				x := Iface{i.T, k}
				pairs = append(pairs, pair{x, x})
			}
		default:
			e.fail("range can't iterate over %s", i.T)
		}
	}
	for _, p := range pairs {
		inner := len(e.vars)
		switch len(n.Pipe.Decl) {
		case 1:
			e.set(n.Pipe, n.Pipe.Decl[0].Ident[0], p.v)
		case 2:
			e.set(n.Pipe, n.Pipe.Decl[0].Ident[0], p.k)
			e.set(n.Pipe, n.Pipe.Decl[1].Ident[0], p.v)
		}
		stop := e.iterate(p.v, n.List)
		e.vars = e.vars[:inner]
		if stop {
			return
		}
	}
	if len(pairs) == 0 && n.ElseList != nil {
		e.walk(dot, n.ElseList)
	}
}

func (e *tmplEval) iterate(v Value, list *parse.ListNode) (stop bool) {
	defer func() {
		if r := recover(); r != nil {
			b, ok := r.(tmplBreak)
			if !ok {
				panic(r)
			}
			stop = !b.cont
		}
	}()
	e.walk(v, list)
	return false
}

func (e *tmplEval) set(p *parse.PipeNode, name string, v Value) {
	if p.IsAssign {
		for k := len(e.vars) - 1; k >= 0; k-- {
			if e.vars[k].name == name {
				e.vars[k].v = v
				return
			}
		}
	}
	e.vars = append(e.vars, tmplVar{name, v})
}

func (e *tmplEval) pipeline(dot Value, p *parse.PipeNode) Value {
	v := e.arg(dot, p)
	for _, x := range p.Decl {
		e.set(p, x.Ident[0], v)
	}
	return v
}

func (e *tmplEval) arg(dot Value, p *parse.PipeNode) Value {
	if p == nil {
		return Nil{}
	}
	var v Value
	for _, c := range p.Cmds {
		v = e.command(dot, c, v)
	}
	return v
}

func (e *tmplEval) command(dot Value, c *parse.CommandNode, final Value) Value {
	args := c.Args[1:]
	evalArgs := func() []Value {
		var r []Value
		for _, a := range args {
			r = append(r, e.operand(dot, a))
		}
		if final != nil {
			r = append(r, final)
		}
		return r
	}
	switch n := c.Args[0].(type) {
	case *parse.FieldNode:
		return e.chain(dot, n.Ident, evalArgs())
	case *parse.ChainNode:
		return e.chain(e.operand(dot, n.Node), n.Field, evalArgs())
	case *parse.VariableNode:
		v := e.variable(n.Ident[0])
		return e.chain(v, n.Ident[1:], evalArgs())
	case *parse.IdentifierNode:
		return e.function(dot, n.Ident, args, final)
	case *parse.PipeNode:
		if len(args) > 0 || final != nil {
			e.fail("can't give argument to parenthesized pipeline")
		}
		return e.pipeline(dot, n)
	}
	if len(args) > 0 || final != nil {
		e.fail("can't give argument to non-function %s", c.Args[0])
	}
	return e.operand(dot, c.Args[0])
}

func (e *tmplEval) operand(dot Value, n parse.Node) Value {
	switch x := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.NilNode:
		return Nil{}
	case *parse.BoolNode:
		return Iface{types.Typ[types.Bool], x.True}
	case *parse.NumberNode:
		if x.IsInt {
			return Iface{types.Typ[types.Int], x.Int64}
		}
		return Iface{types.Typ[types.Float64], x.Float64}
	case *parse.StringNode:
		return Iface{types.Typ[types.String], C(x.Text)}
	case *parse.FieldNode:
		return e.chain(dot, x.Ident, nil)
	case *parse.VariableNode:
		return e.chain(e.variable(x.Ident[0]), x.Ident[1:], nil)
	case *parse.PipeNode:
		return e.pipeline(dot, x)
	case *parse.IdentifierNode:
		return e.function(dot, x.Ident, nil, nil)
	case *parse.ChainNode:
		return e.chain(e.operand(dot, x.Node), x.Field, nil)
	}
	e.d.I.undecided("template operand %T", n)
	return nil
}

func (e *tmplEval) variable(name string) Value {
	for k := len(e.vars) - 1; k >= 0; k-- {
		if e.vars[k].name == name {
			return e.vars[k].v
		}
	}
	e.fail("undefined variable: %s", name)
	return nil
}

func (e *tmplEval) chain(v Value, names []string, args []Value) Value {
	if len(names) == 0 {
		if len(args) > 0 {
			e.fail("can't give arguments to a variable")
		}
		return v
	}
	for i, n := range names {
		var a []Value
		if i == len(names)-1 {
			a = args
		}
		v = e.field(v, n, a)
	}
	return v
}

func (e *tmplEval) indirect(i Iface) Iface {
	for {
		pt, ok := i.T.Underlying().(*types.Pointer)
		if !ok {
			return i
		}
		if _, isNil := i.V.(Nil); isNil {
			return i
		}
		v, msg := e.d.I.Load(e.d.S, i.V, nil)
		if msg != "" {
			return i
		}
		i = Iface{pt.Elem(), v}
	}
}

func (e *tmplEval) field(v Value, name string, args []Value) Value {
	i, ok := v.(Iface)
	if !ok {
		if _, isNil := v.(Nil); isNil {
			e.fail("nil data; no entry for key %q", name)
		}
		e.d.I.undecided("field %s of %s in template", name, Show(v))
	}
	// Methods:
	if fn := e.d.I.FindMethod(i.T, name); fn != nil {
		t := types.NewSignatureType(nil, nil, nil, fn.Signature.Params(), fn.Signature.Results(), fn.Signature.Variadic())
		return e.call(name, Iface{T: t, V: &boundMethod{recv: i.V, fn: &Func{Fn: fn}}}, args)
	}
	r := e.indirect(i)
	switch t := r.T.Underlying().(type) {
	case *types.Pointer:
		e.fail("nil pointer evaluating %s.%s", i.T, name)
	case *types.Struct:
		for k := 0; k < t.NumFields(); k++ {
			f := t.Field(k)
			if f.Name() == name {
				if !f.Exported() {
					e.fail("%s is an unexported field of struct type %s", name, i.T)
				}
				if len(args) > 0 {
					e.fail("%s has arguments but cannot be invoked as function", name)
				}
				return box(r.V.(*Struct).F[k], f.Type())
			}
		}
	case *types.Map:
		if len(args) > 0 {
			e.fail("%s is not a method but has arguments", name)
		}
		x, ok := e.d.I.MapGet(e.d.S, r.V, C(name), t.Elem())
		if b, isBool := ok.(bool); isBool && !b {
			return &noValue{}
		}
		return box(x, t.Elem())
	}
	e.fail("can't evaluate field %s in type %s", name, i.T)
	return nil
}

type noValue struct{}

type boundMethod struct {
	recv Value
	fn   *Func
}

func (e *tmplEval) call(name string, fn Iface, args []Value) Value {
	d := e.d
	sig := fn.T.Underlying().(*types.Signature)
	np := sig.Params().Len()
	if sig.Variadic() && len(args) < np-1 || !sig.Variadic() && len(args) != np {
		e.fail("wrong number of args for %s: want %d got %d", name, np, len(args))
	}
	if sig.Results().Len() == 0 || sig.Results().Len() > 2 {
		e.fail("can't call method/function %q with %d results", name, sig.Results().Len())
	}
	conv := func(a Value, t types.Type) Value {
		if _, ok := a.(*noValue); ok {
			a = Nil{}
		}
		switch x := a.(type) {
		case Iface:
			if types.IsInterface(t) {
				if !types.AssignableTo(x.T, t) {
					e.fail("wrong type for value; expected %s; got %s", t, x.T)
				}
				return x
			}
			if types.AssignableTo(x.T, t) {
				return x.V
			}
			// Numeric constants:
			if b, ok := t.Underlying().(*types.Basic); ok {
				if n, isInt := x.V.(int64); isInt && b.Info()&types.IsInteger != 0 {
					return wrap(n, t)
				}
			}
			// Pointers and values:
			if pt, ok := x.T.Underlying().(*types.Pointer); ok && types.AssignableTo(pt.Elem(), t) {
				v, msg := d.I.Load(d.S, x.V, nil)
				if msg == "" {
					return v
				}
			}
			e.fail("wrong type for value; expected %s; got %s", t, x.T)
		case Nil:
			switch t.Underlying().(type) {
			case *types.Interface, *types.Pointer, *types.Slice, *types.Map, *types.Signature:
				return Nil{}
			}
			e.fail("invalid value; expected %s", t)
		}
		return a
	}
	var in []Value
	if sig.Variadic() {
		for k := 0; k < np-1; k++ {
			in = append(in, conv(args[k], sig.Params().At(k).Type()))
		}
		et := sig.Params().At(np - 1).Type().(*types.Slice).Elem()
		var rest []Value
		for _, a := range args[np-1:] {
			rest = append(rest, conv(a, et))
		}
		if len(rest) == 0 {
			in = append(in, Nil{})
		} else {
			in = append(in, d.I.MakeSlice(d.S, rest))
		}
	} else {
		for k := range args {
			in = append(in, conv(args[k], sig.Params().At(k).Type()))
		}
	}
	var target Value = fn.V
	if b, ok := fn.V.(*boundMethod); ok {
		target = b.fn
		in = append([]Value{b.recv}, in...)
	}
	o := d.Try(d.I.callValue(d.S, target, in, d.site()))
	if o.Panic != "" {
		e.fail("error calling %s: %s (%s)", name, o.Panic, o.Where)
	}
	if sig.Results().Len() == 2 {
		t := o.V.(Tuple)
		if !d.Bool(d.I.IsNil(d.S, t[1])) {
			e.fail("error calling %s: %s", name, d.I.ErrorText(d.S, t[1]).Render())
		}
		return box(t[0], sig.Results().At(0).Type())
	}
	return box(o.V, sig.Results().At(0).Type())
}

func (e *tmplEval) function(dot Value, name string, nodes []parse.Node, final Value) Value {
	d := e.d
	// User functions first:
	if m, ok := e.funcs.(MapRef); ok {
		mv := d.S.Get(m.Obj).(*MapV)
		if k := d.I.mapIndex(d.S, mv, C(name)); k >= 0 {
			var args []Value
			for _, n := range nodes {
				args = append(args, e.operand(dot, n))
			}
			if final != nil {
				args = append(args, final)
			}
			fn, ok := mv.V[k].(Iface)
			if !ok {
				e.fail("function %s is nil", name)
			}
			return e.call(name, fn, args)
		}
	}
	boolean := func(b bool) Value { return Iface{types.Typ[types.Bool], b} }
	if name == "and" || name == "or" {
		var v Value
		for _, n := range nodes {
			v = e.operand(dot, n)
			if e.truth(v) == (name == "or") {
				return v
			}
		}
		if final != nil {
			v = final
		}
		return v
	}
	var args []Value
	for _, n := range nodes {
		args = append(args, e.operand(dot, n))
	}
	if final != nil {
		args = append(args, final)
	}
	need := func(n int) {
		if len(args) < n {
			e.fail("wrong number of args for %s", name)
		}
	}
	switch name {
	case "not":
		need(1)
		return boolean(!e.truth(args[0]))
	case "len":
		need(1)
		i, ok := args[0].(Iface)
		if !ok {
			e.fail("len of nil pointer")
		}
		i = e.indirect(i)
		n := d.Pick(d.I.builtin(d.S, "len", []Value{i.V}, nil, nil, nil))
		return Iface{types.Typ[types.Int], n}
	case "index":
		need(1)
		v := args[0]
		for _, k := range args[1:] {
			i, ok := v.(Iface)
			if !ok {
				e.fail("index of untyped nil")
			}
			i = e.indirect(i)
			key, _ := k.(Iface)
			switch t := i.T.Underlying().(type) {
			case *types.Slice:
				el := d.I.Elems(d.S, i.V)
				n, ok := key.V.(int64)
				if !ok || n < 0 || int(n) >= len(el) {
					e.fail("index out of range")
				}
				v = box(el[n], t.Elem())
			case *types.Map:
				x, _ := d.I.MapGet(d.S, i.V, key.V, t.Elem())
				v = box(x, t.Elem())
			default:
				e.fail("can't index item of type %s", i.T)
			}
		}
		return v
	case "print":
		return Iface{types.Typ[types.String], d.sprint(clean(args), false)}
	case "println":
		return Iface{types.Typ[types.String], Cat(d.sprint(clean(args), true), C("\n"))}
	case "printf":
		need(1)
		f, ok := args[0].(Iface)
		if !ok {
			e.fail("wrong type for printf")
		}
		return Iface{types.Typ[types.String], d.Sprintf(f.V.(Str), clean(args[1:]))}
	case "call":
		need(1)
		f, ok := args[0].(Iface)
		if !ok {
			e.fail("call of nil")
		}
		return e.call("call", f, args[1:])
	case "eq", "ne", "lt", "le", "gt", "ge":
		need(2)
		val := func(v Value) Value {
			if i, ok := v.(Iface); ok {
				return i.V
			}
			return v
		}
		a := val(args[0])
		switch name {
		case "eq":
			for _, b := range args[1:] {
				if e.equal(a, val(b)) {
					return boolean(true)
				}
			}
			return boolean(false)
		case "ne":
			return boolean(!e.equal(a, val(args[1])))
		case "lt":
			return boolean(d.Bool(d.I.lt(d.S, a, val(args[1]), false)))
		case "ge":
			return boolean(!d.Bool(d.I.lt(d.S, a, val(args[1]), false)))
		case "gt":
			return boolean(d.Bool(d.I.lt(d.S, val(args[1]), a, false)))
		case "le":
			return boolean(!d.Bool(d.I.lt(d.S, val(args[1]), a, false)))
		}
	}
	d.I.undecided("template function %s", name)
	return nil
}

func (e *tmplEval) equal(a, b Value) bool {
	_, an := a.(Nil)
	_, bn := b.(Nil)
	if !an && !bn && fmt.Sprintf("%T", a) != fmt.Sprintf("%T", b) {
		_, as := a.(Sym)
		_, bs := b.(Sym)
		if !as && !bs {
			e.fail("incompatible types for comparison")
		}
	}
	return e.d.Bool(e.d.I.Eq(e.d.S, a, b))
}

func clean(l []Value) []Value {
	r := make([]Value, len(l))
	for i, v := range l {
		if _, ok := v.(*noValue); ok {
			v = Nil{}
		}
		r[i] = v
	}
	return r
}

func (e *tmplEval) truth(v Value) bool {
	d := e.d
	switch x := v.(type) {
	case Nil, *noValue:
		return false
	case Iface:
		switch t := x.V.(type) {
		case bool:
			return t
		case int64:
			return t != 0
		case float64:
			return t != 0
		case Str:
			if c, ok := t.Const(); ok {
				return c != ""
			}
			return !d.Bool(d.I.Eq(d.S, t, Str{}))
		case Nil:
			return false
		case Slice:
			return t.Len > 0
		case MapRef:
			return len(d.S.Get(t.Obj).(*MapV).K) > 0
		case Sym:
			if b, ok := t.T.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				return d.Bool(t)
			}
			return !d.Bool(d.I.IsNil(d.S, t))
		}
		return true
	case Sym:
		return d.Bool(notV(d.I.nilTerm(d.S, x)))
	}
	return true
}

func (e *tmplEval) print(v Value) Str {
	switch x := v.(type) {
	case *noValue, Nil:
		return C("<no value>")
	case Iface:
		if _, ok := x.T.Underlying().(*types.Pointer); ok && !e.d.isStringMethod(x.T, "Error") && !e.d.isStringMethod(x.T, "String") {
			i := e.indirect(x)
			if _, isPtr := i.T.Underlying().(*types.Pointer); isPtr {
				return C("<nil>")
			}
			return e.d.format("", 'v', i)
		}
		if _, ok := x.T.Underlying().(*types.Signature); ok {
			e.fail("can't print of type %s", x.T)
		}
		return e.d.format("", 'v', x)
	}
	return U("print(" + Show(v) + ")")
}

var _ = strconv.Itoa
var _ = strings.Join
