package engine

import (
	"encoding/json"
	"fmt"
	"go/types"
	"hash/fnv"
	"net/textproto"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// This file contains the models of the libraries used by the generated code. They aren't used to
// analyse the generators.

const jsonPkg = "github.com/json-iterator/go"

// Maybe is a reference that may be nil or else the given value.
type Maybe struct {
	Term string
	V    Value
}

// JTok is a token of a JSON document.
type JTok struct {
	// K is one of { } [ ] , key str int float bool null val
	K string
	V Value
}

// JSON is a sequence of tokens.
type JSON struct {
	prev *JSON
	t    JTok
	h    uint64
}

func (j *JSON) String() string {
	if j == nil {
		return "json0"
	}
	return "json" + strconv.FormatUint(j.h, 16)
}

// Add adds a token.
func (j *JSON) Add(t JTok) *JSON {
	f := fnv.New64a()
	var p uint64
	if j != nil {
		p = j.h
	}
	fmt.Fprintf(f, "%d:%s:%s", p, t.K, Show(t.V))
	return &JSON{prev: j, t: t, h: f.Sum64()}
}

// Tokens returns the tokens.
func (j *JSON) Tokens() []JTok {
	var l []JTok
	for x := j; x != nil; x = x.prev {
		l = append(l, x.t)
	}
	for a, b := 0, len(l)-1; a < b; a, b = a+1, b-1 {
		l[a], l[b] = l[b], l[a]
	}
	return l
}

// JSONOf creates a document from the tokens.
func JSONOf(l []JTok) (j *JSON) {
	for _, t := range l {
		j = j.Add(t)
	}
	return
}

// texts contains the content of the opaque texts: documents, dates and queries.
var texts sync.Map

func opaque(base string, content interface{}) Str {
	texts.Store(base, content)
	return Str{Parts: []Part{{A: &Atom{Base: base, Text: base}}}}
}

// Text returns the text of the document.
func (j *JSON) Text() Str {
	if j == nil {
		return Str{}
	}
	return opaque("json:"+j.String(), j)
}

// ParseTokens converts text to tokens. The second result is false if the text isn't known.
func ParseTokens(s Str) (r []JTok, ok bool) {
	for _, p := range s.Parts {
		if p.A == nil {
			l, ok := constTokens(p.C)
			if !ok {
				return nil, false
			}
			r = append(r, l...)
			continue
		}
		x, ok := texts.Load(p.A.Base)
		if !ok || p.A.Ops != "" {
			return nil, false
		}
		j, ok := x.(*JSON)
		if !ok {
			return nil, false
		}
		r = append(r, j.Tokens()...)
	}
	return r, true
}

// constTokens converts constant text to tokens.
func constTokens(text string) (r []JTok, ok bool) {
	dec := json.NewDecoder(strings.NewReader(text))
	dec.UseNumber()
	type level struct {
		obj bool
		n   int
	}
	var stack []*level
	for {
		t, err := dec.Token()
		if err != nil {
			if strings.TrimSpace(text[dec.InputOffset():]) != "" {
				r = append(r, JTok{K: "garbage"})
			}
			return r, true
		}
		if d, ok := t.(json.Delim); ok && (d == '}' || d == ']') {
			r = append(r, JTok{K: d.String()})
			stack = stack[:len(stack)-1]
			continue
		}
		isKey := false
		if len(stack) > 0 {
			top := stack[len(stack)-1]
			if top.obj {
				isKey = top.n%2 == 0
				if isKey && top.n > 0 {
					r = append(r, JTok{K: ","})
				}
			} else if top.n > 0 {
				r = append(r, JTok{K: ","})
			}
			top.n++
		}
		switch x := t.(type) {
		case json.Delim:
			r = append(r, JTok{K: x.String()})
			stack = append(stack, &level{obj: x == '{'})
		case string:
			k := "str"
			if isKey {
				k = "key"
			}
			r = append(r, JTok{k, C(x)})
		case bool:
			r = append(r, JTok{"bool", x})
		case json.Number:
			if n, err := x.Int64(); err == nil {
				r = append(r, JTok{"int", n})
			} else {
				f, _ := x.Float64()
				r = append(r, JTok{"float", f})
			}
		case nil:
			r = append(r, JTok{K: "null"})
		}
	}
}

// iterState is the state of an iterator.
type iterState struct {
	doc  *JSON
	toks []JTok
	pos  int
	bad  bool
	fail Value // error returned by the reader at the end
}

func (s *iterState) String() string {
	return fmt.Sprintf("iter(%s,%d,%v)", s.doc, s.pos, s.bad)
}

func fieldIndex(t types.Type, name string) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// Field returns the value of a field of an structure, given a pointer.
func (d *D) Field(pkg, typ, name string, p Value) Value {
	i := fieldIndex(d.I.LookupType(pkg, typ), name)
	v, msg := d.I.Load(d.S, p, nil)
	if msg != "" {
		d.Panic(msg)
	}
	s, ok := v.(*Struct)
	if !ok || i < 0 {
		d.I.undecided("field %s of %s.%s: %s", name, pkg, typ, Show(v))
	}
	return s.F[i]
}

// SetField changes the value of a field of an structure, given a pointer.
func (d *D) SetField(pkg, typ, name string, p, v Value) {
	i := fieldIndex(d.I.LookupType(pkg, typ), name)
	q, ok := p.(Ptr)
	if !ok || i < 0 {
		d.I.undecided("field %s of %s.%s: %s", name, pkg, typ, Show(p))
	}
	if msg := d.I.Store(d.S, Ptr{Obj: q.Obj, Path: join(q.Path, i)}, v); msg != "" {
		d.Panic(msg)
	}
}

// New allocates a zero structure.
func (d *D) New(pkg, typ string) Ptr {
	return Ptr{Obj: d.S.Alloc(d.I.Zero(d.I.LookupType(pkg, typ)))}
}

// EOF returns the io.EOF error.
func (d *D) EOF() Value {
	p := d.I.Prog.ImportedPackage("io")
	v, _ := d.I.Load(d.S, d.I.GlobalAddr(d.S, p.Var("EOF")), nil)
	return v
}

// ExtIface creates an interface value implemented by the models.
func (d *D) ExtIface(pkg, typ, kind string, data ...Value) Value {
	return Iface{T: types.NewPointer(d.I.LookupType(pkg, typ)), V: Ptr{Obj: d.S.Alloc(&Ext{Kind: kind, D: data})}}
}

// ExtOf returns the content of an object created with ExtIface.
func (d *D) ExtOf(v Value) (*Ext, Ptr, bool) {
	if i, ok := v.(Iface); ok {
		v = i.V
	}
	p, ok := v.(Ptr)
	if !ok {
		return nil, p, false
	}
	x, ok := d.S.Get(p.Obj).(*Ext)
	return x, p, ok
}

// Drain reads everything from a reader.
func (d *D) Drain(r Value) (Str, Value) {
	x, p, ok := d.ExtOf(r)
	if !ok {
		return d.readAll(r), Nil{}
	}
	switch x.Kind {
	case "body":
		// content, closed, failure
		text := x.D[0].(Str)
		d.S.Set(p.Obj, &Ext{Kind: x.Kind, D: []Value{Str{}, x.D[1], x.D[2]}})
		return text, x.D[2]
	case "bufreader":
		if len(x.D) == 4 {
			d.I.undecided("part of the content is already read")
		}
		if b, ok := x.D[1].(Tuple); ok {
			d.S.Set(p.Obj, &Ext{Kind: x.Kind, D: []Value{x.D[0], Nil{}}})
			return b[0].(Str), b[1]
		}
		return d.Drain(x.D[0])
	case "nopcloser":
		return d.Drain(x.D[0])
	case "multireader":
		var s Str
		for _, r := range x.D {
			t, fail := d.Drain(r)
			s = Cat(s, t)
			if fail != (Nil{}) {
				return s, fail
			}
		}
		return s, Nil{}
	}
	return d.readAll(r), Nil{}
}

// Peek returns what is still not read of a reader.
func (d *D) Peek(r Value) (Str, Value) {
	x, _, ok := d.ExtOf(r)
	if ok {
		switch x.Kind {
		case "body":
			return x.D[0].(Str), x.D[2]
		case "bufreader":
			if len(x.D) == 4 {
				d.I.undecided("part of the content is already read")
			}
			if b, ok := x.D[1].(Tuple); ok {
				return b[0].(Str), b[1]
			}
			return d.Peek(x.D[0])
		case "nopcloser":
			return d.Peek(x.D[0])
		}
	}
	if i, ok := r.(Iface); ok {
		switch i.T.String() {
		case "*bytes.Buffer", "*strings.Reader", "*bytes.Reader":
			return d.I.bufRope(d.S, i.V).Text(), Nil{}
		}
	}
	return U("read(" + Show(r) + ")"), Nil{}
}

var runtimeModels = map[string]Model{}

// RegisterRuntime registers the models of the libraries used by the generated code.
func RegisterRuntime(it *Interp) {
	for k, m := range runtimeModels {
		it.Models[k] = m
	}
}

func timeText(v Value) (Str, bool) {
	s, ok := v.(*Struct)
	if !ok || len(s.F) != 3 {
		return Str{}, false
	}
	return opaque("time:"+Show(s.F[0])+","+Show(s.F[1]), &Struct{F: []Value{s.F[0], s.F[1], Nil{}}}), true
}

// Instant identifies the instant of a time.Time value.
func Instant(v Value) string {
	if s, ok := v.(*Struct); ok && len(s.F) == 3 {
		return "time:" + Show(s.F[0]) + "," + Show(s.F[1])
	}
	return "time:" + Show(v)
}

// Query returns the sorted names and values of an encoded query.
func Query(s Str) ([]string, bool) {
	if len(s.Parts) == 0 {
		return nil, true
	}
	if len(s.Parts) == 1 && s.Parts[0].A != nil && s.Parts[0].A.Ops == "" {
		if x, ok := texts.Load(s.Parts[0].A.Base); ok {
			q, ok := x.([]string)
			return q, ok
		}
	}
	return nil, false
}

func canonical(s Str) Str {
	if c, ok := s.Const(); ok {
		return C(textproto.CanonicalMIMEHeaderKey(c))
	}
	return Str{Parts: []Part{{A: &Atom{Base: "canonical:" + s.ID(), Text: s.Render()}}}}
}

func init() {
	reg := func(name string, f func(d *D, a []Value) Value) { runtimeModels[name] = Direct(f) }
	str := func(d *D, v Value) Str {
		s, ok := v.(Str)
		if !ok {
			d.I.undecided("text is %s", Show(v))
		}
		return s
	}

	// Streams:
	reg("("+jsonPkg+".Config).Froze", func(d *D, a []Value) Value {
		return d.ExtIface(jsonPkg, "frozenConfig", "jsonapi")
	})
	reg(jsonPkg+".NewStream", func(d *D, a []Value) Value {
		p := d.New(jsonPkg, "Stream")
		d.SetField(jsonPkg, "Stream", "out", p, a[1])
		d.SetField(jsonPkg, "Stream", "buf", p, &Ext{Kind: "json", X: (*JSON)(nil)})
		return p
	})
	emit := func(d *D, p Value, t JTok) {
		e, ok := d.Field(jsonPkg, "Stream", "buf", p).(*Ext)
		if !ok {
			d.I.undecided("stream not created with NewStream")
		}
		if e.Kind == "grammar" {
			d.SetField(jsonPkg, "Stream", "buf", p, &Ext{Kind: "grammar", X: e.X.(*Grammar).next(t.K)})
			return
		}
		d.SetField(jsonPkg, "Stream", "buf", p, &Ext{Kind: "json", X: e.X.(*JSON).Add(t)})
	}
	simple := func(name, kind string) {
		reg("(*"+jsonPkg+".Stream)."+name, func(d *D, a []Value) Value {
			emit(d, a[0], JTok{K: kind})
			return nil
		})
	}
	simple("WriteArrayStart", "[")
	simple("WriteArrayEnd", "]")
	simple("WriteObjectStart", "{")
	simple("WriteObjectEnd", "}")
	simple("WriteMore", ",")
	simple("WriteNil", "null")
	reg("(*"+jsonPkg+".Stream).WriteEmptyObject", func(d *D, a []Value) Value {
		emit(d, a[0], JTok{K: "{"})
		emit(d, a[0], JTok{K: "}"})
		return nil
	})
	reg("(*"+jsonPkg+".Stream).WriteEmptyArray", func(d *D, a []Value) Value {
		emit(d, a[0], JTok{K: "["})
		emit(d, a[0], JTok{K: "]"})
		return nil
	})
	reg("(*"+jsonPkg+".Stream).WriteTrue", func(d *D, a []Value) Value { emit(d, a[0], JTok{"bool", true}); return nil })
	reg("(*"+jsonPkg+".Stream).WriteFalse", func(d *D, a []Value) Value { emit(d, a[0], JTok{"bool", false}); return nil })
	for n, k := range map[string]string{
		"WriteObjectField": "key", "WriteString": "str", "WriteStringWithHTMLEscaped": "str", "WriteBool": "bool", "WriteInt": "int", "WriteInt8": "int", "WriteInt16": "int",
		"WriteInt32": "int", "WriteInt64": "int", "WriteUint": "int", "WriteUint8": "int", "WriteUint16": "int", "WriteUint32": "int", "WriteUint64": "int",
		"WriteFloat64": "float", "WriteFloat32": "float32",
		"WriteFloat64Lossy": "lossy", "WriteFloat32Lossy": "lossy32",
	} {
		k := k
		reg("(*"+jsonPkg+".Stream)."+n, func(d *D, a []Value) Value {
			emit(d, a[0], JTok{k, a[1]})
			return nil
		})
	}
	reg("(*"+jsonPkg+".Stream).WriteVal", func(d *D, a []Value) Value {
		emit(d, a[0], d.jsonValue(a[1]))
		return nil
	})
	flushed := func(d *D, stream, err Value) {
		if _, ok := err.(Nil); ok {
			return
		}
		if _, ok := d.Field(jsonPkg, "Stream", "Error", stream).(Nil); ok {
			d.SetField(jsonPkg, "Stream", "Error", stream, err)
		}
	}
	baseModels["failing.WriteString"] = Direct(func(d *D, a []Value) Value {
		return Tuple{int64(0), d.I.NewError(d.S, C("write failed"), nil)}
	})
	reg("(*"+jsonPkg+".Stream).Flush", func(d *D, a []Value) Value {
		e, ok := d.Field(jsonPkg, "Stream", "buf", a[0]).(*Ext)
		if !ok {
			d.I.undecided("stream not created with NewStream")
		}
		out := d.Field(jsonPkg, "Stream", "out", a[0])
		if _, ok := out.(Nil); ok {
			return Nil{}
		}
		if e.Kind == "grammar" {
			g := e.X.(*Grammar)
			if g.flushed {
				return Nil{}
			}
			r := d.WriteText(out, C("«"+g.stack+g.why+"»")).(Tuple)
			d.SetField(jsonPkg, "Stream", "buf", a[0], &Ext{Kind: "grammar", X: &Grammar{g.stack, g.why, true}})
			flushed(d, a[0], r[1])
			return r[1]
		}
		r := d.WriteText(out, e.X.(*JSON).Text()).(Tuple)
		d.SetField(jsonPkg, "Stream", "buf", a[0], &Ext{Kind: "json", X: (*JSON)(nil)})
		flushed(d, a[0], r[1])
		return r[1]
	})

	// Iterators:
	newIter := func(d *D, s Str, fail Value) Value {
		p := d.New(jsonPkg, "Iterator")
		toks, ok := ParseTokens(s)
		if !ok {
			d.I.undecided("document with unknown text %s", s.ID())
		}
		d.SetField(jsonPkg, "Iterator", "buf", p, &Ext{Kind: "iter", X: &iterState{doc: JSONOf(toks), toks: toks, fail: fail}})
		return p
	}
	reg(jsonPkg+".ParseString", func(d *D, a []Value) Value { return newIter(d, str(d, a[1]), Nil{}) })
	reg(jsonPkg+".ParseBytes", func(d *D, a []Value) Value { return newIter(d, d.I.bytesText(d.S, a[1]), Nil{}) })
	reg(jsonPkg+".Parse", func(d *D, a []Value) Value {
		if _, ok := a[1].(Nil); ok {
			return newIter(d, Str{}, Nil{})
		}
		s, fail := d.Drain(a[1])
		return newIter(d, s, fail)
	})
	iter := func(name string, f func(d *D, r *reader, a []Value) Value) {
		reg("(*"+jsonPkg+".Iterator)."+name, func(d *D, a []Value) Value {
			if _, ok := a[0].(Nil); ok {
				d.Panic("nil dereference: use of nil iterator")
			}
			e, ok := d.Field(jsonPkg, "Iterator", "buf", a[0]).(*Ext)
			if !ok {
				d.I.undecided("unknown iterator")
			}
			s := *e.X.(*iterState)
			r := &reader{d: d, p: a[0], s: &s}
			v := f(d, r, a)
			d.SetField(jsonPkg, "Iterator", "buf", a[0], &Ext{Kind: "iter", X: r.s})
			return v
		})
	}
	iter("ReadObject", func(d *D, r *reader, a []Value) Value {
		switch t := r.next(); t.K {
		case "null", "}":
			return Str{}
		case "{":
			switch t := r.next(); t.K {
			case "key":
				return t.V
			case "}":
				return Str{}
			}
		case ",":
			if t := r.next(); t.K == "key" {
				return t.V
			}
		}
		r.fail("ReadObject")
		return Str{}
	})
	iter("ReadArray", func(d *D, r *reader, a []Value) Value {
		switch t := r.next(); t.K {
		case "null", "]":
			return false
		case "[":
			if r.peek().K == "]" {
				r.next()
				return false
			}
			return true
		case ",":
			return true
		}
		r.fail("ReadArray")
		return false
	})
	iter("ReadString", func(d *D, r *reader, a []Value) Value {
		switch t := r.next(); t.K {
		case "null":
			return Str{}
		case "str":
			return t.V
		}
		r.fail("ReadString")
		return Str{}
	})
	for _, n := range []string{"ReadInt", "ReadInt64", "ReadInt32", "ReadUint", "ReadUint64", "ReadUint32"} {
		t := types.Universe.Lookup(strings.ToLower(strings.TrimPrefix(n, "Read"))).Type()
		narrow := strings.HasSuffix(n, "32") || strings.Contains(n, "Uint")
		iter(n, func(d *D, r *reader, a []Value) Value {
			if k := r.next(); k.K == "int" {
				if narrow {
					return retype(opSym("narrow", k.V, t), t)
				}
				return retype(k.V, t)
			}
			r.fail("ReadInt")
			return int64(0)
		})
	}
	iter("ReadFloat64", func(d *D, r *reader, a []Value) Value {
		switch k := r.next(); k.K {
		case "float":
			return k.V
		case "float32", "lossy", "lossy32":
			return opSym(k.K, k.V, types.Typ[types.Float64])
		case "int":
			return d.I.convert(d.S, k.V, types.Typ[types.Int64], types.Typ[types.Float64])
		}
		r.fail("ReadFloat64")
		return float64(0)
	})
	iter("ReadFloat32", func(d *D, r *reader, a []Value) Value {
		switch k := r.next(); k.K {
		case "float", "float32":
			return opSym("float32", k.V, types.Typ[types.Float32])
		case "lossy", "lossy32":
			return opSym(k.K, k.V, types.Typ[types.Float32])
		}
		r.fail("ReadFloat32")
		return float64(0)
	})
	iter("ReadBool", func(d *D, r *reader, a []Value) Value {
		if k := r.next(); k.K == "bool" {
			return k.V
		}
		r.fail("ReadBool")
		return false
	})
	iter("ReadNil", func(d *D, r *reader, a []Value) Value {
		if r.peek().K == "null" {
			r.next()
			return true
		}
		return false
	})
	iter("Skip", func(d *D, r *reader, a []Value) Value { r.value(); return nil })
	iter("SkipAndReturnBytes", func(d *D, r *reader, a []Value) Value {
		start := r.s.pos
		r.value()
		return d.I.TextBytes(d.S, JSONOf(r.s.toks[start:r.s.pos]).Text())
	})
	iter("Read", func(d *D, r *reader, a []Value) Value { return r.value() })
	iter("ReadAny", func(d *D, r *reader, a []Value) Value {
		return d.ExtIface(jsonPkg, "stringAny", "any", r.value())
	})
	runtimeModels["any.GetInterface"] = Direct(func(d *D, a []Value) Value { return d.S.Get(a[0].(Ptr).Obj).(*Ext).D[0] })
	iter("ReadVal", func(d *D, r *reader, a []Value) Value {
		i, ok := a[1].(Iface)
		if !ok {
			d.I.undecided("ReadVal of %s", Show(a[1]))
		}
		t := i.T.Underlying().(*types.Pointer).Elem()
		v := r.value()
		if !types.IsInterface(t) {
			x, ok := v.(Iface)
			if !ok || !types.Identical(x.T.Underlying(), t.Underlying()) {
				d.I.undecided("ReadVal of type %s", t)
			}
			v = x.V
		}
		d.I.Store(d.S, i.V, v)
		return nil
	})
	iter("ReportError", func(d *D, r *reader, a []Value) Value {
		r.report(Cat(str(d, a[1]), C(": "), str(d, a[2])))
		return nil
	})
	iter("WhatIsNext", func(d *D, r *reader, a []Value) Value {
		switch r.peek().K {
		case "str", "key":
			return int64(1)
		case "int", "float", "float32", "lossy", "lossy32":
			return int64(2)
		case "null":
			return int64(3)
		case "bool":
			return int64(4)
		case "[":
			return int64(5)
		case "{":
			return int64(6)
		case "val":
			d.I.undecided("WhatIsNext of unknown value")
		}
		return int64(0)
	})

	// Times:
	const timeT = "(time.Time)"
	reg(timeT+".Format", func(d *D, a []Value) Value {
		layout, _ := str(d, a[1]).Const()
		if layout == time.RFC3339 || layout == time.RFC3339Nano {
			if t, ok := timeText(a[0]); ok {
				return t
			}
		}
		return U("format(" + layout + "," + Instant(a[0]) + ")")
	})
	reg("time.Parse", func(d *D, a []Value) Value {
		layout, _ := str(d, a[0]).Const()
		s := str(d, a[1])
		bad := func() Value {
			return Tuple{d.I.Zero(d.I.LookupType("time", "Time")), d.I.NewError(d.S, Cat(C("parsing time "), s), nil)}
		}
		if layout == time.RFC3339 || layout == time.RFC3339Nano {
			if len(s.Parts) == 1 && s.Parts[0].A != nil {
				if x, ok := texts.Load(s.Parts[0].A.Base); ok {
					if v, ok := x.(*Struct); ok {
						return Tuple{v, Nil{}}
					}
				}
			}
		}
		if c, ok := s.Const(); ok {
			t, err := time.Parse(layout, c)
			if err != nil {
				return bad()
			}
			return Tuple{&Struct{F: []Value{int64(t.Nanosecond()), t.Unix(), Nil{}}}, Nil{}}
		}
		if d.Choose(2) == 0 {
			return bad()
		}
		return Tuple{d.I.SymOf(d.S, "parse("+layout+","+s.ID()+")", d.I.LookupType("time", "Time")), Nil{}}
	})
	for _, n := range []string{"UTC", "Local"} {
		reg(timeT+"."+n, func(d *D, a []Value) Value {
			s := a[0].(*Struct)
			return &Struct{F: []Value{s.F[0], s.F[1], Nil{}}}
		})
	}
	reg(timeT+".In", func(d *D, a []Value) Value {
		s := a[0].(*Struct)
		return &Struct{F: []Value{s.F[0], s.F[1], a[1]}}
	})
	for _, n := range []string{"Truncate", "Round"} {
		n := n
		reg(timeT+"."+n, func(d *D, a []Value) Value {
			return d.I.SymOf(d.S, n+"("+Instant(a[0])+","+Show(a[1])+")", d.I.LookupType("time", "Time"))
		})
	}
	reg(timeT+".IsZero", func(d *D, a []Value) Value {
		s := a[0].(*Struct)
		return d.I.allEq(d.S, []Value{s.F[0], s.F[1]}, []Value{int64(0), int64(0)})
	})
	reg(timeT+".Equal", func(d *D, a []Value) Value {
		x, y := a[0].(*Struct), a[1].(*Struct)
		return d.I.allEq(d.S, []Value{x.F[0], x.F[1]}, []Value{y.F[0], y.F[1]})
	})
	reg("time.Now", func(d *D, a []Value) Value {
		return d.I.SymOf(d.S, d.S.Fresh("now"), d.I.LookupType("time", "Time"))
	})

	// Contexts:
	reg("context.Background", func(d *D, a []Value) Value { return d.ExtIface("context", "cancelCtx", "ctx", C("background")) })
	reg("context.TODO", func(d *D, a []Value) Value { return d.ExtIface("context", "cancelCtx", "ctx", C("background")) })

	// HTTP:
	add := func(canon bool) func(d *D, a []Value) Value {
		return func(d *D, a []Value) Value {
			m := a[0]
			k := str(d, a[1])
			if canon {
				k = canonical(k)
			}
			old, _ := d.I.MapGet(d.S, m, k, types.NewSlice(types.Typ[types.String]))
			l := append(append([]Value(nil), d.I.Elems(d.S, old)...), a[2])
			if msg := d.I.MapSet(d.S, m, k, d.I.MakeSlice(d.S, l)); msg != "" {
				d.Panic(msg)
			}
			return nil
		}
	}
	set := func(canon bool) func(d *D, a []Value) Value {
		return func(d *D, a []Value) Value {
			k := str(d, a[1])
			if canon {
				k = canonical(k)
			}
			if msg := d.I.MapSet(d.S, a[0], k, d.I.MakeSlice(d.S, []Value{a[2]})); msg != "" {
				d.Panic(msg)
			}
			return nil
		}
	}
	get := func(canon bool) func(d *D, a []Value) Value {
		return func(d *D, a []Value) Value {
			k := str(d, a[1])
			if canon {
				k = canonical(k)
			}
			old, _ := d.I.MapGet(d.S, a[0], k, types.NewSlice(types.Typ[types.String]))
			if l := d.I.Elems(d.S, old); len(l) > 0 {
				return l[0]
			}
			return Str{}
		}
	}
	reg("(net/http.Header).Add", add(true))
	reg("(net/url.Values).Add", add(false))
	reg("(net/http.Header).Set", set(true))
	reg("(net/url.Values).Set", set(false))
	reg("(net/http.Header).Get", get(true))
	reg("(net/url.Values).Get", get(false))
	reg("(net/http.Header).Clone", func(d *D, a []Value) Value {
		m, ok := a[0].(MapRef)
		if !ok {
			return Nil{}
		}
		v := d.S.Get(m.Obj).(*MapV)
		n := &MapV{K: append([]Value(nil), v.K...)}
		for _, x := range v.V {
			n.V = append(n.V, d.I.MakeSlice(d.S, append([]Value(nil), d.I.Elems(d.S, x)...)))
		}
		return MapRef{Obj: d.S.Alloc(n)}
	})
	reg("(net/url.Values).Encode", func(d *D, a []Value) Value {
		m, ok := a[0].(MapRef)
		if !ok {
			return Str{}
		}
		var l []string
		v := d.S.Get(m.Obj).(*MapV)
		for i := range v.K {
			for _, e := range d.I.Elems(d.S, v.V[i]) {
				l = append(l, v.K[i].(Str).ID()+"="+e.(Str).ID())
			}
		}
		sort.Strings(l)
		if len(l) == 0 {
			return Str{}
		}
		return opaque("query:"+strings.Join(l, "&"), l)
	})
	reg("(*net/http.Request).WithContext", func(d *D, a []Value) Value {
		if _, ok := a[1].(Nil); ok {
			d.Panic("panic: nil context")
		}
		v, msg := d.I.Load(d.S, a[0], nil)
		if msg != "" {
			d.Panic(msg)
		}
		p := Ptr{Obj: d.S.Alloc(v)}
		d.SetField("net/http", "Request", "ctx", p, a[1])
		return p
	})
	reg("io.NopCloser", func(d *D, a []Value) Value { return d.ExtIface("io", "nopCloser", "nopcloser", a[0]) })
	reg("io/ioutil.NopCloser", func(d *D, a []Value) Value { return d.ExtIface("io", "nopCloser", "nopcloser", a[0]) })
	runtimeModels["nopcloser.Close"] = Direct(func(d *D, a []Value) Value { return Nil{} })
	runtimeModels["body.Close"] = Direct(func(d *D, a []Value) Value {
		p := a[0].(Ptr)
		x := d.S.Get(p.Obj).(*Ext)
		d.S.Set(p.Obj, &Ext{Kind: x.Kind, D: []Value{x.D[0], true, x.D[2]}})
		return Nil{}
	})
	reg("bufio.NewReader", func(d *D, a []Value) Value {
		return Ptr{Obj: d.S.Alloc(&Ext{Kind: "bufreader", D: []Value{a[0], Nil{}}})}
	})
	reg("(*bufio.Reader).Peek", func(d *D, a []Value) Value {
		s, fail := d.Peek(a[0])
		if len(s.Parts) == 0 {
			if _, ok := fail.(Nil); ok {
				fail = d.EOF()
			}
			return Tuple{Nil{}, fail}
		}
		return Tuple{Sym{Term: "peek(" + s.ID() + ")", T: types.NewSlice(types.Typ[types.Uint8])}, Nil{}}
	})
	// Bytes of the readers:
	firstByte := func(d *D, r Value) (Value, Value) {
		s, fail := d.Peek(r)
		if c, ok := s.Const(); ok && c == "" {
			if _, ok := fail.(Nil); ok {
				fail = d.EOF()
			}
			return int64(0), fail
		}
		return Sym{Term: "byte(" + s.ID() + ")", T: types.Typ[types.Uint8]}, Nil{}
	}
	reg("(*bufio.Reader).ReadByte", func(d *D, a []Value) Value {
		x := d.S.Get(a[0].(Ptr).Obj).(*Ext)
		b, fail := firstByte(d, a[0])
		if _, ok := fail.(Nil); !ok {
			return Tuple{b, fail}
		}
		s, rest := d.Drain(x.D[0])
		d.S.Set(a[0].(Ptr).Obj, &Ext{Kind: "bufreader", D: []Value{x.D[0], x.D[1], s, rest}})
		return Tuple{b, Nil{}}
	})
	reg("(*bufio.Reader).UnreadByte", func(d *D, a []Value) Value {
		x := d.S.Get(a[0].(Ptr).Obj).(*Ext)
		if len(x.D) != 4 {
			return d.I.NewError(d.S, C("bufio: invalid use of UnreadByte"), nil)
		}
		d.S.Set(a[0].(Ptr).Obj, &Ext{Kind: "bufreader", D: []Value{x.D[0], Tuple{x.D[2], x.D[3]}}})
		return Nil{}
	})
	runtimeModels["response.Header"] = Direct(func(d *D, a []Value) Value { return d.S.Get(a[0].(Ptr).Obj).(*Ext).D[0] })
	runtimeModels["response.WriteHeader"] = Direct(func(d *D, a []Value) Value {
		p := a[0].(Ptr)
		x := d.S.Get(p.Obj).(*Ext)
		d.S.Set(p.Obj, &Ext{Kind: x.Kind, D: []Value{x.D[0], append(x.D[1].(Tuple), a[1]), x.D[2]}})
		return nil
	})
	runtimeModels["response.WriteString"] = Direct(func(d *D, a []Value) Value {
		p := a[0].(Ptr)
		x := d.S.Get(p.Obj).(*Ext)
		d.S.Set(p.Obj, &Ext{Kind: x.Kind, D: []Value{x.D[0], x.D[1], Cat(x.D[2].(Str), a[1].(Str))}})
		return Tuple{strLen(a[1].(Str)), Nil{}}
	})
	for _, n := range []string{"Errorf", "Error", "Errorln", "Infof", "Warningf"} {
		reg("github.com/golang/glog."+n, func(d *D, a []Value) Value { return nil })
	}

	// Texts of numbers and booleans:
	dec := func(d *D, v Value) Value {
		if n, ok := v.(int64); ok {
			return C(strconv.FormatInt(n, 10))
		}
		return numText(v, "int")
	}
	reg("strconv.Itoa", func(d *D, a []Value) Value { return dec(d, a[0]) })
	reg("strconv.FormatInt", func(d *D, a []Value) Value {
		if b, ok := a[1].(int64); ok && b == 10 {
			return dec(d, a[0])
		}
		return U("FormatInt(" + Show(a[0]) + "," + Show(a[1]) + ")")
	})
	reg("strconv.FormatBool", func(d *D, a []Value) Value {
		if b, ok := a[0].(bool); ok {
			return C(strconv.FormatBool(b))
		}
		return numText(a[0], "bool")
	})
	parse := func(kind string, t types.Type, native func(s string) (Value, error)) func(d *D, a []Value) Value {
		return func(d *D, a []Value) Value {
			s := str(d, a[0])
			bad := func() Value { return Tuple{zeroOf(t), d.I.NewError(d.S, Cat(C("parsing "), s), nil)} }
			if c, ok := s.Const(); ok {
				v, err := native(c)
				if err != nil {
					return bad()
				}
				return Tuple{v, Nil{}}
			}
			if len(s.Parts) == 1 && s.Parts[0].A.Ops == "" {
				if x, ok := texts.Load(s.Parts[0].A.Base); ok {
					if n, ok := x.(numContent); ok && n.kind == kind {
						return Tuple{retype(n.v, t), Nil{}}
					}
				}
			}
			if d.Choose(2) == 0 {
				return bad()
			}
			return Tuple{Sym{Term: "parse" + kind + "(" + s.ID() + ")", T: t}, Nil{}}
		}
	}
	reg("strconv.Atoi", parse("int", types.Typ[types.Int], func(s string) (Value, error) { n, err := strconv.Atoi(s); return int64(n), err }))
	reg("strconv.ParseInt", parse("int", types.Typ[types.Int64], func(s string) (Value, error) { n, err := strconv.ParseInt(s, 10, 64); return n, err }))
	reg("strconv.ParseBool", parse("bool", types.Typ[types.Bool], func(s string) (Value, error) { n, err := strconv.ParseBool(s); return n, err }))
	reg("strconv.ParseFloat", parse("float", types.Typ[types.Float64], func(s string) (Value, error) { n, err := strconv.ParseFloat(s, 64); return n, err }))
}

type numContent struct {
	kind string
	v    Value
}

// numText is the canonical text of an unknown number or boolean.
func numText(v Value, kind string) Str {
	return opaque(kind+":"+Show(v), numContent{kind, v})
}

func zeroOf(t types.Type) Value {
	switch b := t.Underlying().(*types.Basic); {
	case b.Info()&types.IsBoolean != 0:
		return false
	case b.Info()&types.IsFloat != 0:
		return float64(0)
	case b.Info()&types.IsString != 0:
		return Str{}
	}
	return int64(0)
}

func opSym(op string, v Value, t types.Type) Value {
	if s, ok := v.(Sym); ok {
		return Sym{Term: op + "(" + s.Term + ")", T: t}
	}
	return v
}

// jsonValue converts a value of a interface to a token.
func (d *D) jsonValue(v Value) JTok {
	switch x := v.(type) {
	case Nil:
		return JTok{K: "null"}
	case Iface:
		if n, ok := x.T.(*types.Named); ok && n.String() == "time.Time" {
			if s, ok := timeText(x.V); ok {
				return JTok{"str", s}
			}
		}
		switch u := x.T.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsString != 0:
				return JTok{"str", x.V}
			case u.Info()&types.IsBoolean != 0:
				return JTok{"bool", x.V}
			case u.Info()&types.IsInteger != 0:
				return JTok{"int", x.V}
			case u.Info()&types.IsFloat != 0:
				return JTok{"float", x.V}
			}
		case *types.Pointer:
			if _, ok := x.V.(Nil); ok {
				return JTok{K: "null"}
			}
			if c, msg := d.I.Load(d.S, x.V, u.Elem()); msg == "" {
				return d.jsonValue(Iface{T: u.Elem(), V: c})
			}
		}
	}
	return JTok{"val", v}
}

// reader reads tokens.
type reader struct {
	d *D
	p Value
	s *iterState
}

func (r *reader) peek() JTok {
	if r.s.bad || r.s.pos >= len(r.s.toks) {
		return JTok{K: "eof"}
	}
	return r.s.toks[r.s.pos]
}

func (r *reader) next() JTok {
	t := r.peek()
	if t.K == "eof" {
		if !r.s.bad {
			e := r.s.fail
			if _, ok := e.(Nil); ok {
				e = r.d.EOF()
			}
			r.set(e)
		}
		return t
	}
	r.s.pos++
	return t
}

func (r *reader) set(e Value) {
	if _, ok := r.d.Field(jsonPkg, "Iterator", "Error", r.p).(Nil); ok {
		r.d.SetField(jsonPkg, "Iterator", "Error", r.p, e)
	}
}

func (r *reader) report(msg Str) {
	old := r.d.Field(jsonPkg, "Iterator", "Error", r.p)
	if _, ok := old.(Nil); !ok && Show(old) != Show(r.d.EOF()) {
		return
	}
	r.d.SetField(jsonPkg, "Iterator", "Error", r.p, r.d.I.NewError(r.d.S, msg, nil))
}

// fail reports that the document isn't what was expected.
func (r *reader) fail(op string) {
	r.report(C(op + ": unexpected token"))
	r.s.bad = true
}

// value reads a complete value and converts it to an interface.
func (r *reader) value() Value {
	t := r.next()
	basic := func(k types.BasicKind) Value { return Iface{T: types.Typ[k], V: t.V} }
	switch t.K {
	case "str":
		return basic(types.String)
	case "bool":
		return basic(types.Bool)
	case "int", "float", "float32", "lossy", "lossy32":
		return Iface{T: types.Typ[types.Float64], V: r.d.I.convert(r.d.S, t.V, types.Typ[types.Int64], types.Typ[types.Float64])}
	case "null":
		return Nil{}
	case "val":
		return t.V
	case "{", "[":
		start := r.s.pos - 1
		depth := 1
		for depth > 0 {
			switch x := r.next(); x.K {
			case "{", "[":
				depth++
			case "}", "]":
				depth--
			case "eof", "garbage":
				r.fail("ReadVal")
				return Nil{}
			}
		}
		return Sym{Term: "json(" + JSONOf(r.s.toks[start:r.s.pos]).String() + ")", T: types.NewInterfaceType(nil, nil)}
	}
	r.fail("ReadVal")
	return Nil{}
}

// Grammar is the state of a recogniser of JSON documents, used as typestate of streams.
type Grammar struct {
	// The stack contains a letter for each open value: D document without value, d document with
	// value, O object without members, K object after a key, M object after a member, C object after
	// a comma, A array without elements, E array after an element, F array after a comma, and X for
	// incorrect documents.
	stack string
	why   string
	// Flushed indicates that nothing has been written since the last time that the stream was flushed.
	flushed bool
}

func newGrammar() *Grammar { return &Grammar{stack: "D", flushed: true} }

func (g *Grammar) String() string { return fmt.Sprintf("grammar(%s%s,%v)", g.stack, g.why, g.flushed) }

// Documents analyses the text written by streams that only check the grammar. It returns the reason
// why it isn't exactly one correct document.
func Documents(s Str) (string, bool) {
	t, ok := s.Const()
	if !ok {
		return "", false
	}
	if t == "" {
		return "nothing is written", true
	}
	done := false
	for t != "" {
		k := strings.Index(t, "»")
		if !strings.HasPrefix(t, "«") || k < 0 {
			return "", false
		}
		m := strings.TrimPrefix(t[:k], "«")
		t = t[k+len("»"):]
		switch {
		case strings.HasPrefix(m, "X"):
			return m[1:], true
		case done:
			return "there is more than one document", true
		case m == "d":
			done = true
		case t == "":
			return "the document isn't complete", true
		}
	}
	return "", true
}

func (g *Grammar) next(k string) *Grammar {
	if strings.HasPrefix(g.stack, "X") {
		return g
	}
	n := len(g.stack) - 1
	top, rest := g.stack[n], g.stack[:n]
	bad := func() *Grammar {
		return &Grammar{stack: "X", why: fmt.Sprintf("'%s' isn't expected %s", k, map[byte]string{
			'D': "at the beginning", 'd': "after the end of the document", 'O': "at the beginning of an object", 'K': "after the name of a field",
			'M': "after the value of a field", 'C': "after a comma of an object", 'A': "at the beginning of an array", 'E': "after an element of an array", 'F': "after a comma of an array",
		}[top])}
	}
	value := func() (string, bool) {
		switch top {
		case 'D':
			return rest + "d", true
		case 'K':
			return rest + "M", true
		case 'A', 'F':
			return rest + "E", true
		}
		return "", false
	}
	switch k {
	case "{", "[":
		s, ok := value()
		if !ok {
			return bad()
		}
		return &Grammar{stack: s + map[string]string{"{": "O", "[": "A"}[k]}
	case "}":
		if top != 'O' && top != 'M' {
			return bad()
		}
		return &Grammar{stack: rest}
	case "]":
		if top != 'A' && top != 'E' {
			return bad()
		}
		return &Grammar{stack: rest}
	case ",":
		switch top {
		case 'M':
			return &Grammar{stack: rest + "C"}
		case 'E':
			return &Grammar{stack: rest + "F"}
		}
		return bad()
	case "key":
		if top != 'O' && top != 'C' {
			return bad()
		}
		return &Grammar{stack: rest + "K"}
	}
	s, ok := value()
	if !ok {
		return bad()
	}
	return &Grammar{stack: s}
}

// Grammars replaces the model of streams so that only the grammar of the documents is checked.
func Grammars(it *Interp) {
	it.Models[jsonPkg+".NewStream"] = Direct(func(d *D, a []Value) Value {
		p := d.New(jsonPkg, "Stream")
		d.SetField(jsonPkg, "Stream", "out", p, a[1])
		d.SetField(jsonPkg, "Stream", "buf", p, &Ext{Kind: "grammar", X: newGrammar()})
		return p
	})
}

// ScalarText returns the text used to represent an scalar value in queries.
func ScalarText(v Value) (Str, bool) {
	switch x := v.(type) {
	case Str:
		return x, true
	case Sym:
		if b, ok := x.T.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0:
				return numText(x, "int"), true
			case b.Info()&types.IsBoolean != 0:
				return numText(x, "bool"), true
			case b.Info()&types.IsFloat != 0:
				return numText(x, "float"), true
			}
		}
	case *Struct:
		return timeText(x)
	}
	return Str{}, false
}
