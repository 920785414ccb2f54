package mm

import (
	"bytes"
	"encoding/json"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	. "verif/tool/engine"
)

// toJSON calculates the JSON representation of a value.
func toJSON(d *D, v Value, t types.Type) Str {
	q := func(s string) string {
		b := &bytes.Buffer{}
		e := json.NewEncoder(b)
		e.SetEscapeHTML(false)
		e.Encode(s)
		return strings.TrimSuffix(b.String(), "\n")
	}
	switch x := v.(type) {
	case Nil:
		return C("null")
	case bool:
		return C(strconv.FormatBool(x))
	case int64:
		return C(strconv.FormatInt(x, 10))
	case float64:
		b, _ := json.Marshal(x)
		return C(string(b))
	case Str:
		if c, ok := x.Const(); ok {
			return C(q(c))
		}
		return Cat(C(`"`), x, C(`"`))
	case Iface:
		return toJSON(d, x.V, x.T)
	case Ptr:
		if p, ok := t.Underlying().(*types.Pointer); ok {
			e, msg := d.I.Load(d.S, x, nil)
			if msg != "" {
				d.Panic(msg)
			}
			return toJSON(d, e, p.Elem())
		}
	case Slice, *Array:
		var elem types.Type
		var l []Value
		switch u := t.Underlying().(type) {
		case *types.Slice:
			elem = u.Elem()
			l = d.I.Elems(d.S, v)
		case *types.Array:
			elem = u.Elem()
			l = v.(*Array).E
		}
		r := []Str{C("[")}
		for i, e := range l {
			if i > 0 {
				r = append(r, C(","))
			}
			r = append(r, toJSON(d, e, elem))
		}
		return Cat(append(r, C("]"))...)
	case MapRef:
		m := d.S.Get(x.Obj).(*MapV)
		elem := t.Underlying().(*types.Map).Elem()
		idx := make([]int, len(m.K))
		key := func(i int) string {
			switch k := m.K[i].(type) {
			case Str:
				return k.Render()
			case int64:
				return strconv.FormatInt(k, 10)
			}
			d.I.Undecided("JSON of map with key %s", Show(m.K[i]))
			return ""
		}
		for i := range idx {
			idx[i] = i
		}
		sort.Slice(idx, func(a, b int) bool { return key(idx[a]) < key(idx[b]) })
		if d.Unsorted {
			var l []Value
			for _, i := range idx {
				l = append(l, int64(i))
			}
			d.I.OrderKeys(l)
			for n, i := range l {
				idx[n] = int(i.(int64))
			}
		}
		r := []Str{C("{")}
		for n, i := range idx {
			if n > 0 {
				r = append(r, C(","))
			}
			r = append(r, C(q(key(i))), C(":"), toJSON(d, m.V[i], elem))
		}
		return Cat(append(r, C("}"))...)
	case *Struct:
		u := t.Underlying().(*types.Struct)
		r := []Str{C("{")}
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			name := f.Name()
			tag := reflect.StructTag(u.Tag(i)).Get("json")
			opts := strings.Split(tag, ",")
			if tag == "-" {
				continue
			}
			if opts[0] != "" {
				name = opts[0]
			}
			if len(opts) > 1 && opts[1] == "omitempty" && isEmpty(d, x.F[i]) {
				continue
			}
			if n > 0 {
				r = append(r, C(","))
			}
			n++
			r = append(r, C(q(name)), C(":"), toJSON(d, x.F[i], f.Type()))
		}
		return Cat(append(r, C("}"))...)
	}
	d.I.Undecided("JSON representation of %s", Show(v))
	return Str{}
}

func isEmpty(d *D, v Value) bool {
	switch x := v.(type) {
	case Nil:
		return true
	case bool:
		return !x
	case int64:
		return x == 0
	case Str:
		return len(x.Parts) == 0
	case Slice:
		return x.Len == 0
	case MapRef:
		return len(d.S.Get(x.Obj).(*MapV).K) == 0
	}
	return false
}

const jsoniterPath = "github.com/json-iterator/go"

// registerJSON registers the models of the JSON libraries used by the generators.
func registerJSON(it *Interp) {
	reg := func(name string, f func(d *D, a []Value) Value) { it.Models[name] = Direct(f) }
	box := func(v Value) (Value, types.Type) {
		if i, ok := v.(Iface); ok {
			return i.V, i.T
		}
		return Nil{}, types.Typ[types.UntypedNil]
	}
	reg("encoding/json.NewEncoder", func(d *D, a []Value) Value {
		return Ptr{Obj: d.S.Alloc(&Ext{Kind: "jsonencoder", D: []Value{a[0]}})}
	})
	for _, n := range []string{"SetIndent", "SetEscapeHTML"} {
		reg("(*encoding/json.Encoder)."+n, func(d *D, a []Value) Value { return nil })
	}
	reg("(*encoding/json.Encoder).Encode", func(d *D, a []Value) Value {
		v, t := box(a[1])
		if err := d.Fail("encode"); err != (Nil{}) {
			return err
		}
		w := d.S.Get(a[0].(Ptr).Obj).(*Ext).D[0]
		return d.WriteText(w, Cat(toJSON(d, v, t), C("\n"))).(Tuple)[1]
	})
	marshal := func(d *D, a []Value) Value {
		v, t := box(a[0])
		if err := d.Fail("encode"); err != (Nil{}) {
			return Tuple{Nil{}, err}
		}
		return Tuple{d.I.TextBytes(d.S, toJSON(d, v, t)), Nil{}}
	}
	reg("encoding/json.Marshal", marshal)
	reg("encoding/json.MarshalIndent", marshal)
	reg(jsoniterPath+".Marshal", marshal)

	// Streams:
	P := jsoniterPath
	reg("("+P+".Config).Froze", func(d *D, a []Value) Value {
		sorted := false
		u := d.I.LookupType(P, "Config").Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "SortMapKeys" {
				sorted = a[0].(*Struct).F[i] == true
			}
		}
		return Iface{T: types.NewPointer(d.I.LookupType(P, "frozenConfig")), V: Ptr{Obj: d.S.Alloc(&Ext{Kind: "jsonconfig", D: []Value{sorted}})}}
	})
	reg(P+".NewStream", func(d *D, a []Value) Value {
		return Ptr{Obj: d.S.Alloc(&Ext{Kind: "jsonstream", D: []Value{a[1], a[0]}, X: (*Rope)(nil)})}
	})
	stream := func(d *D, v Value) (Ptr, *Ext) {
		p, ok := v.(Ptr)
		if !ok {
			d.Panic("nil dereference: stream")
		}
		e, ok := d.S.Get(p.Obj).(*Ext)
		if !ok || e.Kind != "jsonstream" {
			d.I.Undecided("stream is %s", Show(d.S.Get(p.Obj)))
		}
		return p, e
	}
	write := func(d *D, v Value, s Str) {
		p, e := stream(d, v)
		d.S.Set(p.Obj, &Ext{Kind: e.Kind, D: e.D, X: e.X.(*Rope).Add(s)})
	}
	S := "(*" + P + ".Stream)."
	for n, s := range map[string]string{
		"WriteMore": ",\n", "WriteObjectStart": "{", "WriteObjectEnd": "}", "WriteArrayStart": "[", "WriteArrayEnd": "]",
		"WriteNil": "null", "WriteTrue": "true", "WriteFalse": "false", "WriteEmptyObject": "{}", "WriteEmptyArray": "[]",
	} {
		s := s
		reg(S+n, func(d *D, a []Value) Value { write(d, a[0], C(s)); return nil })
	}
	reg(S+"WriteObjectField", func(d *D, a []Value) Value {
		write(d, a[0], Cat(toJSON(d, a[1], types.Typ[types.String]), C(": ")))
		return nil
	})
	reg(S+"WriteRaw", func(d *D, a []Value) Value { write(d, a[0], a[1].(Str)); return nil })
	for _, n := range []string{"WriteString", "WriteBool", "WriteInt", "WriteInt64", "WriteInt32", "WriteFloat64"} {
		reg(S+n, func(d *D, a []Value) Value {
			write(d, a[0], toJSON(d, a[1], types.Typ[types.String]))
			return nil
		})
	}
	reg(S+"WriteVal", func(d *D, a []Value) Value {
		v, t := box(a[1])
		_, e := stream(d, a[0])
		sorted := false
		if i, ok := e.D[1].(Iface); ok {
			if p, ok := i.V.(Ptr); ok {
				if x, ok := d.S.Get(p.Obj).(*Ext); ok && x.Kind == "jsonconfig" && len(x.D) > 0 {
					sorted = x.D[0] == true
				}
			}
		}
		d.Unsorted = !sorted
		write(d, a[0], toJSON(d, v, t))
		d.Unsorted = false
		return nil
	})
	reg(S+"Buffer", func(d *D, a []Value) Value {
		_, e := stream(d, a[0])
		return d.I.TextBytes(d.S, e.X.(*Rope).Text())
	})
	reg(S+"Flush", func(d *D, a []Value) Value {
		p, e := stream(d, a[0])
		if _, ok := e.D[0].(Nil); ok {
			return Nil{}
		}
		r := d.WriteText(e.D[0], e.X.(*Rope).Text())
		d.S.Set(p.Obj, &Ext{Kind: e.Kind, D: e.D, X: (*Rope)(nil)})
		return r.(Tuple)[1]
	})
	reg("os.MkdirTemp", func(d *D, a []Value) Value {
		if err := d.Fail("mkdir"); err != (Nil{}) {
			return Tuple{C(""), err}
		}
		d.I.PutDir(d.S, "/tmp/dir")
		return Tuple{C("/tmp/dir"), Nil{}}
	})
	it.Models["io/ioutil.TempDir"] = it.Models["os.MkdirTemp"]
}
