package engine

import (
	"go/types"
	"math/bits"
	"net/url"
	"path"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// natives are pure functions of the standard library. They are evaluated directly when all their
// arguments are constants, and produce an opaque term otherwise.
var natives = map[string]interface{}{
	"strings.ToUpper":                strings.ToUpper,
	"strings.ToLower":                strings.ToLower,
	"strings.Title":                  strings.Title, //nolint
	"strings.TrimSpace":              strings.TrimSpace,
	"strings.Trim":                   strings.Trim,
	"strings.TrimLeft":               strings.TrimLeft,
	"strings.TrimRight":              strings.TrimRight,
	"strings.TrimPrefix":             strings.TrimPrefix,
	"strings.TrimSuffix":             strings.TrimSuffix,
	"strings.CutPrefix":              strings.CutPrefix,
	"strings.CutSuffix":              strings.CutSuffix,
	"strings.Cut":                    strings.Cut,
	"strings.HasPrefix":              strings.HasPrefix,
	"strings.HasSuffix":              strings.HasSuffix,
	"strings.Contains":               strings.Contains,
	"strings.ContainsAny":            strings.ContainsAny,
	"strings.ContainsRune":           strings.ContainsRune,
	"strings.Count":                  strings.Count,
	"strings.Compare":                strings.Compare,
	"strings.EqualFold":              strings.EqualFold,
	"strings.Fields":                 strings.Fields,
	"strings.Index":                  strings.Index,
	"strings.IndexByte":              strings.IndexByte,
	"strings.IndexAny":               strings.IndexAny,
	"strings.IndexRune":              strings.IndexRune,
	"strings.LastIndex":              strings.LastIndex,
	"strings.LastIndexByte":          strings.LastIndexByte,
	"strings.LastIndexAny":           strings.LastIndexAny,
	"strings.Repeat":                 strings.Repeat,
	"strings.Replace":                strings.Replace,
	"strings.ReplaceAll":             strings.ReplaceAll,
	"strings.Split":                  strings.Split,
	"strings.SplitN":                 strings.SplitN,
	"strings.SplitAfter":             strings.SplitAfter,
	"strings.ToTitle":                strings.ToTitle,
	"strconv.Itoa":                   strconv.Itoa,
	"strconv.Atoi":                   strconv.Atoi,
	"strconv.Quote":                  strconv.Quote,
	"strconv.Unquote":                strconv.Unquote,
	"strconv.FormatInt":              strconv.FormatInt,
	"strconv.FormatUint":             strconv.FormatUint,
	"strconv.FormatBool":             strconv.FormatBool,
	"strconv.FormatFloat":            strconv.FormatFloat,
	"strconv.ParseInt":               strconv.ParseInt,
	"strconv.ParseUint":              strconv.ParseUint,
	"strconv.ParseBool":              strconv.ParseBool,
	"strconv.ParseFloat":             strconv.ParseFloat,
	"unicode.IsUpper":                unicode.IsUpper,
	"unicode.IsLower":                unicode.IsLower,
	"unicode.IsDigit":                unicode.IsDigit,
	"unicode.IsLetter":               unicode.IsLetter,
	"unicode.IsNumber":               unicode.IsNumber,
	"unicode.IsSpace":                unicode.IsSpace,
	"unicode.IsPunct":                unicode.IsPunct,
	"unicode.IsControl":              unicode.IsControl,
	"unicode.IsPrint":                unicode.IsPrint,
	"unicode.IsTitle":                unicode.IsTitle,
	"unicode.ToUpper":                unicode.ToUpper,
	"unicode.ToLower":                unicode.ToLower,
	"unicode.ToTitle":                unicode.ToTitle,
	"unicode/utf8.RuneCountInString": utf8.RuneCountInString,
	"unicode/utf8.RuneLen":           utf8.RuneLen,
	"unicode/utf8.ValidString":       utf8.ValidString,
	"unicode/utf8.DecodeRuneInString": func(s string) (rune, int) {
		return utf8.DecodeRuneInString(s)
	},
	"unicode/utf8.DecodeLastRuneInString": func(s string) (rune, int) {
		return utf8.DecodeLastRuneInString(s)
	},
	"path.Join":                 path.Join,
	"path.Base":                 path.Base,
	"path.Dir":                  path.Dir,
	"path.Ext":                  path.Ext,
	"path.Clean":                path.Clean,
	"path.IsAbs":                path.IsAbs,
	"path/filepath.Join":        filepath.Join,
	"path/filepath.Base":        filepath.Base,
	"path/filepath.Dir":         filepath.Dir,
	"path/filepath.Ext":         filepath.Ext,
	"path/filepath.Clean":       filepath.Clean,
	"path/filepath.IsAbs":       filepath.IsAbs,
	"path/filepath.ToSlash":     filepath.ToSlash,
	"path/filepath.FromSlash":   filepath.FromSlash,
	"path/filepath.Rel":         filepath.Rel,
	"net/url.PathEscape":        url.PathEscape,
	"net/url.QueryEscape":       url.QueryEscape,
	"math/bits.Len":             bits.Len,
	"math/bits.Len64":           bits.Len64,
	"math/bits.TrailingZeros64": bits.TrailingZeros64,
	"math/bits.OnesCount64":     bits.OnesCount64,
}

func (it *Interp) native(st *State, name string, args []Value) (Value, bool) {
	fn, ok := natives[name]
	if !ok {
		return nil, false
	}
	f := reflect.ValueOf(fn)
	ft := f.Type()
	in := make([]reflect.Value, len(args))
	allConst := true
	for i, a := range args {
		v, ok := it.toNative(st, a, ft.In(i))
		if !ok {
			allConst = false
			break
		}
		in[i] = v
	}
	if !allConst {
		// Simplifications for text that isn't completely known:
		if v, ok := it.partial(st, name, args); ok {
			return v, true
		}
		term := name + "("
		for i, a := range args {
			if i > 0 {
				term += ","
			}
			if s, ok := a.(Slice); ok {
				term += "[" + showList(it.Elems(st, s)) + "]"
			} else {
				term += Show(a)
			}
		}
		term += ")"
		mk := func(i int) Value {
			t := goType(ft.Out(i))
			if ft.NumOut() == 1 {
				return it.SymOf(st, term, t)
			}
			return it.SymOf(st, term+"."+strconv.Itoa(i), t)
		}
		if ft.NumOut() == 1 {
			return mk(0), true
		}
		r := make(Tuple, ft.NumOut())
		for i := range r {
			r[i] = mk(i)
		}
		return r, true
	}
	var out []reflect.Value
	if ft.IsVariadic() {
		out = f.CallSlice(in)
	} else {
		out = f.Call(in)
	}
	if len(out) == 1 {
		return it.fromNative(st, out[0]), true
	}
	r := make(Tuple, len(out))
	for i := range r {
		r[i] = it.fromNative(st, out[i])
	}
	return r, true
}

func (it *Interp) partial(st *State, name string, args []Value) (Value, bool) {
	switch name {
	case "strings.TrimSpace":
		return nil, false
	case "path.Join", "path/filepath.Join":
		// Join of known and unknown segments, where the unknown segments are assumed to be
		// clean and not empty:
		var r Str
		for i, e := range it.Elems(st, args[0]) {
			s, ok := e.(Str)
			if !ok {
				return nil, false
			}
			if i > 0 {
				r = Cat(r, C("/"))
			}
			r = Cat(r, s)
		}
		return r, true
	}
	return nil, false
}

func goType(t reflect.Type) types.Type {
	switch t.Kind() {
	case reflect.String:
		return types.Typ[types.String]
	case reflect.Bool:
		return types.Typ[types.Bool]
	case reflect.Int:
		return types.Typ[types.Int]
	case reflect.Int32:
		return types.Typ[types.Int32]
	case reflect.Int64:
		return types.Typ[types.Int64]
	case reflect.Uint64:
		return types.Typ[types.Uint64]
	case reflect.Float64:
		return types.Typ[types.Float64]
	case reflect.Slice:
		return types.NewSlice(goType(t.Elem()))
	case reflect.Interface:
		return types.Universe.Lookup("error").Type()
	case reflect.Uint8:
		return types.Typ[types.Uint8]
	}
	return types.Typ[types.Int]
}

func (it *Interp) toNative(st *State, v Value, t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.String:
		s, ok := v.(Str)
		if !ok {
			return reflect.Value{}, false
		}
		c, ok := s.Const()
		return reflect.ValueOf(c), ok
	case reflect.Bool:
		b, ok := v.(bool)
		return reflect.ValueOf(b), ok
	case reflect.Int, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint64, reflect.Uint32:
		n, ok := v.(int64)
		return reflect.ValueOf(n).Convert(t), ok
	case reflect.Float64:
		n, ok := v.(float64)
		return reflect.ValueOf(n), ok
	case reflect.Slice:
		r := reflect.MakeSlice(t, 0, 0)
		if _, ok := v.(Nil); ok {
			return r, true
		}
		if _, ok := v.(Slice); !ok {
			return r, false
		}
		for _, e := range it.Elems(st, v) {
			n, ok := it.toNative(st, e, t.Elem())
			if !ok {
				return r, false
			}
			r = reflect.Append(r, n)
		}
		return r, true
	}
	return reflect.Value{}, false
}

func (it *Interp) fromNative(st *State, v reflect.Value) Value {
	switch v.Kind() {
	case reflect.String:
		return C(v.String())
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int32, reflect.Int64:
		return v.Int()
	case reflect.Uint, reflect.Uint64, reflect.Uint8, reflect.Uint32:
		return int64(v.Uint())
	case reflect.Float64:
		return v.Float()
	case reflect.Slice:
		if v.IsNil() {
			return Nil{}
		}
		var e []Value
		for i := 0; i < v.Len(); i++ {
			e = append(e, it.fromNative(st, v.Index(i)))
		}
		return it.MakeSlice(st, e)
	case reflect.Interface:
		if v.IsNil() {
			return Nil{}
		}
		if err, ok := v.Interface().(error); ok {
			return it.NewError(st, C(err.Error()), nil)
		}
	}
	it.undecided("native result of kind %s", v.Kind())
	return nil
}
