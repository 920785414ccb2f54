package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/tool/engine"
	"verif/tool/spec"
)

// errorField is one of the fields of the generated error type.
type errorField struct {
	name, json string
	make       func(w *world) made
	mention    string // text that should appear before the value in the message
}

func textField(name, json, mention string) errorField {
	return errorField{name, json, func(w *world) made {
		v := engine.U(w.fresh("error." + json))
		return made{v, engine.Show(v), engine.Show(v)}
	}, mention}
}

var errorFields = []errorField{
	{"Status", "status", func(w *world) made {
		v := engine.Sym{Term: w.fresh("error.status"), T: types.Typ[types.Int]}
		return made{v, engine.Show(v), engine.Show(v)}
	}, "status"},
	textField("ID", "id", "id"),
	textField("HREF", "href", ""),
	textField("Code", "code", "code"),
	textField("Reason", "reason", "reason"),
	textField("OperationID", "operation_id", "operation"),
	{"Details", "details", func(w *world) made {
		v := engine.U(w.fresh("error.details"))
		i := engine.Iface{T: types.Typ[types.String], V: v}
		return made{i, engine.Show(i), engine.Show(v)}
	}, ""},
	{"Timestamp", "timestamp", func(w *world) made {
		v := w.it.SymOf(w.d.S, w.fresh("error.timestamp"), w.it.LookupType("time", "Time"))
		return made{engine.Ptr{Obj: w.d.S.Alloc(v)}, engine.Instant(v), ""}
	}, "timestamp"},
}

func (w *world) errorPkg() string { return "gen/" + w.s.name + "/errors" }

// errorBuilder creates a builder of errors.
func (w *world) errorBuilder() (types.Type, value) {
	f := w.fn(w.errorPkg(), "NewError")
	return result(f, 0), w.d.CallFn(f)
}

// errorSet sets some fields, given as a set of bits.
func (w *world) errorSet(t types.Type, b value, set int) (value, map[string]made) {
	r := map[string]made{}
	for i, f := range errorFields {
		if set&(1<<i) != 0 {
			m := f.make(w)
			r[f.name] = m
			b = w.Method(t, b, f.name, m.v)
		}
	}
	return b, r
}

// errorShow describes the value of a field.
func (w *world) errorShow(f errorField, v value) string {
	if f.name == "Timestamp" {
		p, ok := v.(engine.Ptr)
		if !ok {
			return engine.Show(v)
		}
		c, msg := w.it.Load(w.d.S, p, w.it.LookupType("time", "Time"))
		if msg != "" {
			return msg
		}
		return engine.Instant(c)
	}
	return engine.Show(v)
}

// errorExpect checks what the accessors return.
func (w *world) errorExpect(key string, t types.Type, v value, want map[string]made) {
	for _, f := range errorFields {
		g := w.method(t, f.name)
		got := w.d.CallFn(g, v)
		r, ok := w.Method(t, v, "Get"+f.name).(engine.Tuple)
		if !ok || len(r) != 2 {
			w.Skip("Get%s doesn't return two values", f.name)
		}
		present := w.d.Bool(r[1])
		m, ok := want[f.name]
		if !ok {
			m.tree = engine.Show(w.it.Zero(result(g, 0)))
		}
		if present != ok {
			w.Fail(key+":present:"+f.name, "Get%s of the error returns flag %v but should return %v", f.name, present, ok)
		}
		if a := w.errorShow(f, got); a != m.tree {
			w.Fail(key+":value:"+f.name, "%s of the error returns %s but should return %s", f.name, a, m.tree)
		}
		if a := w.errorShow(f, r[0]); a != m.tree {
			w.Fail(key+":value:"+f.name, "Get%s of the error returns %s but should return %s", f.name, a, m.tree)
		}
	}
}

func (w *world) errorKind(key string, t types.Type, v value, want string) {
	if got := engine.Show(w.Method(t, v, "Kind")); got != fmt.Sprintf("%q", want) {
		w.Fail(key+":kind", "Kind of the error returns %s but should return %q", got, want)
	}
}

func init() {
	register("P21", func(c *Ctx) {
		c.Rule("the generated error type is interpreted for all the subsets of its fields with unknown values: builder, accessors, copy, message, writer and reader; and the value of the constant of each error of each version is compared with the code of the model")
		var tasks []task
		shapes := c.residual()
		for _, s := range shapes {
			s := s
			for _, sv := range s.Spec.Services {
				for _, v := range sv.Versions {
					for _, e := range v.Errors {
						v, e := v, e
						tasks = append(tasks, task{s, fmt.Sprintf("constant of error %s of %s/%s", e.Name, v.Service.Name, v.Name), nil, func(w *world) {
							name := errorConstant(e)
							m, ok := w.pkg(versionPath(s, v)).Members[name].(*ssa.NamedConst)
							if !ok {
								// It isn't specified if the Go name is honoured for errors:
								m, ok = w.pkg(versionPath(s, v)).Members[goName(&e.Base)].(*ssa.NamedConst)
							}
							if !ok {
								w.Fail("constant", "There is no constant %s in package %s for error '%s' of %s/%s", name, versionPath(s, v), e.Name, v.Service.Name, v.Name)
								return
							}
							if m.Value.Value.ExactString() != fmt.Sprint(e.Code) {
								w.Fail("constant", "The value of constant %s is %s but the code of error '%s' is %d", name, m.Value.Value, e.Name, e.Code)
							}
						}})
					}
				}
			}
		}
		seen := false
		for _, s := range shapes {
			s := s
			// The error type doesn't depend on the model, so one shape is enough, and another two are used to
			// verify that.
			if seen && s.name != "versions" && s.name != "minimal" {
				continue
			}
			seen = true
			add := func(name string, f func(w *world)) { tasks = append(tasks, task{s, "error type: " + name, nil, f}) }
			sets := []int{}
			for n := 0; n < 1<<len(errorFields); n++ {
				sets = append(sets, n)
			}
			for _, n := range sets {
				n := n
				add(fmt.Sprintf("fields %x", n), func(w *world) {
					bt, b := w.errorBuilder()
					b, want := w.errorSet(bt, b, n)
					f := w.method(bt, "Build")
					t, v := result(f, 0), w.buildWith(bt, b)
					w.errorExpect("build", t, v, want)
					w.errorKind("build", t, v, "Error")
					// Copy:
					bt2, b2 := w.errorBuilder()
					b2 = w.Method(bt2, b2, "Copy", v)
					w.errorExpect("copy", t, w.buildWith(bt2, b2), want)
					// Message:
					text, ok := w.Method(t, v, "Error").(engine.Str)
					if !ok {
						w.Skip("message is unknown")
					}
					for _, f := range errorFields {
						m, ok := want[f.name]
						if !ok || f.mention == "" {
							continue
						}
						x, ok := m.v.(engine.Str)
						if !ok {
							y, is := engine.ScalarText(m.v)
							if f.name == "Timestamp" {
								// The representation of dates is not specified.
								continue
							}
							if !is {
								w.Skip("text of %s", f.name)
							}
							x = y
						}
						if t, _ := text.Const(); f.name == "Reason" && t == "unknown error" {
							// The reason is the empty string.
							continue
						}
						if !strings.Contains(text.ID(), x.ID()) {
							w.Fail("message:"+f.name, "The message of the error is %s and doesn't contain the %s", engine.Show(text), f.mention)
						}
					}
					if n == 0 {
						if x, ok := text.Const(); ok && x == "" {
							w.Fail("message", "The message of an error without fields is empty")
						}
					}
					// Writer:
					toks := w.marshal("write", w.errorPkg(), "MarshalError", v)
					l, ok := members(toks)
					if _, well := canonJSON(toks); !ok || !well {
						w.Fail("write", "MarshalError writes %s", showTokens(toks))
						return
					}
					got := map[string]string{}
					for _, m := range l {
						k, _ := m[0].V.(engine.Str).Const()
						got[k] = showTokens(m[1:])
					}
					expected := map[string]string{"kind": `"Error"`}
					for _, f := range errorFields {
						if m, ok := want[f.name]; ok {
							expected[f.json] = m.json
							if f.name == "Timestamp" {
								expected[f.json] = got[f.json]
								if got[f.json] == "" {
									expected[f.json] = "the date"
								}
							}
						}
					}
					for k, v := range expected {
						if got[k] != v {
							w.Fail("write:"+k, "MarshalError writes %s in field '%s', but it should be %s", got[k], k, v)
						}
					}
					for k, v := range got {
						if _, ok := expected[k]; !ok {
							w.Fail("write:"+k, "MarshalError writes %s in field '%s', which isn't present", v, k)
						}
					}
					// Reader:
					for i, doc := range [][]engine.JTok{toks, nil} {
						if doc == nil {
							doc, _ = disturb(toks, n)
						}
						src := sources[(n+i)%len(sources)]
						if x, ok := w.unmarshal("read", w.errorPkg(), "UnmarshalError", src, doc); ok {
							w.errorExpect("read", t, x, want)
						}
						status := engine.Sym{Term: "given", T: types.Typ[types.Int]}
						r, ok := w.Call(w.errorPkg(), "UnmarshalErrorStatus", engine.Iface{T: types.Typ[types.String], V: engine.JSONOf(doc).Text()}, status).(engine.Tuple)
						if !ok || len(r) != 2 {
							w.Skip("UnmarshalErrorStatus doesn't return two values")
						}
						if !isNil(r[1]) {
							w.Fail("status:error", "UnmarshalErrorStatus fails with %s", engine.Show(r[1]))
							continue
						}
						with := map[string]made{}
						for k, v := range want {
							with[k] = v
						}
						with["Status"] = made{status, engine.Show(status), ""}
						w.errorExpect("status", t, r[0], with)
					}
				})
			}
			add("nil", func(w *world) {
				t := types.NewPointer(w.typ(w.errorPkg(), "Error"))
				w.errorExpect("nil", t, engine.Nil{}, nil)
				w.errorKind("nil", t, engine.Nil{}, "ErrorNil")
				bt, b := w.errorBuilder()
				b, want := w.errorSet(bt, b, 1<<len(errorFields)-1)
				b = w.Method(bt, b, "Copy", engine.Nil{})
				w.errorExpect("nil:copy", t, w.buildWith(bt, b), want)
			})
			add("later changes of the builder", func(w *world) {
				bt, b := w.errorBuilder()
				b, want := w.errorSet(bt, b, 1<<len(errorFields)-1)
				t := types.NewPointer(w.typ(w.errorPkg(), "Error"))
				v := w.buildWith(bt, b)
				b, other := w.errorSet(bt, b, 1<<len(errorFields)-1)
				w.errorExpect("again", t, v, want)
				w.errorExpect("again", t, w.buildWith(bt, b), other)
				b, _ = w.errorSet(bt, b, 1<<len(errorFields)-1)
				b = w.Method(bt, b, "Copy", v)
				w.errorExpect("again:copy", t, w.buildWith(bt, b), want)
			})
			add("timestamp without value", func(w *world) {
				bt, b := w.errorBuilder()
				b = w.Method(bt, b, "Timestamp", engine.Nil{})
				t := types.NewPointer(w.typ(w.errorPkg(), "Error"))
				v := w.buildWith(bt, b)
				w.Method(t, v, "Error")
				toks := w.marshal("timestamp", w.errorPkg(), "MarshalError", v)
				if x, ok := w.unmarshal("timestamp", w.errorPkg(), "UnmarshalError", "string", toks); ok {
					if !isNil(w.Method(t, x, "Timestamp")) {
						w.Fail("timestamp", "A timestamp without value has a value when it is read")
					}
				}
			})
			for _, bad := range [][]engine.JTok{
				nil,
				{{K: "{"}, {K: "key", V: engine.C("id")}},
				{{K: "["}, {K: "]"}},
				{{K: "{"}, {K: "key", V: engine.C("code")}, {K: "int", V: int64(1)}, {K: "}"}},
				{{K: "{"}, {K: "key", V: engine.C("timestamp")}, {K: "str", V: engine.C("yesterday")}, {K: "}"}},
			} {
				bad := bad
				add("incorrect document "+showTokens(bad), func(w *world) {
					for _, fn := range []string{"UnmarshalError", "UnmarshalErrorStatus"} {
						args := []value{engine.Iface{T: types.Typ[types.String], V: engine.JSONOf(bad).Text()}}
						if fn == "UnmarshalErrorStatus" {
							args = append(args, int64(404))
						}
						r, ok := w.Call(w.errorPkg(), fn, args...).(engine.Tuple)
						if !ok || len(r) != 2 {
							w.Skip("%s doesn't return two values", fn)
						}
						if isNil(r[1]) {
							w.Fail("incorrect:"+fn, "%s doesn't return an error for document '%s'", fn, showTokens(bad))
						}
					}
				})
			}
		}
		c.scenarios(tasks)
	})
}

// errorConstant calculates the name of the constant of an error.
func errorConstant(e *spec.Error) string {
	n := spec.Name{Words: append(append([]string(nil), e.Name.Words...), "error")}
	return n.Camel()
}
