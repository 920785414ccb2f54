package checks

import (
	"fmt"
	"go/types"
	"strings"

	"verif/tool/engine"
	"verif/tool/spec"
)

// wellFormed checks that what has been written is exactly one document.
func (w *world) wellFormed(key, what string, text engine.Str) {
	why, ok := engine.Documents(text)
	if !ok {
		w.Skip("%s writes something that isn't known: %s", what, engine.Show(text))
	}
	if why != "" {
		w.Fail(key, "%s writes a document that isn't well formed: %s", what, why)
	}
}

// presence replaces the presence bits of an object by unknown bits, so that the object represents
// those with any subset of its attributes. It returns false if presence isn't represented with bits.
func (w *world) presence(gt types.Type, empty, full value) bool {
	e, ok1 := w.structOf(empty)
	f, ok2 := w.structOf(full)
	st, ok3 := gt.(*types.Pointer).Elem().Underlying().(*types.Struct)
	if !ok1 || !ok2 || !ok3 {
		return false
	}
	n := append([]value(nil), f.F...)
	found := false
	for i := range n {
		b, ok := st.Field(i).Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		x, ok1 := e.F[i].(int64)
		y, ok2 := n[i].(int64)
		if ok1 && ok2 && x == 0 && y != 0 {
			n[i] = engine.Bits{Term: fmt.Sprintf("present%d", i), Zeros: ^uint64(y), T: st.Field(i).Type()}
			found = true
		}
	}
	if found {
		w.d.S.Set(full.(engine.Ptr).Obj, &engine.Struct{F: n})
	}
	return found
}

func (w *world) structOf(v value) (*engine.Struct, bool) {
	p, ok := v.(engine.Ptr)
	if !ok || len(p.Path) > 0 {
		return nil, false
	}
	s, ok := w.d.S.Get(p.Obj).(*engine.Struct)
	return s, ok
}

// optional replaces the references of a request that have been set by references that may be nil, so
// that the request represents those with any combination of parameters. Those given in keep aren't changed.
func (w *world) optional(before, after value) bool {
	b, ok1 := w.structOf(before)
	a, ok2 := w.structOf(after)
	if !ok1 || !ok2 || len(a.F) != len(b.F) {
		return false
	}
	n := append([]value(nil), a.F...)
	for i := range n {
		if isNil(b.F[i]) && !isNil(n[i]) {
			n[i] = engine.Maybe{Term: fmt.Sprintf("given%d", i), V: n[i]}
		}
	}
	w.d.S.Set(after.(engine.Ptr).Obj, &engine.Struct{F: n})
	w.it.HasMaybe = true
	return true
}

func init() {
	register("P15", func(c *Ctx) {
		c.Rule("the generated JSON writers are interpreted with a stream whose typestate is the grammar of JSON, for objects whose presence bits are unknown, so for all the subsets of attributes, for lists and maps of 0 to 3 elements and for requests with unknown combinations of parameters; what is written should be exactly one complete document")
		var tasks []task
		grammars := func(it *interp) { engine.Grammars(it) }
		for _, s := range c.residual() {
			s := s
			s.structs(func(v *spec.Version, t *spec.Type) {
				if t.Param("ref", "path") != "" {
					return
				}
				pkg, name := versionPath(s, v), goName(&t.Base)
				add := func(label string, f func(w *world)) {
					tasks = append(tasks, task{s, pkg + "." + name + ": " + label, grammars, f})
				}
				write := func(w *world, key, fn string, v value) {
					b := w.buffer()
					if err := w.Call(pkg, fn, v, b); !isNil(err) {
						w.Fail(key+":error", "%s fails with %s", fn, engine.Show(err))
						return
					}
					w.wellFormed(key, fn, w.written(b))
				}
				attrs := allAttrs(t)
				add("writer that fails", func(w *world) {
					b := w.builder(pkg, name, t)
					for _, a := range attrs {
						b.set(a, 1, 1, "x")
					}
					_, v := b.Build()
					if isNil(w.Call(pkg, "Marshal"+name, v, w.broken())) {
						w.Fail("object:writer", "Marshal%s doesn't fail when the writer fails", name)
					}
				})
				for _, n := range []int{0, 1, 2, 3} {
					n := n
					if n == 3 && !c.Thorough {
						continue
					}
					add(fmt.Sprintf("all subsets, size %d", n), func(w *world) {
						_, empty := w.builder(pkg, name, t).Build()
						b := w.builder(pkg, name, t)
						for _, a := range attrs {
							b.set(a, 1, n, "x")
						}
						gt, full := b.Build()
						if !w.presence(gt, empty, full) && len(attrs) > 0 {
							w.Skip("presence of attributes isn't represented by bits")
						}
						write(w, "object", "Marshal"+name, full)
					})
				}
				// The same without any assumption about how presence is represented:
				limit := len(attrs)
				if limit > 12 && !c.Thorough {
					limit = 12
				}
				for i, a := range attrs[:limit] {
					i, a := i, a
					sizes := []int{1}
					if k := kindOfAttr(t, a); strings.Contains(k, "list") || strings.Contains(k, "map") {
						sizes = []int{0, 1, 2, 3}
					}
					for _, n := range sizes {
						n := n
						add(fmt.Sprintf("only %s, size %d", a, n), func(w *world) {
							b := w.builder(pkg, name, t)
							b.set(a, 2, n, "x")
							_, v := b.Build()
							write(w, "object", "Marshal"+name, v)
						})
					}
					for _, o := range attrs[i+1 : limit] {
						o := o
						add(fmt.Sprintf("only %s and %s", a, o), func(w *world) {
							b := w.builder(pkg, name, t)
							b.set(a, 1, 1, "x")
							b.set(o, 1, 1, "x")
							_, v := b.Build()
							write(w, "object", "Marshal"+name, v)
						})
					}
				}
				// Lists:
				seen := map[string]bool{}
				for _, a := range t.Attrs {
					if a.Type.Kind != "list" || a.Link || seen[goName(&a.Type.Element.Base)] {
						continue
					}
					seen[goName(&a.Type.Element.Base)] = true
					l := a.Type
					ln := goName(&l.Element.Base) + "List"
					add("list "+ln+" to a writer that fails", func(w *world) {
						f := w.pkg(pkg).Func("Marshal" + ln)
						if f == nil {
							return
						}
						m := w.listOf(f.Signature.Params().At(0).Type(), l, "x", 1)
						if isNil(w.Call(pkg, "Marshal"+ln, m.v, w.broken())) {
							w.Fail("list:writer", "Marshal%s doesn't fail when the writer fails", ln)
						}
					})
					for n := 0; n <= 3; n++ {
						n := n
						add(fmt.Sprintf("list %s of %d", ln, n), func(w *world) {
							f := w.pkg(pkg).Func("Marshal" + ln)
							if f == nil {
								return
							}
							m := w.listOf(f.Signature.Params().At(0).Type(), l, "x", n)
							write(w, "list", "Marshal"+ln, m.v)
						})
					}
				}
			})
			// Requests:
			for _, r := range s.resourceRoutes() {
				r := r
				for _, m := range r.r.Methods {
					m := m
					body := false
					for _, p := range inputs(m) {
						body = body || !inQuery(p)
					}
					if !body {
						continue
					}
					for _, n := range []int{1, 2} {
						n := n
						label := fmt.Sprintf("%s/%s%s %s: any combination of parameters, size %d", r.v.Service.Name, r.v.Name, r, m.Name, n)
						tasks = append(tasks, task{s, label, grammars, func(w *world) {
							tr := w.transport(okReply)
							ct, cl, _ := w.navigate(r, tr)
							rt, rq := w.request(ct, cl, m)
							for _, p := range mandatory(m) {
								rq, _ = w.setParam(rt, rq, p, "x", n)
							}
							var before value = rq
							if s, ok := w.structOf(rq); ok {
								before = engine.Ptr{Obj: w.d.S.Alloc(&engine.Struct{F: append([]value(nil), s.F...)})}
							}
							for _, p := range inputs(m) {
								if len(mandatory(m)) == 1 && mandatory(m)[0] == p {
									continue
								}
								rq, _ = w.setParam(rt, rq, p, "x", n)
							}
							if !w.optional(before, rq) {
								w.Skip("requests aren't structures")
							}
							w.send(rt, rq, false)
							x, _, _ := w.d.ExtOf(tr)
							if len(x.D) != 1 {
								w.Fail("request:count", "%d requests have been sent", len(x.D))
								return
							}
							text, ok := x.D[0].(engine.Tuple)[4].(engine.Str)
							if !ok {
								w.Fail("request:body", "The request is sent without body")
								return
							}
							w.wellFormed("request:"+m.Category(), "The request '"+m.Name.String()+"'", text)
						}})
					}
				}
			}
		}
		c.scenarios(tasks)
	})
}
