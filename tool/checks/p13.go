package checks

import (
	"fmt"
	"strings"

	"verif/tool/engine"
	"verif/tool/spec"
)

func init() {
	register("P13", func(c *Ctx) {
		c.Rule("in the generated code no slice, map or structure reachable from a built object is reachable from its builder, from the values given to the setters, from a second object built from the same builder, or from a builder that copied it; and the slice returned as copy of a list isn't the storage of the list")
		c.typeTasks(func(s *shape, pkg, name string, t *spec.Type, add func(string, func(w *world))) {
			attrs := allAttrs(t)
			disjoint := func(w *world, key, what string, a, b []value) {
				if l := w.d.S.Shared(a, b); len(l) > 0 {
					w.Fail(key, "%s share %s (%s)", what, strings.Join(l, " and "), w.c.generatedIn(w.s, pkg, t))
				}
			}
			check := func(w *world, b *builder, key string) {
				args := b.args
				_, v := b.Build()
				disjoint(w, key+":build", "The object built and the builder", []value{v}, []value{b.v})
				disjoint(w, key+":args", "The object built and the values given to the builder", []value{v}, args)
				_, v2 := b.Build()
				disjoint(w, key+":build", "Two objects built with the same builder", []value{v}, []value{v2})
				n := w.builder(pkg, name, t)
				n.v = w.Method(n.gt, n.v, "Copy", v)
				disjoint(w, key+":copy", "An object and a builder that copied it", []value{v}, []value{n.v})
				_, v3 := n.Build()
				disjoint(w, key+":copied", "An object and another built from its copy", []value{v}, []value{v3})
				disjoint(w, key+":copied", "An object built from a copy and the builder", []value{n.v}, []value{v3})
				// Reuse of a builder that already has the same attributes:
				b.v = w.Method(b.gt, b.v, "Copy", v)
				disjoint(w, key+":recopy", "An object and a builder that copied it", []value{v, v2, v3}, []value{b.v})
				for _, a := range attrs {
					if _, ok := b.trees[a]; ok {
						b.set(a, 2, 1, "y")
					}
				}
				_, v4 := b.Build()
				disjoint(w, key+":reuse", "An object and a builder that was used again", []value{v, v2, v3}, []value{b.v, v4})
			}
			for i, a := range attrs {
				a := a
				if heavy(s) && !c.Thorough && i > 6 && i < len(attrs)-7 {
					continue
				}
				for _, n := range []int{1, 2} {
					n := n
					add(fmt.Sprintf("only %s, size %d", a, n), func(w *world) {
						b := w.builder(pkg, name, t)
						b.set(a, 2, n, "x")
						check(w, b, kindOfAttr(t, a))
					})
				}
			}
			add("all", func(w *world) {
				b := w.builder(pkg, name, t)
				for _, a := range attrs {
					b.set(a, 1, 2, "x")
				}
				check(w, b, "all")
			})
			for _, n := range []int{1, 2, 3} {
				n := n
				add(fmt.Sprintf("list of %d", n), func(w *world) {
					f := w.pkg(pkg).Func("New" + name + "List")
					if f == nil {
						return
					}
					bt := result(f, 0)
					items := w.method(bt, "Items")
					et := elementOf(items.Signature.Params().At(0).Type())
					var l []made
					for i := 0; i < n; i++ {
						l = append(l, w.object(et, "x", 1, 1))
					}
					arg := w.slice(l)
					b := w.d.CallFn(items, w.d.CallFn(f), arg)
					lt := result(w.method(bt, "Build"), 0)
					v := w.buildWith(bt, b)
					disjoint(w, "list:build", "The list built and the builder", []value{v}, []value{b, arg})
					disjoint(w, "list:build", "Two lists built with the same builder", []value{v}, []value{w.buildWith(bt, b)})
					nb := w.Method(bt, w.d.CallFn(f), "Copy", v)
					disjoint(w, "list:copy", "A list and a builder that copied it", []value{v}, []value{nb})
					disjoint(w, "list:copied", "A list and another built from its copy", []value{v}, []value{w.buildWith(bt, nb)})
					// The slice should be new, but the elements are the same:
					x, ok := w.Method(lt, v, "Slice").(engine.Slice)
					if !ok {
						w.Skip("Slice doesn't return an slice")
					}
					if w.d.S.Reach(v)[x.Obj] {
						w.Fail("list:slice", "The slice returned by Slice is the storage of the list")
					}
				})
			}
		})
	})
}
