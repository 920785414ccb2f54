package checks

import (
	"fmt"
	"go/types"
	"strings"

	"verif/tool/engine"
	"verif/tool/spec"
)

// task is an scenario pending of analysis.
type task struct {
	s     *shape
	name  string
	setup func(it *interp)
	f     func(w *world)
}

// scenarios analyses all the scenarios, in parallel.
func (c *Ctx) scenarios(l []task) {
	c.Parallel(len(l), func(i int) { c.scenario(l[i].s, l[i].name, l[i].setup, l[i].f) })
}

// small tells if a shape has few attributes in each type.
func heavy(s *shape) bool { return s.name == "sizes" }

// typeTasks calls the function for each structured type of each shape.
func (c *Ctx) typeTasks(f func(s *shape, pkg, name string, t *spec.Type, add func(name string, f func(w *world)))) {
	var tasks []task
	for _, s := range c.selected() {
		s := s
		s.versions(func(v *spec.Version) {
			// Versions also contain the types imported from other services:
			all, _ := s.imported(v)
			for _, t := range all.Types {
				if !t.Struct() {
					continue
				}
				pkg, name := versionPath(s, v), goName(&t.Base)
				f(s, pkg, name, t, func(label string, g func(w *world)) {
					tasks = append(tasks, task{s: s, name: pkg + "." + name + ": " + label, f: g})
				})
			}
		})
	}
	c.scenarios(tasks)
}

// expect compares the observation of an object with what is expected.
func (w *world) expect(key string, gt types.Type, v value, want, what string) {
	got := "nil"
	if _, ok := v.(engine.Nil); !ok {
		got = w.observeObject(gt, v)
	}
	if got != want {
		w.Fail(key, "%s contains\n  %s\nbut should contain\n  %s", what, got, want)
	}
}

func (w *world) expectEmpty(key string, bt types.Type, b value, gt types.Type, v value, want bool) {
	if got := w.d.Bool(w.Method(gt, v, "Empty")); got != want {
		w.Fail(key+":empty", "Empty of the object returns %v but should return %v", got, want)
	}
	if bt != nil {
		if got := w.d.Bool(w.Method(bt, b, "Empty")); got != want {
			w.Fail(key+":empty", "Empty of the builder returns %v but should return %v", got, want)
		}
	}
}

// kindOfAttr describes the kind of an attribute, so that equal violations are reported once.
func kindOfAttr(t *spec.Type, attr string) string {
	for _, a := range t.Attrs {
		if a.Name.String() == attr {
			k := kindOfType(a.Type)
			if a.Link {
				k = "link " + k
			}
			return k
		}
	}
	return attr
}

func kindOfType(t *spec.Type) string {
	switch t.Kind {
	case "list":
		return "list of " + kindOfType(t.Element)
	case "map":
		return "map of " + kindOfType(t.Element)
	}
	return t.Kind
}

func init() {
	register("P12", func(c *Ctx) {
		c.Rule("the generated builders and accessors (residual code of each model shape) are interpreted with unknown values for every attribute alone, in pairs, all together and all but one, with lists and maps of 0, 1 and 2 elements, and what the accessors return is compared with what was given to the setters")
		c.typeTasks(func(s *shape, pkg, name string, t *spec.Type, add func(string, func(w *world))) {
			attrs := allAttrs(t)
			// build sets some attributes and checks the resulting object:
			check := func(w *world, b *builder, key string) (types.Type, value) {
				gt, v := b.Build()
				w.expect(key, gt, v, b.tree(), "Object built")
				empty := true
				for a := range b.trees {
					empty = empty && a == "#link"
				}
				w.expectEmpty(key, b.gt, b.v, gt, v, empty)
				return gt, v
			}
			copied := func(w *world, gt types.Type, v value, b *builder, key string) {
				n := w.builder(pkg, name, t)
				n.v = w.Method(n.gt, n.v, "Copy", v)
				_, x := n.Build()
				w.expect(key+":copy", gt, x, b.tree(), "Object built from a copy")
				// The original isn't changed:
				w.expect(key+":copied", gt, v, b.tree(), "Object already copied")
			}
			add("empty", func(w *world) {
				b := w.builder(pkg, name, t)
				gt, v := check(w, b, "empty")
				copied(w, gt, v, b, "empty")
			})
			add("nil", func(w *world) {
				gt := types.NewPointer(w.typ(pkg, name))
				if got := w.observeObject(gt, engine.Nil{}); got != name+"{}" {
					w.Fail("nil", "Nil object contains %s", got)
				}
				w.expectEmpty("nil", nil, nil, gt, engine.Nil{}, true)
				b := w.builder(pkg, name, t)
				if len(attrs) > 0 {
					b.set(attrs[len(attrs)-1], 1, 1, "x")
				}
				b.v = w.Method(b.gt, b.v, "Copy", engine.Nil{})
				check(w, b, "nil:copy")
			})
			for _, a := range attrs {
				a := a
				kind := kindOfAttr(t, a)
				sizes := []int{0}
				if strings.Contains(kind, "list") || strings.Contains(kind, "map") {
					sizes = []int{0, 1, 2}
				}
				if c.Thorough && len(sizes) > 1 {
					sizes = append(sizes, 3)
				}
				for _, n := range sizes {
					n := n
					add(fmt.Sprintf("only %s, size %d", a, n), func(w *world) {
						b := w.builder(pkg, name, t)
						b.set(a, 2, n, "x")
						gt, v := check(w, b, "one:"+kind)
						copied(w, gt, v, b, "one:"+kind)
					})
				}
				if kind == "struct" || kind == "class" || kind == "link class" || kind == "link struct" || strings.HasPrefix(kind, "map") {
					add("set and clear "+a, func(w *world) {
						b := w.builder(pkg, name, t)
						b.set(a, 1, 1, "x")
						b.v = w.Method(b.gt, b.v, b.setter(a), engine.Nil{})
						delete(b.trees, a)
						check(w, b, "clear:"+kind)
					})
				}
				if a == "#link" {
					add("set and clear link", func(w *world) {
						b := w.builder(pkg, name, t)
						b.set(a, 1, 1, "x")
						b.v = w.Method(b.gt, b.v, "Link", false)
						delete(b.trees, a)
						check(w, b, "clear:"+kind)
					})
					add("link of full builder", func(w *world) {
						b := w.builder(pkg, name, t)
						for _, x := range attrs {
							b.set(x, 1, 1, "x")
						}
						b.v = w.Method(b.gt, b.v, "Link", false)
						delete(b.trees, a)
						check(w, b, "unlink:"+kind)
						b.v = w.Method(b.gt, b.v, "Link", false)
						check(w, b, "unlink:"+kind)
						b.set(a, 1, 1, "x")
						check(w, b, "relink:"+kind)
					})
				} else {
					add("set twice "+a, func(w *world) {
						b := w.builder(pkg, name, t)
						b.set(a, 1, 2, "x")
						b.set(a, 1, 1, "y")
						check(w, b, "twice:"+kind)
					})
				}
			}
			order := func(n int) []int {
				var r []int
				for i := 0; i < n; i++ {
					r = append(r, i)
				}
				return r
			}
			all := func(w *world, label string, except int, reverse bool) *builder {
				b := w.builder(pkg, name, t)
				for _, i := range order(len(attrs)) {
					if reverse {
						i = len(attrs) - 1 - i
					}
					if i != except {
						b.set(attrs[i], 1, 2, label)
					}
				}
				return b
			}
			for _, reverse := range []bool{false, true} {
				reverse := reverse
				add(fmt.Sprint("all, reverse ", reverse), func(w *world) {
					b := all(w, "x", -1, reverse)
					gt, v := check(w, b, "all")
					copied(w, gt, v, b, "all")
				})
			}
			// Copies into builders that already have attributes:
			for i, a := range attrs {
				i, a := i, a
				if heavy(s) && !c.Thorough && i > 3 && i < len(attrs)-1 {
					continue
				}
				kind := kindOfAttr(t, a)
				if a != "#link" {
					add("copy of object with only "+a+" into full builder", func(w *world) {
						b := w.builder(pkg, name, t)
						b.set(a, 1, 1, "x")
						gt, v := b.Build()
						n := all(w, "y", -1, false)
						n.v = w.Method(n.gt, n.v, "Copy", v)
						_, x := n.Build()
						w.expect("dirty:"+kind, gt, x, b.tree(), "Object built from a builder that discards previous values")
					})
				}
				add("all but "+a, func(w *world) {
					b := all(w, "x", i, false)
					gt, v := check(w, b, "allbut:"+kind)
					copied(w, gt, v, b, "allbut:"+kind)
				})
			}
			// Pairs:
			if len(attrs) <= 16 || c.Thorough && !heavy(s) {
				for i := range attrs {
					for j := range attrs {
						if i == j {
							continue
						}
						x, y := attrs[i], attrs[j]
						add("pair "+x+", "+y, func(w *world) {
							b := w.builder(pkg, name, t)
							b.set(x, 1, 1, "x")
							b.set(y, 1, 1, "y")
							check(w, b, "pair:"+kindOfAttr(t, x)+":"+kindOfAttr(t, y))
						})
					}
				}
			}
			c.listTasks(pkg, name, add)
		})
	})
}

// listTasks adds the scenarios of lists of objects.
func (c *Ctx) listTasks(pkg, name string, add func(string, func(w *world))) {
	for n := 0; n <= 3; n++ {
		n := n
		add(fmt.Sprintf("list of %d", n), func(w *world) {
			f := w.pkg(pkg).Func("New" + name + "List")
			if f == nil {
				// There is no list of this type.
				return
			}
			bt := result(f, 0)
			items := w.method(bt, "Items")
			et := items.Signature.Params().At(0).Type().(*types.Slice).Elem()
			var l []made
			for i := 0; i < n; i++ {
				l = append(l, w.object(et, "x", 1, 1))
			}
			want := listMade(l).tree
			b := w.d.CallFn(f)
			b = w.d.CallFn(items, b, w.slice(l))
			if got := w.d.Bool(w.Method(bt, b, "Empty")); got != (n == 0) {
				w.Fail("list:builder:empty", "Empty of a builder of a list with %d items returns %v", n, got)
			}
			lt := result(w.method(bt, "Build"), 0)
			v := w.buildWith(bt, b)
			w.checkList("list", lt, v, n, want)
			cb := w.Method(bt, w.d.CallFn(f), "Copy", v)
			w.checkList("list:copy", lt, w.buildWith(bt, cb), n, want)
			// Copies discard the previous content:
			db := w.d.CallFn(items, w.d.CallFn(f), w.slice([]made{w.object(et, "y", 1, 1)}))
			db = w.Method(bt, db, "Copy", v)
			w.checkList("list:dirty", lt, w.buildWith(bt, db), n, want)
		})
	}
	add("accessors of list", func(w *world) {
		if w.pkg(pkg).Func("New"+name+"List") == nil {
			return
		}
		lt := types.NewPointer(w.typ(pkg, name+"List"))
		show := func(v value) string {
			if w.it.FindMethod(lt, "HREF") == nil {
				return ""
			}
			l := w.Method(lt, v, "GetHREF").(engine.Tuple)
			return fmt.Sprintf("%s %s %s %s", engine.Show(w.Method(lt, v, "HREF")), engine.Show(l[0]), engine.Show(l[1]), engine.Show(w.Method(lt, v, "Link")))
		}
		v := value(w.d.New(pkg, name+"List"))
		check := func(what, want string) {
			if got := show(v); got != want && got != "" {
				w.Fail("list:"+what, "Accessors of a list %s return %s but should return %s", what, got, want)
			}
		}
		check("without link", `"" "" false false`)
		w.Method(lt, v, "SetHREF", engine.C("/my/list"))
		href := `"/my/list"`
		check("with link", href+" "+href+" true false")
		w.Method(lt, v, "SetLink", true)
		check("that is a link", href+" "+href+" true true")
		w.Method(lt, v, "SetLink", false)
		check("that isn't a link", href+" "+href+" true false")
		// Copies of lists without items discard the previous content:
		for _, x := range []value{v, engine.Nil{}} {
			f := w.pkg(pkg).Func("New" + name + "List")
			bt := result(f, 0)
			items := w.method(bt, "Items")
			et := items.Signature.Params().At(0).Type().(*types.Slice).Elem()
			b := w.d.CallFn(items, w.d.CallFn(f), w.slice([]made{w.object(et, "y", 1, 1)}))
			b = w.Method(bt, b, "Copy", x)
			w.checkList("list:nothing", result(w.method(bt, "Build"), 0), w.buildWith(bt, b), 0, "[]")
		}
	})
	add("nil list", func(w *world) {
		if w.pkg(pkg).Func("New"+name+"List") == nil {
			return
		}
		lt := types.NewPointer(w.typ(pkg, name+"List"))
		w.checkList("list:nil", lt, engine.Nil{}, 0, "[]")
	})
}

// checkList checks the accessors of a list.
func (w *world) checkList(key string, lt types.Type, v value, n int, want string) {
	show := func(gt types.Type, x value) string {
		if _, ok := x.(engine.Nil); ok {
			return "nil"
		}
		return w.observeObject(gt, x)
	}
	slice := w.method(lt, "Slice")
	et := result(slice, 0).(*types.Slice).Elem()
	collect := func(l []value) string {
		var r []string
		for _, e := range l {
			r = append(r, show(et, e))
		}
		return "[" + strings.Join(r, ",") + "]"
	}
	if got := engine.Show(w.Method(lt, v, "Len")); got != fmt.Sprint(n) {
		w.Fail(key+":len", "Len of a list with %d items returns %s", n, got)
	}
	if got := w.d.Bool(w.Method(lt, v, "Empty")); got != (n == 0) {
		w.Fail(key+":empty", "Empty of a list with %d items returns %v", n, got)
	}
	if got := collect(w.it.Elems(w.d.S, w.d.CallFn(slice, v))); got != want {
		w.Fail(key+":slice", "Slice returns\n  %s\nbut should return\n  %s", got, want)
	}
	var l []value
	for i := 0; i < n; i++ {
		l = append(l, w.Method(lt, v, "Get", int64(i)))
	}
	if got := collect(l); got != want {
		w.Fail(key+":get", "Get returns\n  %s\nbut should return\n  %s", got, want)
	}
	for _, i := range []int{-1, n, n + 1} {
		if got := show(et, w.Method(lt, v, "Get", int64(i))); got != "nil" {
			w.Fail(key+":outside", "Get with index %d of a list with %d items returns %s", i, n, got)
		}
	}
	for _, stop := range []int{-1, 0, 1} {
		for _, m := range []string{"Each", "Range"} {
			var seen []value
			var indexes []string
			w.it.Models["verif.callback"] = engine.Direct(func(d *engine.D, args []value) value {
				args = args[1:]
				if m == "Range" {
					indexes = append(indexes, engine.Show(args[0]))
					args = args[1:]
				}
				seen = append(seen, args[0])
				return len(seen)-1 != stop
			})
			w.Method(lt, v, m, &engine.Func{Name: "verif.callback"})
			count := n
			if stop >= 0 && stop+1 < n {
				count = stop + 1
			}
			wanted := l[:count]
			if collect(seen) != collect(wanted) {
				w.Fail(key+":"+m, "%s of a list with %d items, stopped after %d, visits\n  %s\nbut should visit\n  %s", m, n, count, collect(seen), collect(wanted))
			}
			for i, x := range indexes {
				if x != fmt.Sprint(i) {
					w.Fail(key+":"+m+":index", "%s visits the item %d with index %s", m, i, x)
				}
			}
		}
	}
}
