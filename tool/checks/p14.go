package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"verif/tool/engine"
	"verif/tool/spec"
)

// buffer creates a buffer where the generated code can write, and from which it can read.
func (w *world) buffer() value {
	return engine.Iface{T: types.NewPointer(w.it.LookupType("bytes", "Buffer")), V: w.d.New("bytes", "Buffer")}
}

// broken creates a writer that always fails.
func (w *world) broken() value {
	t := types.NewPointer(w.it.LookupType("strings", "Reader"))
	return engine.Iface{T: t, V: engine.Ptr{Obj: w.d.S.Alloc(&engine.Ext{Kind: "failing"})}}
}

// written returns what has been written to a buffer.
func (w *world) written(b value) engine.Str {
	s, _ := w.d.Peek(b)
	return s
}

func isNil(v value) bool {
	_, ok := v.(engine.Nil)
	return ok
}

// marshal writes a value and returns the resulting tokens.
func (w *world) marshal(key, pkg, fn string, v value) []engine.JTok {
	b := w.buffer()
	if err := w.Call(pkg, fn, v, b); !isNil(err) {
		w.Fail(key+":error", "%s fails with %s", fn, engine.Show(err))
	}
	toks, ok := engine.ParseTokens(w.written(b))
	if !ok {
		w.Skip("%s writes something unknown", fn)
	}
	return toks
}

// sources are the kinds of things that can be used as source of a document.
var sources = []string{"string", "bytes", "reader", "iterator"}

// unmarshal reads a value from the given kind of source.
func (w *world) unmarshal(key, pkg, fn, source string, toks []engine.JTok) (value, bool) {
	text := engine.JSONOf(toks).Text()
	var src value
	str := types.Typ[types.String]
	switch source {
	case "bytes":
		src = engine.Iface{T: types.NewSlice(types.Typ[types.Uint8]), V: w.it.TextBytes(w.d.S, text)}
	case "reader":
		src = w.buffer()
		w.d.WriteText(src, text)
	case "iterator":
		p := w.pkgOf("/helpers")
		f := p.Func("NewIterator")
		if f == nil {
			w.Skip("there is no function to create iterators")
		}
		r, ok := w.d.CallFn(f, engine.Iface{T: str, V: text}).(engine.Tuple)
		if !ok || len(r) != 2 {
			w.Skip("iterators can't be created")
		}
		src = engine.Iface{T: result(f, 0), V: r[0]}
	default:
		src = engine.Iface{T: str, V: text}
	}
	r, ok := w.Call(pkg, fn, src).(engine.Tuple)
	if !ok || len(r) != 2 {
		w.Skip("%s doesn't return two values", fn)
	}
	if !isNil(r[1]) {
		w.Fail(key+":error", "%s fails with %s for\n  %s", fn, engine.Show(r[1]), showTokens(toks))
		return nil, false
	}
	return r[0], true
}

func showTokens(toks []engine.JTok) string {
	var sb strings.Builder
	for _, t := range toks {
		switch t.K {
		case "key":
			sb.WriteString(engine.Show(t.V) + ":")
		case "{", "}", "[", "]", ",", "null":
			sb.WriteString(t.K)
		default:
			sb.WriteString(engine.Show(t.V))
		}
	}
	return sb.String()
}

// members splits the members of an object.
func members(toks []engine.JTok) (r [][]engine.JTok, ok bool) {
	if len(toks) < 2 || toks[0].K != "{" || toks[len(toks)-1].K != "}" {
		return nil, false
	}
	depth := 0
	var cur []engine.JTok
	for _, t := range toks[1 : len(toks)-1] {
		switch t.K {
		case "{", "[":
			depth++
		case "}", "]":
			depth--
		case ",":
			if depth == 0 {
				r = append(r, cur)
				cur = nil
				continue
			}
		}
		cur = append(cur, t)
	}
	if len(cur) > 0 {
		r = append(r, cur)
	}
	return r, true
}

// object puts together the members of an object.
func objectOf(l [][]engine.JTok) (r []engine.JTok) {
	r = append(r, engine.JTok{K: "{"})
	for i, m := range l {
		if i > 0 {
			r = append(r, engine.JTok{K: ","})
		}
		r = append(r, m...)
	}
	return append(r, engine.JTok{K: "}"})
}

// extra returns members with names that aren't known.
func extraMembers(n int) (r [][]engine.JTok) {
	key := func(i int) engine.JTok { return engine.JTok{K: "key", V: engine.C(fmt.Sprintf("unknown%d_field", i))} }
	x := engine.JTok{K: "str", V: engine.U("unknown")}
	comma := engine.JTok{K: ","}
	r = append(r,
		[]engine.JTok{key(0), x},
		[]engine.JTok{key(1), {K: "{"}, {K: "key", V: engine.C("id")}, x, comma, {K: "key", V: engine.C("items")}, {K: "["}, {K: "{"}, {K: "}"}, {K: "]"}, {K: "}"}},
		[]engine.JTok{key(2), {K: "["}, {K: "int", V: int64(1)}, comma, {K: "null"}, comma, {K: "["}, {K: "]"}, {K: "]"}},
		[]engine.JTok{key(3), {K: "null"}},
		[]engine.JTok{key(4), {K: "bool", V: true}},
		[]engine.JTok{key(5), {K: "float", V: 1.5}},
	)
	return r[n%6 : n%6+1]
}

// disturb changes the order of the members of an object and adds unknown members.
func disturb(toks []engine.JTok, n int) ([]engine.JTok, bool) {
	m, ok := members(toks)
	if !ok {
		return nil, false
	}
	var l [][]engine.JTok
	l = append(l, extraMembers(n)...)
	for i := len(m) - 1; i >= 0; i-- {
		l = append(l, m[i])
		l = append(l, extraMembers(n+i+1)...)
	}
	// Give different names to the extra members:
	for i := range l {
		if k, ok := l[i][0].V.(engine.Str).Const(); ok && strings.HasPrefix(k, "unknown") {
			l[i] = append([]engine.JTok{{K: "key", V: engine.C(fmt.Sprintf("%s_%d", k, i))}}, l[i][1:]...)
		}
	}
	return objectOf(l), true
}

func init() {
	register("P14", func(c *Ctx) {
		c.Rule("the generated JSON writers are interpreted for objects with every attribute alone and all together, with unknown values; the tokens written are compared with the JSON names and representations of the model, and then given to the generated readers, in the same and in the opposite order and with unknown fields; the accessors of the result should return what was given to the setters of the builder")
		c.jsonSupport(false)
		c.metadataJSON()
	})
}

// jsonSupport checks the JSON readers and writers. If brief is true only the names and representations are
// checked.
func (c *Ctx) jsonSupport(brief bool) {
	c.typeTasks(func(s *shape, pkg, name string, t *spec.Type, add func(string, func(w *world))) {
		attrs := allAttrs(t)
		check := func(w *world, b *builder, key string, n int) {
			gt, v := b.Build()
			toks := w.marshal(key, pkg, "Marshal"+name, v)
			got, ok := canonJSON(toks)
			if want := canonText(b.json()); !ok || got != want {
				w.Fail(key+":write", "Marshal%s writes\n  %s\nbut should write\n  %s", name, showTokens(toks), want)
				return
			}
			read := func(source, key string, toks []engine.JTok) {
				if x, ok := w.unmarshal(key, pkg, "Unmarshal"+name, source, toks); ok {
					w.expect(key, gt, x, b.tree(), "Object read from\n  "+showTokens(toks)+"\n")
				}
			}
			read("string", key+":read", toks)
			// The object that has been read is written again in the same way:
			if x, ok := w.unmarshal(key, pkg, "Unmarshal"+name, "string", toks); ok {
				again := w.marshal(key, pkg, "Marshal"+name, x)
				if a, b := showTokens(again), showTokens(toks); a != b {
					w.Fail(key+":again", "The object read from\n  %s\nis written as\n  %s", b, a)
				}
			}
			read(sources[n%len(sources)], key+":read", toks)
			if d, ok := disturb(toks, n); ok {
				read("string", key+":disturbed", d)
			}
		}
		add("empty", func(w *world) { check(w, w.builder(pkg, name, t), "empty", 0) })
		count := 0
		for _, a := range attrs {
			a := a
			kind := kindOfAttr(t, a)
			sizes := []int{1}
			if strings.Contains(kind, "list") || strings.Contains(kind, "map") {
				sizes = []int{0, 1, 2}
			}
			for _, n := range sizes {
				n := n
				count++
				k := count
				add(fmt.Sprintf("only %s, size %d", a, n), func(w *world) {
					b := w.builder(pkg, name, t)
					b.set(a, 2, n, "x")
					check(w, b, "one:"+kind, k)
				})
			}
		}
		for n := range sources {
			n := n
			add(fmt.Sprintf("all, source %s", sources[n]), func(w *world) {
				b := w.builder(pkg, name, t)
				for _, a := range attrs {
					b.set(a, 1, n%3, "x")
				}
				check(w, b, "all", n)
			})
		}
		if brief {
			return
		}
		for i, a := range attrs {
			i, a := i, a
			if !c.Thorough && len(attrs) > 16 {
				continue
			}
			add("all but "+a, func(w *world) {
				b := w.builder(pkg, name, t)
				for _, x := range attrs {
					if x != a {
						b.set(x, 1, 1, "x")
					}
				}
				check(w, b, "allbut:"+kindOfAttr(t, a), i)
			})
		}
		// Kinds that aren't those of links:
		if t.Kind == "class" {
			for _, other := range []string{name + "Nil", "Other", "", "Link", name + "ListLink"} {
				other := other
				add("kind '"+other+"'", func(w *world) {
					b := w.builder(pkg, name, t)
					b.set("#id", 1, 1, "x")
					gt, v := b.Build()
					m, ok := members(w.marshal("kind", pkg, "Marshal"+name, v))
					if !ok {
						return
					}
					for i := range m {
						if k, _ := m[i][0].V.(engine.Str).Const(); k == "kind" {
							m[i] = []engine.JTok{m[i][0], {K: "str", V: engine.C(other)}}
						}
					}
					if x, ok := w.unmarshal("kind", pkg, "Unmarshal"+name, "string", objectOf(m)); ok {
						w.expect("kind", gt, x, b.tree(), "Object read with kind '"+other+"'")
					}
				})
			}
		}
		// Incomplete documents:
		fails := func(w *world, key string, d []jtok) {
			r, ok := w.Call(pkg, "Unmarshal"+name, engine.Iface{T: types.Typ[types.String], V: engine.JSONOf(d).Text()}).(engine.Tuple)
			if ok && len(r) == 2 && isNil(r[1]) {
				w.Fail(key, "Unmarshal%s doesn't fail with\n  %s", name, showTokens(d))
			}
		}
		add("incomplete documents", func(w *world) {
			b := w.builder(pkg, name, t)
			for _, a := range attrs {
				b.set(a, 1, 1, "x")
			}
			_, v := b.Build()
			toks := w.marshal("incomplete", pkg, "Marshal"+name, v)
			step := 1 + len(toks)/60
			if c.Thorough {
				step = 1
			}
			for n := 1; n < len(toks); n += step {
				fails(w, "incomplete", toks[:n])
			}
			fails(w, "incomplete", toks[:len(toks)-1])
		})
		// Values of other types:
		for _, a := range t.Attrs {
			a := a
			l := leaf(a.Type)
			if l.Name.Snake() == "interface" {
				continue
			}
			add("value of another type in "+a.Name.String(), func(w *world) {
				x := []jtok{{K: "["}, {K: "]"}}
				if l.Kind == "class" || l.Kind == "struct" {
					x = []jtok{{K: "bool", V: true}}
				}
				fails(w, "other:"+kindOfType(a.Type), objectOf([][]jtok{append([]jtok{jkey(jsonName(&a.Base))}, wrap(a.Type, x...)...)}))
				if a.Type.Kind == "list" || a.Type.Kind == "map" {
					fails(w, "other:"+kindOfType(a.Type), objectOf([][]jtok{{jkey(jsonName(&a.Base)), {K: "bool", V: true}}}))
				}
			})
		}
		// Dates that can't be parsed:
		for _, a := range t.Attrs {
			a := a
			if !strings.HasSuffix(kindOfType(a.Type), "scalar") || leaf(a.Type).Name.Snake() != "date" {
				continue
			}
			add("incorrect date in "+a.Name.String(), func(w *world) {
				for _, text := range []string{"junk", "", "2020-01-01", "2020-13-01T00:00:00Z"} {
					d := objectOf([][]jtok{append([]jtok{jkey(jsonName(&a.Base))}, wrap(a.Type, jtok{K: "str", V: engine.C(text)})...)})
					r, ok := w.Call(pkg, "Unmarshal"+name, engine.Iface{T: types.Typ[types.String], V: engine.JSONOf(d).Text()}).(engine.Tuple)
					if ok && len(r) == 2 && isNil(r[1]) {
						w.Fail("date:"+kindOfType(a.Type), "Unmarshal%s doesn't fail with\n  %s", name, showTokens(d))
					}
				}
			})
		}
		// Lists:
		var lists []*spec.Type
		seen := map[string]bool{}
		for _, a := range t.Attrs {
			if a.Type.Kind == "list" && !seen[goName(&a.Type.Element.Base)] && !a.Link {
				seen[goName(&a.Type.Element.Base)] = true
				lists = append(lists, a.Type)
			}
		}
		sort.Slice(lists, func(i, j int) bool { return goName(&lists[i].Element.Base) < goName(&lists[j].Element.Base) })
		for _, l := range lists {
			l := l
			ln := goName(&l.Element.Base) + "List"
			for n := 0; n <= 2; n++ {
				n := n
				add(fmt.Sprintf("list %s of %d", ln, n), func(w *world) {
					f := w.pkg(pkg).Func("Marshal" + ln)
					if f == nil {
						return
					}
					gt := f.Signature.Params().At(0).Type()
					m := w.make(gt, l, false, "x", 1, 1, false)
					if n != 1 {
						m = w.listOf(gt, l, "x", n)
					}
					key := "list:" + kindOfType(l)
					toks := w.marshal(key, pkg, "Marshal"+ln, m.v)
					got, ok := canonJSON(toks)
					if want := canonText(m.json); !ok || got != want {
						w.Fail(key+":write", "Marshal%s writes\n  %s\nbut should write\n  %s", ln, showTokens(toks), want)
						return
					}
					for _, src := range sources {
						if x, ok := w.unmarshal(key+":read", pkg, "Unmarshal"+ln, src, toks); ok {
							if got := w.Observe(gt, l, x); got != m.tree {
								w.Fail(key+":read", "Unmarshal%s returns\n  %s\nbut should return\n  %s", ln, got, m.tree)
							}
						}
					}
				})
			}
		}
		// Details of links to lists:
		for _, a := range t.Attrs {
			a := a
			if a.Type.Kind != "list" || !a.Link || a.Type.Element.Kind != "class" {
				continue
			}
			for _, link := range []bool{true, false} {
				link := link
				add(fmt.Sprintf("details of %s, link %v", a.Name, link), func(w *world) {
					b := w.builder(pkg, name, t)
					b.set(a.Name.String(), 1, 1, "x")
					gt, v := b.Build()
					toks := w.marshal("details", pkg, "Marshal"+name, v)
					m, ok := members(toks)
					if !ok {
						return
					}
					kind := goName(&a.Type.Element.Base) + "List"
					if link {
						kind += "Link"
					}
					href := engine.U("href")
					for i := range m {
						if k, _ := m[i][0].V.(engine.Str).Const(); k == jsonName(&a.Base) {
							inner, ok := members(m[i][1:])
							if !ok {
								return
							}
							inner = append(inner, []engine.JTok{{K: "key", V: engine.C("kind")}, {K: "str", V: engine.C(kind)}}, []engine.JTok{{K: "key", V: engine.C("href")}, {K: "str", V: href}})
							inner = append(inner, extraMembers(1)...)
							m[i] = append([]engine.JTok{m[i][0]}, objectOf(inner)...)
						}
					}
					x, ok := w.unmarshal("details", pkg, "Unmarshal"+name, "string", objectOf(m))
					if !ok {
						return
					}
					w.expect("details", gt, x, b.tree(), "Object read")
					g := w.method(gt, goName(&a.Base))
					l := w.d.CallFn(g, x)
					if got := w.d.Bool(w.Method(result(g, 0), l, "Link")); got != link {
						w.Fail("details:link", "The list read from a document with kind '%s' has link flag %v", kind, got)
					}
					if got := engine.Show(w.Method(result(g, 0), l, "HREF")); got != engine.Show(href) {
						w.Fail("details:href", "The list read from a document with href %s has HREF %s", engine.Show(href), got)
					}
				})
			}
		}
	})
}

// listOf creates a list with the given number of elements.
func (w *world) listOf(gt types.Type, t *spec.Type, label string, n int) made {
	var l []made
	for i := 0; i < n; i++ {
		l = append(l, w.make(elementOf(gt), t.Element, false, label, 0, 1, false))
	}
	m := listMade(l)
	m.v = w.slice(l)
	return m
}

// canonText converts the description of a document, which is already canonical except for the order
// of nested members.
func canonText(s string) string { return s }

// leaf returns the type of the elements of lists and maps, or the type itself.
func leaf(t *spec.Type) *spec.Type {
	for t.Kind == "list" || t.Kind == "map" {
		t = t.Element
	}
	return t
}

// wrap puts a token inside the lists and maps of a type.
func wrap(t *spec.Type, x ...jtok) []jtok {
	switch t.Kind {
	case "list":
		return append(append([]jtok{{K: "["}}, wrap(t.Element, x...)...), jtok{K: "]"})
	case "map":
		return objectOf([][]jtok{append([]jtok{jkey("some")}, wrap(t.Element, x...)...)})
	}
	return x
}
