package checks

import (
	"fmt"
	"sort"
	"strings"

	"verif/tool/engine"
	"verif/tool/mm"
	"verif/tool/spec"
)

// This file contains the analysis of the classes that reference classes of other services.

// refForms are the ways to use a type from an attribute.
var refForms = []struct {
	text string
	link bool
}{
	{"%s", false}, {"[]%s", false}, {"[String]%s", false}, {"%s", true}, {"[]%s", true},
}

// refEdge is a use of a type.
type refEdge struct {
	from, to, form int
}

// refGraph is a set of types, the first is the one referenced.
type refGraph struct {
	edges    []refEdge
	explicit []int // other types referenced explicitly
	before   bool  // explicit references are before the main one
	user     string
}

const refTypes = "abcdefgh"

func refName(i int) string { return "Type" + strings.ToUpper(refTypes[i:i+1]) }

func (g *refGraph) size() int {
	n := 1
	for _, e := range g.edges {
		for _, x := range []int{e.from, e.to} {
			if x >= n {
				n = x + 1
			}
		}
	}
	return n
}

// attrs returns the attributes of a type.
func (g *refGraph) attrs(i int) []string {
	r := []string{"name String false"}
	for k, e := range g.edges {
		if e.from == i {
			r = append(r, fmt.Sprintf("x%c %s %v", 'a'+k, fmt.Sprintf(refForms[e.form].text, refName(e.to)), refForms[e.form].link))
		}
	}
	return r
}

func (g *refGraph) other() string {
	s := rootText
	for i := 0; i < g.size(); i++ {
		kind := "class"
		if i > 0 && i%2 == 0 {
			kind = "struct"
		}
		s += fmt.Sprintf("// Documentation of %s.\n%s %s {\n", refName(i), kind, refName(i))
		for _, a := range g.attrs(i) {
			f := strings.Fields(a)
			l := ""
			if f[2] == "true" {
				l = "link "
			}
			s += "  " + l + f[0] + " " + f[1] + "\n"
		}
		s += "}\n"
	}
	return s
}

func (g *refGraph) mine(service string) string {
	ref := func(i int) string {
		return fmt.Sprintf("@ref(path=\"%s/v2/type_%c\")\nclass %s {\n}\n", service, refTypes[i], refName(i))
	}
	s := rootText
	if g.user == "before" {
		s += "class User {\n  x TypeA\n  y []TypeA\n  z [String]TypeA\n  link w TypeA\n}\n"
	}
	if g.before {
		for _, i := range g.explicit {
			s += ref(i)
		}
	}
	s += ref(0)
	if !g.before {
		for _, i := range g.explicit {
			s += ref(i)
		}
	}
	if g.user == "after" {
		s += "class User {\n  x TypeA\n  y []TypeA\n  z [String]TypeA\n  link w TypeA\n}\n"
	}
	return s
}

// closure returns the types that the version should contain.
func (g *refGraph) closure() map[int]bool {
	r := map[int]bool{}
	var add func(i int)
	add = func(i int) {
		if r[i] {
			return
		}
		r[i] = true
		for _, e := range g.edges {
			if e.from == i && !refForms[e.form].link {
				add(e.to)
			}
		}
	}
	add(0)
	for _, i := range g.explicit {
		add(i)
	}
	return r
}

// refGraphs generates the graphs.
func refGraphs(thorough bool) []*refGraph {
	var r []*refGraph
	n := len(refForms)
	one := func(edges ...refEdge) {
		r = append(r, &refGraph{edges: edges})
	}
	for a := 0; a < n; a++ {
		one(refEdge{0, 0, a})
		one(refEdge{0, 1, a})
		for b := 0; b < n; b++ {
			one(refEdge{0, 1, a}, refEdge{1, 0, b})
			one(refEdge{0, 1, a}, refEdge{1, 2, b})
			one(refEdge{0, 1, a}, refEdge{0, 2, b})
			one(refEdge{0, 1, a}, refEdge{0, 1, b})
			one(refEdge{0, 1, a}, refEdge{1, 1, b})
			for d := 0; d < n; d++ {
				if !thorough && (a+b+d)%3 != 0 {
					continue
				}
				one(refEdge{0, 1, a}, refEdge{1, 2, b}, refEdge{2, 0, d})
				one(refEdge{0, 1, a}, refEdge{1, 2, b}, refEdge{2, 3, d})
				one(refEdge{0, 1, a}, refEdge{1, 2, b}, refEdge{0, 2, d})
				one(refEdge{0, 2, d}, refEdge{0, 1, a}, refEdge{1, 2, b})
			}
			// Explicit references to some of the types:
			for _, before := range []bool{false, true} {
				r = append(r,
					&refGraph{edges: []refEdge{{0, 1, a}, {1, 2, b}}, explicit: []int{1}, before: before},
					&refGraph{edges: []refEdge{{0, 1, a}, {0, 2, b}}, explicit: []int{2}, before: before},
					&refGraph{edges: []refEdge{{0, 1, a}, {1, 0, b}}, explicit: []int{1}, before: before},
				)
			}
		}
		for _, u := range []string{"before", "after"} {
			r = append(r, &refGraph{edges: []refEdge{{0, 1, a}}, user: u})
		}
	}
	// Long chains:
	for a := 0; a < n; a++ {
		if refForms[a].link {
			continue
		}
		var l []refEdge
		for i := 0; i < 6; i++ {
			l = append(l, refEdge{i, i + 1, (a + i) % 3})
		}
		one(l...)
	}
	return r
}

func (c *Ctx) refGraphCase(g *refGraph, from string) {
	f := files("mmm/v2/a.model", g.other(), from+"/v1/a.model", g.mine("mmm"))
	name := fmt.Sprintf("references of %s with uses %v, explicit %v (before %v), user %s", from, g.edges, g.explicit, g.before, g.user)
	c.Oblige(1)
	rs, it, err := c.S().Read(mm.Input{Files: f})
	c.Note(it)
	if err != nil {
		c.Undecided("%s: %v", name, err)
		return
	}
	if c.imprecise(it, name) {
		return
	}
	for _, r := range rs {
		fail := func(key, format string, args ...interface{}) {
			c.Violation("graph:"+key, "%s: %s (see %s)\n%s", name, fmt.Sprintf(format, args...), where(it, "reader.go"), showFiles(f))
		}
		if r.Crash != "" {
			fail("crash", "reading crashes: %s at %s", r.Crash, r.Where)
			continue
		}
		if r.Failed {
			fail("rejected", "the model is rejected")
			continue
		}
		err := engine.Protect(func() { c.refGraphModel(g, from, r.View, r.Model, fail) })
		if err != nil {
			c.Undecided("%s: %v", name, err)
		}
	}
}

func (c *Ctx) refGraphModel(g *refGraph, from string, v *mm.View, model mm.Obj, fail failer) {
	key := func(n string) string { return strings.ToLower(strings.ReplaceAll(strings.ReplaceAll(n, "_", ""), "-", "")) }
	index := map[string]int{}
	for i := 0; i < g.size(); i++ {
		index[strings.ToLower(refName(i))] = i
	}
	text := func(t mm.Obj) string {
		switch {
		case v.Bool(v.Call(t, "IsList")):
			return "[]" + key(v.NameOf(v.Call(t, "Element")))
		case v.Bool(v.Call(t, "IsMap")):
			return "[string]" + key(v.NameOf(v.Call(t, "Element")))
		}
		return key(v.NameOf(t))
	}
	final := func(t mm.Obj) mm.Obj {
		for v.Bool(v.Call(t, "IsList")) || v.Bool(v.Call(t, "IsMap")) {
			t = v.Call(t, "Element")
		}
		return t
	}
	for _, s := range v.List(v.Call(model, "Services")) {
		service := v.NameOf(s)
		want := g.closure()
		if service != from {
			for i := 0; i < g.size(); i++ {
				want[i] = true
			}
		}
		for _, ver := range v.List(v.Call(s, "Versions")) {
			have := map[int]bool{}
			for _, t := range v.List(v.Call(ver, "Types")) {
				if !v.Bool(v.Call(t, "IsStruct")) {
					continue
				}
				tn := key(v.NameOf(t))
				c.Oblige(1)
				if !v.Call(t, "Owner").Same(ver) {
					fail("owner", "the owner of type '%s' isn't the version of service '%s' that contains it", tn, service)
				}
				i, ok := index[tn]
				if !ok {
					if tn != "user" {
						fail("extra", "version of service '%s' contains type '%s'", service, tn)
					}
				} else {
					have[i] = true
					kind := i == 0 || i%2 == 1
					if v.Bool(v.Call(t, "IsClass")) != kind {
						fail("kind", "the kind of type '%s' of service '%s' isn't the declared one", tn, service)
					}
					if d := v.Text(v.Call(t, "Doc")); d != "Documentation of "+refName(i)+"." && want[i] {
						explicit := i == 0
						for _, e := range g.explicit {
							explicit = explicit || e == i
						}
						if !explicit || service != from {
							fail("doc", "the documentation of type '%s' of service '%s' is %q", tn, service, d)
						}
					}
				}
				var attrs []string
				for _, a := range v.List(v.Call(t, "Attributes")) {
					at := v.Call(a, "Type")
					link := v.Bool(v.Call(a, "Link"))
					attrs = append(attrs, fmt.Sprintf("%s %s %v", key(v.NameOf(a)), text(at), link))
					owner := v.Call(a, "LinkOwner")
					ft := final(at)
					fn := key(v.NameOf(ft))
					c.Oblige(1)
					if owner.Nil() {
						found := v.Call(ver, "FindType", v.Call(ft, "Name").V)
						if found.Nil() {
							fail("missing", "type '%s', used by attribute '%s' of type '%s', isn't in the version of service '%s'", fn, v.NameOf(a), tn, service)
						}
						continue
					}
					if !link {
						fail("link", "attribute '%s' of type '%s' of service '%s' isn't a link but its type is taken from other version", v.NameOf(a), tn, service)
						continue
					}
					if service != from || v.NameOf(v.Call(owner, "Owner")) != "mmm" {
						fail("linkowner", "the type of link '%s' of type '%s' of service '%s' is taken from service '%s'", v.NameOf(a), tn, service, v.NameOf(v.Call(owner, "Owner")))
						continue
					}
					if v.Call(owner, "FindType", v.Call(ft, "Name").V).Nil() {
						fail("linktype", "the type of link '%s' of type '%s' of service '%s' isn't in the version where it is taken from", v.NameOf(a), tn, service)
					}
					for _, e := range append([]int{0}, g.explicit...) {
						if j, ok := index[fn]; ok && j == e {
							fail("explicit", "the type of link '%s' of type '%s' of service '%s' is explicitly referenced by the version, but it is taken from other", v.NameOf(a), tn, service)
						}
					}
				}
				if !ok {
					continue
				}
				var l []string
				for _, a := range g.attrs(i) {
					l = append(l, strings.ToLower(a))
				}
				sort.Strings(l)
				sort.Strings(attrs)
				if fmt.Sprint(l) != fmt.Sprint(attrs) {
					fail("attributes", "type '%s' of service '%s' has attributes %v, should have %v", tn, service, attrs, l)
				}
			}
			for i := 0; i < g.size(); i++ {
				if want[i] && !have[i] {
					fail("closure", "version of service '%s' doesn't contain type '%s'", service, refName(i))
				}
				if have[i] && !want[i] {
					fail("extra", "version of service '%s' contains type '%s', that is only used by links", service, refName(i))
				}
			}
		}
	}
}

// imported returns a copy of the version that contains only the types, with the referenced classes replaced by
// their definitions, and with the types that they need.
func (s *shape) imported(v *spec.Version) (*spec.Version, bool) {
	r := *v
	r.Types, r.Resources, r.Errors = nil, nil, nil
	names := map[string]bool{}
	some := false
	for _, t := range v.Types {
		x := s.resolve(t)
		some = some || x != t
		r.Types = append(r.Types, x)
		names[t.Name.String()] = true
	}
	for i := 0; i < len(r.Types); i++ {
		for _, a := range r.Types[i].Attrs {
			t := a.Type
			for t.Element != nil {
				t = t.Element
			}
			if a.Link || names[t.Name.String()] || !t.Struct() && t.Kind != "enum" {
				continue
			}
			names[t.Name.String()] = true
			r.Types = append(r.Types, t)
		}
	}
	return &r, some
}

func init() {
	register("P26", func(c *Ctx) {
		c.filter = func(s *shape) bool { return strings.Contains(showFiles(s.files), "@ref") }
		c.Rule("for a graph of types of a service with each combination of uses (plain, list, map, link, list link; chains, cycles, diamonds), and classes of other service that reference some of them, the model that results from the abstract interpretation of the reader must contain in both versions exactly the types that each needs, with the attributes, kinds and owners that they were given, and every type used by an attribute must be in the version where it is taken from")
		l := refGraphs(c.Thorough)
		type job struct {
			g    *refGraph
			from string
		}
		var jobs []job
		for i, g := range l {
			for j, from := range []string{"aaa", "zzz"} {
				if c.Thorough || i%2 == j {
					jobs = append(jobs, job{g, from})
				}
			}
		}
		c.Parallel(len(jobs), func(i int) { c.refGraphCase(jobs[i].g, jobs[i].from) })
		c.Count("graphs of referenced types", len(jobs))
		c.Rule("the residual Go code, the OpenAPI document and the documentation of the version that contains the reference must contain the types that it needs")
		c.generate("golang", "openapi", "docs")
		for _, s := range c.load() {
			s := s
			fail := func(key, format string, args ...interface{}) {
				c.Violation(key, "Shape '%s': %s\n%s", s.name, fmt.Sprintf(format, args...), showFiles(s.files))
			}
			s.versions(func(v *spec.Version) {
				x, some := s.imported(v)
				if !some {
					return
				}
				if s.Go != nil && s.unit != nil && len(s.unit.Errors) == 0 {
					c.goAPI(s, x, fail)
				}
				if s.OpenAPI != nil {
					if text, ok := s.document(v); ok {
						if n, err := parseJSON(text); err == nil {
							s.compareTypes(n, x, c.Oblige, func(key, format string, args ...interface{}) { fail("openapi:"+key, format, args...) })
						}
					}
				}
				for _, t := range x.Types {
					if s.Docs != nil && (t.Struct() || t.Kind == "enum") {
						c.Oblige(1)
						if _, ok := s.Docs[t.Name.Snake()+"_type.md"]; !ok {
							fail("docs:missing", "There is no documentation for type '%s'", t.Name)
						}
					}
				}
			})
			if s.unit != nil {
				for _, e := range s.unit.Errors {
					if strings.Contains(showFiles(s.files), "@ref") {
						c.Violation("compile:"+s.name+":"+e.File+":"+e.Msg, "Generated file %s doesn't compile, line %d: %s: %s", e.File, e.Line, e.Text, e.Msg)
					}
				}
			}
		}
	})
}
