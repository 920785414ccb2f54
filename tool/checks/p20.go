package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"verif/tool/spec"
)

// This file contains the analysis of what the generated artifacts contain, which is done inspecting the
// types of the residual Go code and the text of the other artifacts.

type failer func(key, format string, args ...interface{})

// goPackage finds the types of a generated package.
func (c *Ctx) goPackage(path string) *types.Package {
	for _, x := range c.gen.prog.Own {
		if x.Pkg.Path() == path {
			return x.Pkg
		}
	}
	return nil
}

// methodOf finds a method of a type, or of the pointer to that type.
func methodOf(t types.Type, name string) *types.Signature {
	if t == nil {
		return nil
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	set := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < set.Len(); i++ {
		if f := set.At(i).Obj(); f.Name() == name {
			s, _ := f.Type().(*types.Signature)
			return s
		}
	}
	return nil
}

func scopeType(p *types.Package, name string) types.Type {
	if o, ok := p.Scope().Lookup(name).(*types.TypeName); ok {
		return o.Type()
	}
	return nil
}

func scopeFunc(p *types.Package, name string) *types.Signature {
	if o, ok := p.Scope().Lookup(name).(*types.Func); ok {
		return o.Type().(*types.Signature)
	}
	return nil
}

func resultOf(s *types.Signature) types.Type {
	if s == nil || s.Results().Len() == 0 {
		return nil
	}
	return s.Results().At(0).Type()
}

// goAPI checks that the generated Go code contains everything that the version should have.
func (c *Ctx) goAPI(s *shape, v *spec.Version, fail failer) {
	pkg := c.goPackage(versionPath(s, v))
	c.Oblige(1)
	if pkg == nil {
		fail("go:package", "There is no Go package for version '%s/%s'", v.Service.Name, v.Name)
		return
	}
	have := func(what string, ok bool, format string, args ...interface{}) bool {
		c.Oblige(1)
		if !ok {
			fail("go:"+what, "Go package '%s' doesn't contain %s", pkg.Path(), fmt.Sprintf(format, args...))
		}
		return ok
	}
	for _, t := range v.Types {
		name := goName(&t.Base)
		switch {
		case t.Kind == "enum":
			typ := scopeType(pkg, name)
			if !have("enum", typ != nil, "type %s for enumerated type '%s'", name, t.Name) {
				continue
			}
			want := map[string]string{}
			for _, x := range t.Values {
				want[name+goName(&x.Base)] = jsonName(&x.Base)
			}
			for _, n := range pkg.Scope().Names() {
				k, ok := pkg.Scope().Lookup(n).(*types.Const)
				if !ok || !types.Identical(k.Type(), typ) {
					continue
				}
				text, ok := want[n]
				if !have("value", ok, "a value of enumerated type '%s' for constant %s", t.Name, n) {
					continue
				}
				have("value", k.Val().Kind() == constant.String && constant.StringVal(k.Val()) == text, "constant %s with value %q, it is %s", n, text, k.Val())
				delete(want, n)
			}
			var l []string
			for n := range want {
				l = append(l, n)
			}
			sort.Strings(l)
			have("value", len(l) == 0, "constants %s for the values of enumerated type '%s'", strings.Join(l, ", "), t.Name)
		case t.Struct() && t.Param("ref", "path") == "":
			typ := scopeType(pkg, name)
			if !have("type", typ != nil, "type %s for type '%s'", name, t.Name) {
				continue
			}
			bt := resultOf(scopeFunc(pkg, "New"+name))
			have("builder", bt != nil && scopeType(pkg, name+"Builder") != nil, "builder %sBuilder for type '%s'", name, t.Name)
			have("build", methodOf(bt, "Build") != nil && methodOf(bt, "Copy") != nil, "methods Build and Copy of the builder of type '%s'", t.Name)
			have("empty", methodOf(typ, "Empty") != nil, "method Empty of type '%s'", t.Name)
			var getters []string
			if t.Kind == "class" {
				getters = append(getters, "ID", "HREF")
				have("kind", methodOf(typ, "Kind") != nil && methodOf(typ, "Link") != nil, "methods Kind and Link of class '%s'", t.Name)
				for suffix, want := range map[string]string{"Kind": name, "LinkKind": name + "Link", "NilKind": name + "Nil"} {
					k, ok := pkg.Scope().Lookup(name + suffix).(*types.Const)
					have("kinds", ok && k.Val().Kind() == constant.String && constant.StringVal(k.Val()) == want, "constant %s%s with value %q", name, suffix, want)
				}
			}
			for _, a := range t.Attrs {
				getters = append(getters, goName(&a.Base))
			}
			for _, g := range getters {
				have("attribute", methodOf(typ, g) != nil && methodOf(typ, "Get"+g) != nil, "accessors %s and Get%s of type '%s'", g, g, t.Name)
				have("setter", methodOf(bt, g) != nil, "setter %s of the builder of type '%s'", g, t.Name)
			}
			for _, f := range []string{"Marshal", "Unmarshal"} {
				// It isn't specified if the Go name is honoured by the functions for lists:
				list := scopeFunc(pkg, f+name+"List") != nil || scopeFunc(pkg, f+t.Name.Camel()+"List") != nil
				have("json", scopeFunc(pkg, f+name) != nil && list, "functions %s%s and %s%sList", f, name, f, name)
			}
			lt := scopeType(pkg, name+"List")
			have("list", lt != nil && scopeType(pkg, name+"ListBuilder") != nil && scopeFunc(pkg, "New"+name+"List") != nil, "list type %sList and its builder", name)
		}
	}
	for _, e := range v.Errors {
		ok := false
		for _, n := range []string{errorConstant(e), goName(&e.Base), goName(&e.Base) + "Error"} {
			k, is := pkg.Scope().Lookup(n).(*types.Const)
			ok = ok || is && k.Val().ExactString() == fmt.Sprint(e.Code)
		}
		have("error", ok, "constant %s with the code %d of error '%s'", errorConstant(e), e.Code, e.Name)
	}
	for _, r := range v.Resources {
		// Each resource has its own client:
		found := false
		names := []string{goName(&r.Base) + "Client"}
		if r.Name.String() == "root" {
			names = append(names, "Client")
		}
		for _, n := range names {
			ct := scopeType(pkg, n)
			if ct == nil || found {
				continue
			}
			found = true
			c.clientAPI(pkg, ct, r, have)
		}
		have("client", found, "client for resource '%s'", r.Name)
	}
	// The resources should be reachable from the client of the service:
	sp := c.goPackage(servicePath(s, v.Service))
	if !have("service", sp != nil, "package for service '%s'", v.Service.Name) {
		return
	}
	ct := resultOf(scopeFunc(sp, "NewClient"))
	root := resultOf(methodOf(ct, goName(&v.Base)))
	if have("version", root != nil, "method %s in the client of service '%s'", goName(&v.Base), v.Service.Name) {
		for _, r := range s.routes() {
			if r.v != v {
				continue
			}
			t := root
			for _, l := range r.steps {
				t = resultOf(methodOf(t, goName(&l.Base)))
			}
			have("route", t != nil, "clients for path '%s'", r)
			if t != nil {
				c.clientAPI(pkg, t, r.r, have)
			}
		}
	}
}

// clientAPI checks that the client of a resource has all that it should have.
func (c *Ctx) clientAPI(pkg *types.Package, ct types.Type, r *spec.Resource, have func(what string, ok bool, format string, args ...interface{}) bool) {
	for _, l := range r.Locators {
		sg := methodOf(ct, goName(&l.Base))
		n := 0
		if l.Variable {
			n = 1
		}
		have("locator", sg != nil && sg.Params().Len() == n && sg.Results().Len() == 1, "method %s for locator '%s' of resource '%s'", goName(&l.Base), l.Name, r.Name)
	}
	for _, m := range r.Methods {
		rt := resultOf(methodOf(ct, goName(&m.Base)))
		if !have("method", rt != nil, "method %s for method '%s' of resource '%s'", goName(&m.Base), m.Name, r.Name) {
			continue
		}
		send := methodOf(rt, "Send")
		have("send", send != nil && methodOf(rt, "SendContext") != nil, "methods Send and SendContext for method '%s' of resource '%s'", m.Name, r.Name)
		res := resultOf(send)
		for _, p := range m.Params {
			if p.In {
				sg := methodOf(rt, setterName(p))
				have("parameter", sg != nil && sg.Params().Len() == 1, "setter %s for parameter '%s' of method '%s' of resource '%s'", setterName(p), p.Name, m.Name, r.Name)
			}
			if p.Out {
				have("parameter", methodOf(res, getterName(p)) != nil && methodOf(res, "Get"+getterName(p)) != nil, "accessors %s and Get%s for parameter '%s' of method '%s' of resource '%s'", getterName(p), getterName(p), p.Name, m.Name, r.Name)
			}
		}
	}
}

// tree calculates the tree of paths of a resource.
func pathTree(r *spec.Resource, depth int) *jnode {
	n := &jnode{kind: "object"}
	add := func(name string, x *jnode) {
		n.names = append(n.names, name)
		n.items = append(n.items, x)
	}
	for _, m := range r.Methods {
		if m.Category() == "action" {
			add(pathSegment(&m.Base), &jnode{kind: "null"})
		}
	}
	for _, l := range r.Locators {
		name := pathSegment(&l.Base)
		if l.Variable {
			name = "-"
		}
		if depth < 8 {
			add(name, pathTree(l.Target, depth+1))
		}
	}
	if len(n.names) == 0 {
		return &jnode{kind: "null"}
	}
	return n
}

// missingTree finds the first difference between trees.
func missingTree(path string, got, want *jnode) string {
	if want.kind == "null" {
		if got.kind == "object" && len(got.names) > 0 {
			return fmt.Sprintf("there is something unexpected under '%s': %s", path, got)
		}
		return ""
	}
	for i, k := range want.names {
		x := got.get(k)
		if x == nil {
			return fmt.Sprintf("there is nothing for '%s/%s'", path, k)
		}
		if m := missingTree(path+"/"+k, x, want.items[i]); m != "" {
			return m
		}
	}
	for _, k := range got.names {
		if want.get(k) == nil {
			return fmt.Sprintf("there is something unexpected '%s/%s'", path, k)
		}
	}
	return ""
}

// ambiguous tells if a resource has several locators with variables.
func ambiguous(s *shape) bool {
	for _, r := range s.routes() {
		n := 0
		for _, l := range r.r.Locators {
			if l.Variable {
				n++
			}
		}
		if n > 1 {
			return true
		}
	}
	return false
}

// metricsTree checks the tree of paths used for metrics.
func (c *Ctx) metricsTree(s *shape, fail failer) {
	c.Oblige(1)
	text, ok := s.Go["metrics/path_tree_data.go"]
	if !ok {
		fail("metrics", "There is no tree of paths for metrics")
		return
	}
	i, j := strings.Index(text, "`"), strings.LastIndex(text, "`")
	if i < 0 || j <= i {
		c.Undecided("the tree of paths of shape %s isn't a literal", s.name)
		return
	}
	got, err := parseJSON(text[i+1 : j])
	if err != nil {
		fail("metrics", "The tree of paths for metrics isn't correct: %v", err)
		return
	}
	api := &jnode{kind: "object"}
	for _, sv := range s.Spec.Services {
		branch := &jnode{kind: "object"}
		for _, v := range sv.Versions {
			for _, r := range v.Resources {
				if r.Name.String() == "root" {
					branch.names = append(branch.names, pathSegment(&v.Base))
					branch.items = append(branch.items, pathTree(r, 0))
				}
			}
		}
		api.names = append(api.names, pathSegment(&sv.Base))
		api.items = append(api.items, branch)
	}
	want := &jnode{kind: "object", names: []string{"api"}, items: []*jnode{api}}
	want.walk("", func(string, *jnode) { c.Oblige(1) })
	if m := missingTree("", got, want); m != "" {
		fail("metrics", "The tree of paths for metrics isn't correct: %s", m)
	}
}

// docs checks the documentation.
func (c *Ctx) docsContent(s *shape, fail failer) {
	index := s.Docs["index.md"]
	type page struct{ what, display, file string }
	users := map[string]int{}
	visit := func(f func(p page, lines func(text string, names ...string) string, v *spec.Version, t *spec.Type, r *spec.Resource)) {
		s.versions(func(v *spec.Version) {
			for _, r := range v.Resources {
				f(page{"resource '" + r.Name.String() + "'", r.Name.Camel(), r.Name.Snake() + "_resource.md"}, nil, v, nil, r)
			}
			for _, t := range v.Types {
				if t.Struct() || t.Kind == "enum" {
					f(page{"type '" + t.Name.String() + "'", t.Name.Camel(), t.Name.Snake() + "_type.md"}, nil, v, t, nil)
				}
			}
		})
	}
	visit(func(p page, _ func(string, ...string) string, v *spec.Version, t *spec.Type, r *spec.Resource) {
		users[p.file]++
	})
	visit(func(p page, _ func(string, ...string) string, v *spec.Version, t *spec.Type, r *spec.Resource) {
		c.Oblige(2)
		text, ok := s.Docs[p.file]
		if !ok {
			fail("docs:missing", "There is no documentation for %s", p.what)
			return
		}
		if !strings.Contains(index, "["+p.display+"]("+p.file+")") {
			fail("docs:index", "The index of the documentation doesn't contain %s", p.what)
		}
		if users[p.file] > 1 {
			// Several versions have a concept with that name.
			fail("docs:overwritten", "The documentation of %s of several versions is written to the same file, so only the last is preserved", p.what)
			return
		}
		mention := func(what, name string, b *spec.Base) {
			c.Oblige(1)
			if !strings.Contains(text+"\n", name) {
				fail("docs:"+what, "The documentation of %s doesn't mention %s %s:\n%s", p.what, what, name, text)
			}
			for _, l := range strings.Split(b.Doc, "\n") {
				l = strings.TrimSpace(l)
				if !strings.Contains(text, l) {
					fail("docs:"+what+":doc", "The documentation of %s doesn't contain the text '%s' of %s %s:\n%s", p.what, l, what, name, text)
				}
			}
		}
		all := text
		tag := func(n string) string { return "`" + n + "`" }
		if r != nil {
			mention("resource", "# "+r.Name.Camel(), &r.Base)
			for _, m := range r.Methods {
				title := "\n## " + m.Name.Camel() + " - " + httpMethod(m.Category()) + "\n"
				text = all
				mention("method", title, &m.Base)
				// The parameters should be in the part of the page that corresponds to the method:
				if i := strings.Index(text, title); i >= 0 {
					text = text[i+len(title):]
					if i = strings.Index("\n"+text, "\n## "); i >= 0 {
						text = text[:i]
					}
				}
				for _, q := range m.Params {
					if inQuery(q) {
						mention("parameter", tag(queryName(&q.Base)), &q.Base)
					} else {
						mention("parameter", tag(jsonName(&q.Base)), &q.Base)
					}
				}
			}
		}
		if t != nil {
			text = all
			mention("type", "# "+t.Name.Camel(), &t.Base)
			for _, a := range s.resolve(t).Attrs {
				mention("attribute", tag(jsonName(&a.Base)), &a.Base)
			}
			for _, x := range t.Values {
				mention("value", tag(jsonName(&x.Base)), &x.Base)
			}
		}
	})
}

// openapiContent checks that the specification contains everything.
func (c *Ctx) openapiContent(s *shape, v *spec.Version, fail failer) {
	text, ok := s.document(v)
	c.Oblige(1)
	if !ok {
		fail("openapi:missing", "There is no OpenAPI specification for version '%s/%s'", v.Service.Name, v.Name)
		return
	}
	n, err := parseJSON(text)
	if err != nil {
		fail("openapi:malformed", "The OpenAPI specification of version '%s/%s' isn't correct: %v", v.Service.Name, v.Name, err)
		return
	}
	s.compareTypes(n, v, c.Oblige, func(key, format string, args ...interface{}) { fail("openapi:"+key, format, args...) })
	ops := operations(n)
	clash := s.clashes(v)
	for _, r := range s.routes() {
		if r.v != v {
			continue
		}
		for _, m := range r.r.Methods {
			p, h := methodPath(r, m)
			op := ops[h+" "+p]
			c.Oblige(1 + len(m.Params))
			if op == nil {
				fail("openapi:method", "The OpenAPI specification doesn't contain operation '%s %s' for method '%s'", h, p, m.Name)
				continue
			}
			if !clash[h+" "+p] {
				s.compareOperation(op, m, func(key, format string, args ...interface{}) {
					fail("openapi:"+key, "Operation '%s %s': %s", h, p, fmt.Sprintf(format, args...))
				})
			}
		}
	}
}

// content checks what all the generated artifacts contain.
func (c *Ctx) content(select_ func(s *shape) bool) {
	c.generate("golang", "openapi", "docs")
	for _, s := range c.load() {
		s := s
		if !select_(s) {
			continue
		}
		fail := func(key, format string, args ...interface{}) {
			if key == "docs:overwritten" && c.ID != "P20" {
				return
			}
			c.Violation(key, "Shape '%s': %s\n%s", s.name, fmt.Sprintf(format, args...), showFiles(s.files))
		}
		for _, cmd := range []string{"golang", "openapi", "docs"} {
			c.generationProblems(s, cmd)
		}
		if s.unit != nil && len(s.unit.Errors) == 0 {
			s.versions(func(v *spec.Version) { c.goAPI(s, v, fail) })
			if !ambiguous(s) {
				c.metricsTree(s, fail)
			}
		}
		if s.OpenAPI != nil {
			s.versions(func(v *spec.Version) { c.openapiContent(s, v, fail) })
		}
		if s.Docs != nil {
			c.docsContent(s, fail)
		}
	}
}

func init() {
	register("P20", func(c *Ctx) {
		c.Rule("for each concept of each model shape the residual Go code (types and signatures), the OpenAPI document, the documentation and the tree of paths for metrics should contain what corresponds to it")
		c.content(func(*shape) bool { return true })
	})
	register("P10", func(c *Ctx) {
		c.Rule("for model shapes with Go, HTTP and JSON names in all the concepts where they have a meaning, and for names with several words and initialisms, the names in the residual Go code, in the requests, responses and documents of the abstract interpretation of that code, in the OpenAPI document, in the documentation and in the tree of paths should be the given or calculated ones")
		named := map[string]bool{"annotations": true, "gonames": true, "initialisms": true, "names": true, "separate": true, "keywords": true}
		c.filter = func(s *shape) bool { return named[s.name] }
		c.content(c.filter)
		c.clientRequests(true)
		c.clientResponses(true)
		c.jsonSupport(true)
	})
}
