package checks

import (
	"fmt"
	"strings"

	"verif/tool/engine"
	"verif/tool/mm"
	"verif/tool/spec"
)

// sampleMethods are names of methods, reserved and not reserved.
var sampleMethods = []string{
	"Add", "Delete", "AsyncDelete", "Get", "List", "Post", "Search", "Update", "AsyncUpdate",
	"AddAll", "AsyncAdd", "Async", "DeleteAsync", "UpdateAsync", "GetAll", "AsyncGet", "AsyncList", "AsyncPost", "AsyncSearch",
	"Remove", "ListAll", "PostAll", "Searches", "Updates", "Restart", "ADD", "Patch", "Put", "DoGet", "Asyncdelete", "Asyncupdate", "X",
}

var categoryPredicates = map[string]string{
	"add": "IsAdd", "delete": "IsDelete", "asyncdelete": "IsAsyncDelete", "get": "IsGet", "list": "IsList",
	"post": "IsPost", "search": "IsSearch", "update": "IsUpdate", "asyncupdate": "IsAsyncUpdate", "action": "IsAction",
}

// category returns the category of a method from its name.
func category(name string) string {
	switch name {
	case "Add", "Delete", "AsyncDelete", "Get", "List", "Post", "Search", "Update", "AsyncUpdate":
		return strings.ToLower(name)
	}
	return "action"
}

// kindsText declares types of all the kinds.
const kindsText = "class Clase {\n  a String\n  l []Clase\n  m [String]Clase\n}\nstruct Strukt {\n  a Integer\n  l []Strukt\n  m [String]Integer\n}\nenum Enumm {\n  red\n  blue\n}\n" +
	"struct Uses {\n  a []Enumm\n  b [String]Enumm\n  c [String]Date\n  d [String][]String\n}\n"

func (c *Ctx) kinds() {
	text := strings.Replace(kindsText, "  d [String][]String\n", "", 1)
	rs, it, err := c.S().Read(mm.Input{Files: files("svc/v1/a.model", rootText+text)})
	c.Note(it)
	if err != nil {
		c.Undecided("kinds: %v", err)
		return
	}
	if c.imprecise(it, "kinds") {
		return
	}
	m := spec.Of(files("svc/v1/a.model", rootText+text))
	want := map[string]*spec.Type{}
	for _, t := range m.Services[0].Versions[0].Types {
		want[t.Name.String()] = t
	}
	for _, r := range rs {
		if r.Failed || r.Crash != "" {
			c.Violation("kinds:rejected", "the model with all the kinds of types is rejected: %s", r.Crash)
			return
		}
		err := engine.Protect(func() {
			v := r.View
			n := 0
			for _, s := range v.List(v.Call(r.Model, "Services")) {
				for _, ver := range v.List(v.Call(s, "Versions")) {
					for _, t := range v.List(v.Call(ver, "Types")) {
						n++
						c.Oblige(1)
						name := v.NameOf(t)
						w := want[name]
						if w == nil {
							c.Violation("kinds:"+name, "type %s shouldn't exist", name)
							continue
						}
						for p, x := range map[string]bool{
							"IsScalar": w.Scalar(), "IsStruct": w.Struct(), "IsList": w.Kind == "list", "IsMap": w.Kind == "map",
							"IsClass": w.Kind == "class", "IsEnum": w.Kind == "enum", "IsInterface": w.Kind == "interface",
							"IsBoolean": name == "boolean", "IsInteger": name == "integer", "IsLong": name == "long", "IsFloat": name == "float",
							"IsString": name == "string", "IsDate": name == "date",
						} {
							if got := v.Bool(v.Call(t, p)); got != x {
								c.Violation("kinds:"+p+":"+name, "Type.%s is %v for type %s, which is %s", p, got, name, w.Kind)
							}
						}
					}
				}
			}
			if n != len(want) {
				c.Violation("kinds:number", "there are %d types but %d were expected", n, len(want))
			}
		})
		if err != nil {
			c.Undecided("kinds: %v", err)
		}
	}
}

func (c *Ctx) categories() {
	for _, n := range sampleMethods {
		n := n
		c.Oblige(1)
		c.query("category of "+n, func(v *mm.View, bad func(key, format string, args ...interface{})) {
			m := v.FuncOf("pkg/concepts", "NewMethod")
			v.Call(m, "SetName", v.FuncOf("pkg/names", "ParseUsingCase", engine.C(n)).V)
			want := category(n)
			for cat, p := range categoryPredicates {
				if got := v.Bool(v.Call(m, p)); got != (cat == want) {
					bad("category:"+p+":"+n, "Method.%s is %v for method %s, which belongs to category %s", p, got, n, want)
				}
			}
		})
	}
}

// param1 describes a parameter for the binding.
type bindParam struct {
	name, typ string
	in, out   bool
}

// binding checks the binding calculator, for all the methods and kinds and directions of parameters.
func (c *Ctx) binding() {
	types := []string{"Boolean", "Integer", "Long", "Float", "String", "Date", "Interface", "Enumm", "Clase", "Strukt", "ClaseList", "StringList", "StringClaseMap", "StringIntegerMap"}
	scalar := map[string]bool{"Boolean": true, "Integer": true, "Long": true, "Float": true, "String": true, "Date": true, "Interface": true, "Enumm": true}
	text := strings.Replace(kindsText, "  d [String][]String\n", "", 1)
	// All the parameters together, only those of one direction, and none:
	const variants = 6
	c.Parallel(len(sampleMethods)*variants, func(i int) {
		name := sampleMethods[i/variants]
		variant := i % variants
		c.Oblige(1 + 4*len(types))
		rs, it, err := c.S().Read(mm.Input{Files: files("svc/v1/a.model", rootText+text)})
		c.Note(it)
		if err != nil || len(rs) != 1 || rs[0].Failed || rs[0].Crash != "" {
			c.Undecided("can't prepare the model: %v", err)
			return
		}
		v := rs[0].View
		var found []violation
		bad := func(key, format string, args ...interface{}) {
			found = append(found, violation{key, fmt.Sprintf(format, args...)})
		}
		err = engine.Protect(func() {
			rep := v.Call(v.FuncOf("pkg/reporter", "New"), "Build").Item(0)
			b := v.Call(v.Call(v.FuncOf("pkg/http", "NewBindingCalculator"), "Reporter", rep.V), "Build").Item(0)
			ver := v.List(v.Call(v.List(v.Call(rs[0].Model, "Services"))[0], "Versions"))[0]
			parse := func(t string) engine.Value { return v.FuncOf("pkg/names", "ParseUsingCase", engine.C(t)).V }
			m := v.FuncOf("pkg/concepts", "NewMethod")
			v.Call(m, "SetName", parse(name))
			var ps []bindParam
			for _, t := range types {
				for d := 0; d < 4; d++ {
					if variant > 0 && d != variant && !(variant == 4 && d == 3 && t == "Clase") {
						continue
					}
					p := v.FuncOf("pkg/concepts", "NewParameter")
					bp := bindParam{fmt.Sprintf("Param%c%s", 'A'+d, t), t, d&1 != 0, d&2 != 0}
					v.Call(p, "SetName", parse(bp.name))
					v.Call(p, "SetType", v.Call(ver, "FindType", parse(t)).V)
					v.Call(p, "SetIn", bp.in)
					v.Call(p, "SetOut", bp.out)
					v.Call(m, "AddParameter", p.V)
					ps = append(ps, bp)
				}
			}
			cat := category(name)
			action := cat == "action"
			for f, sel := range map[string]func(p bindParam) bool{
				"RequestParameters":      func(p bindParam) bool { return p.in },
				"RequestQueryParameters": func(p bindParam) bool { return p.in && !action && scalar[p.typ] },
				"RequestBodyParameters":  func(p bindParam) bool { return p.in && (action || !scalar[p.typ]) },
				"ResponseParameters":     func(p bindParam) bool { return p.out },
				"ResponseBodyParameters": func(p bindParam) bool { return p.out },
			} {
				got := map[string]int{}
				for _, p := range v.List(v.Call(b, f, m.V)) {
					got[v.NameOf(p)]++
				}
				for _, p := range ps {
					n := 0
					if sel(p) {
						n = 1
					}
					if x := got[spec.SplitCase(p.name).String()]; x != n {
						bad("binding:"+f+":"+cat, "BindingCalculator.%s of method %s returns %d times the parameter of type %s with in=%v and out=%v, but should return it %d times", f, name, x, p.typ, p.in, p.out, n)
					}
				}
			}
			if got := v.Text(v.Call(b, "Method", m.V)); got != httpMethod(cat) {
				bad("binding:Method:"+name, "BindingCalculator.Method of method %s is %s instead of %s", name, got, httpMethod(cat))
			}
			if got := v.Text(v.Call(b, "DefaultStatus", m.V)); got != httpStatus(cat) {
				bad("binding:DefaultStatus:"+name, "BindingCalculator.DefaultStatus of method %s is %s instead of %s", name, got, httpStatus(cat))
			}
			segment := ""
			if action {
				segment = spec.SplitCase(name).Snake()
			}
			if got := v.Text(v.Call(b, "MethodSegment", m.V)); got != segment {
				bad("binding:MethodSegment:"+name, "BindingCalculator.MethodSegment of method %s is '%s' instead of '%s'", name, got, segment)
			}
		})
		if err != nil {
			c.Undecided("binding of %s: %v", name, err)
			return
		}
		if len(found) > 0 && !c.imprecise(it, "binding of "+name) {
			for _, x := range found {
				c.Violation(x.key, "%s", x.text)
			}
		}
	})
}

// publishedBinding checks that the OpenAPI documents and the documentation follow the rules of the binding.
func (c *Ctx) publishedBinding() {
	for _, s := range c.generate("openapi", "docs", "golang") {
		s := s
		fail := func(key, format string, args ...interface{}) {
			c.Violation(key, "Shape '%s': %s\n%s", s.name, fmt.Sprintf(format, args...), showFiles(s.files))
		}
		s.versions(func(v *spec.Version) {
			if s.Docs != nil {
				for _, r := range v.Resources {
					text := "\n" + s.Docs[r.Name.Snake()+"_resource.md"]
					for _, m := range r.Methods {
						c.Oblige(1)
						i := strings.Index(text, "\n## "+m.Name.Camel()+" - ")
						if i < 0 {
							continue
						}
						got := strings.SplitN(text[i+1:], "\n", 2)[0]
						if want := "## " + m.Name.Camel() + " - " + httpMethod(m.Category()); strings.TrimSpace(got) != want {
							fail("docs:method:"+m.Category(), "The title of method '%s' in the documentation of resource '%s' is '%s' instead of '%s'", m.Name, r.Name, got, want)
						}
					}
				}
			}
			text, ok := s.document(v)
			if s.OpenAPI == nil || !ok {
				return
			}
			n, err := parseJSON(text)
			if err != nil {
				return
			}
			ops := operations(n)
			clash := s.clashes(v)
			for _, r := range s.routes() {
				if r.v != v {
					continue
				}
				for _, m := range r.r.Methods {
					p, h := methodPath(r, m)
					c.Oblige(1)
					if clash[h+" "+p] {
						continue
					}
					op := ops[h+" "+p]
					if op == nil {
						fail("openapi:method:"+m.Category(), "The OpenAPI specification doesn't contain operation '%s %s' for method '%s'", h, p, m.Name)
						continue
					}
					s.compareOperation(op, m, func(key, format string, args ...interface{}) {
						fail("openapi:"+key, "Operation '%s %s': %s", h, p, fmt.Sprintf(format, args...))
					})
				}
			}
		})
	}
}

// httpMethod returns the HTTP method of a category of methods.
func httpMethod(cat string) string {
	switch cat {
	case "get", "list":
		return "GET"
	case "delete", "asyncdelete":
		return "DELETE"
	case "update", "asyncupdate":
		return "PATCH"
	}
	return "POST"
}

// httpStatus returns the default HTTP status of a category of methods.
func httpStatus(cat string) string {
	switch cat {
	case "add", "post":
		return "201"
	case "delete":
		return "204"
	case "asyncdelete", "asyncupdate":
		return "202"
	}
	return "200"
}

func init() {
	register("P08", func(c *Ctx) {
		c.Rule("for every type of a version that contains all the kinds, and for reserved names of methods and names similar to them, exactly the predicate of the kind or category is true; and the abstract interpretation of the generators finishes without reported errors for models that contain all the kinds of attributes and parameters and all the categories of methods")
		c.kinds()
		c.categories()
		for _, s := range c.generate("golang", "openapi", "docs") {
			for cmd, out := range map[string]map[string]string{"golang": s.Go, "openapi": s.OpenAPI, "docs": s.Docs} {
				c.Oblige(1)
				c.Count("files generated by "+cmd, len(out))
			}
			for _, p := range s.problems {
				c.Violation("generation:"+s.name+":"+strings.SplitN(p, ":", 2)[0], "Shape '%s': %s\n%s", s.name, p, showFiles(s.files))
			}
		}
	})
	register("P09", func(c *Ctx) {
		c.Rule("for every name of method (reserved and others) with parameters of all the types and directions the abstract result of the functions of the binding calculator must be the published rule; and the requests of the residual Go code, the OpenAPI documents and the documentation must follow the same rule")
		c.binding()
		c.publishedBinding()
		c.clientRequests(true)
		c.clientResponses(true)
	})
}
