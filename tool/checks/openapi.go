package checks

import (
	"encoding/json"
	"fmt"
	"io"
	"regexp"
	"sort"
	"strings"

	"verif/tool/engine"
	"verif/tool/spec"
)

// This file contains the analysis of the OpenAPI documents that result of the abstract interpretation
// of the generator.

// jnode is a node of a JSON document. The members of objects are preserved in order, including the
// repeated ones.
type jnode struct {
	kind  string // object, array, string, number, bool or null
	text  string
	names []string
	items []*jnode
}

func parseJSON(text string) (*jnode, error) {
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	var value func() (*jnode, error)
	value = func() (*jnode, error) {
		t, err := d.Token()
		if err != nil {
			return nil, err
		}
		switch x := t.(type) {
		case json.Delim:
			n := &jnode{kind: "array"}
			if x == '{' {
				n.kind = "object"
			} else if x != '[' {
				return nil, fmt.Errorf("unexpected %s", x)
			}
			for d.More() {
				if n.kind == "object" {
					k, err := d.Token()
					if err != nil {
						return nil, err
					}
					s, ok := k.(string)
					if !ok {
						return nil, fmt.Errorf("unexpected name %v", k)
					}
					n.names = append(n.names, s)
				}
				v, err := value()
				if err != nil {
					return nil, err
				}
				n.items = append(n.items, v)
			}
			_, err := d.Token()
			return n, err
		case string:
			return &jnode{kind: "string", text: x}, nil
		case json.Number:
			return &jnode{kind: "number", text: x.String()}, nil
		case bool:
			return &jnode{kind: "bool", text: fmt.Sprint(x)}, nil
		}
		return &jnode{kind: "null"}, nil
	}
	n, err := value()
	if err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("there is something after the end of the document")
	}
	return n, nil
}

// get returns a member, or nil.
func (n *jnode) get(path ...string) *jnode {
	for _, p := range path {
		if n == nil || n.kind != "object" {
			return nil
		}
		var r *jnode
		for i, x := range n.names {
			if x == p {
				r = n.items[i]
			}
		}
		n = r
	}
	return n
}

func (n *jnode) str(path ...string) string {
	if x := n.get(path...); x != nil && x.kind == "string" {
		return x.text
	}
	return ""
}

func (n *jnode) String() string {
	if n == nil {
		return "nothing"
	}
	var l []string
	switch n.kind {
	case "object":
		for i, x := range n.names {
			l = append(l, fmt.Sprintf("%q:%s", x, n.items[i]))
		}
		return "{" + strings.Join(l, ",") + "}"
	case "array":
		for _, x := range n.items {
			l = append(l, x.String())
		}
		return "[" + strings.Join(l, ",") + "]"
	case "string":
		return fmt.Sprintf("%q", n.text)
	case "null":
		return "null"
	}
	return n.text
}

// walk visits all the nodes.
func (n *jnode) walk(path string, f func(path string, n *jnode)) {
	f(path, n)
	for i, x := range n.items {
		if n.kind == "object" {
			x.walk(path+"/"+n.names[i], f)
		} else {
			x.walk(fmt.Sprintf("%s/%d", path, i), f)
		}
	}
}

var httpMethods = map[string]bool{"get": true, "put": true, "post": true, "delete": true, "options": true, "head": true, "patch": true, "trace": true}

var templateParam = regexp.MustCompile(`\{([^{}]*)\}`)

// document returns the OpenAPI document of a version.
func (s *shape) document(v *spec.Version) (string, bool) {
	t, ok := s.OpenAPI[v.Service.Name.Snake()+"/"+v.Name.Snake()+"/openapi.json"]
	return t, ok
}

func (s *shape) versions(f func(v *spec.Version)) {
	for _, sv := range s.Spec.Services {
		for _, v := range sv.Versions {
			f(v)
		}
	}
}

// reports the problems of generation.
func (c *Ctx) generationProblems(s *shape, cmd string) {
	for _, p := range s.problems {
		if strings.HasPrefix(p, cmd+":") {
			c.Violation("generation:"+s.name, "Shape '%s': %s\n%s", s.name, p, showFiles(s.files))
		}
	}
}

// checkDocument checks that a specification is correct and self contained.
func checkDocument(n *jnode, clash map[string]bool, oblige func(int), fail func(key, format string, args ...interface{})) {
	schemas := n.get("components", "schemas")
	n.walk("", func(path string, x *jnode) {
		if x.kind != "object" {
			return
		}
		oblige(1)
		seen := map[string]bool{}
		for i, k := range x.names {
			if seen[k] && !clash[k+" "+templateParam.ReplaceAllString(strings.TrimPrefix(path, "/paths/"), "{}")] {
				fail("repeated:"+normalPath(path), "Object '%s' has more than one '%s'", path, k)
			}
			seen[k] = true
			if k == "$ref" && x.items[i].kind == "string" {
				oblige(1)
				ref := x.items[i].text
				name := strings.TrimPrefix(ref, "#/components/schemas/")
				if name == ref || schemas.get(name) == nil {
					fail("reference", "Object '%s' contains a reference to '%s', which doesn't exist", path, ref)
				}
			}
		}
	})
	paths := n.get("paths")
	if paths == nil || paths.kind != "object" {
		fail("paths", "There are no paths")
		return
	}
	for i, p := range paths.names {
		var vars []string
		for _, m := range templateParam.FindAllStringSubmatch(p, -1) {
			vars = append(vars, m[1])
		}
		item := paths.items[i]
		if item.kind != "object" || len(item.names) == 0 {
			fail("path:empty", "Path '%s' doesn't have operations", p)
			continue
		}
		for j, method := range item.names {
			if !httpMethods[method] {
				fail("path:method", "Path '%s' has an operation '%s'", p, method)
				continue
			}
			op := item.items[j]
			oblige(1 + len(vars))
			declared := map[string]int{}
			if ps := op.get("parameters"); ps != nil {
				seen := map[string]bool{}
				for _, x := range ps.items {
					in, name := x.str("in"), x.str("name")
					if in == "path" {
						declared[name]++
						if r := x.get("required"); r == nil || r.text != "true" {
							fail("path:required", "Parameter '%s' of '%s %s' isn't required", name, method, p)
						}
						continue
					}
					if seen[in+":"+name] {
						fail("parameter:repeated", "Parameter '%s' of '%s %s' is declared more than once", name, method, p)
					}
					seen[in+":"+name] = true
					if in != "query" || name == "" || x.get("schema") == nil {
						fail("parameter", "Parameter %s of '%s %s' is incorrect", x, method, p)
					}
				}
			}
			for _, x := range vars {
				if declared[x] == 0 {
					fail("path:undeclared", "Path parameter '%s' of '%s %s' isn't declared", x, method, p)
				}
			}
			for x := range declared {
				ok := false
				for _, y := range vars {
					ok = ok || x == y
				}
				if !ok {
					fail("path:unknown", "Operation '%s %s' declares path parameter '%s', which isn't in the path", method, p, x)
				}
			}
			rs := op.get("responses")
			if rs == nil || rs.kind != "object" || len(rs.names) == 0 {
				fail("responses", "Operation '%s %s' doesn't have responses", method, p)
			}
		}
	}
}

// normalPath removes from a path of a document what depends on the model.
func normalPath(p string) string {
	l := strings.Split(p, "/")
	if len(l) > 2 {
		l = l[:2]
	}
	return strings.Join(l, "/")
}

// embedded finds the specification embedded in the generated Go code.
func embedded(text string) (string, bool) {
	i := strings.Index(text, "var OpenAPI = []byte{")
	if i < 0 {
		return "", false
	}
	text = text[i+len("var OpenAPI = []byte{"):]
	j := strings.Index(text, "}")
	if j < 0 {
		return "", false
	}
	var r []byte
	for _, f := range strings.FieldsFunc(text[:j], func(c rune) bool { return c == ',' || c == ' ' || c == '\n' || c == '\t' }) {
		var b int
		if _, err := fmt.Sscanf(f, "0x%x", &b); err != nil {
			if _, err := fmt.Sscanf(f, "%d", &b); err != nil {
				return "", false
			}
		}
		r = append(r, byte(b))
	}
	return string(r), true
}

func init() {
	register("P18", func(c *Ctx) {
		c.Rule("the OpenAPI documents that result of the abstract interpretation of the generator for each model shape are parsed; no object may have repeated names, all the references should point to schemas of the same document, the parameters of templates of paths and those declared by operations should be the same, and all the operations should have responses; the document embedded in the Go code should be the same")
		for _, s := range c.generate("openapi", "golang") {
			s := s
			if s.OpenAPI == nil {
				c.generationProblems(s, "openapi")
				continue
			}
			s.versions(func(v *spec.Version) {
				id := fmt.Sprintf("%s/%s", v.Service.Name, v.Name)
				text, ok := s.document(v)
				c.Oblige(1)
				if !ok {
					c.Violation("missing", "Shape '%s': there is no specification for version '%s'", s.name, id)
					return
				}
				fail := func(key, format string, args ...interface{}) {
					c.Violation(key, "Shape '%s', specification of '%s': %s\nModel:\n%s\nSpecification:\n%s", s.name, id, fmt.Sprintf(format, args...), showFiles(s.files), clip(text, 20000))
				}
				n, err := parseJSON(text)
				if err != nil {
					fail("malformed", "It isn't correct JSON: %v", err)
					return
				}
				c.Count("documents analysed", 1)
				checkDocument(n, s.clashes(v), c.Oblige, fail)
				if s.Go == nil {
					return
				}
				for name, goText := range s.Go {
					if strings.HasSuffix(name, "/openapi.go") && strings.HasPrefix(name, goDir(v)+"/") {
						e, ok := embedded(goText)
						c.Oblige(1)
						if !ok {
							c.Undecided("the specification embedded in %s of shape %s isn't a list of bytes", name, s.name)
						} else if e != text {
							fail("embedded", "The specification embedded in '%s' is different", name)
						}
					}
				}
			})
		}
	})
}

// goDir is the directory of the Go package of a version.
func goDir(v *spec.Version) string {
	return strings.ReplaceAll(v.Service.Name.Snake(), "_", "") + "/" + strings.ReplaceAll(v.Name.Snake(), "_", "")
}

// schemaOf compares a schema with a type.
func (s *shape) schemaOf(n *jnode, t *spec.Type, link bool) string {
	if n == nil || n.kind != "object" {
		return fmt.Sprintf("there is no schema for type '%s'", t.Name)
	}
	want := func(typ, format string) string {
		if got := n.str("type"); got != typ {
			return fmt.Sprintf("type '%s' is described as '%s', should be '%s'", t.Name, got, typ)
		}
		if got := n.str("format"); format != "" && got != format {
			return fmt.Sprintf("format of type '%s' is described as '%s', should be '%s'", t.Name, got, format)
		}
		return ""
	}
	switch {
	case t.Kind == "list" && link:
		if m := want("object", ""); m != "" {
			return m
		}
		return s.schemaOf(n.get("properties", "items"), t, false)
	case t.Kind == "list":
		if m := want("array", ""); m != "" {
			return m
		}
		return s.schemaOf(n.get("items"), t.Element, false)
	case t.Kind == "map":
		if m := want("object", ""); m != "" {
			return m
		}
		return s.schemaOf(n.get("additionalProperties"), t.Element, false)
	case t.Kind == "enum" || t.Struct():
		if got, w := n.str("$ref"), "#/components/schemas/"+t.Name.Camel(); got != w {
			return fmt.Sprintf("type '%s' is described as '%s', should be '%s'", t.Name, n, w)
		}
		return ""
	}
	if n.get("$ref") != nil {
		return fmt.Sprintf("type '%s' is described as %s", t.Name, n)
	}
	switch t.Name.Snake() {
	case "boolean":
		return want("boolean", "")
	case "integer":
		if n.str("format") == "int64" {
			return "type 'integer' is described as a 64 bits integer"
		}
		return want("integer", "")
	case "long":
		if n.str("format") == "int32" {
			return "type 'long' is described as a 32 bits integer"
		}
		return want("integer", "")
	case "float":
		return want("number", "")
	case "string":
		return want("string", "")
	case "date":
		return want("string", "date-time")
	case "interface":
		return ""
	}
	return fmt.Sprintf("unknown type '%s'", t.Name)
}

// properties compares the properties of a schema with a list of names and types.
func (s *shape) propertiesOf(n *jnode, want map[string]*spec.Type, links map[string]bool) string {
	ps := n.get("properties")
	if ps == nil {
		ps = &jnode{kind: "object"}
	}
	for _, k := range ps.names {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("there is a property '%s'", k)
		}
	}
	var names []string
	for k := range want {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		x := ps.get(k)
		if x == nil {
			return fmt.Sprintf("there is no property '%s', only %s", k, strings.Join(ps.names, ", "))
		}
		if want[k] == nil {
			if x.str("type") != "string" {
				return fmt.Sprintf("property '%s' is described as %s", k, x)
			}
			continue
		}
		if m := s.schemaOf(x, want[k], links[k]); m != "" {
			return fmt.Sprintf("property '%s': %s", k, m)
		}
	}
	return ""
}

// apiPath calculates the path of a route, replacing the names of parameters.
func apiPath(r route) string {
	p := "/api/" + pathSegment(&r.v.Service.Base) + "/" + pathSegment(&r.v.Base)
	for _, l := range r.steps {
		if l.Variable {
			p += "/{}"
		} else {
			p += "/" + pathSegment(&l.Base)
		}
	}
	return p
}

// methodPath calculates the path and HTTP method of a method.
func methodPath(r route, m *spec.Method) (string, string) {
	p := apiPath(r)
	if m.Category() == "action" {
		p += "/" + pathSegment(&m.Base)
	}
	return p, strings.ToLower(httpMethod(m.Category()))
}

// clashes finds the operations that correspond to more than one method of the model. What happens with them
// isn't specified.
func (s *shape) clashes(v *spec.Version) map[string]bool {
	count := map[string]int{}
	for _, r := range s.routes() {
		if r.v == v {
			for _, m := range r.r.Methods {
				p, h := methodPath(r, m)
				count[h+" "+p]++
			}
		}
	}
	c := map[string]bool{}
	for k, n := range count {
		if n > 1 {
			c[k] = true
		}
	}
	return c
}

// operations returns the operations of the document, indexed by method and path.
func operations(n *jnode) map[string]*jnode {
	r := map[string]*jnode{}
	ps := n.get("paths")
	if ps == nil {
		return r
	}
	for i, p := range ps.names {
		for j, m := range ps.items[i].names {
			r[m+" "+templateParam.ReplaceAllString(p, "{}")] = ps.items[i].items[j]
		}
	}
	return r
}

const jsonContent = "application/json"

// outSpecified tells if the result of a method is specified: scalar outputs of methods whose response
// is only the body aren't.
func outSpecified(m *spec.Method) bool {
	b := bodyParam(m, false)
	return b == nil || len(outputs(m)) == 1
}

// compareOperation compares the description of a method with the model.
func (s *shape) compareOperation(op *jnode, m *spec.Method, fail func(key, format string, args ...interface{})) {
	cat := m.Category()
	// Query:
	got := map[string]*jnode{}
	if ps := op.get("parameters"); ps != nil {
		for _, p := range ps.items {
			if p.str("in") == "query" {
				got[p.str("name")] = p
			}
		}
	}
	body := map[string]*spec.Type{}
	for _, p := range inputs(m) {
		if !inQuery(p) {
			body[jsonName(&p.Base)] = p.Type
			continue
		}
		name := queryName(&p.Base)
		x, ok := got[name]
		if !ok {
			fail(cat+":query", "Query parameter '%s' isn't described", name)
			continue
		}
		if e := s.schemaOf(x.get("schema"), p.Type, false); e != "" {
			fail(cat+":query", "Query parameter '%s' isn't correctly described: %s", name, e)
		}
		delete(got, name)
	}
	for name := range got {
		fail(cat+":query", "Query parameter '%s' isn't sent by the client", name)
	}
	// Body:
	rb := op.get("requestBody")
	schema := rb.get("content", jsonContent, "schema")
	p := bodyParam(m, true)
	switch {
	case len(body) == 0:
		if rb != nil {
			fail(cat+":request", "A request body is described but the client doesn't send it")
		}
	case schema == nil:
		fail(cat+":request", "The request body isn't described")
	case p != nil:
		if e := s.schemaOf(schema, p.Type, false); e != "" {
			fail(cat+":request", "The request body isn't correctly described: %s", e)
		}
	default:
		if e := s.propertiesOf(schema, body, nil); e != "" {
			fail(cat+":request", "The request body isn't correctly described: %s", e)
		}
	}
	// Response:
	if !outSpecified(m) {
		return
	}
	var rs *jnode
	if l := op.get("responses"); l != nil {
		rs = l.get(httpStatus(cat))
		for _, k := range l.names {
			if k != "default" && k != httpStatus(cat) && strings.HasPrefix(k, "2") {
				fail(cat+":status", "The status of the successful response is described as %s, should be %s", k, httpStatus(cat))
			}
		}
	}
	schema = rs.get("content", jsonContent, "schema")
	outs := map[string]*spec.Type{}
	for _, p := range outputs(m) {
		outs[jsonName(&p.Base)] = p.Type
	}
	p = bodyParam(m, false)
	switch {
	case rs == nil:
		fail(cat+":response", "The successful response isn't described")
	case len(outs) == 0:
		if schema != nil {
			fail(cat+":response", "A response body is described but the client doesn't read it")
		}
	case schema == nil:
		fail(cat+":response", "The response body isn't described")
	case p != nil:
		if e := s.schemaOf(schema, p.Type, false); e != "" {
			fail(cat+":response", "The response body isn't correctly described: %s", e)
		}
	default:
		if e := s.propertiesOf(schema, outs, nil); e != "" {
			fail(cat+":response", "The response body isn't correctly described: %s", e)
		}
	}
}

// compareTypes compares the schemas with the types of the version.
func (s *shape) compareTypes(n *jnode, v *spec.Version, oblige func(int), fail func(key, format string, args ...interface{})) {
	schemas := n.get("components", "schemas")
	for _, t := range v.Types {
		x := schemas.get(t.Name.Camel())
		switch {
		case t.Kind == "enum":
			oblige(1 + len(t.Values))
			if x == nil {
				fail("type:missing", "Type '%s' isn't described", t.Name)
				continue
			}
			var got, want []string
			if e := x.get("enum"); e != nil {
				for _, i := range e.items {
					got = append(got, i.text)
				}
			}
			for _, y := range t.Values {
				want = append(want, jsonName(&y.Base))
			}
			sort.Strings(got)
			sort.Strings(want)
			if a, b := strings.Join(got, ", "), strings.Join(want, ", "); a != b || x.str("type") != "string" {
				fail("enum", "Enumerated type '%s' is described with values %s, should be %s", t.Name, a, b)
			}
		case t.Struct():
			if x == nil {
				fail("type:missing", "Type '%s' isn't described", t.Name)
				continue
			}
			r := s.resolve(t)
			oblige(1 + len(r.Attrs))
			want := map[string]*spec.Type{}
			links := map[string]bool{}
			if t.Kind == "class" {
				want["kind"], want["id"], want["href"] = nil, nil, nil
			}
			for _, a := range r.Attrs {
				want[jsonName(&a.Base)] = a.Type
				links[jsonName(&a.Base)] = a.Link
			}
			if e := s.propertiesOf(x, want, links); e != "" {
				fail("struct", "Type '%s' isn't correctly described: %s", t.Name, e)
			}
		}
	}
}

func init() {
	register("P19", func(c *Ctx) {
		c.Rule("the OpenAPI documents and the Go clients that result of the abstract interpretation of the generators are both compared with the binding calculated from the model: paths, HTTP methods, names and types of query parameters, body fields, response fields, properties of types and texts of enumerated values")
		for _, s := range c.generate("openapi", "golang") {
			s := s
			if s.OpenAPI == nil {
				c.generationProblems(s, "openapi")
				continue
			}
			docs := map[*spec.Version]*jnode{}
			ops := map[*spec.Version]map[string]*jnode{}
			failer := func(v *spec.Version) func(key, format string, args ...interface{}) {
				return func(key, format string, args ...interface{}) {
					text, _ := s.document(v)
					c.Violation("spec:"+key, "Shape '%s', specification of '%s/%s': %s\nModel:\n%s\nSpecification:\n%s", s.name, v.Service.Name, v.Name, fmt.Sprintf(format, args...), showFiles(s.files), clip(text, 20000))
				}
			}
			s.versions(func(v *spec.Version) {
				text, ok := s.document(v)
				if !ok {
					failer(v)("missing", "It doesn't exist")
					return
				}
				n, err := parseJSON(text)
				if err != nil {
					failer(v)("malformed", "It isn't correct: %v", err)
					return
				}
				docs[v] = n
				ops[v] = operations(n)
				// The path of the metadata:
				c.Count("documents analysed", 1)
				s.compareTypes(n, v, c.Oblige, failer(v))
			})
			used := map[*spec.Version]map[string]bool{}
			for _, r := range s.routes() {
				if docs[r.v] == nil {
					continue
				}
				if used[r.v] == nil {
					used[r.v] = map[string]bool{"get " + apiPath(route{v: r.v}): true}
				}
				for _, m := range r.r.Methods {
					c.Oblige(1)
					p, h := methodPath(r, m)
					used[r.v][h+" "+p] = true
					if s.clashes(r.v)[h+" "+p] {
						continue
					}
					op := ops[r.v][h+" "+p]
					if op == nil {
						failer(r.v)(m.Category()+":missing", "Method '%s' isn't described under '%s %s'", m.Name, h, p)
						continue
					}
					c.Oblige(len(m.Params))
					c.Count("operations compared", 1)
					s.compareOperation(op, m, func(key, format string, args ...interface{}) {
						failer(r.v)(key, "Operation '%s %s': %s", h, p, fmt.Sprintf(format, args...))
					})
				}
			}
			for v, l := range ops {
				for k := range l {
					if !used[v][k] {
						failer(v)("unknown", "Operation '%s' doesn't correspond to any method", k)
					}
				}
			}
		}
		c.clientRequests(true)
		c.clientResponses(true)
		c.jsonSupport(true)
	})
}

var _ = engine.Show
