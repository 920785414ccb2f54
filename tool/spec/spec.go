// Package spec is the specification of the meaning of models.
package spec

import (
	"fmt"
	"path"
	"sort"
	"strconv"
	"strings"

	"verif/tool/mm"
)

// This file contains the specification of the meaning of a model: what a set of source files
// declares, written independently of the implementation.

// Name is a name, as a list of words.
type Name struct {
	Text  string
	Words []string
}

// String joins the words.
func (n Name) String() string { return strings.Join(n.Words, "_") }

// Snake returns the name in snake case.
func (n Name) Snake() string { return strings.ToLower(n.String()) }

// Camel returns the name in camel case.
func (n Name) Camel() string {
	var sb strings.Builder
	for _, w := range n.Words {
		sb.WriteString(strings.ToUpper(w[:1]) + w[1:])
	}
	return sb.String()
}

// Less compares names word by word.
func (n Name) Less(o Name) bool {
	for i := 0; i < len(n.Words) && i < len(o.Words); i++ {
		if n.Words[i] != o.Words[i] {
			return n.Words[i] < o.Words[i]
		}
	}
	return len(n.Words) < len(o.Words)
}

// SplitCase splits a name that uses case transitions to separate words. Words in upper case with
// two or more letters, optionally followed by a plural, are initialisms and preserve the case.
func SplitCase(text string) Name {
	n := Name{Text: text}
	up := func(c byte) bool { return c >= 'A' && c <= 'Z' }
	i := 0
	for i < len(text) {
		j := i
		for j < len(text) && up(text[j]) {
			j++
		}
		upper := j - i
		k := j
		for k < len(text) && !up(text[k]) {
			k++
		}
		switch {
		case upper >= 2 && text[j:k] == "s": // CPUs
			n.Words = append(n.Words, text[i:k])
		case upper >= 2 && j == k: // CPU
			n.Words = append(n.Words, text[i:j])
		case upper >= 2: // CPUList
			n.Words = append(n.Words, text[i:j-1], strings.ToLower(text[j-1:k]))
		default:
			n.Words = append(n.Words, strings.ToLower(text[i:k]))
		}
		i = k
	}
	return n
}

// SplitSeparator splits a name that uses underscores.
func SplitSeparator(text string) Name {
	return Name{Text: text, Words: strings.Split(text, "_")}
}

// Annotation is an annotation.
type Annotation struct {
	Name   string
	Params map[string]interface{}
}

// Base contains what is common to all the concepts.
type Base struct {
	Name Name
	Doc  string
	Ann  []Annotation
}

// Param returns the parameter of an annotation, if it is a string.
func (b *Base) Param(ann, name string) string {
	for _, a := range b.Ann {
		if a.Name == ann {
			s, _ := a.Params[name].(string)
			return s
		}
	}
	return ""
}

// Model is the specification of a model.
type Model struct {
	Services []*Service
	// Problems are the reasons to reject the model.
	Problems []string
}

// Service is a service.
type Service struct {
	Base
	Versions []*Version
}

// Version is a version of a service.
type Version struct {
	Base
	Service   *Service
	Types     []*Type
	Resources []*Resource
	Errors    []*Error
}

// Type is a type.
type Type struct {
	Base
	Version        *Version
	Kind           string
	Attrs          []*Attr
	Values         []*Value
	Element, Index *Type
	defined        bool
}

// Scalar returns true for the types that are considered scalars.
func (t *Type) Scalar() bool { return t.Kind == "scalar" || t.Kind == "enum" || t.Kind == "interface" }

// Struct returns true for structured types.
func (t *Type) Struct() bool { return t.Kind == "struct" || t.Kind == "class" }

// Attr is an attribute.
type Attr struct {
	Base
	Type *Type
	Link bool
	Of   *Type
}

// Value is an enumerated value.
type Value struct {
	Base
}

// Resource is a resource.
type Resource struct {
	Base
	Version  *Version
	Methods  []*Method
	Locators []*Locator
	defined  bool
}

// Method is a method.
type Method struct {
	Base
	Resource *Resource
	Params   []*Param
}

// Category returns the category of the method.
func (m *Method) Category() string {
	switch c := strings.ReplaceAll(m.Name.String(), "_", ""); c {
	case "add", "delete", "asyncdelete", "get", "list", "post", "search", "update", "asyncupdate":
		return c
	}
	return "action"
}

// Param is a parameter.
type Param struct {
	Base
	Type    *Type
	In, Out bool
	Default interface{}
	Method  *Method
}

// Locator is a locator.
type Locator struct {
	Base
	Variable bool
	Target   *Resource
	Resource *Resource
}

// Error is an error category.
type Error struct {
	Base
	Code int
}

var builtinTypes = []string{"Boolean", "Integer", "Long", "Float", "String", "Date", "Interface"}

// Of calculates the meaning of a set of model files, ignoring references to other services.
func Of(files map[string]string) *Model {
	m := &Model{}
	var paths []string
	for p := range files {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		c := strings.Split(path.Clean(p), "/")
		if len(c) != 3 {
			continue
		}
		s := m.service(SplitSeparator(c[0]))
		v := s.version(SplitSeparator(c[1]))
		r := mm.Parse(files[p])
		if len(r.Errors) > 0 || r.Next.Kind != "EOF" {
			m.Problems = append(m.Problems, p+" has syntax errors")
			continue
		}
		b := &specBuilder{m: m, v: v, comments: map[int]string{}}
		for _, c := range r.Comments {
			b.comments[c.Line] = c.Text
		}
		b.file(r.Tree)
	}
	for _, s := range m.Services {
		for _, v := range s.Versions {
			for _, t := range v.Types {
				if !t.defined {
					m.Problems = append(m.Problems, "type "+t.Name.String()+" isn't defined in "+s.Name.String()+"/"+v.Name.String())
				}
			}
			for _, t := range append([]*Type(nil), v.Types...) {
				if t.Kind != "list" {
					v.list(t)
				}
			}
			root := false
			for _, r := range v.Resources {
				if !r.defined {
					m.Problems = append(m.Problems, "resource "+r.Name.String()+" isn't defined in "+s.Name.String()+"/"+v.Name.String())
				}
				root = root || r.Name.String() == "root"
			}
			if !root {
				m.Problems = append(m.Problems, "no root in "+s.Name.String()+"/"+v.Name.String())
			}
			v.sort()
		}
		sort.SliceStable(s.Versions, func(i, j int) bool { return s.Versions[i].Name.Less(s.Versions[j].Name) })
	}
	sort.SliceStable(m.Services, func(i, j int) bool { return m.Services[i].Name.Less(m.Services[j].Name) })
	return m
}

func (m *Model) service(n Name) *Service {
	for _, s := range m.Services {
		if s.Name.String() == n.String() {
			return s
		}
	}
	s := &Service{Base: Base{Name: n}}
	m.Services = append(m.Services, s)
	return s
}

func (s *Service) version(n Name) *Version {
	for _, v := range s.Versions {
		if v.Name.String() == n.String() {
			return v
		}
	}
	v := &Version{Base: Base{Name: n}, Service: s}
	s.Versions = append(s.Versions, v)
	for _, b := range builtinTypes {
		t := v.typ(SplitCase(b))
		t.Kind = "scalar"
		if b == "Interface" {
			t.Kind = "interface"
		}
		t.defined = true
		v.list(t)
	}
	return v
}

func (v *Version) typ(n Name) *Type {
	for _, t := range v.Types {
		if t.Name.String() == n.String() {
			return t
		}
	}
	t := &Type{Base: Base{Name: n}, Version: v, Kind: "undefined"}
	v.Types = append(v.Types, t)
	return t
}

// Type returns the type with the given name.
func (v *Version) Type(name string) *Type {
	for _, t := range v.Types {
		if t.Name.String() == SplitCase(name).String() {
			return t
		}
	}
	return nil
}

func cat(names ...Name) (r Name) {
	for _, n := range names {
		r.Words = append(r.Words, n.Words...)
	}
	return
}

func (v *Version) list(e *Type) *Type {
	t := v.typ(cat(e.Name, SplitCase("List")))
	if t.Kind == "undefined" {
		t.Kind, t.Element, t.defined = "list", e, true
	}
	return t
}

func (v *Version) mapOf(i, e *Type) *Type {
	t := v.typ(cat(i.Name, e.Name, SplitCase("Map")))
	if t.Kind == "undefined" {
		t.Kind, t.Index, t.Element, t.defined = "map", i, e, true
	}
	return t
}

func (v *Version) resource(n Name) *Resource {
	for _, r := range v.Resources {
		if r.Name.String() == n.String() {
			return r
		}
	}
	r := &Resource{Base: Base{Name: n}, Version: v}
	v.Resources = append(v.Resources, r)
	return r
}

func (v *Version) sort() {
	sort.SliceStable(v.Types, func(i, j int) bool { return v.Types[i].Name.Less(v.Types[j].Name) })
	sort.SliceStable(v.Resources, func(i, j int) bool { return v.Resources[i].Name.Less(v.Resources[j].Name) })
	sort.SliceStable(v.Errors, func(i, j int) bool { return v.Errors[i].Name.Less(v.Errors[j].Name) })
	for _, t := range v.Types {
		sort.SliceStable(t.Attrs, func(i, j int) bool { return t.Attrs[i].Name.Less(t.Attrs[j].Name) })
		sort.SliceStable(t.Values, func(i, j int) bool { return t.Values[i].Name.Less(t.Values[j].Name) })
	}
	for _, r := range v.Resources {
		sort.SliceStable(r.Methods, func(i, j int) bool { return r.Methods[i].Name.Less(r.Methods[j].Name) })
		sort.SliceStable(r.Locators, func(i, j int) bool { return r.Locators[i].Name.Less(r.Locators[j].Name) })
		for _, m := range r.Methods {
			sort.SliceStable(m.Params, func(i, j int) bool { return m.Params[i].Name.Less(m.Params[j].Name) })
		}
	}
}

type specBuilder struct {
	m        *Model
	v        *Version
	comments map[int]string
}

func (b *specBuilder) problem(format string, args ...interface{}) {
	b.m.Problems = append(b.m.Problems, fmt.Sprintf(format, args...))
}

func child(n *mm.Node, rule string) *mm.Node {
	for _, c := range n.Children {
		if x, ok := c.(*mm.Node); ok && x.Rule == rule {
			return x
		}
	}
	return nil
}

func nodeName(n *mm.Node, label string) Name {
	return SplitCase(n.Labels[label].(*mm.Node).Labels["id"].(*mm.Tok).Text)
}

// doc takes the comment that is right before a declaration. Members take them before the declaration
// that contains them.
func (b *specBuilder) doc(n *mm.Node) string {
	var lines []string
	for i := n.Start.Line - 1; ; i-- {
		c, ok := b.comments[i]
		if !ok {
			break
		}
		delete(b.comments, i)
		lines = append([]string{c[2:]}, lines...)
	}
	if len(lines) == 0 {
		return ""
	}
	prefix := lines[0][:len(lines[0])-len(strings.TrimLeft(lines[0], " \t"))]
	for i, l := range lines {
		if l == "" {
			continue
		}
		if !strings.HasPrefix(l, prefix) {
			b.problem("documentation with different prefix")
			return ""
		}
		lines[i] = l[len(prefix):]
	}
	return strings.Join(lines, "\n")
}

func (b *specBuilder) base(n *mm.Node) Base {
	r := Base{Name: nodeName(n, "name"), Doc: b.doc(n)}
	for _, a := range n.Lists["annotations"] {
		x := Annotation{Name: a.Labels["name"].(*mm.Node).Labels["id"].(*mm.Tok).Text, Params: map[string]interface{}{}}
		if p, ok := a.Labels["parameters"].(*mm.Node); ok {
			for _, q := range p.Lists["parameters"] {
				x.Params[child(q, "identifier").Labels["id"].(*mm.Tok).Text] = b.literal(child(q, "literal"))
			}
		}
		r.Ann = append(r.Ann, x)
	}
	return r
}

func (b *specBuilder) literal(n *mm.Node) interface{} {
	if n == nil {
		return nil
	}
	l := n.Children[0].(*mm.Node)
	t := l.Children[0].(*mm.Tok).Text
	switch l.Rule {
	case "booleanLiteral":
		return t == "true"
	case "integerLiteral":
		i, err := strconv.ParseInt(t, 10, 64)
		if err != nil {
			b.problem("incorrect integer %s", t)
		}
		return int(i)
	}
	s, err := strconv.Unquote(t)
	if err != nil {
		b.problem("incorrect string %s", t)
	}
	return s
}

func (b *specBuilder) ref(n *mm.Node) *Type {
	n = n.Labels["reference"].(*mm.Node)
	if p, ok := n.Labels["plain"].(*mm.Node); ok {
		return b.v.typ(nodeName(p, "name"))
	}
	if p, ok := n.Labels["list"].(*mm.Node); ok {
		return b.v.list(b.v.typ(nodeName(p, "element")))
	}
	p := n.Labels["mp"].(*mm.Node)
	return b.v.mapOf(b.v.typ(nodeName(p, "index")), b.v.typ(nodeName(p, "element")))
}

func (b *specBuilder) file(n *mm.Node) {
	for _, c := range n.Children {
		d := c.(*mm.Node)
		d = d.Children[0].(*mm.Node)
		if d.Rule == "typeDecl" {
			d = d.Children[0].(*mm.Node)
		}
		b.decl(d)
	}
}

func (b *specBuilder) decl(d *mm.Node) {
	switch d.Rule {
	case "enumDecl", "classDecl", "structDecl":
		var attrs []*Attr
		var values []*Value
		for _, x := range d.Lists["members"] {
			if d.Rule == "enumDecl" {
				values = append(values, &Value{Base: b.base(x)})
				continue
			}
			a := &Attr{Type: b.ref(x), Base: b.base(x)}
			if k, ok := x.Labels["kind"].(*mm.Node); ok {
				a.Link = k.Children[0].(*mm.Tok).Text == "link"
			}
			attrs = append(attrs, a)
		}
		base := b.base(d)
		t := b.v.typ(base.Name)
		if t.defined {
			b.problem("type %s is defined twice", base.Name)
			return
		}
		t.Base, t.Attrs, t.Values, t.defined = base, attrs, values, true
		for _, a := range attrs {
			a.Of = t
		}
		t.Kind = strings.TrimSuffix(d.Rule, "Decl")
	case "errorDecl":
		e := &Error{}
		for _, x := range d.Lists["members"] {
			t := child(x, "errorCodeDecl").Labels["code"].(*mm.Tok).Text
			i, err := strconv.ParseInt(t, 10, 64)
			if err != nil {
				b.problem("incorrect code %s", t)
			}
			e.Code = int(i)
		}
		e.Base = b.base(d)
		for _, o := range b.v.Errors {
			if o.Name.String() == e.Name.String() {
				b.problem("error %s is defined twice", e.Name)
				return
			}
		}
		b.v.Errors = append(b.v.Errors, e)
	case "resourceDecl":
		var methods []*Method
		var locators []*Locator
		for _, x := range d.Lists["members"] {
			x = x.Children[0].(*mm.Node)
			if x.Rule == "methodDecl" {
				m := &Method{}
				for _, y := range x.Lists["members"] {
					y = y.Children[0].(*mm.Node)
					p := &Param{Type: b.ref(y), Method: m}
					l, _ := y.Labels["dflt"].(*mm.Node)
					p.Default = b.literal(l)
					for _, z := range y.Lists["directions"] {
						p.In = p.In || z.Labels["in"] != nil
						p.Out = p.Out || z.Labels["out"] != nil
					}
					p.Out = p.Out || !p.In
					p.Base = b.base(y)
					m.Params = append(m.Params, p)
				}
				m.Base = b.base(x)
				methods = append(methods, m)
				continue
			}
			l := &Locator{}
			for _, y := range x.Lists["members"] {
				y = y.Children[0].(*mm.Node)
				if y.Rule == "locatorTargetDecl" {
					l.Target = b.v.resource(nodeName(y.Labels["reference"].(*mm.Node), "name"))
				} else {
					l.Variable = true
				}
			}
			if l.Target == nil {
				b.problem("locator without target")
			}
			l.Base = b.base(x)
			locators = append(locators, l)
		}
		base := b.base(d)
		r := b.v.resource(base.Name)
		if r.defined {
			b.problem("resource %s is defined twice", base.Name)
			return
		}
		r.Base, r.Methods, r.Locators, r.defined = base, methods, locators, true
		for _, m := range methods {
			m.Resource = r
		}
		for _, l := range locators {
			l.Resource = r
		}
	}
}

func (b Base) dump() string {
	var l []string
	for _, a := range b.Ann {
		var p []string
		for k, v := range a.Params {
			p = append(p, fmt.Sprintf("%s=%T:%v", k, v, v))
		}
		sort.Strings(p)
		l = append(l, a.Name+"("+strings.Join(p, ",")+")")
	}
	return fmt.Sprintf("%s doc=%q annotations=%v", b.Name, b.Doc, l)
}

func tname(t *Type) string {
	if t == nil {
		return "-"
	}
	return t.Name.String()
}

// Dump returns a textual representation of the model, one line per fact.
func (m *Model) Dump() (r []string) {
	p := func(format string, args ...interface{}) { r = append(r, fmt.Sprintf(format, args...)) }
	for _, s := range m.Services {
		p("service %s", s.Name)
		for _, v := range s.Versions {
			vp := s.Name.String() + "/" + v.Name.String()
			p("version %s", vp)
			for _, t := range v.Types {
				tp := vp + "/" + t.Name.String()
				p("type %s: %s kind=%s element=%s index=%s", tp, t.dump(), t.Kind, tname(t.Element), tname(t.Index))
				for _, a := range t.Attrs {
					p("attribute %s: %s type=%s link=%v", tp, a.dump(), tname(a.Type), a.Link)
				}
				for _, x := range t.Values {
					p("value %s: %s", tp, x.dump())
				}
			}
			for _, x := range v.Resources {
				rp := vp + "/" + x.Name.String()
				p("resource %s: %s root=%v", rp, x.dump(), x.Name.String() == "root")
				for _, y := range x.Methods {
					p("method %s: %s", rp, y.dump())
					for _, z := range y.Params {
						p("parameter %s/%s: %s type=%s in=%v out=%v default=%T:%v", rp, y.Name, z.dump(), tname(z.Type), z.In, z.Out, z.Default, z.Default)
					}
				}
				for _, y := range x.Locators {
					t := "-"
					if y.Target != nil {
						t = y.Target.Name.String()
					}
					p("locator %s: %s variable=%v target=%s", rp, y.dump(), y.Variable, t)
				}
			}
			for _, e := range v.Errors {
				p("error %s: %s code=%d", vp, e.dump(), e.Code)
			}
		}
	}
	return
}

// ParamNames returns the names of the parameters of annotations used in the model.
func (m *Model) ParamNames() (r []string) {
	seen := map[string]bool{}
	add := func(b Base) {
		for _, a := range b.Ann {
			for k := range a.Params {
				if !seen[k] {
					seen[k] = true
					r = append(r, k)
				}
			}
		}
	}
	for _, s := range m.Services {
		for _, v := range s.Versions {
			for _, t := range v.Types {
				add(t.Base)
				for _, a := range t.Attrs {
					add(a.Base)
				}
				for _, x := range t.Values {
					add(x.Base)
				}
			}
			for _, x := range v.Resources {
				add(x.Base)
				for _, y := range x.Methods {
					add(y.Base)
					for _, z := range y.Params {
						add(z.Base)
					}
				}
				for _, y := range x.Locators {
					add(y.Base)
				}
			}
			for _, e := range v.Errors {
				add(e.Base)
			}
		}
	}
	sort.Strings(r)
	return
}
