package checks

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"path"
	"regexp"
	"strings"

	"verif/tool/spec"
)

// This file contains the analysis of where the documentation written in the model ends in the generated
// artifacts.

// docLines splits documentation into lines, without blank lines nor blanks around lines.
func docLines(doc string) []string {
	var r []string
	for _, l := range strings.Split(doc, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			r = append(r, l)
		}
	}
	return r
}

// containsLines tells if the lines are together, and in that order, in the text.
func containsLines(text, lines []string) bool {
	for i := 0; i+len(lines) <= len(text); i++ {
		ok := true
		for j := range lines {
			if text[i+j] != lines[j] {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// goComments finds the lines of the comments of the declarations of a generated package. The keys are the names
// of types, functions and constants, and the names of methods preceded by the name of the type and a dot.
func goComments(s *shape, dir string) map[string][]string {
	r := map[string][]string{}
	set := token.NewFileSet()
	add := func(name string, gs ...*ast.CommentGroup) {
		lines := []string{}
		for _, g := range gs {
			if g == nil {
				continue
			}
			for _, k := range g.List {
				for _, l := range strings.Split(k.Text, "\n") {
					if l = strings.TrimSpace(strings.TrimPrefix(l, "//")); l != "" {
						lines = append(lines, l)
					}
				}
			}
		}
		r[name] = lines
	}
	for _, n := range sortedNames(s.Go) {
		if !strings.HasSuffix(n, ".go") || path.Dir(n) != dir {
			continue
		}
		f, err := parser.ParseFile(set, n, s.Go[n], parser.ParseComments)
		if err != nil {
			continue
		}
		for _, x := range f.Decls {
			switch x := x.(type) {
			case *ast.FuncDecl:
				name := x.Name.Name
				if x.Recv != nil && len(x.Recv.List) == 1 {
					t := x.Recv.List[0].Type
					if p, ok := t.(*ast.StarExpr); ok {
						t = p.X
					}
					if i, ok := t.(*ast.Ident); ok {
						name = i.Name + "." + name
					}
				}
				add(name, x.Doc)
			case *ast.GenDecl:
				for _, y := range x.Specs {
					switch y := y.(type) {
					case *ast.TypeSpec:
						add(y.Name.Name, x.Doc, y.Doc)
					case *ast.ValueSpec:
						for _, i := range y.Names {
							if x.Lparen.IsValid() {
								add(i.Name, y.Doc)
							} else {
								add(i.Name, x.Doc, y.Doc)
							}
						}
					}
				}
			}
		}
	}
	return r
}

// typeName returns the name of a type, ignoring pointers.
func typeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// goDocs checks the comments of the Go declarations.
func (c *Ctx) goDocs(s *shape, v *spec.Version, fail failer) {
	pkg := c.goPackage(versionPath(s, v))
	if pkg == nil {
		c.Undecided("there is no Go package for version '%s/%s' of shape '%s'", v.Service.Name, v.Name, s.name)
		return
	}
	dir := strings.TrimPrefix(pkg.Path(), "gen/"+s.name+"/")
	comments := goComments(s, dir)
	check := func(what string, b *spec.Base, names ...string) {
		want := docLines(b.Doc)
		c.Oblige(1)
		if len(want) == 0 {
			return
		}
		for _, n := range names {
			got, ok := comments[n]
			if !ok {
				continue
			}
			if !containsLines(got, want) {
				fail("go:"+what, "The comment of '%s' in package '%s' isn't the documentation of %s '%s':\n%s\n\nDocumentation:\n%s", n, pkg.Path(), what, b.Name, strings.Join(got, "\n"), b.Doc)
			}
			return
		}
		fail("go:"+what+":missing", "There is no declaration with the documentation of %s '%s' in package '%s', tried %v", what, b.Name, pkg.Path(), names)
	}
	for _, t := range v.Types {
		name := goName(&t.Base)
		switch {
		case t.Kind == "enum":
			for _, x := range t.Values {
				check("value", &x.Base, name+goName(&x.Base))
			}
		case t.Struct() && t.Param("ref", "path") == "":
			check("type", &t.Base, name)
			check("type", &t.Base, name+"Builder")
			for _, a := range t.Attrs {
				check("attribute", &a.Base, name+"."+goName(&a.Base))
				check("attribute", &a.Base, name+".Get"+goName(&a.Base))
			}
		}
	}
	for _, e := range v.Errors {
		check("error", &e.Base, errorConstant(e), goName(&e.Base), goName(&e.Base)+"Error")
	}
	for _, r := range v.Resources {
		name := goName(&r.Base) + "Client"
		if r.Name.String() == "root" {
			if _, ok := comments[name]; !ok {
				name = "Client"
			}
		}
		check("resource", &r.Base, name)
		for _, l := range r.Locators {
			check("locator", &l.Base, name+"."+goName(&l.Base))
		}
		ct := scopeType(pkg, name)
		for _, m := range r.Methods {
			check("method", &m.Base, name+"."+goName(&m.Base))
			rt := resultOf(methodOf(ct, goName(&m.Base)))
			rq, rs := typeName(rt), typeName(resultOf(methodOf(rt, "Send")))
			polls := []string{rq}
			if m.Category() == "get" {
				pt := resultOf(methodOf(ct, "Poll"))
				polls = append(polls, typeName(pt))
				if pr := typeName(resultOf(methodOf(pt, "StartContext"))); pr != "" {
					for _, p := range m.Params {
						if p.Out {
							check("parameter", &p.Base, pr+"."+getterName(p))
							check("parameter", &p.Base, pr+".Get"+getterName(p))
						}
					}
				}
			}
			for _, p := range m.Params {
				if p.In {
					for _, q := range polls {
						check("parameter", &p.Base, q+"."+setterName(p))
					}
				}
				if p.Out {
					check("parameter", &p.Base, rs+"."+getterName(p))
					check("parameter", &p.Base, rs+".Get"+getterName(p))
				}
			}
		}
	}
}

// openapiDocs checks the descriptions of the OpenAPI document.
func (c *Ctx) openapiDocs(s *shape, v *spec.Version, fail failer) {
	text, ok := s.document(v)
	if !ok {
		c.Undecided("there is no OpenAPI document for version '%s/%s' of shape '%s'", v.Service.Name, v.Name, s.name)
		return
	}
	n, err := parseJSON(text)
	if err != nil {
		c.Undecided("OpenAPI document of version '%s/%s' of shape '%s': %v", v.Service.Name, v.Name, s.name, err)
		return
	}
	check := func(what string, b *spec.Base, n *jnode) {
		c.Oblige(1)
		if n == nil {
			fail("openapi:"+what+":missing", "Can't find %s '%s' in the OpenAPI document", what, b.Name)
			return
		}
		if got := n.str("description"); got != b.Doc {
			fail("openapi:"+what, "The description of %s '%s' in the OpenAPI document is %q, should be %q", what, b.Name, got, b.Doc)
		}
	}
	schemas := n.get("components", "schemas")
	for _, t := range v.Types {
		if !t.Struct() && t.Kind != "enum" {
			continue
		}
		x := schemas.get(t.Name.Camel())
		if d := s.resolve(t); d == t || t.Doc == "" {
			// It isn't specified what happens when the reference and the definition have documentation.
			check("type", &d.Base, x)
		}
		for _, a := range s.resolve(t).Attrs {
			check("attribute", &a.Base, x.get("properties", jsonName(&a.Base)))
		}
	}
	ops := operations(n)
	clash := s.clashes(v)
	for _, r := range s.routes() {
		if r.v != v {
			continue
		}
		for _, m := range r.r.Methods {
			p, h := methodPath(r, m)
			if clash[h+" "+p] {
				continue
			}
			op := ops[h+" "+p]
			check("method", &m.Base, op)
			for _, p := range inputs(m) {
				if inQuery(p) {
					var x *jnode
					if ps := op.get("parameters"); ps != nil {
						for _, y := range ps.items {
							if y.str("in") == "query" && y.str("name") == queryName(&p.Base) {
								x = y
							}
						}
					}
					check("parameter", &p.Base, x)
				} else if bodyParam(m, true) == nil {
					check("parameter", &p.Base, op.get("requestBody", "content", jsonContent, "schema", "properties", jsonName(&p.Base)))
				}
			}
			if outSpecified(m) && bodyParam(m, false) == nil {
				for _, p := range outputs(m) {
					check("parameter", &p.Base, op.get("responses", httpStatus(m.Category()), "content", jsonContent, "schema", "properties", jsonName(&p.Base)))
				}
			}
		}
	}
}

// section is a part of a page.
type section struct {
	title string
	text  []string
	rows  [][]string
}

var cells = regexp.MustCompile(`\\.|\|`)

// sections splits a page into the parts that start with titles.
func sections(page string) []*section {
	x := &section{}
	var r []*section
	for _, l := range docLines(page) {
		switch {
		case strings.HasPrefix(l, "#"):
			x = &section{title: l}
			r = append(r, x)
			continue
		case strings.HasPrefix(l, "|"):
			var row []string
			last := 0
			for _, m := range cells.FindAllStringIndex(l, -1) {
				if l[m[0]] == '|' {
					row = append(row, strings.TrimSpace(l[last:m[0]]))
					last = m[1]
				}
			}
			row = append(row, strings.TrimSpace(l[last:]))
			x.rows = append(x.rows, row)
		}
		x.text = append(x.text, l)
	}
	return r
}

// summaryOf tells if the text is a correct summary of the documentation: the complete documentation or what
// it has till a dot, in one line.
func summaryOf(doc, text string) bool {
	norm := func(s string) string { return strings.Join(strings.Fields(s), " ") }
	doc, text = norm(doc), norm(strings.ReplaceAll(text, `\|`, "|"))
	if !strings.Contains(doc, ".") {
		return doc == text
	}
	return text != "" && strings.HasPrefix(doc, text) && strings.HasSuffix(text, ".")
}

var pageLink = regexp.MustCompile(`\]\(([^)]*)\)`)

// markdownDocs checks the structure of the pages.
func (c *Ctx) markdownDocs(s *shape, fail failer) {
	for _, l := range strings.Split(s.Docs["index.md"], "\n") {
		for _, m := range pageLink.FindAllStringSubmatch(l, -1) {
			c.Oblige(1)
			if _, ok := s.Docs[m[1]]; !ok {
				fail("docs:link", "The index of the documentation has a link to '%s', but that page isn't generated", m[1])
			}
		}
	}
	users := map[string]int{}
	s.versions(func(v *spec.Version) {
		for _, r := range v.Resources {
			users[r.Name.Snake()+"_resource.md"]++
		}
		for _, t := range v.Types {
			users[t.Name.Snake()+"_type.md"]++
		}
	})
	type item struct {
		what, title string
		table       string
		b           *spec.Base
	}
	page := func(file string, items []item) {
		text, ok := s.Docs[file]
		if !ok {
			fail("docs:missing", "There is no page '%s'", file)
			return
		}
		if users[file] > 1 {
			return
		}
		all := sections(text)
		// The items are in the same order than the sections:
		pos := 0
		var stack [7]*section
		for _, it := range items {
			c.Oblige(1)
			found := -1
			for i := pos; i < len(all) && found < 0; i++ {
				if all[i].title == it.title {
					found = i
				}
			}
			if found < 0 {
				fail("docs:"+it.what+":section", "Page '%s' doesn't have section '%s' for %s '%s', or it isn't in its place:\n%s", file, it.title, it.what, it.b.Name, text)
				continue
			}
			pos = found + 1
			x := all[found]
			level := len(it.title) - len(strings.TrimLeft(it.title, "#"))
			stack[level] = x
			if want := docLines(it.b.Doc); !containsLines(x.text, want) {
				fail("docs:"+it.what, "Section '%s' of page '%s' doesn't contain the documentation of %s '%s':\n%s\n\nDocumentation:\n%s", it.title, file, it.what, it.b.Name, strings.Join(x.text, "\n"), it.b.Doc)
			}
			if it.table == "" {
				continue
			}
			// The table is in the section that contains this one:
			for level--; level > 0 && stack[level] == nil; level-- {
			}
			up := stack[level]
			if up == nil {
				continue
			}
			c.Oblige(1)
			good := false
			for _, row := range up.rows {
				if len(row) > 2 && row[1] == it.table && summaryOf(it.b.Doc, row[len(row)-2]) && len(row) == len(up.rows[0]) && row[len(row)-1] == "" {
					good = true
				}
			}
			if !good {
				fail("docs:"+it.what+":table", "The table of section '%s' of page '%s' doesn't have a correct row for %s '%s' with summary of %q:\n%s", up.title, file, it.what, it.b.Name, it.b.Doc, strings.Join(up.text, "\n"))
			}
		}
	}
	tag := func(n string) string { return "`" + n + "`" }
	s.versions(func(v *spec.Version) {
		for _, r := range v.Resources {
			items := []item{{"resource", "# " + r.Name.Camel(), "", &r.Base}}
			for _, m := range r.Methods {
				items = append(items, item{"method", "## " + m.Name.Camel() + " - " + httpMethod(m.Category()), m.Name.Camel(), &m.Base})
				for _, p := range m.Params {
					name := jsonName(&p.Base)
					if inQuery(p) {
						name = queryName(&p.Base)
					}
					items = append(items, item{"parameter", "### " + p.Name.Camel(), tag(name), &p.Base})
				}
			}
			page(r.Name.Snake()+"_resource.md", items)
		}
		for _, t := range v.Types {
			if !t.Struct() && t.Kind != "enum" {
				continue
			}
			d := s.resolve(t)
			if d != t && t.Doc != "" {
				continue
			}
			items := []item{{"type", "# " + t.Name.Camel(), "", &d.Base}}
			for _, a := range s.resolve(t).Attrs {
				items = append(items, item{"attribute", "## " + tag(jsonName(&a.Base)), tag(jsonName(&a.Base)), &a.Base})
			}
			for _, x := range t.Values {
				items = append(items, item{"value", "### " + tag(jsonName(&x.Base)), tag(jsonName(&x.Base)), &x.Base})
			}
			page(t.Name.Snake()+"_type.md", items)
		}
	})
}

func init() {
	register("P25", func(c *Ctx) {
		c.Rule("for each documented concept of each model shape the comments of the residual Go declarations, the descriptions of the OpenAPI document and the sections, tables and links of the documentation pages should have the documentation of that concept, and not another")
		c.generate("golang", "openapi", "docs")
		for _, s := range c.load() {
			s := s
			fail := func(key, format string, args ...interface{}) {
				c.Violation(key, "Shape '%s': %s\n%s", s.name, fmt.Sprintf(format, args...), showFiles(s.files))
			}
			for _, cmd := range []string{"golang", "openapi", "docs"} {
				c.generationProblems(s, cmd)
			}
			if s.Go != nil {
				s.versions(func(v *spec.Version) { c.goDocs(s, v, fail) })
			}
			if s.OpenAPI != nil {
				s.versions(func(v *spec.Version) { c.openapiDocs(s, v, fail) })
			}
			if s.Docs != nil {
				c.markdownDocs(s, fail)
			}
		}
	})
}
