package checks

import (
	"fmt"
	"sort"
	"strings"

	"verif/tool/mm"
)

// param is a parameter of a method, as declared in the model.
type param struct {
	name, typ, dir, dflt string
}

func (p param) String() string {
	s := p.dir
	if s != "" {
		s += " "
	}
	s += p.name + " " + p.typ
	if p.dflt != "" {
		s += " = " + p.dflt
	}
	return s
}

func (p param) in() bool  { return strings.Contains(p.dir, "in") }
func (p param) out() bool { return p.dir == "" || strings.Contains(p.dir, "out") }

func (p param) kind() string {
	switch {
	case strings.HasPrefix(p.typ, "[]"):
		return "list"
	case strings.HasPrefix(p.typ, "["):
		return "map"
	case p.typ == "Thing" || p.typ == "Item":
		return "struct"
	}
	return "scalar"
}

var methodNames = map[string]string{
	"add": "Add", "delete": "Delete", "asyncdelete": "AsyncDelete", "get": "Get", "list": "List", "post": "Post",
	"search": "Search", "update": "Update", "asyncupdate": "AsyncUpdate", "action": "Restart",
}

var categories = []string{"add", "delete", "asyncdelete", "get", "list", "post", "search", "update", "asyncupdate", "action"}

// signatureErrors is the specification of the rules: it returns the rules that are broken.
func signatureErrors(cat string, params []param) (errs []string) {
	bad := func(format string, args ...interface{}) { errs = append(errs, fmt.Sprintf(format, args...)) }
	kinds := func(p param, list ...string) {
		for _, k := range list {
			if p.kind() == k {
				return
			}
		}
		bad("%s can't be %s", p.name, p.kind())
	}
	dirs := func(p param, in, out bool) {
		if p.in() != in || p.out() != out {
			bad("direction of %s", p.name)
		}
	}
	named := func(p param, name string) {
		if p.name != name {
			bad("name of %s", p.name)
		}
	}
	one := func(what string, n int) {
		if n != 1 {
			bad("%d %s", n, what)
		}
	}
	count := func(f func(p param) bool) (l []param) {
		for _, p := range params {
			if f(p) {
				l = append(l, p)
			}
		}
		return
	}
	structs := count(func(p param) bool { return p.kind() == "struct" })
	lists := count(func(p param) bool { return p.kind() == "list" })
	paging := func() {
		for _, p := range params {
			switch p.name {
			case "page", "size":
				if p.typ != "Integer" {
					bad("type of %s", p.name)
				}
				dirs(p, true, true)
				if p.name == "page" && p.dflt != "1" || p.name == "size" && p.dflt != "100" {
					bad("default of %s", p.name)
				}
			case "total":
				if p.typ != "Integer" {
					bad("type of %s", p.name)
				}
				dirs(p, false, true)
			}
		}
		one("lists", len(lists))
		for _, p := range lists {
			dirs(p, false, true)
			named(p, "items")
		}
		if len(count(func(p param) bool { return p.name == "items" })) == 0 {
			bad("no items")
		}
	}
	switch cat {
	case "add":
		for _, p := range params {
			kinds(p, "scalar", "struct")
		}
		one("structs", len(structs))
		for _, p := range structs {
			dirs(p, true, true)
			named(p, "body")
		}
	case "delete", "asyncdelete":
		for _, p := range params {
			kinds(p, "scalar")
			dirs(p, true, false)
		}
	case "get":
		for _, p := range params {
			kinds(p, "scalar", "struct")
			if p.kind() == "scalar" {
				dirs(p, true, false)
			}
		}
		one("structs", len(structs))
		for _, p := range structs {
			dirs(p, false, true)
			named(p, "body")
		}
	case "list":
		for _, p := range params {
			kinds(p, "scalar", "list")
		}
		paging()
	case "post":
		ins := count(param.in)
		outs := count(param.out)
		if len(ins) > 1 {
			bad("%d inputs", len(ins))
		}
		one("outputs", len(outs))
		for _, p := range append(ins, outs...) {
			kinds(p, "struct")
		}
	case "search":
		for _, p := range params {
			if p.out() {
				kinds(p, "scalar", "list")
			}
			if p.in() {
				kinds(p, "scalar", "struct")
			}
		}
		paging()
		bodies := count(func(p param) bool { return p.kind() == "struct" && p.in() })
		one("bodies", len(bodies))
		for _, p := range bodies {
			dirs(p, true, false)
			named(p, "body")
		}
	case "update", "asyncupdate":
		var others []param
		for _, p := range params {
			kinds(p, "scalar", "struct", "list")
			switch p.kind() {
			case "scalar":
				dirs(p, true, false)
			case "struct", "list":
				others = append(others, p)
			}
		}
		one("bodies", len(others))
		for _, p := range others {
			dirs(p, true, true)
			named(p, "body")
		}
	}
	for _, p := range params {
		if p.dflt == "" {
			continue
		}
		want := "Integer"
		switch {
		case p.dflt == "true" || p.dflt == "false":
			want = "Boolean"
		case strings.HasPrefix(p.dflt, `"`):
			want = "String"
		}
		if p.typ != want {
			bad("default of %s", p.name)
		}
	}
	return
}

// baseSignatures are correct signatures of each category.
func baseSignatures(cat string) [][]param {
	body := func(dir string) param { return param{"body", "Thing", dir, ""} }
	f1, f2 := param{"bbb", "String", "in", ""}, param{"yyy", "Boolean", "in", "true"}
	items := param{"items", "[]Thing", "out", ""}
	page := param{"page", "Integer", "in out", "1"}
	size := param{"size", "Integer", "in out", "100"}
	total := param{"total", "Integer", "out", ""}
	switch cat {
	case "add":
		return [][]param{{body("in out")}, {f1, body("in out"), f2}}
	case "delete", "asyncdelete":
		return [][]param{{}, {f1, f2}}
	case "get":
		return [][]param{{body("out")}, {f1, body("out"), f2}}
	case "list":
		return [][]param{{items}, {f1, items, page, size, total, f2}}
	case "post":
		return [][]param{{body("out")}, {param{"request", "Thing", "in", ""}, param{"response", "Item", "out", ""}}, {body("in out")}}
	case "search":
		return [][]param{{body("in"), items}, {f1, body("in"), items, page, size, total, f2}}
	case "update", "asyncupdate":
		return [][]param{{body("in out")}, {f1, body("in out"), f2}, {param{"body", "[]Thing", "in out", ""}}}
	}
	return [][]param{{}, {f1, param{"other", "Thing", "in out", ""}, f2}}
}

var paramTypes = []string{"String", "Integer", "Boolean", "Long", "Float", "Date", "Interface", "Color", "Thing", "Item", "[]Thing", "[]String", "[String]String", "[String]Thing"}
var paramDirs = []string{"in", "out", "in out", ""}
var paramNames = []string{"aaa", "zzz", "body", "items", "page", "size", "total"}
var paramDefaults = []string{"1", "100", "7", "true", `"x"`}

type signature struct {
	cat    string
	params []param
}

func (s signature) key() string {
	var l []string
	for _, p := range s.params {
		l = append(l, p.String())
	}
	sort.Strings(l)
	return s.cat + "{" + strings.Join(l, "; ") + "}"
}

func signatures(thorough bool) []signature {
	var r []signature
	seen := map[string]bool{}
	add := func(cat string, params []param) {
		names := map[string]bool{}
		for _, p := range params {
			if names[p.name] {
				return
			}
			names[p.name] = true
		}
		s := signature{cat, append([]param(nil), params...)}
		if !seen[s.key()] {
			seen[s.key()] = true
			r = append(r, s)
		}
	}
	for _, cat := range categories {
		add(cat, nil)
		for _, base := range baseSignatures(cat) {
			add(cat, base)
			// Without one of the parameters:
			for i := range base {
				add(cat, append(append([]param(nil), base[:i]...), base[i+1:]...))
			}
			// With one aspect changed:
			for i := range base {
				change := func(f func(p *param)) {
					n := append([]param(nil), base...)
					f(&n[i])
					add(cat, n)
				}
				for _, t := range paramTypes {
					change(func(p *param) { p.typ = t })
				}
				for _, d := range paramDirs {
					change(func(p *param) { p.dir = d })
				}
				for _, n := range paramNames {
					change(func(p *param) { p.name = n })
				}
				for _, n := range append([]string{""}, paramDefaults...) {
					change(func(p *param) { p.dflt = n })
				}
			}
			// With one additional parameter:
			for _, n := range paramNames {
				for _, t := range paramTypes {
					for _, d := range paramDirs {
						if !thorough && n != "aaa" && n != "zzz" && (t == "Float" || t == "Date" || t == "[]String" || t == "[String]Thing" || t == "Long") {
							continue
						}
						add(cat, append(append([]param(nil), base...), param{n, t, d, ""}))
					}
				}
			}
		}
		// Default values:
		for _, t := range paramTypes {
			for _, d := range paramDefaults {
				base := baseSignatures(cat)[0]
				add(cat, append(append([]param(nil), base...), param{"aaa", t, "in", d}))
				if thorough {
					add(cat, append(append([]param(nil), base...), param{"zzz", t, "in out", d}))
				}
			}
		}
		if thorough {
			// Pairs of additional parameters:
			for _, base := range baseSignatures(cat) {
				for _, t1 := range paramTypes {
					for _, d1 := range paramDirs {
						for _, t2 := range []string{"String", "Thing", "[]Thing", "[String]String"} {
							for _, d2 := range paramDirs {
								add(cat, append(append([]param(nil), base...), param{"aaa", t1, d1, ""}, param{"zzz", t2, d2, ""}))
							}
						}
					}
				}
			}
		}
	}
	return r
}

func signatureModel(s signature) string {
	var sb strings.Builder
	sb.WriteString("struct Thing { name String }\nclass Item { name String }\nenum Color { red }\n")
	fmt.Fprintf(&sb, "resource Root { method %s {\n", methodNames[s.cat])
	for _, p := range s.params {
		fmt.Fprintf(&sb, "  %s\n", p)
	}
	sb.WriteString("} }\n")
	return sb.String()
}

// placement is a place of a model where a method can be declared.
type placement struct {
	name  string
	files func(method string) map[string]string
}

const signatureTypes = "struct Thing { name String }\nclass Item { name String }\nenum Color { red }\n"

// otherMethods are correct methods with names that are before and after those of all the categories.
const otherMethods = "method Aaa { in aaa [String]Thing\n } method Zzz { out zzz []Item\n }"

var placements = []placement{
	{"alone in the root", func(m string) map[string]string { return files("svc/v1/a.model", signatureTypes+"resource Root { "+m+" }") }},
	{"in a root with locators", func(m string) map[string]string {
		return files("svc/v1/a.model", signatureTypes+"resource Root { locator Other { target Other }\n "+m+" } resource Other { }")
	}},
	{"in a resource with a locator", func(m string) map[string]string {
		return files("svc/v1/a.model", signatureTypes+"resource Root { locator Other { target Other } } resource Other { locator Leaf { variable ID target Leaf } "+m+" } resource Leaf { }")
	}},
	{"in a leaf", func(m string) map[string]string {
		return files("svc/v1/a.model", signatureTypes+"resource Root { locator Other { target Other } } resource Other { locator Leaf { variable ID target Leaf } } resource Leaf { "+m+" }")
	}},
	{"in a resource with two locators", func(m string) map[string]string {
		return files("svc/v1/a.model", signatureTypes+"resource Root { locator Other { target Other } locator Leaf { target Leaf } } resource Other { locator Leaf { variable ID target Leaf } } resource Leaf { "+m+" }")
	}},
	{"in a resource without locator", func(m string) map[string]string {
		return files("svc/v1/a.model", signatureTypes+"resource Root { } resource Leaf { "+m+" }")
	}},
	{"after other methods", func(m string) map[string]string {
		return files("svc/v1/a.model", signatureTypes+"resource Root { "+otherMethods+" "+m+" }")
	}},
	{"before other methods", func(m string) map[string]string {
		return files("svc/v1/a.model", signatureTypes+"resource Root { "+m+" "+otherMethods+" }")
	}},
	{"with other resources", func(m string) map[string]string {
		return files("svc/v1/a.model", signatureTypes+"resource Aaa { "+otherMethods+" } resource Root { } resource Mmm { "+m+" } resource Zzz { "+otherMethods+" }")
	}},
	{"before the types", func(m string) map[string]string {
		return files("svc/v1/a.model", "resource Root { "+m+" }\n"+signatureTypes)
	}},
	{"in another file", func(m string) map[string]string {
		return files("svc/v1/a.model", "resource Root { }\n"+signatureTypes, "svc/v1/b.model", "resource Leaf { "+m+" }")
	}},
	{"in the first version", func(m string) map[string]string {
		return files("svc/v1/a.model", signatureTypes+"resource Root { "+m+" }", "svc/v2/a.model", signatureTypes+"resource Root { "+otherMethods+" }")
	}},
	{"in the last version", func(m string) map[string]string {
		return files("svc/v2/a.model", signatureTypes+"resource Root { "+m+" }", "svc/v1/a.model", signatureTypes+"resource Root { "+otherMethods+" }")
	}},
	{"in the first service", func(m string) map[string]string {
		return files("svc/v1/a.model", signatureTypes+"resource Root { "+m+" }", "zzz/v1/a.model", signatureTypes+"resource Root { "+otherMethods+" }")
	}},
	{"in the last service", func(m string) map[string]string {
		return files("svc/v1/a.model", signatureTypes+"resource Root { "+m+" }", "aaa/v1/a.model", signatureTypes+"resource Root { "+otherMethods+" }")
	}},
	{"with documentation and annotations", func(m string) map[string]string {
		return files("svc/v1/a.model", signatureTypes+"// Doc.\n@a(x=1)\nresource Root {\n// Doc.\n@http(name=\"xyz\") @go(name=\"Xyz\")\n"+m+" }")
	}},
}

func methodText(s signature, reverse bool) string {
	var l []string
	for _, p := range s.params {
		l = append(l, p.String())
	}
	if reverse {
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	}
	return "method " + methodNames[s.cat] + " {\n" + strings.Join(l, "\n") + "\n}"
}

// representatives returns a signature for each category and set of broken rules.
func representatives(list []signature) (r []signature) {
	seen := map[string]bool{}
	for _, s := range list {
		k := s.cat
		for _, e := range signatureErrors(s.cat, s.params) {
			k += ":" + e
		}
		if !seen[k] {
			seen[k] = true
			r = append(r, s)
		}
	}
	return
}

// placed checks methods declared at different places.
func (c *Ctx) placed(list []signature) {
	c.Rule("for every category and set of broken rules one of the signatures is declared in roots, leaves, resources with and without locators, other files, versions and services, with other methods, and with the parameters in the opposite order")
	reps := representatives(list)
	type job struct {
		s       signature
		p       placement
		reverse bool
	}
	var jobs []job
	for i, s := range reps {
		for j, p := range placements {
			if c.Thorough || (i+j)%2 == 0 || j < 4 {
				jobs = append(jobs, job{s, p, (i+j/2)%2 == 0})
			}
		}
	}
	c.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		errs := signatureErrors(j.s.cat, j.s.params)
		f := j.p.files(methodText(j.s, j.reverse))
		rs, it, err := c.S().Run("check", mm.Input{Files: f, Setup: func(it *interp) { it.Trace = map[string]bool{errorfName: true} }})
		c.Note(it)
		if err != nil {
			c.Undecided("%s %s: %v", j.s.key(), j.p.name, err)
			return
		}
		c.Oblige(1)
		c.Count("signatures "+j.p.name, 1)
		for _, r := range rs {
			switch {
			case r.Crash != "":
				c.Violation("crash:"+j.s.cat, "Checking %s %s crashes: %s at %s", j.s.key(), j.p.name, r.Crash, r.Where)
			case r.Exit == 0 && len(errs) > 0:
				c.Violation("accepted:"+j.p.name+":"+j.s.cat+":"+strings.Join(errs, ","), "Signature %s breaks rules (%s) but it is accepted %s by %s\n%s", j.s.key(), strings.Join(errs, ", "), j.p.name, where(it, "checks.go"), showFiles(f))
			case r.Exit != 0 && len(errs) == 0:
				c.Violation("rejected:"+j.p.name+":"+j.s.cat, "Signature %s follows the rules but it is rejected %s at %s: %s\n%s", j.s.key(), j.p.name, strings.Join(it.TraceLog, ", "), r.Stderr(), showFiles(f))
			}
		}
	})
}

func init() {
	register("P02", func(c *Ctx) {
		c.Rule("for every method category, signatures built from correct ones by adding, removing or changing parameters (names, types of every kind, directions, defaults) are propagated through the reader and its semantic checks; the abstract exit of the check command must agree with the table of rules")
		c.S()
		list := signatures(c.Thorough)
		valid := 0
		c.Parallel(len(list), func(i int) {
			s := list[i]
			errs := signatureErrors(s.cat, s.params)
			text := signatureModel(s)
			trace := map[string]bool{"(*" + mm.Module + "/pkg/reporter.Reporter).Errorf": true}
			rs, it, err := c.S().Run("check", mm.Input{
				Files: map[string]string{"svc/v1/a.model": text},
				Setup: func(it *interp) { it.Trace = trace },
			})
			c.Note(it)
			if err != nil {
				c.Undecided("%s: %v", s.key(), err)
				return
			}
			c.Oblige(1)
			if len(errs) == 0 {
				c.Count("correct signatures", 1)
				valid++
			} else {
				c.Count("incorrect signatures", 1)
			}
			for _, r := range rs {
				switch {
				case r.Crash != "":
					c.Violation("crash:"+s.cat, "Checking %s crashes: %s at %s", s.key(), r.Crash, r.Where)
				case r.Exit == 0 && len(errs) > 0:
					c.Violation("accepted:"+s.cat+":"+strings.Join(errs, ","), "Signature %s breaks rules (%s) but it is accepted by %s", s.key(), strings.Join(errs, ", "), where(it, "checks.go"))
				case r.Exit != 0 && len(errs) == 0:
					c.Violation("rejected:"+s.cat, "Signature %s follows the rules but it is rejected at %s: %s", s.key(), strings.Join(it.TraceLog, ", "), r.Stderr())
				}
			}
		})
		c.placed(list)
	})
}
