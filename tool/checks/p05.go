package checks

import (
	"fmt"
	"strings"

	"verif/tool/engine"
	"verif/tool/mm"
)

// site is a place of a model where something can be declared. The text contains a %s where
// documentation and annotations are added, at the beginning of a line.
type site struct {
	name, indent, text string
}

// sites are all the places where documentation and annotations can be written.
var sites = []site{
	{"class", "", "%sclass Thing {\n  name String\n}\n"},
	{"struct", "", "%sstruct Thing {\n  name String\n}\n"},
	{"enum", "", "%senum Thing {\n  red\n}\n"},
	{"error", "", "%serror Thing {\n  code 7\n}\n"},
	{"resource", "", "%sresource Thing {\n  method Do {\n  }\n}\n"},
	{"empty resource", "", "%sresource Thing {\n}\n"},
	{"attribute of class", "  ", "class Thing {\n%s  name String\n}\n"},
	{"attribute of struct", "  ", "struct Thing {\n%s  attribute name []Integer\n}\n"},
	{"link", "  ", "class Thing {\n%s  link name Thing\n}\n"},
	{"second attribute", "  ", "class Thing {\n  zero Integer\n%s  name String\n}\n"},
	{"value", "  ", "enum Thing {\n%s  red\n}\n"},
	{"second value", "  ", "enum Thing {\n  value blue\n%s  value red\n}\n"},
	{"method", "  ", "resource Thing {\n%s  method Do {\n  }\n}\n"},
	{"second method", "  ", "resource Thing {\n  method Undo {\n  }\n%s  Do {\n  }\n}\n"},
	{"method with parameters", "  ", "resource Thing {\n%s  method Do {\n    in name String\n  }\n}\n"},
	{"parameter", "    ", "resource Thing {\n  method Do {\n%s    in name String\n  }\n}\n"},
	{"second parameter", "    ", "resource Thing {\n  method Do {\n    out other Integer\n%s    parameter in name String\n  }\n}\n"},
	{"locator", "  ", "resource Thing {\n%s  locator Part {\n    target Root\n  }\n}\n"},
	{"variable locator", "  ", "resource Thing {\n%s  locator Part {\n    variable ID\n    target Root\n  }\n}\n"},
}

func factCases(thorough bool) (r []readCase) {
	add := func(name string, f map[string]string) {
		r = append(r, readCase{name: name, files: f})
	}
	one := func(name, text string) { add(name, files("svc/v1/a.model", rootText+text)) }
	// Documentation and annotations at every site:
	docs := []string{"",
		"// One line.",
		"//No blank.",
		"// First.\n// Second.\n// Third.",
		"// First.\n//\n// Third.",
		"// First.\n//   Indented.\n// Third.",
		"//\tTab.\n//\tTab.",
		"// Gap.\n",
		"// Far.\n\n// Near.",
		"// Quotes \" and % and {{ . }} and ` and \\n.",
		"// Trailing blanks.  ",
		"/* Block. */",
		"//",
		"// Not same prefix.\n//other.",
	}
	anns := []string{"",
		"@a",
		"@a()",
		"@a(x=1)",
		"@a(x=\"y\")",
		"@a(x=true)",
		"@a(x=false)",
		"@a(x=1 y=\"2\" z=true)",
		"@a(x=1 x=2)",
		"@a\n@b",
		"@b(x=1)\n@a(x=2)",
		"@a(x=1) @b(x=\"2\")",
		"@a(x=1)\n@a(y=2)",
		"@a(x=\"\")",
		"@a(x=\"with \\\" quote and \\\\ backslash\")",
		"@a(long_name=\"/p/q\")",
		"@json(name=\"j\")\n@http(name=\"h\")\n@go(name=\"G\")",
	}
	for _, s := range sites {
		indent := func(t string) string {
			if t == "" {
				return ""
			}
			var l []string
			for _, x := range strings.Split(t, "\n") {
				if x != "" {
					x = s.indent + x
				}
				l = append(l, x)
			}
			return strings.Join(l, "\n") + "\n"
		}
		for i, d := range docs {
			one(fmt.Sprintf("%s with documentation %d", s.name, i), fmt.Sprintf(s.text, indent(d)))
			one(fmt.Sprintf("%s with documentation %d and annotation", s.name, i), fmt.Sprintf(s.text, indent(d)+indent("@a(x=1)")))
		}
		for i, a := range anns {
			one(fmt.Sprintf("%s with annotations %d", s.name, i), fmt.Sprintf(s.text, indent(a)))
			if thorough {
				for j, d := range docs {
					one(fmt.Sprintf("%s with annotations %d and documentation %d", s.name, i, j), fmt.Sprintf(s.text, indent(d)+indent(a)))
				}
			}
		}
		one(s.name+" with comment between annotations", fmt.Sprintf(s.text, indent("// Doc.\n@a\n// Middle.\n@b")))
	}
	// Documentation at several places:
	for i, s := range sites {
		for j, t := range sites {
			if !thorough && (i+j)%3 != 0 {
				continue
			}
			a := fmt.Sprintf(s.text, s.indent+"// Doc of first.\n"+s.indent+"@first(x=1)\n")
			b := strings.Replace(fmt.Sprintf(t.text, t.indent+"// Doc of second.\n"+t.indent+"@second(x=2)\n"), "Thing", "Second", 2)
			one("both "+s.name+" and "+t.name, a+"\n"+b)
			add("files "+s.name+" and "+t.name, files("svc/v1/a.model", rootText+a, "svc/v1/b.model", b))
			add("versions "+s.name+" and "+t.name, files("svc/v1/a.model", rootText+a, "svc/v2/a.model", rootText+b))
			add("services "+s.name+" and "+t.name, files("svc/v1/a.model", rootText+a, "other_svc/v1/a.model", rootText+b))
		}
	}
	// Types of attributes and parameters:
	basic := []string{"Boolean", "Integer", "Long", "Float", "String", "Date", "Interface"}
	defs := "class Clase {\n}\nstruct Strukt {\n  a Integer\n}\nenum Enumm {\n  red\n}\n"
	all := append(append([]string{}, basic...), "Clase", "Strukt", "Enumm")
	var refs []string
	for _, t := range all {
		refs = append(refs, t, "[]"+t, "[String]"+t)
	}
	for _, k := range all {
		refs = append(refs, "["+k+"]String")
	}
	for _, t := range refs {
		for _, kind := range []string{"", "attribute ", "link "} {
			for _, of := range []string{"class", "struct"} {
				one("attribute "+of+" "+kind+t, of+" Thing {\n  "+kind+"name "+t+"\n}\n"+defs)
			}
		}
		for _, dir := range []string{"", "in ", "out ", "in out ", "out in ", "parameter ", "parameter in ", "parameter out ", "parameter in out "} {
			one("parameter "+dir+t, "resource Thing {\n  method Do {\n    "+dir+"name "+t+"\n  }\n}\n"+defs)
		}
	}
	// Default values:
	for _, dir := range []string{"", "in ", "out ", "in out "} {
		for _, d := range [][2]string{{"Integer", "0"}, {"Integer", "1"}, {"Integer", "100"}, {"Integer", "2147483648"}, {"Long", "5"}, {"Float", "5"}, {"Boolean", "true"}, {"Boolean", "false"},
			{"String", `""`}, {"String", `"text"`}, {"String", `"a\"b"`}, {"String", `"a\tb"`}, {"String", `"7"`}, {"String", `"true"`}, {"String", `"  "`}} {
			text := "resource Thing {\n  method Do {\n    " + dir + "name " + d[0] + " = " + d[1] + "\n    in other Integer\n  }\n}\n"
			rc := readCase{name: "default " + dir + d[0] + " " + d[1], files: files("svc/v1/a.model", rootText+text)}
			if d[0] == "Long" || d[0] == "Float" {
				rc.expect = "reject"
			}
			r = append(r, rc)
		}
	}
	// Names:
	for _, n := range []string{"a", "A", "ab", "Ab", "AB", "abc", "AbCd", "abCd", "ABc", "ABs", "CPUs", "CPU", "CPUCount", "myCPU", "myCPUs", "AWSAccountID", "ClusterIDs", "IDs", "ID", "HTTPSPort", "X", "xY", "XYz", "MyHTTP", "EBSVolume"} {
		one("name of class "+n, "class "+n+" {\n  x String\n}\n")
		one("name of attribute "+n, "class Thing {\n  "+n+" String\n}\n")
		one("name of value "+n, "enum Thing {\n  "+n+"\n}\n")
		one("name of resource "+n, "resource "+n+" {\n}\n")
		one("name of method "+n, "resource Thing {\n  method "+n+" {\n  }\n}\n")
		one("name of parameter "+n, "resource Thing {\n  method Do {\n    in "+n+" String\n  }\n}\n")
		one("name of locator "+n, "resource Thing {\n  locator "+n+" {\n    target Root\n  }\n}\n")
		one("name of error "+n, "error "+n+" {\n  code 1\n}\n")
		one("list and map of "+n, "class "+n+" {\n  x []"+n+"\n  y [String]"+n+"\n}\n")
	}
	for _, n := range []string{"svc", "my_service", "clusters_mgmt", "a_b_c", "aa", "x"} {
		for _, v := range []string{"v1", "v2", "v1_alpha1", "v10", "beta"} {
			add("directories "+n+" "+v, files(n+"/"+v+"/a.model", rootText+"class Thing {\n  x String\n}\n", "other/v1/a.model", rootText))
		}
	}
	// Locators:
	for _, m := range []string{"target Leaf", "variable ID\n    target Leaf", "target Leaf\n    variable ID", "variable Name\n    target Root", "target Thing"} {
		one("locator with "+m, "resource Leaf {\n}\nresource Thing {\n  locator Part {\n    "+m+"\n  }\n  locator Other {\n    target Leaf\n  }\n}\n")
	}
	// Errors:
	for _, x := range []string{"0", "1", "7", "42", "400", "2147483647", "9223372036854775807"} {
		one("error code "+x, "error Bad {\n  code "+x+"\n}\nerror Worse {\n  code 3\n}\n")
	}
	one("error without code", "error Bad {\n}\n")
	one("error with two codes", "error Bad {\n  code 1\n  code 2\n}\n")
	// Members belong to the concept that declares them:
	one("members of two classes", "class A {\n  x String\n  y String\n}\nclass B {\n  y Integer\n  z Integer\n}\nclass C {\n}\n")
	one("values of two enums", "enum A {\n  x\n  y\n}\nenum B {\n  y\n  z\n}\nenum C {\n}\n")
	one("methods of two resources", "resource A {\n  method X {\n    in x String\n  }\n  method Y {\n  }\n}\nresource B {\n  method Y {\n    out y Integer\n  }\n  method Z {\n  }\n}\nresource C {\n}\n")
	one("parameters of two methods", "resource A {\n  method X {\n    in x String\n    out y String\n  }\n  method Y {\n    in y Integer\n    in out z Integer\n  }\n  method Z {\n  }\n}\n")
	one("locators of two resources", "resource A {\n  locator X {\n    target B\n  }\n  locator Y {\n    variable ID\n    target C\n  }\n}\nresource B {\n  locator Y {\n    target C\n  }\n}\nresource C {\n}\n")
	one("many parameters", "resource A {\n  method X {\n    in a String = \"1\"\n    out b Integer\n    in out c Boolean = true\n    d []Integer\n    in e [String]A\n    f A\n    in g Long\n    in h Float\n    in i Date\n  }\n}\nclass A {\n}\n")
	one("everything", strings.Replace(strings.Replace(fullText, "resource Root {\n  locator Things {\n    target Things\n  }\n}\n", "", 1), "// The root.\n", "", 1))
	add("same text in two versions", files("svc/v1/a.model", fullText, "svc/v2/a.model", fullText))
	add("same text in two services", files("one/v1/a.model", fullText, "two/v1/a.model", fullText))
	// Comments that aren't documentation:
	for n := 1; n <= 6; n++ {
		gap := strings.Repeat("\n", n)
		for _, loose := range []string{"// Loose.\n\n", "\n// Loose.\n\n", "\n\n// Loose.\n\n", "\n// Loose.\n// More.\n\n\n", "class X {\n// Loose.\n}\n"} {
			add(fmt.Sprintf("comment of previous file %d %q", n, loose), files("svc/v1/a.model", loose+rootText, "svc/v1/b.model", gap+"class Thing {\n"+gap+"  name String\n}\n"))
			add(fmt.Sprintf("comment of previous version %d %q", n, loose), files("svc/v1/a.model", loose+rootText, "svc/v2/b.model", gap+"resource Root {\n  method Do {\n  }\n}\n"))
			add(fmt.Sprintf("comment before %d %q", n, loose), files("svc/v1/a.model", rootText+loose+gap+"enum Thing {\n"+gap+"  name\n}\n"))
		}
	}
	// Several inputs:
	for _, f := range []map[string]string{
		files("one/svc/v1/a.model", fullText, "two/svc/v1/a.model", "// Doc.\n@a(x=1)\nclass More {\n  x Part\n}\n"),
		files("one/svc/v1/a.model", "// Doc.\n@a(x=1)\nclass More {\n  x Part\n}\n", "two/svc/v1/a.model", fullText),
		files("one/svc/v1/a.model", fullText, "two/svc/v2/a.model", fullText),
		files("one/svc/v2/a.model", fullText, "two/svc/v1/a.model", fullText),
		files("one/svc/v1/a.model", fullText, "two/other/v1/a.model", fullText),
		files("one/svc/v1/a.model", rootText, "one/other/v1/a.model", fullText, "two/svc/v1/a.model", "class A {\n}\n", "two/other/v2/a.model", fullText),
		files("one/svc/v1/a.model", rootText, "one/svc/v2/a.model", rootText, "two/svc/v1/b.model", "class A {\n}\n", "two/svc/v2/b.model", "class B {\n}\n"),
	} {
		r = append(r, readCase{name: fmt.Sprintf("several inputs %d", len(r)), files: f, inputs: []string{"/model/one", "/model/two"}, several: true})
	}
	add("one declaration per file", files(
		"svc/v1/a.model", rootText, "svc/v1/b.model", "class A {\n  b B\n}\n", "svc/v1/c.model", "class B {\n  a []A\n}\n",
		"svc/v1/d.model", "resource C {\n  locator D {\n    target D\n  }\n}\n", "svc/v1/e.model", "resource D {\n  get {\n    out body A\n  }\n}\n",
		"svc/v1/f.model", "enum E {\n  f\n}\n", "svc/v1/g.model", "error G {\n  code 5\n}\n"))
	return
}

// refCase is a case of a reference to other service.
type refCase struct {
	name, declared, members, others string
}

func init() {
	register("P05", func(c *Ctx) {
		c.Rule("every declaration site (types, attributes, values, resources, methods, parameters, locators, errors) is crossed with the forms of documentation, annotations, type references, directions, default values and names; the model that results from the abstract interpretation of the reader must contain exactly the facts that the specification derives from the syntax tree")
		c.readAll(factCases(c.Thorough))
		c.Rule("types that reference types of other services must have their attributes")
		c.refs()
	})
}

// refs checks the types that reference types of other services.
func (c *Ctx) refs() {
	others := "class Part {\n  a Integer\n}\nstruct Piece {\n  b [String]Part\n}\nenum Color {\n  red\n  blue\n}\n"
	members := []string{
		"x Integer", "x String", "x []String", "x [String]String", "x Part", "x []Part", "x [String]Part", "x Piece", "x Color", "x []Color",
		"link x Part", "link x []Part", "x Thing", "x []Thing", "x Date\n  y Part\n  link z Part",
	}
	for _, m := range members {
		for _, from := range []string{"aaa", "zzz"} {
			for _, slash := range []string{"", "/"} {
				f := files(
					"mmm/v2/a.model", rootText+"// Doc.\n"+"class Thing {\n  "+m+"\n}\n"+others,
					from+"/v1/a.model", rootText+"@ref(path=\""+slash+"mmm/v2/thing\")\nclass Thing {\n}\n",
				)
				c.refCase("reference from "+from+" to "+slash+m, f, from)
			}
		}
	}
}

func (c *Ctx) refCase(name string, f map[string]string, from string) {
	c.Oblige(1)
	rs, it, err := c.S().Read(mm.Input{Files: f})
	c.Note(it)
	if err != nil {
		c.Undecided("%s: %v", name, err)
		return
	}
	if c.imprecise(it, name) {
		return
	}
	for _, r := range rs {
		if r.Crash != "" {
			c.Violation("ref-crash:"+name, "%s: reading crashes: %s at %s\n%s", name, r.Crash, r.Where, showFiles(f))
			continue
		}
		if r.Failed {
			c.Violation("ref-rejected:"+name, "%s: the model is rejected\n%s", name, showFiles(f))
			continue
		}
		err := engine.Protect(func() {
			v := r.View
			attrs := map[string][]string{}
			known := map[string][]mm.Obj{}
			for _, s := range v.List(v.Call(r.Model, "Services")) {
				for _, ver := range v.List(v.Call(s, "Versions")) {
					for _, t := range v.List(v.Call(ver, "Types")) {
						if v.NameOf(t) != "thing" {
							continue
						}
						for _, a := range v.List(v.Call(t, "Attributes")) {
							at := v.Call(a, "Type")
							attrs[v.NameOf(s)] = append(attrs[v.NameOf(s)], fmt.Sprintf("%s %s %v", v.NameOf(a), v.NameOf(at), v.Bool(v.Call(a, "Link"))))
							known[v.NameOf(s)] = append(known[v.NameOf(s)], a)
							found := v.Call(ver, "FindType", v.Call(at, "Name").V)
							if found.Nil() && v.Call(a, "LinkOwner").Nil() {
								c.Violation("ref-type:"+name, "%s: the version of the reference doesn't contain the type of attribute %s\n%s", name, v.NameOf(a), showFiles(f))
							}
						}
					}
				}
			}
			if a, b := fmt.Sprint(attrs["mmm"]), fmt.Sprint(attrs[from]); a != b {
				c.Violation("ref-attributes:"+name, "%s: the referenced type has attributes %s but the reference has %s (see %s)\n%s", name, a, b, where(it, "reader.go"), showFiles(f))
			}
		})
		if err != nil {
			c.Undecided("%s: %v", name, err)
		}
	}
}
