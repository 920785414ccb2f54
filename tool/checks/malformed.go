package checks

import (
	"fmt"
	"strings"
)

// fullText is a model that uses all the constructs of the language.
const fullText = `// The root.
resource Root {
  locator Things {
    target Things
  }
}

@json(name="x")
resource Things {
  method Restart {
    @http(name = "y") in parameter a String = "z"
    in out b [String]Thing
    c []Integer
  }
  locator Thing {
    variable ID
    target Leaf
  }
}

resource Leaf {
  get {
    out body Thing
  }
}

class Thing {
  attribute a Integer
  link b []Thing
  c [String]Color
}

struct Part {
  d Date
}

enum Color {
  value red
  blue
}

error Bad {
  code 42
}
`

// tokens splits the text of a model, preserving the blanks.
func tokens(text string) (toks []string) {
	i := 0
	word := func(c byte) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
	for i < len(text) {
		j := i + 1
		switch c := text[i]; {
		case word(c):
			for j < len(text) && word(text[j]) {
				j++
			}
		case c == '"':
			j += strings.IndexByte(text[j:], '"') + 1
		case strings.HasPrefix(text[i:], "//"):
			j += strings.IndexByte(text[j:], '\n')
		}
		toks = append(toks, text[i:j])
		i = j
	}
	return
}

func malformedCases(thorough bool) (r []readCase) {
	add := func(name, expect string, f map[string]string) {
		r = append(r, readCase{name: name, files: f, expect: expect, noDump: true})
	}
	one := func(name, expect, text string) { add(name, expect, files("svc/v1/a.model", text)) }
	// Every token removed, replaced or followed by something, and every truncation:
	toks := tokens(fullText)
	for i, t := range toks {
		if strings.TrimSpace(t) == "" || strings.HasPrefix(t, "//") {
			continue
		}
		before, after := strings.Join(toks[:i], ""), strings.Join(toks[i+1:], "")
		one(fmt.Sprintf("token %d '%s' removed", i, t), "", before+" "+after)
		one(fmt.Sprintf("truncated after token %d '%s'", i, t), "", before+t)
		for _, x := range []string{"}", "zzz"} {
			one(fmt.Sprintf("'%s' after token %d '%s'", x, i, t), "", before+t+" "+x+" "+after)
		}
		more := []string{"?"}
		if thorough {
			more = []string{"?", "{", "@", "7", "\"q\"", "\"", "link", "resource", "=", "[", "(", "in", "target", "//", "/*", "true", ")"}
		}
		for _, x := range more {
			one(fmt.Sprintf("'%s' instead of token %d '%s'", x, i, t), "", before+" "+x+"\n"+after)
		}
	}
	// Files that aren't completely understood:
	for _, x := range []string{"zzz", "}", "{", "service X {\n}", "locator X {\n  target Root\n}", "method X {\n}", "?", "\"", "42", "@", "@x", "// comment", "/* comment */", "\n\n", "clas X {\n}", "Class X {\n}"} {
		one("after the end: "+x, "", rootText+x)
		one("before the beginning: "+x, "", x+"\n"+rootText)
		one("between: "+x, "", rootText+x+"\nclass A {\n  b String\n}\n")
		add("only in second file: "+x, "", files("svc/v1/a.model", rootText, "svc/v1/b.model", x))
		add("only in first file: "+x, "", files("svc/v1/b.model", rootText, "svc/v1/a.model", x))
	}
	one("empty file", "reject", "")
	add("empty second file", "accept", files("svc/v1/a.model", rootText, "svc/v1/b.model", ""))
	add("error only in other version", "reject", files("svc/v1/a.model", rootText, "svc/v2/a.model", rootText+"zzz"))
	add("error only in first version", "reject", files("svc/v1/a.model", rootText+"zzz", "svc/v2/a.model", rootText))
	// Roots:
	one("no root", "reject", "class Thing {\n  name String\n}\n")
	one("no root but other resource", "reject", "resource Thing {\n}\n")
	one("no root but locators", "reject", "resource Thing {\n  locator X {\n    target Other\n  }\n}\nresource Other {\n}\n")
	one("no root and loop", "reject", "resource Thing {\n  locator X {\n    target Thing\n  }\n}\n")
	add("no root in second version", "reject", files("svc/v1/a.model", rootText, "svc/v2/a.model", "class A {\n}\n"))
	add("no root in first version", "reject", files("svc/v1/a.model", "class A {\n}\n", "svc/v2/a.model", rootText))
	add("no root in second service", "reject", files("svc/v1/a.model", rootText, "zzz/v1/a.model", "class A {\n}\n"))
	one("root referenced but not defined", "reject", "resource Thing {\n  locator X {\n    target Root\n  }\n}\n")
	r = append(r, readCase{name: "version without files", files: files("svc/v1/a.model", rootText), dirs: []string{"svc/v2"}, expect: "reject", noDump: true})
	r = append(r, readCase{name: "service without versions", files: files("svc/v1/a.model", rootText), dirs: []string{"zzz"}, expect: "accept", noDump: true})
	r = append(r, readCase{name: "directory in version", files: files("svc/v1/a.model", rootText), dirs: []string{"svc/v1/zzz"}, expect: "accept", noDump: true})
	r = append(r, readCase{name: "file in model", files: files("svc/v1/a.model", rootText, "readme.md", "# hello"), expect: "accept", noDump: true})
	r = append(r, readCase{name: "file in service", files: files("svc/v1/a.model", rootText, "svc/readme.md", "# hello"), expect: "accept", noDump: true})
	r = append(r, readCase{name: "nothing", files: files(), expect: "accept", noDump: true})
	r = append(r, readCase{name: "missing directory", files: files("svc/v1/a.model", rootText), inputs: []string{"/model", "/other"}, expect: "reject", noDump: true})
	r = append(r, readCase{name: "only missing directory", files: files("svc/v1/a.model", rootText), inputs: []string{"/other"}, expect: "reject", noDump: true})
	r = append(r, readCase{name: "file instead of directory", files: files("svc/v1/a.model", rootText), inputs: []string{"/model", "/model/svc/v1/a.model"}, expect: "reject", noDump: true})
	r = append(r, readCase{name: "same directory twice", files: files("svc/v1/a.model", rootText), inputs: []string{"/model", "/model"}, expect: "reject", noDump: true})
	// Locators:
	for i, body := range []string{"", "variable ID", "target Root", "variable ID\n target Root", "target Root\n variable ID"} {
		for _, where := range []string{"Root", "Other"} {
			expect := "reject"
			if where == "Other" && i >= 2 {
				expect = "any"
			}
			one(fmt.Sprintf("locator of %s with '%s'", where, body), expect, rootText+"")
			other := "resource Other {\n}\n"
			text := fmt.Sprintf("resource %s {\n  locator X {\n%s\n  }\n}\n", where, body)
			if where == "Root" {
				text += other
			} else {
				text += rootText
			}
			r[len(r)-1] = readCase{name: fmt.Sprintf("locator of %s with '%s'", where, body), files: files("svc/v1/a.model", text), expect: expect, noDump: true}
		}
	}
	loc := func(n, t string) string { return "  locator " + n + " {\n    target " + t + "\n  }\n" }
	vloc := func(n, t string) string { return "  locator " + n + " {\n    variable ID\n    target " + t + "\n  }\n" }
	res := func(n string, l ...string) string { return "resource " + n + " {\n" + strings.Join(l, "") + "}\n" }
	one("loop of two", "reject", res("Root", loc("A", "A"))+res("A", loc("B", "B"))+res("B", loc("C", "A")))
	one("loop of two with variable", "reject", res("Root", loc("A", "A"))+res("A", vloc("B", "B"))+res("B", loc("C", "A")))
	one("loop to root", "reject", res("Root", loc("A", "A"))+res("A", loc("B", "B"))+res("B", loc("C", "Root")))
	one("loop of three", "reject", res("Root", loc("A", "A"))+res("A", loc("B", "B"))+res("B", loc("C", "C"))+res("C", loc("D", "A")))
	one("loop in second locator", "reject", res("Root", loc("A", "A"), loc("B", "B"))+res("A")+res("B", loc("C", "C"), loc("D", "D"))+res("C")+res("D", loc("X", "B")))
	one("loop in last of several", "reject", res("Root", loc("A", "A"))+res("A", loc("B", "B"), loc("C", "C"), loc("D", "D"))+res("B")+res("C")+res("D", loc("Z", "A")))
	one("loop in first of several", "reject", res("Root", loc("A", "A"))+res("A", loc("B", "B"), loc("C", "C"))+res("B", loc("Z", "A"))+res("C"))
	one("self loop below", "reject", res("Root", loc("A", "A"))+res("A", loc("B", "B"))+res("B", loc("B", "B")))
	one("diamond", "accept", res("Root", loc("A", "A"), loc("B", "B"))+res("A", loc("C", "C"))+res("B", loc("C", "C"))+res("C", loc("D", "D"))+res("D"))
	one("same target twice", "accept", res("Root", loc("A", "A"), loc("B", "A"))+res("A"))
	one("triangle", "accept", res("Root", loc("A", "A"), loc("B", "B"))+res("A", loc("C", "B"))+res("B"))
	one("deep", "accept", res("Root", loc("A", "A"))+res("A", loc("B", "B"))+res("B", loc("C", "C"))+res("C", loc("D", "D"))+res("D", loc("E", "E"))+res("E"))
	one("loop not reachable", "any", rootText+res("A", loc("B", "B"))+res("B", loc("C", "A")))
	one("loop and undefined target", "reject", res("Root", loc("A", "A"), loc("B", "B"))+res("A", loc("C", "A")))
	one("locators with and without target", "reject", res("Root", loc("A", "A"), "  locator B {\n  }\n", loc("C", "C"))+res("A", "  locator B {\n    variable ID\n  }\n")+res("C"))
	// Documentation:
	for _, doc := range []string{"//", "// ", "//\n//", "//\n// x", "//x", "//  x\n//y", "// x\n//\n// y", "// x\n//y", "//\t x\n//\t y", "//   \n// x", "// x\n//   y", "//\n//\n//", "///", "// // x", "//\n//x\n// y", "/* x */", "/* x\n y */", "// x\n\n// y", "// x\n/* y */"} {
		one("documentation of resource "+doc, "", doc+"\n"+rootText)
		one("documentation of enum value "+doc, "", rootText+"enum Color {\n"+doc+"\nred\n"+doc+"\nblue\n}\n")
		one("documentation of attribute "+doc, "", rootText+doc+"\nclass Color {\n"+doc+"\nred String\n}\n")
		one("documentation of parameter "+doc, "", "resource Root {\n"+doc+"\nmethod Restart {\n"+doc+"\nin x String\n}\n}\n")
		one("documentation of locator "+doc, "", "resource Root {\n"+doc+"\nlocator X {\n"+doc+"\ntarget A\n}\n}\nresource A {\n}\n")
		one("documentation of error "+doc, "", rootText+doc+"\nerror X {\n"+doc+"\ncode 1\n}\n")
		one("documentation at the end "+doc, "", rootText+doc)
		one("documentation before end of block "+doc, "", "resource Root {\n"+doc+"\n}\n")
	}
	// Literals:
	for _, l := range []string{"99999999999999999999", "9223372036854775807", "9223372036854775808", "0", "007", `"\q"`, `"\n"`, `""`, "``", "`\\q`", `"é"`, "true", "false", `"\u0041"`} {
		one("default "+l, "any", "resource Root {\n  method Restart {\n    in x Integer = "+l+"\n  }\n}\n")
		one("annotation "+l, "", "@a(b="+l+")\n"+rootText)
		one("code "+l, "", rootText+"error X {\n  code "+l+"\n}\n")
	}
	// Names:
	for _, n := range []string{"a", "A", "_", "__", "a_", "_a", "a1", "A1", "AB", "ABc", "aB", "a1B2", "ABCs", "ABs", "Abs", "A_B", "s", "AS", "XMLs"} {
		one("class named "+n, "any", rootText+"class "+n+" {\n  "+n+" String\n}\n")
		one("resource named "+n, "any", "resource Root {\n  locator "+n+" {\n    target "+n+"\n  }\n  method "+n+" {\n    in "+n+" String\n  }\n}\nresource "+n+" {\n}\n")
		one("enum named "+n, "any", rootText+"enum "+n+" {\n  "+n+"\n}\nerror "+n+" {\n  code 1\n}\n")
		one("annotation named "+n, "any", "@"+n+"("+n+"=1)\n"+rootText)
	}
	// Empty and repeated members:
	for _, d := range []string{"class X {\n}\n", "struct X {\n}\n", "enum X {\n}\n", "error X {\n}\n", "resource X {\n}\n", "error X {\n  code 1\n  code 2\n}\n", "@a()\nclass X {\n}\n", "@a\n@a\nclass X {\n}\n", "@a(b=1 b=2)\nclass X {\n}\n"} {
		one("empty or repeated "+d, "accept", rootText+d)
	}
	one("repeated attribute", "any", rootText+"class X {\n  a String\n  a Integer\n}\n")
	one("repeated value", "any", rootText+"enum X {\n  a\n  a\n}\n")
	one("repeated method", "any", "resource Root {\n  method A {\n  }\n  method A {\n  }\n}\n")
	one("repeated parameter", "any", "resource Root {\n  method A {\n    in x String\n    in x Integer\n  }\n}\n")
	one("repeated locator", "any", "resource Root {\n  locator A {\n    target X\n  }\n  locator A {\n    target X\n  }\n}\nresource X {\n}\n")
	one("repeated target", "any", "resource Root {\n  locator A {\n    target X\n    target Y\n  }\n}\nresource X {\n}\nresource Y {\n}\n")
	one("repeated direction", "accept", "resource Root {\n  method A {\n    in in out x String\n  }\n}\n")
	// References to other services:
	ref := func(p string) string { return rootText + "@ref(path=" + p + ")\nclass Thing {\n}\n" }
	other := rootText + "class Thing {\n  name String\n  x Part\n  l []Part\n  m [String]Part\n  link k Part\n  link n []Part\n}\nclass Part {\n  name String\n}\nclass Own {\n  a Own\n  b []Own\n}\nclass Loop {\n  a Back\n}\nclass Back {\n  a Loop\n}\n"
	for p, expect := range map[string]string{
		`"/other/v1/thing"`: "accept", `"other/v1/thing"`: "accept", `"/other/v1/own"`: "accept", `"/other/v1/loop"`: "accept", `"/other/v1/part"`: "accept",
		`""`: "accept", `"/"`: "reject", `"other"`: "reject", `"other/v1"`: "reject", `"/other/v1"`: "reject", `"other/v1/thing/x"`: "reject",
		`"/other/v1/zzz"`: "reject", `"/other/v2/thing"`: "reject", `"/zzz/v1/thing"`: "reject", `"//v1/thing"`: "reject", `"/other//thing"`: "reject", `"/other/v1/"`: "reject",
		`1`: "reject", `true`: "reject", `"/svc/v1/thing"`: "reject", `"/svc/v1/root"`: "reject", `"/../x"`: "reject",
	} {
		add("reference "+p, expect, files("svc/v1/a.model", ref(p), "other/v1/a.model", other))
		add("reference to later service "+p, expect, files("svc/v1/a.model", strings.Replace(ref(p), "/other/", "/zother/", 1), "other/v1/a.model", other, "zother/v1/a.model", other))
	}
	add("annotation ref without path", "accept", files("svc/v1/a.model", rootText+"@ref\nclass Thing {\n}\n"))
	add("reference to something with syntax errors", "reject", files("svc/v1/a.model", ref(`"/other/v1/thing"`), "other/v1/a.model", rootText+"class Thing {\n  name\n}\n"))
	add("reference chain", "reject", files("svc/v1/a.model", ref(`"/other/v1/thing"`), "other/v1/a.model", ref(`"/third/v1/thing"`), "third/v1/a.model", other))
	add("reference to each other", "reject", files("svc/v1/a.model", ref(`"/other/v1/thing"`), "other/v1/a.model", ref(`"/svc/v1/thing"`)))
	add("reference to undefined", "reject", files("svc/v1/a.model", ref(`"/other/v1/thing"`), "other/v1/a.model", rootText+"class Thing {\n  x Zzz\n}\n"))
	add("reference and attributes", "accept", files("svc/v1/a.model", rootText+"@ref(path=\"/other/v1/thing\")\nclass Thing {\n  own String\n  list []Thing\n}\nclass User {\n  t Thing\n  l []Thing\n  m [String]Thing\n  link k []Thing\n}\n", "other/v1/a.model", other))
	add("reference used before", "accept", files("svc/v1/a.model", "class User {\n  t Thing\n  l []Thing\n  m [String]Thing\n}\n"+ref(`"/other/v1/thing"`), "other/v1/a.model", other))
	return
}

func init() {
	register("P04", func(c *Ctx) {
		c.Rule("no path of the reader reaches a crash for trees with optional parts missing, and files or models that are malformed (every token of a model using all the constructs removed, replaced, inserted or truncated; missing roots and targets; loops of locators; incorrect documentation, literals, names and references) end as reported errors")
		c.readAll(malformedCases(c.Thorough))
	})
}
