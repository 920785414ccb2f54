package checks

import (
	"fmt"
	"sort"
	"strings"

	"verif/tool/engine"
	"verif/tool/mm"
	"verif/tool/spec"
)

// readCase is a set of model files, and what is expected from the reader.
type readCase struct {
	name  string
	files map[string]string
	dirs  []string
	// expect is "accept", "reject", "any", or empty to use the specification.
	expect string
	inputs []string
	noDump bool
	// several is true if the first component of the paths is the input.
	several bool
}

// merged returns the files of all the inputs as if they were in only one.
func (rc *readCase) merged() map[string]string {
	if !rc.several {
		return rc.files
	}
	r := map[string]string{}
	for p, t := range rc.files {
		c := strings.Split(p, "/")
		r[c[1]+"/"+c[2]+"/"+c[0]+"_"+c[3]] = t
	}
	return r
}

const errorfName = "(*" + mm.Module + "/pkg/reporter.Reporter).Errorf"

// read analyses the reader for the given case and compares the results with the specification.
func (c *Ctx) read(rc readCase) {
	m := spec.Of(rc.merged())
	expect := rc.expect
	if expect == "" {
		expect = "accept"
		if len(m.Problems) > 0 {
			expect = "reject"
		}
	}
	rs, it, err := c.S().Read(mm.Input{
		Files: rc.files, Dirs: rc.dirs, Inputs: rc.inputs,
		Setup: func(it *interp) { it.Trace = map[string]bool{errorfName: true} },
	})
	c.Note(it)
	c.Oblige(1)
	c.Count("models expected to be "+map[string]string{"accept": "accepted", "reject": "rejected", "any": "accepted or rejected"}[expect], 1)
	if err != nil {
		c.Undecided("%s: %v", rc.name, err)
		return
	}
	if c.imprecise(it, rc.name) {
		return
	}
	text := showFiles(rc.files)
	for _, r := range rs {
		switch {
		case r.Crash != "":
			c.Violation("crash:"+rc.name, "Reading the model of case '%s' crashes: %s at %s\n%s", rc.name, r.Crash, r.Where, text)
			continue
		case r.Failed != (r.Reported > 0):
			c.Violation("result:"+rc.name, "Reading case '%s' reports %d errors but failed is %v\n%s", rc.name, r.Reported, r.Failed, text)
			continue
		case r.Failed && !r.Model.Nil():
			c.Violation("model:"+rc.name, "Reading case '%s' fails but returns a model\n%s", rc.name, text)
			continue
		case !r.Failed && expect == "reject":
			c.Violation("accepted:"+rc.name, "The model of case '%s' should be rejected (%s), but no function of the reader reports it: %s\n%s",
				rc.name, strings.Join(m.Problems, ", "), where(it, "reader.go"), text)
			continue
		case r.Failed && expect == "accept":
			c.Violation("rejected:"+rc.name, "The model of case '%s' should be accepted but it is rejected at %s:\n%s\n%s",
				rc.name, strings.Join(it.TraceLog, ", "), stderr(it, r), text)
			continue
		}
		if r.Failed || rc.noDump || r.Model.Nil() {
			continue
		}
		var got, bad []string
		var crash *mm.Crash
		err := engine.Protect(func() {
			defer func() {
				if x := recover(); x != nil {
					if k, ok := x.(mm.Crash); ok {
						crash = &k
						return
					}
					panic(x)
				}
			}()
			r.View.ParamNames = m.ParamNames()
			got, bad = r.View.DumpModel(r.Model)
		})
		if crash != nil {
			c.Violation("query:"+rc.name, "Querying the model of case '%s' crashes: %s at %s\n%s", rc.name, crash.Msg, crash.Where, text)
			continue
		}
		if err != nil {
			c.Undecided("%s: %v", rc.name, err)
			continue
		}
		c.Count("facts compared", len(got))
		for _, b := range bad {
			c.Violation("inconsistent:"+rc.name, "In case '%s' %s\n%s", rc.name, b, text)
		}
		if d := diffLines(m.Dump(), got); d != "" {
			c.Violation("facts:"+rc.name, "The model of case '%s' doesn't contain what the files declare (- declared, + recorded; see %s):\n%s\n%s",
				rc.name, where(it, "reader.go"), d, text)
		}
	}
}

func stderr(it *engine.Interp, r *mm.ReadResult) string {
	t := it.Files(r.View.St)["<stderr>"]
	return strings.NewReplacer("\033[0;31m", "", "\033[m", "").Replace(t)
}

func showFiles(files map[string]string) string {
	var l []string
	for p := range files {
		l = append(l, p)
	}
	sort.Strings(l)
	var sb strings.Builder
	for _, p := range l {
		fmt.Fprintf(&sb, "--- %s\n%s\n", p, files[p])
	}
	return sb.String()
}

// diffLines returns the first differences.
func diffLines(want, got []string) string {
	w, g := map[string]int{}, map[string]int{}
	for _, l := range want {
		w[l]++
	}
	for _, l := range got {
		g[l]++
	}
	var out []string
	for _, l := range want {
		if g[l] < w[l] {
			out = append(out, "- "+l)
		}
	}
	for _, l := range got {
		if w[l] < g[l] {
			out = append(out, "+ "+l)
		}
	}
	if len(out) == 0 {
		for i := range want {
			if want[i] != got[i] {
				return fmt.Sprintf("order: declared '%s', recorded '%s'", want[i], got[i])
			}
		}
		return ""
	}
	if len(out) > 12 {
		out = append(out[:12], "...")
	}
	return strings.Join(out, "\n")
}

func (c *Ctx) readAll(cases []readCase) {
	c.S()
	c.Parallel(len(cases), func(i int) { c.read(cases[i]) })
}

func files(list ...string) map[string]string {
	m := map[string]string{}
	for i := 0; i < len(list); i += 2 {
		m[list[i]] = list[i+1]
	}
	return m
}

const rootText = "resource Root {\n}\n"

// definitionCases are the cases of dangling and duplicated definitions.
func definitionCases(thorough bool) (r []readCase) {
	refs := map[string]string{
		"attribute":         "class User {\n  x %s\n}\n",
		"link":              "class User {\n  link x %s\n}\n",
		"list attribute":    "struct User {\n  x []%s\n}\n",
		"link list":         "struct User {\n  link x []%s\n}\n",
		"map key":           "class User {\n  x [%s]Integer\n}\n",
		"map element":       "class User {\n  x [String]%s\n}\n",
		"parameter":         "resource Other {\n  method Do {\n    in x %s\n  }\n}\n",
		"list parameter":    "resource Other {\n  method Do {\n    x []%s\n  }\n}\n",
		"map parameter":     "resource Other {\n  method Do {\n    in out x [String]%s\n  }\n}\n",
		"map key parameter": "resource Other {\n  method Do {\n    in out x [%s]String\n  }\n}\n",
		"locator":           "resource Other {\n  locator X {\n    target %s\n  }\n}\n",
		"variable":          "resource Other {\n  locator X {\n    variable ID\n    target %s\n  }\n}\n",
	}
	var names []string
	for n := range refs {
		names = append(names, n)
	}
	sort.Strings(names)
	defs := map[string]string{
		"class":     "class Thing {\n  name String\n}\n",
		"struct":    "struct Thing {\n  name String\n}\n",
		"enum":      "enum Thing {\n  red\n  blue\n}\n",
		"resource":  "resource Thing {\n}\n",
		"error":     "error Thing {\n  code 7\n}\n",
		"class aws": "class AWSThing {\n  name String\n}\n",
	}
	kinds := []string{"class", "struct", "enum", "resource", "error"}
	for _, n := range names {
		use := fmt.Sprintf(refs[n], "Thing")
		isRes := n == "locator" || n == "variable"
		add := func(what string, f map[string]string) {
			r = append(r, readCase{name: n + " " + what, files: f})
		}
		add("undefined", files("svc/v1/a.model", rootText+use))
		add("undefined alone", files("svc/v1/a.model", use, "svc/v1/b.model", rootText))
		for _, d := range kinds {
			def := defs[d]
			if d == "error" {
				add("error isn't a type", files("svc/v1/a.model", rootText+use+def))
				continue
			}
			if isRes != (d == "resource") {
				add("wrong kind "+d, files("svc/v1/a.model", rootText+use+def))
				add("wrong kind first "+d, files("svc/v1/a.model", rootText+def+use))
				continue
			}
			add(d+" before", files("svc/v1/a.model", rootText+def+use))
			add(d+" after", files("svc/v1/a.model", rootText+use+def))
			add(d+" in previous file", files("svc/v1/a.model", def, "svc/v1/b.model", use+rootText))
			add(d+" in later file", files("svc/v1/a.model", use, "svc/v1/b.model", rootText+def))
			add(d+" two references", files("svc/v1/a.model", use, "svc/v1/b.model", rootText+def+strings.Replace(strings.Replace(use, "User", "Second", 1), "Other", "Second", 1)))
			other := rootText + def
			add(d+" in later version", files("svc/v1/a.model", rootText+use, "svc/v2/a.model", other))
			add(d+" in previous version", files("svc/v2/a.model", rootText+use, "svc/v1/a.model", other))
			add(d+" in later service", files("svc/v1/a.model", rootText+use, "zzz/v1/a.model", other))
			add(d+" in previous service", files("svc/v1/a.model", rootText+use, "aaa/v1/a.model", other))
			add(d+" in this and later version", files("svc/v1/a.model", rootText+use+def, "svc/v2/a.model", other))
			add(d+" in this and previous version", files("svc/v2/a.model", rootText+use+def, "svc/v1/a.model", other))
			add(d+" used in both, defined in first", files("svc/v1/a.model", rootText+use+def, "svc/v2/a.model", rootText+use))
			add(d+" used in both, defined in second", files("svc/v1/a.model", rootText+use, "svc/v2/a.model", rootText+use+def))
			add(d+" used in both services, defined in first", files("aaa/v1/a.model", rootText+use+def, "bbb/v1/a.model", rootText+use))
			add(d+" used in both services, defined in second", files("aaa/v1/a.model", rootText+use, "bbb/v1/a.model", rootText+use+def))
			add(d+" used in three versions, defined in the middle", files("svc/v1/a.model", rootText+use, "svc/v2/a.model", rootText+use+def, "svc/v3/a.model", rootText+use))
			add(d+" used in three versions, defined in the last", files("svc/v1/a.model", rootText, "svc/v2/a.model", rootText+use, "svc/v3/a.model", rootText+use+def))
			for _, e := range kinds {
				if e == "error" || isRes != (e == "resource") {
					continue
				}
				add(d+" before and "+e+" after", files("svc/v1/a.model", rootText+def+use+defs[e]))
				add(d+" after and "+e+" after", files("svc/v1/a.model", rootText+use+def+defs[e]))
				add(d+" and "+e+" in other file", files("svc/v1/a.model", rootText+use, "svc/v1/b.model", def, "svc/v1/c.model", defs[e]))
			}
		}
		// Same words, different name:
		add("initialism undefined", files("svc/v1/a.model", rootText+fmt.Sprintf(refs[n], "AWSThing")+strings.Replace(defs["class aws"], "AWSThing", "AwsThing", 1)))
		add("initialism defined", files("svc/v1/a.model", rootText+fmt.Sprintf(refs[n], "AWSThing")+strings.Replace(map[bool]string{true: "resource AWSThing {\n}\n", false: defs["class aws"]}[isRes], "x", "x", 1)))
		add("prefix undefined", files("svc/v1/a.model", rootText+fmt.Sprintf(refs[n], "ThingPart")+defs["class"]+defs["resource"]))
		// Two undefined:
		add("two undefined", files("svc/v1/a.model", rootText+use+strings.Replace(strings.Replace(fmt.Sprintf(refs[n], "Zzz"), "User", "Second", 1), "Other", "Second", 1)))
		add("first undefined", files("svc/v1/a.model", rootText+use+strings.Replace(strings.Replace(fmt.Sprintf(refs[n], "Zzz"), "User", "Second", 1), "Other", "Second", 1)+"class Zzz {\n}\nresource Zzz {\n}\n"))
		for _, b := range []string{"String", "Integer", "Boolean", "Long", "Float", "Date", "Interface"} {
			if !isRes {
				add("builtin "+b, files("svc/v1/a.model", rootText+fmt.Sprintf(refs[n], b)))
			} else {
				add("builtin "+b, files("svc/v1/a.model", rootText+fmt.Sprintf(refs[n], b)))
			}
		}
	}
	// Duplicates without references:
	for _, d := range kinds {
		for _, e := range kinds {
			both := defs[d] + defs[e]
			r = append(r,
				readCase{name: "duplicate " + d + " " + e, files: files("svc/v1/a.model", rootText+both)},
				readCase{name: "duplicate in files " + d + " " + e, files: files("svc/v1/a.model", rootText+defs[d], "svc/v1/b.model", defs[e])},
				readCase{name: "three " + d + " " + e, files: files("svc/v1/a.model", rootText+defs[d], "svc/v1/b.model", defs[e]+"class Thing2 {\n}\n", "svc/v1/c.model", defs[d])},
				readCase{name: "versions " + d + " " + e, files: files("svc/v1/a.model", rootText+defs[d], "svc/v2/b.model", rootText+defs[e])},
				readCase{name: "services " + d + " " + e, files: files("svc/v1/a.model", rootText+defs[d], "zzz/v1/b.model", rootText+defs[e])},
			)
		}
	}
	for _, b := range []string{"String", "Integer", "Boolean", "Long", "Float", "Date", "Interface"} {
		for _, k := range []string{"class", "struct", "enum"} {
			r = append(r, readCase{name: "redefined builtin " + k + " " + b, files: files("svc/v1/a.model", rootText+k+" "+b+" {\n}\n")})
		}
		r = append(r, readCase{name: "resource named as builtin " + b, files: files("svc/v1/a.model", rootText+"resource "+b+" {\n}\n")})
	}
	r = append(r, readCase{name: "two roots", files: files("svc/v1/a.model", rootText+rootText)})
	// Errors without code, or with code zero:
	for _, a := range []string{"", "  code 0\n", "  code 1\n"} {
		for _, b := range []string{"", "  code 0\n", "  code 1\n"} {
			ea, eb := "error Bad {\n"+a+"}\n", "error Bad {\n"+b+"}\n"
			r = append(r,
				readCase{name: "duplicate errors '" + a + "' and '" + b + "'", files: files("svc/v1/a.model", rootText+ea+eb)},
				readCase{name: "duplicate errors in files '" + a + "' and '" + b + "'", files: files("svc/v1/a.model", rootText+ea, "svc/v1/b.model", eb)},
				readCase{name: "errors in versions '" + a + "' and '" + b + "'", files: files("svc/v1/a.model", rootText+ea, "svc/v2/b.model", rootText+eb)},
			)
		}
	}
	for _, a := range []string{"", "  method Do {\n  }\n", "  locator X {\n    target Root\n  }\n"} {
		for _, b := range []string{"", "  method Do {\n  }\n", "  locator X {\n    target Root\n  }\n"} {
			r = append(r, readCase{name: "duplicate resources '" + a + "' and '" + b + "'", files: files("svc/v1/a.model", rootText+"resource Thing {\n"+a+"}\nresource Thing {\n"+b+"}\n")})
		}
	}
	for _, a := range []string{"class", "struct", "enum"} {
		for _, b := range []string{"class", "struct", "enum"} {
			r = append(r, readCase{name: "duplicate empty " + a + " and " + b, files: files("svc/v1/a.model", rootText+a+" Thing {\n}\n"+b+" Thing {\n}\n")})
		}
	}
	// Several inputs:
	inputs := []string{"/model/one", "/model/two"}
	for _, d := range kinds {
		use := fmt.Sprintf(refs["attribute"], "Thing")
		if d == "resource" {
			use = fmt.Sprintf(refs["locator"], "Thing")
		}
		add := func(what string, f map[string]string) {
			r = append(r, readCase{name: "several inputs, " + d + " " + what, files: f, inputs: inputs, several: true})
		}
		add("in first", files("one/svc/v1/a.model", rootText+defs[d], "two/svc/v1/a.model", use))
		add("in second", files("one/svc/v1/a.model", rootText+use, "two/svc/v1/a.model", defs[d]))
		add("in both", files("one/svc/v1/a.model", rootText+defs[d], "two/svc/v1/a.model", defs[d]))
		add("in both versions", files("one/svc/v1/a.model", rootText+defs[d], "two/svc/v2/a.model", rootText+defs[d]))
		add("in both services", files("one/svc/v1/a.model", rootText+defs[d], "two/zzz/v1/a.model", rootText+defs[d]))
		add("in other version of second", files("one/svc/v1/a.model", rootText+use, "two/svc/v2/a.model", rootText+defs[d]))
		add("in other version of first", files("one/svc/v2/a.model", rootText+defs[d], "two/svc/v1/a.model", rootText+use))
		add("in none", files("one/svc/v1/a.model", rootText+use, "two/svc/v1/a.model", "class Zzz {\n}\n"))
	}
	// Self references and mutual references:
	r = append(r,
		readCase{name: "self reference", files: files("svc/v1/a.model", rootText+"class Thing {\n  x Thing\n  y []Thing\n  z [String]Thing\n}\n")},
		readCase{name: "mutual reference", files: files("svc/v1/a.model", rootText+"class Thing {\n  x Part\n}\nclass Part {\n  x Thing\n}\n")},
		readCase{name: "one of two missing", files: files("svc/v1/a.model", rootText+"class Thing {\n  x Part\n  y Bad\n}\nclass Part {\n  x Thing\n}\n")},
		readCase{name: "missing in list and map", files: files("svc/v1/a.model", rootText+"class Thing {\n  x [String]Bad\n  y []Bad\n}\n")},
		readCase{name: "defined after list and map", files: files("svc/v1/a.model", rootText+"class Thing {\n  x [String]Part\n  y []Part\n  z Part\n}\nstruct Part {\n}\n")},
	)
	return
}

func init() {
	register("P01", func(c *Ctx) {
		c.Rule("every reference form (attribute, link, list, map key, map element, parameter, locator target) is crossed with every declaration kind and every position of the definition (before, after, other file, other version, other service, missing, duplicated); the abstract result of the reader must be a failure exactly when the specification finds a missing or duplicated definition, and the resulting model must resolve each reference to that one definition")
		c.readAll(definitionCases(c.Thorough))
	})
}
