package checks

import (
	"fmt"
	"os"
	"strings"

	"verif/tool/mm"
)

func readFile(p string) (string, error) {
	b, err := os.ReadFile(p)
	return string(b), err
}

func init() {
	register("P11", func(c *Ctx) {
		c.Rule("the residual Go code of each model shape (obtained by abstract interpretation of the generators) is parsed and type checked, with the import changes that goimports does")
		c.tooMany()
		for _, s := range c.load() {
			if s.Go == nil {
				for _, p := range s.problems {
					c.Violation("generation:"+s.name, "Shape '%s': %s\n%s", s.name, p, showFiles(s.files))
				}
				continue
			}
			lines := 0
			for _, n := range sortedNames(s.Go) {
				if strings.HasSuffix(n, ".go") {
					c.Oblige(1)
					lines += strings.Count(s.Go[n], "\n")
				}
			}
			c.Count("generated files type checked", len(s.Go))
			c.Count("generated lines type checked", lines)
			for _, e := range s.unit.Errors {
				c.Violation("compile:"+s.name+":"+e.File+":"+e.Msg, "Generated file %s doesn't compile, line %d: %s: %s (generated by %s)", e.File, e.Line, e.Text, e.Msg, c.provenance(e.File, e.Text))
			}
		}
	})
}

// tooMany checks that generation fails for types with more attributes than bits.
func (c *Ctx) tooMany() {
	type big struct {
		kind string
		n    int
	}
	l := []big{{"struct", 65}, {"class", 62}, {"struct", 66}, {"class", 65}, {"class", 100}, {"struct", 130}}
	c.Parallel(len(l), func(i int) {
		text := rootText + partsText + manyAttributes(l[i].kind, "Big", l[i].n, "x")
		rs, it, err := c.S().Run("generate/golang", mm.Input{Files: files("svc/v1/a.model", text), Flags: map[string]interface{}{"base": "gen/big"}})
		c.Note(it)
		what := fmt.Sprintf("%s with %d attributes", l[i].kind, l[i].n)
		if err != nil {
			c.Undecided("%s: %v", what, err)
			return
		}
		if c.imprecise(it, what) {
			return
		}
		c.Oblige(1)
		for _, r := range rs {
			switch {
			case r.Crash != "":
				c.Violation("limit:crash:"+l[i].kind, "The generator crashes for a %s: %s at %s", what, r.Crash, r.Where)
			case r.Exit == 0:
				c.Violation("limit:"+l[i].kind, "The generator doesn't fail for a %s, but the presence bitmap has only 64 bits", what)
			}
		}
	})
}
