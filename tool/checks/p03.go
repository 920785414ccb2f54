package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verif/tool/engine"
	"verif/tool/mm"
)

// The analysis of the error handling of the commands. The failures are forced in the abstract
// execution: either an operation of the operating system or of a library returns an error, or one of
// the branches that report errors is taken even if the model doesn't justify it.

// failureText is a small model that makes the generators use all their parts.
const failureText = `// The root.
resource Root {
  locator Things {
    target Things
  }
}

// The things.
resource Things {
  method Restart {
    in a String
    in out b [String]Thing
    out c []Integer
  }
  method List {
    in Search String
    in out Page Integer = 1
    in out Size Integer = 100
    out Total Integer
    out Items []Thing
  }
  method Add {
    in out Body Thing
  }
  method Search {
    in out Page Integer = 1
    in out Size Integer = 100
    out Total Integer
    in Body Part
    out Items []Thing
  }
  method Post {
    in Request Part
    out Response Thing
  }
  locator Thing {
    variable ID
    target Leaf
  }
}

resource Leaf {
  method Get {
    out Body Thing
  }
  method Update {
    in out Body Thing
  }
  method Delete {
  }
  method AsyncDelete {
    in Force Boolean
  }
  method AsyncUpdate {
    in out Body Thing
  }
}

// The class.
class Thing {
  // An attribute.
  a Integer
  link b []Thing
  link l Other
  c [String]Color
  d Part
  e []Part
  f [String]Part
  g Interface
  h Date
  i []Color
  j Boolean
  k Long
  o Float
  m []String
  n [String]String
}

class Other {
  x String
}

struct Part {
  d Date
}

enum Color {
  // A value.
  Red
  Blue
}

error Bad {
  code 42
}
`

func failureModel() map[string]string {
	return map[string]string{"svc/v1/a.model": failureText}
}

var allCommands = []string{"check", "generate/golang", "generate/openapi", "generate/docs"}

const (
	varReported = "reported"
	varAfter    = "changed after report"
	varFault    = "failed"
)

// reporterFn finds the function used to report errors.
func (c *Ctx) reporterFn() *ssa.Function {
	p := c.S().Prog.Package("pkg/reporter")
	if p == nil {
		return nil
	}
	t := p.Type("Reporter")
	if t == nil {
		return nil
	}
	return c.S().It.FindMethod(types.NewPointer(t.Type()), "Errorf")
}

// watch prepares an interpreter to take note of the reported errors and of the changes to generated
// files that happen later.
func (c *Ctx) watch(it *engine.Interp) {
	errorf := c.reporterFn()
	it.OnCall = func(st *engine.State, fn *ssa.Function) {
		if fn == errorf {
			st.SetVar(varReported, "1")
		}
	}
	changed := func(st *engine.State, what string) {
		if st.Var(varReported) != "" && st.Var(varAfter) == "" {
			st.SetVar(varAfter, what)
		}
	}
	it.OnChange = func(st *engine.State, path string) {
		if strings.HasPrefix(path, mm.OutputDir+"/") {
			changed(st, path)
		}
	}
	for _, n := range []string{"Run", "Output", "CombinedOutput", "Start"} {
		name := "(*os/exec.Cmd)." + n
		m := it.Models[name]
		if m == nil {
			continue
		}
		it.Models[name] = func(call *engine.Call) []engine.Outcome {
			changed(call.S, "the output of an external command")
			return m(call)
		}
	}
}

// consistent verifies the results of a command: it fails exactly when errors are reported, and
// nothing is generated after that.
func (c *Ctx) consistent(key, what string, rs []*mm.Result) {
	for _, r := range rs {
		c.Oblige(1)
		reported := r.S.Var(varReported) != "" || strings.Contains(r.Stderr(), "E:")
		switch {
		case r.Crash != "":
			// Crashes are the subject of other properties, and here they can be the consequence of
			// the forced failure.
			continue
		case reported && r.Exit == 0:
			c.Violation(key+":exit", "%s: an error is reported but the exit code is zero: %s", what, clip(r.Stderr(), 400))
		case !reported && r.Exit != 0 && r.Stderr() == "":
			c.Violation(key+":silent", "%s: the exit code is %d but nothing is reported", what, r.Exit)
		case r.S.Var(varAfter) != "":
			c.Violation(key+":changed", "%s: %s is changed after the error has been reported: %s", what, r.S.Var(varAfter), clip(r.Stderr(), 400))
		}
	}
}

// reportBlocks returns the blocks of a function that report errors.
func reportBlocks(fn, errorf *ssa.Function) (r []*ssa.BasicBlock) {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if call, ok := i.(ssa.CallInstruction); ok && call.Common().StaticCallee() == errorf {
				r = append(r, b)
				break
			}
		}
	}
	return
}

// reaches contains, for one function and one of its blocks, the blocks from which it can be reached
// without following back edges.
func reaches(target *ssa.BasicBlock) map[int]bool {
	m := map[int]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if m[b.Index] {
			return
		}
		m[b.Index] = true
		for _, p := range b.Preds {
			if b.Dominates(p) {
				continue
			}
			visit(p)
		}
	}
	visit(target)
	return m
}

// isErrorTest checks if a condition compares an error with nil. These conditions are never forced,
// because there would be no error; the failures of operations are forced instead.
func isErrorTest(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			return types.Identical(x.X.Type(), types.Universe.Lookup("error").Type())
		}
	case *ssa.UnOp:
		return isErrorTest(x.X)
	}
	return false
}

type reportSite struct {
	fn     *ssa.Function
	target *ssa.BasicBlock
	reach  map[int]bool
	// occurrences is the number of times that the branch was found
	occurrences int
}

func (s *reportSite) name(it *engine.Interp) string {
	for _, i := range s.target.Instrs {
		if call, ok := i.(ssa.CallInstruction); ok && call.Common().StaticCallee() != nil && call.Common().StaticCallee().Name() == "Errorf" {
			return it.Where(i)
		}
	}
	return s.fn.String()
}

func (c *Ctx) forcedReports(cmd string) {
	errorf := c.reporterFn()
	if errorf == nil {
		c.Undecided("can't find the function that reports errors")
		return
	}
	// Find the branches that report errors:
	sites := map[*ssa.Function][]*reportSite{}
	look := func(fn *ssa.Function) []*reportSite {
		l, ok := sites[fn]
		if !ok {
			for _, b := range reportBlocks(fn, errorf) {
				l = append(l, &reportSite{fn: fn, target: b, reach: reaches(b)})
			}
			sites[fn] = l
		}
		return l
	}
	opportunity := func(s *reportSite, x *ssa.If, taken int) bool {
		b := x.Block()
		return s.reach[b.Index] && !s.reach[b.Succs[taken].Index] && s.reach[b.Succs[1-taken].Index] && !isErrorTest(x.Cond)
	}
	in := mm.Input{Files: failureModel()}
	in.Setup = func(it *engine.Interp) {
		c.watch(it)
		it.Flip = func(st *engine.State, fn *ssa.Function, x *ssa.If, taken int) int {
			for _, s := range look(fn) {
				if opportunity(s, x, taken) {
					s.occurrences++
				}
			}
			return taken
		}
	}
	rs := c.Run(cmd, in)
	if rs == nil {
		return
	}
	if len(rs) != 1 || rs[0].Exit != 0 {
		c.Undecided("command %s doesn't accept the model: %s %s", cmd, rs[0].Crash, rs[0].Stderr())
	}
	c.consistent(cmd, cmd, rs)
	var all []*reportSite
	for _, l := range sites {
		for _, s := range l {
			if s.occurrences > 0 {
				all = append(all, s)
			}
		}
	}
	it := c.S().It
	sort.Slice(all, func(i, j int) bool { return all[i].name(it) < all[j].name(it) })
	type job struct {
		s *reportSite
		n int
	}
	var jobs []job
	for _, s := range all {
		last := 0
		for n := 1; n <= s.occurrences; n *= 4 {
			jobs = append(jobs, job{s, n})
			last = n
			if !c.Thorough {
				break
			}
		}
		if last != s.occurrences {
			jobs = append(jobs, job{s, s.occurrences})
		}
	}
	c.Count("branches that report errors", len(all))
	c.Parallel(len(jobs), func(i int) {
		s, n := jobs[i].s, jobs[i].n
		count, forcing, done := 0, false, false
		in := mm.Input{Files: failureModel()}
		in.Setup = func(it *engine.Interp) {
			c.watch(it)
			it.Flip = func(st *engine.State, fn *ssa.Function, x *ssa.If, taken int) int {
				if done || fn != s.fn {
					return taken
				}
				b := x.Block()
				if !forcing {
					if !opportunity(s, x, taken) {
						return taken
					}
					count++
					if count < n {
						return taken
					}
					forcing = true
				}
				r := taken
				if s.reach[b.Index] && !s.reach[b.Succs[taken].Index] {
					if !s.reach[b.Succs[1-taken].Index] {
						done = true
						return taken
					}
					if isErrorTest(x.Cond) {
						done = true
						return taken
					}
					r = 1 - taken
				}
				if b.Succs[r] == s.target {
					done = true
				}
				return r
			}
		}
		rs, fit, err := c.S().Run(cmd, in)
		c.Note(fit)
		c.Count("forced reports", 1)
		where := s.name(it)
		if err != nil {
			c.Count("forced reports that can't be analysed", 1)
			return
		}
		c.consistent(cmd+":"+s.fn.String(), fmt.Sprintf("command '%s', report at %s", cmd, where), rs)
	})
}

// fault is an operation that can fail.
type fault struct {
	what string
	site string
	n    int
}

// faults finds the operations that can fail during the analysis of a command.
func (c *Ctx) faults(cmd string, files map[string]string) (r []fault) {
	var mu sync.Mutex
	counts := map[fault]int{}
	in := mm.Input{Files: files}
	in.Setup = func(it *engine.Interp) {
		c.watch(it)
		it.Fault = func(st *engine.State, what string, site ssa.Instruction) bool {
			mu.Lock()
			counts[fault{what: what, site: it.Where(site)}]++
			mu.Unlock()
			return false
		}
	}
	rs := c.Run(cmd, in)
	if len(rs) != 1 || rs[0].Exit != 0 {
		c.Undecided("command %s doesn't accept the model", cmd)
		return nil
	}
	for f, total := range counts {
		step := 8
		if c.Thorough {
			step = 2
		}
		last := 0
		for n := 1; n <= total; n *= step {
			r = append(r, fault{f.what, f.site, n})
			last = n
		}
		if last != total {
			r = append(r, fault{f.what, f.site, total})
		}
	}
	sort.Slice(r, func(i, j int) bool {
		a, b := r[i], r[j]
		if a.site != b.site {
			return a.site < b.site
		}
		if a.what != b.what {
			return a.what < b.what
		}
		return a.n < b.n
	})
	return
}

// forcedFaults makes each of the operations fail, and calls the function with the results.
func (c *Ctx) forcedFaults(cmd string, files map[string]string, f func(f fault, rs []*mm.Result)) {
	l := c.faults(cmd, files)
	sites := map[string]bool{}
	for _, x := range l {
		sites[x.what+x.site] = true
	}
	c.Count("operations that can fail", len(sites))
	c.Parallel(len(l), func(i int) {
		x := l[i]
		count := 0
		in := mm.Input{Files: files}
		in.Setup = func(it *engine.Interp) {
			c.watch(it)
			it.Fault = func(st *engine.State, what string, site ssa.Instruction) bool {
				if what != x.what || it.Where(site) != x.site {
					return false
				}
				count++
				if count != x.n {
					return false
				}
				st.SetVar(varFault, "1")
				return true
			}
		}
		rs, it, err := c.S().Run(cmd, in)
		c.Note(it)
		c.Count("forced failures", 1)
		if err != nil {
			c.Undecided("%s with failure of %s at %s: %v", cmd, x.what, x.site, err)
			return
		}
		if c.imprecise(it, cmd) {
			return
		}
		f(x, rs)
	})
}

func init() {
	register("P03", func(c *Ctx) {
		c.Rule("every branch of the reader and of the generators that reports an error is forced, one at a time, in the abstract execution of every command; every operation that can fail is forced to fail; and malformed models are given to every command: whenever an error has been reported the command must finish with an exit code different from zero, no generated file may be changed after that, and when nothing is reported the exit code must be zero")
		for _, cmd := range allCommands {
			c.forcedReports(cmd)
			c.forcedFaults(cmd, failureModel(), func(x fault, rs []*mm.Result) {
				c.consistent(cmd+":"+x.what+":"+x.site, fmt.Sprintf("command '%s', failure of %s at %s", cmd, x.what, x.site), rs)
			})
		}
		// Malformed models:
		type job struct {
			cmd  string
			name string
			in   mm.Input
		}
		var jobs []job
		cases := append(malformedCases(c.Thorough), definitionCases(c.Thorough)...)
		for i, k := range cases {
			for j, cmd := range allCommands {
				// The generators add little to what is found with the check, so use only some of the
				// cases with them:
				if j > 0 && !c.Thorough && i%16 != 0 {
					continue
				}
				jobs = append(jobs, job{cmd, k.name, mm.Input{Files: k.files, Dirs: k.dirs}})
			}
		}
		// Models with many errors, because the exit code doesn't have room for all of them:
		for n := 253; n <= 258; n++ {
			text := "struct Thing {\n"
			for i := 0; i < n; i++ {
				text += fmt.Sprintf("  F%d X%d\n", i, i)
			}
			text += "}\n"
			for _, cmd := range allCommands {
				jobs = append(jobs, job{cmd, fmt.Sprintf("%d errors", n), mm.Input{Files: files("svc/v1/a.model", "resource Root {\n}\n"+text)}})
			}
		}
		for _, cmd := range allCommands {
			for name, flags := range map[string]map[string]interface{}{
				"without model":           {"model": []string{}},
				"without output":          {"output": ""},
				"without base":            {"base": ""},
				"model doesn't exist":     {"model": []string{"/missing"}},
				"one of two models":       {"model": []string{"/missing", mm.ModelDir}},
				"another of two models":   {"model": []string{mm.ModelDir, "/missing"}},
				"model isn't a directory": {"model": []string{mm.ModelDir + "/svc/v1/a.model"}},
				"without everything":      {"model": []string{}, "output": "", "base": ""},
			} {
				jobs = append(jobs, job{cmd, name, mm.Input{Files: failureModel(), Flags: flags}})
			}
		}
		c.Parallel(len(jobs), func(i int) {
			j := jobs[i]
			j.in.Setup = c.watch
			rs, it, err := c.S().Run(j.cmd, j.in)
			c.Note(it)
			c.Count("malformed models", 1)
			if err != nil {
				c.Undecided("%s %s: %v", j.cmd, j.name, err)
				return
			}
			if c.imprecise(it, j.cmd+" "+j.name) {
				return
			}
			c.consistent(j.cmd+":"+j.name, fmt.Sprintf("command '%s', model '%s'", j.cmd, j.name), rs)
			if strings.HasPrefix(j.name, "without") || strings.Contains(j.name, "models") || strings.HasPrefix(j.name, "model ") {
				applies := j.cmd != "check" || j.in.Flags["model"] != nil
				if j.in.Flags["base"] != nil && j.in.Flags["model"] == nil {
					applies = j.cmd == "generate/golang"
				}
				for _, r := range rs {
					if applies && r.Crash == "" && r.Exit == 0 {
						c.Violation(j.cmd+":"+j.name, "command '%s' with options '%s' doesn't fail", j.cmd, j.name)
					}
				}
			}
		})
		// Correct models:
		shapes := c.makeShapes()
		var ok []job
		for _, s := range shapes {
			for _, cmd := range allCommands {
				ok = append(ok, job{cmd, s.name, mm.Input{Files: s.files, Flags: map[string]interface{}{"base": "gen/" + s.name}}})
			}
		}
		c.Parallel(len(ok), func(i int) {
			j := ok[i]
			j.in.Setup = c.watch
			rs, it, err := c.S().Run(j.cmd, j.in)
			c.Note(it)
			c.Count("correct models", 1)
			if err != nil {
				c.Undecided("%s %s: %v", j.cmd, j.name, err)
				return
			}
			c.consistent(j.cmd+":"+j.name, fmt.Sprintf("command '%s', model '%s'", j.cmd, j.name), rs)
		})
	})
	register("P23", func(c *Ctx) {
		c.Rule("every operation of the operating system or of a library that can fail (check, list, open, read, create, write, close and remove files and directories, split into lines, parse and execute templates, run and find commands) is forced to fail, one at a time, in the abstract execution of every command; that must be reported and the exit code must be different from zero")
		for _, cmd := range allCommands {
			cmd := cmd
			c.forcedFaults(cmd, failureModel(), func(x fault, rs []*mm.Result) {
				for _, r := range rs {
					if r.S.Var(varFault) == "" {
						continue
					}
					c.Oblige(1)
					switch {
					case r.Crash != "":
						c.Violation(cmd+":"+x.what+":"+x.site+":crash", "command '%s' crashes when %s fails at %s: %s at %s", cmd, x.what, x.site, r.Crash, r.Where)
					case r.Exit == 0:
						c.Violation(cmd+":"+x.what+":"+x.site+":lost", "command '%s' finishes with exit code zero when %s fails at %s (occurrence %d)", cmd, x.what, x.site, x.n)
					case r.Stderr() == "":
						c.Violation(cmd+":"+x.what+":"+x.site+":silent", "command '%s' doesn't report that %s fails at %s", cmd, x.what, x.site)
					}
				}
			})
		}
	})
}
