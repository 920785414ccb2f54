package checks

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/tool/engine"
	"verif/tool/mm"
)

// environment contains the functions of the standard library whose results depend on the
// environment. An empty list of functions means all of them.
var environment = map[string][]string{
	"time":          {"Now", "Since", "Until"},
	"math/rand":     nil,
	"math/rand/v2":  nil,
	"crypto/rand":   nil,
	"hash/maphash":  nil,
	"os/user":       nil,
	"runtime":       {"NumCPU", "NumGoroutine", "GOMAXPROCS", "NumCgoCall", "Version", "GOROOT", "Caller", "Callers"},
	"runtime/debug": {"ReadBuildInfo"},
	"os": {
		"Getenv", "LookupEnv", "Environ", "ExpandEnv", "Getpid", "Getppid", "Getuid", "Geteuid", "Getgid", "Getegid",
		"Hostname", "Getwd", "UserHomeDir", "UserCacheDir", "UserConfigDir", "TempDir", "Executable", "Getpagesize",
	},
}

func isEnvironment(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	l, ok := environment[fn.Pkg.Pkg.Path()]
	if !ok {
		return false
	}
	if l == nil {
		return true
	}
	if fn.Signature.Recv() != nil {
		return false
	}
	for _, n := range l {
		if n == fn.Name() {
			return true
		}
	}
	return false
}

// variation is one of the ways to repeat a generation.
type variation struct {
	name string
	// apply changes the input.
	apply func(in *mm.Input, base map[string]string)
}

// goimports sorts the imports, so their order in the generated files isn't relevant.
func sortImports(text string) string {
	lines := strings.Split(text, "\n")
	for i := 0; i < len(lines); i++ {
		if lines[i] == "import (" {
			j := i + 1
			for j < len(lines) && lines[j] != ")" {
				j++
			}
			sort.Strings(lines[i+1 : j])
			break
		}
	}
	return strings.Join(lines, "\n")
}

// reversed puts in reverse order all the declarations of a model.
func reversed(text string) []string {
	lines := strings.Split(strings.TrimSpace(text), "\n")
	pos := 0
	var items func() []string
	items = func() (r []string) {
		var lead []string
		for pos < len(lines) {
			l := lines[pos]
			t := strings.TrimSpace(l)
			switch {
			case t == "}":
				return
			case t == "":
				// Comments are associated to what follows even if there are blank lines.
				lead = append(lead, l)
				pos++
			case strings.HasPrefix(t, "//"), strings.HasPrefix(t, "@") && strings.HasSuffix(t, ")"), strings.HasPrefix(t, "@") && !strings.Contains(t, " "):
				lead = append(lead, l)
				pos++
			case strings.HasSuffix(t, "{"):
				pos++
				inner := items()
				pos++
				block := append(lead, l)
				for i := len(inner) - 1; i >= 0; i-- {
					block = append(block, inner[i])
				}
				block = append(block, "}")
				r = append(r, strings.Join(block, "\n"))
				lead = nil
			default:
				pos++
				r = append(r, strings.Join(append(lead, l), "\n"))
				lead = nil
			}
		}
		return
	}
	return items()
}

// combined applies several variations.
func combined(name string, l ...variation) variation {
	return variation{name, func(in *mm.Input, base map[string]string) {
		var setups []func(it *engine.Interp)
		for _, v := range l {
			v.apply(in, base)
			if in.Setup != nil {
				setups = append(setups, in.Setup)
				in.Setup = nil
			}
		}
		in.Setup = func(it *engine.Interp) {
			for _, f := range setups {
				f(it)
			}
		}
	}}
}

func variations(thorough bool, s *shape) []variation {
	setup := func(f func(it *engine.Interp)) func(in *mm.Input, base map[string]string) {
		return func(in *mm.Input, base map[string]string) { in.Setup = f }
	}
	r := []variation{
		{"with the maps in reverse order", setup(func(it *engine.Interp) { it.MapOrder = 1 })},
		{"with the maps sorted", setup(func(it *engine.Interp) { it.MapOrder = 2 })},
		{"with the maps rotated", setup(func(it *engine.Interp) { it.MapOrder = 3 })},
		{"with another clock, environment and process", setup(func(it *engine.Interp) { it.Variant = 1 })},
		{"with another temporary directory", setup(func(it *engine.Interp) {
			m := engine.Direct(func(d *engine.D, a []engine.Value) engine.Value {
				d.I.PutDir(d.S, "/var/tmp/other")
				return engine.Tuple{engine.C("/var/tmp/other"), engine.Nil{}}
			})
			it.Models["os.MkdirTemp"] = m
			it.Models["io/ioutil.TempDir"] = m
		})},
		{"with other files already in the output directory", func(in *mm.Input, base map[string]string) {
			in.Existing = map[string]string{}
			for n := range base {
				in.Existing[n] = "something old\n"
			}
		}},
		{"with the declarations in reverse order", func(in *mm.Input, base map[string]string) {
			files := map[string]string{}
			for n, t := range in.Files {
				items := reversed(t)
				for i, j := 0, len(items)-1; i < j; i, j = i+1, j-1 {
					items[i], items[j] = items[j], items[i]
				}
				files[n] = strings.Join(items, "\n\n") + "\n"
			}
			in.Files = files
		}},
		{"with the declarations in several files", func(in *mm.Input, base map[string]string) {
			files := map[string]string{}
			for n, t := range in.Files {
				items := reversed(t)
				for i, x := range items {
					files[fmt.Sprintf("%s%03d.model", strings.TrimSuffix(n, ".model"), len(items)-i)] = x + "\n"
				}
			}
			in.Files = files
		}},
	}
	// References to other services depend on the order of the declarations:
	for _, t := range s.files {
		if strings.Contains(t, "@ref") {
			r = r[:6]
			break
		}
	}
	if thorough {
		return r
	}
	q := []variation{r[0], r[2], combined("with another clock, environment, process, temporary directory and files in the output directory", r[3], r[4], r[5])}
	if len(r) > 6 {
		q = append(q, r[7])
	}
	return q
}

func init() {
	register("P07", func(c *Ctx) {
		c.Rule("the abstract generation of every shape is repeated with other iteration orders of the maps, other results of the functions that inspect clock, random numbers, environment and process, another temporary directory, stale files in the output directory, and (for models without references to other services) the declarations in another order and in other files: the set of files and their text must be the same, except for the order of the imports of Go files, which is later decided by goimports")
		shapes := c.makeShapes()
		type job struct {
			s   *shape
			cmd string
		}
		var jobs []job
		for _, s := range shapes {
			for _, cmd := range []string{"golang", "openapi", "docs"} {
				jobs = append(jobs, job{s, cmd})
			}
		}
		c.S()
		first, err := mm.Open(c.Repo, func(it *engine.Interp) { it.Source = isEnvironment })
		if err != nil {
			panic(fatal{err.Error()})
		}
		second, err := mm.Open(c.Repo, func(it *engine.Interp) { it.Source, it.Variant = isEnvironment, 1 })
		if err != nil {
			panic(fatal{err.Error()})
		}
		third, err := mm.Open(c.Repo, func(it *engine.Interp) { it.Source, it.Variant = isEnvironment, 2 })
		if err != nil {
			panic(fatal{err.Error()})
		}
		initial := first.It.SourceHits
		c.Parallel(len(jobs), func(i int) {
			s, cmd := jobs[i].s, jobs[i].cmd
			var session *mm.Session
			hits := initial
			run := func(v *variation, base map[string]string) (map[string]string, bool) {
				in := mm.Input{Files: s.files, Flags: map[string]interface{}{"base": "gen/" + s.name}}
				what := "as is"
				if v != nil {
					v.apply(&in, base)
					what = v.name
				}
				f := in.Setup
				in.Setup = func(it *engine.Interp) {
					it.Source = isEnvironment
					if f != nil {
						f(it)
					}
				}
				switch {
				case strings.HasPrefix(what, "with unknown"):
					session = third
				case in.Existing != nil || strings.Contains(what, "environment"):
					session = second
				default:
					session = first
				}
				rs, it, err := session.Run("generate/"+cmd, in)
				c.Note(it)
				c.Count("generations analysed", 1)
				hits += it.SourceHits
				if session == third {
					// Compare the outcomes, whatever the unknown values are:
					if err != nil {
						c.Undecided("%s %s %s: %v", cmd, s.name, what, err)
						return nil, false
					}
					for _, r := range rs {
						if o := diff(base, r, cmd); o != "" {
							c.Violation(cmd+":environment:"+s.name, "generation of %s for shape %s depends on the environment: %s", cmd, s.name, o)
							break
						}
					}
					return nil, false
				}
				what = cmd + " " + s.name + " " + what
				switch {
				case err != nil:
					c.Undecided("%s: %v", what, err)
					return nil, false
				case c.imprecise(it, what):
					return nil, false
				case len(rs) != 1:
					c.Undecided("%s has %d outcomes", what, len(rs))
					return nil, false
				case rs[0].Crash != "" || rs[0].Exit != 0:
					// What makes the generation fail isn't the subject of this property, unless it
					// happens only in some circumstances.
					if v != nil {
						return nil, true
					}
					return nil, false
				}
				out := rs[0].Output(mm.OutputDir)
				for n, t := range out {
					if strings.HasSuffix(n, ".go") {
						out[n] = sortImports(t)
					}
				}
				return out, true
			}
			base, ok := run(nil, nil)
			if !ok {
				return
			}
			l := variations(c.Thorough, s)
			if hits > 0 {
				l = append(l, variation{"with unknown environment", func(in *mm.Input, base map[string]string) {
					in.Setup = func(it *engine.Interp) { it.Variant, it.MaxStates, it.Budget = 2, 100, 30000000 }
				}})
			}
			for _, v := range l {
				v := v
				c.Oblige(len(base))
				out, ok := run(&v, base)
				if !ok {
					continue
				}
				if out == nil {
					c.Violation(cmd+":"+s.name+":fails", "%s: the generation of %s for '%s' fails", v.name, cmd, s.name)
					continue
				}
				for n, t := range base {
					o, ok := out[n]
					switch {
					case !ok:
						c.Violation(cmd+":"+n, "%s: file '%s' of '%s' isn't generated (shape %s)", v.name, n, cmd, s.name)
					case o != t:
						a, b := firstDifference(t, o)
						c.Violation(cmd+":"+n, "%s: the content of file '%s' of '%s' changes (shape %s) from %q to %q; generated by %s", v.name, n, cmd, s.name, a, b, c.provenance(n, a))
					}
				}
				for n := range out {
					if _, ok := base[n]; !ok {
						c.Violation(cmd+":"+n, "%s: file '%s' of '%s' is generated only in this case (shape %s)", v.name, n, cmd, s.name)
					}
				}
			}
		})
	})
}

// diff compares the result of a command with the expected files.
func diff(base map[string]string, r *mm.Result, cmd string) string {
	if r.Crash != "" || r.Exit != 0 {
		return "sometimes it fails"
	}
	out := r.Output(mm.OutputDir)
	for _, n := range sortedNames(base) {
		t := base[n]
		o, ok := out[n]
		if !ok {
			return fmt.Sprintf("file '%s' isn't always generated", n)
		}
		if strings.HasSuffix(n, ".go") {
			o = sortImports(o)
		}
		if o != t {
			a, b := firstDifference(t, o)
			return fmt.Sprintf("file '%s' contains %q or %q", n, a, b)
		}
	}
	for _, n := range sortedNames(out) {
		if _, ok := base[n]; !ok {
			return fmt.Sprintf("file '%s' is generated only sometimes", n)
		}
	}
	return ""
}

func firstDifference(a, b string) (string, string) {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) {
			return x[i], ""
		}
		if x[i] != y[i] {
			return x[i], y[i]
		}
	}
	if len(y) > len(x) {
		return "", y[len(x)]
	}
	return "", ""
}
