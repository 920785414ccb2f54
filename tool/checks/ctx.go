// Package checks contains the checks of the properties.
package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/tool/engine"
	"verif/tool/mm"
)

// Ctx is the context used by the checks.
type Ctx struct {
	// filter selects the shapes analysed.
	filter func(s *shape) bool
	// effects indicates that only the effects of the generated code are checked.
	effects  bool
	ID       string
	Repo     string
	Verif    string
	Thorough bool
	Seed     int

	once sync.Once
	sess *mm.Session
	serr error

	mu          sync.Mutex
	obligations int
	undecided   []string
	violations  []violation
	counts      map[string]int
	funcs       map[*ssa.Function]int
	steps       int
	rules       []string
	gen         genCache
	start       time.Time
}

// expired tells if there is no time for more analyses, or if there are already many violations.
func (c *Ctx) expired() bool {
	spent := time.Since(c.start)
	if c.Thorough {
		spent /= 20
	}
	if spent > 500*time.Second {
		return true
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return spent > 45*time.Second && len(c.violations) >= 20
}

type violation struct {
	key, text string
}

// Check is the implementation of a check.
type Check struct {
	ID    string
	Level string
	Run   func(c *Ctx)
}

// All contains all the checks.
var All = map[string]*Check{}

func register(id string, run func(c *Ctx)) {
	All[id] = &Check{ID: id, Level: "other", Run: run}
}

// S returns the session.
func (c *Ctx) S() *mm.Session {
	c.once.Do(func() { c.sess, c.serr = mm.Open(c.Repo) })
	if c.serr != nil {
		panic(fatal{c.serr.Error()})
	}
	return c.sess
}

type fatal struct{ msg string }

// Rule describes one of the rules applied.
func (c *Ctx) Rule(format string, args ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rules = append(c.rules, fmt.Sprintf(format, args...))
}

// Count increments a counter.
func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.counts[name] += n
}

// Oblige notes that an obligation was examined.
func (c *Ctx) Oblige(n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.obligations += n
}

// Undecided notes that an obligation couldn't be decided.
func (c *Ctx) Undecided(format string, args ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.undecided = append(c.undecided, fmt.Sprintf(format, args...))
}

// Violation reports a violation. The key identifies it in the file of known findings.
func (c *Ctx) Violation(key, format string, args ...interface{}) {
	if c.effects && !strings.HasPrefix(key, "effect:") {
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, v := range c.violations {
		if v.key == key {
			return
		}
	}
	c.violations = append(c.violations, violation{key, fmt.Sprintf(format, args...)})
}

// imprecise checks if the analysis had to guess the result of functions that aren't part of the
// metamodel and that don't have a model. Nothing is reported in that case.
func (c *Ctx) imprecise(it *engine.Interp, name string) bool {
	if it == nil || len(it.Unknown)+len(it.Havoc) == 0 {
		return false
	}
	var l []string
	for k := range it.Unknown {
		l = append(l, k)
	}
	for k := range it.Havoc {
		l = append(l, k)
	}
	sort.Strings(l)
	c.Undecided("%s: the analysis depends on things without model: %s", name, strings.Join(l, ", "))
	return true
}

// Note adds the statistics of an interpreter.
func (c *Ctx) Note(it *engine.Interp) {
	if it == nil {
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	for f, n := range it.Called {
		c.funcs[f] += n
	}
	c.steps += it.Steps
}

// Parallel runs the function for each index.
func (c *Ctx) Parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	var mu sync.Mutex
	var failure interface{}
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				func() {
					defer func() {
						if r := recover(); r != nil {
							mu.Lock()
							failure = r
							mu.Unlock()
							if os.Getenv("VERIF_DEBUG") != "" {
								panic(r)
							}
						}
					}()
					f(i)
				}()
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
	if failure != nil {
		panic(failure)
	}
}

// Run analyses a command and returns its results, or nil if it isn't possible.
func (c *Ctx) Run(cmd string, in mm.Input) []*mm.Result {
	rs, it, err := c.S().Run(cmd, in)
	c.Note(it)
	c.Count("command analyses", 1)
	if err != nil {
		c.Undecided("%s: %v", cmd, err)
		return nil
	}
	return rs
}

// Known contains the known findings.
type Known struct {
	Property, Key, Text string
}

func loadKnown(path string) (r []Known) {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(data), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		k := Known{}
		rest := strings.TrimPrefix(l, "known: ")
		for _, w := range strings.SplitN(rest, " ", 3) {
			switch {
			case strings.HasPrefix(w, "property="):
				k.Property = strings.TrimPrefix(w, "property=")
			case strings.HasPrefix(w, "key="):
				k.Key = strings.TrimPrefix(w, "key=")
			default:
				k.Text = w
			}
		}
		r = append(r, k)
	}
	return
}

// Execute runs a check and returns the exit code.
func Execute(id, repo, verif, tier string) int {
	start := time.Now()
	ck := All[id]
	if ck == nil {
		fmt.Printf("there is no check for %s\n", id)
		return 2
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c := &Ctx{start: start, ID: id, Repo: repo, Verif: verif, Thorough: tier == "thorough", Seed: seed, counts: map[string]int{}, funcs: map[*ssa.Function]int{}}
	code := 0
	done := make(chan bool)
	go func() {
		defer close(done)
		defer func() {
			if os.Getenv("VERIF_DEBUG") != "" {
				return
			}
			if r := recover(); r != nil {
				if f, ok := r.(fatal); ok {
					fmt.Println("ERROR:", f.msg)
					code = 2
					return
				}
				c.undecided = append(c.undecided, fmt.Sprint("internal: ", r))
			}
		}()
		ck.Run(c)
	}()
	limit := 820 * time.Second
	if c.Thorough {
		limit = 5 * time.Hour
	}
	select {
	case <-done:
	case <-time.After(limit):
		c.Undecided("the analysis didn't finish in time")
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if code != 0 {
		return code
	}
	// Sort out the violations:
	known := loadKnown(filepath.Join(verif, "known-findings.txt"))
	sort.Slice(c.violations, func(i, j int) bool { return c.violations[i].key < c.violations[j].key })
	var fresh []violation
	var found []string
	for _, v := range c.violations {
		isKnown := false
		for _, k := range known {
			if k.Property == id && k.Key == v.key {
				isKnown = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.Text)
				found = append(found, k.Key)
			}
		}
		if !isKnown {
			fresh = append(fresh, v)
		}
	}
	evidence := filepath.Join(verif, "evidence")
	os.MkdirAll(evidence, 0755)
	replay := filepath.Join(evidence, id+".violation.txt")
	os.Remove(replay)
	if len(fresh) > 0 {
		var sb strings.Builder
		for i, v := range fresh {
			if i == 200 {
				break
			}
			fmt.Fprintf(&sb, "%s: %s\n\n", v.key, v.text)
		}
		os.WriteFile(replay, []byte(sb.String()), 0644)
		for i, v := range fresh {
			if i == 5 {
				fmt.Printf("... and %d more, see %s\n", len(fresh)-5, replay)
				break
			}
			fmt.Printf("%s: %s\n", v.key, clip(v.text, 1500))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		code = 1
	}
	for i, u := range c.undecided {
		if i == 5 {
			fmt.Printf("... and %d more\n", len(c.undecided)-5)
			break
		}
		fmt.Printf("UNDECIDED: %s\n", clip(u, 600))
	}
	// Evidence:
	var names []string
	for f := range c.funcs {
		if c.sess != nil && c.sess.Prog.IsOwn(f) && f.Synthetic == "" {
			names = append(names, strings.ReplaceAll(f.String(), mm.Module+"/", ""))
		}
	}
	sort.Strings(names)
	und := c.undecided
	if len(und) > 50 {
		und = und[:50]
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": ck.Level,
		"wall_s": time.Since(start).Seconds(),
		"coverage": map[string]interface{}{
			"explanation": fmt.Sprintf(
				"Static analysis of the source in %s. Rules: %s. Examined %d obligations, %d violations (%d listed as known findings), %d undecided; %d functions of the metamodel were analysed, %d abstract instructions.",
				repo, strings.Join(c.rules, "; "), c.obligations, len(c.violations), len(found), len(c.undecided), len(names), c.steps),
			"obligations": c.obligations, "violations": len(c.violations), "known_findings": found,
			"undecided": und, "counts": c.counts, "functions_analysed": names, "rules": c.rules,
		},
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evidence, id+".json"), append(data, '\n'), 0644); err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	if code == 0 && len(c.undecided) > 20 && len(c.undecided)*2 > c.obligations {
		fmt.Println("ERROR: most of the obligations are undecided")
		code = 2
	}
	fmt.Printf("%s %s: %d obligations, %d violations, %d undecided, %.1f s\n", id, tier, c.obligations, len(c.violations), len(c.undecided), time.Since(start).Seconds())
	return code
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// where returns the functions of the metamodel, in a file, that were analysed.
func where(it *engine.Interp, file string) string {
	var l []string
	for f := range it.Called {
		p := it.Prog.Fset.Position(f.Pos())
		if strings.HasSuffix(p.Filename, file) {
			l = append(l, fmt.Sprintf("%s (%s:%d)", f.Name(), file, p.Line))
		}
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}
