package engine

import (
	"container/heap"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Interp is the abstract interpreter.
type Interp struct {
	Prog *ssa.Program
	// Interpretable decides if the body of a function should be analysed. Other functions are
	// models or unknown.
	Interpretable func(fn *ssa.Function) bool
	// Models contains models of functions, indexed by the complete name of the function.
	Models map[string]Model
	// MapOrder is the order used to iterate maps: 0 insertion, 1 reverse.
	MapOrder int
	// Budget is the maximum number of instructions.
	Budget int
	Steps  int
	// MaxStates is the maximum number of states in one function.
	MaxStates int
	// MaxWidth is the maximum number of states that are at the same time in the same block. The rest
	// are discarded, and that is recorded in Truncated.
	MaxWidth  int
	Truncated bool
	// Deadline is the time when the analysis is abandoned.
	Deadline time.Time

	// Called is the number of times that each function was analysed.
	Called map[*ssa.Function]int
	// Unknown contains the functions without body or model that were called.
	Unknown map[string]int
	// Havoc contains writes to unknown memory.
	Havoc map[string]int

	// Trace contains the names of the functions whose calls are recorded in TraceLog, with the
	// position of the call.
	Trace    map[string]bool
	TraceLog []string

	// FSObj is the object containing the files.
	FSObj int
	// Fault decides if an operation of the operating system or of a library fails.
	Fault func(st *State, what string, site ssa.Instruction) bool
	// Source decides if the result of a function depends on the environment. Those results are
	// constants that depend on Variant.
	Source  func(fn *ssa.Function) bool
	Variant int
	// SourceHits is the number of times that those functions have been called.
	SourceHits int
	// OnCall is called when the analysis of a function starts.
	OnCall func(st *State, fn *ssa.Function)
	// OnChange is called when a file is changed.
	OnChange func(st *State, path string)
	// Flip can change the result of a condition, it receives the successor that would be taken
	// and returns the one that will be taken.
	Flip func(st *State, fn *ssa.Function, x *ssa.If, taken int) int

	globals map[*ssa.Global]int
	// OnUse is notified of the calls made by the scenarios.
	OnUse       func(d *D, fn *ssa.Function, args []Value) Value
	initialized func(*ssa.Package) bool
	infos       *sync.Map
	names       *sync.Map
	stack       []*ssa.Function
	Debug       bool
	// owned contains the arrays that can be updated in place, because they are used only by the current
	// state. It is used only while packages are initialized.
	owned map[*Array]bool
	// HasMaybe indicates that there are references that may be nil.
	HasMaybe bool
}

// Model is the model of a function.
type Model func(c *Call) []Outcome

// Call is a call to a function with a model.
type Call struct {
	I    *Interp
	S    *State
	Fn   *ssa.Function
	Name string
	Sig  *types.Signature
	Args []Value
	Site ssa.Instruction
}

// Outcome is one of the possible results of a call.
type Outcome struct {
	S     *State
	V     Value
	Panic string
	Where string
}

// Undecided is the value of panics raised when the analysis isn't possible.
type Undecided struct {
	Reason string
}

func (u Undecided) Error() string { return u.Reason }

func (it *Interp) undecided(format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	if len(it.stack) > 0 {
		var l []string
		for i := len(it.stack) - 1; i >= 0 && i > len(it.stack)-8; i-- {
			l = append(l, it.stack[i].String())
		}
		msg += " [in " + strings.Join(l, " < ") + "]"
	}
	panic(Undecided{msg})
}

// Undecided aborts the analysis.
func (it *Interp) Undecided(format string, args ...interface{}) {
	it.undecided(format, args...)
}

// New creates an interpreter.
func New(prog *ssa.Program) *Interp {
	it := &Interp{
		Prog:      prog,
		Models:    map[string]Model{},
		Budget:    200000000,
		MaxStates: 20000,
		Called:    map[*ssa.Function]int{},
		Unknown:   map[string]int{},
		Havoc:     map[string]int{},
		globals:   map[*ssa.Global]int{},
		infos:     &sync.Map{},
		names:     &sync.Map{},
	}
	for k, v := range baseModels {
		it.Models[k] = v
	}
	return it
}

// fnInfo contains the precalculated details of a function.
type fnInfo struct {
	n    int
	idx  map[ssa.Value]int
	rpo  []int
	live [][]int // registers that are live at the beginning of each block
}

func (it *Interp) info(fn *ssa.Function) *fnInfo {
	if x, ok := it.infos.Load(fn); ok {
		return x.(*fnInfo)
	}
	fi := &fnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// Reverse post order:
	fi.rpo = make([]int, len(fn.Blocks))
	seen := make([]bool, len(fn.Blocks))
	n := len(fn.Blocks)
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for k := len(b.Succs) - 1; k >= 0; k-- {
			if !seen[b.Succs[k].Index] {
				visit(b.Succs[k])
			}
		}
		n--
		fi.rpo[b.Index] = n
	}
	visit(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover.Index] {
		visit(fn.Recover)
	}
	// Liveness:
	liveIn := make([]map[int]bool, len(fn.Blocks))
	for i := range liveIn {
		liveIn[i] = map[int]bool{}
	}
	for changed := true; changed; {
		changed = false
		for bi := len(fn.Blocks) - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			live := map[int]bool{}
			for _, s := range b.Succs {
				for r := range liveIn[s.Index] {
					live[r] = true
				}
				// The values used by phis of the successor are live at the end of
				// this block:
				for _, i := range s.Instrs {
					phi, ok := i.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b {
							if r, ok := fi.idx[phi.Edges[k]]; ok {
								live[r] = true
							}
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				i := b.Instrs[k]
				if v, ok := i.(ssa.Value); ok {
					delete(live, fi.idx[v])
				}
				if _, ok := i.(*ssa.Phi); ok {
					continue
				}
				var ops [16]*ssa.Value
				for _, o := range i.Operands(ops[:0]) {
					if *o == nil {
						continue
					}
					if r, ok := fi.idx[*o]; ok {
						live[r] = true
					}
				}
			}
			// Phi values are assigned before the block is entered:
			for _, i := range b.Instrs {
				phi, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				_ = phi
			}
			if len(live) != len(liveIn[b.Index]) {
				changed = true
			}
			liveIn[b.Index] = live
		}
	}
	fi.live = make([][]int, len(fn.Blocks))
	for bi, m := range liveIn {
		for r := range m {
			fi.live[bi] = append(fi.live[bi], r)
		}
		for _, i := range fn.Blocks[bi].Instrs {
			if phi, ok := i.(*ssa.Phi); ok {
				fi.live[bi] = append(fi.live[bi], fi.idx[phi])
			}
		}
		sort.Ints(fi.live[bi])
	}
	it.infos.Store(fn, fi)
	return fi
}

type deferred struct {
	call *ssa.Defer
	fn   Value
	args []Value
	next *deferred
}

type item struct {
	st     *State
	block  *ssa.BasicBlock
	idx    int
	env    []Value
	defers *deferred
	seq    int
	skip   bool // don't check if visited
}

func (i *item) clone() *item {
	c := *i
	c.env = append([]Value(nil), i.env...)
	c.st = i.st.Clone()
	return &c
}

type worklist struct {
	fi    *fnInfo
	items []*item
}

func (w *worklist) Len() int { return len(w.items) }
func (w *worklist) Less(a, b int) bool {
	x, y := w.items[a], w.items[b]
	rx, ry := w.fi.rpo[x.block.Index], w.fi.rpo[y.block.Index]
	if rx != ry {
		return rx < ry
	}
	if x.idx != y.idx {
		return x.idx > y.idx
	}
	return x.seq < y.seq
}
func (w *worklist) Swap(a, b int)      { w.items[a], w.items[b] = w.items[b], w.items[a] }
func (w *worklist) Push(x interface{}) { w.items = append(w.items, x.(*item)) }
func (w *worklist) Pop() interface{} {
	n := len(w.items)
	x := w.items[n-1]
	w.items = w.items[:n-1]
	return x
}

type frame struct {
	it       *Interp
	fn       *ssa.Function
	fi       *fnInfo
	base     *State
	w        *worklist
	seq      int
	forked   bool
	visited  map[int]map[string]*fact // block -> key -> facts
	outcomes []Outcome
	states   int
}

// Where returns the position of an instruction.
func (it *Interp) Where(i ssa.Instruction) string {
	if i == nil {
		return ""
	}
	pos := i.Pos()
	if !pos.IsValid() {
		pos = i.Parent().Pos()
	}
	p := it.Prog.Fset.Position(pos)
	return fmt.Sprintf("%s:%d (%s)", p.Filename, p.Line, i.Parent().String())
}

func (it *Interp) fnName(fn *ssa.Function) string {
	if x, ok := it.names.Load(fn); ok {
		return x.(string)
	}
	n := fn.String()
	it.names.Store(fn, n)
	return n
}

// CallFn calls a function.
func (it *Interp) CallFn(st *State, fn *ssa.Function, args []Value, free []Value, site ssa.Instruction) []Outcome {
	name := it.fnName(fn)
	if it.Trace != nil && it.Trace[name] {
		it.TraceLog = append(it.TraceLog, it.Where(site))
	}
	if it.Source != nil && fn.Pkg != nil && (it.Source(fn) || fn.Pkg.Pkg.Path() == "time" && it.tainted(st, args)) {
		it.SourceHits++
		return []Outcome{{S: st, V: it.sourceValue(st, fn.Signature.Results(), name+"("+ShowAll(args)+")")}}
	}
	if m, ok := it.Models[name]; ok {
		return m(&Call{I: it, S: st, Fn: fn, Name: name, Sig: fn.Signature, Args: args, Site: site})
	}
	if o := fn.Origin(); o != nil && o != fn {
		if m, ok := it.Models[o.String()]; ok {
			return m(&Call{I: it, S: st, Fn: fn, Name: name, Sig: fn.Signature, Args: args, Site: site})
		}
	}
	if r, ok := it.native(st, name, args); ok {
		return []Outcome{{S: st, V: r}}
	}
	if fn.Synthetic == "package initializer" && !it.initialized(fn.Pkg) {
		return []Outcome{{S: st}}
	}
	if fn.Blocks == nil || (it.Interpretable != nil && !it.Interpretable(fn)) {
		it.Unknown[name]++
		return []Outcome{{S: st, V: it.unknownResult(st, fn.Signature, name, args)}}
	}
	return it.exec(st, fn, args, free)
}

func (it *Interp) unknownResult(st *State, sig *types.Signature, name string, args []Value) Value {
	res := sig.Results()
	mk := func(i int) Value {
		return it.SymOf(st, st.Fresh(":"+name+"."+strconv.Itoa(i)), res.At(i).Type())
	}
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return mk(0)
	}
	t := make(Tuple, res.Len())
	for i := range t {
		t[i] = mk(i)
	}
	return t
}

// SymOf creates an unknown value of the given type.
func (it *Interp) SymOf(st *State, term string, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return U("$" + term)
		}
	case *types.Struct:
		s := &Struct{F: make([]Value, u.NumFields())}
		for i := range s.F {
			s.F[i] = it.SymOf(st, term+"."+u.Field(i).Name(), u.Field(i).Type())
		}
		return s
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = it.SymOf(st, term+"."+strconv.Itoa(i), u.At(i).Type())
		}
		return r
	case *types.Array:
		if u.Len() <= 64 {
			a := &Array{E: make([]Value, u.Len())}
			for i := range a.E {
				a.E[i] = it.SymOf(st, term+"."+strconv.Itoa(i), u.Elem())
			}
			return a
		}
	}
	return Sym{Term: term, T: t}
}

const maxDepth = 400

func (it *Interp) exec(st *State, fn *ssa.Function, args []Value, free []Value) []Outcome {
	if len(it.stack) > maxDepth {
		// If most of the stack is the same function then the recursion isn't bounded by the size
		// of the input, which is always much smaller than this:
		n := map[*ssa.Function]int{}
		for _, x := range it.stack {
			n[x]++
			if n[x] > maxDepth/10 {
				return []Outcome{{S: st, Panic: "stack overflow", Where: x.String()}}
			}
		}
		it.undecided("too deep")
	}
	it.stack = append(it.stack, fn)
	defer func() { it.stack = it.stack[:len(it.stack)-1] }()
	it.Called[fn]++
	if it.OnCall != nil {
		it.OnCall(st, fn)
	}
	fi := it.info(fn)
	f := &frame{it: it, fn: fn, fi: fi, base: st.Clone(), w: &worklist{fi: fi}}
	env := make([]Value, fi.n)
	if len(args) != len(fn.Params) {
		it.undecided("function %s called with %d arguments", fn, len(args))
	}
	copy(env, args)
	copy(env[len(args):], free)
	f.run(&item{st: st, block: fn.Blocks[0], env: env, skip: true})
	for f.w.Len() > 0 {
		i := heap.Pop(f.w).(*item)
		if i.skip || i.idx != 0 {
			f.run(i)
			continue
		}
		// Process together all the items that are at the beginning of the same block, so that those that
		// are equivalent are merged before continuing:
		batch := []*item{i}
		for f.w.Len() > 0 {
			n := f.w.items[0]
			if n.block != i.block || n.skip || n.idx != 0 {
				break
			}
			batch = append(batch, heap.Pop(f.w).(*item))
		}
		for _, i := range f.visit(batch) {
			f.run(i)
		}
	}
	return it.dedup(f.base, f.outcomes)
}

// visit merges the items that are equivalent, and returns those that need to be processed.
func (f *frame) visit(batch []*item) (r []*item) {
	if f.visited == nil {
		f.visited = map[int]map[string]*fact{}
	}
	block := batch[0].block.Index
	m := f.visited[block]
	if m == nil {
		m = map[string]*fact{}
		f.visited[block] = m
	}
	current := map[string]*item{}
	for _, i := range batch {
		roots := make([]Value, 0, 16)
		for _, r := range f.fi.live[block] {
			roots = append(roots, i.env[r])
		}
		for d := i.defers; d != nil; d = d.next {
			roots = append(roots, d.fn)
			roots = append(roots, d.args...)
		}
		key := i.st.key(f.base, roots)
		old, ok := m[key]
		if !ok {
			f.states++
			if f.it.MaxWidth == 0 && f.states > f.it.MaxStates {
				f.it.undecided("too many states in %s", f.fn)
			}
			m[key] = i.st.facts
			current[key] = i
			r = append(r, i)
			continue
		}
		merged := intersect(old, i.st.facts)
		if merged == old || factCount(merged) == factCount(old) {
			continue
		}
		m[key] = merged
		if c := current[key]; c != nil {
			c.st.facts = merged
			continue
		}
		i.st.facts = merged
		current[key] = i
		r = append(r, i)
	}
	if max := f.it.MaxWidth; max > 0 && len(r) > max {
		f.it.Truncated = true
		n := len(r)
		for k := 0; k < max; k++ {
			r[k] = r[k*(n-1)/(max-1)]
		}
		r = r[:max]
	}
	return
}

func factCount(f *fact) int {
	if f == nil {
		return 0
	}
	return f.n
}

func (it *Interp) dedup(base *State, list []Outcome) []Outcome {
	if len(list) < 2 {
		return list
	}
	var r []Outcome
	index := map[string]int{}
	for _, o := range list {
		key := o.Panic + "|" + o.S.key(base, []Value{o.V})
		if k, ok := index[key]; ok {
			r[k].S.facts = intersect(r[k].S.facts, o.S.facts)
			continue
		}
		index[key] = len(r)
		r = append(r, o)
	}
	return r
}

// fork takes note that there are several states.
func (f *frame) fork() {
	f.forked = true
	f.it.owned = nil
}

func (f *frame) push(i *item) {
	f.seq++
	i.seq = f.seq
	heap.Push(f.w, i)
}

// run executes an item till it finishes or it needs to be put back in the list.
func (f *frame) run(i *item) {
	it := f.it
	for {
		instrs := i.block.Instrs
		var next *ssa.BasicBlock
		for i.idx < len(instrs) {
			instr := instrs[i.idx]
			i.idx++
			it.Steps++
			if it.Steps > it.Budget {
				it.undecided("budget exhausted")
			}
			if it.Steps&4095 == 0 && !it.Deadline.IsZero() && time.Now().After(it.Deadline) {
				it.undecided("time exhausted")
			}
			if it.Debug {
				fmt.Fprintf(os.Stderr, "%*s%s: %s\n", len(it.stack), "", f.fn.Name(), instr)
			}
			if it.HasMaybe {
				if m := f.unresolved(i, instr); m != "" {
					i.idx--
					f.fork()
					o := i.clone()
					assume(o.st, m, false)
					o.skip = true
					f.push(o)
					assume(i.st, m, true)
					continue
				}
			}
			switch x := instr.(type) {
			case *ssa.Phi:
				continue
			case *ssa.Jump:
				next = i.block.Succs[0]
			case *ssa.If:
				c := f.val(i, x.Cond)
				b, sym := it.truth(i.st, c)
				if sym == "" {
					k := 1
					if b {
						k = 0
					}
					if it.Flip != nil {
						k = it.Flip(i.st, f.fn, x, k)
					}
					next = i.block.Succs[k]
				} else {
					f.fork()
					o := i.clone()
					assume(o.st, sym, false)
					f.jump(o, i.block.Succs[1])
					assume(i.st, sym, true)
					next = i.block.Succs[0]
				}
			case *ssa.Return:
				var v Value
				switch len(x.Results) {
				case 0:
				case 1:
					v = f.val(i, x.Results[0])
				default:
					t := make(Tuple, len(x.Results))
					for k, r := range x.Results {
						t[k] = f.val(i, r)
					}
					v = t
				}
				f.outcomes = append(f.outcomes, Outcome{S: i.st, V: v})
				return
			case *ssa.Panic:
				f.panicked(i, "panic: "+it.Describe(i.st, f.val(i, x.X)), instr)
				return
			case *ssa.RunDefers:
				d := i.defers
				if d == nil {
					continue
				}
				i.defers = d.next
				i.idx--
				outs := it.callValue(i.st, d.fn, d.args, d.call)
				if !f.resume(i, nil, outs, d.call) {
					return
				}
			case *ssa.Defer:
				fnv, args := f.callee(i, &x.Call)
				i.defers = &deferred{call: x, fn: fnv, args: args, next: i.defers}
			case *ssa.Call:
				i.st.at = instr
				outs := f.doCall(i, x)
				if !f.resume(i, x, outs, x) {
					return
				}
			case *ssa.Go:
				it.undecided("goroutine")
			case *ssa.Store:
				i.st.at = instr
				p := f.val(i, x.Addr)
				v := f.val(i, x.Val)
				if msg := it.Store(i.st, p, v); msg != "" {
					f.panicked(i, msg, instr)
					return
				}
			case *ssa.MapUpdate:
				i.st.at = instr
				if msg := it.MapSet(i.st, f.val(i, x.Map), f.val(i, x.Key), f.val(i, x.Value)); msg != "" {
					f.panicked(i, msg, instr)
					return
				}
			case *ssa.Send:
				it.undecided("send to channel")
			case *ssa.DebugRef:
			case ssa.Value:
				outs := f.eval(i, x)
				if !f.resume(i, x, outs, instr) {
					return
				}
			default:
				it.undecided("unsupported instruction %T", instr)
			}
			if next != nil {
				break
			}
		}
		if next == nil {
			it.undecided("block without terminator")
		}
		f.enter(i, next)
		if f.forked {
			f.push(i)
			return
		}
	}
}

// resume continues with the outcomes of a call. It returns false if the item should not continue.
func (f *frame) resume(i *item, x ssa.Value, outs []Outcome, instr ssa.Instruction) bool {
	if len(outs) == 1 && outs[0].Panic == "" {
		i.st = outs[0].S
		if x != nil {
			i.env[f.fi.idx[x]] = outs[0].V
		}
		return true
	}
	for _, o := range outs {
		if o.Panic != "" {
			c := i.clone()
			c.st = o.S
			f.panickedAt(c, o)
			continue
		}
		c := i.clone()
		c.st = o.S
		if x != nil {
			c.env[f.fi.idx[x]] = o.V
		}
		c.skip = true
		f.fork()
		f.push(c)
	}
	return false
}

func (f *frame) panicked(i *item, msg string, instr ssa.Instruction) {
	f.panickedAt(i, Outcome{S: i.st, Panic: msg, Where: f.it.Where(instr)})
}

// panickedAt runs the deferred functions and finishes the function with a panic.
func (f *frame) panickedAt(i *item, o Outcome) {
	if strings.HasPrefix(o.Panic, "exit:") {
		// The process finished, deferred functions aren't executed:
		f.outcomes = append(f.outcomes, o)
		return
	}
	states := []*State{o.S}
	for d := i.defers; d != nil; d = d.next {
		var next []*State
		for _, s := range states {
			for _, r := range f.it.callValue(s, d.fn, d.args, d.call) {
				next = append(next, r.S)
			}
		}
		states = next
	}
	for _, s := range states {
		f.outcomes = append(f.outcomes, Outcome{S: s, Panic: o.Panic, Where: o.Where})
	}
}

func (f *frame) jump(i *item, to *ssa.BasicBlock) {
	f.enter(i, to)
	f.push(i)
}

// enter moves to the beginning of a block, calculating the phis.
func (f *frame) enter(i *item, to *ssa.BasicBlock) {
	from := i.block
	var edge = -1
	for k, p := range to.Preds {
		if p == from {
			edge = k
			break
		}
	}
	var vals []Value
	var regs []int
	for _, instr := range to.Instrs {
		phi, ok := instr.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, f.val(i, phi.Edges[edge]))
		regs = append(regs, f.fi.idx[phi])
	}
	for k, r := range regs {
		i.env[r] = vals[k]
	}
	i.block = to
	i.idx = 0
	i.skip = false
}

// truth returns the boolean value, or else the symbolic term.
func (it *Interp) truth(st *State, v Value) (bool, string) {
	switch t := v.(type) {
	case bool:
		return t, ""
	case Sym:
		term := t.Term
		neg := false
		for strings.HasPrefix(term, "!") {
			term = term[1:]
			neg = !neg
		}
		if b, ok := st.Fact(term); ok {
			return b != neg, ""
		}
		return false, t.Term
	}
	it.undecided("condition is %s", Show(v))
	return false, ""
}

func assume(st *State, term string, val bool) {
	for strings.HasPrefix(term, "!") {
		term = term[1:]
		val = !val
	}
	st.Assume(term, val)
}

// Split returns the states where the value is true and where it is false, or nil if not possible.
func (it *Interp) Split(st *State, v Value) (t, f *State) {
	b, sym := it.truth(st, v)
	if sym == "" {
		if b {
			return st, nil
		}
		return nil, st
	}
	f = st.Clone()
	assume(f, sym, false)
	assume(st, sym, true)
	return st, f
}

// val returns the value of an operand.
func (f *frame) val(i *item, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return f.it.constant(x)
	case *ssa.Global:
		return f.it.GlobalAddr(i.st, x)
	case *ssa.Function:
		return &Func{Fn: x}
	case *ssa.Builtin:
		return &Func{Name: "builtin:" + x.Name()}
	}
	r, ok := f.fi.idx[v]
	if !ok {
		f.it.undecided("no register for %s", v)
	}
	if m, ok := i.env[r].(Maybe); ok {
		if b, ok := i.st.Fact(m.Term); ok {
			if b {
				return m.V
			}
			return Nil{}
		}
	}
	return i.env[r]
}

// unresolved finds the operand of an instruction that can be nil or not.
func (f *frame) unresolved(i *item, instr ssa.Instruction) string {
	if _, ok := instr.(*ssa.Phi); ok {
		return ""
	}
	var ops [16]*ssa.Value
	for _, o := range instr.Operands(ops[:0]) {
		if *o == nil {
			continue
		}
		if r, ok := f.fi.idx[*o]; ok {
			if m, ok := i.env[r].(Maybe); ok {
				if _, ok := i.st.Fact(m.Term); !ok {
					return m.Term
				}
			}
		}
	}
	return ""
}

func (it *Interp) constant(c *ssa.Const) Value {
	if c.Value == nil {
		return it.Zero(c.Type())
	}
	switch u := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case u.Info()&types.IsString != 0:
			return C(constant.StringVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return n
			}
			n, _ := constant.Uint64Val(constant.ToInt(c.Value))
			return int64(n)
		case u.Info()&types.IsFloat != 0:
			n, _ := constant.Float64Val(c.Value)
			return n
		}
	}
	it.undecided("unsupported constant %s", c)
	return nil
}

// Zero returns the zero value of a type.
func (it *Interp) Zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UntypedNil, u.Kind() == types.UnsafePointer:
			return Nil{}
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		}
		return int64(0)
	case *types.Struct:
		s := &Struct{F: make([]Value, u.NumFields())}
		for i := range s.F {
			s.F[i] = it.Zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := &Array{E: make([]Value, u.Len())}
		for i := range a.E {
			a.E[i] = it.Zero(u.Elem())
		}
		return a
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = it.Zero(u.At(i).Type())
		}
		return r
	}
	return Nil{}
}

// GlobalsOf returns the objects that contain the global variables of the packages.
func (it *Interp) GlobalsOf(own func(*ssa.Package) bool) (r []Value) {
	for g, id := range it.globals {
		if own(g.Pkg) {
			r = append(r, Ptr{Obj: id})
		}
	}
	return
}

// GlobalAddr returns the address of a global variable.
func (it *Interp) GlobalAddr(st *State, g *ssa.Global) Value {
	id, ok := it.globals[g]
	if !ok {
		it.undecided("global %s isn't allocated", g)
	}
	return Ptr{Obj: id}
}

// AllocGlobals allocates the global variables of all the packages. The ones of packages that will
// not be initialized are unknown.
func (it *Interp) AllocGlobals(st *State, initialized func(*ssa.Package) bool) {
	it.initialized = initialized
	pkgs := it.Prog.AllPackages()
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].Pkg.Path() < pkgs[j].Pkg.Path() })
	for _, p := range pkgs {
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			g, ok := p.Members[n].(*ssa.Global)
			if !ok {
				continue
			}
			t := g.Type().(*types.Pointer).Elem()
			var v Value
			full := p.Pkg.Path() + "." + n
			if initialized(p) {
				v = it.Zero(t)
			} else if isErrorType(t) {
				v = it.NewError(st, C(globalError(full)), nil)
			} else {
				v = it.SymOf(st, "global:"+full, t)
				if _, ok := v.(Sym); ok && isPointerLike(t) {
					st.Assume("nil:global:"+full, false)
				}
			}
			it.globals[g] = st.Alloc(v)
		}
	}
}

func globalError(name string) string {
	switch name {
	case "io.EOF":
		return "EOF"
	}
	return "<" + name + ">"
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func isPointerLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature, *types.Chan:
		return true
	}
	return false
}

// InitPackage runs the initializer of a package.
func (it *Interp) InitPackage(st *State, p *ssa.Package) *State {
	fn := p.Func("init")
	it.owned = map[*Array]bool{}
	outs := it.exec(st, fn, nil, nil)
	it.owned = nil
	if len(outs) != 1 || outs[0].Panic != "" {
		it.undecided("initializer of %s has %d outcomes", p.Pkg.Path(), len(outs))
	}
	return outs[0].S
}

func (f *frame) callee(i *item, c *ssa.CallCommon) (Value, []Value) {
	args := make([]Value, 0, len(c.Args)+1)
	var fnv Value
	if c.IsInvoke() {
		recv := f.val(i, c.Value)
		fnv = &Func{Name: "invoke", Data: recv}
		_ = recv
	} else {
		fnv = f.val(i, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, f.val(i, a))
	}
	if c.IsInvoke() {
		fnv = &invoke{recv: f.val(i, c.Value), method: c.Method}
	}
	return fnv, args
}

// invoke is the value used for calls to methods of interfaces.
type invoke struct {
	recv   Value
	method *types.Func
}

func (f *frame) doCall(i *item, x *ssa.Call) []Outcome {
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		args := make([]Value, len(x.Call.Args))
		for k, a := range x.Call.Args {
			args[k] = f.val(i, a)
		}
		return f.it.builtin(i.st, b.Name(), args, x.Call.Args, x.Type(), x)
	}
	fnv, args := f.callee(i, &x.Call)
	return f.it.callValue(i.st, fnv, args, x)
}

// CallValue calls a function value.
func (it *Interp) CallValue(st *State, fnv Value, args []Value) []Outcome {
	return it.callValue(st, fnv, args, nil)
}

func (it *Interp) callValue(st *State, fnv Value, args []Value, site ssa.Instruction) []Outcome {
	switch t := fnv.(type) {
	case *Func:
		if t.Fn != nil {
			return it.CallFn(st, t.Fn, args, t.Free, site)
		}
		if strings.HasPrefix(t.Name, "builtin:") {
			return it.builtin(st, strings.TrimPrefix(t.Name, "builtin:"), args, nil, nil, site)
		}
		m, ok := it.Models[t.Name]
		if !ok {
			it.undecided("no model for %s", t.Name)
		}
		return m(&Call{I: it, S: st, Name: t.Name, Args: append([]Value{t.Data}, args...), Site: site})
	case *invoke:
		return it.Invoke(st, t.recv, t.method, args, site)
	case Nil:
		return []Outcome{{S: st, Panic: "nil dereference: call of nil function", Where: it.Where(site)}}
	case Sym:
		if m, ok := it.Models["sym:func"]; ok {
			return m(&Call{I: it, S: st, Name: "sym:func", Args: append([]Value{t}, args...), Site: site})
		}
		sig := t.T.Underlying().(*types.Signature)
		it.Unknown["func "+t.Term]++
		return []Outcome{{S: st, V: it.unknownResult(st, sig, "fn", args)}}
	}
	it.undecided("call of %s", Show(fnv))
	return nil
}

// Invoke calls a method of an interface.
func (it *Interp) Invoke(st *State, recv Value, method *types.Func, args []Value, site ssa.Instruction) []Outcome {
	switch r := recv.(type) {
	case Nil:
		return []Outcome{{S: st, Panic: "nil dereference: call of method '" + method.Name() + "' of nil interface", Where: it.Where(site)}}
	case Iface:
		if e, ok := r.V.(Ptr); ok {
			if x, ok := st.Get(e.Obj).(*Ext); ok && e.Path == "" {
				if m, ok := it.Models[x.Kind+"."+method.Name()]; ok {
					return m(&Call{I: it, S: st, Name: x.Kind + "." + method.Name(), Sig: method.Type().(*types.Signature), Args: append([]Value{r.V}, args...), Site: site})
				}
			}
		}
		fn := it.Prog.LookupMethod(r.T, method.Pkg(), method.Name())
		if fn == nil {
			it.undecided("no method %s in %s", method.Name(), r.T)
		}
		return it.CallFn(st, fn, append([]Value{r.V}, args...), nil, site)
	case Sym:
		name := "invoke:" + method.FullName()
		if m, ok := it.Models[name]; ok {
			return m(&Call{I: it, S: st, Name: name, Sig: method.Type().(*types.Signature), Args: append([]Value{r}, args...), Site: site})
		}
		it.Unknown[name]++
		return []Outcome{{S: st, V: it.unknownResult(st, method.Type().(*types.Signature), method.Name(), args)}}
	}
	it.undecided("invoke of %s", Show(recv))
	return nil
}

// Describe returns a text describing a value.
func (it *Interp) Describe(st *State, v Value) string {
	switch t := v.(type) {
	case Iface:
		return it.Describe(st, t.V)
	case Str:
		return t.Render()
	}
	return Show(v)
}

// Token is used to avoid the unused import of the package.
var _ = token.ADD
