package engine

import (
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pvec is a persistent vector indexed by object identifier.
type pnode struct {
	c [32]interface{} // *pnode or Value
}

type pvec struct {
	root  *pnode
	shift uint
}

func (p pvec) get(i int) Value {
	if p.root == nil || i>>(p.shift+5) != 0 {
		return nil
	}
	n := p.root
	for s := p.shift; s > 0; s -= 5 {
		c := n.c[(i>>s)&31]
		if c == nil {
			return nil
		}
		n = c.(*pnode)
	}
	return n.c[i&31]
}

func (p pvec) set(i int, v Value) pvec {
	if p.root == nil {
		p.root = &pnode{}
	}
	for i>>(p.shift+5) != 0 {
		r := &pnode{}
		r.c[0] = p.root
		p.root = r
		p.shift += 5
	}
	p.root = setNode(p.root, p.shift, i, v)
	return p
}

func setNode(n *pnode, shift uint, i int, v Value) *pnode {
	r := &pnode{}
	if n != nil {
		*r = *n
	}
	k := (i >> shift) & 31
	if shift == 0 {
		r.c[k] = v
		return r
	}
	var child *pnode
	if r.c[k] != nil {
		child = r.c[k].(*pnode)
	}
	r.c[k] = setNode(child, shift-5, i, v)
	return r
}

// diff calls the function for the identifiers of the objects that are different.
func (p pvec) diff(o pvec, f func(i int)) {
	a, b := p, o
	for a.shift < b.shift {
		r := &pnode{}
		if a.root != nil {
			r.c[0] = a.root
		}
		a = pvec{r, a.shift + 5}
	}
	for b.shift < a.shift {
		r := &pnode{}
		if b.root != nil {
			r.c[0] = b.root
		}
		b = pvec{r, b.shift + 5}
	}
	diffNode(a.root, b.root, a.shift, 0, f)
}

func diffNode(a, b *pnode, shift uint, base int, f func(int)) {
	if a == b {
		return
	}
	for k := 0; k < 32; k++ {
		var x, y interface{}
		if a != nil {
			x = a.c[k]
		}
		if b != nil {
			y = b.c[k]
		}
		if shift == 0 {
			if x == nil && y == nil {
				continue
			}
			if sameRef(x, y) {
				continue
			}
			f(base | k)
		} else {
			var nx, ny *pnode
			if x != nil {
				nx = x.(*pnode)
			}
			if y != nil {
				ny = y.(*pnode)
			}
			if nx != ny {
				diffNode(nx, ny, shift-5, base|k<<shift, f)
			}
		}
	}
}

func sameRef(x, y interface{}) bool {
	switch a := x.(type) {
	case *Struct:
		b, ok := y.(*Struct)
		return ok && a == b
	case *Array:
		b, ok := y.(*Array)
		return ok && a == b
	case *MapV:
		b, ok := y.(*MapV)
		return ok && a == b
	case *Ext:
		b, ok := y.(*Ext)
		return ok && a == b
	}
	return Show(x) == Show(y)
}

// fact is a list of assumptions.
type fact struct {
	term string
	val  bool
	n    int // number of facts
	next *fact
}

// State is the abstract state.
type State struct {
	heap  pvec
	next  int
	fresh int
	facts *fact
	mat   *mat // objects created for unknown pointers
	// cells used by checks to store their own abstract state
	Vars *vars

	// objects that shouldn't be modified, and the instruction that is being executed
	watch *watch
	at    ssa.Instruction
}

// watch contains the objects whose modifications should be noted.
type watch struct {
	objs     []map[int]bool
	describe func(ssa.Instruction) string
}

// Watch starts to take note of the modifications of the given objects, excluding the ones that are
// represented by models. The result is available in the variable 'written'.
func (s *State) Watch(it *Interp, objs ...map[int]bool) {
	s.SetVar("written", "")
	s.SetVar("synchronized", "")
	s.watch = nil
	if len(objs) > 0 {
		s.watch = &watch{objs, it.Where}
	}
}

// modified takes note that an object will be modified.
func (s *State) modified(id int, v Value) {
	if _, ok := v.(*Ext); ok || s.Var("written") != "" {
		return
	}
	for _, m := range s.watch.objs {
		if m[id] {
			s.SetVar("written", s.watch.describe(s.at))
			return
		}
	}
}

type mat struct {
	term string
	id   int
	next *mat
}

type vars struct {
	name string
	val  string
	next *vars
}

// Clone creates a copy of the state.
func (s *State) Clone() *State {
	c := *s
	return &c
}

// Alloc allocates a new object.
func (s *State) Alloc(v Value) int {
	if s.next == 0 {
		s.next = 1
	}
	id := s.next
	s.next++
	s.heap = s.heap.set(id, v)
	return id
}

// Get returns the content of an object.
func (s *State) Get(id int) Value {
	return s.heap.get(id)
}

// Set sets the content of an object.
func (s *State) Set(id int, v Value) {
	if s.watch != nil {
		s.modified(id, v)
	}
	s.heap = s.heap.set(id, v)
}

// Fresh creates a new symbol name.
func (s *State) Fresh(hint string) string {
	s.fresh++
	return "?" + strconv.Itoa(s.fresh) + hint
}

// Fact returns the assumption made about a term.
func (s *State) Fact(term string) (bool, bool) {
	for f := s.facts; f != nil; f = f.next {
		if f.term == term {
			return f.val, true
		}
	}
	return false, false
}

// Assume adds an assumption.
func (s *State) Assume(term string, val bool) {
	if v, ok := s.Fact(term); ok && v == val {
		return
	}
	s.facts = &fact{term, val, factCount(s.facts) + 1, s.facts}
}

// SetVar sets an auxiliary variable.
func (s *State) SetVar(name, val string) {
	if s.Var(name) == val {
		return
	}
	// Rebuild the list so that its representation is canonical:
	m := map[string]string{}
	for v := s.Vars; v != nil; v = v.next {
		m[v.name] = v.val
	}
	m[name] = val
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	s.Vars = nil
	for _, k := range keys {
		if m[k] != "" {
			s.Vars = &vars{k, m[k], s.Vars}
		}
	}
}

// Var returns an auxiliary variable.
func (s *State) Var(name string) string {
	for v := s.Vars; v != nil; v = v.next {
		if v.name == name {
			return v.val
		}
	}
	return ""
}

// VarNames returns the auxiliary variables with the given prefix.
func (s *State) VarNames(prefix string) []string {
	var r []string
	for v := s.Vars; v != nil; v = v.next {
		if strings.HasPrefix(v.name, prefix) {
			r = append(r, v.name)
		}
	}
	sort.Strings(r)
	return r
}

func intersect(a, b *fact) *fact {
	// Find the common part:
	x, y := a, b
	for x != y {
		if factCount(x) >= factCount(y) {
			x = x.next
		} else {
			y = y.next
		}
	}
	common := x
	if a == common || b == common {
		return common
	}
	m := map[string]bool{}
	for f := b; f != common; f = f.next {
		if _, ok := m[f.term]; !ok {
			m[f.term] = f.val
		}
	}
	var keep []*fact
	for f := a; f != common; f = f.next {
		if v, ok := m[f.term]; ok && v == f.val {
			keep = append(keep, f)
		}
	}
	r := common
	for i := len(keep) - 1; i >= 0; i-- {
		if v, ok := lookup(r, keep[i].term); ok && v == keep[i].val {
			continue
		}
		r = &fact{keep[i].term, keep[i].val, factCount(r) + 1, r}
	}
	return r
}

func lookup(f *fact, term string) (bool, bool) {
	for ; f != nil; f = f.next {
		if f.term == term {
			return f.val, true
		}
	}
	return false, false
}

var refRE = regexp.MustCompile(`#\d+`)
var symRE = regexp.MustCompile(`\?\d+`)

// key calculates a canonical representation of the given roots and of the differences of the heap
// regarding to the given base state.
func (s *State) key(base *State, roots []Value) string {
	limit := base.next
	var out strings.Builder
	queue := []int{}
	seen := map[int]int{}
	add := func(id int) {
		if _, ok := seen[id]; !ok {
			seen[id] = len(seen)
			queue = append(queue, id)
		}
	}
	emit := func(v Value) {
		refs(v, func(id int) {
			if id >= limit {
				add(id)
			}
		})
		out.WriteString(Show(v))
		out.WriteByte(';')
	}
	for v := s.Vars; v != nil; v = v.next {
		out.WriteString(v.name + "=" + v.val + ";")
	}
	for _, r := range roots {
		emit(r)
	}
	for m := s.mat; m != nil && m != base.mat; m = m.next {
		out.WriteString("mat " + m.term + "=")
		emit(Ptr{Obj: m.id})
	}
	out.WriteByte('\n')
	// Changed old objects:
	var changed []int
	s.heap.diff(base.heap, func(i int) {
		if i < limit {
			changed = append(changed, i)
		}
	})
	sort.Ints(changed)
	for _, id := range changed {
		out.WriteString("@" + strconv.Itoa(id) + "=")
		emit(s.Get(id))
	}
	for len(queue) > 0 {
		id := queue[0]
		queue = queue[1:]
		out.WriteString("@new=")
		emit(s.Get(id))
	}
	text := refRE.ReplaceAllStringFunc(out.String(), func(m string) string {
		id, _ := strconv.Atoi(m[1:])
		if id >= limit {
			if n, ok := seen[id]; ok {
				return "#n" + strconv.Itoa(n)
			}
		}
		return m
	})
	names := map[string]string{}
	return symRE.ReplaceAllStringFunc(text, func(m string) string {
		n, ok := names[m]
		if !ok {
			n = "?" + strconv.Itoa(len(names)) + "x"
			names[m] = n
		}
		return n
	})
}

// Reach returns the objects reachable from the given values. Arrays without elements are ignored.
func (s *State) Reach(roots ...Value) map[int]bool {
	seen := map[int]bool{}
	var todo []int
	push := func(id int) {
		if seen[id] {
			return
		}
		if a, ok := s.Get(id).(*Array); ok && len(a.E) == 0 {
			return
		}
		seen[id] = true
		todo = append(todo, id)
	}
	for _, r := range roots {
		refs(r, push)
	}
	for len(todo) > 0 {
		id := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		refs(s.Get(id), push)
	}
	return seen
}

// Shared describes the objects reachable from both values.
func (s *State) Shared(a, b []Value) (r []string) {
	x := s.Reach(a...)
	var ids []int
	for id := range s.Reach(b...) {
		if x[id] {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		switch t := s.Get(id).(type) {
		case *Array:
			r = append(r, "a slice with elements "+showList(t.E))
		case *MapV:
			r = append(r, "a map with keys "+showList(t.K))
		default:
			r = append(r, "a structure")
		}
	}
	return
}
