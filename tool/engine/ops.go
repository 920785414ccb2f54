package engine

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func one(st *State, v Value) []Outcome { return []Outcome{{S: st, V: v}} }

func steps(path string) []int {
	if path == "" {
		return nil
	}
	parts := strings.Split(path, "/")
	r := make([]int, len(parts))
	for i, p := range parts {
		r[i], _ = strconv.Atoi(p)
	}
	return r
}

func join(path string, step int) string {
	if path == "" {
		return strconv.Itoa(step)
	}
	return path + "/" + strconv.Itoa(step)
}

// Load reads memory.
func (it *Interp) Load(st *State, p Value, t types.Type) (Value, string) {
	switch x := p.(type) {
	case Ptr:
		v := st.Get(x.Obj)
		if a, ok := v.(*Array); ok && it.owned != nil {
			delete(it.owned, a)
		}
		if x.Path == "" {
			return v, ""
		}
		for _, s := range steps(x.Path) {
			switch c := v.(type) {
			case *Struct:
				v = c.F[s]
			case *Array:
				v = c.E[s]
			case *Ext:
				// Embedded objects of the objects managed by the models are the same
				// object:
				return Ptr{Obj: x.Obj}, ""
			default:
				it.undecided("load of step %d of %s", s, Show(v))
			}
		}
		return v, ""
	case Nil:
		return nil, "nil dereference"
	case Sym:
		return it.Load(st, it.materialize(st, x), t)
	}
	it.undecided("load from %s", Show(p))
	return nil, ""
}

// materialize creates the object for an unknown pointer.
func (it *Interp) materialize(st *State, s Sym) Ptr {
	for m := st.mat; m != nil; m = m.next {
		if m.term == s.Term {
			return Ptr{Obj: m.id}
		}
	}
	pt, ok := s.T.Underlying().(*types.Pointer)
	if !ok {
		it.undecided("dereference of %s of type %s", Show(s), s.T)
	}
	id := st.Alloc(it.SymOf(st, "*"+s.Term, pt.Elem()))
	st.mat = &mat{s.Term, id, st.mat}
	return Ptr{Obj: id}
}

// Store writes memory.
func (it *Interp) Store(st *State, p Value, v Value) string {
	switch x := p.(type) {
	case Ptr:
		if x.Path == "" {
			st.Set(x.Obj, v)
			return ""
		}
		st.Set(x.Obj, it.update(st.Get(x.Obj), steps(x.Path), v))
		return ""
	case Nil:
		return "nil dereference"
	case Sym:
		return it.Store(st, it.materialize(st, x), v)
	}
	it.undecided("store to %s", Show(p))
	return ""
}

func (it *Interp) update(c Value, path []int, v Value) Value {
	if len(path) == 0 {
		return v
	}
	switch t := c.(type) {
	case *Struct:
		n := &Struct{F: append([]Value(nil), t.F...)}
		n.F[path[0]] = it.update(t.F[path[0]], path[1:], v)
		return n
	case *Array:
		if it.owned[t] {
			t.E[path[0]] = it.update(t.E[path[0]], path[1:], v)
			return t
		}
		n := &Array{E: append([]Value(nil), t.E...)}
		n.E[path[0]] = it.update(t.E[path[0]], path[1:], v)
		if it.owned != nil && len(n.E) > 64 {
			it.owned[n] = true
		}
		return n
	}
	it.undecided("update of %s", Show(c))
	return nil
}

// Elems returns the elements of a slice.
func (it *Interp) Elems(st *State, v Value) []Value {
	switch x := v.(type) {
	case Nil:
		return nil
	case Slice:
		a, _ := it.Load(st, Ptr{Obj: x.Obj, Path: x.Path}, nil)
		arr, ok := a.(*Array)
		if !ok {
			it.undecided("slice of %s", Show(a))
		}
		return arr.E[x.Off : x.Off+x.Len]
	}
	it.undecided("elements of %s", Show(v))
	return nil
}

// MakeSlice creates a slice with the given elements.
func (it *Interp) MakeSlice(st *State, elems []Value) Value {
	id := st.Alloc(&Array{E: append([]Value(nil), elems...)})
	return Slice{Obj: id, Len: len(elems), Cap: len(elems)}
}

// MapSet updates a map.
func (it *Interp) MapSet(st *State, m, k, v Value) string {
	switch x := m.(type) {
	case Nil:
		return "assignment to entry in nil map"
	case MapRef:
		mv := st.Get(x.Obj).(*MapV)
		i := it.mapIndex(st, mv, k)
		n := &MapV{K: append([]Value(nil), mv.K...), V: append([]Value(nil), mv.V...)}
		if i >= 0 {
			n.V[i] = v
		} else {
			n.K = append(n.K, k)
			n.V = append(n.V, v)
		}
		st.Set(x.Obj, n)
		return ""
	case Sym:
		it.Havoc["map "+x.Term]++
		return ""
	}
	it.undecided("update of map %s", Show(m))
	return ""
}

func (it *Interp) mapIndex(st *State, mv *MapV, k Value) int {
	for i, o := range mv.K {
		if e, ok := it.Eq(st, o, k).(bool); ok && e {
			return i
		}
	}
	return -1
}

// MapGet gets an element of a map.
func (it *Interp) MapGet(st *State, m, k Value, elem types.Type) (Value, Value) {
	switch x := m.(type) {
	case Nil:
		return it.Zero(elem), false
	case MapRef:
		mv := st.Get(x.Obj).(*MapV)
		for i, o := range mv.K {
			switch e := it.Eq(st, o, k).(type) {
			case bool:
				if e {
					return mv.V[i], true
				}
			default:
				term := "get(" + Show(m) + "," + Show(k) + ")"
				return it.SymOf(st, term, elem), Sym{Term: "in" + term, T: types.Typ[types.Bool]}
			}
		}
		return it.Zero(elem), false
	case Sym:
		term := "get(" + x.Term + "," + Show(k) + ")"
		return it.SymOf(st, term, elem), Sym{Term: "in" + term, T: types.Typ[types.Bool]}
	}
	it.undecided("lookup in %s", Show(m))
	return nil, nil
}

func notV(v Value) Value {
	switch t := v.(type) {
	case bool:
		return !t
	case Sym:
		if strings.HasPrefix(t.Term, "!") {
			return Sym{Term: t.Term[1:], T: t.T}
		}
		return Sym{Term: "!" + t.Term, T: t.T}
	}
	return v
}

func (it *Interp) nilTerm(st *State, s Sym) Value {
	term := "nil:" + s.Term
	if b, ok := st.Fact(term); ok {
		return b
	}
	for m := st.mat; m != nil; m = m.next {
		if m.term == s.Term {
			return false
		}
	}
	return Sym{Term: term, T: types.Typ[types.Bool]}
}

// IsNil returns if the value is nil, a bool or a symbol.
func (it *Interp) IsNil(st *State, v Value) Value {
	switch t := v.(type) {
	case Nil:
		return true
	case Sym:
		return it.nilTerm(st, t)
	}
	return false
}

// Eq compares values.
func (it *Interp) Eq(st *State, a, b Value) Value {
	if _, ok := a.(Nil); ok {
		return it.IsNil(st, b)
	}
	if _, ok := b.(Nil); ok {
		return it.IsNil(st, a)
	}
	if s, ok := a.(Sym); ok {
		return it.symEq(st, s, b)
	}
	if s, ok := b.(Sym); ok {
		return it.symEq(st, s, a)
	}
	switch x := a.(type) {
	case bool:
		if y, ok := b.(bool); ok {
			return x == y
		}
	case int64:
		switch y := b.(type) {
		case int64:
			return x == y
		case Bits:
			return it.bitsEq(st, y, uint64(x))
		}
	case Bits:
		switch y := b.(type) {
		case int64:
			return it.bitsEq(st, x, uint64(y))
		case Bits:
			if Show(x) == Show(y) {
				return true
			}
			return it.term(st, "eq", Show(x), Show(y))
		}
	case float64:
		if y, ok := b.(float64); ok {
			return x == y
		}
	case Str:
		if y, ok := b.(Str); ok {
			return it.strEq(st, x, y)
		}
	case Ptr:
		if y, ok := b.(Ptr); ok {
			return x == y
		}
		return false
	case MapRef:
		if y, ok := b.(MapRef); ok {
			return x == y
		}
		return false
	case *Func:
		return Show(a) == Show(b)
	case Iface:
		if y, ok := b.(Iface); ok {
			if !types.Identical(x.T, y.T) {
				return false
			}
			return it.Eq(st, x.V, y.V)
		}
		return false
	case *Struct:
		y, ok := b.(*Struct)
		if ok && len(x.F) == len(y.F) {
			return it.allEq(st, x.F, y.F)
		}
	case *Array:
		y, ok := b.(*Array)
		if ok && len(x.E) == len(y.E) {
			return it.allEq(st, x.E, y.E)
		}
	case Tuple:
		y, ok := b.(Tuple)
		if ok && len(x) == len(y) {
			return it.allEq(st, x, y)
		}
	}
	it.undecided("comparison of %s and %s", Show(a), Show(b))
	return nil
}

func (it *Interp) allEq(st *State, a, b []Value) Value {
	unknown := ""
	for i := range a {
		switch e := it.Eq(st, a[i], b[i]).(type) {
		case bool:
			if !e {
				return false
			}
		case Sym:
			if unknown != "" {
				unknown += "&"
			}
			unknown += e.Term
		}
	}
	if unknown == "" {
		return true
	}
	return Sym{Term: "(" + unknown + ")", T: types.Typ[types.Bool]}
}

func (it *Interp) term(st *State, op, a, b string) Value {
	t := op + "(" + a + "," + b + ")"
	if v, ok := st.Fact(t); ok {
		return v
	}
	return Sym{Term: t, T: types.Typ[types.Bool]}
}

func (it *Interp) symEq(st *State, s Sym, v Value) Value {
	if o, ok := v.(Sym); ok {
		if o.Term == s.Term {
			return true
		}
		a, b := Show(s), Show(o)
		if b < a {
			a, b = b, a
		}
		return it.term(st, "eq", a, b)
	}
	if b, ok := v.(bool); ok {
		if b {
			return s
		}
		return notV(s)
	}
	if n, ok := v.(int64); ok {
		// The length of an unknown text is zero only if it is empty:
		if strings.HasPrefix(s.Term, "len:str:") && n == 0 {
			if nonEmptyLen(s.Term) {
				return false
			}
			return it.term(st, "eq", s.Term[8:], "\"\"")
		}
		lo, hi, ne := it.bounds(st, s.Term)
		if n < lo || n > hi || ne[n] {
			return false
		}
		if lo == hi {
			return true
		}
		return it.term(st, "eq", s.Term, strconv.FormatInt(n, 10))
	}
	if p, ok := v.(Ptr); ok {
		for m := st.mat; m != nil; m = m.next {
			if m.term == s.Term {
				return p.Obj == m.id && p.Path == ""
			}
		}
	}
	return it.term(st, "eq", Show(s), Show(v))
}

// bounds calculates the bounds of an unknown number from the assumptions.
func (it *Interp) bounds(st *State, term string) (int64, int64, map[int64]bool) {
	lo, hi := int64(math.MinInt64), int64(math.MaxInt64)
	ne := map[int64]bool{}
	if strings.HasPrefix(term, "len:") {
		lo = 0
		if nonEmptyLen(term) {
			lo = 1
		}
	}
	for f := st.facts; f != nil; f = f.next {
		switch {
		case strings.HasPrefix(f.term, "lt("+term+","):
			n, err := strconv.ParseInt(strings.TrimSuffix(f.term[len(term)+4:], ")"), 10, 64)
			if err == nil {
				if f.val && n-1 < hi {
					hi = n - 1
				}
				if !f.val && n > lo {
					lo = n
				}
			}
		case strings.HasPrefix(f.term, "lt(") && strings.HasSuffix(f.term, ","+term+")"):
			n, err := strconv.ParseInt(f.term[3:len(f.term)-len(term)-2], 10, 64)
			if err == nil {
				if f.val && n+1 > lo {
					lo = n + 1
				}
				if !f.val && n < hi {
					hi = n
				}
			}
		case strings.HasPrefix(f.term, "eq("+term+","):
			n, err := strconv.ParseInt(strings.TrimSuffix(f.term[len(term)+4:], ")"), 10, 64)
			if err == nil {
				if f.val {
					lo, hi = n, n
				} else {
					ne[n] = true
				}
			}
		}
	}
	return lo, hi, ne
}

// Bounds returns what is known about an unknown number.
func (it *Interp) Bounds(st *State, term string) (int64, int64, map[int64]bool) {
	return it.bounds(st, term)
}

func (it *Interp) lt(st *State, a, b Value, unsigned bool) Value {
	switch x := a.(type) {
	case int64:
		switch y := b.(type) {
		case int64:
			if unsigned {
				return uint64(x) < uint64(y)
			}
			return x < y
		case Sym:
			lo, hi, _ := it.bounds(st, y.Term)
			if x < lo {
				return true
			}
			if x >= hi {
				return false
			}
			return it.term(st, "lt", strconv.FormatInt(x, 10), y.Term)
		}
	case float64:
		if y, ok := b.(float64); ok {
			return x < y
		}
	case Str:
		if y, ok := b.(Str); ok {
			c1, ok1 := x.Const()
			c2, ok2 := y.Const()
			if ok1 && ok2 {
				return c1 < c2
			}
			if x.ID() == y.ID() {
				return false
			}
			return it.term(st, "lt", Show(x), Show(y))
		}
	case Sym:
		switch y := b.(type) {
		case int64:
			lo, hi, _ := it.bounds(st, x.Term)
			if hi < y {
				return true
			}
			if lo >= y {
				return false
			}
			return it.term(st, "lt", x.Term, strconv.FormatInt(y, 10))
		case Sym:
			if x.Term == y.Term {
				return false
			}
			return it.term(st, "lt", x.Term, y.Term)
		}
	}
	return it.term(st, "lt", Show(a), Show(b))
}

func (it *Interp) bitsEq(st *State, x Bits, c uint64) Value {
	if x.Ones&^c != 0 || x.Zeros&c != 0 {
		return false
	}
	if x.Ones|x.Zeros == math.MaxUint64 {
		return x.Ones == c
	}
	// A single unknown bit:
	unknown := ^(x.Ones | x.Zeros)
	if unknown&(unknown-1) == 0 {
		term := "bit(" + x.Term + "," + strconv.FormatUint(unknown, 16) + ")"
		isSet := c&unknown != 0
		if v, ok := st.Fact(term); ok {
			return v == isSet
		}
		s := Sym{Term: term, T: types.Typ[types.Bool]}
		if isSet {
			return s
		}
		return notV(s)
	}
	return it.term(st, "eq", Show(x), strconv.FormatUint(c, 10))
}

func bitsOf(it *Interp, v Value) (Bits, bool) {
	switch t := v.(type) {
	case Bits:
		return t, true
	case int64:
		return Bits{Ones: uint64(t), Zeros: ^uint64(t)}, true
	}
	return Bits{}, false
}

func simplifyBits(b Bits) Value {
	if b.Ones|b.Zeros == math.MaxUint64 {
		return int64(b.Ones)
	}
	return b
}

func (it *Interp) strEq(st *State, a, b Str) Value {
	ca, ok1 := a.Const()
	cb, ok2 := b.Const()
	if ok1 && ok2 {
		return ca == cb
	}
	ia, ib := a.ID(), b.ID()
	if ia == ib {
		return true
	}
	if ok1 && ca == "" && b.NonEmpty() || ok2 && cb == "" && a.NonEmpty() {
		return false
	}
	// Different constant prefixes or suffixes, or constant parts longer than the other:
	pre := func(s Str) string {
		if len(s.Parts) > 0 && s.Parts[0].A == nil {
			return s.Parts[0].C
		}
		return ""
	}
	suf := func(s Str) string {
		if len(s.Parts) > 0 && s.Parts[len(s.Parts)-1].A == nil {
			return s.Parts[len(s.Parts)-1].C
		}
		return ""
	}
	pa, pb := pre(a), pre(b)
	if !strings.HasPrefix(pa, pb) && !strings.HasPrefix(pb, pa) {
		return false
	}
	sa, sb := suf(a), suf(b)
	if !strings.HasSuffix(sa, sb) && !strings.HasSuffix(sb, sa) {
		return false
	}
	if ok1 && len(ca) < constLen(b) || ok2 && len(cb) < constLen(a) {
		return false
	}
	if ok2 || (!ok1 && ia < ib) {
		ia, ib = ib, ia
	}
	// Now ib is the unknown one, if there is only one:
	x, y := strconv.Quote(ib), strconv.Quote(ia)
	// Equality with a different constant already assumed:
	if ok1 || ok2 {
		for f := st.facts; f != nil; f = f.next {
			if f.val && strings.HasPrefix(f.term, "eq("+x+",\"") && f.term != "eq("+x+","+y+")" && strings.HasPrefix(f.term, "eq("+x+",") && !strings.Contains(f.term[len(x)+4:], "⟨") {
				return false
			}
		}
	}
	return it.term(st, "eq", x, y)
}

func constLen(s Str) int {
	n := 0
	for _, p := range s.Parts {
		if p.A == nil {
			n += len(p.C)
		}
	}
	return n
}

// wrap converts the number to the range of the type.
func wrap(n int64, t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return n
	}
	switch b.Kind() {
	case types.Int8:
		return int64(int8(n))
	case types.Int16:
		return int64(int16(n))
	case types.Int32:
		return int64(int32(n))
	case types.Uint8:
		return int64(uint8(n))
	case types.Uint16:
		return int64(uint16(n))
	case types.Uint32:
		return int64(uint32(n))
	}
	return n
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (it *Interp) binop(st *State, op token.Token, a, b Value, t, opT types.Type) (Value, string) {
	switch op {
	case token.EQL:
		return it.Eq(st, a, b), ""
	case token.NEQ:
		return notV(it.Eq(st, a, b)), ""
	case token.LSS:
		return it.lt(st, a, b, isUnsigned(opT)), ""
	case token.GTR:
		return it.lt(st, b, a, isUnsigned(opT)), ""
	case token.LEQ:
		return notV(it.lt(st, b, a, isUnsigned(opT))), ""
	case token.GEQ:
		return notV(it.lt(st, a, b, isUnsigned(opT))), ""
	}
	switch x := a.(type) {
	case Str:
		if y, ok := b.(Str); ok && op == token.ADD {
			return Cat(x, y), ""
		}
	case float64:
		if y, ok := b.(float64); ok {
			switch op {
			case token.ADD:
				return x + y, ""
			case token.SUB:
				return x - y, ""
			case token.MUL:
				return x * y, ""
			case token.QUO:
				return x / y, ""
			}
		}
	case int64:
		if y, ok := b.(int64); ok {
			switch op {
			case token.ADD:
				return wrap(x+y, t), ""
			case token.SUB:
				return wrap(x-y, t), ""
			case token.MUL:
				return wrap(x*y, t), ""
			case token.QUO, token.REM:
				if y == 0 {
					return nil, "division by zero"
				}
				if isUnsigned(t) {
					if op == token.QUO {
						return int64(uint64(x) / uint64(y)), ""
					}
					return int64(uint64(x) % uint64(y)), ""
				}
				if op == token.QUO {
					return wrap(x/y, t), ""
				}
				return wrap(x%y, t), ""
			case token.AND:
				return wrap(x&y, t), ""
			case token.OR:
				return wrap(x|y, t), ""
			case token.XOR:
				return wrap(x^y, t), ""
			case token.AND_NOT:
				return wrap(x&^y, t), ""
			case token.SHL:
				if uint64(y) >= 64 {
					return int64(0), ""
				}
				return wrap(x<<uint64(y), t), ""
			case token.SHR:
				if isUnsigned(t) {
					if uint64(y) >= 64 {
						return int64(0), ""
					}
					return wrap(int64(uint64(x)>>uint64(y)), t), ""
				}
				if uint64(y) >= 64 {
					y = 63
				}
				return wrap(x>>uint64(y), t), ""
			}
		}
	case bool:
		if y, ok := b.(bool); ok {
			switch op {
			case token.AND:
				return x && y, ""
			case token.OR:
				return x || y, ""
			}
		}
	}
	if _, ok := a.(Bits); ok {
		if r, ok := it.bitsOp(op, a, b); ok {
			return r, ""
		}
	}
	if _, ok := b.(Bits); ok {
		if r, ok := it.bitsOp(op, a, b); ok {
			return r, ""
		}
	}
	// Linear simplification, x+c1+c2:
	if s, ok := a.(Sym); ok {
		if n, ok := b.(int64); ok && (op == token.ADD || op == token.SUB) {
			if op == token.SUB {
				n = -n
			}
			base, off := splitOff(s.Term)
			return offSym(base, off+n, t), ""
		}
	}
	if op == token.QUO || op == token.REM {
		if n, ok := b.(int64); ok && n == 0 {
			return nil, "division by zero"
		}
	}
	return Sym{Term: "(" + Show(a) + op.String() + Show(b) + ")", T: t}, ""
}

func splitOff(term string) (string, int64) {
	if strings.HasSuffix(term, "]") {
		if i := strings.LastIndex(term, "[+"); i > 0 {
			n, err := strconv.ParseInt(term[i+2:len(term)-1], 10, 64)
			if err == nil {
				return term[:i], n
			}
		}
	}
	return term, 0
}

func offSym(base string, off int64, t types.Type) Value {
	if off == 0 {
		return Sym{Term: base, T: t}
	}
	return Sym{Term: base + "[+" + strconv.FormatInt(off, 10) + "]", T: t}
}

func (it *Interp) bitsOp(op token.Token, a, b Value) (Value, bool) {
	x, ok1 := bitsOf(it, a)
	y, ok2 := bitsOf(it, b)
	if !ok1 || !ok2 {
		return nil, false
	}
	term := x.Term
	if y.Term != "" {
		if term != "" && term != y.Term {
			return nil, false
		}
		term = y.Term
	}
	switch op {
	case token.AND:
		return simplifyBits(Bits{Term: term, Ones: x.Ones & y.Ones, Zeros: x.Zeros | y.Zeros, T: x.T}), true
	case token.OR:
		return simplifyBits(Bits{Term: term, Ones: x.Ones | y.Ones, Zeros: x.Zeros & y.Zeros, T: x.T}), true
	case token.AND_NOT:
		return simplifyBits(Bits{Term: term, Ones: x.Ones & y.Zeros, Zeros: x.Zeros | y.Ones, T: x.T}), true
	}
	return nil, false
}

// eval calculates the value of an instruction.
func (f *frame) eval(i *item, instr ssa.Value) []Outcome {
	it, st := f.it, i.st
	ret := func(v Value) []Outcome { return one(st, v) }
	fail := func(msg string) []Outcome {
		return []Outcome{{S: st, Panic: msg, Where: it.Where(instr.(ssa.Instruction))}}
	}
	switch x := instr.(type) {
	case *ssa.Alloc:
		id := st.Alloc(it.Zero(x.Type().Underlying().(*types.Pointer).Elem()))
		return ret(Ptr{Obj: id})
	case *ssa.BinOp:
		v, msg := it.binop(st, x.Op, f.val(i, x.X), f.val(i, x.Y), x.Type(), x.X.Type())
		if msg != "" {
			return fail(msg)
		}
		return ret(v)
	case *ssa.UnOp:
		v := f.val(i, x.X)
		switch x.Op {
		case token.MUL:
			r, msg := it.Load(st, v, x.Type())
			if msg != "" {
				return fail(msg)
			}
			return ret(r)
		case token.NOT:
			return ret(notV(v))
		case token.SUB:
			switch n := v.(type) {
			case int64:
				return ret(wrap(-n, x.Type()))
			case float64:
				return ret(-n)
			}
			return ret(Sym{Term: "(-" + Show(v) + ")", T: x.Type()})
		case token.XOR:
			if n, ok := v.(int64); ok {
				return ret(wrap(^n, x.Type()))
			}
			return ret(Sym{Term: "(^" + Show(v) + ")", T: x.Type()})
		case token.ARROW:
			if m, ok := it.Models["select"]; ok {
				outs := m(&Call{I: it, S: st, Name: "recv", Args: []Value{true, v}, Site: x})
				for k, o := range outs {
					if t, ok := o.V.(Tuple); ok && o.Panic == "" {
						r := t[1]
						if r == nil {
							r = it.Zero(x.X.Type().Underlying().(*types.Chan).Elem())
						}
						if x.CommaOk {
							r = Tuple{r, true}
						}
						outs[k].V = r
					}
				}
				return outs
			}
		}
		it.undecided("unary operation %s", x)
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var ops [2]*ssa.Value
		return ret(retype(f.val(i, *instr.(ssa.Instruction).Operands(ops[:0])[0]), instr.Type()))
	case *ssa.MultiConvert:
		return ret(it.convert(st, f.val(i, x.X), x.X.Type(), x.Type()))
	case *ssa.Convert:
		return ret(it.convert(st, f.val(i, x.X), x.X.Type(), x.Type()))
	case *ssa.Extract:
		t, ok := f.val(i, x.Tuple).(Tuple)
		if !ok {
			it.undecided("extract from %s", Show(f.val(i, x.Tuple)))
		}
		return ret(t[x.Index])
	case *ssa.Field:
		s, ok := f.val(i, x.X).(*Struct)
		if !ok {
			it.undecided("field of %s", Show(f.val(i, x.X)))
		}
		return ret(s.F[x.Field])
	case *ssa.FieldAddr:
		p := f.val(i, x.X)
		if s, ok := p.(Sym); ok {
			p = it.materialize(st, s)
		}
		switch p := p.(type) {
		case Nil:
			return fail("nil dereference")
		case Ptr:
			return ret(Ptr{Obj: p.Obj, Path: join(p.Path, x.Field)})
		}
		it.undecided("field address of %s", Show(p))
	case *ssa.Index:
		return it.index(st, f.val(i, x.X), f.val(i, x.Index), x.Type(), fail)
	case *ssa.IndexAddr:
		p := f.val(i, x.X)
		n, isInt := f.val(i, x.Index).(int64)
		switch p := p.(type) {
		case Nil:
			return fail("index out of range")
		case Slice:
			if !isInt {
				it.undecided("index %s of %s", Show(f.val(i, x.Index)), Show(p))
			}
			if n < 0 || n >= int64(p.Len) {
				return fail("index out of range")
			}
			return ret(Ptr{Obj: p.Obj, Path: join(p.Path, p.Off+int(n))})
		case Ptr:
			if !isInt {
				it.undecided("index %s of %s", Show(f.val(i, x.Index)), Show(p))
			}
			at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if n < 0 || n >= at.Len() {
				return fail("index out of range")
			}
			return ret(Ptr{Obj: p.Obj, Path: join(p.Path, int(n))})
		case Sym:
			return ret(Sym{Term: "&" + p.Term + "[" + Show(f.val(i, x.Index)) + "]", T: x.Type()})
		}
		it.undecided("index address of %s", Show(p))
	case *ssa.Lookup:
		m := f.val(i, x.X)
		k := f.val(i, x.Index)
		if s, ok := m.(Str); ok {
			return it.index(st, s, k, x.Type(), fail)
		}
		mt := x.X.Type().Underlying().(*types.Map)
		v, ok := it.MapGet(st, m, k, mt.Elem())
		if x.CommaOk {
			return ret(Tuple{v, ok})
		}
		if s, isSym := ok.(Sym); isSym {
			t, fl := it.Split(st, s)
			var outs []Outcome
			if t != nil {
				outs = append(outs, Outcome{S: t, V: v})
			}
			if fl != nil {
				outs = append(outs, Outcome{S: fl, V: it.Zero(mt.Elem())})
			}
			return outs
		}
		return ret(v)
	case *ssa.MakeClosure:
		fn := &Func{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			fn.Free = append(fn.Free, f.val(i, b))
		}
		return ret(fn)
	case *ssa.MakeInterface:
		return ret(Iface{T: x.X.Type(), V: f.val(i, x.X)})
	case *ssa.MakeMap:
		return ret(MapRef{Obj: st.Alloc(&MapV{})})
	case *ssa.MakeSlice:
		n, ok1 := f.val(i, x.Len).(int64)
		c, ok2 := f.val(i, x.Cap).(int64)
		if !ok1 {
			it.undecided("make slice of length %s", Show(f.val(i, x.Len)))
		}
		if !ok2 || c < n {
			c = n
		}
		if c > 1<<22 {
			it.undecided("slice too large")
		}
		a := &Array{E: make([]Value, c)}
		z := it.Zero(x.Type().Underlying().(*types.Slice).Elem())
		for k := range a.E {
			a.E[k] = z
		}
		return ret(Slice{Obj: st.Alloc(a), Len: int(n), Cap: int(c)})
	case *ssa.Select:
		m, ok := it.Models["select"]
		if !ok {
			it.undecided("select")
		}
		args := []Value{x.Blocking}
		for _, s := range x.States {
			if s.Dir != types.RecvOnly {
				it.undecided("select that sends")
			}
			args = append(args, f.val(i, s.Chan))
		}
		outs := m(&Call{I: it, S: st, Name: "select", Args: args, Site: x})
		for k, o := range outs {
			t, ok := o.V.(Tuple)
			if !ok || o.Panic != "" {
				continue
			}
			r := Tuple{t[0], true}
			for j, s := range x.States {
				v := it.Zero(s.Chan.Type().Underlying().(*types.Chan).Elem())
				if t[0] == int64(j) && t[1] != nil {
					v = t[1]
				}
				r = append(r, v)
			}
			outs[k].V = r
		}
		return outs
	case *ssa.MakeChan:
		return ret(Ptr{Obj: st.Alloc(&Ext{Kind: "chan"})})
	case *ssa.Range:
		v := f.val(i, x.X)
		switch t := v.(type) {
		case Str:
			return ret(Ptr{Obj: st.Alloc(&Ext{Kind: "striter", D: []Value{t, int64(0)}})})
		case Nil:
			return ret(Ptr{Obj: st.Alloc(&Ext{Kind: "mapiter", D: []Value{v, int64(0), Tuple{}}})})
		case MapRef:
			keys := append(Tuple(nil), st.Get(t.Obj).(*MapV).K...)
			it.OrderKeys(keys)
			return ret(Ptr{Obj: st.Alloc(&Ext{Kind: "mapiter", D: []Value{v, int64(0), keys}})})
		case Sym:
			return ret(Ptr{Obj: st.Alloc(&Ext{Kind: "symiter", D: []Value{t, int64(0)}})})
		}
		it.undecided("range over %s", Show(v))
	case *ssa.Next:
		return it.next(st, f.val(i, x.Iter).(Ptr), x)
	case *ssa.Slice:
		return it.slice(st, x, f.val(i, x.X), f.opt(i, x.Low), f.opt(i, x.High), f.opt(i, x.Max), fail)
	case *ssa.TypeAssert:
		return it.typeAssert(st, x, f.val(i, x.X), fail)
	case *ssa.SliceToArrayPointer:
		v := f.val(i, x.X)
		if s, ok := v.(Slice); ok && s.Off == 0 {
			return ret(Ptr{Obj: s.Obj, Path: s.Path})
		}
	}
	it.undecided("unsupported instruction %T %s", instr, instr)
	return nil
}

func retype(v Value, t types.Type) Value {
	if s, ok := v.(Sym); ok {
		s.T = t
		return s
	}
	return v
}

func (f *frame) opt(i *item, v ssa.Value) Value {
	if v == nil {
		return nil
	}
	return f.val(i, v)
}

func (it *Interp) index(st *State, v, k Value, t types.Type, fail func(string) []Outcome) []Outcome {
	n, ok := k.(int64)
	switch x := v.(type) {
	case Str:
		if c, isC := x.Const(); isC && ok {
			if n < 0 || int(n) >= len(c) {
				return fail("index out of range")
			}
			return one(st, int64(c[n]))
		}
		return one(st, Sym{Term: "byte(" + Show(v) + "," + Show(k) + ")", T: t})
	case *Array:
		if ok {
			if n < 0 || int(n) >= len(x.E) {
				return fail("index out of range")
			}
			return one(st, x.E[n])
		}
	}
	it.undecided("index %s of %s", Show(k), Show(v))
	return nil
}

func (it *Interp) next(st *State, p Ptr, x *ssa.Next) []Outcome {
	e := st.Get(p.Obj).(*Ext)
	pos := e.D[1].(int64)
	tt := x.Type().(*types.Tuple)
	zero := func(i int) Value {
		if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return it.Zero(tt.At(i).Type())
	}
	switch e.Kind {
	case "striter":
		s, ok := e.D[0].(Str).Const()
		if !ok {
			it.undecided("iteration of unknown text %s", Show(e.D[0]))
		}
		if int(pos) >= len(s) {
			return one(st, Tuple{false, int64(0), int64(0)})
		}
		r, n := utf8.DecodeRuneInString(s[pos:])
		st.Set(p.Obj, &Ext{Kind: e.Kind, D: []Value{e.D[0], pos + int64(n)}})
		return one(st, Tuple{true, pos, int64(r)})
	case "mapiter":
		keys := e.D[2].(Tuple)
		for int(pos) < len(keys) {
			k := keys[pos]
			pos++
			mv := st.Get(e.D[0].(MapRef).Obj).(*MapV)
			j := it.mapIndex(st, mv, k)
			if j < 0 {
				continue
			}
			st.Set(p.Obj, &Ext{Kind: e.Kind, D: []Value{e.D[0], pos, keys}})
			return one(st, Tuple{true, k, mv.V[j]})
		}
		return one(st, Tuple{false, zero(1), zero(2)})
	case "symiter":
		// Unknown map, explore zero, one or more elements:
		s := e.D[0].(Sym)
		mt := s.T.Underlying().(*types.Map)
		o := st.Clone()
		n := pos
		if n < 2 {
			n++
		}
		st.Set(p.Obj, &Ext{Kind: e.Kind, D: []Value{e.D[0], n}})
		k := it.SymOf(st, fmt.Sprintf("key(%s,%d)", s.Term, n), mt.Key())
		v := it.SymOf(st, fmt.Sprintf("val(%s,%d)", s.Term, n), mt.Elem())
		return []Outcome{{S: st, V: Tuple{true, k, v}}, {S: o, V: Tuple{false, zero(1), zero(2)}}}
	}
	it.undecided("iteration of %s", e.Kind)
	return nil
}

func (it *Interp) slice(st *State, x *ssa.Slice, v, lo, hi, max Value, fail func(string) []Outcome) []Outcome {
	l := int64(0)
	if lo != nil {
		n, ok := lo.(int64)
		if !ok {
			return one(st, it.SymOf(st, st.Fresh(":slice"), x.Type()))
		}
		l = n
	}
	h := int64(-1)
	if hi != nil {
		n, ok := hi.(int64)
		if !ok {
			return one(st, it.SymOf(st, st.Fresh(":slice"), x.Type()))
		}
		h = n
		if h < 0 {
			return fail("slice bounds out of range")
		}
	}
	switch t := v.(type) {
	case Str:
		c, ok := t.Const()
		if !ok {
			if l == 0 && h < 0 {
				return one(st, t)
			}
			return one(st, U(fmt.Sprintf("sub(%s,%d,%d)", t.ID(), l, h)))
		}
		if h < 0 {
			h = int64(len(c))
		}
		if l < 0 || h > int64(len(c)) || l > h {
			return fail("slice bounds out of range")
		}
		return one(st, C(c[l:h]))
	case Nil:
		if l == 0 && h <= 0 {
			return one(st, v)
		}
		return fail("slice bounds out of range")
	case Slice:
		if h < 0 {
			h = int64(t.Len)
		}
		if l < 0 || h > int64(t.Cap) || l > h {
			return fail("slice bounds out of range")
		}
		c := t.Cap - int(l)
		if m, ok := max.(int64); ok {
			c = int(m - l)
		}
		return one(st, Slice{Obj: t.Obj, Path: t.Path, Off: t.Off + int(l), Len: int(h - l), Cap: c})
	case Ptr:
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if h < 0 {
			h = at.Len()
		}
		if l < 0 || h > at.Len() || l > h {
			return fail("slice bounds out of range")
		}
		return one(st, Slice{Obj: t.Obj, Path: t.Path, Off: int(l), Len: int(h - l), Cap: int(at.Len() - l)})
	case Sym:
		if l == 0 && h < 0 {
			return one(st, t)
		}
		return one(st, it.SymOf(st, st.Fresh(":slice"), x.Type()))
	}
	it.undecided("slice of %s", Show(v))
	return nil
}

func (it *Interp) implements(t types.Type, iface *types.Interface) bool {
	return types.Implements(t, iface)
}

func (it *Interp) typeAssert(st *State, x *ssa.TypeAssert, v Value, fail func(string) []Outcome) []Outcome {
	t := x.AssertedType
	iface, isIface := t.Underlying().(*types.Interface)
	yes := func(s *State, r Value) Outcome {
		if x.CommaOk {
			return Outcome{S: s, V: Tuple{r, true}}
		}
		return Outcome{S: s, V: r}
	}
	no := func(s *State) Outcome {
		if x.CommaOk {
			return Outcome{S: s, V: Tuple{it.Zero(t), false}}
		}
		return Outcome{S: s, Panic: "failed type assertion to " + t.String(), Where: it.Where(x)}
	}
	switch i := v.(type) {
	case Nil:
		return []Outcome{no(st)}
	case Iface:
		if isIface {
			if it.implements(i.T, iface) {
				return []Outcome{yes(st, i)}
			}
			return []Outcome{no(st)}
		}
		if types.Identical(i.T, t) {
			return []Outcome{yes(st, i.V)}
		}
		return []Outcome{no(st)}
	case Sym:
		if isIface {
			if src, ok := i.T.Underlying().(*types.Interface); ok && types.Implements(src, iface) {
				// Only fails if it is nil:
				return it.fork(st, notV(it.nilTerm(st, i)), func(s *State) Outcome { return yes(s, retype(i, t)) }, no)
			}
		}
		term := "is(" + i.Term + "," + t.String() + ")"
		return it.fork(st, Sym{Term: term, T: types.Typ[types.Bool]}, func(s *State) Outcome {
			if isIface {
				return yes(s, retype(i, t))
			}
			// Other types are no longer possible:
			return yes(s, it.SymOf(s, "as("+i.Term+","+t.String()+")", t))
		}, no)
	}
	it.undecided("type assertion of %s", Show(v))
	return nil
}

func (it *Interp) fork(st *State, c Value, yes, no func(*State) Outcome) []Outcome {
	t, f := it.Split(st, c)
	var r []Outcome
	if t != nil {
		r = append(r, yes(t))
	}
	if f != nil {
		r = append(r, no(f))
	}
	return r
}

// Fork explores the two possible values of a condition.
func (it *Interp) Fork(st *State, c Value, yes, no func(*State) Outcome) []Outcome {
	return it.fork(st, c, yes, no)
}

func (it *Interp) convert(st *State, v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	tb, toBasic := tu.(*types.Basic)
	fb, fromBasic := fu.(*types.Basic)
	if toBasic && fromBasic {
		switch {
		case tb.Info()&types.IsString != 0 && fb.Info()&types.IsString != 0:
			return v
		case tb.Info()&types.IsString != 0 && fb.Info()&types.IsInteger != 0:
			if n, ok := v.(int64); ok {
				return C(string(rune(n)))
			}
			return U("rune(" + Show(v) + ")")
		case tb.Info()&types.IsInteger != 0:
			switch n := v.(type) {
			case int64:
				return wrap(n, to)
			case float64:
				return wrap(int64(n), to)
			case Bits:
				return n
			case Sym:
				return Sym{Term: convTerm(n.Term, fb, tb), T: to}
			}
		case tb.Info()&types.IsFloat != 0:
			switch n := v.(type) {
			case int64:
				return float64(n)
			case float64:
				if tb.Kind() == types.Float32 {
					return float64(float32(n))
				}
				return n
			case Sym:
				return Sym{Term: convTerm(n.Term, fb, tb), T: to}
			}
		}
		if tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer {
			return v
		}
	}
	if ts, ok := tu.(*types.Slice); ok && fromBasic && fb.Info()&types.IsString != 0 {
		s, isC := v.(Str).Const()
		if !isC {
			term := "bytes(" + v.(Str).ID() + ")"
			byteTexts.Store(term, v)
			return Sym{Term: term, T: to}
		}
		var e []Value
		if b, ok := ts.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
			for _, r := range s {
				e = append(e, int64(r))
			}
		} else {
			for k := 0; k < len(s); k++ {
				e = append(e, int64(s[k]))
			}
		}
		return it.MakeSlice(st, e)
	}
	if fs, ok := fu.(*types.Slice); ok && toBasic && tb.Info()&types.IsString != 0 {
		if _, ok := v.(Nil); ok {
			return Str{}
		}
		if s, ok := v.(Sym); ok {
			return symText(s)
		}
		isRune := false
		if b, ok := fs.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
			isRune = true
		}
		var sb strings.Builder
		for _, e := range it.Elems(st, v) {
			n, ok := e.(int64)
			if !ok {
				return U("str(" + Show(v) + ")")
			}
			if isRune {
				sb.WriteRune(rune(n))
			} else {
				sb.WriteByte(byte(n))
			}
		}
		return C(sb.String())
	}
	if types.Identical(fu, tu) {
		return retype(v, to)
	}
	switch fu.(type) {
	case *types.Pointer:
		return v
	}
	if toBasic && tb.Kind() == types.UnsafePointer {
		return v
	}
	it.undecided("conversion of %s from %s to %s", Show(v), from, to)
	return nil
}

func convTerm(term string, from, to *types.Basic) string {
	size := func(b *types.Basic) int {
		switch b.Kind() {
		case types.Int8, types.Uint8:
			return 1
		case types.Int16, types.Uint16:
			return 2
		case types.Int32, types.Uint32, types.Float32:
			return 4
		}
		return 8
	}
	if from.Info()&types.IsInteger != 0 && to.Info()&types.IsInteger != 0 && size(to) >= size(from) {
		return term
	}
	return to.Name() + "(" + term + ")"
}

// builtin implements the builtin functions.
func (it *Interp) builtin(st *State, name string, args []Value, ssaArgs []ssa.Value, t types.Type, site ssa.Instruction) []Outcome {
	fail := func(msg string) []Outcome {
		return []Outcome{{S: st, Panic: msg, Where: it.Where(site)}}
	}
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case Str:
			if c, ok := x.Const(); ok {
				return one(st, int64(len(c)))
			}
			return one(st, strLen(x))
		case Nil:
			return one(st, int64(0))
		case Slice:
			if name == "cap" {
				return one(st, int64(x.Cap))
			}
			return one(st, int64(x.Len))
		case MapRef:
			return one(st, int64(len(st.Get(x.Obj).(*MapV).K)))
		case *Array:
			return one(st, int64(len(x.E)))
		case Ptr:
			a, _ := it.Load(st, x, nil)
			if arr, ok := a.(*Array); ok {
				return one(st, int64(len(arr.E)))
			}
		case Sym:
			if s, ok := byteTexts.Load(x.Term); ok && name == "len" {
				return one(st, strLen(s.(Str)))
			}
			return one(st, Sym{Term: "len:" + x.Term, T: types.Typ[types.Int]})
		}
	case "append":
		return it.appendTo(st, args[0], args[1], ssaArgs)
	case "copy":
		dst, ok := args[0].(Slice)
		if _, isNil := args[0].(Nil); isNil {
			return one(st, int64(0))
		}
		if !ok {
			it.undecided("copy to %s", Show(args[0]))
		}
		var src []Value
		if s, ok := args[1].(Str); ok {
			c, isC := s.Const()
			if !isC {
				it.undecided("copy of unknown text")
			}
			for k := 0; k < len(c); k++ {
				src = append(src, int64(c[k]))
			}
		} else {
			src = it.Elems(st, args[1])
		}
		n := dst.Len
		if len(src) < n {
			n = len(src)
		}
		a, _ := it.Load(st, Ptr{Obj: dst.Obj, Path: dst.Path}, nil)
		e := append([]Value(nil), a.(*Array).E...)
		copy(e[dst.Off:dst.Off+n], src)
		it.Store(st, Ptr{Obj: dst.Obj, Path: dst.Path}, &Array{E: e})
		return one(st, int64(n))
	case "delete":
		switch m := args[0].(type) {
		case Nil:
			return one(st, nil)
		case MapRef:
			mv := st.Get(m.Obj).(*MapV)
			k := it.mapIndex(st, mv, args[1])
			if k >= 0 {
				n := &MapV{}
				n.K = append(append(n.K, mv.K[:k]...), mv.K[k+1:]...)
				n.V = append(append(n.V, mv.V[:k]...), mv.V[k+1:]...)
				st.Set(m.Obj, n)
			}
			return one(st, nil)
		case Sym:
			it.Havoc["map "+m.Term]++
			return one(st, nil)
		}
	case "panic":
		return fail("panic: " + it.Describe(st, args[0]))
	case "print", "println", "close":
		return one(st, nil)
	case "recover":
		return one(st, Nil{})
	case "ssa:wrapnilchk":
		if _, ok := args[0].(Nil); ok {
			return fail("nil dereference")
		}
		return one(st, args[0])
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			b, ok := it.lt(st, a, r, false).(bool)
			if !ok {
				it.undecided("%s of unknown", name)
			}
			if b == (name == "min") {
				r = a
			}
		}
		return one(st, r)
	case "clear":
		if m, ok := args[0].(MapRef); ok {
			st.Set(m.Obj, &MapV{})
			return one(st, nil)
		}
	}
	it.undecided("builtin %s of %s", name, showList(args))
	return nil
}

func (it *Interp) appendTo(st *State, a, b Value, ssaArgs []ssa.Value) []Outcome {
	var add []Value
	switch y := b.(type) {
	case Str:
		c, ok := y.Const()
		if !ok {
			it.undecided("append of unknown text")
		}
		for k := 0; k < len(c); k++ {
			add = append(add, int64(c[k]))
		}
	case Sym:
		it.Havoc["append of "+y.Term]++
		t := y.T
		return one(st, it.SymOf(st, st.Fresh(":append"), t))
	default:
		add = it.Elems(st, b)
	}
	switch x := a.(type) {
	case Nil:
		if len(add) == 0 {
			return one(st, a)
		}
		return one(st, it.MakeSlice(st, add))
	case Sym:
		it.Havoc["append to "+x.Term]++
		return one(st, it.SymOf(st, st.Fresh(":append"), x.T))
	case Slice:
		if len(add) == 0 {
			return one(st, a)
		}
		if x.Len+len(add) <= x.Cap {
			c, _ := it.Load(st, Ptr{Obj: x.Obj, Path: x.Path}, nil)
			e := append([]Value(nil), c.(*Array).E...)
			copy(e[x.Off+x.Len:], add)
			it.Store(st, Ptr{Obj: x.Obj, Path: x.Path}, &Array{E: e})
			x.Len += len(add)
			return one(st, x)
		}
		old := it.Elems(st, a)
		n := len(old) + len(add)
		c := 2 * x.Cap
		if c < n {
			c = n
		}
		e := make([]Value, c)
		copy(e, old)
		copy(e[len(old):], add)
		for k := n; k < c; k++ {
			e[k] = zeroLike(e[0])
		}
		return one(st, Slice{Obj: st.Alloc(&Array{E: e}), Len: n, Cap: c})
	}
	it.undecided("append to %s", Show(a))
	return nil
}

func zeroLike(v Value) Value {
	switch t := v.(type) {
	case bool:
		return false
	case int64:
		return int64(0)
	case float64:
		return float64(0)
	case Str:
		return Str{}
	case *Struct:
		s := &Struct{F: make([]Value, len(t.F))}
		for i := range s.F {
			s.F[i] = zeroLike(t.F[i])
		}
		return s
	}
	return Nil{}
}

// OrderKeys puts the keys of a map in the order selected for their iteration.
func (it *Interp) OrderKeys(keys []Value) {
	switch it.MapOrder {
	case 1:
		for a, b := 0, len(keys)-1; a < b; a, b = a+1, b-1 {
			keys[a], keys[b] = keys[b], keys[a]
		}
	case 2:
		sort.SliceStable(keys, func(a, b int) bool { return Show(keys[a]) < Show(keys[b]) })
	case 3:
		if n := len(keys); n > 1 {
			k := append(append([]Value(nil), keys[n/2:]...), keys[:n/2]...)
			copy(keys, k)
		}
	}
}

// tainted checks if a value depends on the results of the sources selected.
func (it *Interp) tainted(st *State, args []Value) bool {
	for _, a := range args {
		switch x := a.(type) {
		case Sym:
			if strings.HasPrefix(x.Term, "nondet:") {
				return true
			}
		case *Struct:
			if it.tainted(st, x.F) {
				return true
			}
		}
	}
	return false
}

// sourceValue calculates the value of something that depends on the environment.
func (it *Interp) sourceValue(st *State, t types.Type, term string) Value {
	switch u := t.Underlying().(type) {
	case *types.Tuple:
		if u.Len() == 0 {
			return nil
		}
		if u.Len() == 1 {
			return it.sourceValue(st, u.At(0).Type(), term)
		}
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = it.sourceValue(st, u.At(i).Type(), term+"."+strconv.Itoa(i))
		}
		return r
	case *types.Basic:
		switch {
		case it.Variant == 2:
			return it.SymOf(st, "nondet:"+term, t)
		case u.Info()&types.IsString != 0:
			return C([]string{"", "Xyz"}[it.Variant%2])
		case u.Info()&types.IsInteger != 0:
			return int64([]int{3, 11}[it.Variant%2])
		case u.Info()&types.IsFloat != 0:
			return []float64{0.25, 0.75}[it.Variant%2]
		case u.Info()&types.IsBoolean != 0:
			return it.Variant%2 == 1
		}
	case *types.Slice:
		return it.MakeSlice(st, []Value{it.sourceValue(st, u.Elem(), term)})
	case *types.Interface:
		return Nil{}
	}
	return it.SymOf(st, "nondet:", t)
}

// ShowAll returns the representation of several values.
func ShowAll(l []Value) string {
	var r []string
	for _, v := range l {
		r = append(r, Show(v))
	}
	return strings.Join(r, ",")
}
