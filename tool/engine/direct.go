package engine

import (
	"go/types"
	"time"

	"golang.org/x/tools/go/ssa"
)

// D is used to write models in direct style. When something has several outcomes the model is
// executed again for each of them.
type D struct {
	I    *Interp
	S    *State
	Call *Call
	// Unsorted indicates that maps should be converted to JSON in iteration order.
	Unsorted bool
	choices  []int
	widths   []int
}

type dPanic struct{ o Outcome }

// Direct converts a function written in direct style into a model.
func Direct(f func(d *D, args []Value) Value) Model {
	return func(c *Call) []Outcome {
		return RunDirect(c, func(d *D) Value { return f(d, c.Args) })
	}
}

// RunDirect runs a function for all the possible choices.
func RunDirect(c *Call, f func(d *D) Value) []Outcome {
	var outs []Outcome
	var prefix []int
	base := c.S
	for n := 0; ; n++ {
		if !c.I.Deadline.IsZero() && time.Now().After(c.I.Deadline) {
			c.I.undecided("time exhausted in %s", c.Name)
		}
		if n > 4096 {
			c.I.undecided("too many choices in %s", c.Name)
		}
		d := &D{I: c.I, S: base.Clone(), Call: c}
		d.choices = prefix
		o := d.run(f)
		outs = append(outs, o)
		// Next vector of choices:
		k := len(d.widths) - 1
		full := append([]int(nil), d.choices...)
		for len(full) < len(d.widths) {
			full = append(full, 0)
		}
		for k >= 0 && full[k]+1 >= d.widths[k] {
			k--
		}
		if k < 0 {
			break
		}
		prefix = append([]int(nil), full[:k]...)
		prefix = append(prefix, full[k]+1)
	}
	return c.I.dedup(base, outs)
}

func (d *D) run(f func(d *D) Value) (o Outcome) {
	depth := len(d.I.stack)
	defer func() {
		if r := recover(); r != nil {
			p, ok := r.(dPanic)
			if !ok {
				panic(r)
			}
			d.I.stack = d.I.stack[:depth]
			o = p.o
		}
	}()
	v := f(d)
	return Outcome{S: d.S, V: v}
}

// Choose selects one of n possibilities.
func (d *D) Choose(n int) int {
	if n == 1 {
		return 0
	}
	d.I.owned = nil
	k := len(d.widths)
	d.widths = append(d.widths, n)
	if k < len(d.choices) {
		return d.choices[k]
	}
	d.choices = append(d.choices, 0)
	return 0
}

// Pick selects one of the outcomes.
func (d *D) Pick(outs []Outcome) Value {
	if len(outs) == 0 {
		d.I.undecided("no outcomes")
	}
	o := outs[d.Choose(len(outs))]
	d.S = o.S
	if o.Panic != "" {
		panic(dPanic{o})
	}
	return o.V
}

// Try selects one of the outcomes, including panics.
func (d *D) Try(outs []Outcome) Outcome {
	if len(outs) == 0 {
		d.I.undecided("no outcomes")
	}
	o := outs[d.Choose(len(outs))]
	d.S = o.S
	return o
}

// Bool decides the value of a condition.
func (d *D) Bool(v Value) bool {
	t, f := d.I.Split(d.S, v)
	switch {
	case f == nil:
		d.S = t
		return true
	case t == nil:
		d.S = f
		return false
	}
	if d.Choose(2) == 0 {
		d.S = t
		return true
	}
	d.S = f
	return false
}

// Panic finishes the model with a panic.
func (d *D) Panic(msg string) {
	panic(dPanic{Outcome{S: d.S, Panic: msg, Where: d.I.Where(d.site())}})
}

func (d *D) site() ssa.Instruction {
	if d.Call == nil {
		return nil
	}
	return d.Call.Site
}

// CallValue calls a function value.
func (d *D) CallValue(fn Value, args ...Value) Value {
	return d.Pick(d.I.callValue(d.S, fn, args, d.site()))
}

// CallFn calls a function.
func (d *D) CallFn(fn *ssa.Function, args ...Value) Value {
	if d.I.OnUse != nil && d.S.watch == nil {
		return d.I.OnUse(d, fn, args)
	}
	return d.PlainCall(fn, args...)
}

// PlainCall calls a function without notifying it.
func (d *D) PlainCall(fn *ssa.Function, args ...Value) Value {
	return d.Pick(d.I.CallFn(d.S, fn, args, nil, d.site()))
}

// Method calls a method of a value with the given dynamic type. It returns false if there is no
// such method.
func (d *D) Method(t types.Type, v Value, name string, args ...Value) (Value, bool) {
	fn := d.I.FindMethod(t, name)
	if fn == nil {
		return nil, false
	}
	return d.CallFn(fn, append([]Value{v}, args...)...), true
}

// FindMethod finds a exported method of a type.
func (it *Interp) FindMethod(t types.Type, name string) *ssa.Function {
	if types.IsInterface(t) {
		return nil
	}
	sel := it.Prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return it.Prog.MethodValue(sel)
}
