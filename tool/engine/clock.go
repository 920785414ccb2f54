package engine

import (
	"strconv"
)

// This file contains a model of the clock and of contexts, used to analyse code that waits.

const second = int64(1000000000)

// Moment creates a time.Time that represents the given number of nanoseconds.
func Moment(n int64) Value {
	return &Struct{F: []Value{n % second, n / second, Nil{}}}
}

func nanos(d *D, v Value) int64 {
	s, ok := v.(*Struct)
	if ok && len(s.F) == 3 {
		a, ok1 := s.F[0].(int64)
		b, ok2 := s.F[1].(int64)
		if ok1 && ok2 {
			return a + b*second
		}
	}
	d.I.undecided("moment %s", Show(v))
	return 0
}

func duration(d *D, v Value) int64 {
	n, ok := v.(int64)
	if !ok {
		d.I.undecided("duration %s", Show(v))
	}
	return n
}

// Clock returns the time of the clock.
func (d *D) Clock() int64 {
	n, _ := strconv.ParseInt(d.S.Var("clock"), 10, 64)
	return n
}

// Advance advances the clock.
func (d *D) Advance(n int64) {
	d.S.SetVar("clock", strconv.FormatInt(d.Clock()+n, 10))
}

// Context creates a context with the given name and deadline, in nanoseconds, or nil.
func (d *D) Context(name string, deadline Value) Value {
	return d.ExtIface("context", "cancelCtx", "ctx", C(name), deadline, false)
}

// Clocks installs a clock that advances only when the code sleeps or when the scenario says so.
func Clocks(it *Interp) {
	reg := func(name string, f func(d *D, a []Value) Value) { it.Models[name] = Direct(f) }
	event := func(d *D, e string) {
		d.S.SetVar("events", d.S.Var("events")+e+";")
	}
	ctx := func(d *D, v Value) *Ext {
		if p, ok := v.(Ptr); ok {
			if x, ok := d.S.Get(p.Obj).(*Ext); ok && x.Kind == "ctx" && len(x.D) == 3 {
				return x
			}
		}
		x, _, ok := d.ExtOf(v)
		if !ok || x.Kind != "ctx" || len(x.D) != 3 {
			d.I.undecided("context %s", Show(v))
		}
		return x
	}
	timeT := "(time.Time)"
	reg("time.Now", func(d *D, a []Value) Value { return Moment(d.Clock()) })
	reg("time.Sleep", func(d *D, a []Value) Value {
		n := duration(d, a[0])
		event(d, "sleep "+strconv.FormatInt(n, 10))
		if n > 0 {
			d.Advance(n)
		}
		return nil
	})
	reg("time.Until", func(d *D, a []Value) Value { return nanos(d, a[0]) - d.Clock() })
	reg("time.Since", func(d *D, a []Value) Value { return d.Clock() - nanos(d, a[0]) })
	reg(timeT+".Add", func(d *D, a []Value) Value { return Moment(nanos(d, a[0]) + duration(d, a[1])) })
	reg(timeT+".Sub", func(d *D, a []Value) Value { return nanos(d, a[0]) - nanos(d, a[1]) })
	reg(timeT+".After", func(d *D, a []Value) Value { return nanos(d, a[0]) > nanos(d, a[1]) })
	reg(timeT+".Before", func(d *D, a []Value) Value { return nanos(d, a[0]) < nanos(d, a[1]) })
	reg(timeT+".Equal", func(d *D, a []Value) Value { return nanos(d, a[0]) == nanos(d, a[1]) })
	reg(timeT+".Compare", func(d *D, a []Value) Value {
		x, y := nanos(d, a[0]), nanos(d, a[1])
		switch {
		case x < y:
			return int64(-1)
		case x > y:
			return int64(1)
		}
		return int64(0)
	})
	reg(timeT+".UnixNano", func(d *D, a []Value) Value { return nanos(d, a[0]) })
	reg(timeT+".IsZero", func(d *D, a []Value) Value { return nanos(d, a[0]) == 0 })

	// Timers. Their channels contain the moment when they fire and, for tickers, the period:
	timer := func(d *D, n int64, period Value) Value {
		return Ptr{Obj: d.S.Alloc(&Ext{Kind: "timechan", D: []Value{d.Clock() + n, period}})}
	}
	reg("time.After", func(d *D, a []Value) Value { return timer(d, duration(d, a[0]), Nil{}) })
	reg("time.Tick", func(d *D, a []Value) Value { return timer(d, duration(d, a[0]), a[0]) })
	newTimer := func(typ string) func(d *D, a []Value) Value {
		return func(d *D, a []Value) Value {
			n := duration(d, a[0])
			var period Value = Nil{}
			if typ == "Ticker" {
				if n <= 0 {
					d.Panic("panic: non-positive interval for NewTicker")
				}
				period = n
			}
			p := Ptr{Obj: d.S.Alloc(d.I.Zero(d.I.LookupType("time", typ)))}
			d.SetField("time", typ, "C", p, timer(d, n, period))
			return p
		}
	}
	for _, typ := range []string{"Timer", "Ticker"} {
		typ := typ
		reg("time.New"+typ, newTimer(typ))
		change := func(when func(d *D, a []Value, old Value) Value) func(d *D, a []Value) Value {
			return func(d *D, a []Value) Value {
				c := d.Field("time", typ, "C", a[0]).(Ptr)
				x := d.S.Get(c.Obj).(*Ext)
				period := x.D[1]
				n := when(d, a, x.D[0])
				if typ == "Ticker" && len(a) > 1 {
					period = a[1]
				}
				d.S.Set(c.Obj, &Ext{Kind: x.Kind, D: []Value{n, period}})
				if typ == "Ticker" {
					return nil
				}
				return x.D[0] != (Nil{})
			}
		}
		reg("(*time."+typ+").Stop", change(func(d *D, a []Value, old Value) Value { return Nil{} }))
		reg("(*time."+typ+").Reset", change(func(d *D, a []Value, old Value) Value { return d.Clock() + duration(d, a[1]) }))
	}
	// What can be received, and when:
	it.Models["select"] = Direct(func(d *D, a []Value) Value {
		best, when := []int{}, int64(0)
		for k, c := range a[1:] {
			if _, ok := c.(Nil); ok {
				continue
			}
			p, ok := c.(Ptr)
			if !ok {
				d.I.undecided("receive from %s", Show(c))
			}
			x, ok := d.S.Get(p.Obj).(*Ext)
			if !ok {
				d.I.undecided("receive from %s", Show(c))
			}
			at := d.Clock()
			switch x.Kind {
			case "timechan":
				n, ok := x.D[0].(int64)
				if !ok {
					continue
				}
				if n > at {
					at = n
				}
			case "donechan":
				y, _, _ := d.ExtOf(x.D[0])
				if y.D[2] != true {
					n, ok := y.D[1].(int64)
					if !ok {
						continue
					}
					// The context isn't cancelled till the moment after the deadline:
					if n+1 > at {
						at = n + 1
					}
				}
			default:
				d.I.undecided("receive from channel")
			}
			if a[0] != true && at > d.Clock() {
				continue
			}
			switch {
			case len(best) == 0 || at < when:
				best, when = []int{k}, at
			case at == when:
				best = append(best, k)
			}
		}
		if len(best) == 0 {
			if a[0] == true {
				d.Panic("panic: all goroutines are asleep")
			}
			return Tuple{int64(-1), nil}
		}
		k := best[d.Choose(len(best))]
		if a[0] == true {
			n := when - d.Clock()
			if n > 0 {
				event(d, "sleep "+strconv.FormatInt(n, 10))
				d.Advance(n)
			}
		}
		p := a[1+k].(Ptr)
		if x := d.S.Get(p.Obj).(*Ext); x.Kind == "timechan" {
			var next Value = Nil{}
			if period, ok := x.D[1].(int64); ok {
				next = x.D[0].(int64) + period
			}
			d.S.Set(p.Obj, &Ext{Kind: x.Kind, D: []Value{next, x.D[1]}})
			return Tuple{int64(k), Moment(d.Clock())}
		}
		return Tuple{int64(k), nil}
	})
	it.Models["ctx.Done"] = Direct(func(d *D, a []Value) Value {
		x, p, ok := d.ExtOf(a[0])
		if !ok || x.Kind != "ctx" {
			d.I.undecided("context %s", Show(a[0]))
		}
		return Ptr{Obj: d.S.Alloc(&Ext{Kind: "donechan", D: []Value{p}})}
	})

	// Contexts:
	reg("context.Background", func(d *D, a []Value) Value { return d.Context("background", Nil{}) })
	reg("context.TODO", func(d *D, a []Value) Value { return d.Context("background", Nil{}) })
	cancelled := func(d *D, x *Ext) bool {
		if n, ok := x.D[1].(int64); ok && d.Clock() > n {
			return true
		}
		return x.D[2] == true
	}
	it.Models["ctx.Deadline"] = Direct(func(d *D, a []Value) Value {
		x := ctx(d, a[0])
		if n, ok := x.D[1].(int64); ok {
			return Tuple{Moment(n), true}
		}
		return Tuple{d.I.Zero(d.I.LookupType("time", "Time")), false}
	})
	it.Models["ctx.Err"] = Direct(func(d *D, a []Value) Value {
		if cancelled(d, ctx(d, a[0])) {
			return d.I.NewError(d.S, C("context done"), nil)
		}
		return Nil{}
	})
	child := func(d *D, parent, deadline Value) Value {
		x := ctx(d, parent)
		if n, ok := x.D[1].(int64); ok {
			if m, ok := deadline.(int64); !ok || n < m {
				deadline = n
			}
		}
		c := d.ExtIface("context", "cancelCtx", "ctx", x.D[0], deadline, x.D[2])
		return Tuple{c, &Func{Name: "verif.cancel", Data: c}}
	}
	reg("context.WithCancel", func(d *D, a []Value) Value { return child(d, a[0], Nil{}) })
	reg("context.WithDeadline", func(d *D, a []Value) Value { return child(d, a[0], nanos(d, a[1])) })
	reg("context.WithTimeout", func(d *D, a []Value) Value { return child(d, a[0], d.Clock()+duration(d, a[1])) })
	reg("verif.cancel", func(d *D, a []Value) Value {
		x, p, ok := d.ExtOf(a[0])
		if !ok {
			d.I.undecided("cancel of %s", Show(a[0]))
		}
		d.S.Set(p.Obj, &Ext{Kind: x.Kind, D: []Value{x.D[0], x.D[1], true}})
		return nil
	})
}

// Cancelled tells if a context is cancelled.
func (d *D) Cancelled(v Value) bool {
	x, _, ok := d.ExtOf(v)
	if !ok || len(x.D) != 3 {
		return false
	}
	if n, ok := x.D[1].(int64); ok && d.Clock() > n {
		return true
	}
	return x.D[2] == true
}

// Event records an event.
func (d *D) Event(e string) { d.S.SetVar("events", d.S.Var("events")+e+";") }
