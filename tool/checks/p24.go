package checks

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/tool/engine"
)

// This file contains the analysis of the effects of the generated code: the memory modified by each call
// made by the scenarios of the other checks.

// mutator tells if a function is expected to modify its receiver.
func mutator(fn *ssa.Function) bool {
	recv := fn.Signature.Recv()
	if recv == nil {
		return false
	}
	_, name := named(recv.Type())
	if strings.HasSuffix(name, "List") && strings.HasPrefix(fn.Name(), "Set") {
		return true
	}
	if !strings.HasSuffix(name, "Builder") && !strings.HasSuffix(name, "Request") {
		return false
	}
	// Setters return their receiver, other methods use it:
	results := fn.Signature.Results()
	return results.Len() == 1 && types.Identical(results.At(0).Type(), recv.Type())
}

// effects calls a function taking note of what it modifies.
func (w *world) effects(d *engine.D, fn *ssa.Function, args []value) value {
	if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), "gen/") {
		return d.PlainCall(fn, args...)
	}
	if fn.Signature.Recv() == nil {
		ok := false
		for _, p := range []string{"Marshal", "Unmarshal", "New", "Send"} {
			ok = ok || strings.HasPrefix(fn.Name(), p)
		}
		if !ok {
			return d.PlainCall(fn, args...)
		}
	}
	if w.globals == nil {
		own := func(p *ssa.Package) bool { return strings.HasPrefix(p.Pkg.Path(), "gen/"+w.s.name+"/") }
		w.globals = w.c.gen.base.Reach(d.I.GlobalsOf(own)...)
	}
	var objs map[int]bool
	what := "something that isn't new"
	if mutator(fn) {
		objs = d.S.Reach(args[1:]...)
		what = "something that doesn't belong to its receiver"
	} else {
		// Writers, and the sources of the JSON documents, are given to be used:
		var given []value
		for i, a := range args {
			_, name := named(fn.Params[i].Type())
			if name == "Writer" || name == "Reader" || strings.HasPrefix(fn.Name(), "Unmarshal") && types.IsInterface(fn.Params[i].Type()) {
				continue
			}
			given = append(given, a)
		}
		objs = d.S.Reach(given...)
	}
	d.S.Watch(d.I, w.globals, objs)
	r := d.PlainCall(fn, args...)
	at, sync := d.S.Var("written"), d.S.Var("synchronized")
	d.S.Watch(d.I)
	w.c.Count("calls whose effects were analysed", 1)
	w.c.Count("objects that calls should not modify", len(objs))
	if at != "" && sync == "" {
		w.Fail("effect:"+where0(at), "%s modifies %s: %s", fn, what, w.c.generatedAt(w.s, at))
	}
	return r
}

func init() {
	register("P24", func(c *Ctx) {
		c.effects = true
		for _, id := range []string{"P12", "P13", "P14", "P16", "P17", "P21", "P22"} {
			All[id].Run(c)
		}
		c.mu.Lock()
		c.rules = nil
		c.mu.Unlock()
		c.Rule("in each call made by the scenarios used to analyse builders, accessors, JSON support, clients, polling and errors, the objects reachable before the call from its arguments and from the variables of the generated packages aren't the target of any store, map update, append in place, copy or delete; the only exception is the storage of the receiver in the setters of builders and requests")
	})
}
