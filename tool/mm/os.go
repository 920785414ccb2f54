package mm

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/tool/engine"
)

// Flags contains the pointers to the variables of the command line flags, indexed by the path of
// the package that defines them and the name of the flag.
type Flags map[string]map[string]Value

func (fl Flags) register(it *Interp) {
	note := func(site ssa.Instruction, name string, p Value) {
		pkg := ""
		if site != nil && site.Parent().Pkg != nil {
			pkg = site.Parent().Pkg.Pkg.Path()
		}
		if fl[pkg] == nil {
			fl[pkg] = map[string]Value{}
		}
		fl[pkg][name] = p
	}
	for _, t := range []struct{ name, kind string }{
		{"StringVar", "s"}, {"StringVarP", "sp"}, {"StringSliceVar", "s"}, {"StringSliceVarP", "sp"},
		{"StringArrayVar", "s"}, {"StringArrayVarP", "sp"}, {"BoolVar", "s"}, {"BoolVarP", "sp"},
		{"IntVar", "s"}, {"IntVarP", "sp"},
	} {
		t := t
		it.Models["(*github.com/spf13/pflag.FlagSet)."+t.name] = Direct(func(d *D, a []Value) Value {
			name, _ := a[2].(Str).Const()
			dflt := a[3]
			if t.kind == "sp" {
				dflt = a[4]
			}
			d.I.Store(d.S, a[1], dflt)
			note(d.Call.Site, name, a[1])
			return nil
		})
	}
	for _, t := range []string{"String", "StringSlice", "StringArray", "Bool", "Int", "StringP", "StringSliceP", "BoolP"} {
		t := t
		it.Models["(*github.com/spf13/pflag.FlagSet)."+t] = Direct(func(d *D, a []Value) Value {
			name, _ := a[1].(Str).Const()
			dflt := a[2]
			if strings.HasSuffix(t, "P") {
				dflt = a[3]
			}
			p := Ptr{Obj: d.S.Alloc(dflt)}
			note(d.Call.Site, name, p)
			return p
		})
	}
	it.Models["os.Exit"] = func(c *Call) []Outcome {
		return []Outcome{{S: c.S, Panic: "exit:" + Show(c.Args[0]), Where: c.I.Where(c.Site)}}
	}
	it.Models["os/exec.Command"] = Direct(func(d *D, a []Value) Value {
		t := d.I.LookupType("os/exec", "Cmd")
		s := d.I.Zero(t).(*Struct)
		u := t.Underlying().(*types.Struct)
		args := append([]Value{a[0]}, d.I.Elems(d.S, a[1])...)
		for i := 0; i < u.NumFields(); i++ {
			switch u.Field(i).Name() {
			case "Path":
				s.F[i] = a[0]
			case "Args":
				s.F[i] = d.I.MakeSlice(d.S, args)
			}
		}
		return Ptr{Obj: d.S.Alloc(s)}
	})
	run := func(d *D, recv Value) Value {
		v, msg := d.I.Load(d.S, recv, nil)
		if msg != "" {
			d.Panic(msg)
		}
		t := d.I.LookupType("os/exec", "Cmd").Underlying().(*types.Struct)
		var words []string
		for i := 0; i < t.NumFields(); i++ {
			if t.Field(i).Name() == "Args" {
				for _, a := range d.I.Elems(d.S, v.(*Struct).F[i]) {
					words = append(words, a.(Str).Render())
				}
			}
		}
		d.S.SetVar("exec:"+strings.Join(words, " "), "1")
		return d.Fail("exec")
	}
	it.Models["(*os/exec.Cmd).Run"] = Direct(func(d *D, a []Value) Value { return run(d, a[0]) })
	it.Models["(*os/exec.Cmd).Output"] = Direct(func(d *D, a []Value) Value { return Tuple{Nil{}, run(d, a[0])} })
	it.Models["(*os/exec.Cmd).CombinedOutput"] = it.Models["(*os/exec.Cmd).Output"]
	it.Models["(*os/exec.Cmd).Start"] = it.Models["(*os/exec.Cmd).Run"]
	it.Models["(*os/exec.Cmd).Wait"] = Direct(func(d *D, a []Value) Value { return d.Fail("wait") })
	it.Models["os/exec.LookPath"] = Direct(func(d *D, a []Value) Value {
		return Tuple{a[0], d.Fail("lookpath")}
	})
}
