package checks

import (
	"fmt"
	"sort"
	"strings"

	"verif/tool/engine"
	"verif/tool/mm"
	"verif/tool/spec"
)

// query runs the given function with a view of the initial state.
func (c *Ctx) query(name string, f func(v *mm.View, bad func(key, format string, args ...interface{}))) {
	v := c.S().NewView()
	var found []violation
	bad := func(key, format string, args ...interface{}) {
		found = append(found, violation{key, fmt.Sprintf(format, args...)})
	}
	err := engine.Protect(func() {
		defer func() {
			if x := recover(); x != nil {
				if k, ok := x.(mm.Crash); ok {
					bad("crash:"+name, "%s: crashes with %s at %s", name, k.Msg, k.Where)
					return
				}
				panic(x)
			}
		}()
		f(v, bad)
	})
	c.Note(v.It)
	if err != nil {
		c.Undecided("%s: %v", name, err)
		return
	}
	if len(found) == 0 {
		return
	}
	if c.imprecise(v.It, name) {
		return
	}
	for _, x := range found {
		c.Violation(x.key, "%s", x.text)
	}
}

// collection is one of the collections of the model.
type collection struct {
	owner, item       string
	add, addAll, list string
	find              string
	unsorted, noOwner bool
	typeOwner         bool
}

var collections = []collection{
	{owner: "Model", item: "Service", add: "AddService", addAll: "AddServices", list: "Services", find: "FindService"},
	{owner: "Service", item: "Version", add: "AddVersion", addAll: "AddVersions", list: "Versions", find: "FindVersion"},
	{owner: "Version", item: "Type", add: "AddType", addAll: "AddTypes", list: "Types", find: "FindType"},
	{owner: "Version", item: "Resource", add: "AddResource", addAll: "AddResources", list: "Resources", find: "FindResource"},
	{owner: "Version", item: "Error", add: "AddError", addAll: "AddErrors", list: "Errors", find: "FindError"},
	{owner: "Type", item: "Attribute", add: "AddAttribute", addAll: "AddAttributes", list: "Attributes", find: "FindAttribute"},
	{owner: "Type", item: "EnumValue", add: "AddValue", list: "Values", typeOwner: true},
	{owner: "Resource", item: "Method", add: "AddMethod", list: "Methods", find: "FindMethod"},
	{owner: "Resource", item: "Locator", add: "AddLocator", list: "Locators"},
	{owner: "Method", item: "Parameter", add: "AddParameter", list: "Parameters", find: "GetParameter"},
}

var sampleNames = []string{"Alpha", "AlphaBeta", "Beta", "CPU", "CPUCount", "CPUs", "Alphabet", "Zeta"}

// plainNames are names separated by underscores, like those of services and versions.
var plainNames = []string{"v1", "v10", "v1_alpha", "v2", "v1_B"}

// sampleName returns what is expected from a name.
func sampleName(n string) spec.Name {
	if strings.ContainsAny(n, "_0123456789") {
		return spec.SplitSeparator(n)
	}
	return spec.SplitCase(n)
}

// parseName creates a name.
func parseName(v *mm.View, n string) mm.Obj {
	if strings.ContainsAny(n, "_0123456789") {
		return v.FuncOf("pkg/names", "ParseUsingSeparator", engine.C(n), engine.C("_"))
	}
	return v.FuncOf("pkg/names", "ParseUsingCase", engine.C(n))
}

func permutations(l []string, n int) (r [][]string) {
	if n == 0 {
		return [][]string{nil}
	}
	for i, x := range l {
		rest := append(append([]string{}, l[:i]...), l[i+1:]...)
		for _, p := range permutations(rest, n-1) {
			r = append(r, append([]string{x}, p...))
		}
	}
	return
}

func (c *Ctx) collection(k collection, ns []string, all bool) {
	name := fmt.Sprintf("%s of %s added as %s", k.item, k.owner, strings.Join(ns, ", "))
	id := k.owner + "." + k.list
	if all {
		name += " together"
	}
	c.Oblige(1)
	c.query(name, func(v *mm.View, bad func(key, format string, args ...interface{})) {
		o := v.FuncOf("pkg/concepts", "New"+k.owner)
		base := map[string]bool{}
		for _, x := range v.List(v.Call(o, k.list)) {
			base[v.NameOf(x)] = true
		}
		var items []mm.Obj
		for _, n := range ns {
			x := v.FuncOf("pkg/concepts", "New"+k.item)
			v.Call(x, "SetName", parseName(v, n).V)
			items = append(items, x)
			if !all {
				v.Call(o, k.add, x.V)
			}
		}
		if all {
			v.Call(o, k.addAll, v.Slice(items))
		}
		want := append([]string{}, ns...)
		sort.SliceStable(want, func(i, j int) bool { return sampleName(want[i]).Less(sampleName(want[j])) })
		var got, names []string
		var prev *spec.Name
		for _, x := range v.List(v.Call(o, k.list)) {
			n := spec.Name{Words: strings.Split(v.NameOf(x), "_")}
			if prev != nil && n.Less(*prev) {
				bad("order:"+id, "%s: %s.%s lists '%s' before '%s'", name, k.owner, k.list, prev, n)
			}
			prev = &n
			if base[n.String()] {
				continue
			}
			got = append(got, v.NameOf(x))
		}
		for _, n := range want {
			names = append(names, sampleName(n).String())
		}
		if fmt.Sprint(got) != fmt.Sprint(names) {
			bad("list:"+id, "%s: %s.%s should list %v but it lists %v", name, k.owner, k.list, names, got)
		}
		for i, x := range items {
			method := "Owner"
			if k.typeOwner {
				method = "Type"
			}
			if !v.Call(x, method).Same(o) {
				bad("owner:"+id, "%s: %s of %s isn't the %s where it was added", name, method, ns[i], k.owner)
			}
			if k.find == "" {
				continue
			}
			if !v.Call(o, k.find, parseName(v, ns[i]).V).Same(x) {
				bad("find:"+id, "%s: %s.%s doesn't find %s", name, k.owner, k.find, ns[i])
			}
		}
		if k.find != "" {
			used := map[string]bool{}
			for _, n := range ns {
				used[n] = true
			}
			for _, n := range append([]string{"Alph", "CPUS", "Cpu"}, sampleNames...) {
				if !used[n] && !v.Call(o, k.find, parseName(v, n).V).Nil() {
					bad("found:"+id, "%s: %s.%s finds %s, that wasn't added", name, k.owner, k.find, n)
				}
			}
		}
		// Adding nothing changes nothing:
		before := len(v.List(v.Call(o, k.list)))
		v.Call(o, k.add, engine.Nil{})
		if after := len(v.List(v.Call(o, k.list))); after != before {
			bad("nil:"+id, "%s: adding nil to %s.%s changes the number of elements", name, k.owner, k.list)
		}
		// The listing can be requested again:
		var again []string
		for _, x := range v.List(v.Call(o, k.list)) {
			if !base[v.NameOf(x)] {
				again = append(again, v.NameOf(x))
			}
		}
		if fmt.Sprint(again) != fmt.Sprint(got) {
			bad("again:"+id, "%s: %s.%s lists %v and then %v", name, k.owner, k.list, got, again)
		}
	})
}

func sign(i int64) int {
	switch {
	case i < 0:
		return -1
	case i > 0:
		return 1
	}
	return 0
}

func init() {
	register("P06", func(c *Ctx) {
		c.Rule("every collection of the concepts is filled with every permutation of up to 3 (thorough: 4) names, chosen so that they include prefixes, initialisms and shared words; its listing must be the sorted permutation, and owner and lookup must agree")
		c.S()
		size := 3
		if c.Thorough {
			size = 4
		}
		type job struct {
			k   collection
			ns  []string
			all bool
		}
		var jobs []job
		for _, k := range collections {
			for n := 0; n <= size; n++ {
				for _, p := range permutations(sampleNames, n) {
					jobs = append(jobs, job{k, p, false})
					if k.addAll != "" && n < 4 {
						jobs = append(jobs, job{k, p, true})
					}
				}
			}
			for n := 1; n <= size; n++ {
				for _, p := range permutations(plainNames, n) {
					jobs = append(jobs, job{k, p, false})
				}
			}
			jobs = append(jobs, job{k, sampleNames, false})
			var rev []string
			for i := range sampleNames {
				rev = append(rev, sampleNames[len(sampleNames)-1-i])
			}
			jobs = append(jobs, job{k, rev, false})
			for r := 1; r < len(sampleNames); r++ {
				jobs = append(jobs, job{k, append(append([]string{}, sampleNames[r:]...), sampleNames[:r]...), false})
			}
		}
		c.Parallel(len(jobs), func(i int) { c.collection(jobs[i].k, jobs[i].ns, jobs[i].all) })
		c.Rule("variable and constant locators partition the locators; annotations keep the order of declaration")
		c.Parallel(27, c.locators)
		c.annotationOrder()
		c.Rule("comparison, equality, words, concatenation and conversions of every pair of names must agree with the specification of names")
		c.names()
	})
}

func (c *Ctx) locators(i int) {
	c.Oblige(1)
	flags := []int{i % 3, i / 3 % 3, i / 9}
	name := fmt.Sprintf("locators %v", flags)
	c.query(name, func(v *mm.View, bad func(key, format string, args ...interface{})) {
		r := v.FuncOf("pkg/concepts", "NewResource")
		var constants []string
		variable := ""
		for k, f := range flags {
			if f == 0 {
				continue
			}
			l := v.FuncOf("pkg/concepts", "NewLocator")
			v.Call(l, "SetName", v.FuncOf("pkg/names", "ParseUsingCase", engine.C(sampleNames[k])).V)
			n := spec.SplitCase(sampleNames[k]).String()
			if f == 2 {
				v.Call(l, "SetVariable", true)
				if variable == "" {
					variable = n
				}
			} else {
				constants = append(constants, n)
			}
			v.Call(r, "AddLocator", l.V)
		}
		var got []string
		for _, l := range v.List(v.Call(r, "ConstantLocators")) {
			got = append(got, v.NameOf(l))
		}
		if fmt.Sprint(got) != fmt.Sprint(constants) {
			bad("constant-locators", "%s: Resource.ConstantLocators returns %v instead of %v", name, got, constants)
		}
		x := v.Call(r, "VariableLocator")
		if x.Nil() != (variable == "") || !x.Nil() && v.NameOf(x) != variable {
			bad("variable-locator", "%s: Resource.VariableLocator doesn't return '%s'", name, variable)
		}
	})
}

func (c *Ctx) annotationOrder() {
	for _, p := range permutations([]string{"b", "a", "c"}, 3) {
		for _, owner := range []string{"Type", "Attribute", "Resource", "Method", "Parameter", "Locator", "Error", "EnumValue", "Version", "Service"} {
			c.Oblige(1)
			name := fmt.Sprintf("annotations %v of %s", p, owner)
			c.query(name, func(v *mm.View, bad func(key, format string, args ...interface{})) {
				o := v.FuncOf("pkg/concepts", "New"+owner)
				if v.Method(o.T, "AddAnnotation") == nil {
					return
				}
				for i, n := range p {
					a := v.FuncOf("pkg/concepts", "NewAnnotation")
					v.Call(a, "SetName", engine.C(n))
					v.Call(a, "AddParameter", engine.C("x"), engine.Iface{T: v.Int64Type(), V: int64(i)})
					v.Call(o, "AddAnnotation", a.V)
					if !v.Call(o, "GetAnnotation", engine.C(n)).Same(a) {
						bad("get-annotation", "%s: GetAnnotation doesn't find %s", name, n)
					}
				}
				var got []string
				for _, a := range v.List(v.Call(o, "Annotations")) {
					got = append(got, v.Text(v.Call(a, "Name")))
				}
				if fmt.Sprint(got) != fmt.Sprint(p) {
					bad("annotations", "%s: listed as %v", name, got)
				}
				if !v.Call(o, "GetAnnotation", engine.C("d")).Nil() {
					bad("get-annotation", "%s: GetAnnotation finds annotations that don't exist", name)
				}
			})
		}
	}
}

// names checks the names package.
func (c *Ctx) names() {
	texts := append([]string{"A", "B", "AB", "ABs", "Ab", "aB", "abCd", "AbCD", "ABCd", "AbCdEf", "ABCDef", "AbcD", "abCDs", "ID", "IDs", "MyIDs", "MyID", "IDList", "x", "xy", "Xs"}, sampleNames...)
	if c.Thorough {
		// All the case patterns of up to six letters:
		for n := 1; n <= 6; n++ {
			for b := 0; b < 1<<n; b++ {
				t := []byte("abcdes"[:n])
				t[n-1] = 's'
				for i := range t {
					if b>>i&1 == 1 {
						t[i] -= 32
					}
				}
				texts = append(texts, string(t))
			}
		}
	}
	parse := parseName
	type nop = func(key, format string, args ...interface{})
	c.Parallel(len(texts), func(i int) {
		t := texts[i]
		c.Oblige(1)
		c.query("name "+t, func(v *mm.View, bad nop) {
			n, s := parse(v, t), spec.SplitCase(t)
			check := func(what, got, want string) {
				if got != want {
					bad("name:"+what, "%s of name '%s' is '%s' but should be '%s'", what, t, got, want)
				}
			}
			check("words", v.NameText(n), s.String())
			check("String", v.Text(v.Call(n, "String")), s.String())
			check("Snake", v.Text(v.Call(n, "Snake")), s.Snake())
			check("Camel", v.Text(v.Call(n, "Camel")), s.Camel())
			check("LowerJoined", v.Text(v.Call(n, "LowerJoined", engine.C("-"))), strings.ToLower(strings.Join(s.Words, "-")))
			check("UpperJoined", v.Text(v.Call(n, "UpperJoined", engine.C("-"))), strings.ToUpper(strings.Join(s.Words, "-")))
		})
	})
	for _, t := range []string{"a", "a_b", "a_b_c", "my_service", "v1", "v1_alpha1"} {
		c.Oblige(1)
		t := t
		c.query("name "+t, func(v *mm.View, bad nop) {
			n := v.FuncOf("pkg/names", "ParseUsingSeparator", engine.C(t), engine.C("_"))
			if got := v.NameText(n); got != t || len(v.List(v.Call(n, "Words"))) != strings.Count(t, "_")+1 {
				bad("name:separator", "ParseUsingSeparator(%s) returns %s", t, got)
			}
		})
	}
	pairs := append([]string{}, sampleNames...)
	pairs = append(pairs, plainNames...)
	pairs = append(pairs, "AlphaCPU", "BetaAlpha", "Cpu", "CPUsCount")
	c.Parallel(len(pairs), func(i int) {
		for _, b := range pairs {
			a, b := pairs[i], b
			c.Oblige(1)
			c.query("names "+a+" and "+b, func(v *mm.View, bad nop) {
				x, y := parse(v, a), parse(v, b)
				sa, sb := sampleName(a), sampleName(b)
				want := 0
				if sa.Less(sb) {
					want = -1
				} else if sb.Less(sa) {
					want = 1
				}
				if got := sign(v.Int(v.FuncOf("pkg/names", "Compare", x.V, y.V))); got != want {
					bad("compare", "Compare(%s, %s) is %d", a, b, got)
				}
				if got := v.Bool(v.Call(x, "Equals", y.V)); got != (want == 0) {
					bad("equals", "%s.Equals(%s) is %v", a, b, got)
				}
				if got := v.Text(v.Call(x, "String")) == v.Text(v.Call(y, "String")); got != (want == 0) {
					bad("string", "the string representations of %s and %s agree: %v", a, b, got)
				}
				cat := v.FuncOf("pkg/names", "Cat", v.Slice([]mm.Obj{x, y, x}))
				join := func(l ...spec.Name) string {
					var w []string
					for _, n := range l {
						w = append(w, n.Words...)
					}
					return strings.Join(w, "_")
				}
				if got := v.NameText(cat); got != join(sa, sb, sa) {
					bad("cat", "Cat(%s, %s, %s) is %s", a, b, a, got)
				}
				words := v.Call(y, "Words")
				app := v.Call(x, "Append", words.V)
				if got := v.NameText(app); got != join(sa, sb) {
					bad("append", "%s.Append(%s) is %s", a, b, got)
				}
				ins := v.Call(x, "Insert", v.Call(y, "Words").V)
				if got := v.NameText(ins); got != join(sb, sa) {
					bad("insert", "%s.Insert(%s) is %s", a, b, got)
				}
				// None of the above modifies the names:
				if v.NameText(x) != sa.String() || v.NameText(y) != sb.String() {
					bad("modified", "operations on names %s and %s modify them", a, b)
				}
				if v.Bool(v.Call(x, "Equals", engine.Nil{})) {
					bad("equals-nil", "%s.Equals(nil) is true", a)
				}
			})
		}
	})
}
