package checks

import (
	"fmt"
	"go/types"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/tool/engine"
	"verif/tool/spec"
)

// This file contains what is needed to analyse the generated code: the calculation of the Go names
// that a model should produce, the construction of symbolic values of the types of a model, and the
// observation of objects using only the public methods of the generated types.

type value = engine.Value

var worldOnce sync.Mutex

// residual prepares the interpreter of the generated code.
func (c *Ctx) residual() []*shape {
	worldOnce.Lock()
	defer worldOnce.Unlock()
	if c.gen.it != nil {
		return c.gen.shapes
	}
	shapes := c.load()
	it, st, err := c.gen.prog.Base(engine.RegisterRuntime)
	if err != nil {
		panic(fatal{"can't initialize the generated code: " + err.Error()})
	}
	for k := range it.Unknown {
		delete(it.Unknown, k)
	}
	c.gen.it, c.gen.base = it, st
	return shapes
}

// selected returns the shapes selected by the filter.
func (c *Ctx) selected() (r []*shape) {
	for _, s := range c.residual() {
		if c.filter == nil || c.filter(s) {
			r = append(r, s)
		}
	}
	return
}

// world is used to analyse one scenario of use of the generated code.
type world struct {
	c    *Ctx
	s    *shape
	name string
	it   *interp
	d    *engine.D
	// current is the execution of the model of the transport.
	current *engine.D
	vars    map[string]int
	notNil  bool // interface values aren't nil
	failed  []violation
	// crash describes what to do when the code crashes.
	onCrash func(msg, where string)
	state   map[string]interface{}
	globals map[int]bool
}

type skip struct{ why string }

// enough ends the exploration of a scenario.
type enough struct{}

// stop ends a scenario, preserving the failures found.
type stop struct{}

// scenario analyses a scenario for all its possible outcomes. Violations are reported only if the
// analysis was precise.
func (c *Ctx) scenario(s *shape, name string, setup func(it *interp), f func(w *world)) {
	if s.unit == nil || len(s.unit.Errors) > 0 {
		return
	}
	if c.expired() {
		c.Undecided("%s %s: there isn't time", s.name, name)
		return
	}
	it := c.gen.it.Copy()
	it.MaxWidth = 300
	it.Deadline = time.Now().Add(40 * time.Second)
	w := &world{c: c, s: s, name: name, it: it}
	if setup != nil {
		setup(it)
	}
	if c.effects {
		it.OnUse = w.effects
	}
	skipped := ""
	start := time.Now()
	paths := 0
	err := engine.Protect(func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(enough); !ok {
					panic(r)
				}
			}
		}()
		call := &engine.Call{I: it, S: c.gen.base.Clone(), Name: name}
		outs := engine.RunDirect(call, func(d *engine.D) value {
			w.d = d
			w.vars = map[string]int{}
			w.state = map[string]interface{}{}
			w.onCrash = nil
			if len(w.failed) > 0 {
				// There is no need to explore more.
				if paths++; paths > 4 {
					panic(enough{})
				}
			}
			defer func() {
				if r := recover(); r != nil {
					if s, ok := r.(skip); ok {
						skipped = s.why
						return
					}
					if _, ok := r.(stop); ok {
						return
					}
					panic(r)
				}
			}()
			f(w)
			return nil
		})
		for _, o := range outs {
			if o.Panic != "" && !c.effects {
				w.failed = append(w.failed, violation{"crash:" + where0(o.Where), fmt.Sprintf("%s: %s", o.Panic, c.generatedAt(s, o.Where))})
			}
		}
	})
	if os.Getenv("VERIF_DEBUG") != "" && time.Since(start) > 2*time.Second {
		fmt.Fprintln(os.Stderr, "slow", time.Since(start), it.Steps, s.name, name)
	}
	c.Note(it)
	c.Count("scenarios of generated code analysed", 1)
	if err == nil && it.Truncated {
		err = fmt.Errorf("too many states")
	}
	if err != nil && (len(w.failed) == 0 || skipped != "") {
		c.Undecided("%s %s: %v", s.name, name, err)
		return
	}
	if skipped != "" {
		c.Undecided("%s %s: %s", s.name, name, skipped)
		return
	}
	if c.imprecise(it, s.name+" "+name) {
		return
	}
	c.Oblige(1)
	for _, v := range w.failed {
		c.Violation(v.key, "%s\nScenario '%s' of shape '%s'", v.text, name, s.name)
	}
}

func where0(w string) string {
	if k := strings.IndexByte(w, '('); k > 0 {
		return strings.TrimSpace(w[k:])
	}
	return w
}

// generatedAt describes a position of the generated code and the line of the generator that produced it.
func (c *Ctx) generatedAt(s *shape, where string) string {
	f := strings.SplitN(where, ":", 2)
	if len(f) != 2 {
		return where
	}
	name := strings.TrimPrefix(f[0], "gen/"+s.name+"/")
	n, _ := strconv.Atoi(strings.SplitN(f[1], " ", 2)[0])
	l := strings.Split(s.Go[name], "\n")
	if n <= 0 || n > len(l) {
		return where
	}
	text := strings.TrimSpace(l[n-1])
	return fmt.Sprintf("%s '%s' (generated by %s)", where, text, c.provenance(name, text))
}

// Fail reports a violation.
func (w *world) Fail(key, format string, args ...interface{}) {
	if w.c.effects && !strings.HasPrefix(key, "effect:") {
		return
	}
	w.failed = append(w.failed, violation{key, fmt.Sprintf(format, args...)})
}

// Skip abandons the scenario because it isn't possible to write it.
func (w *world) Skip(format string, args ...interface{}) {
	panic(skip{fmt.Sprintf(format, args...)})
}

// Missing reports that the generated code doesn't contain something that it should.
func (w *world) Missing(format string, args ...interface{}) {
	text := fmt.Sprintf(format, args...)
	w.Fail("missing:"+text, "In the generated code %s", text)
	panic(stop{})
}

// goName calculates the public Go name of a concept.
func goName(b *spec.Base) string {
	if n := b.Param("go", "name"); n != "" {
		return n
	}
	return b.Name.Camel()
}

// jsonName calculates the JSON name of a concept.
func jsonName(b *spec.Base) string {
	if n := b.Param("json", "name"); n != "" {
		return n
	}
	return b.Name.Snake()
}

// pathSegment calculates the segment of a path for a concept.
func pathSegment(b *spec.Base) string {
	if n := b.Param("http", "name"); n != "" {
		return n
	}
	return b.Name.Snake()
}

// queryName calculates the name of a query parameter.
func queryName(b *spec.Base) string {
	if n := b.Param("http", "name"); n != "" {
		return n
	}
	return jsonName(b)
}

func builtin(name string, words ...string) string {
	for _, w := range words {
		if name == w {
			return name + "_"
		}
	}
	return name
}

// setterName and getterName calculate the names of the methods of requests and responses.
func setterName(p *spec.Param) string {
	return builtin(goName(&p.Base), "Header", "Impersonate", "Parameter", "Send", "SendContext")
}

func getterName(p *spec.Param) string {
	return builtin(goName(&p.Base), "Error", "Header", "Status")
}

// versionPath returns the path of the package of a version.
func versionPath(s *shape, v *spec.Version) string {
	squash := func(n spec.Name) string { return strings.ToLower(strings.Join(n.Words, "")) }
	return path.Join("gen", s.name, squash(v.Service.Name), squash(v.Name))
}

func servicePath(s *shape, v *spec.Service) string {
	return path.Join("gen", s.name, strings.ToLower(strings.Join(v.Name.Words, "")))
}

// pkg finds a generated package.
func (w *world) pkg(p string) *ssa.Package {
	for _, x := range w.c.gen.prog.Own {
		if x.Pkg.Path() == p {
			return x
		}
	}
	w.Skip("there is no package %s", p)
	return nil
}

// pkgOf finds the generated package, of the same shape, with the given suffix.
func (w *world) pkgOf(suffix string) *ssa.Package { return w.pkg("gen/" + w.s.name + suffix) }

// fn finds a function of a generated package.
func (w *world) fn(p, name string) *ssa.Function {
	f := w.pkg(p).Func(name)
	if f == nil {
		w.Missing("there is no function %s.%s", p, name)
	}
	return f
}

// typ finds a type of a generated package.
func (w *world) typ(p, name string) types.Type {
	t := w.pkg(p).Type(name)
	if t == nil {
		w.Missing("there is no type %s.%s", p, name)
	}
	return t.Type()
}

// Call calls a function.
func (w *world) Call(p, name string, args ...value) value {
	return w.d.CallFn(w.fn(p, name), args...)
}

// method finds a method of a type.
func (w *world) method(t types.Type, name string) *ssa.Function {
	f := w.it.FindMethod(t, name)
	if f == nil {
		w.Missing("there is no method %s in %s", name, t)
	}
	return f
}

// Method calls a method.
func (w *world) Method(t types.Type, v value, name string, args ...value) value {
	return w.d.CallFn(w.method(t, name), append([]value{v}, args...)...)
}

// result returns the type of the result of a function.
func result(f *ssa.Function, i int) types.Type { return f.Signature.Results().At(i).Type() }

// named returns the package and name of a type, or of the type that it points to.
func named(t types.Type) (string, string) {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path(), n.Obj().Name()
	}
	return "", ""
}

// specOf finds the meaning of a generated type.
func (w *world) specOf(pkg, name string) *spec.Type {
	var local, other *spec.Type
	for _, s := range w.s.Spec.Services {
		for _, v := range s.Versions {
			for _, t := range v.Types {
				if !t.Struct() && t.Kind != "enum" || goName(&t.Base) != name {
					continue
				}
				if versionPath(w.s, v) == pkg {
					local = t
				} else if t.Param("ref", "path") == "" {
					other = t
				}
			}
		}
	}
	if local == nil {
		local = other
	}
	if local == nil {
		return nil
	}
	return w.s.resolve(local)
}

// resolve follows the references to types of other services.
func (s *shape) resolve(t *spec.Type) *spec.Type {
	ref := t.Param("ref", "path")
	if ref == "" {
		return t
	}
	f := strings.Split(strings.TrimPrefix(ref, "/"), "/")
	for _, sv := range s.Spec.Services {
		for _, v := range sv.Versions {
			for _, x := range v.Types {
				if len(f) == 3 && sv.Name.Snake() == f[0] && v.Name.Snake() == f[1] && x.Name.Snake() == f[2] {
					return x
				}
			}
		}
	}
	return t
}

// made is a value created to be given to the generated code.
type made struct {
	v    value  // the value
	tree string // what should be observed in the resulting object
	json string // what should be written
}

// fresh creates a new label.
func (w *world) fresh(label string) string {
	w.vars[label]++
	return label + "." + strconv.Itoa(w.vars[label])
}

const (
	noneAttr  = 0
	someAttrs = 1
)

// scalar creates an unknown value of a scalar type.
func (w *world) scalar(t *spec.Type, label string) made {
	label = w.fresh(label)
	show := func(v value) made { return made{v, engine.Show(v), engine.Show(v)} }
	if t.Kind == "enum" {
		return show(engine.U(label))
	}
	switch t.Name.Snake() {
	case "boolean":
		return show(engine.Sym{Term: label, T: types.Typ[types.Bool]})
	case "integer":
		return show(engine.Sym{Term: label, T: types.Typ[types.Int]})
	case "long":
		return show(engine.Sym{Term: label, T: types.Typ[types.Int64]})
	case "float":
		return show(engine.Sym{Term: label, T: types.Typ[types.Float64]})
	case "string":
		return show(engine.U(label))
	case "date":
		v := w.it.SymOf(w.d.S, label, w.it.LookupType("time", "Time"))
		return made{v, engine.Instant(v), strconv.Quote("⟨" + engine.Instant(v) + ".⟩")}
	case "interface":
		if w.notNil {
			v := engine.U(label)
			return made{engine.Iface{T: types.Typ[types.String], V: v}, engine.Show(engine.Iface{T: types.Typ[types.String], V: v}), engine.Show(v)}
		}
		return show(engine.Sym{Term: label, T: types.NewInterfaceType(nil, nil)})
	}
	w.Skip("unknown scalar type %s", t.Name)
	return made{}
}

// showScalar describes an scalar value.
func showScalar(v value) string {
	if s, ok := v.(*engine.Struct); ok && len(s.F) == 3 {
		return engine.Instant(s)
	}
	return engine.Show(v)
}

// object creates a builder of a type with the given attributes. The size is the number of elements
// of lists and maps.
func (w *world) object(gt types.Type, label string, depth, size int) made {
	pkg, name := named(gt)
	name = strings.TrimSuffix(name, "Builder")
	t := w.specOf(pkg, name)
	if t == nil {
		w.Skip("unknown type %s.%s", pkg, name)
	}
	var attrs []string
	for _, a := range t.Attrs {
		if depth > 0 || a.Type.Scalar() {
			attrs = append(attrs, a.Name.String())
		}
		if depth == 0 && len(attrs) == 2 {
			break
		}
	}
	if t.Kind == "class" {
		attrs = append(attrs, "#id", "#href")
		if len(w.vars)%2 == 0 {
			attrs = append(attrs, "#link")
		}
	}
	b := w.builder(pkg, name, t)
	for _, a := range attrs {
		b.set(a, depth-1, size, label)
	}
	return made{b.v, b.tree(), b.json()}
}

// builder is a builder of an object.
type builder struct {
	w          *world
	pkg, name  string
	t          *spec.Type
	gt         types.Type
	v          value
	trees      map[string]string
	jsons      map[string]string
	attributes map[string]*spec.Attr
	args       []value // values given to the setters
}

// elementOf returns the type of the elements of a slice.
func elementOf(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	panic(skip{fmt.Sprintf("%s isn't a slice", t)})
}

// generatedIn describes the code that builds objects of a type.
func (c *Ctx) generatedIn(s *shape, pkg string, t *spec.Type) string {
	return fmt.Sprintf("in the builder of '%s', package %s, generated by pkg/generators/golang/builders_generator.go", t.Name, pkg)
}

func (w *world) builder(pkg, name string, t *spec.Type) *builder {
	f := w.fn(pkg, "New"+name)
	b := &builder{w: w, pkg: pkg, name: name, t: t, gt: result(f, 0), trees: map[string]string{}, jsons: map[string]string{}, attributes: map[string]*spec.Attr{}}
	for _, a := range t.Attrs {
		b.attributes[a.Name.String()] = a
	}
	b.v = w.d.CallFn(f)
	return b
}

// names returns the names of all the attributes, including the built-in attributes of classes.
func allAttrs(t *spec.Type) (r []string) {
	if t.Kind == "class" {
		r = append(r, "#id", "#href", "#link")
	}
	for _, a := range t.Attrs {
		r = append(r, a.Name.String())
	}
	return
}

// setter returns the name of the method that sets an attribute.
func (b *builder) setter(attr string) string {
	switch attr {
	case "#id":
		return "ID"
	case "#href":
		return "HREF"
	case "#link":
		return "Link"
	}
	return goName(&b.attributes[attr].Base)
}

// set sets an attribute.
func (b *builder) set(attr string, depth, size int, label string) {
	w := b.w
	f := w.method(b.gt, b.setter(attr))
	label += "." + attr
	var m made
	switch attr {
	case "#id", "#href":
		v := engine.U(w.fresh(label))
		m = made{v, engine.Show(v), engine.Show(v)}
	case "#link":
		m = made{true, "true", ""}
	default:
		if f.Signature.Params().Len() != 1 {
			w.Skip("%s doesn't have one parameter", f)
		}
		m = w.make(f.Signature.Params().At(0).Type(), b.attributes[attr].Type, b.attributes[attr].Link, label, depth, size, true)
	}
	b.args = append(b.args, m.v)
	b.v = w.d.CallFn(f, b.v, m.v)
	b.trees[attr] = m.tree
	b.jsons[attr] = m.json
}

// make creates a value for a parameter of the given Go type. Builders are used for structured types,
// or else complete objects.
func (w *world) make(gt types.Type, t *spec.Type, link bool, label string, depth, size int, builders bool) made {
	switch {
	case t.Scalar():
		return w.scalar(t, label)
	case t.Struct():
		m := w.object(gt, label, depth, size)
		if !builders {
			m.v = w.build(gt, m.v)
		}
		return m
	case t.Kind == "list":
		if p, ok := gt.(*types.Pointer); ok {
			// Pointer to a list or to a builder of a list:
			pkg, name := named(p)
			name = strings.TrimSuffix(strings.TrimSuffix(name, "Builder"), "List")
			f := w.fn(pkg, "New"+name+"List")
			b := w.d.CallFn(f)
			items := w.method(result(f, 0), "Items")
			pt, ok := items.Signature.Params().At(0).Type().(*types.Slice)
			if !ok {
				w.Skip("%s isn't variadic", items)
			}
			var l []made
			for i := 0; i < size; i++ {
				l = append(l, w.make(pt.Elem(), t.Element, false, label, depth-1, size, true))
			}
			b = w.d.CallFn(items, b, w.slice(l))
			m := listMade(l)
			if link {
				m.json = `{"items":` + m.json + "}"
			}
			m.v = b
			if !builders {
				m.v = w.listObject(result(f, 0), b)
			}
			return m
		}
		s, ok := gt.Underlying().(*types.Slice)
		if !ok {
			w.Skip("list of type %s", gt)
		}
		var l []made
		for i := 0; i < size; i++ {
			l = append(l, w.make(s.Elem(), t.Element, false, label, depth-1, size, builders))
		}
		m := listMade(l)
		m.v = w.slice(l)
		return m
	case t.Kind == "map":
		s, ok := gt.Underlying().(*types.Map)
		if !ok {
			w.Skip("map of type %s", gt)
		}
		mv := &engine.MapV{}
		var trees, jsons []string
		for i := 0; i < size; i++ {
			// Keys in the order opposite to the alphabetical order:
			key := engine.C(fmt.Sprintf(" Key %d.É ", 9-i))
			e := w.make(s.Elem(), t.Element, false, label, depth-1, size, builders)
			mv.K = append(mv.K, key)
			mv.V = append(mv.V, e.v)
			trees = append(trees, engine.Show(key)+":"+e.tree)
			jsons = append(jsons, engine.Show(key)+":"+e.json)
		}
		sort.Strings(trees)
		sort.Strings(jsons)
		return made{engine.MapRef{Obj: w.d.S.Alloc(mv)}, "{" + strings.Join(trees, ",") + "}", "{" + strings.Join(jsons, ",") + "}"}
	}
	w.Skip("unknown kind of type %s", t.Name)
	return made{}
}

// slice creates a slice, with some free capacity.
func (w *world) slice(l []made) value {
	if len(l) == 0 {
		return engine.Nil{}
	}
	var e []value
	for _, m := range l {
		e = append(e, m.v)
	}
	return w.it.MakeSlice(w.d.S, e)
}

func listMade(l []made) made {
	var trees, jsons []string
	for _, m := range l {
		trees = append(trees, m.tree)
		jsons = append(jsons, m.json)
	}
	return made{nil, "[" + strings.Join(trees, ",") + "]", "[" + strings.Join(jsons, ",") + "]"}
}

// build builds an object of the given Go type from a builder.
func (w *world) build(gt types.Type, b value) value {
	pkg, name := named(gt)
	bt := types.NewPointer(w.typ(pkg, name+"Builder"))
	return w.buildWith(bt, b)
}

func (w *world) buildWith(bt types.Type, b value) value {
	r, ok := w.Method(bt, b, "Build").(engine.Tuple)
	if !ok || len(r) != 2 {
		w.Skip("Build doesn't return two values")
	}
	if _, isNil := r[1].(engine.Nil); !isNil {
		w.Fail("build:"+bt.String(), "Build of %s fails", bt)
		panic(skip{"build fails"})
	}
	return r[0]
}

func (w *world) listObject(bt types.Type, b value) value { return w.buildWith(bt, b) }

// kindName returns the text that identifies the kind of an object.
func kindName(name string, link bool) string {
	if link {
		return name + "Link"
	}
	return name
}

// tree returns the expected observation.
func (b *builder) tree() string {
	var l []string
	for _, a := range allAttrs(b.t) {
		if t, ok := b.trees[a]; ok {
			l = append(l, a+"="+t)
		}
	}
	return b.name + "{" + strings.Join(l, ",") + "}"
}

// json returns the expected document.
func (b *builder) json() string {
	var l []string
	add := func(k, v string) { l = append(l, strconv.Quote(k)+":"+v) }
	if b.t.Kind == "class" {
		add("kind", strconv.Quote(kindName(b.name, b.trees["#link"] == "true")))
	}
	for _, a := range allAttrs(b.t) {
		v, ok := b.jsons[a]
		switch {
		case !ok || a == "#link":
		case a == "#id":
			add("id", v)
		case a == "#href":
			add("href", v)
		default:
			add(jsonName(&b.attributes[a].Base), v)
		}
	}
	sort.Strings(l)
	return "{" + strings.Join(l, ",") + "}"
}

// Build builds the object.
func (b *builder) Build() (types.Type, value) {
	f := b.w.method(b.gt, "Build")
	return result(f, 0), b.w.buildWith(b.gt, b.v)
}

// Observe describes an object of the given type using only the public methods of the generated types.
func (w *world) Observe(gt types.Type, t *spec.Type, v value) string {
	switch {
	case t.Scalar():
		return showScalar(v)
	case t.Struct():
		if _, ok := v.(engine.Nil); ok {
			return "nil"
		}
		return w.observeObject(gt, v)
	case t.Kind == "list":
		if p, ok := gt.(*types.Pointer); ok {
			if _, ok := v.(engine.Nil); ok {
				return "nil"
			}
			f := w.method(p, "Slice")
			return w.observeSlice(result(f, 0), t, w.d.CallFn(f, v))
		}
		return w.observeSlice(gt, t, v)
	case t.Kind == "map":
		m, ok := v.(engine.MapRef)
		if !ok {
			if _, ok := v.(engine.Nil); ok {
				return "nil"
			}
			return engine.Show(v)
		}
		mv := w.d.S.Get(m.Obj).(*engine.MapV)
		var l []string
		for i := range mv.K {
			l = append(l, engine.Show(mv.K[i])+":"+w.Observe(gt.Underlying().(*types.Map).Elem(), t.Element, mv.V[i]))
		}
		sort.Strings(l)
		return "{" + strings.Join(l, ",") + "}"
	}
	return engine.Show(v)
}

func (w *world) observeSlice(gt types.Type, t *spec.Type, v value) string {
	s, ok := gt.Underlying().(*types.Slice)
	if !ok {
		w.Skip("list of type %s", gt)
	}
	switch v.(type) {
	case engine.Nil:
		return "[]"
	case engine.Slice:
	default:
		return engine.Show(v)
	}
	var l []string
	for _, e := range w.it.Elems(w.d.S, v) {
		l = append(l, w.Observe(s.Elem(), t.Element, e))
	}
	return "[" + strings.Join(l, ",") + "]"
}

// zeroTree returns the description of the zero value of a Go type.
func (w *world) zeroTree(gt types.Type, t *spec.Type) string {
	return w.Observe(gt, t, w.it.Zero(gt))
}

func (w *world) observeObject(gt types.Type, v value) string {
	pkg, name := named(gt)
	t := w.specOf(pkg, name)
	if t == nil {
		w.Skip("unknown type %s.%s", pkg, name)
	}
	var l []string
	str := &spec.Type{Kind: "scalar"}
	get := func(label, getter string, typ *spec.Type) {
		g := w.method(gt, "Get"+getter)
		p := w.method(gt, getter)
		vt := result(g, 0)
		r, ok := w.d.CallFn(g, v).(engine.Tuple)
		if !ok || len(r) != 2 {
			w.Skip("%s doesn't return two values", g)
		}
		present := w.d.Bool(r[1])
		plain := w.Observe(vt, typ, w.d.CallFn(p, v))
		got := w.Observe(vt, typ, r[0])
		if !present {
			if z := w.zeroTree(vt, typ); got != z || plain != z {
				w.Fail("absent:"+g.String(), "%s returns %s and %s returns %s when the attribute '%s' of '%s' isn't present, should be %s", g.Name(), got, p.Name(), plain, label, name, z)
			}
			return
		}
		if plain != got {
			w.Fail("accessors:"+g.String(), "%s returns %s but %s returns %s for '%s'", g.Name(), got, p.Name(), plain, name)
		}
		l = append(l, label+"="+got)
	}
	if t.Kind == "class" {
		get("#id", "ID", str)
		get("#href", "HREF", str)
		link := w.d.Bool(w.Method(gt, v, "Link"))
		if link {
			l = append(l, "#link=true")
		}
		kind := kindName(name, link)
		if _, ok := v.(engine.Nil); ok {
			kind = name + "Nil"
		}
		if k, want := engine.Show(w.Method(gt, v, "Kind")), strconv.Quote(kind); k != want {
			w.Fail("kind:"+pkg+"."+name, "Kind of '%s' is %s but should be %s", name, k, want)
		}
	}
	for _, a := range t.Attrs {
		get(a.Name.String(), goName(&a.Base), a.Type)
	}
	return name + "{" + strings.Join(l, ",") + "}"
}

// structs calls the function for each structured type of the shape.
func (s *shape) structs(f func(v *spec.Version, t *spec.Type)) {
	for _, sv := range s.Spec.Services {
		for _, v := range sv.Versions {
			for _, t := range v.Types {
				if t.Struct() {
					f(v, t)
				}
			}
		}
	}
}

// canonJSON converts the tokens of a document to a canonical text. The result isn't ok if it isn't well
// formed or if it has repeated keys.
func canonJSON(toks []engine.JTok) (string, bool) {
	pos := 0
	var val func() (string, bool)
	next := func() string {
		if pos < len(toks) {
			return toks[pos].K
		}
		return ""
	}
	val = func() (string, bool) {
		if pos >= len(toks) {
			return "", false
		}
		t := toks[pos]
		pos++
		switch t.K {
		case "{":
			var l []string
			seen := map[string]bool{}
			for n := 0; ; n++ {
				if next() == "}" {
					pos++
					break
				}
				if n > 0 {
					if next() != "," {
						return "", false
					}
					pos++
				}
				if next() != "key" {
					return "", false
				}
				k := engine.Show(toks[pos].V)
				pos++
				if seen[k] {
					return "repeated key " + k, false
				}
				seen[k] = true
				v, ok := val()
				if !ok {
					return v, false
				}
				l = append(l, k+":"+v)
			}
			sort.Strings(l)
			return "{" + strings.Join(l, ",") + "}", true
		case "[":
			var l []string
			for n := 0; ; n++ {
				if next() == "]" {
					pos++
					break
				}
				if n > 0 {
					if next() != "," {
						return "", false
					}
					pos++
				}
				v, ok := val()
				if !ok {
					return v, false
				}
				l = append(l, v)
			}
			return "[" + strings.Join(l, ",") + "]", true
		case "str", "int", "float", "bool", "val":
			return engine.Show(t.V), true
		case "null":
			return "null", true
		}
		return "", false
	}
	v, ok := val()
	if ok && pos != len(toks) {
		return v, false
	}
	return v, ok
}
