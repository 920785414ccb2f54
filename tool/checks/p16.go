package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"verif/tool/engine"
	"verif/tool/spec"
)

// expected is what a request should contain.
type expected struct {
	method, path string
	query        []string
	header       []string
	body         string
	bodies       []string // alternatives, when there are no parameters in the body
}

func (w *world) expectedRequest(m *spec.Method, path string, set map[*spec.Param]made) (e expected) {
	e.method = httpMethod(m.Category())
	e.path = path
	if m.Category() == "action" {
		e.path += "/" + pathSegment(&m.Base)
	}
	doc := bodyParam(m, true)
	var fields []string
	inBody := false
	for _, p := range inputs(m) {
		if !inQuery(p) {
			inBody = true
		}
		x, ok := set[p]
		if !ok {
			continue
		}
		switch {
		case inQuery(p):
			text, ok := engine.ScalarText(x.v)
			if !ok {
				e.query = append(e.query, queryName(&p.Base)+"=*")
			} else {
				e.query = append(e.query, queryName(&p.Base)+"="+text.ID())
			}
		case p == doc:
			e.body = x.json
		default:
			fields = append(fields, fmt.Sprintf("%q:%s", jsonName(&p.Base), x.json))
		}
	}
	sort.Strings(e.query)
	switch {
	case doc != nil:
	case inBody:
		sort.Strings(fields)
		e.body = "{" + strings.Join(fields, ",") + "}"
	default:
		e.bodies = []string{"", "{}"}
	}
	return
}

// compare compares a request with what is expected.
func (w *world) compare(key string, got captured, want expected) {
	name := func(k string) string { return key + ":" + k }
	if got.method != want.method {
		w.Fail(name("method"), "The request is sent with method %s but should be %s", got.method, want.method)
	}
	if got.path != want.path {
		w.Fail(name("path"), "The request is sent to path %s but should be %s", got.path, want.path)
	}
	q := append([]string(nil), got.query...)
	for i, x := range q {
		k := strings.SplitN(x, "=", 2)[0]
		for _, y := range want.query {
			if y == k+"=*" {
				q[i] = y
			}
		}
	}
	if a, b := strings.Join(q, "&"), strings.Join(want.query, "&"); a != b {
		w.Fail(name("query"), "The request is sent with query '%s' but should be '%s'", a, b)
	}
	if a, b := strings.Join(got.header, ", "), strings.Join(want.header, ", "); a != b {
		w.Fail(name("header"), "The request is sent with headers '%s' but should be '%s'", a, b)
	}
	toks, ok := engine.ParseTokens(got.body)
	if !ok {
		w.Skip("body with unknown content %s", engine.Show(got.body))
	}
	text := ""
	if len(toks) > 0 {
		if text, ok = canonJSON(toks); !ok {
			text = "malformed document " + showTokens(toks)
		}
	}
	if want.bodies != nil {
		for _, x := range want.bodies {
			if x == text {
				return
			}
		}
		want.body = want.bodies[0]
	}
	if text != want.body {
		w.Fail(name("body"), "The request is sent with body\n  %s\nbut should be\n  %s", text, want.body)
	}
}

// okReply is a response without body.
func okReply(int) reply { return reply{status: int64(200)} }

// mandatory returns the parameters that have to be set because they are the body.
func mandatory(m *spec.Method) []*spec.Param {
	if p := bodyParam(m, true); p != nil {
		return []*spec.Param{p}
	}
	return nil
}

// methodTasks calls the function for each method of each resource of each shape.
func (c *Ctx) methodTasks(f func(s *shape, r route, m *spec.Method, add func(name string, f func(w *world)))) {
	var tasks []task
	for _, s := range c.selected() {
		s := s
		for _, r := range s.resourceRoutes() {
			for _, m := range r.r.Methods {
				label := fmt.Sprintf("%s/%s%s %s", r.v.Service.Name, r.v.Name, r, m.Name)
				f(s, r, m, func(name string, g func(w *world)) {
					tasks = append(tasks, task{s: s, name: label + ": " + name, f: g})
				})
			}
		}
	}
	c.scenarios(tasks)
}

func init() {
	register("P16", func(c *Ctx) {
		c.Rule("the generated clients are interpreted with a transport that records the requests, for every method and every parameter alone and all together, with unknown values; method, path, query, headers and body are compared with what the model says, and the request is sent twice")
		c.clientRequests(false)
		c.metadataRequests()
	})
}

// clientRequests checks the requests sent by the clients. If brief is true only the details of the binding
// are checked.
func (c *Ctx) clientRequests(brief bool) {
	// All the routes:
	var tasks []task
	for _, s := range c.selected() {
		for _, r := range s.routes() {
			s, r := s, r
			if len(r.r.Methods) == 0 {
				continue
			}
			tasks = append(tasks, task{s: s, name: fmt.Sprintf("%s/%s route %s", r.v.Service.Name, r.v.Name, r), f: func(w *world) {
				tr := w.transport(okReply)
				ct, cl, path := w.navigate(r, tr)
				n := len(r.r.Methods)
				if n > 12 {
					n = 12
				}
				for i, m := range r.r.Methods[:n] {
					rt, rq := w.request(ct, cl, m)
					set := map[*spec.Param]made{}
					for _, p := range mandatory(m) {
						rq, set[p] = w.setParam(rt, rq, p, "x", 1)
					}
					w.send(rt, rq, false)
					l := w.requests(tr)
					if len(l) != i+1 {
						w.Fail("route:count", "%d requests have been sent, should be %d", len(l), i+1)
						return
					}
					w.compare("route:"+m.Category(), l[i], w.expectedRequest(m, path, set))
				}
			}})
		}
	}
	c.scenarios(tasks)
	c.methodTasks(func(s *shape, r route, m *spec.Method, add func(string, func(w *world))) {
		ins := inputs(m)
		// use sets the parameters, sends the request two times and checks what was sent:
		use := func(key string, params []*spec.Param, size int, extra func(w *world, rt types.Type, rq value, e *expected) value, context bool) func(w *world) {
			return func(w *world) {
				tr := w.transport(okReply)
				ct, cl, path := w.navigate(r, tr)
				rt, rq := w.request(ct, cl, m)
				set := map[*spec.Param]made{}
				for _, p := range params {
					rq, set[p] = w.setParam(rt, rq, p, "x", size)
				}
				e := w.expectedRequest(m, path, set)
				if extra != nil {
					rq = extra(w, rt, rq, &e)
				}
				sort.Strings(e.query)
				sort.Strings(e.header)
				for i := 1; i <= 2; i++ {
					_, _, err := w.send(rt, rq, context)
					if !isNil(err) {
						w.Fail(key+":error", "Sending the request fails with %s", engine.Show(err))
						return
					}
					l := w.requests(tr)
					if len(l) != i {
						w.Fail(key+":count", "%d requests have been sent, should be %d", len(l), i)
						return
					}
					k := key
					if i > 1 {
						k += ":again"
					}
					w.compare(k, l[i-1], e)
					if context {
						x, _, ok := w.d.ExtOf(w.ctxOf(tr, i-1))
						if !ok || engine.Show(x.D[0]) != `"given"` {
							w.Fail(key+":context", "The request isn't sent with the given context")
						}
					}
				}
			}
		}
		with := func(p *spec.Param) []*spec.Param {
			l := mandatory(m)
			if len(l) == 1 && l[0] == p {
				return l
			}
			return append(l, p)
		}
		key := m.Category()
		add("no parameters", use(key, mandatory(m), 1, nil, true))
		for i, p := range ins {
			p := p
			sizes := []int{1}
			if p.Type.Kind == "list" || p.Type.Kind == "map" {
				sizes = []int{0, 1, 2}
			}
			for _, n := range sizes {
				if n == 0 && p.Type.Kind == "list" {
					// An empty list may be given as nil, which means that it isn't set.
					continue
				}
				add(fmt.Sprintf("only %s, size %d", p.Name, n), use(key+":"+kindOfType(p.Type), with(p), n, nil, i%2 == 0))
			}
		}
		add("all parameters", use(key+":all", ins, 2, nil, true))
		if brief {
			return
		}
		var reverse []*spec.Param
		for i := len(ins) - 1; i >= 0; i-- {
			reverse = append(reverse, ins[i])
		}
		if len(ins) > 1 {
			add("all parameters, in the opposite order", use(key+":all", reverse, 1, nil, false))
			if len(ins) <= 8 || c.Thorough {
				for i := range ins {
					i := i
					var l []*spec.Param
					skip := false
					for j, p := range ins {
						if j != i {
							l = append(l, p)
						} else if p == bodyParam(m, true) {
							skip = true
						}
					}
					if !skip {
						add("all but "+ins[i].Name.String(), use(key+":allbut", l, 1, nil, false))
					}
				}
			}
		}
		// Explicit parameters and headers:
		extras := func(w *world, rt types.Type, rq value, e *expected) value {
			box := func(t types.Type, v value) value { return engine.Iface{T: t, V: v} }
			str := func(s string) value { return box(types.Typ[types.String], engine.U(s)) }
			q := func(name string, v value) {
				rq = w.Method(rt, rq, "Parameter", engine.C(name), v)
				text, _ := engine.ScalarText(v.(engine.Iface).V)
				e.query = append(e.query, name+"="+text.ID())
			}
			q("xtext", str("one"))
			q("xtext", str("two"))
			q("xnumber", box(types.Typ[types.Int], engine.Sym{Term: "number", T: types.Typ[types.Int]}))
			q("xflag", box(types.Typ[types.Bool], engine.Sym{Term: "flag", T: types.Typ[types.Bool]}))
			q("xtime", box(w.it.LookupType("time", "Time"), w.it.SymOf(w.d.S, "moment", w.it.LookupType("time", "Time"))))
			h := func(name string, v engine.Str) {
				rq = w.Method(rt, rq, "Header", engine.C(name), box(types.Typ[types.String], v))
				e.header = append(e.header, fmt.Sprintf("%q=%s", name, engine.Show(v)))
			}
			h("X-First", engine.U("first"))
			h("X-First", engine.U("second"))
			h("X-Other", engine.U("third"))
			rq = w.Method(rt, rq, "Impersonate", engine.U("user"))
			e.header = append(e.header, `"Impersonate-User"=`+engine.Show(engine.U("user")))
			return rq
		}
		add("without context", func(w *world) {
			tr := w.transport(okReply)
			ct, cl, path := w.navigate(r, tr)
			rt, rq := w.request(ct, cl, m)
			set := map[*spec.Param]made{}
			for _, p := range mandatory(m) {
				rq, set[p] = w.setParam(rt, rq, p, "x", 1)
			}
			w.d.CallFn(w.method(rt, "SendContext"), rq, engine.Nil{})
			l := w.requests(tr)
			if len(l) != 1 {
				w.Fail(key+":nilcontext", "%d requests have been sent without context, should be 1", len(l))
				return
			}
			w.compare(key+":nilcontext", l[0], w.expectedRequest(m, path, set))
		})
		add("explicit parameters and headers", use(key+":extra", mandatory(m), 1, extras, true))
		add("explicit parameters and headers with all the parameters", use(key+":extra", ins, 1, extras, false))
	})
}

// ctxOf returns the context of a request received by the transport.
func (w *world) ctxOf(transport value, i int) value {
	x, _, _ := w.d.ExtOf(transport)
	return x.D[i].(engine.Tuple)[5]
}
