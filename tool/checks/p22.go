package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"verif/tool/engine"
	"verif/tool/spec"
)

// attempt is what happens with each of the requests sent while polling.
type attempt struct {
	refuse  bool // the transport fails
	status  int
	accepts []bool // what the predicates return
	takes   int64  // how long it takes
}

// polling is a scenario of polling. All the times are nanoseconds.
type polling struct {
	interval   int64
	set        bool // interval is set
	deadline   int64
	noDeadline bool
	statuses   []int
	predicates int
	attempts   []attempt
	params     bool
}

func (p polling) String() string {
	return fmt.Sprintf("interval %d, deadline %d %v, statuses %v, %d predicates, attempts %v", p.interval, p.deadline, !p.noDeadline, p.statuses, p.predicates, p.attempts)
}

// outcome is what should happen.
type outcome struct {
	requests int
	sleeps   int
	started  bool
	response bool
	failed   bool
}

// expected calculates what should happen. It returns false if the scenario isn't decided by the
// documentation, because it finishes exactly at the deadline.
func (p polling) expected() (o outcome, ok bool) {
	if p.noDeadline || p.interval <= 0 {
		o.failed = true
		return o, true
	}
	o.started = true
	statuses := p.statuses
	if len(statuses) == 0 {
		statuses = []int{200}
	}
	var clock int64
	for i := 0; ; i++ {
		if i >= len(p.attempts) {
			return o, false
		}
		a := p.attempts[i]
		o.requests++
		clock += a.takes
		if a.refuse {
			o.failed = true
			o.response = false
			return o, true
		}
		o.response = true
		o.failed = a.status >= 400
		good := false
		for _, s := range statuses {
			good = good || s == a.status
		}
		for k := 0; k < p.predicates; k++ {
			good = good && a.accepts[k]
		}
		if good {
			return o, true
		}
		if clock+p.interval == p.deadline {
			return o, false
		}
		if clock+p.interval > p.deadline {
			return o, true
		}
		o.sleeps++
		clock += p.interval
	}
}

// pollings generates the scenarios.
func pollings(thorough bool) (r []polling) {
	ok := func(l ...bool) []bool { return l }
	base := polling{interval: 10, set: true, deadline: 35}
	add := func(f func(p *polling)) {
		p := base
		f(&p)
		r = append(r, p)
	}
	never := attempt{status: 500, accepts: ok(false, false), takes: 1}
	end := []attempt{never, never, never, never, never, never}
	// Refused from the beginning:
	add(func(p *polling) { p.noDeadline = true; p.attempts = end })
	add(func(p *polling) { p.interval = 0; p.attempts = end })
	add(func(p *polling) { p.interval = -1; p.attempts = end })
	add(func(p *polling) { p.interval = 0; p.set = false; p.attempts = end })
	// Sequences of attempts:
	kinds := []attempt{
		{status: 200, accepts: ok(true, true), takes: 1},
		{status: 200, accepts: ok(false, true), takes: 1},
		{status: 200, accepts: ok(true, false), takes: 1},
		{status: 404, accepts: ok(true, true), takes: 1},
		{status: 503, accepts: ok(false, false), takes: 1},
		{refuse: true, takes: 1},
	}
	sets := [][]int{nil, {200}, {404}, {200, 404}, {503, 404, 200}, {201}}
	for _, statuses := range sets {
		for n := 0; n <= 2; n++ {
			for i := range kinds {
				for j := range kinds {
					statuses, n := statuses, n
					add(func(p *polling) {
						p.statuses, p.predicates = statuses, n
						p.attempts = append([]attempt{kinds[i], kinds[j]}, end...)
					})
				}
			}
		}
	}
	for _, status := range []int{201, 202, 203, 204} {
		for n, statuses := range [][]int{nil, {200}, {202}, {404, 204}} {
			status, n, statuses := status, n, statuses
			add(func(p *polling) {
				p.deadline = 34
				p.statuses, p.predicates = statuses, n%2
				p.attempts = append([]attempt{{status: status, accepts: ok(true, true), takes: 1}, kinds[0]}, end...)
			})
		}
	}
	// Durations and deadlines:
	for _, deadline := range []int64{1, 5, 9, 11, 12, 21, 22, 35, 47} {
		for _, takes := range []int64{0, 1, 4, 9, 11, 30} {
			for _, last := range []attempt{kinds[0], kinds[5], never} {
				deadline, takes, last := deadline, takes, last
				add(func(p *polling) {
					p.deadline = deadline
					bad := attempt{status: 404, accepts: ok(false, false), takes: takes}
					last.takes = takes
					p.attempts = []attempt{bad, bad, last, bad, bad, bad, bad}
				})
			}
		}
	}
	return
}

func init() {
	register("P22", func(c *Ctx) {
		c.Rule("the generated poll requests are interpreted with a model of the clock, of contexts and of the transport, for sequences of attempts (accepted or not by status and predicates, failures with and without status) of different durations, and the number of requests, the moments when it sleeps and the results are compared with the documented behaviour")
		var tasks []task
		for _, s := range c.residual() {
			s := s
			for _, r := range s.resourceRoutes() {
				r := r
				var get *spec.Method
				poll := false
				for _, m := range r.r.Methods {
					if m.Category() == "get" {
						get = m
					}
					poll = poll || goName(&m.Base) == "Poll"
				}
				if get == nil || poll {
					continue
				}
				add := func(name string, f func(w *world)) {
					tasks = append(tasks, task{s, fmt.Sprintf("%s/%s%s poll: %s", r.v.Service.Name, r.v.Name, r, name), engine.Clocks, f})
				}
				list := pollings(c.Thorough)
				if s.name != "crud" && !c.Thorough {
					// The loop is common to all the resources, so for the rest it is enough to have
					// some scenarios:
					var l []polling
					for i := range list {
						if i%23 == 0 {
							l = append(l, list[i])
						}
					}
					list = l
				}
				for i, p := range list {
					p := p
					want, ok := p.expected()
					if !ok {
						continue
					}
					p.params = i%3 == 0
					add(p.String(), func(w *world) { w.poll(r, get, p, want) })
				}
			}
		}
		c.scenarios(tasks)
	})
}

// pollSetter calculates the name of the method that sets a parameter in a poll request.
func pollSetter(p *spec.Param) string {
	return builtin(setterName(p), "Interval", "Predicate", "StartContext", "Status")
}

func (w *world) poll(r route, m *spec.Method, p polling, want outcome) {
	key := "poll"
	body := bodyParam(m, false)
	if body == nil || !body.Type.Struct() {
		w.Skip("no body")
	}
	class := body.Type.Kind == "class"
	idOf := func(n int) engine.Str { return engine.U(fmt.Sprintf("object%d", n)) }
	tr := w.transport(func(n int) reply {
		a := p.attempts[len(p.attempts)-1]
		if n < len(p.attempts) {
			a = p.attempts[n]
		}
		d := w.current
		d.Event(fmt.Sprintf("request %d", n))
		d.Advance(a.takes)
		if a.refuse {
			return reply{refuse: true}
		}
		toks := []engine.JTok{{K: "{"}, {K: "key", V: engine.C("id")}, {K: "str", V: idOf(n)}, {K: "}"}}
		return reply{status: int64(a.status), content: engine.JSONOf(toks).Text()}
	})
	ct, cl, path := w.navigate(r, tr)
	f := w.method(ct, "Poll")
	rt, rq := result(f, 0), w.d.CallFn(f, cl)
	set := map[*spec.Param]made{}
	e := expected{}
	str := types.Typ[types.String]
	if p.params && p.deadline%2 == 0 {
		rq = w.Method(rt, rq, "Parameter", engine.C("xfirst"), engine.Iface{T: str, V: engine.U("xother")})
	}
	if p.params {
		for _, x := range inputs(m) {
			s := w.method(rt, pollSetter(x))
			w.notNil = true
			v := w.make(s.Signature.Params().At(0).Type(), x.Type, false, "x."+x.Name.String(), 1, 1, false)
			rq = w.d.CallFn(s, rq, v.v)
			set[x] = v
		}
	}
	e = w.expectedRequest(m, path, set)
	if p.params {
		if p.deadline%2 == 0 {
			e.query = append(e.query, "xfirst="+engine.U("xother").ID())
		}
		rq = w.Method(rt, rq, "Parameter", engine.C("xtext"), engine.Iface{T: str, V: engine.U("xvalue")})
		e.query = append(e.query, "xtext="+engine.U("xvalue").ID())
		rq = w.Method(rt, rq, "Header", engine.C("X-First"), engine.Iface{T: str, V: engine.U("hvalue")})
		e.header = append(e.header, `"X-First"=`+engine.Show(engine.U("hvalue")))
	}
	sort.Strings(e.query)
	if p.set {
		rq = w.Method(rt, rq, "Interval", p.interval)
	}
	for _, s := range p.statuses {
		rq = w.Method(rt, rq, "Status", int64(s))
	}
	status := w.method(rt, "Predicate").Signature.Params().At(0).Type().Underlying().(*types.Signature).Params().At(0).Type()
	for i := 0; i < p.predicates; i++ {
		i := i
		name := fmt.Sprintf("verif.predicate%d", i)
		w.it.Models[name] = engine.Direct(func(d *engine.D, args []value) value {
			x, _, _ := d.ExtOf(tr)
			n := len(x.D) - 1
			st, _ := d.Method(status, args[1], "Status")
			b, _ := d.Method(status, args[1], getterName(body))
			id := value(engine.Nil{})
			if !isNil(b) && class {
				id, _ = d.Method(w.outputType(status, body), b, "ID")
			}
			d.Event(fmt.Sprintf("predicate %d %s %s", i, engine.Show(st), engine.Show(id)))
			a := attempt{}
			if n >= 0 && n < len(p.attempts) {
				a = p.attempts[n]
			}
			return len(a.accepts) > i && a.accepts[i]
		})
		rq = w.Method(rt, rq, "Predicate", &engine.Func{Name: name})
	}
	var deadline value = p.deadline
	if p.noDeadline {
		deadline = engine.Nil{}
	}
	sf := w.method(rt, "StartContext")
	t, ok := w.d.CallFn(sf, rq, w.d.Context("given", deadline)).(engine.Tuple)
	if !ok || len(t) != 2 {
		w.Skip("StartContext doesn't return two values")
	}
	where := fmt.Sprintf("\nInterval is %d, deadline is %d from now (%v), expected statuses are %v, there are %d predicates; events are:\n  %s", p.interval, p.deadline, !p.noDeadline, p.statuses, p.predicates, strings.Join(strings.Split(w.d.S.Var("events"), ";"), "\n  "))
	reqs := w.requests(tr)
	if len(reqs) != want.requests {
		w.Fail(key+":requests", "%d requests have been sent, but should be %d%s", len(reqs), want.requests, where)
	}
	for _, q := range reqs {
		w.compare(key+":request", q, e)
		if !isNil(q.response) && !w.closed(q.response) {
			w.Fail(key+":close", "The body of the response isn't closed")
		}
	}
	// Sleeps happen only between attempts:
	sleeps := 0
	last := ""
	for _, ev := range strings.Split(w.d.S.Var("events"), ";") {
		switch {
		case strings.HasPrefix(ev, "sleep"):
			sleeps++
			if ev != fmt.Sprintf("sleep %d", p.interval) {
				w.Fail(key+":sleep", "The poll request does '%s' but the interval is %d%s", ev, p.interval, where)
			}
			if last == "" || strings.HasPrefix(last, "sleep") {
				w.Fail(key+":sleep", "The poll request sleeps before a request has been sent%s", where)
			}
			last = ev
		case strings.HasPrefix(ev, "request"):
			if strings.HasPrefix(last, "request") {
				w.Fail(key+":sleep", "The poll request doesn't sleep between requests%s", where)
			}
			last = ev
		case strings.HasPrefix(ev, "predicate"):
			var n int
			fmt.Sscanf(last, "request %d", &n)
			want := fmt.Sprint(p.attempts[n].status) + " nil"
			if p.attempts[n].status < 400 && class {
				want = fmt.Sprint(p.attempts[n].status) + " " + engine.Show(idOf(n))
			}
			if !strings.HasSuffix(ev, " "+want) {
				w.Fail(key+":predicate", "The response given to the predicate isn't the last one: %s%s", ev, where)
			}
		}
	}
	if sleeps != want.sleeps {
		w.Fail(key+":sleeps", "The poll request sleeps %d times, but should be %d%s", sleeps, want.sleeps, where)
	}
	if got := !isNil(t[1]); got != want.failed {
		w.Fail(key+":error", "The poll request returns error %v, but should be %v%s", got, want.failed, where)
	}
	if got := !isNil(t[0]); got != want.response {
		w.Fail(key+":response", "The poll request returns response %v, but should be %v%s", got, want.response, where)
		return
	}
	if want.response {
		gt := result(sf, 0)
		n := want.requests - 1
		if got := engine.Show(w.Method(gt, t[0], "Status")); got != fmt.Sprint(p.attempts[n].status) {
			w.Fail(key+":status", "The status of the response is %s, but should be %d%s", got, p.attempts[n].status, where)
		}
		if p.attempts[n].status < 400 {
			b := w.Method(gt, t[0], getterName(body))
			if isNil(b) {
				w.Fail(key+":body", "The response doesn't have a body%s", where)
			} else if !class {
			} else if got := engine.Show(w.Method(w.outputType(gt, body), b, "ID")); got != engine.Show(idOf(n)) {
				w.Fail(key+":body", "The body of the response is %s, but should be %s%s", got, engine.Show(idOf(n)), where)
			}
		} else if er := w.Method(gt, t[0], "Error"); isNil(er) {
			w.Fail(key+":errorbody", "The response doesn't have an error%s", where)
		}
		if isNil(w.Method(gt, t[0], "Header")) {
			w.Fail(key+":header", "The response doesn't have headers%s", where)
		}
	}
}

// outputType returns the type of an output parameter of a response.
func (w *world) outputType(rt types.Type, p *spec.Param) types.Type {
	return result(w.method(rt, getterName(p)), 0)
}
