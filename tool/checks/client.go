package checks

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/tool/engine"
	"verif/tool/spec"
)

// This file contains what is needed to use the generated clients: the transport, which is a model that
// records the requests and returns the responses prepared by the scenario, and the navigation from
// the client of a service to the client of a resource.

// reply is what the transport does with a request.
type reply struct {
	refuse  bool // the transport returns an error
	status  value
	content engine.Str
	fail    bool // reading the body fails after the content
}

// captured is a request received by the transport.
type captured struct {
	method, path string
	query        []string
	header       []string
	body         engine.Str
	hasBody      bool
	ctx          string
	response     value // body of the response
}

func strOf(w *world, v value) string {
	s, ok := v.(engine.Str)
	if !ok {
		w.Skip("text is %s", engine.Show(v))
	}
	return s.ID()
}

// transport creates a transport.
func (w *world) transport(f func(n int) reply) value {
	w.it.Models["transport.RoundTrip"] = engine.Direct(func(d *engine.D, a []value) value {
		p := a[0].(engine.Ptr)
		x := d.S.Get(p.Obj).(*engine.Ext)
		req := a[1]
		url := d.Field("net/http", "Request", "URL", req)
		body := d.Field("net/http", "Request", "Body", req)
		var text value = engine.Nil{}
		if !isNil(body) {
			s, _ := d.Drain(body)
			text = s
		}
		var headers []string
		if m, ok := d.Field("net/http", "Request", "Header", req).(engine.MapRef); ok {
			mv := d.S.Get(m.Obj).(*engine.MapV)
			for i := range mv.K {
				for _, e := range d.I.Elems(d.S, mv.V[i]) {
					headers = append(headers, engine.Show(mv.K[i])+"="+engine.Show(e))
				}
			}
		}
		sort.Strings(headers)
		w.current = d
		r := f(len(x.D))
		record := engine.Tuple{
			d.Field("net/http", "Request", "Method", req),
			d.Field("net/url", "URL", "Path", url),
			d.Field("net/url", "URL", "RawQuery", url),
			engine.C(strings.Join(headers, "\n")),
			text,
			d.Field("net/http", "Request", "ctx", req),
			engine.Nil{},
		}
		if r.refuse {
			d.S.Set(p.Obj, &engine.Ext{Kind: x.Kind, D: append(append([]value(nil), x.D...), record)})
			return engine.Tuple{engine.Nil{}, d.I.NewError(d.S, engine.C("transport failure"), nil)}
		}
		var fail value = engine.Nil{}
		if r.fail {
			fail = d.I.NewError(d.S, engine.C("body failure"), nil)
		}
		b := d.ExtIface("io", "nopCloser", "body", r.content, false, fail)
		record[6] = b
		d.S.Set(p.Obj, &engine.Ext{Kind: x.Kind, D: append(append([]value(nil), x.D...), record)})
		resp := d.New("net/http", "Response")
		d.SetField("net/http", "Response", "StatusCode", resp, r.status)
		h := &engine.MapV{K: []value{engine.C("X-Test")}, V: []value{d.I.MakeSlice(d.S, []value{engine.C("header")})}}
		d.SetField("net/http", "Response", "Header", resp, engine.MapRef{Obj: d.S.Alloc(h)})
		d.SetField("net/http", "Response", "Body", resp, b)
		return engine.Tuple{resp, engine.Nil{}}
	})
	return w.d.ExtIface("net/http", "Transport", "transport")
}

// requests returns the requests received by the transport.
func (w *world) requests(transport value) (r []captured) {
	x, _, _ := w.d.ExtOf(transport)
	for _, e := range x.D {
		t := e.(engine.Tuple)
		c := captured{method: strOf(w, t[0]), path: strOf(w, t[1]), ctx: engine.Show(t[5]), response: t[6]}
		q, ok := engine.Query(t[2].(engine.Str))
		if !ok {
			w.Skip("query %s", engine.Show(t[2]))
		}
		c.query = q
		if h, _ := t[3].(engine.Str).Const(); h != "" {
			c.header = strings.Split(h, "\n")
		}
		if s, ok := t[4].(engine.Str); ok {
			c.body, c.hasBody = s, true
		}
		r = append(r, c)
	}
	return
}

// closed tells if the body of a response has been closed.
func (w *world) closed(body value) bool {
	x, _, ok := w.d.ExtOf(body)
	return ok && x.D[1] == true
}

// route is a sequence of locators that goes from the root of a version to a resource.
type route struct {
	v     *spec.Version
	steps []*spec.Locator
	r     *spec.Resource
}

func (r route) String() string {
	var l []string
	for _, s := range r.steps {
		l = append(l, s.Name.String())
	}
	return "/" + strings.Join(l, "/")
}

// routes finds all the ways to go to the resources of the shape.
func (s *shape) routes() (r []route) {
	for _, sv := range s.Spec.Services {
		for _, v := range sv.Versions {
			var root *spec.Resource
			for _, x := range v.Resources {
				if x.Name.String() == "root" {
					root = x
				}
			}
			var visit func(x route)
			visit = func(x route) {
				r = append(r, x)
				if len(x.steps) > 6 {
					return
				}
				for _, l := range x.r.Locators {
					visit(route{v, append(append([]*spec.Locator(nil), x.steps...), l), l.Target})
				}
			}
			if root != nil {
				visit(route{v: v, r: root})
			}
		}
	}
	return
}

// resourceRoutes selects one route for each resource.
func (s *shape) resourceRoutes() (r []route) {
	seen := map[*spec.Resource]bool{}
	for _, x := range s.routes() {
		if !seen[x.r] {
			seen[x.r] = true
			r = append(r, x)
		}
	}
	return
}

// navigate goes to the client of a resource. It returns the type and value of the client and the
// expected path.
func (w *world) navigate(r route, transport value) (types.Type, value, string) {
	base := engine.U("base")
	f := w.fn(servicePath(w.s, r.v.Service), "NewClient")
	t, v := result(f, 0), w.d.CallFn(f, transport, base)
	want := base.ID()
	go1 := func(name string, args ...value) {
		m := w.method(t, name)
		if m.Signature.Params().Len() != len(args) || m.Signature.Results().Len() != 1 {
			w.Skip("%s has an unexpected signature", m)
		}
		v = w.d.CallFn(m, append([]value{v}, args...)...)
		t = result(m, 0)
	}
	go1(goName(&r.v.Base))
	want += "/" + pathSegment(&r.v.Base)
	for _, l := range r.steps {
		if l.Variable {
			id := engine.U(w.fresh("id"))
			go1(goName(&l.Base), id)
			want += "/" + id.ID()
		} else {
			go1(goName(&l.Base))
			want += "/" + pathSegment(&l.Base)
		}
	}
	return t, v, want
}

// request creates the request for a method.
func (w *world) request(ct types.Type, c value, m *spec.Method) (types.Type, value) {
	f := w.method(ct, goName(&m.Base))
	if f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 {
		w.Skip("%s has an unexpected signature", f)
	}
	return result(f, 0), w.d.CallFn(f, c)
}

// setParam sets a parameter of a request.
func (w *world) setParam(rt types.Type, r value, p *spec.Param, label string, size int) (value, made) {
	f := w.method(rt, setterName(p))
	if f.Signature.Params().Len() != 1 {
		w.Skip("%s has an unexpected signature", f)
	}
	w.notNil = true
	m := w.make(f.Signature.Params().At(0).Type(), p.Type, false, label+"."+p.Name.String(), 1, size, false)
	return w.d.CallFn(f, r, m.v), m
}

// send sends a request, and returns the type of the response, the response and the error.
func (w *world) send(rt types.Type, r value, context bool) (types.Type, value, value) {
	var f *ssa.Function
	var args []value
	if context {
		f = w.method(rt, "SendContext")
		args = []value{w.d.ExtIface("context", "cancelCtx", "ctx", engine.C("given"))}
	} else {
		f = w.method(rt, "Send")
	}
	t, ok := w.d.CallFn(f, append([]value{r}, args...)...).(engine.Tuple)
	if !ok || len(t) != 2 {
		w.Skip("%s has an unexpected signature", f)
	}
	return result(f, 0), t[0], t[1]
}

// document tells if the body of the requests or responses of the method is the value of one parameter,
// instead of an object with the parameters.
func bodyParam(m *spec.Method, in bool) *spec.Param {
	var r *spec.Param
	for _, p := range m.Params {
		if in && !p.In || !in && !p.Out {
			continue
		}
		switch m.Category() {
		case "action":
			return nil
		case "post":
			r = p
		case "list":
			return nil
		case "search":
			if !in {
				return nil
			}
			if p.Name.String() == "body" {
				r = p
			}
		default:
			if p.Name.String() == "body" {
				r = p
			}
		}
	}
	return r
}

// inQuery tells if a parameter travels in the query.
func inQuery(p *spec.Param) bool {
	return p.In && p.Method.Category() != "action" && p.Type.Scalar()
}

// inputs and outputs return the parameters of a method.
func inputs(m *spec.Method) (r []*spec.Param) {
	for _, p := range m.Params {
		if p.In {
			r = append(r, p)
		}
	}
	return
}

func outputs(m *spec.Method) (r []*spec.Param) {
	for _, p := range m.Params {
		if p.Out {
			r = append(r, p)
		}
	}
	return
}
