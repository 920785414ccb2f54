package checks

import (
	"fmt"
	"go/types"
	"strings"

	"verif/tool/engine"
	"verif/tool/spec"
)

type jtok = engine.JTok

// doc creates a document that represents an unknown value of the type. It returns also the result of
// observing the corresponding object.
func (w *world) doc(t *spec.Type, label string, depth, size int, link bool) ([]jtok, string) {
	t = w.s.resolve(t)
	switch {
	case t.Scalar():
		m := w.scalar(t, label)
		if t.Kind == "enum" {
			return []jtok{{K: "str", V: m.v}}, m.tree
		}
		switch t.Name.Snake() {
		case "boolean":
			return []jtok{{K: "bool", V: m.v}}, m.tree
		case "integer", "long":
			return []jtok{{K: "int", V: m.v}}, m.tree
		case "float":
			return []jtok{{K: "float", V: m.v}}, m.tree
		case "date":
			s, _ := engine.ScalarText(m.v)
			return []jtok{{K: "str", V: s}}, m.tree
		case "interface":
			if i, ok := m.v.(engine.Iface); ok {
				return []jtok{{K: "str", V: i.V}}, m.tree
			}
			return []jtok{{K: "val", V: m.v}}, m.tree
		}
		return []jtok{{K: "str", V: m.v}}, m.tree
	case t.Struct():
		var l [][]jtok
		var trees []string
		add := func(k string, v []jtok) { l = append(l, append([]jtok{{K: "key", V: engine.C(k)}}, v...)) }
		str := func(s engine.Str) []jtok { return []jtok{{K: "str", V: s}} }
		name := goName(&t.Base)
		if t.Kind == "class" {
			isLink := len(w.vars)%2 == 0
			add("kind", str(engine.C(kindName(name, isLink))))
			id, href := engine.U(w.fresh(label+".#id")), engine.U(w.fresh(label+".#href"))
			add("id", str(id))
			add("href", str(href))
			trees = append(trees, "#id="+engine.Show(id), "#href="+engine.Show(href))
			if isLink {
				trees = append(trees, "#link=true")
			}
		}
		n := 0
		for _, a := range t.Attrs {
			if depth <= 0 && (!a.Type.Scalar() || n >= 2) {
				continue
			}
			n++
			v, tree := w.doc(a.Type, label+"."+a.Name.String(), depth-1, size, a.Link)
			add(jsonName(&a.Base), v)
			trees = append(trees, a.Name.String()+"="+tree)
		}
		return objectOf(l), name + "{" + strings.Join(trees, ",") + "}"
	case t.Kind == "list":
		r := []jtok{{K: "["}}
		var trees []string
		for i := 0; i < size; i++ {
			if i > 0 {
				r = append(r, jtok{K: ","})
			}
			v, tree := w.doc(t.Element, label, depth-1, size, false)
			r = append(r, v...)
			trees = append(trees, tree)
		}
		r = append(r, jtok{K: "]"})
		if link {
			r = objectOf([][]jtok{append([]jtok{{K: "key", V: engine.C("items")}}, r...)})
		}
		return r, "[" + strings.Join(trees, ",") + "]"
	case t.Kind == "map":
		var l [][]jtok
		var trees []string
		for i := 0; i < size; i++ {
			key := engine.C(fmt.Sprintf("key%d", i))
			v, tree := w.doc(t.Element, label, depth-1, size, false)
			l = append(l, append([]jtok{{K: "key", V: key}}, v...))
			trees = append(trees, engine.Show(key)+":"+tree)
		}
		return objectOf(l), "{" + strings.Join(trees, ",") + "}"
	}
	w.Skip("unknown kind of type %s", t.Name)
	return nil, ""
}

// errorDoc creates the representation of an error.
func errorDoc() ([]jtok, map[string]string) {
	str := func(k, v string) []jtok {
		return []jtok{{K: "key", V: engine.C(k)}, {K: "str", V: engine.U("error." + v)}}
	}
	l := [][]jtok{
		{{K: "key", V: engine.C("kind")}, {K: "str", V: engine.C("Error")}},
		str("id", "id"), str("href", "href"), str("code", "code"), str("reason", "reason"), str("operation_id", "operation"),
		{{K: "key", V: engine.C("status")}, {K: "int", V: int64(777)}},
	}
	return objectOf(l), map[string]string{"ID": "id", "HREF": "href", "Code": "code", "Reason": "reason", "OperationID": "operation"}
}

func init() {
	register("P17", func(c *Ctx) {
		c.Rule("the generated clients are interpreted with a transport that returns responses of all the kinds (complete, with some of the fields, with unknown fields, in any order, empty, truncated, of other types, that fail while being read, and errors of each range of status), with unknown values; the outputs and errors returned are compared with what the model says, and the body should be closed")
		c.clientResponses(false)
		c.metadataResponses()
	})
}

// clientResponses checks how the clients interpret the responses. If brief is true only the details of the
// binding are checked.
func (c *Ctx) clientResponses(brief bool) {
	c.methodTasks(func(s *shape, r route, m *spec.Method, add func(string, func(w *world))) {
		outs := outputs(m)
		body := bodyParam(m, false)
		key := m.Category()
		type sent struct {
			rt       types.Type
			res, err value
			reqs     []captured
		}
		call := func(w *world, rp reply) sent {
			tr := w.transport(func(int) reply { return rp })
			ct, cl, _ := w.navigate(r, tr)
			rt, rq := w.request(ct, cl, m)
			for _, p := range mandatory(m) {
				rq, _ = w.setParam(rt, rq, p, "x", 1)
			}
			t, res, err := w.send(rt, rq, len(w.vars)%2 == 0)
			reqs := w.requests(tr)
			for _, q := range reqs {
				if !isNil(q.response) && !w.closed(q.response) {
					w.Fail(key+":close", "The body of the response isn't closed")
				}
			}
			return sent{t, res, err, reqs}
		}
		// outputsAre checks the values of the output parameters:
		outputsAre := func(w *world, x sent, want map[*spec.Param]string, status int, why string) {
			if isNil(x.res) {
				w.Fail(key+":nil", "The response returned is nil (%s)", why)
				return
			}
			if got := engine.Show(w.Method(x.rt, x.res, "Status")); got != fmt.Sprint(status) {
				w.Fail(key+":status", "The status of the response is %s but should be %d", got, status)
			}
			h := w.Method(x.rt, x.res, "Header")
			if mr, ok := h.(engine.MapRef); !ok || len(w.d.S.Get(mr.Obj).(*engine.MapV).K) != 1 {
				w.Fail(key+":header", "The headers of the response aren't returned")
			}
			for _, p := range outs {
				g := w.method(x.rt, "Get"+getterName(p))
				f := w.method(x.rt, getterName(p))
				t, ok := w.d.CallFn(g, x.res).(engine.Tuple)
				if !ok || len(t) != 2 {
					w.Skip("%s has an unexpected signature", g)
				}
				vt := result(g, 0)
				present := w.d.Bool(t[1])
				got, plain := w.Observe(vt, p.Type, t[0]), w.Observe(vt, p.Type, w.d.CallFn(f, x.res))
				k := key + ":" + kindOfType(p.Type)
				expect, ok := want[p]
				switch {
				case !ok && present:
					w.Fail(k+":absent", "The response has a value %s for parameter '%s', but it isn't in the body (%s)", got, p.Name, why)
				case !ok:
					if z := w.zeroTree(vt, p.Type); got != z || plain != z {
						w.Fail(k+":zero", "The response returns %s and %s for parameter '%s', which isn't in the body (%s)", got, plain, p.Name, why)
					}
				case !present:
					w.Fail(k+":lost", "The response doesn't have a value for parameter '%s' (%s)", p.Name, why)
				case got != expect || plain != expect:
					w.Fail(k+":value", "The response returns\n  %s\nand\n  %s\nfor parameter '%s' but should return\n  %s\n(%s)", got, plain, p.Name, expect, why)
				}
			}
		}
		document := func(w *world, params []*spec.Param, size int) ([]jtok, map[*spec.Param]string) {
			w.notNil = true
			want := map[*spec.Param]string{}
			if body != nil {
				d, tree := w.doc(body.Type, "y", 1, size, false)
				want[body] = tree
				return d, want
			}
			var l [][]jtok
			for _, p := range params {
				d, tree := w.doc(p.Type, "y."+p.Name.String(), 1, size, false)
				l = append(l, append([]jtok{{K: "key", V: engine.C(jsonName(&p.Base))}}, d...))
				want[p] = tree
			}
			return objectOf(l), want
		}
		good := func(label string, params []*spec.Param, size, status int, change func(w *world, d []jtok) []jtok) {
			add(label, func(w *world) {
				d, want := document(w, params, size)
				if change != nil {
					d = change(w, d)
				}
				x := call(w, reply{status: int64(status), content: engine.JSONOf(d).Text()})
				if !isNil(x.err) {
					w.Fail(key+":fails", "The request fails with %s for response\n  %s", engine.Show(x.err), showTokens(d))
					return
				}
				outputsAre(w, x, want, status, label)
			})
		}
		if len(outs) > 0 {
			for n, status := range []int{200, 201, 399} {
				good(fmt.Sprintf("all the outputs, size %d, status %d", n, status), outs, n, status, nil)
			}
			good("all the outputs in other order and with unknown fields", outs, 1, 204, func(w *world, d []jtok) []jtok {
				if x, ok := disturb(d, len(outs)); ok {
					return x
				}
				return d
			})
			if body == nil {
				good("empty object", nil, 0, 200, nil)
				for _, p := range outs {
					good("only "+p.Name.String(), []*spec.Param{p}, 2, 200, nil)
				}
			}
		}
		if brief {
			return
		}
		for _, status := range []int{200, 204, 302, 400, 404, 500} {
			status := status
			add(fmt.Sprintf("no body, status %d", status), func(w *world) {
				x := call(w, reply{status: int64(status)})
				if !isNil(x.err) {
					w.Fail(key+":empty", "The request fails with %s for a response without body", engine.Show(x.err))
					return
				}
				outputsAre(w, x, nil, status, "no body")
			})
		}
		add("transport failure", func(w *world) {
			x := call(w, reply{refuse: true})
			if isNil(x.err) {
				w.Fail(key+":transport", "The failure of the transport isn't returned")
			}
		})
		for _, status := range []int{200, 400, 500} {
			status := status
			add(fmt.Sprintf("failure reading the body, status %d", status), func(w *world) {
				x := call(w, reply{status: int64(status), fail: true})
				if isNil(x.err) {
					w.Fail(key+":read", "The failure to read the body of a response with status %d isn't returned", status)
				}
				if status >= 400 || len(outs) > 0 {
					d, _ := document(w, outs, 1)
					if status >= 400 {
						d, _ = errorDoc()
					}
					x := call(w, reply{status: int64(status), fail: true, content: engine.JSONOf(d[:len(d)-1]).Text()})
					if isNil(x.err) {
						w.Fail(key+":read", "The failure to read the body of a response with status %d isn't returned", status)
					}
				}
			})
		}
		if len(outs) > 0 {
			add("truncated bodies", func(w *world) {
				d, _ := document(w, outs, 1)
				step := 1
				if len(d) > 60 && !c.Thorough {
					step = len(d) / 60
				}
				for n := 1; n < len(d); n += step {
					x := call(w, reply{status: int64(200), content: engine.JSONOf(d[:n]).Text()})
					if isNil(x.err) {
						w.Fail(key+":truncated", "The request doesn't fail with a truncated response\n  %s", showTokens(d[:n]))
						break
					}
				}
			})
			// Dates that can't be parsed:
			for _, p := range outs {
				p := p
				if p == body || leaf(p.Type).Name.Snake() != "date" {
					continue
				}
				add("incorrect date in "+p.Name.String(), func(w *world) {
					d := objectOf([][]jtok{append([]jtok{jkey(jsonName(&p.Base))}, wrap(p.Type, jtok{K: "str", V: engine.C("junk")})...)})
					x := call(w, reply{status: int64(200), content: engine.JSONOf(d).Text()})
					if isNil(x.err) {
						w.Fail(key+":date:"+kindOfType(p.Type), "The request doesn't fail with a response with an incorrect date\n  %s", showTokens(d))
					}
				})
			}
			// Values of other types:
			for _, p := range outs {
				p := p
				if p.Type.Scalar() && p.Type.Name.Snake() == "interface" {
					continue
				}
				add("other type for "+p.Name.String(), func(w *world) {
					wrong := []jtok{{K: "str", V: engine.C("junk")}}
					if p.Type.Scalar() {
						wrong = []jtok{{K: "["}, {K: "]"}}
					}
					d := wrong
					if body == nil {
						d = objectOf([][]jtok{append([]jtok{{K: "key", V: engine.C(jsonName(&p.Base))}}, wrong...)})
					}
					x := call(w, reply{status: int64(200), content: engine.JSONOf(d).Text()})
					if isNil(x.err) {
						w.Fail(key+":type:"+kindOfType(p.Type), "The request doesn't fail with a response of other type\n  %s", showTokens(d))
					}
				})
			}
		}
		for _, status := range []int{400, 401, 404, 409, 499, 500, 503, 599, 600, 999} {
			status := status
			add(fmt.Sprintf("error, status %d", status), func(w *world) {
				d, want := errorDoc()
				x := call(w, reply{status: int64(status), content: engine.JSONOf(d).Text()})
				i, ok := x.err.(engine.Iface)
				if !ok {
					w.Fail(key+":error", "The request doesn't fail when the status is %d", status)
					return
				}
				if _, n := named(i.T); n != "Error" || !strings.HasSuffix(i.T.String(), "errors.Error") {
					w.Fail(key+":error", "The error returned when the status is %d is of type %s", status, i.T)
					return
				}
				if got := engine.Show(w.Method(i.T, i.V, "Status")); got != fmt.Sprint(status) {
					w.Fail(key+":error:status", "The error has status %s but should be %d", got, status)
				}
				for g, v := range want {
					if got := engine.Show(w.Method(i.T, i.V, g)); got != engine.Show(engine.U("error."+v)) {
						w.Fail(key+":error:"+v, "%s of the error returns %s", g, got)
					}
				}
				if isNil(x.res) {
					w.Fail(key+":error:response", "There is no response when the status is %d", status)
					return
				}
				if got := engine.Show(w.Method(x.rt, x.res, "Status")); got != fmt.Sprint(status) {
					w.Fail(key+":error:status", "The response has status %s but should be %d", got, status)
				}
				if got := w.Method(x.rt, x.res, "Error"); engine.Show(got) != engine.Show(i.V) {
					w.Fail(key+":error:error", "The response doesn't have the error")
				}
			})
		}
		for n, text := range []string{`[]`, `"junk"`, `{"id":1}`, `{"id":"x"`, `junk`} {
			text := text
			status := []int{400, 500}[n%2]
			add(fmt.Sprintf("malformed error %s, status %d", text, status), func(w *world) {
				x := call(w, reply{status: int64(status), content: engine.C(text)})
				if isNil(x.err) {
					w.Fail(key+":malformed", "The request doesn't fail when the status is %d and the body is %s", status, text)
				}
			})
		}
		add("nil response", func(w *world) {
			f := w.method(w.requestType(r, m), "Send")
			rt := result(f, 0)
			if got := engine.Show(w.Method(rt, engine.Nil{}, "Status")); got != "0" {
				w.Fail(key+":nilstatus", "Status of a nil response is %s", got)
			}
			for _, p := range outs {
				g := w.method(rt, "Get"+getterName(p))
				t, ok := w.d.CallFn(g, engine.Nil{}).(engine.Tuple)
				if !ok || len(t) != 2 || w.d.Bool(t[1]) {
					w.Fail(key+":nilresponse", "%s of a nil response returns %s", g.Name(), engine.Show(t))
					continue
				}
				z := w.zeroTree(result(g, 0), p.Type)
				if got := w.Observe(result(g, 0), p.Type, w.Method(rt, engine.Nil{}, getterName(p))); got != z {
					w.Fail(key+":nilresponse", "%s of a nil response returns %s", p.Name, got)
				}
			}
		})
	})
}

// requestType returns the type of the requests of a method.
func (w *world) requestType(r route, m *spec.Method) types.Type {
	ct, cl, _ := w.navigate(r, w.transport(okReply))
	rt, _ := w.request(ct, cl, m)
	return rt
}
