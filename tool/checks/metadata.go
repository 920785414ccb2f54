package checks

import (
	"fmt"
	"go/types"
	"strings"

	"verif/tool/engine"
	"verif/tool/spec"
)

// metadataTasks adds scenarios for the metadata of each version.
func (c *Ctx) metadataTasks(f func(s *shape, v *spec.Version, pkg string, add func(label string, f func(w *world)))) {
	var tasks []task
	for _, s := range c.selected() {
		s := s
		for _, sv := range s.Spec.Services {
			for _, v := range sv.Versions {
				pkg := versionPath(s, v)
				f(s, v, pkg, func(label string, g func(w *world)) {
					tasks = append(tasks, task{s: s, name: pkg + " metadata: " + label, f: g})
				})
			}
		}
	}
	c.scenarios(tasks)
}

func jkey(k string) jtok { return jtok{K: "key", V: engine.C(k)} }

// metadataIs checks the content of the metadata.
func (w *world) metadataIs(label, pkg string, v value, want value) {
	t := types.NewPointer(w.typ(pkg, "Metadata"))
	r, ok := w.Method(t, v, "GetServerVersion").(engine.Tuple)
	if !ok || len(r) != 2 {
		w.Skip("unexpected signature of GetServerVersion")
	}
	text := `""`
	if want != nil {
		text = engine.Show(want)
	}
	if got := w.d.Bool(r[1]); got != (want != nil) {
		w.Fail(label+":present", "The metadata says that the presence of the server version is %v", got)
	}
	if got, plain := engine.Show(r[0]), engine.Show(w.Method(t, v, "ServerVersion")); got != text || plain != text {
		w.Fail(label+":value", "The accessors of the server version return %s and %s but should return %s", got, plain, text)
	}
}

// metadataJSON checks the JSON support of the metadata.
func (c *Ctx) metadataJSON() {
	c.metadataTasks(func(s *shape, v *spec.Version, pkg string, add func(string, func(w *world))) {
		for n, x := range []value{nil, engine.C(""), engine.U("version")} {
			n, x := n, x
			add(fmt.Sprintf("JSON %d", n), func(w *world) {
				d := objectOf(nil)
				if x != nil {
					d = objectOf([][]jtok{{jkey("server_version"), {K: "str", V: x}}})
				}
				for _, src := range sources {
					o, ok := w.unmarshal("metadata", pkg, "UnmarshalMetadata", src, d)
					if !ok {
						return
					}
					w.metadataIs("metadata", pkg, o, x)
					got := w.marshal("metadata", pkg, "MarshalMetadata", o)
					if a, b := showTokens(got), showTokens(d); a != b {
						w.Fail("metadata:write", "MarshalMetadata writes %s but should write %s", a, b)
					}
				}
				if z, ok := disturb(d, n); ok {
					if o, ok := w.unmarshal("metadata", pkg, "UnmarshalMetadata", "string", z); ok {
						w.metadataIs("metadata:disturbed", pkg, o, x)
					}
				}
				w.metadataIs("metadata:nil", pkg, engine.Nil{}, nil)
			})
		}
	})
}

// rootGet tells if the root of the version has its own get method.
func rootGet(v *spec.Version) bool {
	for _, r := range v.Resources {
		for _, m := range r.Methods {
			if r.Name.String() == "root" && goName(&m.Base) == "Get" {
				return true
			}
		}
	}
	return false
}

// metadataRequests checks the requests for the metadata.
func (c *Ctx) metadataRequests() {
	c.metadataTasks(func(s *shape, v *spec.Version, pkg string, add func(string, func(w *world))) {
		if rootGet(v) {
			return
		}
		for _, context := range []bool{false, true} {
			context := context
			add(fmt.Sprintf("request, context %v", context), func(w *world) {
				tr := w.transport(func(n int) reply {
					return reply{status: int64(200), content: engine.JSONOf(objectOf(nil)).Text()}
				})
				ct, cl, path := w.navigate(route{v: v}, tr)
				f := w.method(ct, "Get")
				rt, r := result(f, 0), w.d.CallFn(f, cl)
				str := func(x string) value { return engine.Iface{T: types.Typ[types.String], V: engine.U(x)} }
				r = w.Method(rt, r, "Parameter", engine.C("aa"), str("p1"))
				r = w.Method(rt, r, "Parameter", engine.C("aa"), str("p2"))
				r = w.Method(rt, r, "Header", engine.C("Bb"), str("h1"))
				r = w.Method(rt, r, "Header", engine.C("Bb"), str("h2"))
				for i := 0; i < 2; i++ {
					w.send(rt, r, context)
				}
				l := w.requests(tr)
				if len(l) != 2 {
					w.Fail("metadata:count", "There were %d requests but should be 2", len(l))
					return
				}
				for _, x := range l {
					w.compare("metadata", x, expected{
						method: "GET", path: path, bodies: []string{""},
						query:  []string{"aa=" + engine.U("p1").ID(), "aa=" + engine.U("p2").ID()},
						header: []string{`"Bb"=` + engine.Show(engine.U("h1")), `"Bb"=` + engine.Show(engine.U("h2"))},
					})
				}
			})
		}
	})
}

// metadataResponses checks the responses for the metadata.
func (c *Ctx) metadataResponses() {
	c.metadataTasks(func(s *shape, v *spec.Version, pkg string, add func(string, func(w *world))) {
		if rootGet(v) {
			return
		}
		try := func(label string, rp reply, f func(w *world, rt value, res, err value, get func(string) value)) {
			add(label, func(w *world) {
				tr := w.transport(func(n int) reply { return rp })
				ct, cl, _ := w.navigate(route{v: v}, tr)
				g := w.method(ct, "Get")
				t, res, err := w.send(result(g, 0), w.d.CallFn(g, cl), true)
				l := w.requests(tr)
				if len(l) != 1 {
					w.Fail("metadata:count", "There were %d requests but should be 1", len(l))
					return
				}
				if !rp.refuse && !w.closed(l[0].response) {
					w.Fail("metadata:close", "The body of the response isn't closed (%s)", label)
				}
				f(w, nil, res, err, func(m string) value { return w.Method(t, res, m) })
			})
		}
		x := engine.U("version")
		d := objectOf([][]jtok{{jkey("server_version"), {K: "str", V: x}}})
		z, _ := disturb(d, 1)
		for i, doc := range [][]jtok{d, z} {
			try(fmt.Sprintf("response %d", i), reply{status: int64(200 + i), content: engine.JSONOf(doc).Text()}, func(w *world, _, res, err value, get func(string) value) {
				if !isNil(err) {
					w.Fail("metadata:fails", "The request fails with %s", engine.Show(err))
					return
				}
				if got := engine.Show(get("Status")); got != fmt.Sprint(200+i) {
					w.Fail("metadata:status", "The status is %s", got)
				}
				w.metadataIs("metadata", pkg, get("Body"), x)
			})
		}
		fails := func(label string, rp reply) {
			try(label, rp, func(w *world, _, res, err value, get func(string) value) {
				if isNil(err) {
					w.Fail("metadata:"+label, "The request doesn't fail (%s)", label)
				}
			})
		}
		fails("transport failure", reply{refuse: true})
		fails("body failure", reply{status: int64(200), content: engine.Str{}, fail: true})
		for n := 1; n < len(d); n++ {
			fails(fmt.Sprintf("truncated %d", n), reply{status: int64(200), content: engine.JSONOf(d[:n]).Text()})
		}
		fails("other type", reply{status: int64(200), content: engine.JSONOf(objectOf([][]jtok{{jkey("server_version"), {K: "["}, {K: "]"}}})).Text()})
		for _, status := range []int{400, 404, 500, 599} {
			status := status
			e, _ := errorDoc()
			try(fmt.Sprintf("status %d", status), reply{status: int64(status), content: engine.JSONOf(e).Text()}, func(w *world, _, res, err value, get func(string) value) {
				i, ok := err.(engine.Iface)
				if !ok || !strings.HasSuffix(i.T.String(), "errors.Error") {
					w.Fail("metadata:error", "The request with status %d returns %s", status, engine.Show(err))
					return
				}
				if got := engine.Show(w.Method(i.T, i.V, "Status")); got != fmt.Sprint(status) {
					w.Fail("metadata:error:status", "The status of the error is %s but should be %d", got, status)
				}
				if got := engine.Show(get("Status")); got != fmt.Sprint(status) {
					w.Fail("metadata:status", "The status is %s", got)
				}
			})
		}
	})
}
