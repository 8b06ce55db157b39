package main

// C24, C25, C26: the HTTP interface. The application is put together abstractly,
// which yields the routes with the functions that serve them; every one is
// analysed with the operations of the registry as events.

import (
	"encoding/json"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C24", "Effects of every function that serves a route, on every path: which responses are written, with which status, related to the results of binding, lookups and operations on that path; the body is related to what the namespace reports at the end", responseRules)
	register("C25", "Must-precede analysis on every path that reaches an operation of the registry: each part of the request is the bound one, bound successfully and proved valid by a test on the path, by its type or by the binding tag of its field; dereferences of bound pointers and of namespaces that may be absent", requestRules)
	register("C26", "The routes found by analysing how the application is put together, compared with the documented ones and with the operations that the functions serving them perform; conflicts of routes, path parameters; the fields of the structs bound and responded, against those documented", routeRules)
}

const ginCtx = "(*github.com/gin-gonic/gin.Context)."

type route struct {
	method, path string
	ev           *Event
	fn           *ssa.Function
	binds        []Val
	paths        []*Path
	n            int // events before the function runs
}

type httpCheck struct {
	c      *Ctx
	r      *registry
	g      *settings
	in     *Interp
	svc    Val // the registry given to the application
	ctx    *Sym
	routes []*route
	app    *Path
	engine Val
	svcT   types.Type
	shaped int
}

func newHTTP(c *Ctx) *httpCheck {
	h := &httpCheck{c: c}
	svc := c.named("domain", "NamespaceService")
	if svc == nil {
		return nil
	}
	in := NewInterp(c.w, Config{OpaqueIface: storages, Accesses: true, OpaqueFn: func(fn *ssa.Function) bool {
		recv := fn.Signature.Recv()
		return recv != nil && types.Identical(deptr(recv.Type()), svc) && fn.Object() != nil && fn.Object().Exported()
	}, After: h.after})
	h.in = in
	h.r = newRegistryIn(c, in)
	if h.r == nil {
		return nil
	}
	h.g = &settings{r: h.r}
	h.svcT = h.r.svc
	if !h.g.find() || !h.build() || !h.collect() {
		return nil
	}
	return h
}

// newApp only puts the application together.
func newApp(c *Ctx) *httpCheck {
	h := &httpCheck{c: c}
	svc := c.named("domain", "NamespaceService")
	if svc == nil {
		return nil
	}
	h.in = NewInterp(c.w, Config{OpaqueIface: storages})
	h.svcT = types.NewPointer(svc)
	if !h.build() {
		return nil
	}
	return h
}

// after: an operation of the registry may change the namespaces looked up before.
func (h *httpCheck) after(st *State, e *Event) {
	if !h.changing(e) || h.r == nil {
		return
	}
	for _, x := range st.events() {
		if x == e || x.Kind != "call" || len(x.Res) == 0 {
			continue
		}
		v, ok := x.Res[0].(*Sym)
		if !ok || v.T == nil || !types.Identical(v.T, h.r.iface) {
			continue
		}
		p := h.in.deref(v)
		if p == nil {
			continue
		}
		for _, l := range append([]leaf{h.r.name}, h.r.data...) {
			st.store(mkPtr(p.O, p.Path+l.path), h.in.fresh("changed."+l.path[1:], l.t), l.t)
		}
	}
}

// op is the operation of the registry that an event is.
func (h *httpCheck) op(e *Event) string {
	if e.Kind != "call" {
		return ""
	}
	if i := strings.LastIndexByte(e.Name, '.'); i > 0 && strings.HasSuffix(e.Name[:i], ".NamespaceService)") {
		return e.Name[i+1:]
	}
	return ""
}
func (h *httpCheck) changing(e *Event) bool {
	switch o := h.op(e); {
	case strings.HasPrefix(o, "Create"), strings.HasPrefix(o, "Update"), strings.HasPrefix(o, "Delete"), strings.HasPrefix(o, "Load"):
		return true
	}
	return false
}

// build puts the application together.
func (h *httpCheck) build() bool {
	c, in := h.c, h.in
	svcT := h.svcT
	var apps []*ssa.Function
	for _, fn := range c.w.Funcs {
		pk := fnPkg(fn)
		if pk == nil || !isModule(pk) || fn.Parent() != nil || fn.Synthetic != "" || fn.Blocks == nil || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Recv() != nil || fn.Signature.Results().Len() == 0 {
			continue
		}
		st, ok := deptr(fn.Signature.Results().At(0).Type()).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if strings.HasSuffix(st.Field(i).Type().String(), "net/http.Server") {
				apps = append(apps, fn)
				break
			}
		}
	}
	if len(apps) != 1 {
		c.missing("the function that makes the application")
		return false
	}
	fn := apps[0]
	ps := c.run(in, fn, in.args(fn, "app."), nil, nil)
	var ok []*Path
	for _, q := range ps {
		if q.OK() {
			ok = append(ok, q)
		}
	}
	if len(ok) != 1 {
		c.ob(false, "application", fn, token.NoPos, "paths", "the application is put together in %d ways", len(ok))
		return false
	}
	h.app = ok[0]
	// the registry given
	for i, p := range fn.Params {
		v := in.args(fn, "app.")[i]
		if types.Identical(p.Type(), svcT) {
			h.svc = v
		}
		if st, ok := deptr(p.Type()).Underlying().(*types.Struct); ok {
			for j := 0; j < st.NumFields(); j++ {
				if types.Identical(st.Field(j).Type(), svcT) {
					pt := in.deref(v)
					h.svc = in.NewState().load(mkPtr(pt.O, pt.Path+fieldPath(st, j)), svcT)
				}
			}
		}
	}
	if h.svc == nil {
		c.missing("the registry given to the application")
		return false
	}
	return true
}

// collect finds the routes and runs the functions that serve them.
func (h *httpCheck) collect() bool {
	c, in, fn := h.c, h.in, h.app.Fn
	prefix := map[string]string{} // of groups
	root := map[string]Val{}      // what was made that a group belongs to
	for _, e := range h.app.Ev {
		if e.Kind != "call" || !strings.Contains(e.Name, "gin.") {
			continue
		}
		m := e.Name[strings.LastIndexByte(e.Name, '.')+1:]
		on, top := h.group(e, prefix, root)
		switch m {
		case "Default", "New":
			if len(e.Res) == 1 {
				root[h.objKey(e.Res[0])] = e.Res[0]
			}
		case "Group":
			if s, ok := constStr(orNil(e.Args[0])); ok && len(e.Res) == 1 && len(e.Args) == 1 {
				prefix[h.objKey(e.Res[0])] = on + s
				root[h.objKey(e.Res[0])] = top
			} else {
				c.obPath(false, "routes", h.app, e.Pos, "group", "a group of routes isn't understood")
			}
		case "GET", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "HEAD", "Handle":
			args := e.Args
			method := m
			if m == "Handle" {
				s, ok := constStr(orNil(args[0]))
				if !ok {
					c.obPath(false, "routes", h.app, e.Pos, "method", "the method of a route isn't constant")
					continue
				}
				method, args = s, args[1:]
			}
			path, ok := constStr(orNil(args[0]))
			var cl *Closure
			if len(args) == 2 {
				cl, _ = unwrap(orNil(args[1])).(*Closure)
			}
			if !ok || cl == nil {
				c.obPath(false, "routes", h.app, e.Pos, method+" "+path, "the route isn't understood: it must have a constant path and one known function")
				continue
			}
			if h.engine == nil {
				h.engine = top
			}
			c.obPath(top != nil && same(top, h.engine), "routes", h.app, e.Pos, "router "+method+" "+path, "the route is registered on another router than the others, or one that isn't known")
			h.routes = append(h.routes, &route{method: method, path: on + path, ev: e, fn: cl.Fn, binds: cl.Binds})
		case "Any", "Match", "Static", "StaticFile", "StaticFS", "StaticFileFS", "NoRoute", "NoMethod":
			c.obPath(false, "routes", h.app, e.Pos, m, "the routes that %s registers aren't understood", m)
		}
	}
	if h.engine == nil {
		c.ob(false, "routes", fn, token.NoPos, "router", "no routes are registered on a known router")
		return false
	}
	// the functions that serve them
	for _, rt := range h.routes {
		if len(rt.fn.Params) != 1 && !(len(rt.fn.Params) == 2 && len(rt.binds) == 0) {
			c.ob(false, "routes", rt.fn, token.NoPos, rt.method+" "+rt.path, "the function serving a route isn't understood")
			continue
		}
		if h.ctx == nil {
			h.ctx = in.namedSym("ctx", rt.fn.Params[len(rt.fn.Params)-1].Type())
		}
		st := h.app.St.clone()
		k := st.trLen()
		rt.paths = c.run(in, rt.fn, []Val{h.ctx}, rt.binds, st)
		for _, q := range rt.paths {
			q.Ev = eventsSince(q.St.tr, k)
		}
	}
	c.count("routes", len(h.routes), 4)
	return true
}

func (h *httpCheck) objKey(v Val) string {
	if p := h.in.deref(unwrap(v)); p != nil {
		if p.O.Base != nil {
			return p.O.Base.Key()
		}
		return mkPtr(p.O, "").Key()
	}
	return unwrap(v).Key()
}
func (h *httpCheck) group(e *Event, prefix map[string]string, root map[string]Val) (string, Val) {
	if e.Obj == nil {
		return "", nil
	}
	k := h.objKey(e.Obj)
	return prefix[k], root[k]
}

// responses that write a status and a body, with the position of the status
var ginResponses = map[string]int{"AbortWithStatusJSON": 0, "AbortWithStatusPureJSON": 0, "IndentedJSON": 0, "JSON": 0, "PureJSON": 0, "SecureJSON": 0, "AsciiJSON": 0, "JSONP": 0,
	"String": 0, "XML": 0, "YAML": 0, "TOML": 0, "ProtoBuf": 0, "Data": 0, "HTML": 0, "Redirect": 0, "Render": 0,
	"AbortWithStatus": 0, "AbortWithError": 0, "Status": 0, "DataFromReader": 0}

// methods that don't respond
var ginReaders = map[string]bool{"ShouldBind": true, "ShouldBindJSON": true, "ShouldBindWith": true, "ShouldBindBodyWith": true, "ShouldBindQuery": true, "ShouldBindUri": true, "ShouldBindBodyWithJSON": true,
	"Param": true, "Query": true, "GetHeader": true, "DefaultQuery": true, "Header": true, "Set": true, "Get": true, "MustGet": true, "Error": true, "Abort": true,
	"IsAborted": true, "FullPath": true, "ClientIP": true, "ContentType": true, "GetString": true, "HandlerName": true, "GetQuery": true}

type response struct {
	e      *Event
	status int64
	body   Val
}

// respond lists the responses of a path.
func (h *httpCheck) respond(rt *route, q *Path) (out []response) {
	c := h.c
	q.each(func(e *Event, st *State, _ int, inner bool) {
		if e.Kind != "call" || !strings.HasPrefix(e.Name, ginCtx) {
			if (e.Kind == "call" || e.Kind == "callfn" || e.Kind == "go") && h.op(e) == "" {
				for _, a := range append(append([]Val{}, e.Args...), orNil(e.Obj)) {
					if a != nil && h.ctx != nil && same(unwrap(a), h.ctx) {
						c.obPath(false, "responses", q, e.Pos, "context passed on", "the request is handled by something that isn't known: %s", e.Name)
					}
				}
			}
			return
		}
		m := strings.TrimPrefix(e.Name, ginCtx)
		if i, ok := ginResponses[m]; ok {
			r := response{e: e, status: -1}
			if i < len(e.Args) {
				if n, ok := constInt(e.Args[i]); ok {
					r.status = n
				}
			}
			if i+1 < len(e.Args) {
				r.body = e.Args[i+1]
			}
			c.obPath(!inner, "responses", q, e.Pos, "loop", "responses are written repeatedly")
			out = append(out, r)
			return
		}
		if strings.HasPrefix(m, "Bind") || m == "MustBindWith" {
			if e.Err == nil || q.St.isNil(e.Err) != 1 {
				out = append(out, response{e: e, status: 400})
			}
			return
		}
		c.obPath(ginReaders[m], "responses", q, e.Pos, m, "whether %s writes a response isn't known", m)
	})
	return out
}

// bound: the event converts the request's body.
func bound(e *Event) bool {
	m := strings.TrimPrefix(e.Name, ginCtx)
	return e.Kind == "call" && m != e.Name && (strings.HasPrefix(m, "ShouldBind") || strings.HasPrefix(m, "Bind"))
}

// calls lists the operations of the registry on a path.
func (h *httpCheck) calls(q *Path) (out []*Event) {
	q.each(func(e *Event, _ *State, _ int, _ bool) {
		if h.op(e) != "" {
			out = append(out, e)
		}
	})
	return out
}

// param: the value is a parameter of the route's path.
func (h *httpCheck) param(q *Path, v Val) bool {
	for _, e := range q.Ev {
		if e.Kind == "call" && e.Name == ginCtx+"Param" && len(e.Res) == 1 && v != nil && same(e.Res[0], v) {
			return true
		}
	}
	return false
}

// touched is a change that the function serving a request makes to a namespace
// on its own, that is not by an operation of the registry.
func (h *httpCheck) touched(q *Path) (out *Event) {
	var nss []string
	for _, e := range h.calls(q) {
		if len(e.Res) > 0 {
			nss = append(nss, unwrap(e.Res[0]).Key())
		}
	}
	if len(nss) == 0 {
		return nil
	}
	of := func(v Val) bool {
		if p, ok := unwrap(orNil(v)).(*Ptr); ok {
			if p.O.Base == nil {
				return false
			}
			v = p.O.Base
			if _, list := typeOfVal(v).Underlying().(*types.Slice); list {
				return false // the order of what a list has
			}
		}
		if v == nil {
			return false
		}
		for _, k := range nss {
			if strings.Contains(v.Key(), k) {
				return true
			}
		}
		return false
	}
	q.each(func(e *Event, _ *State, _ int, _ bool) {
		switch e.Kind {
		case "store", "storewin", "mapupdate", "mapdelete", "copymem", "appendover", "write", "truncate":
			if of(e.Obj) {
				out = e
			}
		case "call":
			// something unknown that's given the namespace, or a storage of it
			if e.Obj != nil && h.op(e) == "" && !strings.HasPrefix(e.Name, "log.") && of(e.Obj) {
				out = e
			}
		}
	})
	return out
}

// untouched: nothing but the operations of the registry changes namespaces.
func (h *httpCheck) untouched() {
	n := 0
	for _, rt := range h.routes {
		name := rt.method + " " + normal(rt.path)
		for _, q := range rt.paths {
			n++
			if e := h.touched(q); e != nil {
				h.c.obPath(false, "saved", q, e.Pos, name, "%s changes a namespace without the operation that saves it", name)
			}
		}
	}
	h.c.count("paths of requests", n, 10)
}

// nameArg is the text of the name that an operation is given.
func (h *httpCheck) nameArg(q *Path, e *Event) Val {
	ls := leaves(h.r.nameType)
	for _, a := range e.Args {
		if g, ok := a.(*Agg); ok && g.N != nil && types.Identical(g.N, h.r.nameType) || types.Identical(typeOfVal(a), h.r.nameType) {
			return h.r.part(q.St, a, ls[0])
		}
	}
	return nil
}

func typeOfVal(v Val) types.Type {
	switch x := v.(type) {
	case *Sym:
		if x.T != nil {
			return x.T
		}
	case *App:
		if x.T != nil {
			return x.T
		}
	case *Iface:
		return x.Dyn
	}
	return types.Typ[types.Invalid]
}

// outcome of a path
type verdict struct {
	invalid bool   // the body can't be bound
	absent  bool   // the namespace named by the path is absent
	taken   bool   // another namespace has the name asked for
	failed  *Event // an operation that fails
	ignored *Event // something whose failure isn't looked at
	changed *Event // an operation that changes the registry and may have succeeded
	done    *Event // the main operation, successful
}

func (h *httpCheck) verdict(rt *route, q *Path) (v verdict) {
	for _, e := range q.Ev {
		if bound(e) && e.Err != nil {
			switch q.St.isNil(e.Err) {
			case -1:
				v.invalid = true
			case 0:
				v.ignored = e
			}
		}
	}
	for _, e := range h.calls(q) {
		if h.changing(e) && (e.Err == nil || q.St.isNil(e.Err) != -1) {
			v.changed = e
		}
		if e.Err != nil {
			switch q.St.isNil(e.Err) {
			case -1:
				v.failed = e
			case 0:
				v.ignored = e
			case 1:
				if h.op(e) == routeOps[rt.method+" "+normal(rt.path)] {
					v.done = e
				}
			}
			continue
		}
		if len(e.Res) == 1 && types.Identical(typeOfVal(e.Res[0]), h.r.iface) {
			mine := h.param(q, h.nameArg(q, e))
			switch q.St.isNil(e.Res[0]) {
			case 1:
				v.absent = v.absent || mine
			case -1:
				v.taken = v.taken || !mine
				if mine && h.op(e) == routeOps[rt.method+" "+normal(rt.path)] {
					v.done = e
				}
			}
			continue
		}
		if h.op(e) == routeOps[rt.method+" "+normal(rt.path)] {
			v.done = e
		}
	}
	return v
}

// routeOps: the operation that each documented route stands for.
var routeOps = map[string]string{
	"GET /api/v1/namespaces":      "GetNamespaces",
	"POST /api/v1/namespaces":     "CreateNamespace",
	"GET /api/v1/namespaces/*":    "GetNamespaceByName",
	"PUT /api/v1/namespaces/*":    "UpdateNamespace",
	"DELETE /api/v1/namespaces/*": "DeleteNamespace",
}

var paramRE = regexp.MustCompile(`:[^/]+|\{[^/}]+\}|\*[^/]+`)

// normal is a path with the names of its parameters removed.
func normal(path string) string { return paramRE.ReplaceAllString(path, "*") }

// ---- C24

func responseRules(c *Ctx) {
	h := newHTTP(c)
	if h == nil {
		return
	}
	succeeded, refused := 0, 0
	for _, rt := range h.routes {
		name := rt.method + " " + normal(rt.path)
		for _, q := range rt.paths {
			c.obPath(q.End == "", "one", q, token.NoPos, name+" end", "%s ends with %s", name, q.End)
			if q.End != "" {
				continue
			}
			rs := h.respond(rt, q)
			if !c.obPath(len(rs) == 1, "one", q, token.NoPos, name, "%s: %d responses are written", name, len(rs)) {
				continue
			}
			x := rs[0]
			s := x.status
			if !c.obPath(s >= 200 && s < 600, "status", q, x.e.Pos, name, "%s: the status isn't known", name) {
				continue
			}
			v := h.verdict(rt, q)
			if e := h.touched(q); e != nil {
				v.changed = e
			}
			success := s < 300
			switch {
			case success:
				succeeded++
				c.obPath(!v.invalid, "success", q, x.e.Pos, name+" invalid", "%s: success is reported although the request is invalid", name)
				c.obPath(!v.absent, "success", q, x.e.Pos, name+" absent", "%s: success is reported although the namespace is absent", name)
				c.obPath(v.failed == nil, "success", q, x.e.Pos, name+" failed", "%s: success is reported although an operation has failed", name)
				c.obPath(v.ignored == nil, "success", q, x.e.Pos, name+" ignored", "%s: success is reported without knowing whether an operation has succeeded", name)
				c.obPath(v.done != nil, "success", q, x.e.Pos, name+" done", "%s: success is reported although the operation hasn't been performed", name)
				h.body(rt, q, x, v)
			default:
				refused++
				c.obPath(v.done == nil || v.failed != nil || v.ignored != nil || v.absent || v.invalid, "failure", q, x.e.Pos, name, "%s: a failure is reported although the operation has succeeded", name)
				if s < 500 {
					c.obPath(v.changed == nil, "refused", q, x.e.Pos, name, "%s: the request is refused although it has changed the registry", name)
				}
				switch {
				case v.invalid:
					c.obPath(s == 400, "invalid", q, x.e.Pos, name, "%s: an invalid request gets %d", name, s)
				case v.absent:
					c.obPath(s == 404, "absent", q, x.e.Pos, name, "%s: a request for an absent namespace gets %d", name, s)
				case v.failed != nil, v.taken, v.ignored != nil:
					c.obPath(s >= 400, "failed", q, x.e.Pos, name, "%s: a failed operation gets %d", name, s)
				default:
					c.obPath(s == 400, "invalid", q, x.e.Pos, name, "%s: a request that no operation is performed for gets %d", name, s)
				}
			}
		}
	}
	c.count("successful paths", succeeded, 4)
	c.count("refused paths", refused, 8)
}

// body: a success is described by what the namespaces report at the end.
func (h *httpCheck) body(rt *route, q *Path, x response, v verdict) {
	c := h.c
	name := rt.method + " " + normal(rt.path)
	if v.done == nil || len(v.done.Res) == 0 || types.Identical(typeOfVal(v.done.Res[0]), tError) {
		return
	}
	res := v.done.Res[0]
	b, _ := x.body.(*Iface)
	if b == nil {
		c.obPath(false, "body", q, x.e.Pos, name, "%s: what is responded isn't known", name)
		return
	}
	if u, ok := b.Dyn.Underlying().(*types.Slice); ok {
		if to, ok := deptr(u.Elem()).Underlying().(*types.Struct); ok {
			h.g.responseList(q, res, to, b.V)
			return
		}
	}
	to, ok := deptr(b.Dyn).Underlying().(*types.Struct)
	if !ok {
		c.obPath(false, "body", q, x.e.Pos, name, "%s: what is responded isn't known", name)
		return
	}
	// the namespace that the operation returns, or the one looked up
	cands := []Val{res}
	for _, e := range h.calls(q) {
		if e != v.done && len(e.Res) == 1 && types.Identical(typeOfVal(e.Res[0]), h.r.iface) && h.param(q, h.nameArg(q, e)) {
			cands = append(cands, e.Res[0])
		}
	}
	good := false
	bad := ""
	for _, ns := range cands {
		ok := true
		n := 0
		for j := 0; j < to.NumFields(); j++ {
			f := to.Field(j)
			if h.g.get[f.Name()] == nil {
				continue
			}
			n++
			var got Val
			if p := h.in.deref(b.V); p != nil && b.V != nil {
				got = q.St.load(mkPtr(p.O, p.Path+fieldPath(to, j)), f.Type())
			} else {
				got = h.r.part(q.St, b.V, leaf{fieldPath(to, j), f.Type()})
			}
			want := h.g.report(q.St, ns, f.Name())
			if a, ok := want.(*Agg); ok && len(a.Fields) == 1 {
				want = a.Fields[0]
			}
			if got == nil || want == nil || !same(got, want) {
				ok = false
				bad = f.Name() + " (" + show(got) + " instead of " + show(want) + ")"
			}
		}
		good = good || ok && n > 0
	}
	c.obPath(good, "body", q, x.e.Pos, name, "%s: the %s responded isn't that of the namespace", name, bad)
}

// ---- C25

func requestRules(c *Ctx) {
	h := newHTTP(c)
	if h == nil {
		return
	}
	checked, derefs := 0, 0
	for _, rt := range h.routes {
		name := rt.method + " " + normal(rt.path)
		for _, q := range rt.paths {
			c.obPath(q.End == "", "missing value", q, token.NoPos, name+" end", "%s may end with %s", name, q.End)
			for _, e := range h.calls(q) {
				if h.checkCall(rt, q, e) {
					checked++
				}
			}
			derefs += h.derefs(rt, q)
		}
	}
	c.count("operations with requests", checked, 2)
	c.count("values that may be missing", derefs, 4)
}

// tagsOf finds the field of the bound struct that has the value, or points to it.
func (h *httpCheck) field(q *Path, v Val) (st *types.Struct, i int, ptr bool, ev *Event) {
	for _, e := range q.Ev {
		if !bound(e) || len(e.Args) == 0 {
			continue
		}
		a, ok := e.Args[0].(*Iface)
		if !ok {
			continue
		}
		s, ok := deptr(a.Dyn).Underlying().(*types.Struct)
		p := h.in.deref(a.V)
		if !ok || p == nil {
			continue
		}
		for _, x := range promotedFields(s) {
			f := q.St.load(mkPtr(p.O, p.Path+x.path), x.field().Type())
			if f != nil && same(f, v) {
				return x.st, x.i, false, e
			}
			if t, isPtr := orPtr(x.field().Type()); isPtr && f != nil {
				if d := h.in.deref(f); d != nil && q.St.isNil(f) != 1 && same(q.St.load(d, t), v) {
					return x.st, x.i, true, e
				}
			}
		}
	}
	return nil, 0, false, nil
}

// checkCall: what an operation is asked for is valid.
func (h *httpCheck) checkCall(rt *route, q *Path, e *Event) bool {
	c := h.c
	name := rt.method + " " + normal(rt.path) + " " + h.op(e)
	c.obPath(e.Obj != nil && same(unwrap(e.Obj), h.svc), "registry", q, e.Pos, name, "%s is called on another registry than the one the application is given", h.op(e))
	if s := h.nameArg(q, e); s != nil {
		ok, _ := safeOn(q.St, s)
		c.obPath(ok, "name", q, e.Pos, name, "%s is called with a name that hasn't been checked", h.op(e))
	}
	with := false
	if m := c.w.Prog.LookupMethod(h.svcT, nil, h.op(e)); m != nil {
		ps := m.Signature.Params()
		for i, a := range e.Args {
			if i >= ps.Len() {
				break
			}
			if t, isPtr := orPtr(ps.At(i).Type()); isPtr && isStruct(t) {
				c.obPath(q.St.isNil(a) == -1, "missing value", q, e.Pos, name+" "+ps.At(i).Name(), "%s may be called without a %s", h.op(e), ps.At(i).Name())
			}
		}
	}
	for _, a := range e.Args {
		p := h.in.deref(a)
		if p == nil || p.O.T == nil && typeOfVal(a) == types.Typ[types.Invalid] {
			continue
		}
		t := p.O.T
		if t == nil {
			t = deptr(typeOfVal(a))
		}
		st, ok := deptr(t).Underlying().(*types.Struct)
		if !ok || isModelStruct(t) {
			continue
		}
		with = true
		for j := 0; j < st.NumFields(); j++ {
			f := st.Field(j)
			v := q.St.load(mkPtr(p.O, p.Path+fieldPath(st, j)), f.Type())
			h.checkPart(rt, q, e, f, v, name)
		}
	}
	if h.changing(e) {
		for _, b := range q.Ev {
			if bound(b) {
				c.obPath(b.Err != nil && q.St.isNil(b.Err) == 1, "bound", q, b.Pos, name, "%s is called although the request may not have been bound", h.op(e))
			}
		}
	}
	return with
}

// checkPart: one part of a request is valid.
func (h *httpCheck) checkPart(rt *route, q *Path, e *Event, f *types.Var, v Val, name string) {
	c := h.c
	what := name + " " + f.Name()
	switch u := f.Type().Underlying().(type) {
	case *types.Struct:
		ls := leaves(f.Type())
		if len(ls) != 1 || !isString(ls[0].t) {
			c.obPath(false, "part", q, e.Pos, what, "%s isn't understood", f.Name())
			return
		}
		s := h.r.part(q.St, v, ls[0])
		if types.Identical(f.Type(), h.r.nameType) {
			ok := false
			if s != nil {
				ok, _ = safeOn(q.St, s)
			}
			c.obPath(ok, "name", q, e.Pos, what, "%s is called with a name that hasn't been checked", h.op(e))
			return
		}
		// one of the known types
		known := false
		for _, x := range h.constants(f.Type()) {
			if s != nil && (same(s, Str(x)) || q.St.decide(strEq(s, Str(x))) == 1) {
				known = true
			}
		}
		c.obPath(known, "type", q, e.Pos, what, "%s is called with a %s that isn't known", h.op(e), f.Name())
	case *types.Basic:
		switch {
		case u.Info()&types.IsFloat != 0:
			h.factor(q, e, v, what)
		case u.Info()&types.IsInteger != 0:
			h.limit(q, e, f, v, what)
		default:
			c.obPath(false, "part", q, e.Pos, what, "%s isn't understood", f.Name())
		}
	default:
		c.obPath(false, "part", q, e.Pos, what, "%s isn't understood", f.Name())
	}
}

// constants of strings declared in the package of a type
func (h *httpCheck) constants(t types.Type) (out []string) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return nil
	}
	sc := n.Obj().Pkg().Scope()
	for _, x := range sc.Names() {
		if k, ok := sc.Lookup(x).(*types.Const); ok && strings.HasPrefix(x, n.Obj().Name()) {
			if s, err := strconv.Unquote(k.Val().ExactString()); err == nil {
				out = append(out, s)
			}
		}
	}
	return out
}

// rule of a binding tag
type tagRules struct {
	required, omitempty bool
	lo, hi              *float64
	loOpen, hiOpen      bool
	other               []string
}

func parseTag(tag string) (t tagRules) {
	t0 := reflect.StructTag(tag).Get("binding")
	num := func(s string) *float64 {
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return nil
		}
		return &f
	}
	for _, p := range strings.Split(t0, ",") {
		k, v, _ := strings.Cut(p, "=")
		switch k {
		case "":
		case "required":
			t.required = true
		case "omitempty":
			t.omitempty = true
		case "min", "gte":
			t.lo = num(v)
		case "gt":
			t.lo, t.loOpen = num(v), true
		case "max", "lte":
			t.hi = num(v)
		case "lt":
			t.hi, t.hiOpen = num(v), true
		default:
			t.other = append(t.other, p)
		}
	}
	return t
}

// factor: present and within 0..1, both included.
func (h *httpCheck) factor(q *Path, e *Event, v Val, what string) {
	c := h.c
	st, j, ptr, b := h.field(q, v)
	if st == nil {
		c.obPath(false, "factor", q, e.Pos, what, "the dislike factor isn't the one of the request")
		return
	}
	t := parseTag(st.Tag(j))
	ok := b.Err != nil && q.St.isNil(b.Err) == 1
	c.obPath(ok, "factor", q, e.Pos, what+" bound", "the dislike factor is used although the request may not have been bound")
	c.obPath(t.required && !t.omitempty, "factor", q, e.Pos, what+" required", "a request without dislike factor reaches the registry")
	c.obPath(ptr, "factor", q, e.Pos, what+" zero", "a dislike factor of 0 can't be told from a missing one")
	inside := func(p *float64, open bool, x float64) bool { return p != nil && !open && *p == x }
	c.obPath(inside(t.lo, t.loOpen, 0), "factor", q, e.Pos, what+" minimum", "dislike factors aren't limited to those from 0, included")
	c.obPath(inside(t.hi, t.hiOpen, 1), "factor", q, e.Pos, what+" maximum", "dislike factors aren't limited to those to 1, included")
	c.obPath(len(t.other) == 0, "factor", q, e.Pos, what+" other", "the rule %v for dislike factors isn't understood", t.other)
}

// limit: not negative, and it may be omitted.
func (h *httpCheck) limit(q *Path, e *Event, f *types.Var, v Val, what string) {
	c := h.c
	st, j, ptr, _ := h.field(q, v)
	if st == nil {
		// a default that replaces an omitted one, or a conversion
		n, ok := constInt(v)
		if ok && n >= 0 {
			return
		}
		c.obPath(false, "limit", q, e.Pos, what, "the limit isn't the one of the request")
		return
	}
	t := parseTag(st.Tag(j))
	ft := st.Field(j).Type()
	if ptr {
		ft, _ = orPtr(ft)
	}
	u, _ := ft.Underlying().(*types.Basic)
	nonneg := u != nil && u.Info()&types.IsUnsigned != 0 || t.lo != nil && (*t.lo >= 0) || q.St.decide(le0(neg(v))) == 1
	if u != nil && u.Info()&types.IsInteger != 0 {
		sizes := types.SizesFor("gc", "amd64")
		c.obPath(sizes.Sizeof(u) >= sizes.Sizeof(f.Type()), "limit", q, e.Pos, what+" large", "limits that the registry accepts don't fit into the request's field, %s", u)
	}
	c.obPath(nonneg, "limit", q, e.Pos, what+" negative", "a negative limit reaches the registry")
	c.obPath(!t.required && (t.omitempty || t.lo == nil || *t.lo <= 0 && !t.loOpen), "limit", q, e.Pos, what+" omitted", "a request without limit is refused")
}

func neg(v Val) Val { return sub(Int(0), v) }

// derefs: values that may be missing are used only when they're present.
func (h *httpCheck) derefs(rt *route, q *Path) int {
	c := h.c
	n := 0
	type may struct {
		v    Val
		what string
		ok   bool
	}
	var all []may
	for _, e := range q.Ev {
		if bound(e) && len(e.Args) > 0 {
			a, ok := e.Args[0].(*Iface)
			if !ok {
				continue
			}
			s, ok := deptr(a.Dyn).Underlying().(*types.Struct)
			p := h.in.deref(a.V)
			if !ok || p == nil {
				continue
			}
			for j := 0; j < s.NumFields(); j++ {
				if _, isPtr := orPtr(s.Field(j).Type()); isPtr {
					f := q.St.load(mkPtr(p.O, p.Path+fieldPath(s, j)), s.Field(j).Type())
					t := parseTag(s.Tag(j))
					all = append(all, may{f, s.Field(j).Name(), t.required && !t.omitempty && e.Err != nil && q.St.isNil(e.Err) == 1})
				}
			}
		}
	}
	for _, e := range h.calls(q) {
		if len(e.Res) > 0 && types.Identical(typeOfVal(e.Res[0]), h.r.iface) {
			all = append(all, may{e.Res[0], "result of " + h.op(e), e.Err != nil && q.St.isNil(e.Err) == 1})
		}
	}
	q.each(func(e *Event, st *State, _ int, _ bool) {
		if e.Kind == "nilderef" || e.Kind == "panic" {
			c.obPath(false, "missing value", q, e.Pos, rt.method+" "+normal(rt.path)+" "+e.Kind, "a missing value is used")
		}
		p, _ := unwrap(orNil(e.Obj)).(*Ptr)
		if p == nil || e.Kind != "load" && e.Kind != "store" && e.Kind != "rlock" && e.Kind != "lock" {
			return
		}
		for _, m := range all {
			if m.v == nil || p.O.Base == nil || !same(p.O.Base, m.v) {
				continue
			}
			n++
			c.obPath(m.ok && st.isNil(m.v) != 1 || st.isNil(m.v) == -1, "missing value", q, e.Pos, rt.method+" "+normal(rt.path)+" "+m.what, "the %s may be missing when it's used", m.what)
		}
	})
	return n
}

// ---- C26

func routeRules(c *Ctx) {
	h := newHTTP(c)
	if h == nil {
		return
	}
	// documented routes
	docs, shape := h.documented()
	c.count("documented routes", len(docs), 4)
	have := map[string]*route{}
	for _, rt := range h.routes {
		k := rt.method + " " + normal(rt.path)
		if o := have[k]; o != nil {
			c.obPath(false, "conflict", h.app, rt.ev.Pos, k, "%s is registered twice", k)
		}
		have[k] = rt
		for _, o := range h.routes {
			if o.method == rt.method && conflict(o.path, rt.path) {
				c.obPath(false, "conflict", h.app, rt.ev.Pos, k+" "+o.path, "the routes %s and %s conflict", o.path, rt.path)
			}
		}
	}
	for _, d := range docs {
		rt := have[d]
		if !c.ob(rt != nil, "documented", h.app.Fn, token.NoPos, d, "%s is documented, but it isn't served", d) {
			continue
		}
		want := routeOps[d]
		if !c.ob(want != "", "operation", rt.fn, token.NoPos, d, "what %s stands for isn't known", d) {
			continue
		}
		performed := 0
		for _, q := range rt.paths {
			ops := h.calls(q)
			for _, e := range ops {
				o := h.op(e)
				if o == want {
					performed++
					c.obPath(e.Obj != nil && same(unwrap(e.Obj), h.svc), "operation", q, e.Pos, d+" registry", "%s: %s is called on another registry than the one the application is given", d, o)
				}
				if h.changing(e) {
					c.obPath(o == want, "operation", q, e.Pos, d+" "+o, "%s performs %s", d, o)
				}
			}
			// what is named by the path is what is operated on
			if strings.Contains(d, "*") {
				for _, e := range ops {
					if h.op(e) == want {
						c.obPath(h.param(q, h.nameArg(q, e)), "operation", q, e.Pos, d+" name", "%s: %s isn't called with the name given by the path", d, want)
					}
				}
			}
			for _, rs := range h.respond(rt, q) {
				if rs.status >= 200 && rs.status < 300 {
					found := false
					for _, e := range ops {
						found = found || h.op(e) == want
					}
					c.obPath(found, "operation", q, rs.e.Pos, d+" success", "%s succeeds without %s", d, want)
				}
			}
			h.shapes(d, q, shape[d])
			for _, e := range q.Ev {
				if e.Kind == "call" && e.Name == ginCtx+"Param" {
					s, ok := constStr(orNil(e.Args[0]))
					declared := false
					for _, seg := range strings.Split(rt.path, "/") {
						declared = declared || ok && (seg == ":"+s || seg == "*"+s)
					}
					c.obPath(declared, "parameter", q, e.Pos, d+" "+s, "%s: the parameter %q isn't one of the route's", d, s)
				}
			}
		}
		c.ob(performed > 0, "operation", rt.fn, token.NoPos, d, "%s doesn't perform %s", d, want)
	}
	for _, rt := range h.routes {
		k := rt.method + " " + normal(rt.path)
		found := false
		for _, d := range docs {
			found = found || d == k
		}
		c.ob(found, "documented", rt.fn, token.NoPos, "route "+k, "%s is served, but it isn't documented", k)
	}
	h.served()
	c.count("requests and responses with documented fields", h.shaped, 5)
}

// documented lists the routes of the documentation.
func (h *httpCheck) documented() (out []string, shapes map[string]docShape) {
	c := h.c
	shapes = map[string]docShape{}
	for _, p := range c.w.Packages() {
		if p.Pkg == nil || !isModule(p.Pkg) || p.Pkg.Name() != "docs" {
			continue
		}
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			k, ok := sc.Lookup(n).(*types.Const)
			if !ok {
				continue
			}
			text := constText(k)
			if !strings.Contains(text, `"swagger"`) {
				continue
			}
			text = regexp.MustCompile(`"\{\{[^}]*\}\}"|\{\{[^}]*\}\}`).ReplaceAllString(text, `""`)
			var doc struct {
				Paths       map[string]map[string]docRoute `json:"paths"`
				Definitions map[string]struct {
					Properties map[string]json.RawMessage `json:"properties"`
				} `json:"definitions"`
			}
			if err := json.Unmarshal([]byte(text), &doc); err != nil {
				c.ob(false, "documented", nil, k.Pos(), n, "the documentation can't be read: %v", err)
				continue
			}
			fields := func(x docSchema) (out []string) {
				if x.Ref == "" && x.Items != nil {
					x = *x.Items
				}
				for p := range doc.Definitions[strings.TrimPrefix(x.Ref, "#/definitions/")].Properties {
					out = append(out, p)
				}
				sort.Strings(out)
				return out
			}
			for path, ms := range doc.Paths {
				for m, r := range ms {
					d := strings.ToUpper(m) + " " + normal(path)
					out = append(out, d)
					var x docShape
					for _, p := range r.Parameters {
						if p.In == "body" {
							x.request = fields(p.Schema)
						}
					}
					for code, p := range r.Responses {
						if strings.HasPrefix(code, "2") {
							x.response = fields(p.Schema)
						}
					}
					shapes[d] = x
				}
			}
		}
	}
	sort.Strings(out)
	return out, shapes
}

type docSchema struct {
	Ref   string     `json:"$ref"`
	Items *docSchema `json:"items"`
}

type docRoute struct {
	Parameters []struct {
		In     string    `json:"in"`
		Schema docSchema `json:"schema"`
	} `json:"parameters"`
	Responses map[string]struct {
		Schema docSchema `json:"schema"`
	} `json:"responses"`
}

// docShape: the fields documented for a route.
type docShape struct {
	request, response []string
}

// jsonFields are the names under which the fields of a struct are read and
// written.
func jsonFields(t types.Type) (out []string, ok bool) {
	st, ok := deptr(t).Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		name, _, _ := strings.Cut(reflect.StructTag(st.Tag(i)).Get("json"), ",")
		if f.Embedded() && name == "" {
			in, ok := jsonFields(f.Type())
			if !ok {
				return nil, false
			}
			out = append(out, in...)
			continue
		}
		if !f.Exported() || name == "-" {
			continue
		}
		if name == "" {
			name = f.Name()
		}
		out = append(out, name)
	}
	sort.Strings(out)
	return out, true
}

// shapes: what is read and what is responded has the documented fields.
func (h *httpCheck) shapes(d string, q *Path, x docShape) {
	c := h.c
	for _, e := range q.Ev {
		if !bound(e) || len(e.Args) == 0 || len(x.request) == 0 {
			continue
		}
		a, ok := e.Args[0].(*Iface)
		if !ok {
			continue
		}
		have, ok := jsonFields(a.Dyn)
		c.obPath(ok && slices.EqualFunc(have, x.request, strings.EqualFold), "fields", q, e.Pos, d+" request", "%s reads the fields %v, but %v are documented", d, have, x.request)
		h.shaped++
	}
	for _, e := range q.Ev {
		m := strings.TrimPrefix(e.Name, ginCtx)
		i, ok := ginResponses[m]
		if e.Kind != "call" || m == e.Name || !ok || i+1 >= len(e.Args) || len(x.response) == 0 {
			continue
		}
		if n, ok := constInt(e.Args[i]); !ok || n < 200 || n >= 300 {
			continue
		}
		b, ok := e.Args[i+1].(*Iface)
		if !ok {
			continue
		}
		t := b.Dyn
		sl, isList := deptr(t).Underlying().(*types.Slice)
		if isList {
			t = sl.Elem()
		}
		have, ok := jsonFields(t)
		c.obPath(ok && slices.Equal(have, x.response), "fields", q, e.Pos, d+" response", "%s responds the fields %v, but %v are documented", d, have, x.response)
		h.shaped++
	}
}

// conflict: the router doesn't accept both paths.
func conflict(a, b string) bool {
	if a == b {
		return false
	}
	x, y := strings.Split(a, "/"), strings.Split(b, "/")
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] == y[i] {
			continue
		}
		wx, wy := strings.HasPrefix(x[i], ":"), strings.HasPrefix(y[i], ":")
		if strings.HasPrefix(x[i], "*") || strings.HasPrefix(y[i], "*") {
			return true
		}
		return wx && wy // wildcards of different names at the same place
	}
	return false
}

// served: the router with the routes is what the server serves.
func (h *httpCheck) served() {
	c := h.c
	n := 0
	ret := h.in.deref(h.app.Rets[0])
	st, _ := deptr(h.app.Fn.Signature.Results().At(0).Type()).Underlying().(*types.Struct)
	for i := 0; ret != nil && st != nil && i < st.NumFields(); i++ {
		if !strings.HasSuffix(st.Field(i).Type().String(), "net/http.Server") {
			continue
		}
		v := h.app.St.load(mkPtr(ret.O, ret.Path+fieldPath(st, i)), st.Field(i).Type())
		p := mkPtr(ret.O, ret.Path+fieldPath(st, i))
		if _, isPtr := st.Field(i).Type().Underlying().(*types.Pointer); isPtr {
			p = h.in.deref(v)
		}
		sv, _ := deptr(st.Field(i).Type()).Underlying().(*types.Struct)
		for j := 0; p != nil && sv != nil && j < sv.NumFields(); j++ {
			if sv.Field(j).Name() == "Handler" {
				n++
				got := h.app.St.load(mkPtr(p.O, p.Path+fieldPath(sv, j)), sv.Field(j).Type())
				c.obPath(got != nil && same(unwrap(got), unwrap(h.engine)), "served", h.app, token.NoPos, "Handler", "the server doesn't serve the router that the routes are registered on")
			}
		}
	}
	c.count("servers", n, 1)
}

func constText(k *types.Const) string {
	if k.Val().Kind() != constant.String {
		return ""
	}
	return constant.StringVal(k.Val())
}

func isStruct(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }
