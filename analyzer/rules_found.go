package main

// What is registered is found, and nothing is refused without a cause.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C44", "On every path of the operations of the registry, searches of the list being summarised: looking a namespace up returns one whose name has been found equal to the one asked for, or nothing after a search of the whole list has found every name different; listing returns exactly the elements of the list; an operation fails only on paths where a search of the whole list has found the namespace absent, another namespace has been found to have the name, the type is none of those that succeed, or a call has failed. On every path of the handlers, an error status is sent only if binding has failed, a value has been found invalid, the namespace absent, the name to belong to another namespace than the one changed, or the operation has failed.", foundRules)
}

func foundRules(c *Ctx) {
	r := newRegistry(c)
	if r == nil {
		return
	}
	f := &finding{r, c}
	lookups, lists := 0, 0
	for _, fn := range r.operations() {
		res := fn.Signature.Results()
		if res.Len() != 1 {
			continue
		}
		u, isList := res.At(0).Type().Underlying().(*types.Slice)
		switch {
		case types.Identical(res.At(0).Type(), r.iface) && r.nameParam(fn) != nil:
			lookups++
			f.lookup(fn)
		case isList && types.Identical(u.Elem(), r.iface) && fn.Signature.Params().Len() == 0:
			lists++
			f.list(fn)
		}
	}
	c.count("lookups", lookups, 1)
	c.count("lists", lists, 1)
	n := 0
	for _, name := range []string{"CreateNamespace", "UpdateNamespace", "DeleteNamespace"} {
		n += f.refusals(name)
	}
	c.count("refusals", n, 6)
	f.responses()
}

type finding struct {
	r *registry
	c *Ctx
}

// absent: a search of the whole list has found no namespace of that name.
func (f *finding) absent(q *Path, name Val) bool {
	for _, e := range q.Ev {
		if e.Loop != nil && name != nil && f.r.denies(q, e.Loop, name) {
			return true
		}
	}
	return false
}

func (f *finding) lookup(fn *ssa.Function) {
	c, r := f.c, f.r
	_, ps := r.op(fn.Name())
	found, not := 0, 0
	name := r.nameParam(fn)
	for _, q := range ps {
		if !c.obPath(q.End == "", "lookup", q, token.NoPos, "end", "%s may end with %s", fn.Name(), q.End) {
			continue
		}
		v := q.Rets[0]
		p := r.in.deref(v)
		if q.St.isNil(v) == 1 || p == nil {
			not++
			c.obPath(f.absent(q, name), "lookup", q, token.NoPos, "nothing", "%s returns nothing though no search of the whole list has found the name absent", fn.Name())
			continue
		}
		found++
		_, member := r.indexOf(orNil(p.O.Base))
		c.obPath(p.O.Base != nil && member && r.isNamed(q, p.O, name), "lookup", q, token.NoPos, "found", "%s returns %s, which isn't known to be the namespace of that name", fn.Name(), show(v))
	}
	c.count("ways of finding by "+fn.Name(), found, 1)
	c.count("ways of not finding by "+fn.Name(), not, 1)
}

func (f *finding) list(fn *ssa.Function) {
	c, r := f.c, f.r
	_, ps := r.op(fn.Name())
	for _, q := range ps {
		if !c.obPath(q.End == "", "list", q, token.NoPos, "end", "%s may end with %s", fn.Name(), q.End) {
			continue
		}
		m := r.sum(r.sum(newSum(), q.St, q.Rets[0], 1), r.in.NewState(), r.initList, -1)
		c.obPath(m.none(), "list", q, token.NoPos, "all", "%s doesn't return exactly the namespaces registered (%s)", fn.Name(), m)
	}
}

// refusals: every failure of the operation has a cause.
func (f *finding) refusals(op string) int {
	c, r := f.c, f.r
	fn, ps := r.op(op)
	if fn == nil {
		return 0
	}
	name := r.nameParam(fn)
	// the parameter with the requested name and type
	req := map[string]Val{}
	g := &settings{r: r}
	if !g.find() {
		return 0
	}
	if st, v := g.request(fn, r.args(fn)); st != nil {
		for _, x := range []string{"Name", "Type"} {
			if w, t := g.field(st, v, x); w != nil {
				for _, l := range leaves(t) {
					req[x] = r.part(r.in.NewState(), w, l)
				}
			}
		}
	}
	types := map[string]Val{}
	for _, q := range ps {
		if q.End == "" && !fails(q) && req["Type"] != nil {
			for _, ft := range q.St.factList() {
				if x := opposite(ft.C, req["Type"]); ft.Truth && x != nil {
					types[x.Key()] = x
				}
			}
		}
	}
	n := 0
	for _, q := range ps {
		if q.End != "" || !fails(q) {
			continue
		}
		n++
		ok := q.ioFailed() || name != nil && f.absent(q, name) || f.taken(q, name, req["Name"])
		if !ok && len(types) > 0 {
			ok = true
			for _, x := range types {
				ok = ok && q.St.decide(textEq(x, req["Type"])) == -1
			}
		}
		if !ok {
			q.each(func(e *Event, st *State, _ int, _ bool) {
				ok = ok || e.Err != nil && st.isNil(e.Err) == -1 || e.Kind == "recv" && len(e.Res) > 0 && st.isNil(e.Res[0]) == -1
			})
		}
		c.obPath(ok, "refused", q, token.NoPos, op, "%s fails though nothing has failed, the namespace isn't known to be absent and the name isn't known to belong to another namespace", op)
	}
	return n
}

func textEq(a, b Val) Val {
	if a.Key() > b.Key() {
		a, b = b, a
	}
	return app("str==", a, b)
}

// opposite is what the condition compares the value with.
func opposite(c, v Val) Val {
	a, ok := isApp(c, "str==")
	switch {
	case !ok:
	case same(a.Args[0], v):
		return a.Args[1]
	case same(a.Args[1], v):
		return a.Args[0]
	}
	return nil
}

// taken: some namespace, other than the one named, is known to have the name asked for.
func (f *finding) taken(q *Path, named, want Val) bool {
	if want == nil {
		return false
	}
	r := f.r
	eq := equalities(q.St)
	for _, o := range r.members(q) {
		if !r.isNamed(q, o, want) && !eq(r.initial(o, r.name), want) {
			continue
		}
		if named == nil {
			return true
		}
		// it isn't the one to be changed
		for _, ft := range q.St.factList() {
			x := opposite(ft.C, want)
			if ft.Truth || x == nil {
				continue
			}
			if same(x, named) || eq(x, named) {
				return true
			}
			for _, m := range r.members(q) {
				if r.isNamed(q, m, named) && same(x, r.initial(m, r.name)) {
					return true
				}
			}
		}
		at, _ := r.indexOf(o.Base)
		for _, m := range r.members(q) {
			if i, ok := r.indexOf(m.Base); ok && r.isNamed(q, m, named) && q.St.decide(eqInt(at, i)) == -1 {
				return true
			}
		}
	}
	return false
}

// responses: no request is refused without a cause.
func (f *finding) responses() {
	c := f.c
	h := newHTTP(c)
	if h == nil {
		return
	}
	n := 0
	for _, rt := range h.routes {
		name := rt.method + " " + normal(rt.path)
		for _, q := range rt.paths {
			if q.End != "" {
				continue
			}
			for _, x := range h.respond(rt, q) {
				if x.status < 400 {
					continue
				}
				n++
				v := h.verdict(rt, q)
				ok := v.invalid || v.absent || v.failed != nil || len(h.refusedFields(q)) > 0 || h.badParam(q) || v.taken && h.takenByAnother(q)
				c.obPath(ok, "response", q, x.e.Pos, name, "%s: the request is refused with %d though nothing is known to be wrong with it", name, x.status)
			}
		}
	}
	c.count("refusing responses", n, 8)
}

// badParam: the name in the path has been found invalid.
func (h *httpCheck) badParam(q *Path) bool {
	bad := false
	for _, v := range misspelled(q.St) {
		bad = bad || h.param(q, v)
	}
	for _, ft := range q.St.factList() {
		if ft.Truth {
			continue
		}
		visit(ft.C, func(w Val) {
			if isString(typeOfVal(w)) && h.param(q, w) && !strings.HasPrefix(ft.C.Key(), "str==") {
				if ok, _ := safeOn(q.St, w); !ok {
					bad = true
				}
			}
		})
	}
	return bad
}

// takenByAnother: the name asked for has been found to belong to a namespace,
// and to differ from the name of the one that is to be changed.
func (h *httpCheck) takenByAnother(q *Path) bool {
	var own []Val
	for _, e := range h.calls(q) {
		if s := h.nameArg(q, e); s != nil && h.param(q, s) {
			own = append(own, s)
			if len(e.Res) > 0 && types.Identical(typeOfVal(e.Res[0]), h.r.iface) {
				n := h.g.report(q.St, e.Res[0], "Name")
				if a, ok := n.(*Agg); ok && len(a.Fields) == 1 {
					n = a.Fields[0]
				}
				if n != nil {
					own = append(own, n)
				}
			}
		}
	}
	for _, e := range h.calls(q) {
		s := h.nameArg(q, e)
		if s == nil || h.param(q, s) || len(e.Res) != 1 || q.St.isNil(e.Res[0]) != -1 {
			continue
		}
		if len(own) == 0 {
			return true
		}
		for _, o := range own {
			if q.St.decide(textEq(o, s)) == -1 {
				return true
			}
		}
	}
	return false
}
