package main

import (
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"strings"
)

func init() {
	register("C42", "Dataflow on every path of a function that serves a route which ends with an error status: the text of the error that made the request fail, or one entry for each field refused, reaches the body of the response; loops over the refused fields are summarised", refusalRules)
}

// refusalRules: a refusal tells why.
func refusalRules(c *Ctx) {
	h := newHTTP(c)
	if h == nil {
		return
	}
	n, fields := 0, 0
	for _, rt := range h.routes {
		name := rt.method + " " + normal(rt.path)
		for _, q := range rt.paths {
			if q.End != "" {
				c.obPath(false, "told", q, token.NoPos, name+" end", "%s ends with %s", name, q.End)
				continue
			}
			for _, x := range h.respond(rt, q) {
				if x.status < 400 || x.body == nil {
					continue
				}
				n++
				v := h.verdict(rt, q)
				tell := func(ok bool, what, format string, args ...any) {
					c.obPath(ok, "told", q, x.e.Pos, name+" "+what, name+": "+format, args...)
				}
				var bad Val // the error to be reported
				for _, e := range q.Ev {
					if bound(e) && e.Err != nil && q.St.isNil(e.Err) == -1 {
						bad = e.Err
					}
				}
				if bad == nil && v.failed != nil {
					bad = v.failed.Err
				}
				ts := h.texts(q, x.body, 0)
				refused := h.refusedFields(q)
				switch {
				case bad != nil:
					if tells(q, ts, bad) {
						break
					}
					if l := h.bindingList(q, ts, bad); l != "" {
						tell(false, "entries", "%s", l)
					} else {
						fields++
					}
				case len(refused) > 0:
					h.entries(q, x, ts, refused, tell)
					fields++
				default:
					text := false
					for _, t := range ts {
						text = text || t.list == nil && isText(q.St, t.v)
					}
					tell(text, "text", "a refusal without an explanation")
				}
			}
		}
	}
	c.count("refusals", n, 8)
	c.count("refusals that list fields", fields, 2)
}

// said is something a body contains: a string or a list.
type said struct {
	key  string
	v    Val
	list *Slice
	elem types.Type
}

// texts are the strings and lists that a body consists of.
func (h *httpCheck) texts(q *Path, v Val, depth int) (out []said) {
	add := func(key string, v Val, t types.Type) {
		if i, ok := v.(*Iface); ok {
			t, v = i.Dyn, i.V
		}
		if v == nil || t == nil {
			return
		}
		if isString(t) {
			out = append(out, said{key: key, v: v})
			return
		}
		if u, ok := t.Underlying().(*types.Slice); ok {
			if s := h.in.toSlice(v); s != nil {
				out = append(out, said{key, v, s, u.Elem()})
			}
			return
		}
		if depth < 3 {
			for _, x := range h.texts(q, mkIface(t, v), depth+1) {
				out = append(out, said{key + "." + x.key, x.v, x.list, x.elem})
			}
		}
	}
	i, ok := v.(*Iface)
	if !ok {
		return nil
	}
	if isString(i.Dyn) {
		return []said{{v: i.V}}
	}
	switch u := deptr(i.Dyn).Underlying().(type) {
	case *types.Map:
		for _, x := range q.St.mapOf(i.V).Upd {
			if x.V != nil {
				add(x.K.Key(), x.V, u.Elem())
			}
		}
	case *types.Struct:
		for j := 0; j < u.NumFields(); j++ {
			f := u.Field(j)
			if !f.Exported() {
				continue
			}
			var got Val
			if p := h.in.deref(i.V); p != nil {
				got = q.St.load(mkPtr(p.O, p.Path+fieldPath(u, j)), f.Type())
			} else {
				got = h.r.part(q.St, i.V, leaf{fieldPath(u, j), f.Type()})
			}
			add(f.Name(), got, f.Type())
		}
	case *types.Slice:
		if s := h.in.toSlice(i.V); s != nil {
			out = append(out, said{"", i.V, s, u.Elem()})
		}
	}
	return out
}

// isText: a string that isn't empty, as far as is known.
func isText(st *State, v Val) bool {
	if v == nil || st.decide(strEq(v, Str(""))) == 1 {
		return false
	}
	if st.decide(strEq(v, Str(""))) == -1 {
		return true
	}
	if c, ok := v.(*Const); ok {
		s, ok := constStr(c)
		return ok && s != ""
	}
	a, ok := v.(*App)
	if !ok {
		// what an error or a rule says about itself
		s, ok := v.(*Sym)
		return ok && sayings.MatchString(s.Name)
	}
	switch {
	case a.Op == "concat":
		for _, x := range a.Args {
			if isText(st, x) {
				return true
			}
		}
		return false
	case a.Op == "errstr":
		return true
	case strings.Contains(a.Op, "Sprint") || strings.Contains(a.Op, "sprint"):
		return len(a.Args) > 0 && isText(st, a.Args[0])
	}
	return sayings.MatchString(a.Op) || len(a.Args) > 0 && strings.Contains(a.Op, "call") && sayings.MatchString(a.Args[0].Key())
}

var sayings = regexp.MustCompile(`\b(Error|Tag|ActualTag|Translate|String|StatusText|Field|StructField)(~\d+)?(\(|$)`)

// tells: the text of the error is a part of one of the strings.
func tells(q *Path, ts []said, err Val) bool {
	found := false
	for _, t := range ts {
		if t.list == nil {
			visit(t.v, func(w Val) {
				if a, ok := isApp(w, "errstr"); ok && a.Args[0].Key() == err.Key() {
					found = true
				}
			})
		}
	}
	return found
}

// strings of a list's element, by field
func (h *httpCheck) item(st *State, s *Slice, idx Val, t types.Type) map[string]Val {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	p := elemPtr(s.Base, add(s.Off, idx))
	out := map[string]Val{}
	for j := 0; j < u.NumFields(); j++ {
		f := u.Field(j)
		if isString(f.Type()) {
			tag, _, _ := strings.Cut(reflect.StructTag(u.Tag(j)).Get("json"), ",")
			if tag == "" {
				tag = f.Name()
			}
			out[strings.ToLower(tag)] = st.load(mkPtr(p.O, p.Path+fieldPath(u, j)), f.Type())
		}
	}
	return out
}

// bindingList: one of the lists has an entry for each of the errors that err
// consists of.
func (h *httpCheck) bindingList(q *Path, ts []said, err Val) string {
	why := "the error of an invalid request isn't in the response"
	for _, t := range ts {
		if t.list == nil {
			continue
		}
		for _, e := range q.Ev {
			l := e.Loop
			if l == nil || len(l.Iters) == 0 {
				continue
			}
			var all Val // the errors
			for _, x := range l.Iters[0].Events {
				if x.Kind == "call" && strings.HasSuffix(x.Name, ".FieldError).Field") {
					if a, ok := isApp(orNil(x.Obj), "elem"); ok && a.Args[1].Key() == l.Count.Key() {
						all = a.Args[0]
					}
				}
			}
			if all == nil || !mentions(all, err) {
				continue
			}
			n := app("len", all)
			if !exactly(q, l, n) || q.St.decide(eqInt(t.list.Len, n)) != 1 {
				why = "the response may not have one entry for each field refused"
				continue
			}
			lists := q.collected(l, t.list)
			good := true
			for i, it := range l.Iters {
				s := t.list
				if lists != nil {
					s = lists[i]
				}
				got := h.item(it.End, s, l.Count, t.elem)
				var field Val
				for _, x := range it.Events {
					if x.Kind == "call" && strings.HasSuffix(x.Name, ".FieldError).Field") && len(x.Res) == 1 && same(orNil(x.Obj), app("elem", all, l.Count)) {
						field = x.Res[0]
					}
				}
				if field == nil || got["field"] == nil || !same(got["field"], field) {
					good = false
					why = "an entry names " + show(got["field"]) + " instead of the field refused"
				} else if m := got["message"]; same(m, field) || !isText(it.End, m) {
					good = false
					why = "an entry doesn't tell why the field is refused"
				}
			}
			if good {
				return ""
			}
		}
	}
	return why
}

func mentions(v, w Val) bool {
	found := false
	visit(v, func(x Val) { found = found || x.Key() == w.Key() })
	return found
}

// refusedFields are the names of the fields whose values are known not to be
// valid, as the request spells them.
func (h *httpCheck) refusedFields(q *Path) (out []string) {
	seen := map[string]bool{}
	for _, v := range misspelled(q.St) {
		if st, j, _, _ := h.field(q, v); st != nil {
			if tag := jsonName(st, j); !seen[tag] && types.Identical(st.Field(j).Type(), types.Typ[types.String]) {
				seen[tag] = true
				out = append(out, tag)
			}
		}
	}
	for _, ft := range q.St.factList() {
		if ft.Truth {
			continue
		}
		visit(ft.C, func(w Val) {
			st, j, _, _ := h.field(q, w)
			if st == nil || !isString(st.Field(j).Type()) {
				return
			}
			tag := jsonName(st, j)
			// it's refused if no other fact says that it's valid
			valid := false
			if ok, _ := safeOn(q.St, w); ok {
				valid = true
			}
			for _, f2 := range q.St.factList() {
				if f2.Truth && strings.HasPrefix(f2.C.Key(), "str==") && mentions(f2.C, w) {
					valid = true
				}
			}
			if !valid && !seen[tag] {
				seen[tag] = true
				out = append(out, tag)
			}
		})
	}
	return out
}

// jsonName of a field
func jsonName(st *types.Struct, j int) string {
	tag, _, _ := strings.Cut(reflect.StructTag(st.Tag(j)).Get("json"), ",")
	if tag == "" {
		return st.Field(j).Name()
	}
	return tag
}

// entries: the response has one entry for each of the fields.
func (h *httpCheck) entries(q *Path, x response, ts []said, refused []string, tell func(ok bool, what, format string, args ...any)) {
	lists := 0
	for _, t := range ts {
		if t.list == nil {
			continue
		}
		lists++
		n, ok := constInt(t.list.Len)
		if !ok || n != int64(len(refused)) {
			tell(false, "entries", "%s entries for the %d fields refused (%s)", clip(t.list.Len.Key()), len(refused), strings.Join(refused, ", "))
			continue
		}
		named := map[string]bool{}
		for i := int64(0); i < n; i++ {
			got := h.item(q.St, t.list, Int(i), t.elem)
			name := ""
			for _, r := range refused {
				if got["field"] != nil && same(got["field"], Str(r)) {
					name = r
				}
			}
			tell(name != "" && !named[name], "field", "an entry names the field %s, but the fields refused are %s", show(got["field"]), strings.Join(refused, ", "))
			named[name] = true
			m := got["message"]
			tell(isText(q.St, m) && !same(m, got["field"]), "message", "an entry doesn't tell why the field is refused")
		}
	}
	tell(lists > 0, "entries", "the fields refused (%s) aren't named", strings.Join(refused, ", "))
}
