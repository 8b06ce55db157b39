package main

// Saving and loading of the list of namespaces: what is encoded and decoded.

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C37", "Every path of SaveNamespaces and LoadNamespaces: a saving that succeeds has replaced the file that LoadNamespaces reads by the encoding of the whole list as it is at the end; a loading that succeeds has read this file, decoded all of its bytes, and the list is what has been decoded, while one that fails leaves the list and the namespaces as they were. By the rules of encoding/json, every setting that the getters of a namespace return is a field that is encoded, by itself and with every structure it is part of, and the elements of the list are of a type that can be decoded.", persistRules,
		"encoding/json encodes and decodes the exported fields that aren't tagged \"-\", and can't decode into an interface that has methods")
}

type persist struct {
	c *Ctx
	r *registry
}

func persistRules(c *Ctx) {
	r := newRegistry(c)
	if r == nil || r.registryFile() == nil {
		return
	}
	p := &persist{c: c, r: r}
	p.saves()
	p.loads()
}

func (p *persist) saves() {
	c, r := p.c, p.r
	fn, ps := r.op("SaveNamespaces")
	n := 0
	for _, q := range ps {
		if q.End != "" || fails(q) {
			continue
		}
		n++
		s, why := r.saved(q)
		c.obPath(why == "", "saves", q, fn.Pos(), "list", "the list isn't saved although SaveNamespaces succeeds: %s", why)
		if why == "" {
			p.encodes(q, fn, q.Ev[s.encode])
		}
	}
	c.count("saves", n, 1)
}

func elemOf(t types.Type) types.Type {
	for {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Slice:
			return u.Elem()
		case *types.Array:
			return u.Elem()
		}
		return nil
	}
}

// own: the type has a method of this name, which decides its encoding itself.
func own(t types.Type, names ...string) bool {
	ms := types.NewMethodSet(t)
	if _, isPtr := t.Underlying().(*types.Pointer); !isPtr && !types.IsInterface(t) {
		ms = types.NewMethodSet(types.NewPointer(t))
	}
	for i := 0; i < ms.Len(); i++ {
		for _, n := range names {
			if ms.At(i).Obj().Name() == n {
				return true
			}
		}
	}
	return false
}

// omitted tells why a field isn't encoded, or "".
func omitted(t types.Type, path string) string {
	for _, name := range strings.Split(strings.TrimPrefix(path, "."), ".") {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		if own(t, "MarshalJSON", "MarshalText") {
			return types.TypeString(t, nil) + " encodes itself, in a way that isn't followed"
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return "it's within " + t.String()
		}
		found := false
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if f.Name() != name {
				continue
			}
			found = true
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			switch {
			case tag == "-":
				return "the field " + name + " is excluded by its tag"
			case !f.Exported() && !f.Embedded():
				return "the field " + name + " isn't exported"
			}
			t = f.Type()
		}
		if !found {
			return "there's no field " + name
		}
	}
	if own(t, "MarshalJSON", "MarshalText") {
		return t.String() + " encodes itself, in a way that isn't followed"
	}
	if _, ok := t.Underlying().(*types.Basic); !ok {
		return "the type " + t.String() + " isn't followed"
	}
	return ""
}

func (p *persist) encodes(q *Path, fn *ssa.Function, e *Event) {
	c := p.c
	var elem types.Type
	if i, ok := e.Args[0].(*Iface); ok {
		elem = elemOf(i.Dyn)
	}
	c.obPath(elem != nil, "encoded", q, e.Pos, "elements", "the type of what is encoded isn't known")
	if elem == nil {
		return
	}
	if types.IsInterface(elem) {
		elem = c.impl("domain", "Namespace")
	}
	if elem == nil {
		return
	}
	n := 0
	for _, l := range p.settings() {
		n++
		why := omitted(elem, l.leaf.path)
		c.obPath(why == "", "encoded", q, e.Pos, l.getter, "the setting that %s returns isn't saved: %s", l.getter, why)
	}
	// the type tells which kind of namespace to make of the settings
	kind := false
	base := elem
	if pt, ok := base.Underlying().(*types.Pointer); ok {
		base = pt.Elem()
	}
	want := c.meth(elem, "GetType")
	if want != nil {
		for _, l := range leaves(base) {
			if i := strings.IndexByte(l.path[1:], '.'); i >= 0 {
				l = leaf{path: l.path[:i+1]}
			}
			if f := fieldNamed(base, l.path[1:]); f != nil && types.Identical(f.Type(), want.Signature.Results().At(0).Type()) {
				kind = kind || f.Exported()
			}
		}
		c.obPath(kind, "encoded", q, e.Pos, "GetType", "the type of a namespace isn't saved: it isn't an exported field of %s", base)
	}
	c.count("encoded", n, 3)
}

func fieldNamed(t types.Type, name string) *types.Var {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i)
		}
	}
	return nil
}

// setting is a field of namespaces with the getter that returns it.
type setting struct {
	leaf   leaf
	getter string
}

func (p *persist) settings() (out []setting) {
	r := p.r
	t := p.c.impl("domain", "Namespace")
	for _, name := range []string{"GetName", "GetMaxSimilarProfiles", "GetDislikeFactor"} {
		fn := p.c.meth(t, name)
		if fn == nil {
			continue
		}
		args := r.in.args(fn, "")
		obj := r.in.deref(args[0])
		var got *leaf
		for _, q := range p.c.run(r.in, fn, args, nil, nil) {
			if len(q.Rets) != 1 || q.End != "" || obj == nil {
				continue
			}
			for _, l := range append([]leaf{r.name}, r.data...) {
				whole := q.Rets[0]
				if a, ok := whole.(*Agg); ok && len(a.Fields) == 1 {
					whole = a.Fields[0]
				}
				if same(whole, q.St.load(mkPtr(obj.O, obj.Path+l.path), l.t)) {
					l := l
					got = &l
				}
			}
		}
		p.c.ob(got != nil, "getter", fn, fn.Pos(), name, "the field that %s returns isn't recognised", name)
		if got != nil {
			out = append(out, setting{*got, name})
		}
	}
	return
}

func (p *persist) loads() {
	c, r := p.c, p.r
	fn, ps := r.op("LoadNamespaces")
	n := 0
	file := r.registryFile()
	for _, q := range ps {
		if q.End != "" {
			c.obPath(false, "loads", q, fn.Pos(), "end", "loading ends by %s", q.End)
			continue
		}
		changed, _ := r.changed(q)
		c.obPath(len(changed) == 0, "loads", q, fn.Pos(), "settings", "loading changes the settings of namespaces: %s", strings.Join(changed, ", "))
		if fails(q) {
			c.obPath(same(r.final(q), r.initList), "loads", q, fn.Pos(), "failure", "the list is changed although it can't be loaded")
			continue
		}
		n++
		var data []Val     // what has been read of the file
		var decoders []Val // decoders of the file
		var read []*Seq
		var target *Ptr
		var tt types.Type
		from := -1
		of := func(v Val) bool {
			for _, d := range data {
				if d != nil && v != nil && (same(unwrap(d), unwrap(v)) || same(d, v)) {
					return true
				}
			}
			return false
		}
		for i, e := range q.Ev {
			if e.Kind == "read" && e.Sub == "toEOF" && e.Obj != nil && of(e.Obj) && same(e.At, Int(0)) && nilErr(q, e) {
				read = append(read, e.Seq)
			}
			if e.Kind != "call" || len(e.Args) == 0 && e.Obj == nil {
				continue
			}
			switch {
			case len(e.Args) > 0 && strings.HasPrefix(e.Name, "os.") && same(e.Args[0], file) && nilErr(q, e) && len(e.Res) > 0:
				data = append(data, e.Res[0])
			case e.Name == "encoding/json.NewDecoder" && of(e.Args[0]) && len(e.Res) > 0:
				decoders = append(decoders, e.Res[0])
			case e.Name == "encoding/json.Unmarshal" && nilErr(q, e) && len(e.Args) == 2:
				if of(e.Args[0]) || r.wholeOf(q, e.Args[0], data, read) {
					from = i
				}
			case strings.HasSuffix(e.Name, "json.Decoder).Decode") && nilErr(q, e):
				for _, d := range decoders {
					for _, a := range append([]Val{e.Obj}, e.Args...) {
						if a != nil && same(a, d) {
							from = i
						}
					}
				}
			}
			if from == i {
				if x, ok := e.Args[len(e.Args)-1].(*Iface); ok {
					target = r.in.deref(x.V)
					tt = x.Dyn
				}
			}
		}
		c.obPath(from >= 0, "loads", q, fn.Pos(), "decoded", "the list isn't decoded from the whole of the file that it's saved to, although loading succeeds")
		if from < 0 {
			continue
		}
		pt, ok := tt.Underlying().(*types.Pointer)
		ok = ok && target != nil && len(q.Ev[from].Out) == 1
		c.obPath(ok, "loads", q, q.Ev[from].Pos, "target", "what is decoded into isn't known")
		if !ok {
			continue
		}
		got := q.Ev[from].Out[0]
		c.obPath(r.sameList(q, got, r.final(q)), "loads", q, fn.Pos(), "list", "the list isn't what has been decoded")
		for _, e := range q.Ev[from+1:] {
			if (e.Kind == "store" || e.Kind == "storewin") && e.Obj != nil {
				if o := r.in.deref(e.Obj); o != nil && o.O == target.O {
					c.obPath(false, "loads", q, e.Pos, "changed", "what has been decoded is changed")
				}
			}
		}
		if elem := elemOf(pt.Elem()); elem != nil {
			why := ""
			if i, ok := elem.Underlying().(*types.Interface); ok && i.NumMethods() > 0 {
				why = "nothing can be decoded into the interface " + types.TypeString(elem, nil)
			} else if ok {
				why = "values that are decoded into an empty interface aren't namespaces"
			} else {
				for _, l := range p.settings() {
					if w := omitted(elem, l.leaf.path); w != "" {
						why = w
					}
				}
			}
			c.obPath(why == "", "decodable", q, q.Ev[from].Pos, "elements of type "+types.TypeString(elem, nil), "a list that isn't empty can't be loaded: %s", why)
		}
	}
	c.count("loads", n, 1)
}

// wholeOf: the bytes are all of those that have been read.
func (r *registry) wholeOf(q *Path, v Val, data []Val, read []*Seq) bool {
	all, _ := r.in.seqOf(q.St, unwrap(v))
	if all == nil || len(all.Segs) == 0 {
		return false
	}
	for _, o := range read {
		if o.Key() == all.Key() {
			return true
		}
	}
	for _, d := range data {
		if o, _ := r.in.seqOf(q.St, unwrap(d)); o != nil && o.Key() == all.Key() {
			return true
		}
	}
	return false
}

// sameList: both are the same slice, or have the same contents.
func (r *registry) sameList(q *Path, a, b Val) bool {
	if same(a, b) {
		return true
	}
	x, nx := r.in.seqOf(q.St, a)
	y, ny := r.in.seqOf(q.St, b)
	return x != nil && y != nil && len(x.Segs) > 0 && x.Key() == y.Key() && same(nx, ny)
}
