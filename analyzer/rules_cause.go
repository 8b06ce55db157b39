package main

// Failures of storages: what they may be caused by.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C46", "Every failing path of every operation on storage files: an operation of the file, or of a storage or factory used, has failed, or the facts say that the first bytes aren't the magic number or that the lock byte is set. Every failing path of the iterator with the file format as an interface: reading or writing the entry has failed, or the facts say that there's no next entry, no previous one, or that its capacity is another one.", causeRules)
}

// failedOp: an operation of a file, or one whose implementation is unknown, has
// failed on the path.
func failedOp(q *Path) bool {
	failed := false
	q.each(func(e *Event, st *State, _ int, _ bool) {
		failed = failed || e.Err != nil && !quiet(e) && st.isNil(e.Err) == -1
	})
	return failed
}

// foreign: the facts say that a stream doesn't begin with the magic number.
func (c *Ctx) foreign(st *State, magic string) bool {
	for _, f := range st.factList() {
		if f.Truth {
			continue
		}
		a, ok := f.C.(*App)
		if !ok || a.Op != "seqeq" && a.Op != "eq0" {
			continue
		}
		if a.Op == "seqeq" {
			for i := 0; i < 2; i++ {
				x, okx := a.Args[i].(*Seq)
				y, oky := a.Args[1-i].(*Seq)
				if okx && oky && len(x.Segs) == 1 && x.Segs[0].Kind == "in" && spells(y, magic) {
					return true
				}
			}
			continue
		}
		// one byte
		for i, ch := range []byte(magic) {
			_, _, atoms := linOf(a.Args[0])
			var b *App
			for _, x := range atoms {
				b, _ = isApp(x, "in")
			}
			if len(atoms) != 1 || b == nil || len(b.Args) != 2 {
				continue
			}
			off := b.Args[1]
			if n, ok := constInt(sub(off, app("pos", b.Args[0]))); ok {
				off = Int(n)
			}
			n, ok := constInt(off)
			if ok && n == int64(i) && eqInt(b, Int(int64(ch))).Key() == f.C.Key() {
				return true
			}
		}
	}
	return false
}

func spells(y *Seq, magic string) bool {
	s := ""
	for _, g := range flattenBytes(y) {
		if g.Kind != "val" {
			return false
		}
		n, ok := constInt(g.V)
		if !ok {
			return false
		}
		s += string(rune(n))
	}
	return s == magic
}

// marked: the facts say that a file is marked locked.
func marked(q *Path, L int64) bool {
	found := false
	q.each(func(e *Event, _ *State, _ int, _ bool) {
		if e.Kind == "read" && e.Obj != nil {
			found = found || q.St.decide(eqInt(app("in", e.Obj, Int(L)), Int(0))) == -1
		}
	})
	return found
}

// takesEntry: the function reads or writes an entry of a RECDB file.
func (c *Ctx) takesEntry(fn *ssa.Function, p *proto) bool {
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if types.Identical(fn.Signature.Params().At(i).Type(), types.NewPointer(p.en)) {
			return true
		}
	}
	return false
}

// onRegistry: the function is an operation on the list of namespaces that gets a
// name or settings.
func onRegistry(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	if r == nil {
		return false
	}
	n, ok := deptr(r.Type()).(*types.Named)
	if !ok || n.Obj().Name() != "NamespaceService" {
		return false
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if m, ok := deptr(fn.Signature.Params().At(i).Type()).(*types.Named); ok && isModule(m.Obj().Pkg()) {
			return true
		}
	}
	return false
}

func causeRules(c *Ctx) {
	protos := map[string]*proto{}
	locks := map[string]int64{}
	for _, sp := range []protoSpec{deltaSpec, indexSpec, recdbSpec} {
		p := c.proto(sp)
		if p == nil {
			return
		}
		L, _, ok := p.offsets()
		if !ok {
			return
		}
		protos[fnPkg(c.meth(p.t, "WriteHeader")).Path()] = p
		locks[fnPkg(c.meth(p.t, "WriteHeader")).Path()] = L
	}
	r := c.iterator()
	if r == nil {
		return
	}
	n, own := 0, 0
	judge := func(fn *ssa.Function, q *Path) {
		if q.End != "" || q.OK() || q.Err == nil {
			return
		}
		n++
		ok := failedOp(q)
		if !ok {
			if p := protos[fnPkg(fn).Path()]; p != nil {
				own++
				ok = c.foreign(q.St, p.sp.magic) || marked(q, locks[fnPkg(fn).Path()])
			}
		}
		c.obPath(ok, "cause", q, fn.Pos(), fn.Name(), "%s may fail though nothing has gone wrong (%s)", fn.Name(), ending(q))
	}
	c.operations(func(fn *ssa.Function, q *Path) {
		switch {
		case fn == r.next || fn == r.prev: // see below
		case c.takesEntry(fn, r.rp): // see C03
		case onRegistry(fn): // see C44
		default:
			judge(fn, q)
		}
	})
	refused := 0
	for _, fn := range []*ssa.Function{r.next, r.prev} {
		in := NewInterp(c.w, Config{OpaqueIface: func(n *types.Named) bool { return types.Identical(n, c.named("infra/recdb", "Protocol")) }})
		recv := in.namedSym("it", r.t)
		st := r.reading(in, recv)
		idx := in.loadField(st, recv, r.index)
		var causes []Val
		var capa Val
		if fn == r.next {
			causes = append(causes, le0(sub(r.limit, idx)))
		} else {
			capa = r.capOf(in, r.param(in, fn))
			causes = append(causes, eqInt(idx, Int(0)), not(eqInt(in.loadField(st, recv, r.capacity), capa)))
		}
		for _, q := range c.run(in, fn, r.args(in, fn, recv), nil, st.clone()) {
			if q.End != "" || q.OK() || q.Err == nil {
				continue
			}
			n++
			ok := failedOp(q)
			if !ok {
				refused++
			}
			for _, x := range causes {
				ok = ok || q.St.decide(x) == 1
			}
			if !ok && capa != nil {
				// an entry occupies its capacity
				q.each(func(e *Event, _ *State, _ int, _ bool) {
					if e.Kind != "call" || len(e.Res) == 0 || e.Res[0] == nil {
						return
					}
					ok = ok || !assume(q.In.NewState(), q.St.factList(), func(v Val) Val {
						return subst(v, func(x Val) Val {
							if x.Key() == e.Res[0].Key() {
								return capa
							}
							return nil
						})
					})
				})
			}
			c.obPath(ok, "cause", q, fn.Pos(), fn.Name(), "%s may fail though nothing has gone wrong (%s)", fn.Name(), ending(q))
		}
	}
	for _, x := range []string{"DeltaStorage", "IndexStorage"} {
		t := c.impl("domain", x)
		if t == nil {
			return
		}
		it := c.named("domain", x).Underlying().(*types.Interface)
		for i := 0; i < it.NumMethods(); i++ {
			if fn := c.meth(t, it.Method(i).Name()); fn != nil && !c.w.mayIO(fn) {
				in := NewInterp(c.w, Config{})
				for _, q := range c.run(in, fn, in.args(fn, ""), nil, nil) {
					judge(fn, q)
				}
			}
		}
	}
	c.count("failures", n, 100)
	c.count("refusals of the iterator", refused, 3)
	c.count("failures that no operation of a file has caused", own, 3)
}
