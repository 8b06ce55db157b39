package main

// The lock mark: a byte of the header that is non-zero while a file is open.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C04", "For each of the 3 protocols: on every path of WriteLocked the only effect is one write of one byte at the offset the header writer puts the lock field at, non-zero if and only if the argument is true, and the stream's position is the initial one; IsLocked has no effect but restoring the position and returns whether that byte differs from zero; errors are returned exactly if an I/O call failed.", lockHelperRules)
	register("C05", "Typestate of the lock byte of a delta file over the I/O events of every path of Open, OpenMaybeRecover, Recover and every method of the storage; that entries never cover the byte follows from an inductive invariant of the storage's counters, which is checked for Open and every method.", deltaLockRules)
	register("C06", "Typestate of the lock byte of an index file over the I/O events of every path of Open, OpenFile and every method of the storage; path conditions of the RECDB iterator's constructor.", indexLockRules)
}

// offsets finds where the writers put the lock field and where the header ends.
func (p *proto) offsets() (lock, end int64, ok bool) {
	c := p.c
	wp, wh := c.meth(p.t, "WritePrefix"), c.meth(p.t, "WriteHeader")
	if wp == nil || wh == nil {
		return
	}
	in := NewInterp(c.w, Config{})
	var pre int64 = -1
	for _, w := range p.write(in, wp, nil, nil) {
		n, isC := constInt(w.Im.Len)
		if !isC || pre >= 0 && n != pre {
			c.missing("the length of the prefix of " + p.sp.pkg)
			return
		}
		pre = n
	}
	src := in.namedSym("src", types.NewPointer(p.hdr))
	lock = -1
	for _, w := range p.write(in, wh, src, p.hdr) {
		n, isC := constInt(w.Im.Len)
		if !isC {
			break
		}
		end = pre + n
		for i := int64(0); i < n; i++ {
			if b := w.Im.byteAt(Int(i)); b != nil && b.Key() == src.Key()+".Locked" {
				lock = pre + i
			}
		}
	}
	if pre < 0 || lock < 0 {
		c.missing("the lock field in the header written by " + p.sp.pkg)
		return
	}
	return lock, end, true
}

func lockHelperRules(c *Ctx) {
	for _, sp := range []protoSpec{deltaSpec, indexSpec, recdbSpec} {
		p := c.proto(sp)
		if p == nil {
			continue
		}
		L, _, ok := p.offsets()
		if !ok {
			continue
		}
		p.writeLocked(L)
		p.isLocked(L)
	}
}

func (p *proto) writeLocked(L int64) {
	c := p.c
	fn := c.meth(p.t, "WriteLocked")
	if fn == nil {
		return
	}
	in := NewInterp(c.w, Config{})
	file := in.namedSym("file", types.NewInterfaceType(nil, nil))
	on := in.namedSym("on", tBool)
	n := 0
	for _, q := range c.run(in, fn, in.args(fn, "", argFor{ioParam, file}, argFor{isBool, on}), nil, nil) {
		c.obPath(q.OK() == !q.ioFailed() && q.End == "", "errors", q, fn.Pos(), fn.Name(), "%s must fail if and only if an I/O operation fails (%s)", fn.Name(), ending(q))
		p.onlyLockByte(q, L)
		if !q.OK() {
			continue
		}
		n++
		var ws []*Event
		for _, e := range q.Ev {
			if e.Kind == "write" {
				ws = append(ws, e)
			}
		}
		if !c.obPath(len(ws) == 1, "one-byte", q, fn.Pos(), fn.Name(), "%s makes %d writes, not one", fn.Name(), len(ws)) {
			continue
		}
		v := q.St.seqElem(ws[0].Seq, Int(0), types.Typ[types.Uint8])
		z := q.St.decide(eqInt(v, Int(0)))
		d := q.St.decide(on)
		c.obPath(d == 1 && z == -1 || d == -1 && z == 1, "mark", q, ws[0].Pos, fn.Name(), "%s writes %s though the argument is %s", fn.Name(), clip(v.Key()), map[int]string{1: "true", -1: "false", 0: "unknown"}[d])
		p.posKept(q, file)
	}
	c.count("successful paths of WriteLocked", n, 2)
}

// onlyLockByte: every write of the path is one byte at L.
func (p *proto) onlyLockByte(q *Path, L int64) {
	walk(q.Ev, nil, func(e *Event, up []*IterPath) {
		switch e.Kind {
		case "write":
			n, ok1 := constInt(e.Seq.length())
			at, ok2 := constInt(e.At)
			p.c.obPath(ok1 && ok2 && n == 1 && at == L && len(up) == 0 && e.Sub != "buffered", "one-byte", q, e.Pos, q.Fn.Name()+" "+e.Name,
				"%s writes %s bytes at %s, the lock mark is the byte at %d", q.Fn.Name(), clip(e.Seq.length().Key()), clip(e.At.Key()), L)
		case "truncate", "close", "anomaly":
			p.c.obPath(false, "one-byte", q, e.Pos, q.Fn.Name()+" "+e.Kind, "%s must change the lock mark only", q.Fn.Name())
		}
	})
}

func (p *proto) posKept(q *Path, file Val) {
	start := q.In.posOf(q.In.NewState(), file)
	end := q.In.posOf(q.St, file)
	p.c.obPath(q.St.decide(eqInt(start, end)) == 1, "position", q, q.Fn.Pos(), q.Fn.Name(), "%s leaves the file at %s, not where it was", q.Fn.Name(), clip(end.Key()))
}

func (p *proto) isLocked(L int64) {
	c := p.c
	fn := c.meth(p.t, "IsLocked")
	if fn == nil {
		return
	}
	in := NewInterp(c.w, Config{})
	file := in.namedSym("file", types.NewInterfaceType(nil, nil))
	b := app("in", file, Int(L))
	zero := eqInt(b, Int(0))
	n := 0
	for _, q := range c.run(in, fn, in.args(fn, "", argFor{ioParam, file}), nil, nil) {
		c.obPath(q.OK() == !q.ioFailed() && q.End == "", "errors", q, fn.Pos(), fn.Name(), "%s must fail if and only if an I/O operation fails (%s)", fn.Name(), ending(q))
		walk(q.Ev, nil, func(e *Event, up []*IterPath) {
			switch e.Kind {
			case "write", "truncate", "close", "anomaly":
				c.obPath(false, "no-effect", q, e.Pos, fn.Name()+" "+e.Kind, "%s must not change the file", fn.Name())
			}
		})
		if !q.OK() {
			continue
		}
		n++
		c.obPath(isLockTest(q.St, q.Rets[0], zero), "mark", q, fn.Pos(), fn.Name(), "%s returns %s, not whether the byte at %d differs from zero", fn.Name(), clip(q.Rets[0].Key()), L)
		p.posKept(q, file)
	}
	c.count("successful paths of IsLocked", n, 1)
}

func isLockTest(st *State, r, zero Val) bool {
	if b, ok := constBool(r); ok {
		d := st.decide(zero)
		return d == 1 && !b || d == -1 && b
	}
	return r.Key() == not(zero).Key()
}

// ---- typestate

// mark follows the lock byte of a file along a path.
type mark struct {
	c    *Ctx
	in   *Interp
	L    int64
	file Val
}

type markEv struct {
	e     *Event
	v     Val // the value given to the byte
	idx   int // index of the top level event
	st    *State
	lost  bool // it can't be told whether or how the byte is changed
	cut   bool // the file is cut before the byte
	inner bool // in a loop
}

// cover tells whether the event changes the byte at off of stream s: 0 no, 1
// yes, 2 perhaps.
func cover(st *State, e *Event, s string, off Val) (int, Val) {
	if e.Kind != "write" || e.Obj == nil || e.Obj.Key() != s {
		return 0, nil
	}
	n := e.Seq.length()
	if st.decide(le0(sub(addc(off, 1), e.At))) == 1 || st.decide(le0(sub(add(e.At, n), off))) == 1 {
		return 0, nil
	}
	if st.decide(le0(sub(e.At, off))) == 1 && st.decide(le0(sub(addc(off, 1), add(e.At, n)))) == 1 {
		return 1, st.seqElem(e.Seq, st.simp(sub(off, e.At)), types.Typ[types.Uint8])
	}
	return 2, nil
}

// each visits the events with the state that decides them.
func (p *Path) each(f func(e *Event, st *State, idx int, inner bool)) {
	var rec func(evs []*Event, st *State, idx int)
	rec = func(evs []*Event, st *State, idx int) {
		for i, e := range evs {
			k := idx
			if k < 0 {
				k = i
			}
			f(e, st, k, idx >= 0)
			if e.Loop != nil {
				for _, it := range e.Loop.Iters {
					s := it.End
					if s == nil {
						s = st
					}
					rec(it.Events, s, k)
				}
			}
		}
	}
	rec(p.Ev, p.St, -1)
}

func (m *mark) trace(p *Path) (out []markEv) {
	off := Int(m.L)
	p.each(func(e *Event, st *State, idx int, inner bool) {
		if e.Obj == nil || e.Obj.Key() != m.file.Key() {
			return
		}
		switch e.Kind {
		case "write":
			k, v := cover(st, e, m.file.Key(), off)
			if k == 0 {
				return
			}
			x := markEv{e: e, idx: idx, st: st, inner: inner, lost: k == 2}
			if v != nil {
				x.v = resolveIn(p, st, v)
			}
			out = append(out, x)
		case "truncate":
			if st.decide(le0(sub(addc(off, 1), e.Args[0]))) != 1 {
				out = append(out, markEv{e: e, idx: idx, st: st, cut: true, inner: inner})
			}
		}
	})
	return
}

// resolveIn finds what the path itself has written to where a byte was read.
func resolveIn(p *Path, st *State, v Val) Val {
	for depth := 0; depth < 8; depth++ {
		a, ok := isApp(v, "in")
		if !ok {
			return v
		}
		af, ok := isApp(a.Args[0], "after")
		if !ok {
			return v
		}
		n, _ := constInt(af.Args[1])
		found := false
		for i := int(n) - 1; i >= 0 && !found; i-- {
			e := p.Ev[i]
			if e.Loop != nil {
				unclear := false
				walk([]*Event{e}, nil, func(x *Event, up []*IterPath) {
					s := st
					if len(up) > 0 && up[len(up)-1].End != nil {
						s = up[len(up)-1].End
					}
					if k, _ := cover(s, x, af.Args[0].Key(), a.Args[1]); k != 0 {
						unclear = true
					}
				})
				if unclear {
					return v
				}
				continue
			}
			k, w := cover(st, e, af.Args[0].Key(), a.Args[1])
			if k == 2 {
				return v
			}
			if k == 1 {
				v, found = w, true
			}
		}
		if !found {
			return v
		}
	}
	return v
}

func (m *mark) nonzero(x markEv) bool {
	return !x.lost && !x.cut && x.v != nil && x.st.decide(eqInt(x.v, Int(0))) == -1
}
func (m *mark) zero(x markEv) bool {
	return !x.lost && !x.cut && x.v != nil && x.st.decide(eqInt(x.v, Int(0))) == 1
}
func (x markEv) String() string {
	switch {
	case x.cut:
		return "cuts the mark off"
	case x.lost:
		return "may overwrite the mark"
	case x.v == nil:
		return "overwrites the mark"
	}
	return "sets the mark to " + clip(x.v.Key())
}

// never: nothing on the path clears the mark.
func (m *mark) never(p *Path, what string) {
	for _, x := range m.trace(p) {
		m.c.obPath(m.nonzero(x), "mark-kept", p, x.e.Pos, p.Fn.Name()+" "+x.e.Kind, "%s: %s", what, x)
	}
}

// clears checks the paths that may clear the mark: it's cleared only after all
// the other effects on the file have succeeded, and last.
func (m *mark) clears(p *Path, must bool, what string) {
	c := m.c
	tr := m.trace(p)
	cleared := -1
	for _, x := range tr {
		if m.nonzero(x) {
			continue
		}
		if !c.obPath(m.zero(x) && !x.inner, "mark-kept", p, x.e.Pos, p.Fn.Name()+" "+x.e.Kind, "%s: %s", what, x) {
			return
		}
		if cleared < 0 {
			cleared = x.idx
		}
	}
	if cleared < 0 {
		c.obPath(!(must && p.OK()), "mark-cleared", p, p.Fn.Pos(), p.Fn.Name(), "%s succeeds though the file stays locked", p.Fn.Name())
		return
	}
	empty := eqInt(m.in.sizeOf(m.in.NewState(), m.file), Int(0))
	if p.St.decide(empty) == 1 {
		return // a file that is being created
	}
	pend := map[string]bool{}
	for i, e := range p.Ev {
		bad := ""
		each1(e, p.St, func(e *Event, st *State) {
			if e.Obj == nil || e.Obj.Key() != m.file.Key() {
				return
			}
			if i < cleared {
				switch e.Kind {
				case "write", "seek", "truncate", "flush":
					if st.isNil(e.Err) != 1 {
						bad = "though the " + e.Kind + " before may have failed"
					}
				}
				if e.Kind == "write" && e.Sub == "buffered" {
					pend[e.Args[0].Key()] = true
				}
				if e.Kind == "flush" {
					delete(pend, e.Args[0].Key())
				}
				return
			}
			if i > cleared {
				switch e.Kind {
				case "write":
					at, ok := constInt(e.At)
					n, okn := constInt(e.Seq.length())
					if must || !ok || !okn || at != m.L || n != 1 {
						bad = "and the file is changed after that"
					}
				case "truncate":
					bad = "and the file is changed after that"
				}
			}
		})
		if i == cleared {
			if len(pend) > 0 {
				bad = "though there is buffered data that hasn't been written to the file"
			}
			if e.Sub == "buffered" {
				bad = "in a buffer together with other data"
			}
		}
		c.obPath(bad == "", "mark-cleared-last", p, p.Ev[cleared].Pos, p.Fn.Name(), "%s: the mark is cleared %s", what, bad)
	}
}

func each1(e *Event, st *State, f func(e *Event, st *State)) {
	f(e, st)
	if e.Loop != nil {
		for _, it := range e.Loop.Iters {
			s := it.End
			if s == nil {
				s = st
			}
			for _, x := range it.Events {
				each1(x, s, f)
			}
		}
	}
}

// opens checks the paths that open a file: refuses locked files untouched, and
// leaves the mark set.
func (m *mark) opens(p *Path, what string) {
	c := m.c
	empty := eqInt(m.in.sizeOf(m.in.NewState(), m.file), Int(0))
	unlocked := eqInt(app("in", m.file, Int(m.L)), Int(0))
	fresh := p.St.decide(empty) == 1
	ok := p.St.decide(unlocked) == 1
	// nothing is changed before the file is known to be empty or unlocked
	read := false
	p.each(func(e *Event, st *State, idx int, inner bool) {
		if e.Obj == nil || e.Obj.Key() != m.file.Key() {
			return
		}
		switch e.Kind {
		case "read":
			n := e.Seq.length()
			if st.decide(le0(sub(e.At, Int(m.L)))) == 1 && st.decide(le0(sub(Int(m.L+1), add(e.At, n)))) == 1 {
				read = true
			}
		case "write", "truncate":
			c.obPath(fresh || read && ok, "locked-untouched", p, e.Pos, p.Fn.Name()+" "+e.Name, "%s: a file that may be locked is changed", what)
		}
	})
	if !p.OK() {
		return
	}
	c.obPath(fresh || ok, "locked-refused", p, p.Fn.Pos(), p.Fn.Name(), "%s succeeds for a locked file", what)
	m.leavesSet(p, what)
}

func (m *mark) leavesSet(p *Path, what string) {
	c := m.c
	tr := m.trace(p)
	if !c.obPath(len(tr) > 0, "mark-set", p, p.Fn.Pos(), p.Fn.Name(), "%s doesn't lock the file", what) {
		return
	}
	x := tr[len(tr)-1]
	c.obPath(m.nonzero(x) && !x.inner, "mark-set", p, x.e.Pos, p.Fn.Name(), "%s leaves the file unlocked: it %s", what, x)
	c.obPath(m.flushed(p), "mark-set", p, x.e.Pos, p.Fn.Name()+" flush", "%s leaves the mark in a buffer", what)
	c.obPath(p.St.isNil(x.e.Err) == 1, "mark-set", p, x.e.Pos, p.Fn.Name()+" error", "%s succeeds though locking failed", what)
}

// flushed: no data for the file is left in a buffer at the end of the path.
func (m *mark) flushed(p *Path) bool {
	pend := map[string]bool{}
	p.each(func(e *Event, st *State, _ int, _ bool) {
		if e.Obj == nil || e.Obj.Key() != m.file.Key() {
			return
		}
		if e.Kind == "write" && e.Sub == "buffered" {
			pend[e.Args[0].Key()] = true
		}
		if e.Kind == "flush" {
			delete(pend, e.Args[0].Key())
		}
	})
	return len(pend) == 0
}

// ---- delta

// fileField finds the field of a storage that holds its file.
func (c *Ctx) fileField(t types.Type) (leaf, bool) {
	pt, ok := t.(*types.Pointer)
	if ok {
		for _, l := range leaves(pt.Elem()) {
			if ioParam(l.t) && types.NewMethodSet(l.t).Lookup(nil, "Write") != nil {
				return l, true
			}
		}
	}
	c.missing("the field of " + t.String() + " that holds its file")
	return leaf{}, false
}

// counters is the invariant of a storage's counters: they aren't negative and
// the pending entries start after the header.
type counters struct {
	recv   Val
	fields map[string]leaf // by the key of the initial value
	E      Val             // the offset of the first pending entry
	end    int64           // the end of the header
}

// entriesOffset finds where a path starts to write entries.
func entriesStart(p *Path, file Val) Val {
	for _, e := range p.Ev {
		if e.Loop == nil {
			continue
		}
		found := false
		walk([]*Event{e}, nil, func(x *Event, _ []*IterPath) {
			if x.Kind == "write" && x.Obj != nil && x.Obj.Key() == file.Key() {
				found = true
			}
		})
		if h := e.Loop.Havoc["#pos:"+file.Key()]; found && h != nil {
			return h.Init
		}
	}
	return nil
}

func (c *Ctx) counters(in *Interp, t types.Type, flush *ssa.Function, recv, file Val, end int64) *counters {
	k := &counters{recv: recv, fields: map[string]leaf{}, end: end}
	for _, q := range okPaths(c.run(in, flush, in.args(flush, "", argFor{ptrTo(t.(*types.Pointer).Elem()), recv}), nil, nil)) {
		if e := entriesStart(q, file); e != nil {
			if k.E != nil && k.E.Key() != e.Key() {
				c.missing("one offset of the pending entries")
				return nil
			}
			k.E = e
		}
	}
	if k.E == nil {
		c.missing("the offset of the pending entries")
		return nil
	}
	byKey := map[string]leaf{}
	for _, l := range leaves(t.(*types.Pointer).Elem()) {
		byKey[recv.Key()+l.path] = l
	}
	_, coef, _ := linOf(k.E)
	for a := range coef {
		l, ok := byKey[a]
		if !ok {
			c.missing("the counter " + a + " the offset of pending entries depends on")
			return nil
		}
		k.fields[a] = l
	}
	return k
}

// at evaluates the invariant for an object in a state.
func (k *counters) at(in *Interp, st *State, obj Val) (conds []Val) {
	vals := map[string]Val{}
	for a, l := range k.fields {
		vals[a] = in.loadField(st, obj, l)
		conds = append(conds, le0(mulc(vals[a], -1)))
	}
	e := subst(k.E, func(v Val) Val { return vals[v.Key()] })
	return append(conds, le0(sub(Int(k.end), e)))
}

func (k *counters) assume(in *Interp, st *State) *State {
	for _, f := range k.at(in, st, k.recv) {
		st.addFact(f, true)
	}
	return st
}

func deltaLockRules(c *Ctx) {
	p := c.proto(deltaSpec)
	if p == nil {
		return
	}
	L, end, ok := p.offsets()
	st, ft := c.impl("domain", "DeltaStorage"), c.impl("domain", "DeltaStorageFactory")
	iface := c.named("domain", "DeltaStorage")
	if !ok || st == nil || ft == nil || iface == nil {
		return
	}
	// opening and recovery
	in := NewInterp(c.w, Config{})
	file := in.namedSym("file", types.NewInterfaceType(nil, nil))
	m := &mark{c, in, L, file}
	open, rec, om := c.meth(ft, "Open"), c.meth(ft, "Recover"), c.meth(ft, "OpenMaybeRecover")
	if open == nil || rec == nil || om == nil {
		return
	}
	var opened []*Path
	for _, q := range c.run(in, open, in.args(open, "", argFor{ioParam, file}), nil, nil) {
		m.opens(q, "opening")
		if q.OK() {
			opened = append(opened, q)
		}
	}
	c.count("successful paths of Open", len(opened), 2)
	n := 0
	for _, q := range c.run(in, rec, in.args(rec, "", argFor{ioParam, file}), nil, nil) {
		m.clears(q, true, "recovery")
		if q.OK() {
			n++
		}
	}
	c.count("successful paths of Recover", n, 1)
	n = 0
	for _, q := range c.run(in, om, in.args(om, "", argFor{ioParam, file}), nil, nil) {
		m.clears(q, false, "opening with recovery")
		if q.OK() {
			n++
			m.leavesSet(q, "opening with recovery")
		}
	}
	c.count("successful paths of OpenMaybeRecover", n, 2)
	// the storage
	fl, ok := c.fileField(st)
	flush, cl := c.meth(st, "Flush"), c.meth(st, "Close")
	if !ok || flush == nil || cl == nil {
		return
	}
	in3 := NewInterp(c.w, Config{})
	elem := st.(*types.Pointer).Elem()
	recv := in3.namedSym("s", st)
	sfile := in3.loadField(in3.NewState(), recv, fl)
	k := c.counters(in3, st, flush, recv, sfile, end)
	if k == nil {
		return
	}
	for _, q := range opened {
		for _, f := range k.at(in, q.St, q.Rets[0]) {
			c.obPath(q.St.decide(f) == 1, "counters", q, open.Pos(), open.Name(), "a storage that has just been opened may violate the invariant %s", clip(f.Key()))
		}
		same := in.loadField(q.St, q.Rets[0], fl)
		c.obPath(unwrap(same).Key() == file.Key(), "same-file", q, open.Pos(), open.Name(), "the storage doesn't use the file that has been opened")
	}
	m3 := &mark{c, in3, L, unwrap(sfile)}
	it := iface.Underlying().(*types.Interface)
	n = 0
	for i := 0; i < it.NumMethods(); i++ {
		fn := c.meth(st, it.Method(i).Name())
		if fn == nil {
			continue
		}
		base := k.assume(in3, in3.NewState())
		for _, q := range c.run(in3, fn, in3.args(fn, "", argFor{ptrTo(elem), recv}), nil, base) {
			n++
			if fn == cl {
				m3.clears(q, true, "closing")
				continue
			}
			m3.never(q, "the storage is open")
			if q.End != "" {
				continue
			}
			for _, f := range k.at(in3, q.St, recv) {
				c.obPath(q.St.decide(f) == 1, "counters", q, fn.Pos(), fn.Name(), "%s may violate the invariant %s", fn.Name(), clip(f.Key()))
			}
			c.obPath(unwrap(in3.loadField(q.St, recv, fl)).Key() == m3.file.Key(), "same-file", q, fn.Pos(), fn.Name(), "%s replaces the file", fn.Name())
		}
	}
	c.count("paths of the methods of the delta storage", n, 12)
}

// ---- index

func indexLockRules(c *Ctx) {
	p := c.proto(indexSpec)
	if p == nil {
		return
	}
	L, _, ok := p.offsets()
	st, ft := c.impl("domain", "IndexStorage"), c.impl("domain", "IndexStorageFactory")
	iface := c.named("domain", "IndexStorage")
	if !ok || st == nil || ft == nil || iface == nil {
		return
	}
	in := NewInterp(c.w, Config{})
	file := in.namedSym("file", types.NewInterfaceType(nil, nil))
	closer := in.namedSym("closer", types.NewInterfaceType(nil, nil))
	m := &mark{c, in, L, file}
	isCloser := func(t types.Type) bool {
		return ioParam(t) && types.NewMethodSet(t).Lookup(nil, "Write") == nil
	}
	fl, okf := c.fileField(st)
	if open := c.meth(ft, "Open"); open != nil && okf {
		n := 0
		for _, q := range c.run(in, open, in.args(open, "", argFor{isCloser, closer}, argFor{ioParam, file}), nil, nil) {
			m.opens(q, "opening")
			if q.OK() {
				n++
				c.obPath(unwrap(in.loadField(q.St, q.Rets[0], fl)).Key() == file.Key(), "same-file", q, open.Pos(), open.Name(), "the storage doesn't use the file that has been opened")
			}
			// a locked file is reported as corrupted
			if !q.OK() && !q.ioFailed() && q.St.decide(eqInt(app("in", file, Int(L)), Int(0))) == -1 {
				c.obPath(c.isCorrupted(q.Err), "locked-corrupted", q, open.Pos(), open.Name(), "a locked file isn't reported as corrupted (%s)", ending(q))
			}
		}
		c.count("successful paths of Open", n, 2)
	}
	cl := c.meth(st, "Close")
	in2 := NewInterp(c.w, Config{})
	recv := in2.namedSym("s", st)
	if !okf || cl == nil {
		return
	}
	sfile := unwrap(in2.loadField(in2.NewState(), recv, fl))
	m2 := &mark{c, in2, L, sfile}
	it := iface.Underlying().(*types.Interface)
	n := 0
	for i := 0; i < it.NumMethods(); i++ {
		fn := c.meth(st, it.Method(i).Name())
		if fn == nil {
			continue
		}
		for _, q := range c.run(in2, fn, in2.args(fn, "", argFor{ptrTo(st.(*types.Pointer).Elem()), recv}), nil, nil) {
			n++
			if fn == cl {
				m2.clears(q, true, "closing")
				continue
			}
			m2.never(q, "the storage is open")
			c.obPath(q.End != "" || unwrap(in2.loadField(q.St, recv, fl)).Key() == sfile.Key(), "same-file", q, fn.Pos(), fn.Name(), "%s replaces the file", fn.Name())
		}
	}
	c.count("paths of the methods of the index storage", n, 8)
	// the iterator
	rp := c.proto(recdbSpec)
	ni := c.fn("infra/recdb.NewIterator")
	if rp == nil || ni == nil {
		return
	}
	RL, _, ok := rp.offsets()
	if !ok {
		return
	}
	in3 := NewInterp(c.w, Config{})
	locked := eqInt(app("in", file, Int(RL)), Int(0))
	n = 0
	args := in3.args(ni, "", argFor{ioParam, file}, argFor{isType(c.named("infra/recdb", "Protocol")), mkIface(rp.t, in3.namedSym("p", rp.t))})
	for _, q := range c.run(in3, ni, args, nil, nil) {
		q.each(func(e *Event, _ *State, _ int, _ bool) {
			if e.Kind == "write" || e.Kind == "truncate" {
				c.obPath(false, "locked-untouched", q, e.Pos, ni.Name()+" "+e.Name, "creating an iterator changes the file")
			}
		})
		if q.OK() {
			n++
			c.obPath(q.St.decide(locked) == 1, "locked-refused", q, ni.Pos(), ni.Name(), "a locked RECDB file is iterated over")
		} else if !q.ioFailed() && q.St.decide(locked) == -1 {
			c.obPath(c.isCorrupted(q.Err), "locked-corrupted", q, ni.Pos(), ni.Name(), "a locked file isn't reported as corrupted (%s)", ending(q))
		}
	}
	c.count("successful paths of NewIterator", n, 1)
	_ = token.NoPos
}
