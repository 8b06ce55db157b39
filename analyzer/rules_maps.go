package main

// The maps of the storages and how they correspond to the entries of files.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C10", "On every successful path of Flush and Close: a loop over all the pending users, in it a loop over all the user's pending operations, each iteration of which writes one entry made of the user and the fields of that operation, from the offset on where the counters say that the stored entries end; the header's count is the total counter; the pending operations have been appended to the remembered ones user by user, nothing is pending any more. On every failing path: neither the maps nor the counters have changed. Every method keeps the counters in step with the pending list.", flushRules)
	register("C11", "Open: a loop of exactly as many iterations as the header counts, each of which reads one entry and appends its operation to its user's list. Add: on each path the user's list, and only it, has the operation replaced that the facts show to be of the same item, or has one appended, and the counters grow by the change of the length of the list. Get: scans of the lists backwards, the pending one first. The reported counts as functions of the state.", deltaMapRules)
	register("C12", "Close: one loop over all associations that writes one entry each, from the end of the header on, whose count is the size of the map. Open: a loop of exactly as many iterations as the header counts, each of which reads one entry and associates its key with its value. Get, Put and Remove as updates of the map.", indexMapRules)
}

func only(c *Ctx, ls []leaf, what string) (leaf, bool) {
	if len(ls) != 1 {
		c.missing("one " + what)
		return leaf{}, false
	}
	return ls[0], true
}

func mapLeaves(t types.Type) (out []leaf) {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	for _, l := range leaves(t) {
		if _, ok := l.t.Underlying().(*types.Map); ok {
			out = append(out, l)
		}
	}
	return
}

// exactly: the loop has been left after exactly n complete iterations.
func exactly(q *Path, l *LoopSum, n Val) bool { return exactlyIn(q.St, l, n) }
func exactlyIn(st *State, l *LoopSum, n Val) bool {
	if st.decide(le0(sub(n, l.Count))) != 1 {
		return false
	}
	for _, it := range l.Iters {
		if it.End.decide(le0(sub(addc(l.Count, 1), n))) != 1 {
			return false
		}
	}
	return true
}

// ranged: the loop goes through all the keys of the map value m; the key of an
// iteration.
func ranged(q *Path, l *LoopSum, m Val) bool {
	for _, it := range l.Iters {
		if keyOf(it, m) == nil {
			return false
		}
	}
	// left by exhaustion
	seen := false
	for _, e := range q.Ev {
		if e.Loop == l {
			seen = true
			continue
		}
		if seen {
			return e.Kind == "rangeend" && e.Obj.Key() == m.Key()
		}
	}
	return false
}

// gathered: the loop goes through a list to which another one has appended the
// keys of the map, or structures with the keys and what belongs to them. The
// results are what an iteration takes from the list.
func gathered(q *Path, l *LoopSum, m, content Val) (key Val, values []Val) {
	for _, e := range q.Ev {
		if e.Loop == l {
			break
		}
		g := e.Loop
		if g == nil || len(g.Iters) == 0 || !ranged(q, g, m) || q.St.decide(eqInt(g.Count, l.Count)) != 1 {
			continue
		}
		for _, h := range g.Havoc {
			at := q.In.toSlice(h.At)
			n, ok := constInt(q.In.lenOf(q.St, h.Init))
			if at == nil || !ok || n != 0 || !same(at.Len, g.Count) {
				continue
			}
			now := q.St.content(at.Base, at.Off, at.Len)
			next := q.collected(g, at)
			if len(next) != len(g.Iters) || len(now.Segs) != 1 {
				continue
			}
			item := app("elem", now.Segs[0].V, l.Count)
			for i, it := range g.Iters {
				n, _, _ := q.In.appended(it.End, h.At, next[i])
				k := keyOf(it, m)
				x := next[i]
				last := it.End.seqElem(it.End.content(x.Base, x.Off, x.Len), g.Count, nil)
				var ik Val
				var ivs []Val
				if same(last, k) {
					ik = item
				}
				if a, ok := last.(*Agg); ok && a.T != nil && len(a.Fields) == a.T.NumFields() {
					for j, f := range a.Fields {
						part := app("field:"+a.T.Field(j).Name(), item)
						if same(f, k) && ik == nil {
							ik = part
						}
						if same(f, app("mapget", content, k)) {
							ivs = append(ivs, part)
						}
					}
				}
				for j := range ivs {
					if i > 0 && (len(ivs) != len(values) || !same(ivs[j], values[j])) {
						return nil, nil
					}
				}
				if n != 1 || ik == nil || key != nil && !same(key, ik) || i > 0 && len(ivs) != len(values) {
					return nil, nil
				}
				key, values = ik, ivs
			}
			if key != nil {
				return key, append(values, app("mapget", content, key))
			}
		}
	}
	return nil, nil
}

func keyOf(it *IterPath, m Val) Val {
	var k Val
	for _, e := range it.Events {
		if e.Kind == "rangemap" {
			if e.Obj.Key() != m.Key() || k != nil {
				return nil
			}
			k = e.Args[0]
		}
	}
	return k
}

// changesMap: the events change the map somewhere.
func changesMap(evs []*Event, m Val) (at *Event) {
	walk(evs, nil, func(e *Event, _ []*IterPath) {
		switch e.Kind {
		case "mapupdate", "mapdelete", "mapclear":
			if e.Obj.Key() == m.Key() {
				at = e
			}
		}
	})
	return
}

func emptyMap(st *State, m Val) bool {
	ms := st.mapOf(m)
	return isNilConst(ms.Base) && len(ms.Upd) == 0
}

// extended: got is the list old, or nothing if it's known to be empty, followed
// by one value, which is returned.
func extended(st *State, got *Seq, old Val) Val {
	segs := got.Segs
	if len(segs) == 0 {
		return nil
	}
	last := segs[len(segs)-1]
	if n, ok := constInt(last.Len); last.Kind != "val" || !ok || n != 1 {
		return nil
	}
	if !isList(st, mkSeq(segs[:len(segs)-1]...), old) {
		return nil
	}
	return last.V
}

// isList: the sequence is the contents of the list.
func isList(st *State, q *Seq, list Val) bool {
	n := app("len", list)
	if len(q.Segs) == 0 {
		return isNilConst(list) || st.decide(eqInt(n, Int(0))) == 1
	}
	g := q.Segs[0]
	return len(q.Segs) == 1 && g.Kind == "sub" && g.V != nil && g.V.Key() == list.Key() && g.Off.Key() == Int(0).Key() && st.decide(eqInt(g.Len, n)) == 1
}

// deltaStore is what's known about the implementation of the delta storage.
type deltaStore struct {
	c                    *Ctx
	p                    *proto
	t, elem              types.Type // pointer to the storage, element of the lists
	opF, itemF           leaf       // of the element
	file                 leaf
	pending, cache       leaf
	total, unflushed     leaf
	end                  int64
	flush, cl, add, open *ssa.Function
	sum, src             Val
}

func (c *Ctx) deltaStore() *deltaStore {
	d := &deltaStore{c: c, p: c.proto(deltaSpec), t: c.impl("domain", "DeltaStorage")}
	op := c.named("domain", "DeltaOp")
	ft := c.impl("domain", "DeltaStorageFactory")
	if d.p == nil || d.t == nil || op == nil || ft == nil {
		return nil
	}
	_, end, ok := d.p.offsets()
	d.end = end
	fl, okf := c.fileField(d.t)
	d.file = fl
	d.flush, d.cl, d.add, d.open = c.meth(d.t, "Flush"), c.meth(d.t, "Close"), c.meth(d.t, "Add"), c.meth(ft, "Open")
	if !ok || !okf || d.flush == nil || d.cl == nil || d.add == nil || d.open == nil {
		return nil
	}
	// the maps
	ms := mapLeaves(d.t)
	if len(ms) != 2 || !types.Identical(ms[0].t, ms[1].t) {
		c.missing("the two maps of the delta storage")
		return nil
	}
	el, ok := ms[0].t.Underlying().(*types.Map).Elem().Underlying().(*types.Slice)
	if !ok {
		c.missing("lists of operations in the maps of the delta storage")
		return nil
	}
	d.elem = el.Elem()
	var ops, items []leaf
	for _, l := range leaves(d.elem) {
		if types.Identical(l.t, op) {
			ops = append(ops, l)
		} else if b, ok := l.t.Underlying().(*types.Basic); ok && b.Kind() == types.Uint64 {
			items = append(items, l)
		}
	}
	ok = false
	if d.opF, ok = only(c, ops, "operation in an element of the delta lists"); !ok {
		return nil
	}
	if d.itemF, ok = only(c, items, "item in an element of the delta lists"); !ok {
		return nil
	}
	// the pending map is the one that a new operation is added to
	in := NewInterp(c.w, Config{})
	recv := in.namedSym("s", d.t)
	for _, q := range c.run(in, d.add, in.args(d.add, "", argFor{ptrTo(d.t.(*types.Pointer).Elem()), recv}), nil, nil) {
		for i, l := range ms {
			if changesMap(q.Ev, in.loadField(in.NewState(), recv, l)) != nil {
				d.pending, d.cache = l, ms[1-i]
			}
		}
	}
	if d.pending.path == "" {
		c.missing("the map of pending operations")
		return nil
	}
	// the counters
	var cands []leaf
	for _, l := range leaves(d.t.(*types.Pointer).Elem()) {
		if isInteger(l.t) {
			cands = append(cands, l)
		}
	}
	tf := c.meth(d.t, "GetTotalItemCount")
	if tf == nil {
		return nil
	}
	for _, q := range c.run(in, tf, in.args(tf, "", argFor{ptrTo(d.t.(*types.Pointer).Elem()), recv}), nil, nil) {
		for _, l := range cands {
			if q.End == "" && q.Rets[0].Key() == in.loadField(in.NewState(), recv, l).Key() {
				d.total = l
			}
		}
	}
	file := unwrap(in.loadField(in.NewState(), recv, d.file))
	k := c.counters(in, d.t, d.flush, recv, file, end)
	if k == nil || d.total.path == "" {
		c.missing("the counter of all the operations")
		return nil
	}
	for _, l := range cands {
		if l != d.total && k.E.Key() == d.offset(in, in.NewState(), recv, l).Key() {
			d.unflushed = l
		}
	}
	if d.unflushed.path == "" {
		c.missing("the counter of pending operations that the offset " + clip(k.E.Key()) + " depends on")
		return nil
	}
	// the checksum
	sumFn := c.meth(d.p.t, "CalcEntryChecksum")
	if sumFn == nil {
		return nil
	}
	d.src = in.namedSym("src", types.NewPointer(d.p.en))
	for _, q := range c.run(in, sumFn, in.args(sumFn, "", argFor{ptrTo(d.p.en), d.src}), nil, nil) {
		if q.End == "" {
			d.sum = q.Rets[0]
		}
	}
	return d
}

// offset is where the pending entries go: after the header and those stored.
func (d *deltaStore) offset(in *Interp, st *State, recv Val, unflushed leaf) Val {
	return addc(mulc(sub(in.loadField(st, recv, d.total), in.loadField(st, recv, unflushed)), deltaAt.size), d.end)
}

func (d *deltaStore) args(in *Interp, fn *ssa.Function, recv Val, sp ...argFor) []Val {
	return in.args(fn, "", append(sp, argFor{ptrTo(d.t.(*types.Pointer).Elem()), recv})...)
}

// unchanged: the path leaves the maps and counters as they were.
func (d *deltaStore) unchanged(q *Path, recv Val) bool {
	st0 := q.In.NewState()
	for _, l := range []leaf{d.pending, d.cache, d.total, d.unflushed, d.file} {
		v := q.In.loadField(st0, recv, l)
		if q.In.loadField(q.St, recv, l).Key() != v.Key() {
			return false
		}
		if l == d.pending || l == d.cache {
			if changesMap(q.Ev, v) != nil || q.St.mapOf(v).Key() != st0.mapOf(v).Key() {
				return false
			}
		}
	}
	same := true
	walk(q.Ev, nil, func(e *Event, _ []*IterPath) {
		if e.Kind == "store" && e.Obj != nil {
			if p, ok := e.Obj.(*Ptr); ok && p.O.Kind == "sym" && !strings.HasPrefix(p.O.Name, recv.Key()) {
				same = false
			}
		}
	})
	return same
}

// entryLoop checks that the path writes all the pending operations.
func (d *deltaStore) entryLoop(q *Path, recv, file Val) {
	c := d.c
	fn := q.Fn
	fail := func(ok bool, rule, construct, format string, args ...any) bool {
		return c.obPath(ok, rule, q, fn.Pos(), fn.Name()+" "+construct, format, args...)
	}
	st0 := q.In.NewState()
	pend := q.In.loadField(st0, recv, d.pending)
	wl := streamLoops(q, "write", file)
	if !fail(len(wl) == 1, "all-written", "loop", "%s doesn't write the pending operations in one go", fn.Name()) {
		return
	}
	l := wl[0].Loop
	fail(ranged(q, l, pend), "all-written", "users", "%s may leave out users with pending operations", fn.Name())
	h := iterPos(l, file)
	if !fail(h != nil, "all-written", "position", "the position in the file isn't known") {
		return
	}
	want := d.offset(q.In, st0, recv, d.unflushed)
	fail(h.Init.Key() == want.Key(), "place", "offset", "%s writes the entries from %s on, the stored ones end at %s", fn.Name(), clip(h.Init.Key()), clip(want.Key()))
	for _, it := range l.Iters {
		k := keyOf(it, pend)
		if k == nil {
			continue
		}
		list := appT(nil, "mapget", app("map0", q.In.deref(pend)), k)
		n := app("len", list)
		end := q.In.posOf(it.End, file)
		fail(it.End.decide(eqInt(end, add(h.At, mulc(n, deltaAt.size)))) == 1, "all-written", "user", "the entries of a user end at %s rather than %d bytes after %s for each operation", clip(end.Key()), deltaAt.size, clip(h.At.Key()))
		var inner []*LoopSum
		for _, e := range it.Events {
			if e.Loop != nil {
				if len(usesOfAll([]*Event{e}, "write", file)) > 0 {
					inner = append(inner, e.Loop)
				}
				continue
			}
			if e.Kind == "write" && e.Obj.Key() == file.Key() {
				fail(false, "all-written", "extra", "%s writes something besides the operations of a user", fn.Name())
			}
		}
		// no inner loop: the user has no operations, which the end position shows
		for _, x := range inner {
			for _, jt := range x.Iters {
				d.writtenEntry(q, jt, x, list, k, file)
			}
		}
		fail(len(inner) <= 1, "all-written", "once", "the operations of a user are written by several loops")
	}
}

func usesOfAll(evs []*Event, kind string, stream Val) (out []*Event) {
	walk(evs, nil, func(e *Event, _ []*IterPath) {
		if e.Kind == kind && e.Obj != nil && e.Obj.Key() == stream.Key() {
			out = append(out, e)
		}
	})
	return
}

// writtenEntry: the iteration writes the operation of the list that it stands for.
func (d *deltaStore) writtenEntry(q *Path, it *IterPath, l *LoopSum, list, user, file Val) {
	c := d.c
	fail := func(ok bool, rule, construct, format string, args ...any) bool {
		return c.obPath(ok, rule, q, q.Fn.Pos(), q.Fn.Name()+" "+construct, format, args...)
	}
	im := imageOf(it.Events, file.Key())
	n, ok := constInt(im.Len)
	if !fail(im.OK && ok && n == deltaAt.size, "entry", "size", "an iteration writes %s bytes rather than one entry", clip(im.Len.Key())) {
		return
	}
	h := iterPos(l, file)
	fail(h != nil && im.Start != nil && im.Start.Key() == h.At.Key(), "entry", "contiguous", "entries aren't written one after another")
	el := project(appT(d.elem, "elem", list, l.Count), "", d.elem)
	op, item := project(el, d.opF.path, d.opF.t), project(el, d.itemF.path, d.itemF.t)
	want := make([]Val, n)
	want[deltaAt.op] = op
	for i := int64(0); i < 8; i++ {
		want[deltaAt.user+i] = byteOf(user, int(7-i))
		want[deltaAt.item+i] = byteOf(item, int(7-i))
	}
	want[deltaAt.sum] = subst(d.sum, func(v Val) Val {
		switch v.Key() {
		case d.src.Key() + ".Op":
			return op
		case d.src.Key() + ".UserID":
			return user
		case d.src.Key() + ".ItemID":
			return item
		}
		return nil
	})
	for i := range want {
		b := im.byteAt(Int(int64(i)))
		fail(b != nil && it.End.decide(eqInt(b, want[i])) == 1, "entry", "bytes", "byte %d of an entry is %s, not that of the pending operation, %s", i, show(b), show(want[i]))
	}
}

func show(v Val) string {
	if v == nil {
		return "unknown"
	}
	return clip(v.Key())
}

// moved: the path has moved the pending operations to the remembered ones.
func (d *deltaStore) moved(q *Path, recv Val) {
	c := d.c
	fn := q.Fn
	fail := func(ok bool, construct, format string, args ...any) bool {
		return c.obPath(ok, "remembered", q, fn.Pos(), fn.Name()+" "+construct, format, args...)
	}
	st0 := q.In.NewState()
	pend, cache := q.In.loadField(st0, recv, d.pending), q.In.loadField(st0, recv, d.cache)
	fail(emptyMap(q.St, q.In.loadField(q.St, recv, d.pending)), "pending", "operations may still be pending after %s", fn.Name())
	un, tot := q.In.loadField(q.St, recv, d.unflushed), q.In.loadField(q.St, recv, d.total)
	fail(q.St.decide(eqInt(un, Int(0))) == 1, "unflushed", "the number of pending operations is %s after %s", clip(un.Key()), fn.Name())
	fail(tot.Key() == q.In.loadField(st0, recv, d.total).Key(), "total", "%s changes the number of operations to %s", fn.Name(), clip(tot.Key()))
	fail(q.In.loadField(q.St, recv, d.cache).Key() == cache.Key(), "cache", "%s replaces the remembered operations", fn.Name())
	var loops []*LoopSum
	cleared := false
	for _, e := range q.Ev {
		if e.Loop == nil {
			if changesMap([]*Event{e}, cache) != nil {
				fail(false, "cache", "the remembered operations are changed otherwise than by appending the pending ones")
			}
			if changesMap([]*Event{e}, pend) != nil {
				cleared = true
			}
			continue
		}
		if changesMap([]*Event{e}, pend) != nil {
			fail(removesOwn(e.Loop, pend), "pending order", "the pending operations are changed by a loop")
			cleared = cleared || changesMap([]*Event{e}, cache) == nil
		}
		if changesMap([]*Event{e}, cache) != nil {
			loops = append(loops, e.Loop)
			fail(!cleared, "pending order", "the pending operations are removed before they're remembered")
		}
	}
	if !fail(len(loops) == 1, "loop", "the pending operations are remembered by %d loops", len(loops)) {
		return
	}
	l := loops[0]
	fail(ranged(q, l, pend), "users", "%s may forget operations of some users", fn.Name())
	for _, it := range l.Iters {
		k := keyOf(it, pend)
		if k == nil {
			continue
		}
		list := app("mapget", app("map0", q.In.deref(pend)), k)
		if left := mapBefore(q.In, l, pend); left != nil && removesOwn(l, pend) {
			list = app("mapget", left, k) // only others have been removed
		}
		// element by element
		if inner := mapLoops(it.Events, cache); len(inner) > 0 {
			n := 0
			for _, e := range it.Events {
				if changesMap([]*Event{e}, cache) != nil {
					n++
				}
			}
			fail(n == 1, "appended", "the operations of a user are remembered in several steps")
			x := inner[0]
			fail(exactlyIn(it.End, x, app("len", list)), "appended", "not all the pending operations of a user are remembered")
			for _, jt := range x.Iters {
				old := mapBefore(q.In, x, cache)
				ms := jt.End.mapOf(cache)
				if !fail(old != nil && ms.Base.Key() == old.Key() && onlyKey(ms, k), "other users", "the operations of other users are changed") {
					continue
				}
				v, _ := jt.End.mapGet(ms, k, nil)
				got, _ := q.In.seqOf(jt.End, v)
				el := extended(jt.End, got, app("mapget", old, k))
				want := appT(d.elem, "elem", list, x.Count)
				fail(el != nil && sameValue(el, want, d.elem), "appended", "the operations of a user become %s, not the old ones followed by the next pending one", clip(got.Key()))
			}
			continue
		}
		ms := it.End.mapOf(cache)
		old := mapBefore(q.In, l, cache)
		if !fail(old != nil && ms.Base.Key() == old.Key() && onlyKey(ms, k), "other users", "the operations of other users are changed") {
			continue
		}
		v, _ := it.End.mapGet(ms, k, nil)
		got, _ := q.In.seqOf(it.End, v)
		before := app("mapget", old, k)
		ok := false
		for i := 0; i <= len(got.Segs); i++ {
			ok = ok || isList(it.End, mkSeq(got.Segs[:i]...), before) && isList(it.End, mkSeq(got.Segs[i:]...), list)
		}
		fail(ok, "appended", "the operations of a user become %s, not the old ones followed by the pending ones", clip(got.Key()))
	}
}

// removesOwn: an iteration changes the map only by removing the key that it's for.
func removesOwn(l *LoopSum, m Val) bool {
	for _, it := range l.Iters {
		k := keyOf(it, m)
		if k == nil {
			return false
		}
		ok := true
		walk(it.Events, nil, func(e *Event, _ []*IterPath) {
			switch e.Kind {
			case "mapupdate", "mapclear":
				ok = ok && e.Obj.Key() != m.Key()
			case "mapdelete":
				ok = ok && (e.Obj.Key() != m.Key() || len(e.Args) > 0 && e.Args[0].Key() == k.Key())
			}
		})
		if !ok {
			return false
		}
	}
	return true
}

// mapLoops returns the loops among the events that change the map.
func mapLoops(evs []*Event, m Val) (out []*LoopSum) {
	for _, e := range evs {
		if e.Loop != nil && changesMap([]*Event{e}, m) != nil {
			out = append(out, e.Loop)
		}
	}
	return
}

// mapBefore is the map at the beginning of an iteration.
func mapBefore(in *Interp, l *LoopSum, m Val) Val {
	p := in.deref(m)
	if p == nil {
		return nil
	}
	if h := l.Havoc[p.loc()+"#map"]; h != nil {
		if ms, ok := h.At.(*MapState); ok && len(ms.Upd) == 0 {
			return ms.Base
		}
	}
	return nil
}

// sameValue compares two values of a type field by field.
func sameValue(a, b Val, t types.Type) bool {
	for _, l := range leaves(t) {
		if project(a, l.path, l.t).Key() != project(b, l.path, l.t).Key() {
			return false
		}
	}
	return true
}

func onlyKey(ms *MapState, k Val) bool {
	for _, u := range ms.Upd {
		if u.K.Key() != k.Key() {
			return false
		}
	}
	return true
}

// idle: the path has found out that nothing is pending, and changes nothing.
func (d *deltaStore) idle(q *Path, recv, file Val) bool {
	st0 := q.In.NewState()
	none := q.St.decide(eqInt(app("maplen", st0.mapOf(q.In.loadField(st0, recv, d.pending))), Int(0))) == 1 ||
		q.St.decide(eqInt(q.In.loadField(st0, recv, d.unflushed), Int(0))) == 1
	beyond := len(usesOfAll(q.Ev, "truncate", file)) > 0
	q.each(func(e *Event, st *State, _ int, _ bool) {
		if e.Kind == "write" && e.Obj != nil && e.Obj.Key() == file.Key() {
			beyond = beyond || st.decide(le0(sub(add(e.At, e.Seq.length()), Int(d.end)))) != 1
		}
	})
	return none && !beyond && d.unchanged(q, recv)
}

func flushRules(c *Ctx) {
	d := c.deltaStore()
	if d == nil {
		return
	}
	in := NewInterp(c.w, Config{})
	recv := in.namedSym("s", d.t)
	k := c.counters(in, d.t, d.flush, recv, unwrap(in.loadField(in.NewState(), recv, d.file)), d.end)
	if k == nil {
		return
	}
	nOK, nFail := 0, 0
	for _, fn := range []*ssa.Function{d.flush, d.cl} {
		base := k.assume(in, in.NewState())
		for _, q := range c.run(in, fn, d.args(in, fn, recv), nil, base) {
			file := unwrap(in.loadField(in.NewState(), recv, d.file))
			if q.OK() {
				nOK++
				if d.idle(q, recv, file) {
					continue
				}
				d.entryLoop(q, recv, file)
				total := in.loadField(in.NewState(), recv, d.total)
				got := lastBytes(q, file, d.end-4, 4)
				c.obPath(got != nil && (got.Key() == total.Key() || isTrunc(got, total)), "count", q, fn.Pos(), fn.Name(), "the header counts %s entries though there are %s", show(got), clip(total.Key()))
				if fn == d.flush {
					d.moved(q, recv)
				}
				continue
			}
			nFail++
			if fn == d.flush || !d.unchanged(q, recv) {
				if fn == d.cl && d.idle(q, recv, file) {
					continue
				}
				if fn == d.cl && emptyMap(q.St, in.loadField(q.St, recv, d.pending)) {
					d.moved(q, recv) // failed after having flushed
					d.entryLoop(q, recv, file)
					continue
				}
				c.obPath(d.unchanged(q, recv), "kept", q, fn.Pos(), fn.Name(), "a failing %s changes the pending operations or the counts", fn.Name())
			}
		}
	}
	c.count("successful paths of Flush and Close", nOK, 2)
	c.count("failing paths of Flush and Close", nFail, 10)
	// the counters are in step with the pending lists
	iface := c.named("domain", "DeltaStorage").Underlying().(*types.Interface)
	for i := 0; i < iface.NumMethods(); i++ {
		fn := c.meth(d.t, iface.Method(i).Name())
		if fn == nil || fn == d.flush || fn == d.cl {
			continue
		}
		in := NewInterp(c.w, Config{})
		for _, q := range c.run(in, fn, d.args(in, fn, recv), nil, nil) {
			if q.End != "" {
				c.obPath(false, "counters", q, fn.Pos(), fn.Name(), "%s may end with %s", fn.Name(), q.End)
				continue
			}
			if fn != d.add {
				c.obPath(d.unchanged(q, recv), "counters", q, fn.Pos(), fn.Name(), "%s changes the storage", fn.Name())
				continue
			}
			d.grows(q, recv)
		}
	}
	in2 := NewInterp(c.w, Config{})
	file := in2.namedSym("file", types.NewInterfaceType(nil, nil))
	for _, q := range c.run(in2, d.open, in2.args(d.open, "", argFor{ioParam, file}), nil, nil) {
		if q.OK() {
			s := q.Rets[0]
			c.obPath(emptyMap(q.St, in2.loadField(q.St, s, d.pending)), "counters", q, d.open.Pos(), d.open.Name()+" pending", "a storage that has just been opened has pending operations")
			c.obPath(q.St.decide(eqInt(in2.loadField(q.St, s, d.unflushed), Int(0))) == 1, "counters", q, d.open.Pos(), d.open.Name()+" unflushed", "a storage that has just been opened counts pending operations")
		}
	}
}

func isTrunc(v, of Val) bool {
	a, ok := isApp(v, "trunc")
	if !ok {
		return false
	}
	bits, _ := constInt(a.Args[0])
	return bits == 32 && a.Args[1].Key() == of.Key()
}

// grows: the counters grow by the change of the length of the user's pending list.
func (d *deltaStore) grows(q *Path, recv Val) {
	c := d.c
	st0 := q.In.NewState()
	pend := q.In.loadField(st0, recv, d.pending)
	user := q.In.paramNamed(q.Fn, types.Typ[types.Uint64], 0)
	if user == nil {
		c.missing("the parameter of Add that is the user")
		return
	}
	ms := q.St.mapOf(pend)
	c.obPath(ms.Base.Key() == app("map0", q.In.deref(pend)).Key() && onlyKey(ms, user), "counters", q, q.Fn.Pos(), q.Fn.Name()+" users", "%s changes the pending operations of other users", q.Fn.Name())
	v, _ := q.St.mapGet(ms, user, d.pending.t.Underlying().(*types.Map).Elem())
	_, n := q.In.seqOf(q.St, v)
	old := app("len", app("mapget", app("map0", q.In.deref(pend)), user))
	diff := q.St.simp(sub(n, old))
	for _, l := range []leaf{d.total, d.unflushed} {
		g := sub(q.In.loadField(q.St, recv, l), q.In.loadField(st0, recv, l))
		c.obPath(q.St.decide(eqInt(g, diff)) == 1, "counters", q, q.Fn.Pos(), q.Fn.Name()+" "+l.path, "the counter %s grows by %s though the pending list grows by %s", l.path, clip(g.Key()), clip(diff.Key()))
	}
	for _, l := range []leaf{d.pending, d.cache} {
		c.obPath(q.In.loadField(q.St, recv, l).Key() == q.In.loadField(st0, recv, l).Key(), "counters", q, q.Fn.Pos(), q.Fn.Name()+" "+l.path, "%s replaces %s", q.Fn.Name(), l.path)
	}
	cache := q.In.loadField(st0, recv, d.cache)
	c.obPath(changesMap(q.Ev, cache) == nil, "counters", q, q.Fn.Pos(), q.Fn.Name()+" cache", "%s changes the operations that are stored", q.Fn.Name())
}

// paramNamed returns the symbol of the i-th parameter of a type.
func (in *Interp) paramNamed(fn *ssa.Function, t types.Type, i int) Val {
	for j, p := range fn.Params {
		if j == 0 && fn.Signature.Recv() != nil || !types.Identical(p.Type(), t) {
			continue
		}
		if i == 0 {
			return in.namedSym(p.Name(), p.Type())
		}
		i--
	}
	return nil
}

var _ = token.NoPos

// decodeAt is the big-endian number a stream has at an offset.
func decodeAt(stream, off Val, n int) Val {
	bs := make([]Val, n)
	for i := range bs {
		bs[i] = app("in", stream, addc(off, int64(i)))
	}
	return decode(bs)
}

// loadLoop checks that the path fills the map by a loop of exactly n iterations,
// each of which changes the map as entry says, at the place of the entry.
func loadLoop(c *Ctx, q *Path, file, m, n Val, end, size int64, entry func(it *IterPath, l *LoopSum, at Val, old Val)) {
	fn := q.Fn
	fail := func(ok bool, construct, format string, args ...any) bool {
		return c.obPath(ok, "loaded", q, fn.Pos(), fn.Name()+" "+construct, format, args...)
	}
	st0 := q.In.NewState()
	_ = st0
	loops := mapLoops(q.Ev, m)
	for _, e := range q.Ev {
		if e.Loop == nil && changesMap([]*Event{e}, m) != nil {
			fail(false, "other", "the map is filled with something besides the entries of the file")
		}
	}
	if len(loops) == 0 {
		if !emptyMap(q.St, m) {
			fail(false, "other", "the map of a new storage isn't empty")
		}
		fail(q.St.decide(eqInt(n, Int(0))) == 1, "all", "no entries are loaded though the file may have some")
		return
	}
	if !fail(len(loops) == 1, "loop", "the entries are loaded by %d loops", len(loops)) {
		return
	}
	l := loops[0]
	fail(exactly(q, l, n), "all", "the number of entries loaded isn't the one in the header")
	h := l.Havoc[q.In.deref(m).loc()+"#map"]
	if h != nil {
		ms, ok := h.Init.(*MapState)
		fail(ok && isNilConst(ms.Base) && len(ms.Upd) == 0, "other", "the map isn't empty when loading begins")
	}
	for _, it := range l.Iters {
		old := mapBefore(q.In, l, m)
		var first Val
		for _, e := range it.Events {
			if e.Kind == "read" && e.Obj.Key() == file.Key() && first == nil {
				first = e.At
			}
		}
		if !fail(old != nil && first != nil, "entry", "an iteration doesn't load an entry") {
			continue
		}
		want := addc(mulc(l.Count, size), end)
		fail(it.End.decide(eqInt(first, want)) == 1, "place", "an entry is read from %s rather than %s", clip(first.Key()), clip(want.Key()))
		if it.End.mapOf(m).Base.Key() != old.Key() {
			fail(false, "entry", "the entries loaded before are lost")
			continue
		}
		entry(it, l, want, old)
	}
}

func deltaMapRules(c *Ctx) {
	d := c.deltaStore()
	if d == nil {
		return
	}
	d.loads()
	d.adds()
	d.gets()
	d.totals()
}

func (d *deltaStore) loads() {
	c := d.c
	in := NewInterp(c.w, Config{})
	file := in.namedSym("file", types.NewInterfaceType(nil, nil))
	nNew, nOld := 0, 0
	for _, q := range c.run(in, d.open, in.args(d.open, "", argFor{ioParam, file}), nil, nil) {
		if !q.OK() {
			continue
		}
		fail := func(ok bool, construct, format string, args ...any) bool {
			return c.obPath(ok, "loaded", q, d.open.Pos(), d.open.Name()+" "+construct, format, args...)
		}
		s := unwrap(q.Rets[0])
		dyn, isI := q.Rets[0].(*Iface)
		if !fail(isI && in.deref(s) != nil && types.Identical(dyn.Dyn, d.t), "storage", "Open returns %s", clip(s.Key())) {
			continue
		}
		var n Val = Int(0)
		if len(usesOfAll(q.Ev, "read", file)) > 0 {
			nOld++
			n = decodeAt(file, Int(d.end-4), 4)
		} else {
			nNew++
			fail(q.St.decide(eqInt(app("size", file), Int(0))) == 1 || q.St.decide(eqInt(in.initialSize(file), Int(0))) == 1, "empty", "a file that isn't empty is opened without reading it")
		}
		for _, l := range []leaf{d.total} {
			v := in.loadField(q.St, s, l)
			fail(q.St.decide(eqInt(v, n)) == 1, "total", "the number of operations is %s after loading %s of them", clip(v.Key()), clip(n.Key()))
		}
		fail(q.St.decide(eqInt(in.loadField(q.St, s, d.unflushed), Int(0))) == 1 && emptyMap(q.St, in.loadField(q.St, s, d.pending)), "pending", "operations are pending in a storage that has just been opened")
		m := in.loadField(q.St, s, d.cache)
		loadLoop(c, q, file, m, n, d.end, deltaAt.size, func(it *IterPath, l *LoopSum, at, old Val) {
			user := decodeAt(file, addc(at, deltaAt.user), 8)
			ms := it.End.mapOf(m)
			if !fail(onlyKey(ms, user) && len(ms.Upd) > 0, "entry", "an iteration adds an operation to the list of another user than the entry's") {
				return
			}
			v, _ := it.End.mapGet(ms, user, nil)
			got, _ := in.seqOf(it.End, v)
			el := extended(it.End, got, app("mapget", old, user))
			if !fail(el != nil, "entry", "the operations of a user become %s, not the ones before followed by the one read", clip(got.Key())) {
				return
			}
			op, item := project(el, d.opF.path, d.opF.t), project(el, d.itemF.path, d.itemF.t)
			wop, witem := app("in", file, addc(at, deltaAt.op)), decodeAt(file, addc(at, deltaAt.item), 8)
			fail(it.End.decide(eqInt(op, wop)) == 1 && it.End.decide(eqInt(item, witem)) == 1, "entry", "the operation loaded is %s of %s, not the one in the file", clip(op.Key()), clip(item.Key()))
		})
	}
	c.count("successful paths of Open for new files", nNew, 1)
	c.count("successful paths of Open for existing files", nOld, 1)
}

func (in *Interp) initialSize(stream Val) Val { return in.sizeOf(in.NewState(), stream) }

// list is the initial list of a user in one of the maps.
func (d *deltaStore) list(in *Interp, recv Val, l leaf, user Val) Val {
	return app("mapget", app("map0", in.deref(in.loadField(in.NewState(), recv, l))), user)
}

// sameItem: the facts decide whether the element has the item.
func (d *deltaStore) sameItem(st *State, list, idx, item Val) int {
	it := project(appT(d.elem, "elem", list, idx), d.itemF.path, d.itemF.t)
	return st.decide(eqInt(it, item))
}

// scan: each iteration of the loop shows that one more element of the list,
// counted forwards (dir 1) or backwards (dir -1) from the first one, doesn't have
// the item.
func (d *deltaStore) scan(l *LoopSum, list, item Val) (first Val, dir int64) {
	if len(l.Iters) == 0 {
		return nil, 0
	}
	for _, idx := range d.looked(l.Iters[0].End, list) {
		first, dir := idx, int64(0)
		if k := coeff(idx, l.Count); k == 1 || k == -1 {
			first, dir = sub(idx, mulc(l.Count, k)), k
		}
		ok := dir != 0
		for _, it := range l.Iters {
			ok = ok && d.sameItem(it.End, list, idx, item) == -1
		}
		if ok {
			return first, dir
		}
	}
	return nil, 0
}

// looked are the indexes of the elements of the list that the facts are about.
func (d *deltaStore) looked(st *State, list Val) []Val {
	seen := map[string]bool{}
	var out []Val
	for _, ft := range factsSince(st.facts, 0) {
		visit(ft.C, func(v Val) {
			if e, ok := isApp(v, "elem"); ok && e.Args[0].Key() == list.Key() && !seen[e.Args[1].Key()] {
				seen[e.Args[1].Key()] = true
				out = append(out, e.Args[1])
			}
		})
	}
	return out
}

// absent: the path shows that the list doesn't have the item.
func (d *deltaStore) absent(q *Path, list, item Val) bool {
	n := app("len", list)
	if q.St.decide(eqInt(n, Int(0))) == 1 {
		return true
	}
	for _, e := range q.Ev {
		if e.Loop == nil || !exactly(q, e.Loop, n) {
			continue
		}
		first, dir := d.scan(e.Loop, list, item)
		if dir == 1 && q.St.decide(eqInt(first, Int(0))) == 1 || dir == -1 && q.St.decide(eqInt(first, addc(n, -1))) == 1 {
			return true
		}
	}
	return false
}

// lastOne: the path shows that the element is the last one with the item.
func (d *deltaStore) lastOne(q *Path, list, idx, item Val) bool {
	n := app("len", list)
	if d.sameItem(q.St, list, idx, item) != 1 {
		return false
	}
	if q.St.decide(eqInt(idx, addc(n, -1))) == 1 {
		return true
	}
	for _, e := range q.Ev {
		if e.Loop == nil {
			continue
		}
		first, dir := d.scan(e.Loop, list, item)
		switch {
		case dir == -1 && q.St.decide(eqInt(first, addc(n, -1))) == 1 && q.St.decide(eqInt(sub(first, e.Loop.Count), idx)) == 1:
			return true
		case dir == 1 && q.St.decide(eqInt(first, addc(idx, 1))) == 1 && exactly(q, e.Loop, sub(n, first)):
			return true
		}
	}
	return false
}

func (d *deltaStore) adds() {
	c := d.c
	in := NewInterp(c.w, Config{})
	recv := in.namedSym("s", d.t)
	user, item := in.paramNamed(d.add, types.Typ[types.Uint64], 0), in.paramNamed(d.add, types.Typ[types.Uint64], 1)
	op := in.paramNamed(d.add, d.opF.t, 0)
	if user == nil || item == nil || op == nil {
		c.missing("the parameters of Add")
		return
	}
	list := d.list(in, recv, d.pending, user)
	unique := true
	type repl struct {
		q   *Path
		idx Val
	}
	var repls []repl
	nApp := 0
	for _, q := range c.run(in, d.add, d.args(in, d.add, recv), nil, nil) {
		fail := func(ok bool, construct, format string, args ...any) bool {
			return c.obPath(ok, "added", q, d.add.Pos(), d.add.Name()+" "+construct, format, args...)
		}
		if !fail(q.End == "", "end", "Add may end with %s", q.End) {
			continue
		}
		d.grows(q, recv)
		pend := in.loadField(in.NewState(), recv, d.pending)
		v, _ := q.St.mapGet(q.St.mapOf(pend), user, d.pending.t.Underlying().(*types.Map).Elem())
		// elements of the list changed in place
		var idxs []Val
		walk(q.Ev, nil, func(e *Event, up []*IterPath) {
			p, ok := e.Obj.(*Ptr)
			if e.Kind != "store" || !ok || p.O.Kind != "sym" || p.O.Base == nil || p.O.Base.Key() != list.Key() {
				return
			}
			i := lastElem(p.Path)
			if i < 0 || len(up) > 0 {
				fail(false, "in place", "the list of a user is changed in a way that isn't understood: %s", p.Path)
				return
			}
			_, idx, _ := splitElem(p, i)
			if idx == nil {
				fail(false, "in place", "an unknown element of the list is changed")
				return
			}
			for _, x := range idxs {
				if x.Key() == idx.Key() {
					return
				}
			}
			idxs = append(idxs, idx)
		})
		if len(idxs) == 0 {
			got, _ := in.seqOf(q.St, v)
			el := extended(q.St, got, list)
			if !fail(el != nil, "appended", "the pending operations of a user become %s, not the ones before followed by the new one", clip(got.Key())) {
				continue
			}
			nApp++
			fail(project(el, d.opF.path, d.opF.t).Key() == op.Key() && project(el, d.itemF.path, d.itemF.t).Key() == item.Key(), "appended", "the operation added is %s", clip(el.Key()))
			unique = unique && d.absent(q, list, item)
			continue
		}
		if !fail(len(idxs) == 1, "in place", "Add changes several pending operations") {
			continue
		}
		idx := idxs[0]
		arr := in.deref(v)
		if sl, ok := v.(*Slice); ok {
			arr = sl.Base
		} else if sl := in.toSlice(v); sl != nil {
			arr = sl.Base
		}
		if !fail(arr != nil && arr.O.Base != nil && arr.O.Base.Key() == list.Key(), "in place", "an operation is replaced in a list that isn't the pending one") {
			continue
		}
		p := elemPtr(arr, idx)
		st := q.St.clone()
		nop := st.load(mkPtr(p.O, p.Path+d.opF.path), d.opF.t)
		nit := st.load(mkPtr(p.O, p.Path+d.itemF.path), d.itemF.t)
		fail(nop.Key() == op.Key(), "in place", "the operation that's replaced becomes %s", clip(nop.Key()))
		fail(q.St.decide(eqInt(nit, item)) == 1 && d.sameItem(q.St, list, idx, item) == 1, "in place", "the operation that's replaced isn't one of the same item")
		repls = append(repls, repl{q, idx})
	}
	for _, r := range repls {
		c.obPath(unique || d.lastOne(r.q, list, r.idx, item), "added", r.q, d.add.Pos(), d.add.Name()+" which", "the operation that's replaced may not be the last one of the item")
	}
	c.count("paths of Add that add an operation", nApp, 1)
}

func (d *deltaStore) gets() {
	c := d.c
	get := c.meth(d.t, "Get")
	if get == nil {
		return
	}
	in := NewInterp(c.w, Config{})
	recv := in.namedSym("s", d.t)
	user, item := in.paramNamed(get, types.Typ[types.Uint64], 0), in.paramNamed(get, types.Typ[types.Uint64], 1)
	if user == nil || item == nil {
		c.missing("the parameters of Get")
		return
	}
	lists := []Val{d.list(in, recv, d.pending, user), d.list(in, recv, d.cache, user)}
	found, none := 0, 0
	for _, q := range c.run(in, get, d.args(in, get, recv), nil, nil) {
		fail := func(ok bool, construct, format string, args ...any) bool {
			return c.obPath(ok, "last", q, get.Pos(), get.Name()+" "+construct, format, args...)
		}
		if !fail(q.End == "", "end", "Get may end with %s", q.End) {
			continue
		}
		fail(d.unchanged(q, recv), "unchanged", "Get changes the storage")
		ok := q.Rets[1]
		switch q.St.decide(ok) {
		case -1:
			none++
			for i, l := range lists {
				fail(d.absent(q, l, item), "absent", "Get finds nothing though the %s operations may have the pair", []string{"pending", "stored"}[i])
			}
		case 1:
			found++
			right := false
			for i, l := range lists {
				for _, idx := range d.looked(q.St, l) {
					op := project(appT(d.elem, "elem", l, idx), d.opF.path, d.opF.t)
					if q.Rets[0].Key() == op.Key() && d.lastOne(q, l, idx, item) {
						right = true
						fail(i == 0 || d.absent(q, lists[0], item), "pending", "Get returns a stored operation though there may be a pending one")
					}
				}
			}
			fail(right, "last", "Get returns %s, which isn't known to be the last operation of the pair", clip(q.Rets[0].Key()))
		default:
			fail(false, "result", "it isn't known whether Get finds anything on a path")
		}
	}
	c.count("paths of Get that find an operation", found, 2)
	c.count("paths of Get that find nothing", none, 1)
}

// totals checks the numbers that the storage reports.
func (d *deltaStore) totals() {
	c := d.c
	in := NewInterp(c.w, Config{})
	recv := in.namedSym("s", d.t)
	st0 := in.NewState()
	total := in.loadField(st0, recv, d.total)
	for _, x := range []struct {
		name string
		want Val
	}{{"GetTotalItemCount", total}, {"GetFileSize", addc(mulc(total, deltaAt.size), d.end)}} {
		fn := c.meth(d.t, x.name)
		if fn == nil {
			continue
		}
		for _, q := range c.run(in, fn, d.args(in, fn, recv), nil, nil) {
			c.obPath(q.End == "" && q.St.decide(eqInt(q.Rets[0], x.want)) == 1, "reported", q, fn.Pos(), fn.Name(), "%s returns %s rather than %s", fn.Name(), show(first(q.Rets)), clip(x.want.Key()))
		}
	}
	fn := c.meth(d.t, "GetUserCount")
	if fn == nil {
		return
	}
	a, b := in.loadField(st0, recv, d.pending), in.loadField(st0, recv, d.cache)
	for _, q := range c.run(in, fn, d.args(in, fn, recv), nil, nil) {
		if !c.obPath(q.End == "", "reported", q, fn.Pos(), fn.Name()+" end", "%s may end with %s", fn.Name(), q.End) {
			continue
		}
		ok := countsEither(q, q.Rets[0], a, b)
		c.obPath(ok, "reported", q, fn.Pos(), fn.Name(), "%s returns %s, which isn't known to be the number of users in either map", fn.Name(), clip(q.Rets[0].Key()))
	}
}

func first(vs []Val) Val {
	if len(vs) == 0 {
		return nil
	}
	return vs[0]
}

// countsEither: r is the number of keys that the map a, the map b or both have:
// those of one of them and, of the other's, the ones it lacks, or both less the
// ones that they share, or the size of a map made of the keys of both.
func countsEither(q *Path, r, a, b Val) bool {
	st := q.In.NewState()
	size := func(m Val) Val { return app("maplen", st.mapOf(m)) }
	for _, x := range [][2]Val{{a, b}, {b, a}} {
		ranges, other := x[0], x[1]
		for _, e := range q.Ev {
			if e.Loop == nil || !ranged(q, e.Loop, ranges) {
				continue
			}
			for _, h := range e.Loop.Havoc {
				if h.At == nil || h.Init == nil || isMapState(h.Init) || len(h.Next) != len(e.Loop.Iters) || len(h.Next) == 0 {
					continue
				}
				start := add(sub(r, h.At), h.Init) // what is counted when no key changes the number
				for up, want := range map[int64]Val{1: size(other), -1: add(size(other), size(ranges))} {
					if q.St.decide(eqInt(start, want)) != 1 {
						continue
					}
					good := true
					for i, it := range e.Loop.Iters {
						k := keyOf(it, ranges)
						step, okn := constInt(sub(h.Next[i], h.At))
						if k == nil || !okn {
							good = false
							break
						}
						has := it.End.decide(app("maphas", st.mapOf(other).Base, k))
						changes := up == 1 && has == -1 || up == -1 && has == 1
						good = good && (has != 0) && (changes && step == up || !changes && step == 0)
					}
					if good {
						return true
					}
				}
			}
		}
	}
	// the size of a map that is given the keys of both
	n, ok := isApp(r, "maplen")
	if !ok {
		return false
	}
	m, ok := n.Args[0].(*MapState)
	need := []Val{a, b}
	for ok && len(m.Upd) == 0 {
		if isNilConst(m.Base) {
			return len(need) == 0
		}
		ok = false
		for _, e := range q.Ev {
			if e.Loop == nil {
				continue
			}
			for loc, h := range e.Loop.Havoc {
				at, isMap := h.At.(*MapState)
				if !isMap || at.Key() != m.Key() || len(h.Next) != len(e.Loop.Iters) {
					continue
				}
				for j, x := range need {
					if !ranged(q, e.Loop, x) {
						continue
					}
					good := true
					for i, it := range e.Loop.Iters {
						nm, okn := h.Next[i].(*MapState)
						good = good && okn && nm.Base.Key() == m.Base.Key() && len(nm.Upd) == 1 && nm.Upd[0].V != nil && nm.Upd[0].K.Key() == keyOf(it, x).Key() && strings.HasSuffix(loc, "#map")
					}
					if good {
						need = append(append([]Val{}, need[:j]...), need[j+1:]...)
						m, ok = h.Init.(*MapState)
						break
					}
				}
			}
		}
	}
	return false
}

func isMapState(v Val) bool { _, ok := v.(*MapState); return ok }

// indexEntry is the layout of an association.
const indexEntrySize = 16

func indexMapRules(c *Ctx) {
	p := c.proto(indexSpec)
	t, ft := c.impl("domain", "IndexStorage"), c.impl("domain", "IndexStorageFactory")
	if p == nil || t == nil || ft == nil {
		return
	}
	_, end, ok := p.offsets()
	fl, okf := c.fileField(t)
	ms := mapLeaves(t)
	cl, open := c.meth(t, "Close"), c.meth(ft, "Open")
	get, put, rem := c.meth(t, "Get"), c.meth(t, "Put"), c.meth(t, "Remove")
	if !ok || !okf || cl == nil || open == nil || get == nil || put == nil || rem == nil {
		return
	}
	ml, ok := only(c, ms, "map of the index storage")
	if !ok {
		return
	}
	mt := ml.t.Underlying().(*types.Map)
	st := t.(*types.Pointer).Elem()

	// closing
	in := NewInterp(c.w, Config{})
	recv := in.namedSym("s", t)
	sp := argFor{ptrTo(st), recv}
	st0 := in.NewState()
	m := in.loadField(st0, recv, ml)
	file := unwrap(in.loadField(st0, recv, fl))
	n := 0
	for _, q := range c.run(in, cl, in.args(cl, "", sp), nil, nil) {
		fail := func(ok bool, construct, format string, args ...any) bool {
			return c.obPath(ok, "saved", q, cl.Pos(), cl.Name()+" "+construct, format, args...)
		}
		fail(changesMap(q.Ev, m) == nil && in.loadField(q.St, recv, ml).Key() == m.Key(), "unchanged", "closing changes the index")
		if !q.OK() {
			continue
		}
		n++
		got := lastBytes(q, file, end-4, 4)
		size := app("maplen", st0.mapOf(m))
		fail(got != nil && (got.Key() == size.Key() || isTrunc(got, size)), "count", "the header counts %s associations rather than the size of the index", show(got))
		wl := streamLoops(q, "write", file)
		if !fail(len(wl) == 1, "loop", "the associations are written by %d loops", len(wl)) {
			continue
		}
		l := wl[0].Loop
		value := app("map0", in.deref(m))
		gk, gvs := gathered(q, l, m, value)
		fail(gk != nil || ranged(q, l, m), "all", "closing may leave out associations")
		for _, it := range l.Iters {
			k, vs := gk, gvs
			if k == nil {
				if k = keyOf(it, m); k != nil {
					vs = []Val{app("mapget", value, k)}
				}
			}
			im := imageOf(it.Events, file.Key())
			sz, okn := constInt(im.Len)
			want := addc(mulc(l.Count, indexEntrySize), end)
			if !fail(k != nil && im.OK && okn && sz == indexEntrySize, "entry", "an iteration writes %s bytes rather than one association", clip(im.Len.Key())) {
				continue
			}
			fail(it.End.decide(eqInt(im.Start, want)) == 1, "place", "an association is written at %s rather than %s", clip(im.Start.Key()), clip(want.Key()))
			for i := int64(0); i < 8; i++ {
				is := false
				for _, v := range vs {
					is = is || same(im.byteAt(Int(8+i)), byteOf(v, int(7-i)))
				}
				fail(same(im.byteAt(Int(i)), byteOf(k, int(7-i))) && is, "entry", "what is written for an association isn't its key followed by its value: byte %d is %s and byte %d is %s", i, show(im.byteAt(Int(i))), 8+i, show(im.byteAt(Int(8+i))))
			}
			// the iteration only writes the entry
			walk(it.Events, nil, func(e *Event, _ []*IterPath) {
				fail(!(e.Kind == "seek" && e.Obj != nil && e.Obj.Key() == file.Key()), "place", "the position is changed while the associations are written")
			})
		}
		// and nothing is written over the entries afterwards
		after := false
		for _, e := range q.Ev {
			if e.Loop == l {
				after = true
				continue
			}
			if after && e.Kind == "write" && e.Obj.Key() == file.Key() {
				last := add(e.At, e.Seq.length())
				fail(q.St.decide(le0(addc(last, -end))) == 1, "overwritten", "the associations may be overwritten after they've been written")
			}
			if after && e.Kind == "truncate" && e.Obj.Key() == file.Key() {
				last := addc(mulc(l.Count, indexEntrySize), end)
				fail(q.St.decide(le0(sub(last, e.Args[0]))) == 1, "overwritten", "the associations may be cut off after they've been written")
			}
		}
	}
	c.count("successful paths of Close", n, 1)

	// opening
	in = NewInterp(c.w, Config{})
	f := in.namedSym("file", types.NewInterfaceType(nil, nil))
	nNew, nOld := 0, 0
	for _, q := range c.run(in, open, in.args(open, "", argFor{ioParam, f}), nil, nil) {
		if !q.OK() {
			continue
		}
		fail := func(ok bool, construct, format string, args ...any) bool {
			return c.obPath(ok, "loaded", q, open.Pos(), open.Name()+" "+construct, format, args...)
		}
		dyn, isI := q.Rets[0].(*Iface)
		if !fail(isI && types.Identical(dyn.Dyn, t) && in.deref(dyn.V) != nil, "storage", "Open returns %s", clip(q.Rets[0].Key())) {
			continue
		}
		var n Val = Int(0)
		if len(usesOfAll(q.Ev, "read", f)) > 0 {
			nOld++
			n = decodeAt(f, Int(end-4), 4)
		} else {
			nNew++
			fail(q.St.decide(le0(in.initialSize(f))) == 1, "empty", "a file that isn't empty is opened without reading it")
		}
		m := in.loadField(q.St, dyn.V, ml)
		loadLoop(c, q, f, m, n, end, indexEntrySize, func(it *IterPath, l *LoopSum, at, old Val) {
			k, v := decodeAt(f, at, 8), decodeAt(f, addc(at, 8), 8)
			ms := it.End.mapOf(m)
			okk := len(ms.Upd) > 0 && onlyKey(ms, k)
			got, has := it.End.mapGet(ms, k, mt.Elem())
			fail(okk && it.End.decide(has) == 1 && same(got, v), "entry", "the association loaded isn't that of the file")
		})
	}
	c.count("successful paths of Open for new files", nNew, 1)
	c.count("successful paths of Open for existing files", nOld, 1)

	// looking up and changing
	for _, fn := range []*ssa.Function{get, put, rem} {
		in := NewInterp(c.w, Config{})
		recv := in.namedSym("s", t)
		st0 := in.NewState()
		m := in.loadField(st0, recv, ml)
		m0 := st0.mapOf(m)
		id := in.paramNamed(fn, mt.Key(), 0)
		if id == nil {
			c.missing("the parameter of " + fn.Name() + " that is the key")
			continue
		}
		for _, q := range c.run(in, fn, in.args(fn, "", argFor{ptrTo(st), recv}), nil, nil) {
			fail := func(ok bool, construct, format string, args ...any) bool {
				return c.obPath(ok, "map", q, fn.Pos(), fn.Name()+" "+construct, format, args...)
			}
			if !fail(q.End == "", "end", "%s may end with %s", fn.Name(), q.End) {
				continue
			}
			fail(in.loadField(q.St, recv, ml).Key() == m.Key(), "same", "%s replaces the map", fn.Name())
			ms := q.St.mapOf(m)
			fail(same(ms.Base, m0.Base) && onlyKey(ms, id), "others", "%s changes associations of other keys", fn.Name())
			v, has := q.St.mapGet(ms, id, mt.Elem())
			v0, has0 := st0.mapGet(m0, id, mt.Elem())
			switch fn {
			case get:
				fail(len(ms.Upd) == 0, "unchanged", "Get changes the index")
				okHas := same(q.Rets[1], has0) || q.St.decide(q.Rets[1]) != 0 && q.St.decide(q.Rets[1]) == q.St.decide(has0)
				fail(okHas, "found", "Get reports %s for whether there is an association", clip(q.Rets[1].Key()))
				fail(same(q.Rets[0], v0) || q.St.decide(has0) == -1, "value", "Get returns %s, not the value of the key", clip(q.Rets[0].Key()))
			case put:
				val := in.paramNamed(fn, mt.Elem(), 1)
				if q.OK() {
					fail(val != nil && q.St.decide(has) == 1 && same(v, val), "value", "Put associates the key with %s", clip(v.Key()))
				} else {
					fail(same(ms, m0), "failed", "a failing Put changes the index")
				}
			case rem:
				fail(q.OK(), "success", "Remove may fail")
				fail(q.St.decide(has) == -1, "removed", "the key may still be there after Remove")
			}
		}
	}
}

func same(a, b Val) bool    { return a != nil && b != nil && a.Key() == b.Key() }
func isConstInt(v Val) bool { _, ok := constInt(v); return ok }

func coeff(v, atom Val) int64 {
	_, coef, _ := linOf(v)
	return coef[atom.Key()]
}
