package main

// The iterator over the entries of a RECDB file.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", "Inductive invariant of the iterator: the logical position of its reader is the offset it remembers, which is where the entry returned last ends, and its index is the number of entries visited. NewIterator and Rewind establish it, Next and SetPrevious are executed abstractly from any state that satisfies it and must preserve it. On every path: Next reads one entry from that position on into memory of its own, and only if the index is less than the header's count; SetPrevious writes the image of the entry right before that position, only if the index isn't zero and the capacity is that of the entry returned last, and nothing otherwise. A failing operation leaves the remembered index, offset and entry unchanged.", iteratorRules)
}

type iterRules struct {
	c                         *Ctx
	t                         types.Type // pointer to the iterator
	rp                        *proto
	end                       int64
	file, reader, index, off  leaf
	entry, capacity           leaf
	next, prev, rewind, hasNx *ssa.Function
	limit                     Val // the number of entries in the header
}

// iterator finds the iterator and its parts; nil: they aren't there.
func (c *Ctx) iterator() *iterRules {
	r := &iterRules{c: c, t: c.impl("infra/recdb", "Iterator"), rp: c.proto(recdbSpec)}
	if r.t == nil || r.rp == nil {
		return nil
	}
	_, end, ok := r.rp.offsets()
	if !ok {
		return nil
	}
	r.end = end
	r.next, r.prev, r.rewind, r.hasNx = c.meth(r.t, "Next"), c.meth(r.t, "SetPrevious"), c.meth(r.t, "Rewind"), c.meth(r.t, "HasNext")
	fl, okf := c.fileField(r.t)
	r.file = fl
	if r.next == nil || r.prev == nil || r.rewind == nil || r.hasNx == nil || !okf || !r.fields() {
		return nil
	}
	return r
}

func iteratorRules(c *Ctx) {
	r, ni := c.iterator(), c.fn("infra/recdb.NewIterator")
	if r == nil || ni == nil {
		return
	}
	r.created(ni)
	r.rewound()
	r.advanced()
	r.rewritten()
}

// fields finds the fields of the iterator by what they do.
func (r *iterRules) fields() bool {
	c := r.c
	st := r.t.(*types.Pointer).Elem()
	var ints []leaf
	for _, l := range leaves(st) {
		switch {
		case l.t.String() == "*bufio.Reader":
			r.reader = l
		case isInteger(l.t):
			ints = append(ints, l)
		}
	}
	// The index is compared with the count by HasNext
	in := NewInterp(c.w, Config{})
	recv := in.namedSym("it", r.t)
	for _, q := range c.run(in, r.hasNx, r.args(in, r.hasNx, recv), nil, nil) {
		if q.End != "" {
			continue
		}
		for _, l := range ints {
			v := in.loadField(in.NewState(), recv, l)
			a, ok := isApp(q.Rets[0], "le0")
			if !ok {
				continue
			}
			lim := sub(addc(v, 1), a.Args[0])
			if !strings.Contains(lim.Key(), v.Key()) {
				r.index, r.limit = l, lim
			}
		}
		c.obPath(len(q.Ev) == 0, "has-next", q, r.hasNx.Pos(), r.hasNx.Name(), "HasNext has effects")
	}
	if r.index.path == "" {
		c.missing("the comparison of the number of visited entries with the number of entries in HasNext")
		return false
	}
	// The offset is the field that Next advances and that isn't the index, the
	// capacity the one that SetPrevious compares.
	for _, l := range ints {
		if l.path == r.index.path {
			continue
		}
		v := in.loadField(in.NewState(), recv, l)
		for _, q := range c.run(in, r.next, r.args(in, r.next, recv), nil, r.reading(in, recv)) {
			if q.OK() {
				if w := in.loadField(q.St, recv, l); w.Key() != v.Key() && strings.Contains(w.Key(), v.Key()) {
					r.off = l
				}
			}
		}
	}
	if r.off.path == "" {
		c.missing("the field of the iterator that remembers the offset of the next entry")
		return false
	}
	entry := r.param(in, r.prev)
	if entry == nil {
		c.missing("the parameter of SetPrevious")
		return false
	}
	for _, q := range c.run(in, r.prev, r.args(in, r.prev, recv), nil, r.reading(in, recv)) {
		if !q.OK() {
			continue
		}
		for _, l := range ints {
			v := in.loadField(in.NewState(), recv, l)
			if l.path != r.index.path && l.path != r.off.path && q.St.decide(eqInt(v, r.capOf(in, entry))) == 1 {
				r.capacity = l
			}
		}
	}
	if r.capacity.path == "" {
		c.missing("the field of the iterator that SetPrevious compares the capacity with")
		return false
	}
	return r.reader.path != ""
}

func (r *iterRules) args(in *Interp, fn *ssa.Function, recv Val) []Val {
	args := in.args(fn, "")
	args[0] = unwrap(recv)
	return args
}
func (r *iterRules) param(in *Interp, fn *ssa.Function) Val {
	return in.paramNamed(fn, types.NewPointer(r.rp.en), 0)
}
func (r *iterRules) capOf(in *Interp, entry Val) Val {
	for _, l := range leaves(r.rp.en) {
		if l.path == ".Capacity" {
			return in.loadField(in.NewState(), entry, l)
		}
	}
	return Nil
}

// reading is a state that satisfies the invariant.
func (r *iterRules) reading(in *Interp, recv Val) *State {
	st := in.NewState()
	in.adoptReaders(st, recv, r.t)
	if r.off.path != "" {
		rd := in.loadField(st, recv, r.reader)
		off := in.loadField(st, recv, r.off)
		file := unwrap(in.loadField(st, recv, r.file))
		st.heap["#rdpos:"+rd.Key()] = off
		readAhead(st, file, rd, off)
		st.addFact(le0(mulc(in.loadField(st, recv, r.index), -1)), true)
	}
	return st
}

// inStep: the reader's logical position in the final state is the offset.
func (r *iterRules) inStep(q *Path, recv Val) bool {
	rd := q.In.loadField(q.St, recv, r.reader)
	off := q.In.loadField(q.St, recv, r.off)
	file := unwrap(q.In.loadField(q.St, recv, r.file))
	s, ok := q.St.heap["#br:"+unwrap(rd).Key()]
	if !ok || s.Key() != file.Key() {
		return false
	}
	pos, ok := q.St.heap["#rdpos:"+unwrap(rd).Key()]
	if !ok {
		pos = q.In.posOf(q.St, file) // nothing has been read ahead
	} else if tail, ok := q.St.heap["#rdtail:"+unwrap(rd).Key()]; ok && tail.Key() != q.In.posOf(q.St, file).Key() {
		return false
	} else if !ok && q.In.posOf(q.St, file).Key() != pos.Key() {
		return false
	}
	return q.St.decide(eqInt(pos, off)) == 1
}

func (r *iterRules) created(ni *ssa.Function) {
	c := r.c
	in := NewInterp(c.w, Config{})
	file := in.namedSym("file", types.NewInterfaceType(nil, nil))
	args := in.args(ni, "", argFor{ioParam, file}, argFor{isType(c.named("infra/recdb", "Protocol")), mkIface(r.rp.t, in.namedSym("p", r.rp.t))})
	n := 0
	for _, q := range c.run(in, ni, args, nil, nil) {
		if !q.OK() {
			continue
		}
		n++
		it := q.Rets[0]
		fail := func(ok bool, construct, format string, args ...any) bool {
			return c.obPath(ok, "created", q, ni.Pos(), ni.Name()+" "+construct, format, args...)
		}
		fail(unwrap(in.loadField(q.St, it, r.file)).Key() == file.Key(), "file", "the iterator doesn't use the file given")
		off := in.loadField(q.St, it, r.off)
		fail(q.St.decide(eqInt(off, Int(r.end))) == 1, "offset", "a new iterator starts at %s, the first entry is at %d", clip(off.Key()), r.end)
		idx := in.loadField(q.St, it, r.index)
		fail(q.St.decide(eqInt(idx, Int(0))) == 1, "index", "a new iterator has visited %s entries", clip(idx.Key()))
		fail(r.inStep(q, it), "position", "the reader of a new iterator isn't at the offset that the iterator remembers")
		// HasNext right after
		for _, h := range c.run(in, r.hasNx, r.args(in, r.hasNx, it), nil, q.St.clone()) {
			want := le0(sub(Int(1), decodeAt(file, Int(r.end-4), 4)))
			c.obPath(h.End == "" && h.Rets[0].Key() == want.Key(), "created", h, r.hasNx.Pos(), r.hasNx.Name()+" count", "the iterator compares with %s, not with the number of entries in the header", show(first(h.Rets)))
		}
	}
	c.count("successful paths of NewIterator", n, 1)
}

func (r *iterRules) rewound() {
	c := r.c
	in := NewInterp(c.w, Config{})
	recv := in.namedSym("it", r.t)
	n := 0
	st := in.NewState()
	in.adoptReaders(st, recv, r.t) // in any state, even after a failure
	for _, q := range c.run(in, r.rewind, r.args(in, r.rewind, recv), nil, st) {
		if !q.OK() {
			continue
		}
		n++
		fail := func(ok bool, construct, format string, args ...any) bool {
			return c.obPath(ok, "rewound", q, r.rewind.Pos(), r.rewind.Name()+" "+construct, format, args...)
		}
		reset := false
		for _, e := range q.Ev {
			reset = reset || e.Kind == "reset" || e.Kind == "newreader"
		}
		fail(reset, "reset", "rewinding keeps what the reader has read ahead")
		off, idx := in.loadField(q.St, recv, r.off), in.loadField(q.St, recv, r.index)
		fail(q.St.decide(eqInt(off, Int(r.end))) == 1, "offset", "rewinding continues at %s, the first entry is at %d", clip(off.Key()), r.end)
		fail(q.St.decide(eqInt(idx, Int(0))) == 1, "index", "rewinding continues with entry %s", clip(idx.Key()))
		fail(r.inStep(q, recv), "position", "the reader isn't at the offset that the iterator remembers after rewinding")
		fail(r.limitKept(q, recv), "count", "rewinding changes the number of entries")
	}
	c.count("successful paths of Rewind", n, 1)
}

// limitKept: the number of entries is what it was.
func (r *iterRules) limitKept(q *Path, recv Val) bool {
	for _, h := range r.c.run(q.In, r.hasNx, r.args(q.In, r.hasNx, recv), nil, q.St.clone()) {
		idx := q.In.loadField(q.St, recv, r.index)
		if h.End != "" || h.Rets[0].Key() != le0(sub(addc(idx, 1), r.limit)).Key() {
			return false
		}
	}
	return true
}

// kept: the path leaves what the iterator remembers as it was.
func (r *iterRules) kept(q *Path, recv Val, st0 *State) bool {
	for _, l := range []leaf{r.index, r.off, r.capacity, r.file} {
		if q.In.loadField(q.St, recv, l).Key() != q.In.loadField(st0, recv, l).Key() {
			return false
		}
	}
	return r.limitKept(q, recv)
}

func (r *iterRules) advanced() {
	c := r.c
	in := NewInterp(c.w, Config{})
	recv := in.namedSym("it", r.t)
	st0 := r.reading(in, recv)
	file := unwrap(in.loadField(st0, recv, r.file))
	off, idx := in.loadField(st0, recv, r.off), in.loadField(st0, recv, r.index)
	more := le0(sub(addc(idx, 1), r.limit))
	nOK, nEnd := 0, 0
	for _, q := range c.run(in, r.next, r.args(in, r.next, recv), nil, st0.clone()) {
		fail := func(ok bool, construct, format string, args ...any) bool {
			return c.obPath(ok, "advanced", q, r.next.Pos(), r.next.Name()+" "+construct, format, args...)
		}
		if !fail(q.End == "", "end", "Next may end with %s", q.End) {
			continue
		}
		q.each(func(e *Event, _ *State, _ int, _ bool) {
			if e.Kind == "write" || e.Kind == "truncate" {
				fail(false, "writes", "advancing changes the file")
			}
		})
		r.own(q, recv)
		reads := usesOfAll(q.Ev, "read", file)
		if !q.OK() {
			fail(r.kept(q, recv, st0), "failed", "a failing Next changes what the iterator remembers")
			if q.St.decide(more) == -1 {
				nEnd++
				fail(len(reads) == 0, "last", "something is read past the last entry")
			}
			continue
		}
		nOK++
		fail(q.St.decide(more) == 1, "last", "Next succeeds though there may be no more entries")
		if !fail(len(reads) > 0 && reads[0].At.Key() == off.Key(), "place", "the next entry isn't read from where the iterator is") {
			continue
		}
		noff, nidx := in.loadField(q.St, recv, r.off), in.loadField(q.St, recv, r.index)
		fail(q.St.decide(eqInt(nidx, addc(idx, 1))) == 1, "index", "after Next the iterator has visited %s entries", clip(nidx.Key()))
		fail(r.inStep(q, recv), "position", "the reader is at %s but the iterator remembers %s", clip(q.St.heap["#rdpos:"+unwrap(in.loadField(q.St, recv, r.reader)).Key()].Key()), clip(noff.Key()))
		capa := decodeAt(file, off, 4)
		fail(q.St.decide(eqInt(sub(noff, off), capa)) == 1, "size", "after Next the iterator is %s bytes further, not the capacity of the entry", clip(sub(noff, off).Key()))
		mine := in.loadField(q.St, recv, r.capacity)
		fail(q.St.decide(eqInt(mine, capa)) == 1, "capacity", "the capacity remembered is %s, not that of the entry", clip(mine.Key()))
		fail(r.limitKept(q, recv), "count", "advancing changes the number of entries")
		// the entry returned
		p := in.deref(q.Rets[0])
		if !fail(p != nil && p.O.Kind == "alloc", "returned", "Next returns an entry in memory that isn't its own") {
			continue
		}
		for _, l := range leaves(r.rp.en) {
			if l.path == ".Capacity" {
				v := in.loadField(q.St, p, l)
				fail(q.St.decide(eqInt(v, capa)) == 1, "returned", "the capacity of the entry returned is %s", clip(v.Key()))
			}
			if isIfaceT(l.t) {
				v := in.deref(unwrap(in.loadField(q.St, p, l)))
				fail(v != nil && v.O.Kind == "alloc", "returned data", "the data of the entry returned aren't in memory of its own")
			}
		}
	}
	c.count("successful paths of Next", nOK, 1)
	c.count("paths of Next past the last entry", nEnd, 1)
}

func isIfaceT(t types.Type) bool { return types.IsInterface(t) }

// own: the path stores nothing to memory that existed before, except for the
// fields of the iterator itself, nor does it fill such memory by reading.
func (r *iterRules) own(q *Path, recv Val) {
	me := q.In.deref(recv)
	q.each(func(e *Event, _ *State, _ int, _ bool) {
		if e.Kind != "store" && e.Kind != "storewin" && e.Kind != "mapupdate" && e.Kind != "mapdelete" && e.Kind != "copymem" && e.Kind != "appendover" {
			return
		}
		p := q.In.deref(e.Obj)
		if p == nil {
			return
		}
		r.c.obPath(p.O.Kind == "alloc" || p.O.Kind == "arr" || p.O == me.O && !strings.Contains(p.Path, "["), "own-memory", q, e.Pos, q.Fn.Name(), "advancing changes memory that an entry returned earlier may share: %s", clip(e.String()))
	})
}

func (r *iterRules) rewritten() {
	c := r.c
	in := NewInterp(c.w, Config{})
	recv := in.namedSym("it", r.t)
	st0 := r.reading(in, recv)
	entry := r.param(in, r.prev)
	capa := r.capOf(in, entry)
	file := unwrap(in.loadField(st0, recv, r.file))
	off, idx := in.loadField(st0, recv, r.off), in.loadField(st0, recv, r.index)
	first := eqInt(idx, Int(0))
	sameCap := eqInt(in.loadField(st0, recv, r.capacity), capa)
	// What writing an entry writes
	we := c.meth(r.rp.t, "WriteEntry")
	if we == nil {
		return
	}
	var images []*Image
	w := in.namedSym("w", types.NewInterfaceType(nil, nil))
	for _, q := range okPaths(c.run(in, we, in.args(we, "", argFor{ioParam, w}, argFor{ptrTo(r.rp.en), entry}), nil, nil)) {
		images = append(images, imageOf(q.Ev, "w"))
	}
	nOK, nRef := 0, 0
	for _, q := range c.run(in, r.prev, r.args(in, r.prev, recv), nil, st0.clone()) {
		fail := func(ok bool, construct, format string, args ...any) bool {
			return c.obPath(ok, "rewritten", q, r.prev.Pos(), r.prev.Name()+" "+construct, format, args...)
		}
		if q.End != "" {
			// an entry with nil data is the caller's mistake
			fail(q.End == "panic" && !wrote(q, file), "end", "SetPrevious may end with %s", q.End)
			continue
		}
		fail(r.kept(q, recv, st0), "kept", "SetPrevious changes what the iterator remembers")
		im := imageOf(q.Ev, file.Key())
		if wrote(q, file) {
			fail(q.St.decide(first) == -1, "first", "an entry may be written before the first one has been read")
			fail(q.St.decide(sameCap) == 1, "capacity", "an entry of a different capacity may be written")
			want := sub(off, capa)
			fail(im.Start != nil && q.St.decide(eqInt(im.Start, want)) == 1, "place", "the entry is written at %s rather than %s", show(im.Start), clip(want.Key()))
		}
		if !q.OK() {
			if !q.ioFailed() {
				nRef++
				fail(!wrote(q, file), "refused", "something has been written when SetPrevious refuses an entry")
			}
			continue
		}
		nOK++
		fail(q.St.decide(first) == -1 && q.St.decide(sameCap) == 1, "accepted", "SetPrevious accepts an entry of a different capacity, or before the first one has been read")
		okIm := false
		for _, x := range images {
			okIm = okIm || mkSeq(im.Segs...).Key() == mkSeq(x.Segs...).Key()
		}
		fail(im.OK && okIm, "contents", "what is written isn't the entry: %s", clip(mkSeq(im.Segs...).Key()))
		fail(q.St.decide(eqInt(im.Len, capa)) == 1, "size", "%s bytes are written rather than the capacity of the entry", clip(im.Len.Key()))
		fail(r.inStep(q, recv), "position", "the iteration doesn't go on with the entry after the one rewritten")
	}
	c.count("successful paths of SetPrevious", nOK, 1)
	c.count("paths of SetPrevious that refuse an entry", nRef, 2)
}

func wrote(q *Path, file Val) bool { return len(usesOfAll(q.Ev, "write", file)) > 0 }
