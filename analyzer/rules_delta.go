package main

// The contents of delta files: recovery, flushing, loading.

import (
	"go/constant"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C09", "On every successful path of RecoverTo and Recover: each iteration of the loop over the damaged file reads one entry and either writes its bytes unchanged right after what has been written before, which the facts must show to be the case of a valid checksum and a known operation, or writes nothing, which they must show not to be; the loop is left only when reading fails at the end of the file; the count in the header times the size of an entry plus the size of the header is where writing ended, which is where the file ends.", recoveryRules)
}

// consts lists the values of the constants of a type.
func (c *Ctx) consts(n *types.Named) (out []int64) {
	sc := n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		if k, ok := sc.Lookup(name).(*types.Const); ok && types.Identical(k.Type(), n) {
			if v, ok := constant.Int64Val(constant.ToInt(k.Val())); ok {
				out = append(out, v)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return
}

// pieces are the offsets of the fields of an entry.
type deltaEntry struct {
	op, user, item, sum int64
	size                int64
}

var deltaAt = deltaEntry{0, 1, 9, 17, 18}

// lastByte finds the byte that a path leaves at an offset of a stream: what the
// last write there has put. nil: unknown.
func lastByte(p *Path, stream Val, off Val) Val {
	for i := len(p.Ev) - 1; i >= 0; i-- {
		e := p.Ev[i]
		if e.Loop != nil {
			unclear := false
			(&Path{Ev: []*Event{e}, St: p.St}).each(func(x *Event, st *State, _ int, _ bool) {
				if k, _ := cover(st, x, stream.Key(), off); k != 0 {
					unclear = true
				}
			})
			if unclear {
				return nil
			}
			continue
		}
		if e.Kind == "truncate" && e.Obj != nil && e.Obj.Key() == stream.Key() {
			if p.St.decide(le0(sub(addc(off, 1), e.Args[0]))) != 1 {
				return nil
			}
		}
		k, v := cover(p.St, e, stream.Key(), off)
		if k == 2 {
			return nil
		}
		if k == 1 {
			return resolveIn(p, p.St, v)
		}
	}
	return app("in", stream, off)
}

func lastBytes(p *Path, stream Val, from int64, n int) Val {
	bs := make([]Val, n)
	for i := range bs {
		if bs[i] = lastByte(p, stream, Int(from+int64(i))); bs[i] == nil {
			return nil
		}
	}
	return decode(bs)
}

// streamLoops are the loops of a path that use a stream.
func streamLoops(p *Path, kind string, stream Val) (out []*Event) {
	for _, e := range p.Ev {
		if e.Loop == nil {
			continue
		}
		hit := false
		walk([]*Event{e}, nil, func(x *Event, _ []*IterPath) {
			hit = hit || x.Kind == kind && x.Obj != nil && x.Obj.Key() == stream.Key()
		})
		if hit {
			out = append(out, e)
		}
	}
	return
}

// usesOf are the events of a kind on a stream.
func usesOf(evs []*Event, kind string, stream Val) (out []*Event) {
	for _, e := range evs {
		if e.Kind == kind && e.Obj != nil && e.Obj.Key() == stream.Key() {
			out = append(out, e)
		}
	}
	return
}

// recovery checks the recovery of what reader has from its position on into
// writer.
type recovery struct {
	c              *Ctx
	p              *proto
	sum            Val // of the entry src
	src            Val
	ops            []int64
	version        int64
	headerEnd      int64
	reader, writer Val
	kept, dropped  int
}

func (r *recovery) check(q *Path, start Val) {
	c := r.c
	fn := q.Fn
	fail := func(ok bool, rule, construct, format string, args ...any) bool {
		return c.obPath(ok, rule, q, fn.Pos(), construct, format, args...)
	}
	// the header
	count := lastBytes(q, r.writer, r.headerEnd-4, 4)
	if !fail(count != nil, "header", fn.Name()+" count", "the number of entries in the header of the recovered file is unclear") {
		return
	}
	for i, ch := range []byte(r.p.sp.magic) {
		b := lastByte(q, r.writer, Int(int64(i)))
		fail(b != nil && b.Key() == Int(int64(ch)).Key(), "header", fn.Name()+" magic", "byte %d of the recovered file isn't that of the magic number", i)
	}
	n := int64(len(r.p.sp.magic))
	v := lastByte(q, r.writer, Int(n))
	fail(v != nil && v.Key() == Int(r.version).Key(), "header", fn.Name()+" version", "the version in the recovered file isn't the current one")
	// the size
	end := add(mulc(count, deltaAt.size), Int(r.headerEnd))
	size := q.In.sizeOf(q.St, r.writer)
	fail(q.St.decide(eqInt(size, end)) == 1, "count", fn.Name(), "the header counts %s entries though the recovered data ends at %s", clip(count.Key()), clip(size.Key()))
	// the entries
	rl, wl := streamLoops(q, "read", r.reader), streamLoops(q, "write", r.writer)
	if len(rl) == 0 && len(wl) == 0 {
		fail(q.St.decide(eqInt(count, Int(0))) == 1, "count", fn.Name()+" none", "the header counts %s entries though none have been read", clip(count.Key()))
		// there can't be any entries
		reason := false
		for _, e := range usesOf(q.Ev, "read", r.reader) {
			reason = reason || e.Err != nil && q.St.isNil(e.Err) == -1 && endOfFile(q.St, e.Err)
		}
		if !reason {
			im := &Image{Len: Int(0), OK: true}
			for _, ch := range []byte(r.p.sp.magic) {
				im.Segs, im.At = append(im.Segs, Seg{Kind: "val", Len: Int(1), V: Int(int64(ch))}), append(im.At, im.Len)
				im.Len = addc(im.Len, 1)
			}
			reason = !assume(q.In.NewState(), q.St.factList(), func(v Val) Val { return im.replay(v, r.reader, start) })
		}
		fail(reason, "complete", fn.Name(), "the recovery stops before it has read any entries though the file may have some")
		return
	}
	if !fail(len(rl) == 1 && len(wl) == 1 && rl[0] == wl[0], "loop", fn.Name(), "the entries aren't copied one after another by a single loop") {
		return
	}
	l := rl[0].Loop
	base, wbase := iterPos(l, r.reader), iterPos(l, r.writer)
	if !fail(base != nil && wbase != nil, "loop", fn.Name()+" positions", "the positions at the beginning of an iteration aren't known") {
		return
	}
	fail(base.Init.Key() == add(start, Int(r.headerEnd)).Key(), "in-order", fn.Name()+" first", "the entries are read from %s on, not from the end of the header", clip(base.Init.Key()))
	fail(wbase.Init.Key() == Int(r.headerEnd).Key(), "in-order", fn.Name()+" first kept", "the entries are written from %s on, not from the end of the header", clip(wbase.Init.Key()))
	for _, it := range l.Iters {
		r.iteration(q, it, base.At, wbase.At)
	}
	// what comes after the last complete iteration
	ended := false
	for _, e := range usesOf(q.Ev, "read", r.reader) {
		if e.Err != nil && q.St.isNil(e.Err) == -1 {
			ended = ended || endOfFile(q.St, e.Err)
		}
	}
	fail(ended, "complete", fn.Name(), "the recovery stops reading entries though the file may have more")
}

// hasFailed: a recovery fails only because the damaged file can't be read, or
// the result can't be written; what the file contains is no reason.
func (c *Ctx) hasFailed(q *Path, damaged Val) {
	name := q.Fn.Name()
	failed := false
	q.each(func(e *Event, st *State, _ int, _ bool) {
		if e.Err == nil || st.isNil(e.Err) != -1 {
			return
		}
		if e.Kind == "read" && e.Obj != nil && e.Obj.Key() == damaged.Key() && !notEnd(st, e.Err) {
			return
		}
		failed = true
	})
	c.obPath(failed, "recoverable", q, q.Fn.Pos(), name, "%s fails though it's only that the damaged file isn't what it should be (%s)", name, ending(q))
}

// iterPos finds the position of a stream at the beginning of the iterations.
func iterPos(l *LoopSum, stream Val) *HavocInfo {
	if h := l.Havoc["#pos:"+stream.Key()]; h != nil {
		return h
	}
	for k, h := range l.Havoc {
		if len(k) > 7 && k[:7] == "#rdpos:" {
			return h
		}
	}
	return nil
}

func (r *recovery) iteration(q *Path, it *IterPath, base, wbase Val) {
	c, st := r.c, it.End
	fail := func(ok bool, rule, construct, format string, args ...any) bool {
		return c.obPath(ok, rule, q, q.Fn.Pos(), q.Fn.Name()+" "+construct, format, args...)
	}
	// the reads
	at := base
	for _, e := range it.Events {
		if e.Loop != nil {
			if len(streamLoops(&Path{Ev: []*Event{e}, St: st}, "read", r.reader))+len(streamLoops(&Path{Ev: []*Event{e}, St: st}, "write", r.writer)) > 0 {
				fail(false, "loop", "nested", "an entry is read or written by a loop")
			}
			continue
		}
		if e.Kind != "read" || e.Obj.Key() != r.reader.Key() {
			continue
		}
		fail(st.isNil(e.Err) == 1, "complete", "failed read", "the recovery goes on after a failure to read an entry")
		fail(e.At.Key() == at.Key(), "in-order", "read", "reading an entry continues at %s rather than at %s", clip(e.At.Key()), clip(at.Key()))
		at = add(at, e.Seq.length())
	}
	if !fail(at.Key() == addc(base, deltaAt.size).Key(), "in-order", "size", "an iteration reads up to %s rather than one entry", clip(at.Key())) {
		return
	}
	in := func(i int64) Val { return app("in", r.reader, addc(base, i)) }
	// whether it's intact
	qw := func(o int64) Val {
		bs := make([]Val, 8)
		for i := range bs {
			bs[i] = in(o + int64(i))
		}
		return decode(bs)
	}
	sum := subst(r.sum, func(v Val) Val {
		switch v.Key() {
		case r.src.Key() + ".Op":
			return in(deltaAt.op)
		case r.src.Key() + ".UserID":
			return qw(deltaAt.user)
		case r.src.Key() + ".ItemID":
			return qw(deltaAt.item)
		}
		return nil
	})
	valid := st.decide(eqInt(in(deltaAt.sum), sum))
	known, unknown := false, true
	for _, o := range r.ops {
		d := st.decide(eqInt(in(deltaAt.op), Int(o)))
		known = known || d == 1
		unknown = unknown && d == -1
	}
	var ws []*Event
	for _, e := range it.Events {
		if e.Kind == "write" && e.Obj.Key() == r.writer.Key() {
			ws = append(ws, e)
		}
		if (e.Kind == "seek" || e.Kind == "truncate") && e.Obj != nil && (e.Obj.Key() == r.writer.Key() || e.Obj.Key() == r.reader.Key()) {
			fail(false, "in-order", "seek", "the position is changed between entries")
		}
	}
	if len(ws) == 0 {
		r.dropped++
		fail(valid == -1 || unknown, "intact-kept", "drop", "an entry may be left out though its checksum is valid and its operation known")
		return
	}
	r.kept++
	fail(valid == 1, "only-intact", "checksum", "an entry may be kept though its checksum isn't valid")
	fail(known, "only-intact", "operation", "an entry may be kept though its operation is unknown")
	im := imageOf(it.Events, r.writer.Key())
	n, ok := constInt(im.Len)
	if !fail(im.OK && ok && n == deltaAt.size && im.Start.Key() == wbase.Key(), "unchanged", "contiguous", "an entry isn't written as %d bytes right after the previous ones", deltaAt.size) {
		return
	}
	for i := int64(0); i < n; i++ {
		b := im.byteAt(Int(i))
		fail(b != nil && st.decide(eqInt(b, in(i))) == 1, "unchanged", "bytes", "byte %d of an entry is changed by the recovery", i)
	}
}

func recoveryRules(c *Ctx) {
	p := c.proto(deltaSpec)
	ft := c.impl("domain", "DeltaStorageFactory")
	op := c.named("domain", "DeltaOp")
	if p == nil || ft == nil || op == nil {
		return
	}
	_, end, ok := p.offsets()
	to, rec, sumFn := c.meth(p.t, "RecoverTo"), c.meth(ft, "Recover"), c.meth(p.t, "CalcEntryChecksum")
	if !ok || to == nil || rec == nil || sumFn == nil {
		return
	}
	r := &recovery{c: c, p: p, headerEnd: end, ops: c.consts(op), version: -1}
	if p2 := c.w.Pkg("infra/delta"); p2 != nil {
		if k, ok := p2.Pkg.Scope().Lookup("Version").(*types.Const); ok {
			r.version, _ = constant.Int64Val(constant.ToInt(k.Val()))
		}
	}
	if r.version < 0 {
		c.missing("the version of the delta file format")
		return
	}
	c.count("known operations", len(r.ops), 2)
	// the checksum of an entry
	in0 := NewInterp(c.w, Config{})
	r.src = in0.namedSym("src", types.NewPointer(p.en))
	for _, q := range c.run(in0, sumFn, in0.args(sumFn, "", argFor{ptrTo(p.en), r.src}), nil, nil) {
		if q.End == "" && (r.sum == nil || r.sum.Key() == q.Rets[0].Key()) {
			r.sum = q.Rets[0]
		} else {
			c.missing("one checksum of an entry")
			return
		}
	}
	// RecoverTo: the destination is empty
	in := NewInterp(c.w, Config{})
	r.reader, r.writer = in.namedSym("reader", types.NewInterfaceType(nil, nil)), in.namedSym("writer", types.NewInterfaceType(nil, nil))
	st := in.NewState()
	st.heap["#pos:"+r.writer.Key()], st.heap["#size:"+r.writer.Key()] = Int(0), Int(0)
	isReader := func(t types.Type) bool {
		return ioParam(t) && types.NewMethodSet(t).Lookup(nil, "Write") == nil
	}
	n, fails := 0, 0
	for _, q := range c.run(in, to, in.args(to, "", argFor{isReader, r.reader}, argFor{ioParam, r.writer}), nil, st) {
		if q.OK() {
			n++
			r.check(q, Sym0(in, r.reader))
			lock := lastByte(q, r.writer, Int(int64(len(p.sp.magic))+1))
			c.obPath(lock != nil && lock.Key() == Int(0).Key(), "header", q, to.Pos(), to.Name()+" unlocked", "the recovered data is marked locked")
		} else if q.End == "" {
			fails++
			c.hasFailed(q, r.reader)
		}
	}
	c.count("failures of RecoverTo", fails, 4)
	c.count("successful paths of RecoverTo", n, 3)
	c.count("kept entries", r.kept, 1)
	c.count("dropped entries", r.dropped, 2)
	// Recover
	in = NewInterp(c.w, Config{})
	file := in.namedSym("file", types.NewInterfaceType(nil, nil))
	n = 0
	for _, q := range c.run(in, rec, in.args(rec, "", argFor{ioParam, file}), nil, nil) {
		if !q.OK() {
			if q.End == "" {
				c.hasFailed(q, file)
			}
			continue
		}
		n++
		var cp *Event
		idx := -1
		for i, e := range q.Ev {
			if e.Kind == "read" && e.Obj != nil && e.Obj.Key() != file.Key() {
				cp, idx = e, i
			}
		}
		if !c.obPath(cp != nil, "copied-back", q, rec.Pos(), rec.Name(), "the recovered data isn't copied back to the file") {
			continue
		}
		tmp := cp.Obj
		before := &Path{In: q.In, St: q.St, Fn: q.Fn, Rets: q.Rets, Ev: q.Ev[:idx]}
		r.reader, r.writer = file, tmp
		r.check(before, Int(0))
		size := q.In.sizeOf(q.St, tmp)
		copied := false
		for i, e := range q.Ev {
			if e.Obj == nil || e.Obj.Key() != file.Key() {
				continue
			}
			switch e.Kind {
			case "write":
				if i > idx && !copied {
					copied = true
					z, isC := constInt(e.At)
					ok := isC && z == 0 && len(e.Seq.Segs) == 1 && e.Seq.Segs[0].Kind == "in" && e.Seq.Segs[0].Key() == cp.Seq.Segs[0].Key() &&
						q.St.decide(eqInt(e.Seq.length(), size)) == 1 && q.St.decide(eqInt(cp.At, Int(0))) == 1
					c.obPath(ok, "copied-back", q, e.Pos, rec.Name()+" copy", "the recovered data isn't copied completely to the beginning of the file")
					continue
				}
				at, ok1 := constInt(e.At)
				k, ok2 := constInt(e.Seq.length())
				c.obPath(copied && ok1 && ok2 && k == 1 && at == int64(len(p.sp.magic))+1, "copied-back", q, e.Pos, rec.Name()+" write", "the file is changed besides copying the recovered data and its lock mark")
			case "truncate":
				c.obPath(q.St.decide(eqInt(e.Args[0], size)) == 1, "copied-back", q, e.Pos, rec.Name()+" truncate", "the file is cut to %s rather than the size of the recovered data", clip(e.Args[0].Key()))
			}
		}
		c.obPath(copied && q.St.decide(eqInt(q.In.sizeOf(q.St, file), size)) == 1, "copied-back", q, rec.Pos(), rec.Name()+" size", "the recovered file doesn't end where the recovered data does")
		lock := lastByte(q, file, Int(int64(len(p.sp.magic))+1))
		c.obPath(lock != nil && lock.Key() == Int(0).Key(), "header", q, rec.Pos(), rec.Name()+" unlocked", "the recovered file is marked locked")
	}
	c.count("successful paths of Recover", n, 3)
}

// Sym0 is the initial position of a stream.
func Sym0(in *Interp, stream Val) Val { return in.posOf(in.NewState(), stream) }

func (s Seg) Key() string { return s.key() }

var _ = (*ssa.Function)(nil)
