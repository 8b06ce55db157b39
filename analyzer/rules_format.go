package main

// Formats: whatever is written can be read back, and the layout is the one the
// existing files have.

import (
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fieldSpec struct {
	path string // ".Field"; "#len.Field": number of the elements; "*": checksum
	w    int    // bytes, big endian; -8: elements of 8 bytes
}
type protoSpec struct {
	pkg    string
	magic  string
	header []fieldSpec
	entry  []fieldSpec
}

var deltaSpec = protoSpec{"infra/delta", "RECDELTA",
	[]fieldSpec{{".Version", 1}, {".Locked", 1}, {".NumEntries", 4}},
	[]fieldSpec{{".Op", 1}, {".UserID", 8}, {".ItemID", 8}, {"*", 1}}}
var indexSpec = protoSpec{"infra/index", "RECIDX",
	[]fieldSpec{{".Version", 1}, {".Locked", 1}, {".NumEntries", 4}},
	[]fieldSpec{{".ID", 8}, {".Index", 8}}}
var recdbSpec = protoSpec{"infra/recdb", "RECDB",
	[]fieldSpec{{".Version", 1}, {".EntryType", -1}, {".Locked", 1}, {".NumEntries", 4}}, nil}

func init() {
	register("C01", "Per field of the delta file header and entry: the bytes the writer's abstract execution emits are substituted for the bytes the reader's consumes, and the resulting terms must be the fields that were written; the layout must be the one of version 1.",
		func(c *Ctx) { formatRules(c, deltaSpec) })
	register("C02", "The same for the index file.",
		func(c *Ctx) { formatRules(c, indexSpec) })
	register("C03", "The same for the RECDB file, including profile entries of arbitrary size, their capacity padding and the refusal to write an entry that doesn't fit in its capacity, or whose data isn't a profile. The image of a database that's created is the prefix and the header of an unlocked file of the protocol's type without entries, and that's what a function that opens a file by its name leaves in one it has created, with the position at the start.",
		func(c *Ctx) { formatRules(c, recdbSpec); recdbEntryRules(c); createRules(c) })
}

type proto struct {
	c       *Ctx
	sp      protoSpec
	t       types.Type
	hdr, en types.Type
}

func (c *Ctx) proto(sp protoSpec) *proto {
	p := &proto{c: c, sp: sp, t: c.impl(sp.pkg, "Protocol")}
	h, e := c.named(sp.pkg, "Header"), c.named(sp.pkg, "Entry")
	if p.t == nil || h == nil || e == nil {
		return nil
	}
	p.hdr, p.en = h, e
	return p
}

// successWrites are the successful paths of a writer with the image of what they
// write.
type written struct {
	*Path
	Im *Image
}

func (p *proto) write(in *Interp, fn *ssa.Function, src Val, t types.Type) (out []written) {
	w := in.namedSym("w", types.NewInterfaceType(nil, nil))
	sp := []argFor{{ioParam, w}}
	if t != nil {
		sp = append(sp, argFor{ptrTo(t), src})
	}
	for _, q := range okPaths(p.c.run(in, fn, in.args(fn, "", sp...), nil, nil)) {
		im := imageOf(q.Ev, "w")
		p.c.obPath(im.OK && im.Start != nil && im.Start.Key() == "pos(w)", "contiguous", q, fn.Pos(), fn.Name(),
			"what %s writes isn't a contiguous range starting at the position of the stream", fn.Name())
		out = append(out, written{q, im})
	}
	p.c.count("successful paths of "+fn.Name(), len(out), 1)
	return
}

func formatRules(c *Ctx, sp protoSpec) {
	p := c.proto(sp)
	if p == nil {
		return
	}
	// magic number
	if wfn, rfn := c.meth(p.t, "WritePrefix"), c.meth(p.t, "ReadPrefix"); wfn != nil && rfn != nil {
		in := NewInterp(c.w, Config{})
		for _, w := range p.write(in, wfn, nil, nil) {
			var want []Seg
			for _, ch := range []byte(sp.magic) {
				want = append(want, Seg{Kind: "val", Len: Int(1), V: Int(int64(ch))})
			}
			p.layout(w, wfn, want)
			p.read(in, rfn, w, nil, nil, nil)
		}
		p.prefixRejects(in, rfn)
	}
	// header
	p.roundTrip("WriteHeader", "ReadHeader", p.hdr, sp.header)
	if sp.entry != nil {
		p.roundTrip("WriteEntry", "ReadEntry", p.en, sp.entry)
	}
}

func (p *proto) layout(w written, fn *ssa.Function, want []Seg) {
	got := flattenBytes(spread(mkSeq(w.Im.Segs...)))
	want = flattenBytes(spread(mkSeq(want...)))
	ok := len(got) == len(want)
	at := len(got)
	for i := 0; ok && i < len(got); i++ {
		if got[i].key() != want[i].key() {
			ok, at = false, i
		}
	}
	detail := ""
	if !ok && at < len(got) && at < len(want) {
		detail = ": got " + clip(got[at].key()) + ", want " + clip(want[at].key())
	}
	p.c.obPath(ok, "layout", w.Path, fn.Pos(), fn.Name(), "the bytes %s writes aren't laid out the way files of version 1 are, piece %d differs%s", fn.Name(), at, detail)
}

func (p *proto) want(in *Interp, st *State, src Val, t types.Type, spec []fieldSpec) []Seg {
	var out []Seg
	byPath := map[string]leaf{}
	for _, l := range leaves(t) {
		byPath[l.path] = l
	}
	for _, f := range spec {
		if f.path == "*" {
			out = append(out, Seg{Kind: "any", Len: Int(1)})
			continue
		}
		l, ok := byPath[f.path]
		if !ok {
			p.c.missing("field " + strings.TrimPrefix(f.path, ".") + " of " + t.String())
			return nil
		}
		v := in.fieldVal(st, src, l)
		if q, ok := v.(*Seq); ok {
			out = append(out, q.Segs...)
		} else {
			out = append(out, beSeg(f.w, v))
		}
	}
	return out
}

func (p *proto) roundTrip(writer, reader string, t types.Type, spec []fieldSpec) {
	c := p.c
	wfn, rfn := c.meth(p.t, writer), c.meth(p.t, reader)
	if wfn == nil || rfn == nil {
		return
	}
	in := NewInterp(c.w, Config{})
	src := in.namedSym("src", types.NewPointer(t))
	for _, w := range p.write(in, wfn, src, t) {
		want := p.want(in, in.NewState(), src, t, spec)
		if n := len(want); n > 0 && want[n-1].Kind == "any" {
			// the checksum is checked separately
			got := flattenBytes(mkSeq(w.Im.Segs...))
			if len(got) > 0 && got[len(got)-1].Kind == "val" {
				want[n-1] = got[len(got)-1]
			}
			p.checksum(in, w, src, got)
		}
		p.layout(w, wfn, want)
		p.read(in, rfn, w, src, t, nil)
	}
}

// read runs the reader over what has been written.
func (p *proto) read(in *Interp, fn *ssa.Function, w written, src Val, t types.Type, same func(w written, r *Path, dst Val, rep func(Val) Val)) {
	c := p.c
	r := in.namedSym("r", types.NewInterfaceType(nil, nil))
	sp := []argFor{{ioParam, r}}
	var dst Val
	if t != nil {
		dst = in.namedSym("dst", types.NewPointer(t))
		sp = append(sp, argFor{ptrTo(t), dst})
	}
	start := in.posOf(in.NewState(), r)
	rep := func(v Val) Val { return w.Im.replay(v, r, start) }
	n := 0
	for _, q := range c.run(in, fn, in.args(fn, "", sp...), nil, nil) {
		if q.ioFailed() {
			continue
		}
		st := w.St.clone()
		if !assume(st, q.St.factList(), rep) {
			continue
		}
		if !c.obPath(q.OK(), "readable", q, fn.Pos(), fn.Name()+" of written", "%s may fail to read what has been written successfully (%s)", fn.Name(), ending(q)) {
			continue
		}
		n++
		end := rep(in.posOf(q.St, r))
		c.obPath(sub(end, add(start, w.Im.Len)).Key() == "0" || st.decide(eqInt(end, add(start, w.Im.Len))) == 1, "consumed", q, fn.Pos(), fn.Name(),
			"%s leaves the stream at %s, though %s bytes have been written", fn.Name(), clip(sub(end, start).Key()), clip(w.Im.Len.Key()))
		full := true
		for _, e := range q.Ev {
			if e.Kind == "read" && e.Sub == "some" {
				if n, ok := constInt(e.Seq.length()); !ok || n != 1 {
					full = false
				}
			}
		}
		c.obPath(full, "full-reads", q, fn.Pos(), fn.Name(), "%s relies on a single Read call to return all the bytes", fn.Name())
		if same != nil {
			same(w, q, dst, rep)
			continue
		}
		if t == nil {
			continue
		}
		for _, l := range leaves(t) {
			if l.path == ".Checksum" {
				// filled by the reader only
				got := rep(in.fieldVal(q.St, dst, l))
				last := w.Im.byteAt(addc(w.Im.Len, -1))
				c.obPath(last != nil && got.Key() == last.Key(), "roundtrip", q, fn.Pos(), fn.Name()+l.path, "%s doesn't return the checksum that was written", fn.Name())
				continue
			}
			a := in.fieldVal(w.St, src, l)
			b := rep(in.fieldVal(q.St, dst, l))
			c.obPath(a.Key() == b.Key(), "roundtrip", q, fn.Pos(), fn.Name()+l.path,
				"field %s is read as %s, not as what was written", l.path[1:], clip(b.Key()))
		}
	}
	c.count("successful paths of "+fn.Name(), n, 1)
}

func ending(q *Path) string {
	if q.End != "" {
		return q.End
	}
	if q.Err != nil {
		return "error " + clip(q.Err.Key())
	}
	return "?"
}

// prefixRejects: a reader of the magic number succeeds only if the bytes are
// equal to it.
func (p *proto) prefixRejects(in *Interp, fn *ssa.Function) {
	r := in.namedSym("r2", types.NewInterfaceType(nil, nil))
	start := in.posOf(in.NewState(), r)
	for _, q := range okPaths(p.c.run(in, fn, in.args(fn, "", argFor{ioParam, r}), nil, nil)) {
		for i, ch := range []byte(p.sp.magic) {
			// assuming that this byte differs must contradict the path
			st := q.St
			b := app("in", r, addc(start, int64(i)))
			bad := differs(st, b, int64(ch))
			if !p.c.obPath(bad, "magic", q, fn.Pos(), fn.Name(), "%s accepts files whose byte %d isn't %q", fn.Name(), i, string(ch)) {
				break
			}
		}
	}
}

// differs: the facts imply that the byte equals the value.
func differs(st *State, b Val, v int64) bool {
	if st.decide(eqInt(b, Int(v))) == 1 {
		return true
	}
	for _, f := range st.factList() {
		a, ok := isApp(f.C, "seqeq")
		if !ok || !f.Truth {
			continue
		}
		for i := 0; i < 2; i++ {
			x, okx := a.Args[i].(*Seq)
			y, oky := a.Args[1-i].(*Seq)
			if !okx || !oky || len(x.Segs) != 1 || x.Segs[0].Kind != "in" {
				continue
			}
			off, ok := constInt(sub(b.(*App).Args[1], x.Segs[0].Off))
			n, okn := constInt(x.Segs[0].Len)
			if !ok || !okn || off < 0 || off >= n {
				continue
			}
			im := &Image{}
			im.Len = Int(0)
			for _, g := range flattenBytes(y) {
				im.Segs, im.At = append(im.Segs, g), append(im.At, im.Len)
				im.Len = add(im.Len, g.Len)
			}
			if w := im.byteAt(Int(off)); w != nil && w.Key() == Int(v).Key() {
				return true
			}
		}
	}
	return false
}

// ---- checksum of delta entries

func (p *proto) checksum(in *Interp, w written, src Val, got []Seg) {
	c := p.c
	wfn := w.Fn
	last := got[len(got)-1]
	c.obPath(last.Kind == "val" && checksumOf(last.V, src), "checksum", w.Path, wfn.Pos(), wfn.Name(),
		"the last byte of an entry doesn't depend on every byte of the operation, user and item in a way that any change of one of them changes it")
	// the exported calculation is the same
	if fn := c.meth(p.t, "CalcEntryChecksum"); fn != nil {
		for _, q := range c.run(in, fn, in.args(fn, "", argFor{ptrTo(p.en), src}), nil, nil) {
			c.obPath(q.End == "" && len(q.Rets) == 1 && q.Rets[0].Key() == last.V.Key(), "checksum", q, fn.Pos(), fn.Name(),
				"%s returns %s, which isn't the checksum that is written", fn.Name(), ending(q))
		}
	}
	// validation succeeds if and only if the checksums are equal
	if fn := c.meth(p.t, "ValidateEntryChecksum"); fn != nil {
		var field Val
		for _, l := range leaves(p.en) {
			if l.path == ".Checksum" {
				field = in.fieldVal(in.NewState(), src, l)
			}
		}
		if field == nil {
			c.missing("field Checksum of delta.Entry")
			return
		}
		eq := eqInt(field, last.V)
		for _, q := range c.run(in, fn, in.args(fn, "", argFor{ptrTo(p.en), src}), nil, nil) {
			ok := q.End == "" && len(q.Rets) == 1
			if ok {
				if b, isC := constBool(q.Rets[0]); isC {
					d := q.St.decide(eq)
					ok = b && d == 1 || !b && d == -1
				} else {
					ok = q.Rets[0].Key() == eq.Key()
				}
			}
			c.obPath(ok, "checksum", q, fn.Pos(), fn.Name(), "%s doesn't compare the stored checksum with the computed one", fn.Name())
		}
	}
}

// checksumOf: v is a sum modulo 256 of the bytes of op, user and item with odd
// coefficients, so it detects a change of any byte.
func checksumOf(v Val, src Val) bool {
	if a, ok := isApp(v, "trunc"); ok {
		if bits, _ := constInt(a.Args[0]); bits != 8 {
			return false
		}
		v = a.Args[1]
	}
	l, ok := v.(*Lin)
	if !ok {
		return false
	}
	need := map[string]bool{src.Key() + ".Op": true}
	for _, f := range []string{".UserID", ".ItemID"} {
		for j := 0; j < 8; j++ {
			need["byte("+src.Key()+f+","+Int(int64(j)).Key()+")"] = true
		}
	}
	for k, n := range l.Coef {
		k = strings.TrimPrefix(k, "")
		if need[k] && n%2 != 0 {
			delete(need, k)
		} else {
			return false
		}
	}
	return len(need) == 0
}

// ---- RECDB entries

func recdbEntryRules(c *Ctx) {
	p := c.proto(recdbSpec)
	prof := c.named("domain", "Profile")
	if p == nil || prof == nil {
		return
	}
	wfn, rfn := c.meth(p.t, "WriteEntry"), c.meth(p.t, "ReadEntry")
	pre := c.meth(p.t, "PredictEntryCapacity")
	if wfn == nil || rfn == nil || pre == nil {
		return
	}
	in := NewInterp(c.w, Config{})
	src := in.namedSym("src", types.NewPointer(p.en))
	var lCap, lDel, lData leaf
	for _, l := range leaves(p.en) {
		switch l.path {
		case ".Capacity":
			lCap = l
		case ".Deleted":
			lDel = l
		case ".Data":
			lData = l
		}
	}
	if lCap.t == nil || lDel.t == nil || lData.t == nil {
		c.missing("fields of recdb.Entry")
		return
	}
	// the entry holds a profile
	base := in.NewState()
	ps := in.namedSym("profile", types.NewPointer(prof))
	sp := in.deref(src)
	data := mkIface(types.NewPointer(prof), ps)
	base.store(mkPtr(sp.O, lData.path), data, lData.t)
	base.addFact(app("isnil", ps), false)
	pf := map[string]leaf{}
	for _, l := range leaves(prof) {
		pf[l.path] = l
	}
	for _, f := range []string{".UserID", ".Likes", ".Dislikes"} {
		if pf[f].t == nil {
			c.missing("field " + f[1:] + " of domain.Profile")
			return
		}
	}
	user := in.fieldVal(base, ps, pf[".UserID"])
	likes, nl := in.seqOf(base, in.loadField(base, ps, pf[".Likes"]))
	dislikes, nd := in.seqOf(base, in.loadField(base, ps, pf[".Dislikes"]))
	capacity := in.fieldVal(base, src, lCap)
	deleted := in.fieldVal(base, src, lDel)
	dataLen := addc(add(mulc(nl, 8), mulc(nd, 8)), 16)
	total := addc(dataLen, 5)

	w := in.namedSym("w", types.NewInterfaceType(nil, nil))
	n := 0
	for _, q := range c.run(in, wfn, in.args(wfn, "", argFor{ioParam, w}, argFor{ptrTo(p.en), src}), nil, base.clone()) {
		fits := le0(sub(total, capacity))
		if !q.OK() {
			// It's an error not to fit, and nothing else is
			if q.ioFailed() {
				continue
			}
			c.obPath(q.St.decide(fits) == -1, "fits", q, wfn.Pos(), wfn.Name(), "%s may refuse an entry that fits in its capacity (%s)", wfn.Name(), ending(q))
			wrote := false
			for _, e := range q.Ev {
				wrote = wrote || e.Kind == "write"
			}
			c.obPath(!wrote, "fits", q, wfn.Pos(), wfn.Name()+" partial", "%s writes a part of an entry it refuses", wfn.Name())
			continue
		}
		if q.ioFailed() {
			c.obPath(false, "errors", q, wfn.Pos(), wfn.Name(), "%s succeeds though writing failed", wfn.Name())
			continue
		}
		c.obPath(q.St.decide(fits) == 1, "fits", q, wfn.Pos(), wfn.Name()+" overflow", "%s may write an entry larger than its capacity over the next one", wfn.Name())
		n++
		im := imageOf(q.Ev, "w")
		st := q.St
		c.obPath(im.OK && im.Start != nil, "contiguous", q, wfn.Pos(), wfn.Name(), "what %s writes isn't contiguous", wfn.Name())
		c.obPath(st.decide(eqInt(im.Len, capacity)) == 1 || im.Len.Key() == capacity.Key(), "capacity", q, wfn.Pos(), wfn.Name(),
			"an entry of capacity C spans %s bytes, not C", clip(im.Len.Key()))
		c.obPath(len(q.Rets) == 2 && (st.decide(eqInt(q.Rets[0], capacity)) == 1), "returned-size", q, wfn.Pos(), wfn.Name(), "%s doesn't return the size of what it writes", wfn.Name())
		lenOf := func(v Val) Val { return truncTo(4, v, types.Typ[types.Uint32]) }
		want := []Seg{beSeg(4, capacity), beSeg(1, deleted), beSeg(8, user),
			beSeg(4, lenOf(nl)), {Kind: "be", Len: mulc(nl, 8), V: likes, W: 8},
			beSeg(4, lenOf(nd)), {Kind: "be", Len: mulc(nd, 8), V: dislikes, W: 8}}
		got := flattenBytes(mkSeq(im.Segs...))
		if k := len(got); k > 0 && got[k-1].Kind == "zero" {
			want = append(want, got[k-1])
		}
		wr := written{q, im}
		p.layout(wr, wfn, want)
		p.read(in, rfn, wr, src, p.en, func(w written, r *Path, dst Val, rep func(Val) Val) {
			same := func(name string, a, b Val) {
				c.obPath(b != nil && a.Key() == rep(b).Key(), "roundtrip", r, rfn.Pos(), rfn.Name()+"."+name, "%s isn't read as what was written", name)
			}
			same("capacity", capacity, in.fieldVal(r.St, dst, lCap))
			same("deletion mark", deleted, in.fieldVal(r.St, dst, lDel))
			d := in.fieldVal(r.St, dst, lData)
			i, ok := d.(*Iface)
			if !c.obPath(ok && types.Identical(i.Dyn, types.NewPointer(prof)), "roundtrip", r, rfn.Pos(), rfn.Name()+".data", "the data read isn't a profile") {
				return
			}
			same("user", user, in.fieldVal(r.St, i.V, pf[".UserID"]))
			same("likes", likes, in.fieldVal(r.St, i.V, pf[".Likes"]))
			same("dislikes", dislikes, in.fieldVal(r.St, i.V, pf[".Dislikes"]))
			c.obPath(len(r.Rets) == 2 && rep(r.Rets[0]).Key() == capacity.Key(), "returned-size", r, rfn.Pos(), rfn.Name(), "%s doesn't return the size of the entry", rfn.Name())
		})
	}
	c.count("successful paths of "+wfn.Name(), n, 1)
	// the predicted capacity is always sufficient
	for _, q := range c.run(in, pre, in.args(pre, "", argFor{ptrTo(p.en), src}), nil, base.clone()) {
		ok := q.OK() && len(q.Rets) == 2 && q.St.decide(le0(sub(total, q.Rets[0]))) == 1
		c.obPath(ok, "capacity", q, pre.Pos(), pre.Name(), "%s may return less than the entry takes (%s)", pre.Name(), ending(q))
	}
	// other data is refused
	for _, other := range []Val{zeroVal(lData.t), mkIface(types.Typ[types.Int], in.namedSym("number", types.Typ[types.Int]))} {
		foreign := in.NewState()
		foreign.store(mkPtr(sp.O, lData.path), other, lData.t)
		for _, q := range c.run(in, wfn, in.args(wfn, "", argFor{ioParam, w}, argFor{ptrTo(p.en), src}), nil, foreign) {
			wrote := false
			for _, e := range q.Ev {
				wrote = wrote || e.Kind == "write"
			}
			c.obPath(!q.OK() && !wrote, "refused", q, wfn.Pos(), wfn.Name()+" other", "%s accepts, or writes a part of, an entry whose data isn't a profile (%s)", wfn.Name(), ending(q))
		}
	}
}

// createRules: a new database is an empty one.
func createRules(c *Ctx) {
	p := c.proto(recdbSpec)
	if p == nil {
		return
	}
	create, kind := c.meth(p.t, "Create"), c.impl("infra/recdb", "ConcreteProtocol")
	if create == nil || kind == nil {
		return
	}
	et := c.meth(kind, "GetEntryType")
	if et == nil {
		return
	}
	in := NewInterp(c.w, Config{})
	var want []Seg
	for _, b := range []byte(recdbSpec.magic) {
		want = append(want, beSeg(1, Int(int64(b))))
	}
	want = append(want, beSeg(1, Int(1)))
	for _, q := range c.run(in, et, in.args(et, ""), nil, nil) {
		if t, ok := q.Rets[0].(*Seq); c.obPath(ok && t.length().Key() == "8", "created", q, et.Pos(), et.Name(), "the type of entries isn't 8 known bytes") {
			want = append(want[:6], t.Segs...)
		}
	}
	want = append(want, beSeg(1, Int(0)), beSeg(4, Int(0)))
	for _, w := range p.write(in, create, nil, nil) {
		p.layout(w, create, want)
	}
	// functions that open, or create, a file
	for _, fn := range c.w.Funcs {
		if fnPkg(fn) == nil || fnPkg(fn).Path() != modulePath+"/internal/infra/recdb" || fn.Parent() != nil || fn.Synthetic != "" || !opensItself(fn) {
			continue
		}
		n := 0
		for _, q := range okPaths(c.run(in, fn, in.args(fn, ""), nil, nil)) {
			for _, e := range q.Ev {
				if !opensFile(e) || q.St.isNil(e.Err) != 1 || len(e.Res) == 0 {
					continue
				}
				n++
				file := unwrap(e.Res[0])
				c.obPath(in.posOf(q.St, file).Key() == "0", "created", q, e.Pos, fn.Name()+" position", "%s leaves the file at %s rather than at its start", fn.Name(), clip(in.posOf(q.St, file).Key()))
				flags, known := constInt(Int(0))
				if e.Name == "os.OpenFile" {
					flags, known = constInt(e.Args[1])
				}
				if e.Name == "os.Open" || known && e.Name == "os.OpenFile" && int(flags)&os.O_CREATE == 0 {
					continue // has been there
				}
				var evs []*Event
				for _, x := range q.Ev {
					if x.Kind != "seek" {
						evs = append(evs, x)
					}
				}
				im := imageOf(evs, file.Key())
				if c.obPath(im.OK && im.Start != nil && im.Start.Key() == "0", "created", q, e.Pos, fn.Name()+" empty", "%s may leave a file that it has created without a header", fn.Name()) {
					p.layout(written{q, im}, fn, want)
				}
			}
		}
		c.count("files opened by "+fn.Name(), n, 1)
	}
}

// opensItself: the function contains the call that opens a file by its name.
func opensItself(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if call, ok := i.(ssa.CallInstruction); ok {
				if f := call.Common().StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "os" && (f.Name() == "Open" || f.Name() == "OpenFile" || f.Name() == "Create") {
					return true
				}
			}
		}
	}
	return false
}

// loadField loads a field as it is.
func (in *Interp) loadField(st *State, ptr Val, l leaf) Val {
	p := in.deref(ptr)
	return st.load(mkPtr(p.O, p.Path+l.path), l.t)
}
