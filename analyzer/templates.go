package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What a loop does for one element after the other amounts to a single operation
// on the whole list, if every iteration does the same with the element of its
// number: reading, writing, copying or appending it.

// elements is what the iterations 0..n-1 leave in a list, given what one of them
// leaves in one element.
func (f *frame) elements(v Val, count *Sym, n Val, watermark int) (Seg, bool) {
	in := f.in
	steady := func(v Val) bool { return v != nil && in.olderThan(v, watermark) }
	from := func(idx Val, m int64) (Val, bool) {
		_, coef, _ := linOf(idx)
		if coef[count.Key()] != m {
			return nil, false
		}
		at := sub(idx, mulc(count, m))
		return at, steady(at)
	}
	if z, ok := constInt(v); ok && z == 0 {
		return Seg{Kind: "zero", Len: n}, true
	}
	if e, ok := isApp(v, "elem"); ok {
		if at, ok := from(e.Args[1], 1); ok && steady(e.Args[0]) {
			return Seg{Kind: "sub", Len: n, V: e.Args[0], Off: at}, true
		}
	}
	bs := []Val{v}
	if d, ok := isApp(v, "decode"); ok {
		bs = d.Args
	}
	var s, first Val
	for i, b := range bs {
		x, ok := isApp(b, "in")
		if !ok || len(x.Args) != 2 || !steady(x.Args[0]) || s != nil && s.Key() != x.Args[0].Key() {
			return Seg{}, false
		}
		s = x.Args[0]
		at, ok := from(x.Args[1], int64(len(bs)))
		if !ok {
			return Seg{}, false
		}
		if i == 0 {
			first = at
		} else if addc(first, int64(i)).Key() != at.Key() {
			return Seg{}, false
		}
	}
	return Seg{Kind: "in", Len: n, V: s, Off: first, W: len(bs)}, true
}

// elementBytes is the same for the bytes that every iteration writes.
func (f *frame) elementBytes(segs []Seg, count *Sym, n Val, watermark int) (Seg, bool) {
	if len(segs) == 1 && segs[0].Kind == "val" {
		return f.elements(segs[0].V, count, n, watermark)
	}
	order, v, w := "be", Val(nil), 0
	switch {
	case len(segs) == 1 && (segs[0].Kind == "be" || segs[0].Kind == "le"):
		g := segs[0]
		if size, ok := constInt(g.Len); !ok || int(size) != g.W {
			return Seg{}, false
		}
		order, v, w = g.Kind, g.V, g.W
	default:
		bs := make([]Val, len(segs))
		for i, g := range segs {
			if one, ok := constInt(g.Len); !ok || one != 1 || g.Kind != "val" {
				return Seg{}, false
			}
			bs[i] = g.V
		}
		v, w = decode(bs), len(bs)
		if _, ok := isApp(v, "decode"); ok {
			for i, j := 0, len(bs)-1; i < j; i, j = i+1, j-1 {
				bs[i], bs[j] = bs[j], bs[i]
			}
			order, v = "le", decode(bs)
		}
	}
	g, ok := f.elements(v, count, n, watermark)
	if !ok || g.Kind != "sub" || w == 0 {
		return Seg{}, false
	}
	return Seg{Kind: order, Len: mulc(n, int64(w)), V: mkSeq(g), W: w}, true
}

// templates replaces what a loop over the elements of a list leaves behind, on
// the ways out that are taken after all of the n iterations.
func (f *frame) templates(t *looped) {
	if len(t.sub.back) != 1 {
		return
	}
	bk := t.sub.back[0]
	for i, x := range t.sub.exits {
		if x.from != t.lp.header {
			continue
		}
		var n Val
		for _, ft := range factsSince(x.fs.st.facts, t.facts) {
			if b := f.in.exitBound(t.base.st, ft, t.count, t.watermark); b != nil && boundKept(t.sub.back, t.count, b) {
				n = b
			}
			if ft.Truth {
				if b := f.in.stopsAt(Fact{ft.C, false}, t.count, t.watermark); b != nil {
					n = b
				}
			}
		}
		if n == nil {
			continue
		}
		if fs := f.templated(t, bk, x, n); fs != nil {
			t.sub.exits[i].fs = fs
		}
	}
}

// looped is a loop that has been analysed.
type looped struct {
	lp            *loop
	sum           *LoopSum
	sub           *sink
	base          *fstate
	start         *State
	count         *Sym
	phis          []*ssa.Phi
	phiH          map[*ssa.Phi]*hkey
	havoc         map[string]*hkey
	arrays        map[string]bool
	next          map[string][]Val
	watermark     int
	events, facts int
}

func (f *frame) templated(t *looped, bk, x edge, n Val) *fstate {
	in := f.in
	g := x.fs.clone()
	found := false
	after := func(v Val) Val {
		return subst(v, func(w Val) Val {
			if w.Key() == t.count.Key() {
				return n
			}
			return nil
		})
	}
	// appended
	list := func(k string, h *hkey) Val {
		info := t.sum.Havoc[k]
		at, ok := info.At.(*Slice)
		if !ok || len(t.next[k]) != 1 {
			return nil
		}
		s := in.toSlice(t.next[k][0])
		if s == nil {
			return nil
		}
		was := bk.fs.st.content(at.Base, at.Off, at.Len)
		is := bk.fs.st.content(s.Base, s.Off, s.Len)
		d, _ := constInt(h.step)
		if len(is.Segs) < len(was.Segs) {
			return nil
		}
		more := is.Segs[len(was.Segs):]
		seg, ok := f.elementBytes(more, t.count, n, t.watermark)
		if d == 1 && len(more) == 1 && more[0].Kind == "val" {
			seg, ok = f.elements(more[0].V, t.count, n, t.watermark)
		}
		if !ok || g.st.heap[at.Base.loc()+"#seq"].Key() != t.start.heap[at.Base.loc()+"#seq"].Key() {
			return nil
		}
		q, _ := in.seqOf(t.base.st, info.Init)
		g.st.heap[at.Base.loc()+"#seq"] = concatSeq(q, mkSeq(seg))
		return mkSlice(at.Base, at.Off, after(at.Len), after(at.Cap))
	}
	for k, h := range t.havoc {
		info := t.sum.Havoc[k]
		if info == nil || g.st.heap[k] == nil || g.st.heap[k].Key() != info.At.Key() {
			continue
		}
		switch {
		case h.mode == hList:
			if v := list(k, h); v != nil {
				g.st.heap[k] = v
				found = true
			}
		case strings.HasSuffix(k, "#mem"):
			was, ok1 := info.At.(*Seq)
			init, ok2 := info.Init.(*Seq)
			if !ok1 || !ok2 || len(t.next[k]) != 1 {
				continue
			}
			is, ok := t.next[k][0].(*Seq)
			if !ok || len(is.Segs) < len(was.Segs) || mkSeq(is.Segs[:len(was.Segs)]...).Key() != was.Key() {
				continue
			}
			if seg, ok := f.elementBytes(is.Segs[len(was.Segs):], t.count, n, t.watermark); ok {
				g.st.heap[k] = concatSeq(init, mkSeq(seg))
				found = true
			}
		}
	}
	for p, h := range t.phiH {
		if h != nil && h.mode == hList && g.env[p].Key() == t.sum.Havoc[p.Name()].At.Key() {
			if v := list(p.Name(), h); v != nil {
				g.env[p] = v
				found = true
			}
		}
	}
	// stored
	for a := range t.arrays {
		if f.stored(t, bk, g, a, n) {
			found = true
		}
	}
	// written or read
	if evs := eventsSince(bk.fs.st.tr, t.events); len(evs) == 1 && (evs[0].Kind == "write" || evs[0].Kind == "read") {
		e := *evs[0]
		at := e.At
		size, okn := constInt(e.Seq.length())
		_, coef, _ := linOf(at)
		steady := okn && coef[t.count.Key()] == size && bk.fs.st.isNil(e.Err) == 1 && in.olderThan(e.Obj, t.watermark)
		e.At = sub(at, mulc(t.count, size))
		steady = steady && in.olderThan(e.At, t.watermark)
		if steady && e.Kind == "write" {
			seg, ok := f.elementBytes(e.Seq.Segs, t.count, n, t.watermark)
			steady = ok
			e.Seq = mkSeq(seg)
		} else if steady {
			steady = len(e.Seq.Segs) == 1 && e.Seq.Segs[0].Kind == "in" && e.Seq.Segs[0].Off.Key() == at.Key() && found
			if steady {
				s := e.Seq.Segs[0]
				s.Len, s.Off = mulc(n, size), e.At
				e.Seq = mkSeq(s)
			}
		}
		if steady {
			found = true
			own := eventsSince(g.st.tr, t.events)
			e.Err = in.fresh("err", types.Universe.Lookup("error").Type())
			g.st.addFact(app("isnil", e.Err), true)
			g.st.tr = t.base.st.tr
			e.facts = t.base.st.facts
			g.st.emit(&e)
			for _, o := range own {
				g.st.emit(o)
			}
		}
	}
	if !found {
		return nil
	}
	for k, h := range t.havoc {
		if info := t.sum.Havoc[k]; info != nil && h.fix == nil && (h.mode == hLin || h.mode == hRel) && g.st.heap[k] != nil && g.st.heap[k].Key() == info.At.Key() {
			g.st.heap[k] = after(info.At)
		}
	}
	for p, h := range t.phiH {
		if h != nil && (h.mode == hLin || h.mode == hRel) {
			if at := t.sum.Havoc[p.Name()].At; g.env[p].Key() == at.Key() {
				g.env[p] = after(at)
			}
		}
	}
	return g
}

// stored: every iteration stores to one element of the array, that of its number.
func (f *frame) stored(t *looped, bk edge, g *fstate, a string, n Val) bool {
	in := f.in
	var idx, v Val
	for k, w := range bk.fs.st.heap {
		if arrayOf(k) != a || constElem(k) {
			continue
		}
		if o, ok := t.start.heap[k]; ok && o.Key() == w.Key() {
			continue
		}
		path := k[strings.IndexAny(k, ".["):]
		i := lastElem(path)
		j := matchBracket(path, i)
		if v != nil || j != len(path)-1 || elemIdx[path] == nil {
			return false
		}
		idx, v = elemIdx[path], w
	}
	if v == nil {
		return false
	}
	_, coef, _ := linOf(idx)
	first := sub(idx, t.count)
	if coef[t.count.Key()] != 1 || !in.olderThan(first, t.watermark) {
		return false
	}
	seg, ok := f.elements(v, t.count, n, t.watermark)
	var ahead Val
	if !ok {
		// an element of the same list that hasn't been changed yet
		if el, isEl := isApp(v, "elem"); isEl {
			if was, isSeq := t.start.heap[a+"#seq"].(*Seq); isSeq && len(was.Segs) == 1 && was.Segs[0].Kind == "sub" && was.Segs[0].V.Key() == el.Args[0].Key() && constZero(was.Segs[0].Off) {
				if d, isC := diffConst(el.Args[1], idx); isC && d >= 0 {
					ahead, ok = Int(d), true
				}
			}
		}
	}
	o := in.objByID(objIDOf(a))
	if !ok || o == nil {
		return false
	}
	path := ""
	if i := strings.IndexAny(a, ".["); i >= 0 {
		path = a[i:]
	}
	p := mkPtr(o, path)
	if p.loc() != a || g.st.heap[a+"#seq"] == nil || g.st.heap[a+"#seq"].Key() != t.start.heap[a+"#seq"].Key() {
		return false
	}
	for k := range g.st.heap {
		if arrayOf(k) == a {
			return false
		}
	}
	old, ok := t.base.st.heap[a+"#seq"].(*Seq)
	if !ok {
		was, isSeq := t.start.heap[a+"#seq"].(*Seq)
		if !isSeq || o.Kind == "alloc" || o.Kind == "arr" {
			return false
		}
		old = mkSeq(Seg{Kind: "sub", Len: was.length(), V: arrBase(p), Off: Int(0)})
	}
	whole := t.base.st.content(p, Int(0), old.length())
	end := add(first, n)
	var q *Seq
	if ahead == nil {
		q = mkSeq(seg)
	} else {
		q = t.base.st.window(whole, add(first, ahead), n)
	}
	if t.base.st.decide(eqInt(first, Int(0))) != 1 {
		q = concatSeq(t.base.st.window(whole, Int(0), first), q)
	}
	if rest := sub(old.length(), end); t.base.st.decide(eqInt(rest, Int(0))) != 1 {
		q = concatSeq(q, t.base.st.window(whole, end, rest))
	}
	g.st.heap[a+"#seq"] = q
	return true
}

func constZero(v Val) bool {
	n, ok := constInt(v)
	return ok && n == 0
}
