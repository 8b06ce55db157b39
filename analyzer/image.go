package main

// Byte images of what is written to a stream, and substitution of what is read
// from it.

import "go/types"

// subst rebuilds a value bottom-up, replacing the nodes f has a replacement for.
func subst(v Val, f func(Val) Val) Val {
	memo := map[string]Val{}
	var rec func(v Val) Val
	recSeq := func(q *Seq) *Seq {
		segs := make([]Seg, len(q.Segs))
		for i, g := range q.Segs {
			n := g
			n.Len = rec(g.Len)
			if g.V != nil {
				n.V = rec(g.V)
			}
			if g.Off != nil {
				n.Off = rec(g.Off)
			}
			segs[i] = n
		}
		return mkSeq(segs...)
	}
	rec = func(v Val) Val {
		if v == nil {
			return nil
		}
		k := v.Key()
		if r, ok := memo[k]; ok {
			return r
		}
		var r Val = v
		switch x := v.(type) {
		case *Lin:
			r = Int(x.C)
			for _, n := range x.names {
				r = add(r, mulc(rec(x.Atom[n]), x.Coef[n]))
			}
		case *App:
			args := make([]Val, len(x.Args))
			ch := false
			for i, a := range x.Args {
				args[i] = rec(a)
				ch = ch || args[i] == nil && a != nil || a != nil && args[i].Key() != a.Key()
			}
			if ch {
				r = rebuild(x, args)
			}
		case *Slice:
			r = mkSlice(x.Base, rec(x.Off), rec(x.Len), rec(x.Cap))
		case *Iface:
			r = mkIface(x.Dyn, rec(x.V))
		case *Agg:
			fs := make([]Val, len(x.Fields))
			for i := range fs {
				fs[i] = rec(x.Fields[i])
			}
			r = mkAgg(x.N, fs)
		case *Tuple:
			vs := make([]Val, len(x.Vs))
			for i := range vs {
				vs[i] = rec(x.Vs[i])
			}
			r = mkTuple(vs...)
		case *Seq:
			r = recSeq(x)
		}
		if n := f(r); n != nil {
			r = n
		}
		memo[k] = r
		return r
	}
	return rec(v)
}

func rebuild(x *App, args []Val) Val {
	switch x.Op {
	case "decode":
		return decode(args)
	case "byte":
		j, _ := constInt(args[1])
		return byteOf(args[0], int(j))
	case "trunc":
		bits, _ := constInt(args[0])
		if x.T != nil {
			return truncTo(int(bits/8), args[1], x.T)
		}
	case "le0":
		return le0(args[0])
	case "not":
		return not(args[0])
	case "eq0":
		return eqInt(args[0], Int(0))
	case "isnil":
		return app("isnil", args...)
	case "seqeq":
		a, oka := args[0].(*Seq)
		b, okb := args[1].(*Seq)
		if oka && okb {
			return seqEq(a, b)
		}
	}
	return appT(x.T, x.Op, args...)
}

// Image is what a path writes to a stream, in order and contiguously.
type Image struct {
	Start Val
	Segs  []Seg
	At    []Val // start of each segment relative to Start
	Len   Val
	OK    bool // the writes follow each other
}

func imageOf(evs []*Event, stream string) *Image {
	im := &Image{OK: true, Len: Int(0)}
	for _, e := range evs {
		if e.Kind == "loop" {
			walk(e.Loop.Iters0(), nil, func(x *Event, _ []*IterPath) {
				if x.Kind == "write" && x.Obj.Key() == stream {
					im.OK = false
				}
			})
			continue
		}
		if e.Obj == nil || e.Obj.Key() != stream {
			continue
		}
		if e.Kind == "seek" && im.Start != nil {
			im.OK = false
		}
		if e.Kind != "write" {
			continue
		}
		if im.Start == nil {
			im.Start = e.At
		}
		if add(im.Start, im.Len).Key() != e.At.Key() {
			im.OK = false
		}
		for _, g := range flattenBytes(e.Seq) {
			im.Segs = append(im.Segs, g)
			im.At = append(im.At, im.Len)
			im.Len = add(im.Len, g.Len)
		}
	}
	return im
}

// Iters0 lists the events of all the iterations.
func (l *LoopSum) Iters0() []*Event {
	var out []*Event
	for _, it := range l.Iters {
		out = append(out, it.Events...)
	}
	return out
}

// byteAt returns the byte at a relative offset, nil if it's unknown.
func (im *Image) byteAt(off Val) Val {
	for i, g := range im.Segs {
		d, ok := constInt(sub(off, im.At[i]))
		if !ok || d < 0 {
			continue
		}
		n, okn := constInt(g.Len)
		if okn && d >= n {
			continue
		}
		switch g.Kind {
		case "val":
			return g.V
		case "zero":
			if okn {
				return Int(0)
			}
		case "sub":
			return appT(types.Typ[types.Uint8], "elem", g.V, addc(g.Off, d))
		}
		if !okn && i+1 < len(im.Segs) {
			return nil
		}
	}
	return nil
}

// replay substitutes the bytes read from a stream with those of the image.
// lenFits: lengths of lists are assumed to fit their encoding.
func (im *Image) replay(v Val, stream Val, start Val) Val {
	return subst(v, func(x Val) Val {
		switch a := x.(type) {
		case *App:
			if a.Op == "in" && a.Args[0].Key() == stream.Key() {
				return im.byteAt(sub(a.Args[1], start))
			}
			if a.Op == "trunc" {
				if l, ok := isApp(a.Args[1], "len"); ok {
					if bits, _ := constInt(a.Args[0]); bits >= 32 {
						return l
					}
				}
			}
			if a.Op == "len" && len(a.Args) == 1 {
				if s, ok := a.Args[0].(*Seq); ok {
					return s.length()
				}
			}
		case *Seq:
			var out []Seg
			ch := false
			for _, g := range a.Segs {
				if g.Kind != "in" || g.V.Key() != stream.Key() {
					out = append(out, g)
					continue
				}
				r := im.window(sub(g.Off, start), g)
				if r == nil {
					out = append(out, g)
					continue
				}
				ch = true
				out = append(out, r...)
			}
			if ch {
				return mkSeq(out...)
			}
		}
		return nil
	})
}

// window returns the elements of the image an input segment reads.
func (im *Image) window(off Val, g Seg) []Seg {
	if n, ok := constInt(g.Len); ok && n <= 64 {
		var out []Seg
		w := g.W
		if w < 1 {
			w = 1
		}
		for i := int64(0); i < n; i++ {
			bs := make([]Val, w)
			for j := range bs {
				b := im.byteAt(addc(off, i*int64(w)+int64(j)))
				if b == nil {
					return nil
				}
				bs[j] = b
			}
			out = append(out, Seg{Kind: "val", Len: Int(1), V: decode(bs)})
		}
		return out
	}
	for i, h := range im.Segs {
		if im.At[i].Key() != off.Key() {
			continue
		}
		total := mulc(g.Len, int64(g.W))
		if h.Kind == "be" && h.W == g.W && h.Len.Key() == total.Key() {
			if q, ok := h.V.(*Seq); ok {
				return q.Segs
			}
		}
		if g.W <= 1 && h.Len.Key() == g.Len.Key() {
			return []Seg{h}
		}
	}
	return nil
}
