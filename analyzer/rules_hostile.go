package main

// Hostile contents of storage files.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C14", "On every path of every exported operation of the storage packages, with the contents of the files unknown: no path panics, no index, slice, conversion, division or dereference may be out of range, and the size of every allocation that isn't that of a list in memory is bounded, by a condition that holds on all the paths through the allocation, by a constant or by a multiple of the capacity declared by the entry being read (so by the check before it). A successful read of an entry has consumed exactly the capacity, with the items in it.", hostileRules)
}

func hostileRules(c *Ctx) {
	n, nAlloc := 0, 0
	c.operations(func(fn *ssa.Function, q *Path) {
		if strings.HasSuffix(fnPkg(fn).Path(), "/domain") {
			return
		}
		n++
		c.obPath(q.End == "", "no-panic", q, fn.Pos(), fn.Name(), "%s may end with %s", fn.Name(), q.End)
		q.each(func(e *Event, st *State, _ int, _ bool) {
			switch e.Kind {
			case "bound", "nilderef", "nilmap":
				c.obPath(false, "no-panic", q, e.Pos, e.Fn.Name()+" "+e.Kind, "may be out of range: %s", clip(e.String()))
			case "idiv":
				c.obPath(st.decide(eqInt(e.Args[1], Int(0))) == -1, "no-panic", q, e.Pos, e.Fn.Name()+" division", "may divide by zero: %s", clip(e.String()))
			case "alloc":
				nAlloc++
				c.allocBound(q, st, e, e.Args[0], e.T)
			case "call":
				for _, a := range e.Args {
					if a != nil && sizeLike(a) {
						c.obPath(false, "allocation", q, e.Pos, e.Fn.Name()+" "+e.Name, "%s is called with a size that comes from a file: %s", e.Name, clip(a.Key()))
					}
				}
			}
		})
	})
	c.count("paths of storage operations", n, 300)
	c.count("allocations of sizes that aren't constant", nAlloc, 10)
	c.readFits()
}

// sizeLike: an integer computed from the contents of a stream.
func sizeLike(v Val) bool {
	switch x := v.(type) {
	case *Lin:
		for _, a := range x.Atom {
			if sizeLike(a) {
				return true
			}
		}
	case *App:
		return x.Op == "decode" || x.Op == "in" || x.Op == "trunc" && sizeLike(x.Args[1])
	}
	return false
}

// allocBound: the number of elements is at least zero and is bounded.
func (c *Ctx) allocBound(q *Path, st *State, e *Event, n Val, t types.Type) {
	construct := e.Fn.Name() + " " + types.TypeString(t, func(p *types.Package) string { return p.Name() })
	c.obPath(st.decide(le0(mulc(n, -1))) == 1, "allocation", q, e.Pos, construct+" negative", "memory may be allocated for a negative number of elements, %s", clip(n.Key()))
	cst, coef, atom := linOf(n)
	inMemory := true
	for k := range coef {
		ok := false
		switch a := atom[k].(type) {
		case *App:
			ok = a.Op == "len" || a.Op == "cap" || a.Op == "maplen"
		case *Sym: // the size of a file
			ok = strings.HasPrefix(a.Name, "size(")
		}
		inMemory = inMemory && ok && coef[k] > 0 && coef[k] <= 64
	}
	if inMemory && cst < 1<<24 {
		c.obPath(true, "allocation", q, e.Pos, construct, "")
		return
	}
	size := int64(48) // an element of a map
	if s, ok := t.Underlying().(*types.Slice); ok {
		size = types.SizesFor("gc", "amd64").Sizeof(s.Elem())
	}
	ok := st.decide(le0(addc(n, -(1<<24)/size))) == 1
	for _, f := range st.factList() {
		a, isLe := isApp(f.C, "le0")
		if !isLe {
			continue
		}
		l := a.Args[0]
		if !f.Truth {
			l = addc(mulc(l, -1), 1)
		}
		ok = ok || boundedBy(l, n, size)
	}
	c.obPath(ok, "allocation", q, e.Pos, construct, "memory for %s elements is allocated though that many needn't fit in the entry", clip(n.Key()))
}

// boundedBy: l <= 0 says that n elements take no more than a small multiple of
// what is declared as the size of the data.
func boundedBy(l, n Val, size int64) bool {
	_, nc, na := linOf(n)
	if len(nc) != 1 {
		return false
	}
	var name string
	for k := range nc {
		name = k
	}
	lc, lco, la := linOf(l)
	f := lco[name]
	if f <= 0 || na[name] == nil || nc[name] <= 0 {
		return false
	}
	// f*x + rest <= 0, n = nc*x + c
	rest := int64(0)
	for k, v := range lco {
		if k == name || v > 0 {
			// more on the left only makes the bound tighter, if it isn't negative
			if k != name && !nonNegative(la[k]) {
				return false
			}
			continue
		}
		if !declared(la[k]) || strings.Contains(la[k].Key(), name) {
			return false
		}
		rest -= v
	}
	return nc[name]*size*rest <= 16*f && -lc*size*nc[name] <= f<<24
}

// declared: a number of at most 32 bits, or part of one.
func declared(v Val) bool {
	switch x := v.(type) {
	case *Lin:
		for n, a := range x.Atom {
			if x.Coef[n] != 1 || !declared(a) {
				return false
			}
		}
		return x.C <= 0 && len(x.Atom) == 1
	case *App:
		switch x.Op {
		case "decode":
			return len(x.Args) <= 4
		case "div", "shr", "rem":
			return declared(x.Args[0])
		case "len":
			return true
		}
		return strings.HasPrefix(x.Op, "field:") && smallInt(x.T)
	case *Sym:
		return smallInt(x.T)
	}
	return false
}
func smallInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint32 || b.Kind() == types.Uint16 || b.Kind() == types.Uint8)
}
func nonNegative(v Val) bool {
	if a, ok := v.(*App); ok && (a.Op == "decode" || a.Op == "len" || a.Op == "cap") {
		return true
	}
	return declared(v)
}

// readFits: an entry that is read takes exactly its capacity.
func (c *Ctx) readFits() {
	t := c.impl("infra/recdb", "Protocol")
	en := c.named("infra/recdb", "Entry")
	if t == nil || en == nil {
		return
	}
	re := c.meth(t, "ReadEntry")
	if re == nil {
		return
	}
	in := NewInterp(c.w, Config{})
	r := in.namedSym("r", types.NewInterfaceType(nil, nil))
	e := in.namedSym("e", types.NewPointer(en))
	n := 0
	for _, q := range okPaths(c.run(in, re, in.args(re, "", argFor{ioParam, r}, argFor{ptrTo(en), e}), nil, nil)) {
		n++
		start := in.posOf(in.NewState(), r)
		var capa Val
		for _, l := range leaves(en) {
			if l.path == ".Capacity" {
				capa = in.loadField(q.St, e, l)
			}
		}
		used := sub(in.posOf(q.St, r), start)
		c.obPath(capa != nil && q.St.decide(eqInt(used, capa)) == 1, "fits", q, re.Pos(), re.Name(), "an entry is read from %s bytes though its capacity is %s", clip(used.Key()), show(capa))
		for _, x := range usesOfAll(q.Ev, "read", r) {
			end := x.At
			for _, g := range x.Seq.Segs {
				l := g.Len
				if g.W > 1 {
					l = mulc(l, int64(g.W))
				}
				end = add(end, l)
			}
			c.obPath(q.St.decide(le0(sub(sub(end, start), capa))) == 1, "fits", q, x.Pos, re.Name()+" item", "data beyond the capacity of the entry are read as part of it: up to %s", clip(sub(end, start).Key()))
		}
	}
	c.count("successful paths of ReadEntry", n, 1)
}
