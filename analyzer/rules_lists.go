package main

// The list and I/O helpers.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C31", "Every path of the helpers, with inequalities between the positions as loop invariants. Lists: every index is within the list; a search returns -1 or a position within the list that the path has found to hold the value, and changes nothing; of a list that isn't empty, the closest element is at a position within it; the contents after removing are those of the list but the element at the given position, in the order of the list where it's to be kept, and after inserting those of the list with the value at the given position. I/O: for every size that isn't negative, success means that the positions of the stream at the beginning and at the end, and the count returned, differ by exactly the size, failure is reported iff the stream fails, with no more than the size transferred; nothing but zeros is written; no memory in proportion to the size; every transfer requests at least one byte.", listRules,
		"values are totally ordered (there's no NaN among them)", "the sum of two positions in a list doesn't overflow")
	register("C39", "Every path of the searching and ordered inserting helpers, for a sorted list that is described by the number of elements below the value and the number of those that aren't above it, so that a comparison of an element with the value is an inequality of its position; loop invariants are found as inequalities between positions and these numbers. A path on which a search returns -1 is impossible if the list has the value. A value is inserted at a position that isn't before an element below it nor behind an element above it, and by PutSavingOrder only if the list doesn't have it; a list that PutSavingOrder returns unchanged has the value.", orderRules,
		"values are totally ordered (there's no NaN among them)", "the sum of two positions in a list doesn't overflow")
}

// listOp is a run of a helper on a list.
type listOp struct {
	c  *Ctx
	fn *ssa.Function
	in *Interp
	o  *order
	st *State

	list, value, index Val
	n                  Val
	elems              Val
	paths              []*Path
}

// listOp runs a helper. The facts are preconditions.
func (c *Ctx) listOp(name string, mode string, pre func(op *listOp) []Fact) *listOp {
	fn := c.fn("helpers." + name)
	if fn == nil {
		return nil
	}
	op := &listOp{c: c, fn: fn, o: newOrder()}
	op.in = NewInterp(c.w, Config{Order: op.o})
	args := op.in.args(fn, "")
	for i, p := range fn.Params {
		switch {
		case sliceOf(p.Type()) != nil && op.list == nil:
			op.list = args[i]
		case isInteger(p.Type()) && !isTypeParam(p.Type()) && (name != "IndexOf") && (strings.HasPrefix(name, "Remove") || name == "Insert") && op.index == nil:
			op.index = args[i]
		case op.value == nil:
			op.value = args[i]
		}
	}
	if op.list == nil {
		c.missing("the list that " + name + " is given")
		return nil
	}
	op.st = op.in.NewState()
	q, n := op.in.seqOf(op.st, op.list)
	op.n = n
	if len(q.Segs) == 1 && q.Segs[0].Kind == "sub" {
		op.elems = q.Segs[0].V
		op.o.list = op.elems.Key()
	}
	if op.value != nil {
		op.o.v = op.value.Key()
	}
	op.o.size = n
	op.o.mode = mode
	if pre != nil {
		for _, f := range pre(op) {
			op.st.addFact(f.C, f.Truth)
		}
	}
	op.paths = c.run(op.in, fn, args, nil, op.st)
	c.ob(len(op.paths) > 0, "paths", fn, fn.Pos(), name, "no path of %s can be analysed", name)
	return op
}

func isTypeParam(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.TypeParam)
	return ok
}

func sliceOf(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// within: every index is in its bounds, and nothing else goes wrong.
func (op *listOp) within() {
	c := op.c
	for _, q := range op.paths {
		if !c.obPath(q.End == "", "ends", q, op.fn.Pos(), op.fn.Name(), "%s ends by %s", op.fn.Name(), q.End) {
			continue
		}
		op.o.each(q, nil, func(e *Event, s *sys) {
			switch e.Kind {
			case "loop":
				ok := e.Loop != nil && op.o.ends(e.Loop, s.cs)
				c.obPath(ok, "terminates", q, e.Pos, op.fn.Name(), "a loop of %s may never end", op.fn.Name())
			case "bound":
				ok := false
				what := ""
				if e.Sub == "slice" {
					lo, hi, n := op.o.of(e.Args[0]), op.o.of(e.Args[1]), op.o.of(e.Args[2])
					ok = s.entails(lo.times(-1)) && s.entails(lo.plus(hi, -1)) && s.entails(hi.plus(n, -1))
					what = "slicing from " + e.Args[0].Key() + " to " + e.Args[1].Key()
				} else {
					i, n := op.o.of(e.Args[0]), op.o.of(e.Args[1])
					ok = s.entails(i.times(-1)) && s.entails(i.plus(n, -1).add(1))
					what = "index " + e.Args[0].Key()
				}
				c.obPath(ok || s.impossible(splitDepth), "bounds", q, e.Pos, op.fn.Name(), "%s may be out of range: %s", op.fn.Name(), clip(what))
			case "idiv", "panic", "nilderef", "nilmap", "anomaly", "exit", "recursion":
				c.obPath(s.impossible(splitDepth), "bounds", q, e.Pos, e.Kind, "%s may fail: %s", op.fn.Name(), e.Kind)
			}
		})
	}
}

// stays: the list isn't changed.
func (op *listOp) stays(q *Path) bool {
	before, _ := op.in.seqOf(op.st, op.list)
	after, _ := op.in.seqOf(q.St, op.list)
	return before.Key() == after.Key()
}

// found: the path has found the value at the position.
func (op *listOp) found(q *Path, s *sys, at ineq) bool {
	for _, f := range q.St.factList() {
		i := op.equalAt(f)
		if i == nil {
			continue
		}
		if s.entailsEq(op.o.of(i).plus(at, -1)) {
			return true
		}
	}
	return false
}

// equalAt: the fact says that the element at a position equals the value.
func (op *listOp) equalAt(f Fact) Val {
	probe := &order{list: op.o.list, v: op.o.v, mode: "probe", size: op.n, atoms: map[string]Val{}}
	s := &sys{}
	probe.fact(s, f)
	return probe.at
}

// part is a part of the contents of a list: elements [lo,hi) of the initial list,
// or a value.
type part struct {
	lo, hi ineq
	v      Val
}

// parts of a sequence of elements.
func (op *listOp) parts(q *Seq, s *sys) ([]part, bool) {
	var out []part
	for _, g := range q.Segs {
		n := op.o.of(g.Len)
		if s.entails(n) {
			continue // empty
		}
		switch {
		case g.Kind == "sub" && g.V.Key() == op.elems.Key():
			lo := op.o.of(g.Off)
			out = append(out, part{lo: lo, hi: lo.plus(n, 1)})
		case g.Kind == "val":
			if a, ok := isApp(g.V, "elem"); ok && a.Args[0].Key() == op.elems.Key() {
				lo := op.o.of(a.Args[1])
				out = append(out, part{lo: lo, hi: lo.add(1)})
			} else {
				out = append(out, part{v: g.V})
			}
		default:
			return nil, false
		}
	}
	return out, true
}

// tiles: the parts are the elements from one position to another; in order, or
// not. In the latter case, a part may extend backwards, which means that the
// elements are taken away.
func tiles(ps []part, from, to ineq, ordered bool, s *sys) bool {
	cur := from
	used := make([]bool, len(ps))
	for _, p := range ps {
		if ordered && p.v == nil && !s.entails(p.lo.plus(p.hi, -1)) {
			return false
		}
	}
	for range ps {
		ok := false
		for i, p := range ps {
			if used[i] {
				continue
			}
			if s.entailsEq(p.lo.plus(p.hi, -1)) {
				used[i], ok = true, true
				break
			}
			if p.v == nil && s.entailsEq(p.lo.plus(cur, -1)) {
				used[i], ok = true, true
				cur = p.hi
				break
			}
			if ordered {
				break
			}
		}
		if !ok {
			return false
		}
	}
	return s.entailsEq(cur.plus(to, -1))
}

var searches = []string{"IndexOf", "BinaryIndexOf", "BinaryIndexOfClosest"}

func listRules(c *Ctx) {
	n := 0
	for _, name := range searches {
		op := c.listOp(name, "", nil)
		if op == nil {
			continue
		}
		op.within()
		for _, q := range op.paths {
			if q.End != "" || len(q.Rets) != 1 {
				continue
			}
			n++
			r := op.o.of(q.Rets[0])
			s := op.o.end(q, nil)
			if s.impossible(splitDepth) {
				continue
			}
			c.obPath(op.stays(q), "changes nothing", q, op.fn.Pos(), name, "%s changes the list", name)
			if s.entailsEq(r.add(1)) {
				c.obPath(name != "BinaryIndexOfClosest" || s.entailsEq(op.o.of(op.n)), "closest", q, op.fn.Pos(), name, "%s finds nothing in a list that isn't empty", name)
				continue
			}
			in := s.entails(r.times(-1)) && s.entails(r.plus(op.o.of(op.n), -1).add(1))
			c.obPath(in, "position", q, op.fn.Pos(), name, "%s returns %s, which may be neither -1 nor a position in the list", name, clip(q.Rets[0].Key()))
			if name != "BinaryIndexOfClosest" {
				c.obPath(op.found(q, s, r), "position", q, op.fn.Pos(), name+" value", "%s returns %s, which hasn't been found to hold the value", name, clip(q.Rets[0].Key()))
			}
		}
	}
	type removal struct {
		name string
		last bool // at the last position
	}
	for _, rm := range []removal{{"Remove", false}, {"Remove", true}, {"RemoveSavingOrder", false}, {"RemoveSavingOrder", true}} {
		name := rm.name
		op := c.listOp(name, "", func(op *listOp) []Fact {
			if op.index == nil {
				return nil
			}
			d := addc(sub(op.index, op.n), 1) // index + 1 - length
			if rm.last {
				return []Fact{{le0(mulc(op.index, -1)), true}, {eqInt(d, Int(0)), true}}
			}
			return []Fact{{le0(mulc(op.index, -1)), true}, {le0(addc(d, 1)), true}}
		})
		if op == nil {
			continue
		}
		if op.index == nil {
			c.missing("the position that " + name + " is given")
			continue
		}
		op.within()
		for _, q := range op.paths {
			if q.End != "" || len(q.Rets) != 1 {
				continue
			}
			n++
			s := op.o.end(q, nil)
			got, ln := op.in.seqOf(q.St, q.Rets[0])
			size := op.o.of(op.n)
			c.obPath(s.entailsEq(op.o.of(ln).plus(size, -1).add(1)), "removed", q, op.fn.Pos(), name+" length", "%s returns a list of %s elements", name, clip(ln.Key()))
			ps, ok := op.parts(got, s)
			i := op.o.of(op.index)
			if ok {
				ps2 := append([]part{{lo: i, hi: i.add(1)}}, ps...)
				if name == "Remove" {
					ok = tiles(ps2, ineq{t: map[string]int64{}}, size, false, s)
				} else {
					ok = op.without(ps, i, size, s)
				}
			}
			c.obPath(ok, "removed", q, op.fn.Pos(), name+" contents", "the list that %s returns isn't known to have all the elements but the one at the position: %s", name, clip(got.Key()))
		}
	}
	if op := c.listOp("Insert", "", func(op *listOp) []Fact {
		if op.index == nil {
			return nil
		}
		return []Fact{{le0(mulc(op.index, -1)), true}, {le0(sub(op.index, op.n)), true}}
	}); op != nil {
		if op.index == nil {
			c.missing("the position that Insert is given")
		} else {
			op.within()
			for _, q := range op.paths {
				if q.End != "" || len(q.Rets) != 1 {
					continue
				}
				n++
				s := op.o.end(q, nil)
				at, ok := op.inserted(q, s)
				c.obPath(ok && s.entailsEq(at.plus(op.o.of(op.index), -1)), "inserted", q, op.fn.Pos(), "Insert", "the list that Insert returns isn't known to have all the elements and the value at the position: %s", clip(op.show(q)))
			}
		}
	}
	for _, name := range []string{"InsertSavingOrder", "PutSavingOrder"} {
		op := c.listOp(name, "", nil)
		if op == nil {
			continue
		}
		op.within()
		for _, q := range op.paths {
			if q.End != "" || len(q.Rets) != 1 {
				continue
			}
			n++
			s := op.o.end(q, nil)
			if s.impossible(splitDepth) {
				continue
			}
			_, ok := op.inserted(q, s)
			if !ok && name == "PutSavingOrder" {
				ok = op.unchanged(q)
			}
			c.obPath(ok, "inserted", q, op.fn.Pos(), name, "the list that %s returns isn't known to have all the elements and the value: %s", name, clip(op.show(q)))
		}
	}
	c.count("lists", n, 15)
	c.ioHelper("WriteZeros", "write")
	c.ioHelper("SkipReading", "read")
}

func (op *listOp) show(q *Path) string {
	got, _ := op.in.seqOf(q.St, q.Rets[0])
	return got.Key()
}

func (op *listOp) unchanged(q *Path) bool {
	before, _ := op.in.seqOf(op.st, op.list)
	after, _ := op.in.seqOf(q.St, q.Rets[0])
	return before.Key() == after.Key()
}

// without: the parts are the elements up to a position and behind it.
func (op *listOp) without(ps []part, i, n ineq, s *sys) bool {
	zero := ineq{t: map[string]int64{}}
	for k := 0; k <= len(ps); k++ {
		if tiles(ps[:k], zero, i, true, s) && tiles(ps[k:], i.add(1), n, true, s) {
			return true
		}
	}
	return false
}

// inserted returns the position at which the value has been inserted.
func (op *listOp) inserted(q *Path, s *sys) (ineq, bool) {
	got, ln := op.in.seqOf(q.St, q.Rets[0])
	n := op.o.of(op.n)
	if !s.entailsEq(op.o.of(ln).plus(n, -1).add(-1)) {
		return ineq{}, false
	}
	ps, ok := op.parts(got, s)
	if !ok {
		return ineq{}, false
	}
	at := ineq{t: map[string]int64{}}
	for k, p := range ps {
		if p.v != nil && p.v.Key() == op.value.Key() {
			return at, tiles(ps[:k], ineq{t: map[string]int64{}}, at, true, s) && tiles(ps[k+1:], at, n, true, s)
		}
		if p.v == nil {
			at = p.hi
		}
	}
	return at, false
}

// ---- I/O

func (c *Ctx) ioHelper(name, kind string) {
	fn := c.fn("helpers." + name)
	if fn == nil {
		return
	}
	o := newOrder()
	in := NewInterp(c.w, Config{Order: o})
	args := in.args(fn, "")
	var size, stream Val
	for i, p := range fn.Params {
		if isInteger(p.Type()) && size == nil {
			size = args[i]
		} else if ioParam(p.Type()) && stream == nil {
			stream = args[i]
		}
	}
	if size == nil || stream == nil {
		c.missing("the size and the stream that " + name + " is given")
		return
	}
	st := in.NewState()
	st.addFact(le0(mulc(size, -1)), true)
	ps := c.run(in, fn, args, nil, st)
	start := in.posOf(st, stream)
	n, transfers := 0, 0
	for _, q := range ps {
		if !c.obPath(q.End == "", "ends", q, fn.Pos(), name, "%s ends by %s", name, q.End) {
			continue
		}
		s := o.end(q, nil)
		if s.impossible(splitDepth) {
			continue
		}
		n++
		done := o.of(sub(in.posOf(q.St, stream), start))
		want := o.of(size)
		failed := q.ioFailed()
		if fails(q) {
			c.obPath(failed, "fails", q, fn.Pos(), name, "%s fails although the stream doesn't", name)
			c.obPath(s.entails(done.plus(want, -1)), "amount", q, fn.Pos(), name+" failure", "%s may transfer more than the size before it fails", name)
		} else {
			c.obPath(!failed, "fails", q, fn.Pos(), name+" ignored", "%s succeeds although the stream fails", name)
			c.obPath(s.entailsEq(done.plus(want, -1)), "amount", q, fn.Pos(), name, "%s may succeed without having transferred exactly the size", name)
			for _, r := range q.Rets {
				if integral(r) || isConstInt(r) {
					c.obPath(s.entailsEq(o.of(r).plus(want, -1)), "count", q, fn.Pos(), name, "%s returns %s", name, clip(r.Key()))
				}
			}
		}
		o.each(q, nil, func(e *Event, s *sys) {
			switch e.Kind {
			case "write", "read":
				transfers++
				ok := e.Kind == kind && e.Obj != nil && same(e.Obj, stream)
				c.obPath(ok, "stream", q, e.Pos, name, "%s doesn't %s, or not the stream that it's given", name, kind)
				if e.Kind == "write" && e.Seq != nil {
					for _, g := range e.Seq.Segs {
						ok := g.Kind == "zero"
						if g.Kind == "val" {
							k, isC := constInt(g.V)
							ok = isC && k == 0
						}
						c.obPath(ok, "zeros", q, e.Pos, name, "%s writes something else than zeros: %s", name, clip(e.Seq.Key()))
					}
					c.obPath(s.entails(o.of(e.Seq.length()).times(-1).add(1)) || s.impossible(splitDepth), "progress", q, e.Pos, name, "%s may write nothing, again and again", name)
				}
				if e.Kind == "read" && e.Sub == "some" && len(e.Out) == 1 {
					c.obPath(s.entails(o.of(e.Out[0]).times(-1).add(1)) || s.impossible(splitDepth), "progress", q, e.Pos, name, "%s may request nothing, again and again", name)
				}
			case "alloc":
				ok := len(e.Args) > 0 && s.entails(o.of(e.Args[0]).add(-1<<20))
				c.obPath(ok, "memory", q, e.Pos, name, "%s allocates memory in proportion to the size", name)
			case "bound":
				ok := false
				if e.Sub == "slice" {
					lo, hi, n := o.of(e.Args[0]), o.of(e.Args[1]), o.of(e.Args[2])
					ok = s.entails(lo.times(-1)) && s.entails(lo.plus(hi, -1)) && s.entails(hi.plus(n, -1))
				} else {
					i, n := o.of(e.Args[0]), o.of(e.Args[1])
					ok = s.entails(i.times(-1)) && s.entails(i.plus(n, -1).add(1))
				}
				c.obPath(ok || s.impossible(splitDepth), "bounds", q, e.Pos, name, "%s may index out of range", name)
			case "idiv", "panic", "nilderef", "anomaly", "seek", "truncate", "store":
				c.obPath(s.impossible(splitDepth), "effects", q, e.Pos, name+" "+e.Kind, "%s has the effect %s", name, e.Kind)
			}
		})
	}
	c.count(name, n, 2)
	c.count(name+" transfers", transfers, 1)
}

// ---- C39

func orderRules(c *Ctx) {
	n := 0
	for _, name := range []string{"IndexOf", "BinaryIndexOf"} {
		mode := "sorted"
		if name == "IndexOf" {
			mode = "place"
		}
		op := c.listOp(name, mode, nil)
		if op == nil {
			continue
		}
		has := []ineq{}
		if mode == "sorted" {
			has = append(has, op.o.ghost(gLess).plus(op.o.ghost(gUpto), -1).add(1))
		}
		op.o.inv = map[*LoopSum][]ineq{}
		for _, q := range op.paths {
			if q.End != "" || len(q.Rets) != 1 {
				continue
			}
			n++
			s := op.o.end(q, has)
			r := op.o.of(q.Rets[0])
			none := s.clone()
			none.le(r.add(1))
			op.o.about(none)
			c.obPath(none.impossible(splitDepth), "finds", q, op.fn.Pos(), name, "%s may return %s although the list has the value", name, clip(q.Rets[0].Key()))
			// a result that isn't -1 is a position of the value
			s = op.o.end(q, nil)
			if s.entailsEq(r.add(1)) || s.impossible(splitDepth) {
				continue
			}
			ok := false
			if mode == "sorted" {
				ok = s.entails(op.o.ghost(gLess).plus(r, -1)) && s.entails(r.plus(op.o.ghost(gUpto), -1).add(1))
			} else {
				ok = op.found(q, s, r)
			}
			c.obPath(ok, "position", q, op.fn.Pos(), name, "%s may return %s, which isn't a position of the value", name, clip(q.Rets[0].Key()))
		}
		op.within()
	}
	for _, name := range []string{"InsertSavingOrder", "PutSavingOrder"} {
		op := c.listOp(name, "sorted", nil)
		if op == nil {
			continue
		}
		less, upto := op.o.ghost(gLess), op.o.ghost(gUpto)
		op.within()
		for _, q := range op.paths {
			if q.End != "" || len(q.Rets) != 1 {
				continue
			}
			s := op.o.end(q, nil)
			if s.impossible(splitDepth) {
				continue
			}
			n++
			if name == "PutSavingOrder" && op.unchanged(q) {
				c.obPath(s.entails(less.plus(upto, -1).add(1)), "present", q, op.fn.Pos(), name, "%s may leave the value out of a list that doesn't have it", name)
				continue
			}
			at, ok := op.inserted(q, s)
			if !c.obPath(ok, "inserted", q, op.fn.Pos(), name, "the list that %s returns isn't known to have all the elements and the value: %s", name, clip(op.show(q))) {
				continue
			}
			c.obPath(s.entails(less.plus(at, -1)) && s.entails(at.plus(upto, -1)), "ordered", q, op.fn.Pos(), name, "%s may insert the value at a position where the list doesn't stay ordered", name)
			if name == "PutSavingOrder" {
				once := s.entails(upto.plus(less, -1))
				if !once { // find the invariants of the case that the list has it
					inv := op.o.inv
					op.o.inv = map[*LoopSum][]ineq{}
					once = op.o.end(q, []ineq{less.plus(upto, -1).add(1)}).impossible(splitDepth)
					op.o.inv = inv
				}
				c.obPath(once, "once", q, op.fn.Pos(), name, "%s may insert a value that the list has already", name)
			}
		}
	}
	c.count("orders", n, 8)
}
