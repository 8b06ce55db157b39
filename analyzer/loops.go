package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

// loopsOf finds the natural loops of a function.
func (in *Interp) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loop {
	if l, ok := in.loops[fn]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]*loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge
				lp := res[s]
				if lp == nil {
					lp = &loop{s, map[*ssa.BasicBlock]bool{s: true}}
					res[s] = lp
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if lp.body[x] {
						continue
					}
					lp.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	in.loops[fn] = res
	return res
}

const maxUnroll = 300

// Loops that are also left in other ways than by the condition at their header
// may have no bound at all although that condition is decided every time.
const maxUnrollExits = 20

func (lp *loop) otherExits() bool {
	for b := range lp.body {
		if b == lp.header {
			continue
		}
		for _, s := range b.Succs {
			if !lp.body[s] {
				return true
			}
		}
	}
	return false
}

// runLoop analyses a loop: loops whose header condition is decided by constants
// are unrolled, the others are brought to a fixpoint by widening.
func (f *frame) runLoop(lp *loop, fs *fstate, from *ssa.BasicBlock, cur *loop, sk *sink) {
	type ent struct {
		fs   *fstate
		from *ssa.BasicBlock
	}
	limit := maxUnroll
	if lp.otherExits() {
		limit = maxUnrollExits
	}
	if f.untilZero(lp, fs, from, cur, sk) {
		return
	}
	start, startFrom := fs.clone(), from
	live := []ent{{fs, from}}
	var exits []edge
	kept := &sink{}
	for n := 0; len(live) > 0; n++ {
		var next []ent
		for _, e := range live {
			if n < limit && len(live) <= 32 && f.headerDecided(lp, e.fs, e.from) {
				sub := &sink{}
				f.evalPhis(e.fs, e.from, lp.header)
				f.run(e.fs, lp.header, f.firstNonPhi(lp.header), lp, sub)
				kept.rets = append(kept.rets, sub.rets...)
				exits = append(exits, sub.exits...)
				for _, b := range sub.back {
					next = append(next, ent{b.fs, b.from})
				}
				continue
			}
			if n > 0 {
				// not bounded, or by too large a number
				kept = &sink{}
				exits = f.widen(lp, start, startFrom, kept)
				next = nil
				break
			}
			exits = append(exits, f.widen(lp, e.fs, e.from, kept)...)
		}
		live = next
	}
	sk.rets = append(sk.rets, kept.rets...)
	for _, e := range exits {
		f.transition(e.fs, e.from, e.to, cur, sk)
	}
}

// untilZero runs loops that go on while x != 0, where x is divided in every
// iteration, and that do nothing if x is zero. As far as the result is concerned,
// they run until x is known to be zero.
func (f *frame) untilZero(lp *loop, fs *fstate, from *ssa.BasicBlock, cur *loop, sk *sink) bool {
	h := lp.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || lp.body[h.Succs[0]] == lp.body[h.Succs[1]] {
		return false
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	var x *ssa.Phi
	isZero := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value != nil && c.Value.Kind() == constant.Int && constant.Sign(c.Value) == 0
	}
	stay := lp.body[h.Succs[0]]
	switch {
	case isZero(cond.Y) && stay && (cond.Op == token.NEQ || cond.Op == token.GTR), isZero(cond.Y) && !stay && (cond.Op == token.EQL || cond.Op == token.LEQ):
		x, _ = cond.X.(*ssa.Phi)
	case isZero(cond.X) && stay && (cond.Op == token.NEQ || cond.Op == token.LSS), isZero(cond.X) && !stay && (cond.Op == token.EQL || cond.Op == token.GEQ):
		x, _ = cond.Y.(*ssa.Phi)
	}
	if x == nil || x.Block() != h {
		return false
	}
	if b, ok := x.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsUnsigned == 0 {
		return false
	}
	for b := range lp.body {
		for _, ins := range b.Instrs {
			switch y := ins.(type) {
			case *ssa.Phi, *ssa.Convert, *ssa.ChangeType, *ssa.DebugRef, *ssa.Jump:
			case *ssa.If:
				if b != h {
					return false
				}
			case *ssa.BinOp:
				if y.Op == token.QUO || y.Op == token.REM || y.Op == token.SHL || y.Op == token.SHR {
					if c, ok := y.Y.(*ssa.Const); !ok || c.Value == nil || y.Op != token.SHR && y.Op != token.SHL && isZero(c) {
						return false
					}
				}
			default:
				return false
			}
		}
	}
	first := h.Succs[0]
	if !stay {
		first = h.Succs[1]
	}
	// one iteration, without asking the condition
	step := func(g *fstate) (*fstate, *ssa.BasicBlock) {
		for _, ins := range h.Instrs[f.firstNonPhi(h) : len(h.Instrs)-1] {
			f.instr(g, ins)
		}
		if first == h {
			return g, h
		}
		sub := &sink{}
		f.evalPhis(g, h, first)
		f.run(g, first, f.firstNonPhi(first), lp, sub)
		if len(sub.back) != 1 || len(sub.exits)+len(sub.rets) > 0 {
			return nil, nil
		}
		return sub.back[0].fs, sub.back[0].from
	}
	// nothing is done if x is zero
	g := fs.clone()
	was := map[*ssa.Phi]Val{}
	for _, ins := range h.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		was[phi] = f.in.fresh(phiName(phi), phi.Type())
		if phi == x {
			was[phi] = Int(0)
		}
		g.env[phi] = was[phi]
	}
	g, b := step(g)
	if g == nil {
		return false
	}
	f.evalPhis(g, b, h)
	for phi, v := range was {
		if f.val(g, phi).Key() != v.Key() {
			return false
		}
	}
	g, b = fs.clone(), from
	for n := 0; ; n++ {
		f.evalPhis(g, b, h)
		if isZeroInt(f.val(g, x)) {
			break
		}
		if g, b = step(g); g == nil || n > 64 {
			return false
		}
	}
	last := &sink{}
	f.run(g, h, f.firstNonPhi(h), lp, last)
	sk.rets = append(sk.rets, last.rets...)
	for _, e := range last.exits {
		f.transition(e.fs, e.from, e.to, cur, sk)
	}
	return true
}

// headerDecided: the loop condition at the header is a constant in this state.
func (f *frame) headerDecided(lp *loop, fs *fstate, from *ssa.BasicBlock) bool {
	b := lp.header
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if lp.body[b.Succs[0]] && lp.body[b.Succs[1]] {
		return false
	}
	for _, ins := range b.Instrs[:len(b.Instrs)-1] {
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.DebugRef, *ssa.FieldAddr, *ssa.ChangeType:
		case *ssa.Call:
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				return false
			}
		default:
			return false
		}
	}
	g := fs.clone()
	f.evalPhis(g, from, b)
	for _, ins := range b.Instrs[f.firstNonPhi(b) : len(b.Instrs)-1] {
		if c, ok := ins.(*ssa.Call); ok {
			_, _, args := f.callOperands(g, c.Common())
			outs := f.builtin(g, c.Common(), c.Call.Value.(*ssa.Builtin).Name(), args, c.Pos())
			if len(outs) != 1 {
				return false
			}
			g.env[c] = tupleOrSingle(outs[0].rets)
			continue
		}
		f.instr(g, ins)
	}
	_, isConst := constBool(f.val(g, iff.Cond))
	return isConst
}

// lastIterations turns iterations after which the loop is certainly left into
// ways to leave the loop.
func (f *frame) lastIterations(lp *loop, sub *sink) {
	var back []edge
	work := sub.back
	for n := 0; len(work) > 0; n++ {
		bk := work[0]
		work = work[1:]
		if n < 64 {
			if x := f.undecidedNil(lp, bk, lp.header); x != nil {
				// whether the loop goes on depends on it
				other := bk.fs.clone()
				other.st.addFact(app("isnil", x), false)
				bk.fs = bk.fs.clone()
				bk.fs.st.addFact(app("isnil", x), true)
				f.nilEdges(lp, bk, x)
				work = append(work, bk, edge{other, bk.from, bk.to})
				continue
			}
		}
		g := bk.fs.clone()
		f.evalPhis(g, bk.from, lp.header)
		if !f.leaves(lp, g, lp.header, 0) {
			back = append(back, bk)
			continue
		}
		last := &sink{}
		f.run(g, lp.header, f.firstNonPhi(lp.header), lp, last)
		if len(last.back) > 0 {
			back = append(back, bk)
			continue
		}
		sub.exits = append(sub.exits, last.exits...)
		sub.rets = append(sub.rets, last.rets...)
	}
	sub.back = back
}

// undecidedNil is a value that the iteration leaves behind, if the condition of
// the loop compares it with nil and that isn't decided yet.
func (f *frame) undecidedNil(lp *loop, bk edge, b *ssa.BasicBlock) Val {
	for depth := 0; depth < 4; depth++ {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return nil
		}
		in, out := lp.body[b.Succs[0]], lp.body[b.Succs[1]]
		if in == out {
			return nil
		}
		if op, ok := iff.Cond.(*ssa.BinOp); ok && (op.Op == token.EQL || op.Op == token.NEQ) {
			x, y := op.X, op.Y
			if c, ok := x.(*ssa.Const); ok && c.Value == nil {
				x, y = y, x
			}
			c, isConst := y.(*ssa.Const)
			phi, isPhi := x.(*ssa.Phi)
			if isConst && c.Value == nil && isPhi && phi.Block() == lp.header && (op.Op == token.EQL) == in {
				for i, p := range lp.header.Preds {
					if p != bk.from {
						continue
					}
					if v := f.val(bk.fs, phi.Edges[i]); bk.fs.st.isNil(v) == 0 {
						return v
					}
				}
			}
		}
		if b = b.Succs[0]; out {
			b = iff.Block().Succs[1]
		}
		if len(b.Preds) != 1 {
			return nil
		}
	}
	return nil
}

// nilEdges: what the iteration leaves behind is nil.
func (f *frame) nilEdges(lp *loop, bk edge, x Val) {
	for i, p := range lp.header.Preds {
		if p != bk.from {
			continue
		}
		for _, ins := range lp.header.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if _, isConst := phi.Edges[i].(*ssa.Const); !isConst && f.val(bk.fs, phi.Edges[i]).Key() == x.Key() {
				bk.fs.env[phi.Edges[i]] = Nil
			}
		}
	}
}

// leaves: from the beginning of the block the loop is left without any effect.
func (f *frame) leaves(lp *loop, fs *fstate, b *ssa.BasicBlock, depth int) bool {
	if depth > 8 {
		return false
	}
	last := b.Instrs[len(b.Instrs)-1]
	iff, ok := last.(*ssa.If)
	if !ok {
		return false
	}
	g := fs.clone()
	n := g.st.trLen()
	for _, ins := range b.Instrs[f.firstNonPhi(b) : len(b.Instrs)-1] {
		switch x := ins.(type) {
		case *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.DebugRef, *ssa.FieldAddr, *ssa.ChangeType, *ssa.IndexAddr, *ssa.Extract:
			if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.ARROW {
				return false
			}
			f.instr(g, ins)
		case *ssa.Call:
			bi, ok := x.Call.Value.(*ssa.Builtin)
			if !ok {
				return false
			}
			_, _, args := f.callOperands(g, x.Common())
			outs := f.builtin(g, x.Common(), bi.Name(), args, x.Pos())
			if len(outs) != 1 {
				return false
			}
			g.env[x] = tupleOrSingle(outs[0].rets)
		default:
			return false
		}
	}
	for _, e := range eventsSince(g.st.tr, n) {
		if e.Kind != "load" {
			return false
		}
	}
	d := g.st.decide(f.val(g, iff.Cond))
	for i, s := range b.Succs {
		if d == 1 && i == 1 || d == -1 && i == 0 || !lp.body[s] {
			continue
		}
		if s == lp.header || len(s.Preds) != 1 || !f.leaves(lp, g, s, depth+1) {
			return false
		}
	}
	return true
}

type hmode int

const (
	hSym hmode = iota
	hLin
	hSymForced
	hRel    // a linear function of another quantity
	hList   // a list to which every iteration appends the same number of elements
	hWindow // a list that every iteration shortens by the same number of elements
	hNoList
)

type hkey struct {
	mode  hmode
	step  Val
	base  string
	m     int64
	per   int64 // hRel: what each iteration adds besides
	tried int
	bases []string
	cap   bool     // of a list: the capacity changes
	zeros bool     // of a list: what's appended are zeros
	win   [3]int64 // of a window: the changes of the offset, the length and the capacity
	fix   Val      // bookkeeping of buffered writers: the value after an iteration
}

// widen computes the loop's effect for any number of iterations.
func (f *frame) widen(lp *loop, fs0 *fstate, from *ssa.BasicBlock, sk *sink) []edge {
	return f.widenKeeping(lp, fs0, from, sk, nil)
}

// assigned: the loop does nothing but set some variables in some iterations, to
// values that don't depend on what they were, and leave them alone in the others.
// changing are the iterations that set them.
func (f *frame) assigned(sum *LoopSum, phis []*ssa.Phi, phiH map[*ssa.Phi]*hkey, start map[*ssa.Phi]Val, back []edge) (set []*ssa.Phi, changing []edge) {
	for _, it := range sum.Iters {
		for _, e := range it.Events {
			switch e.Kind {
			case "load", "lock", "rlock", "unlock", "runlock":
			default:
				return nil, nil
			}
		}
	}
	own := map[string]bool{}
	for _, p := range phis {
		h := phiH[p]
		if h == nil || h.mode == hLin || h.mode == hRel || h.mode == hList {
			continue
		}
		if h.fix != nil {
			return nil, nil
		}
		kept := false
		for _, bk := range back {
			kept = kept || bk.fs.env[p].Key() == start[p].Key()
		}
		if !kept {
			return nil, nil
		}
		set = append(set, p)
		own[start[p].Key()] = true
	}
	for _, bk := range back {
		changes := false
		for _, p := range set {
			v := bk.fs.env[p]
			if v.Key() == start[p].Key() {
				continue
			}
			changes = true
			old := false
			visit(v, func(w Val) { old = old || own[w.Key()] })
			if old {
				return nil, nil
			}
		}
		if changes {
			changing = append(changing, bk)
		}
	}
	if len(changing) == 0 || len(changing) == len(back) {
		return nil, nil
	}
	return set, changing
}

// widenKeeping considers only the iterations that keep the given variables, if
// there are any.
func (f *frame) widenKeeping(lp *loop, fs0 *fstate, from *ssa.BasicBlock, sk *sink, keeping []*ssa.Phi) []edge {
	in := f.in
	watermark := in.nextID
	havoc := map[string]*hkey{}  // heap locations
	phiH := map[*ssa.Phi]*hkey{} // header phis
	dropped := map[string]bool{}
	arrH := map[string]bool{} // arrays whose elements are stored to
	base := fs0.clone()
	if from != nil { // nil: they have been evaluated
		f.evalPhis(base, from, lp.header)
	}
	var phis []*ssa.Phi
	for _, ins := range lp.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	in.nextID++
	id := in.nextID
	bounds := map[string]Val{} // numbers that the iterations don't exceed; nil: refuted
	for pass := 0; ; pass++ {
		if pass > 40 {
			panic(abort{"loop analysis doesn't converge in " + f.fn.String()})
		}
		count := in.fresh("iter", nil)
		count.T = tUint
		sum := &LoopSum{ID: id, Fn: f.fn, Header: lp.header, Pos: headerPos(lp.header), Count: count, Base: base.st.facts, Havoc: map[string]*HavocInfo{}}
		g := base.clone()
		trN, fN := g.st.trLen()+1, g.st.factLen()
		g.st.emit(&Event{Kind: "loop", Fn: f.fn, Pos: sum.Pos, Loop: sum})
		mk := func(k string, h *hkey, init Val, name string, phi *ssa.Phi) Val {
			if h.mode == hLin {
				n, _ := constInt(h.step)
				v := add(init, mulc(count, n))
				sum.Havoc[k] = &HavocInfo{Init: init, At: v, Step: h.step}
				return v
			}
			if h.fix != nil {
				return h.fix
			}
			if h.mode == hRel {
				b := sum.Havoc[h.base]
				v := add(add(init, mulc(sub(b.At, b.Init), h.m)), mulc(count, h.per))
				sum.Havoc[k] = &HavocInfo{Init: init, At: v}
				return v
			}
			t := in.locType[k]
			if phi != nil {
				t = phi.Type()
			}
			if h.mode == hWindow {
				w := in.toSlice(init)
				v := in.normSlice(mkSlice(w.Base, add(w.Off, mulc(count, h.win[0])), add(w.Len, mulc(count, h.win[1])), add(w.Cap, mulc(count, h.win[2]))))
				g.st.addFact(le0(mulc(in.toSlice(v).Len, -1)), true)
				sum.Havoc[k] = &HavocInfo{Init: init, At: v}
				return v
			}
			if h.mode == hList {
				n, _ := constInt(h.step)
				v := in.listAfter(g.st, init, mulc(count, n), t, name, h.cap, h.zeros)
				sum.Havoc[k] = &HavocInfo{Init: init, At: v}
				return v
			}
			var v Val = in.fresh("loop:"+name, t)
			if _, ok := init.(*MapState); ok {
				v = mkMap(v, nil)
			}
			if strings.HasSuffix(k, "#mem") {
				v = unknownSeq(in)
			} else if q, ok := init.(*Seq); ok {
				v = mkSeq(Seg{Kind: "sub", Len: q.length(), V: v, Off: Int(0)})
			}
			sum.Havoc[k] = &HavocInfo{Init: init, At: v}
			return v
		}
		keys := make([]string, 0, len(havoc))
		for k := range havoc {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		isRel := func(h *hkey) bool { return h != nil && h.mode == hRel }
		setHeap := func(rel bool) {
			for _, k := range keys {
				if isRel(havoc[k]) != rel {
					continue
				}
				init, ok := base.st.heap[k]
				if !ok {
					init = in.initialLoc(base.st, k)
				}
				g.st.heap[k] = mk(k, havoc[k], init, shortLoc(k), nil)
			}
		}
		setHeap(false)
		for k := range arrH {
			q, _ := base.st.heap[k+"#seq"].(*Seq)
			g.st.dropUnder(k)
			var n Val = in.fresh("len", nil)
			if q != nil {
				n = q.length()
			}
			g.st.heap[k+"#seq"] = mkSeq(Seg{Kind: "sub", Len: n, V: in.fresh("loop:arr", nil), Off: Int(0)})
		}
		for i := 0; i < 2; i++ {
			for _, p := range phis {
				if h := phiH[p]; h != nil && isRel(h) == (i == 1) {
					g.env[p] = mk(p.Name(), h, base.env[p], phiName(p), p)
				}
			}
		}
		setHeap(true)
		for _, k := range sortedKeys(bounds) {
			if bounds[k] != nil {
				g.st.addFact(le0(sub2(count, bounds[k])), true)
			}
		}
		start := g.st.clone()
		startPhi := map[*ssa.Phi]Val{}
		for _, p := range phis {
			startPhi[p] = g.env[p]
		}
		sub := &sink{}
		f.run(g, lp.header, f.firstNonPhi(lp.header), lp, sub)
		f.lastIterations(lp, sub)
		if len(keeping) > 0 {
			var back []edge
			for _, bk := range sub.back {
				g := edge{bk.fs.clone(), bk.from, bk.to}
				f.evalPhisInto(g)
				same := true
				for _, p := range keeping {
					same = same && g.fs.env[p].Key() == startPhi[p].Key()
				}
				if same {
					back = append(back, bk)
				}
			}
			sub.back = back
		}
		// compare
		changed := false
		nextVals := map[string][]Val{}
		// a reader that is used for the first time in the loop has already read
		// ahead in the other iterations
		primed := false
		for _, bk := range sub.back {
			for k := range bk.fs.st.heap {
				br, isTail := strings.CutPrefix(k, "#rdtail:")
				s, old := base.st.heap["#br:"+br]
				if _, had := base.st.heap[k]; !isTail || had || !old {
					continue
				}
				at := in.posOf(base.st, s)
				base.st.heap["#rdpos:"+br] = at
				readAhead(base.st, s, &Sym{0, br, nil, br}, at)
				primed = true
			}
		}
		if primed {
			continue
		}
		for _, bk := range sub.back {
			f.evalPhisInto(bk)
			for k, v := range bk.fs.st.heap {
				sv, ok := start.heap[k]
				if strings.HasPrefix(k, "#dirty") {
					// joined: dirty if it's dirty after some iteration
					h := havoc[k]
					z, isz := constInt(v)
					if ok && sv.Key() == v.Key() || !ok && isz && z == 0 || h != nil && isz && z == 0 {
						continue
					}
					switch {
					case h == nil:
						havoc[k] = &hkey{mode: hSymForced, fix: v}
						changed = true
					case h.fix.Key() != v.Key() && !strings.HasPrefix(h.fix.Key(), "several"):
						h.fix = app("several")
						changed = true
					}
					continue
				}
				if ok && sv.Key() == v.Key() {
					if havoc[k] != nil {
						nextVals[k] = append(nextVals[k], v)
					}
					continue
				}
				if !ok {
					if in.createdAfter(k, watermark) {
						continue // created by the iteration
					}
					if iv, ok2 := in.lazies[k]; ok2 && iv.Key() == v.Key() {
						continue
					}
					if i := strings.IndexByte(k, '['); i >= 0 {
						if a, ok3 := elemChanged(in, start, k, v); ok3 {
							if a != "" && !arrH[a] {
								arrH[a] = true
								changed = true
							}
							continue
						}
						continue
					}
					iv := in.initialLoc(start, k)
					if iv != nil && iv.Key() == v.Key() {
						continue
					}
				} else if in.createdAfter(k, watermark) {
					continue
				}
				if strings.Contains(k, "[") && !strings.Contains(k, "#") {
					if a := arrayOf(k); a != "" && !arrH[a] && !constElem(k) {
						arrH[a] = true
						changed = true
						continue
					}
				}
				if havoc[k] == nil {
					havoc[k] = &hkey{mode: hSym}
					changed = true
				} else {
					nextVals[k] = append(nextVals[k], v)
				}
			}
			for _, p := range phis {
				nv := bk.fs.env[p]
				if phiH[p] == nil {
					if nv.Key() != startPhi[p].Key() {
						phiH[p] = &hkey{mode: hSym}
						changed = true
					}
				} else {
					nextVals[p.Name()] = append(nextVals[p.Name()], nv)
				}
			}
		}
		if changed {
			continue
		}
		// quantities that only the iterations changed that turned out to be the last ones
		settled := func(k string, h *hkey) bool {
			info := sum.Havoc[k]
			if h == nil || info == nil || h.fix != nil || dropped[k] || len(nextVals[k]) != len(sub.back) {
				return false
			}
			for _, v := range nextVals[k] {
				if v.Key() != info.At.Key() {
					return false
				}
			}
			dropped[k] = true
			return true
		}
		for _, k := range keys {
			if settled(k, havoc[k]) {
				delete(havoc, k)
				changed = true
			}
		}
		for _, p := range phis {
			if settled(p.Name(), phiH[p]) {
				delete(phiH, p)
				changed = true
			}
		}
		if changed {
			continue
		}
		// linear induction variables
		tryLin := func(k string, h *hkey) {
			info := sum.Havoc[k]
			vs := nextVals[k]
			switch h.mode {
			case hSym:
				if len(vs) == 0 || !linearOK(info.Init) {
					return
				}
				var step Val
				for _, v := range vs {
					d, ok := diffConst(v, info.At)
					if !ok || d == 0 || (step != nil && step.Key() != Int(d).Key()) {
						h.mode = hSymForced
						return
					}
					step = Int(d)
				}
				h.mode, h.step = hLin, step
				changed = true
			case hLin:
				n, _ := constInt(h.step)
				for _, v := range vs {
					if d, ok := diffConst(v, info.At); !ok || d != n {
						h.mode = hSymForced
						changed = true
						return
					}
				}
			}
		}
		for _, k := range keys {
			tryLin(k, havoc[k])
		}
		for _, p := range phis {
			if h := phiH[p]; h != nil && isInteger(p.Type()) {
				tryLin(p.Name(), h)
			}
		}
		tryList := func(k string, h *hkey) {
			info := sum.Havoc[k]
			if h == nil || info == nil || h.fix != nil || h.mode != hSym && h.mode != hSymForced && h.mode != hList || len(nextVals[k]) != len(sub.back) || len(sub.back) == 0 {
				return
			}
			var step Val
			ok, sameCap, zeros := true, true, true
			for i, bk := range sub.back {
				d, sc, z := in.appended(bk.fs.st, info.At, nextVals[k][i])
				zeros = zeros && z
				ok = ok && d > 0 && (step == nil || step.Key() == Int(d).Key())
				sameCap = sameCap && sc
				step = Int(d)
			}
			switch {
			case h.mode != hList && ok:
				h.mode, h.step, h.zeros = hList, step, zeros
				changed = true
			case h.mode == hList && (!ok || step.Key() != h.step.Key()):
				h.mode = hNoList
				changed = true
			case h.mode == hList && !zeros && h.zeros:
				h.zeros = false
				changed = true
			case h.mode == hList && !sameCap && !h.cap:
				h.cap = true
				changed = true
			}
		}
		tryWindow := func(k string, h *hkey) {
			info := sum.Havoc[k]
			if h == nil || info == nil || h.fix != nil || h.mode != hSym && h.mode != hSymForced && h.mode != hWindow || len(nextVals[k]) != len(sub.back) || len(sub.back) == 0 || in.toSlice(info.Init) == nil {
				return
			}
			var win [3]int64
			ok := true
			at := in.toSlice(info.At)
			for i, v := range nextVals[k] {
				s := in.toSlice(v)
				if s == nil || s.Base.Key() != at.Base.Key() {
					ok = false
					break
				}
				var d [3]int64
				for j, p := range [][2]Val{{s.Off, at.Off}, {s.Len, at.Len}, {s.Cap, at.Cap}} {
					n, isConst := diffConst(p[0], p[1])
					ok = ok && isConst
					d[j] = n
				}
				ok = ok && d[0] >= 0 && d[1] < 0 && d[2] <= 0 && (i == 0 || d == win)
				win = d
			}
			switch {
			case h.mode != hWindow && ok:
				h.mode, h.win = hWindow, win
				changed = true
			case h.mode == hWindow && (!ok || win != h.win):
				h.mode = hNoList
				changed = true
			}
		}
		for _, k := range keys {
			if t := in.locType[k]; t != nil && isSlice(t) && !strings.Contains(k, "#") {
				tryWindow(k, havoc[k])
				tryList(k, havoc[k])
			}
		}
		for _, p := range phis {
			if isSlice(p.Type()) {
				tryWindow(p.Name(), phiH[p])
				tryList(p.Name(), phiH[p])
			}
		}
		if changed {
			continue
		}
		// quantities that change together: one is a linear function of the other
		all := map[string]*hkey{}
		var names []string
		for _, k := range keys {
			all[k] = havoc[k]
			names = append(names, k)
		}
		for _, p := range phis {
			if h := phiH[p]; h != nil && isInteger(p.Type()) {
				all[p.Name()] = h
				names = append(names, p.Name())
			}
		}
		if relate(sum, all, names, nextVals, len(sub.back)) {
			continue
		}
		// a loop that goes on while its counter differs from a number stops there
		for _, k := range sortedKeys(bounds) {
			if n := bounds[k]; n != nil && !boundKept(sub.back, count, n) {
				bounds[k] = nil
				changed = true
			}
		}
		if len(sub.back) > 0 && !changed {
			for _, ft := range factsSince(sub.back[0].fs.st.facts, fN) {
				n := in.stopsAt(ft, count, watermark)
				if n == nil || !nonneg(n) && base.st.decide(le0(mulc(n, -1))) != 1 {
					continue
				}
				if _, known := bounds[n.Key()]; known {
					continue
				}
				all := true
				for _, b := range sub.back[1:] {
					all = all && b.fs.st.decide(eqInt(count, n)) == -1
				}
				if all {
					bounds[n.Key()] = n
					changed = true
				}
			}
		}
		if changed {
			continue
		}
		// monotone quantities are bounded by their initial values
		for _, k := range names {
			h, info := all[k], sum.Havoc[k]
			if info == nil || h.mode == hLin || !linearOK(info.Init) || len(nextVals[k]) != len(sub.back) {
				continue
			}
			up, down := true, true
			for _, v := range nextVals[k] {
				d := sub2(v, info.At)
				up = up && nonneg(d)
				down = down && nonpos(d)
			}
			fact := le0(sub2(info.Init, info.At))
			if !up {
				fact = le0(sub2(info.At, info.Init))
			}
			if up == down {
				continue
			}
			seen := map[*State]bool{}
			for _, x := range sub.exits {
				invariant(x.fs.st, trN, fact, seen)
			}
			for _, x := range sub.back {
				invariant(x.fs.st, trN, fact, seen)
			}
			for i := range sub.rets {
				invariant(sub.rets[i].st, trN, fact, seen)
			}
		}
		// the number of completed iterations is bounded by the condition under
		// which the loop is left, if every iteration is sure to respect it
		for _, x := range sub.exits {
			for _, ft := range factsSince(x.fs.st.facts, fN) {
				if n := f.in.exitBound(base.st, ft, count, watermark); n != nil && boundKept(sub.back, count, n) {
					invariant(x.fs.st, trN, le0(sub2(count, n)), map[*State]bool{})
				}
			}
		}
		// stable
		for k, vs := range nextVals {
			if sum.Havoc[k] != nil {
				sum.Havoc[k].Next = vs
			}
		}
		for _, bk := range sub.back {
			sum.Iters = append(sum.Iters, &IterPath{
				Events: eventsSince(bk.fs.st.tr, trN),
				Facts:  factsSince(bk.fs.st.facts, fN),
				End:    bk.fs.st,
			})
		}
		sum.Done = true
		for k, h := range sum.Havoc {
			if m := emptied(sum, k, h); m != nil {
				for _, x := range sub.exits {
					for _, e := range eventsSince(x.fs.st.tr, trN) {
						if v := x.fs.st.heap[k]; e.Kind == "rangeend" && e.Obj.Key() == m.Key() && v != nil && v.Key() == h.At.Key() {
							x.fs.st.heap[k] = mkMap(Nil, nil)
						}
					}
				}
			}
		}
		if keeping == nil && len(arrH) == 0 {
			if set, changing := f.assigned(sum, phis, phiH, startPhi, sub.back); set != nil {
				// either no iteration sets the variables or one is the last to do it
				exits := f.widenKeeping(lp, fs0, from, sk, set)
				for _, bk := range changing {
					exits = append(exits, f.widenKeeping(lp, bk.fs, nil, sk, set)...)
				}
				return exits
			}
		}
		f.templates(&looped{lp, sum, sub, base, start, count, phis, phiH, havoc, arrH, nextVals, watermark, trN, fN})
		sk.rets = append(sk.rets, sub.rets...)
		return sub.exits
	}
}

// emptied is the map at the location if the loop ranges over it and each iteration
// removes the key that it's for and does nothing else to it.
func emptied(l *LoopSum, loc string, h *HavocInfo) Val {
	at, ok := h.At.(*MapState)
	if !ok || len(at.Upd) > 0 || !strings.HasSuffix(loc, "#map") || len(l.Iters) == 0 {
		return nil
	}
	var m Val
	for _, it := range l.Iters {
		var k Val
		for _, e := range it.Events {
			if e.Kind == "rangemap" {
				if p := it.End.in.deref(e.Obj); k != nil || p == nil || p.loc()+"#map" != loc {
					return nil
				}
				k, m = e.Args[0], e.Obj
			}
		}
		end, ok := it.End.heap[loc].(*MapState)
		if k == nil || !ok || end.Base.Key() != at.Base.Key() || len(end.Upd) != 1 || end.Upd[0].V != nil || end.Upd[0].K.Key() != k.Key() {
			return nil
		}
	}
	return m
}

// relate looks for quantities whose changes are proportional to those of another
// one in every iteration, and refutes the relations that turned out to be wrong.
func relate(sum *LoopSum, all map[string]*hkey, names []string, next map[string][]Val, n int) bool {
	changed := false
	deltas := func(k string) []int64 {
		info := sum.Havoc[k]
		if info == nil || len(next[k]) != n || !linearOK(info.Init) {
			return nil
		}
		var out []int64
		for _, v := range next[k] {
			d, ok := diffConst(v, info.At)
			if !ok {
				return nil
			}
			out = append(out, d)
		}
		return out
	}
	for _, k := range names {
		h := all[k]
		if h.mode != hRel {
			continue
		}
		b, me := sum.Havoc[h.base], sum.Havoc[k]
		ok := len(next[k]) == n && len(next[h.base]) == n
		for i := 0; ok && i < n; i++ {
			want := add(add(me.Init, mulc(sub2(next[h.base][i], b.Init), h.m)), mulc(addc(sum.Count, 1), h.per))
			ok = want.Key() == next[k][i].Key()
		}
		if !ok {
			h.mode = hSymForced
			h.tried++
			changed = true
		}
	}
	if changed {
		return true
	}
	for _, k := range names {
		h := all[k]
		if h.mode != hSymForced || h.fix != nil || h.tried > 3 || sum.Havoc[k] == nil || !linearOK(sum.Havoc[k].Init) {
			continue
		}
		dk := deltas(k)
		for _, b := range names {
			hb := all[b]
			if b == k || hb.fix != nil || hb.isRelated(k) {
				continue
			}
			if hb.mode == hRel && dk == nil && strings.Replace(k, "#size:", "#pos:", 1) == b && sum.Havoc[k].Init.Key() == sum.Havoc[b].Init.Key() && !h.guessed(b) {
				// a guess: equal to a quantity that is related to another one
				h.mode, h.base, h.m, h.per = hRel, hb.base, hb.m, hb.per
				h.bases = append(h.bases, b)
				return true
			}
			if hb.mode != hSymForced {
				continue
			}
			db := deltas(b)
			if db == nil {
				continue
			}
			var m, per int64
			if dk == nil {
				// a guess: equal to it
				if strings.Replace(k, "#size:", "#pos:", 1) != b || sum.Havoc[k].Init.Key() != sum.Havoc[b].Init.Key() || h.guessed(b) {
					continue
				}
				m = 1
			} else {
				ok := true
				for i := range db {
					switch {
					case db[i] == 0:
						ok = ok && dk[i] == 0
					case dk[i]%db[i] != 0 || m != 0 && dk[i]/db[i] != m:
						ok = false
					default:
						m = dk[i] / db[i]
					}
				}
				if !ok || m == 0 {
					// together they count the iterations
					if m, per = together(dk, db); m == 0 {
						continue
					}
				}
				if (m == 1 || m == -1) && k < b {
					continue
				}
			}
			// k must not be the base of another one
			used := false
			for _, x := range names {
				used = used || all[x].mode == hRel && all[x].base == k
			}
			if used {
				break
			}
			h.mode, h.base, h.m, h.per = hRel, b, m, per
			h.bases = append(h.bases, b)
			return true
		}
	}
	return false
}

// together finds m and per such that every d is m times the other one plus per.
func together(dk, db []int64) (m, per int64) {
	for _, m := range []int64{-1, 1} {
		ok := len(dk) > 1
		for i := range dk {
			ok = ok && dk[i]-m*db[i] == dk[0]-m*db[0]
		}
		if ok && dk[0] != m*db[0] {
			return m, dk[0] - m*db[0]
		}
	}
	return 0, 0
}

// invariant adds a fact about a loop's quantities to a state and to those of the
// loops nested in the iteration.
func invariant(st *State, from int, fact Val, seen map[*State]bool) {
	if seen[st] {
		return
	}
	seen[st] = true
	st.addFact(fact, true)
	for _, e := range eventsSince(st.tr, from) {
		if e.Loop == nil {
			continue
		}
		for _, it := range e.Loop.Iters {
			if it.End != nil {
				invariant(it.End, it.End.trLen()-len(it.Events), fact, seen)
			}
		}
	}
}

func (h *hkey) isRelated(k string) bool { return h.mode == hRel && h.base == k }
func (h *hkey) guessed(b string) bool {
	for _, x := range h.bases {
		if x == b {
			return true
		}
	}
	return false
}

func linearOK(v Val) bool {
	switch v.(type) {
	case *Const, *Lin, *Sym, *App:
		_, isInt := constInt(v)
		if _, ok := v.(*Const); ok && !isInt {
			return false
		}
		return true
	}
	return false
}

func (f *frame) evalPhisInto(e edge) { f.evalPhis(e.fs, e.from, e.to) }

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}
func headerPos(b *ssa.BasicBlock) (pos tokenPos) {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, i := range s.Instrs {
			if i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	return
}

func objIDOf(loc string) int {
	if !strings.HasPrefix(loc, "&o") {
		return 0
	}
	n := 0
	for i := 2; i < len(loc) && loc[i] >= '0' && loc[i] <= '9'; i++ {
		n = n*10 + int(loc[i]-'0')
	}
	return n
}

// createdAfter: the location belongs to an object that didn't exist yet when
// the watermark was taken. What symbolic pointers point to existed if they did.
func (in *Interp) createdAfter(k string, watermark int) bool {
	if what, ok := strings.CutPrefix(k, "#"); ok && !strings.Contains(k, "&o") {
		// what is known of something named by a symbol
		i, j := strings.IndexByte(what, ':'), strings.LastIndexByte(what, '~')
		return i >= 0 && j > i && number(what[j+1:]) > watermark
	}
	id := objIDOf(k)
	if id <= watermark {
		return false
	}
	o := in.objByID(id)
	if o == nil {
		return true
	}
	switch o.Kind {
	case "global":
		return false
	case "sym":
		for i := 0; i < len(o.Name); i++ {
			if o.Name[i] == '~' && number(o.Name[i+1:]) > watermark {
				return true
			}
			if strings.HasPrefix(o.Name[i:], "&o") && in.createdAfter(o.Name[i:], watermark) {
				return true
			}
		}
		return false
	}
	return true
}
func number(s string) int {
	n := 0
	for i := 0; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
		n = n*10 + int(s[i]-'0')
	}
	return n
}
func shortLoc(k string) string {
	if i := strings.IndexAny(k, ".#"); i >= 0 {
		return k[i:]
	}
	return k
}

// arrayOf returns the location of the array an element location belongs to.
func arrayOf(k string) string {
	i := lastElem(k)
	if i < 0 {
		return ""
	}
	return k[:i]
}
func constElem(k string) bool {
	i := lastElem(k)
	j := matchBracket(k, i)
	idx := k[i+1 : j]
	for _, c := range idx {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}

// elemChanged: the element location isn't in the start state: has it changed?
func elemChanged(in *Interp, start *State, k string, v Val) (string, bool) {
	a := arrayOf(k)
	if a == "" {
		return "", false
	}
	i := lastElem(k)
	path := k[strings.IndexAny(k, ".["):]
	j := matchBracket(path, lastElem(path))
	idx := elemIdx[path[:j+1]]
	if idx == nil {
		return a, true
	}
	_ = i
	// same as the base content?
	o := in.objByID(objIDOf(k))
	if o == nil {
		return a, true
	}
	p := mkPtr(o, path)
	if in.locType[k] == nil {
		return a, true
	}
	if start.clone().load(p, in.locType[k]).Key() == v.Key() {
		return "", true
	}
	return a, true
}

func (in *Interp) objByID(id int) *Obj {
	if in.byID == nil {
		in.byID = map[int]*Obj{}
	}
	return in.byID[id]
}

// initialLoc returns the value a location has if it has never been written.
func (in *Interp) initialLoc(st *State, k string) Val {
	if v, ok := in.lazies[k]; ok {
		return v
	}
	if strings.HasPrefix(k, "#") {
		return nil
	}
	o := in.objByID(objIDOf(k))
	if o == nil {
		return Nil
	}
	if strings.HasSuffix(k, "#mem") {
		return mkSeq()
	}
	if strings.HasSuffix(k, "#map") {
		if o.Kind == "sym" {
			return mkMap(app("map0", mkPtr(o, "")), nil)
		}
		return mkMap(Nil, nil)
	}
	t := in.locType[k]
	if t == nil {
		return Nil
	}
	if o.Kind == "alloc" || o.Kind == "arr" {
		return zeroVal(t)
	}
	path := ""
	if i := strings.IndexAny(k, ".["); i >= 0 {
		path = k[i:]
	}
	if !strings.Contains(k, "#") {
		return in.lazy(mkPtr(o, path), t)
	}
	return Nil
}

// exitBound: the fact says that at least n iterations have been completed, for a
// non-negative n that the loop doesn't change.
func (in *Interp) exitBound(st *State, ft Fact, count *Sym, watermark int) Val {
	a, ok := isApp(ft.C, "le0")
	if !ok || !ft.Truth {
		return nil
	}
	_, coef, _ := linOf(a.Args[0])
	if coef[count.Key()] != -1 {
		return nil
	}
	n := add(a.Args[0], count)
	if !in.olderThan(n, watermark) || !nonneg(n) && st.decide(le0(mulc(n, -1))) != 1 {
		return nil
	}
	return n
}

// stopsAt: the fact says that the number of completed iterations differs from a
// number that the loop doesn't change.
func (in *Interp) stopsAt(ft Fact, count *Sym, watermark int) Val {
	a, ok := isApp(ft.C, "eq0")
	if !ok || ft.Truth {
		return nil
	}
	_, coef, _ := linOf(a.Args[0])
	c := coef[count.Key()]
	if c != 1 && c != -1 {
		return nil
	}
	n := mulc(sub2(a.Args[0], mulc(count, c)), -c)
	if !in.olderThan(n, watermark) {
		return nil
	}
	return n
}

// olderThan: the term mentions nothing that was created later.
func (in *Interp) olderThan(n Val, watermark int) bool {
	k := n.Key()
	for i := 0; i < len(k); i++ {
		if k[i] == '~' && number(k[i+1:]) > watermark || strings.HasPrefix(k[i:], "&o") && in.createdAfter(k[i:], watermark) {
			return false
		}
	}
	return true
}

func boundKept(back []edge, count *Sym, n Val) bool {
	for _, b := range back {
		if b.fs.st.decide(le0(sub2(addc(count, 1), n))) != 1 {
			return false
		}
	}
	return true
}

func isSlice(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

// listAfter is a list after n elements have been appended to it.
func (in *Interp) listAfter(st *State, init, n Val, t types.Type, name string, newCap, zeros bool) Val {
	q, ln := in.seqOf(st, init)
	o := in.newObj("arr", "loop:"+name, t, nil)
	p := mkPtr(o, "")
	more := Seg{Kind: "zero", Len: n}
	if !zeros {
		more = Seg{Kind: "sub", Len: n, V: in.fresh("loop:"+name, t), Off: Int(0)}
	}
	st.heap[p.loc()+"#seq"] = concatSeq(q, mkSeq(more))
	var cp Val = appT(tInt, "cap", p)
	if d := in.toSlice(init); d != nil && !newCap {
		cp = d.Cap
	}
	return mkSlice(p, Int(0), add(ln, n), cp)
}

// appended: the number of elements that have been appended to a list, -1 if it
// has changed in another way; whether its capacity is the same; whether the elements are zeros.
func (in *Interp) appended(st *State, old, new Val) (int64, bool, bool) {
	a, b := in.toSlice(old), in.toSlice(new)
	if b == nil || a == nil {
		return -1, false, false
	}
	n, ok := constInt(sub(b.Len, a.Len))
	if !ok || n < 0 || n > 16 {
		return -1, false, false
	}
	q := st.content(a.Base, a.Off, a.Len)
	r := st.content(b.Base, b.Off, b.Len)
	if len(r.Segs) < len(q.Segs) {
		return -1, false, false
	}
	zeros := true
	more := int64(0)
	for i, g := range r.Segs {
		if i >= len(q.Segs) && g.Kind != "zero" {
			zeros = zeros && g.Kind == "val" && isZeroInt(g.V)
		}
		if i < len(q.Segs) && g.key() != q.Segs[i].key() {
			return -1, false, false
		}
		if l, ok := constInt(g.Len); i >= len(q.Segs) {
			if !ok {
				return -1, false, false
			}
			more += l
		}
	}
	if more != n {
		return -1, false, false
	}
	return n, a.Cap.Key() == b.Cap.Key(), zeros
}

func sortedKeys(m map[string]Val) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
