package main

// Profiles: the lists of liked and disliked items, and their similarity.

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	trust := "the helpers for sorted lists find an element iff it's there, add it if it isn't, and remove only the one at the position given (bounds and positions: C31; search in sorted lists: not decided)"
	register("C28", "Every path of every exported method of the profile, with the helpers for lists as operations on sets: each of the two lists is traced back to the one before, through the helpers' results; membership of the item follows from the operations and from the tests of found positions on the path. Other items, the user and the arrays of other profiles aren't touched.", opinionRules, trust)
	register("C29", "Every path of the method that compares profiles, with the number of common elements of each pair of lists as an unknown found by summarising the loop that counts them: the result and every divisor are rational functions of it, of the numbers of the elements that aren't common, and of the factor, all of which aren't negative; signs are decided by the coefficients after clearing positive divisors, with the path's tests that something isn't zero.", similarityRules, trust, "floating point arithmetic is exact; the lists of a profile have no duplicates; the dislike factor is between 0 and 1")
}

// listHelpers are the helpers for sorted lists without duplicates; C31 decides
// what they do.
var listHelpers = map[string]string{"IndexOf": "find", "BinaryIndexOf": "find", "PutSavingOrder": "put", "RemoveSavingOrder": "remove"}

func helperName(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if pk := fnPkg(fn); pk == nil || pk.Name() != "helpers" || !isModule(pk) || fn.Signature.Recv() != nil {
		return ""
	}
	return fn.Name()
}

func listHelper(fn *ssa.Function) bool { return listHelpers[helperName(fn)] != "" }

// helperCall is the helper that an event calls.
func helperCall(e *Event) string {
	if e.Kind != "call" || len(e.Res) != 1 || len(e.Args) != 2 {
		return ""
	}
	n, ok := strings.CutPrefix(e.Name, modulePath+"/internal/helpers.")
	if !ok {
		return ""
	}
	return listHelpers[n]
}

type profileCheck struct {
	c               *Ctx
	t               *types.Named
	likes, dislikes leaf
	user            leaf
	in              *Interp
}

func newProfile(c *Ctx) *profileCheck {
	p := &profileCheck{c: c, t: c.named("domain", "Profile")}
	if p.t == nil {
		return nil
	}
	var lists []leaf
	for _, l := range leaves(p.t) {
		if _, ok := l.t.Underlying().(*types.Slice); ok {
			lists = append(lists, l)
		} else if isInteger(l.t) {
			p.user = l
		}
	}
	if len(lists) != 2 || p.user.t == nil {
		c.missing("the two lists and the user of a profile")
		return nil
	}
	p.in = NewInterp(c.w, Config{OpaqueFn: listHelper, Accesses: true})
	fn := c.meth(types.NewPointer(p.t), "QualifyItem")
	if fn == nil {
		return nil
	}
	// the liked list is the one that makes an item liked
	liked, ok := c.constOf("domain", "ItemLiked")
	if !ok {
		return nil
	}
	for _, q := range c.run(p.in, fn, p.in.args(fn, ""), nil, nil) {
		if q.OK() && len(q.Rets) == 1 && same(q.Rets[0], liked) {
			for _, l := range lists {
				if p.member(q, q.Ev, p.initial(fn, l), p.item(fn)) == 1 {
					p.likes = l
				}
			}
		}
	}
	for _, l := range lists {
		if p.likes.t != nil && l.path != p.likes.path {
			p.dislikes = l
		}
	}
	if p.likes.t == nil {
		c.missing("the list of liked items: the one that makes QualifyItem answer that an item is liked")
		return nil
	}
	return p
}

// constOf finds a constant of the module.
func (c *Ctx) constOf(pkg, name string) (Val, bool) {
	if p := c.w.Pkg(pkg); p != nil {
		if k, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
			return mkConst(constant.ToInt(k.Val())), true
		}
	}
	c.missing("the constant " + name)
	return nil, false
}

func (p *profileCheck) recv(fn *ssa.Function) Val { return p.in.args(fn, "")[0] }

// item is the parameter that is an item.
func (p *profileCheck) item(fn *ssa.Function) Val {
	if len(fn.Params) != 2 || !isInteger(fn.Params[1].Type()) {
		return nil
	}
	return p.in.args(fn, "")[1]
}

func (p *profileCheck) initial(fn *ssa.Function, l leaf) Val {
	return p.field(p.in.NewState(), p.recv(fn), l)
}

// listKey identifies a list value.
func listKey(v Val) string {
	if v == nil {
		return "?"
	}
	return unwrap(v).Key()
}

// member tells whether the item is known to be in (1) or not in (-1) the list.
func (p *profileCheck) member(q *Path, evs []*Event, list, item Val) int {
	if list == nil || item == nil {
		return 0
	}
	for _, e := range evs {
		if len(e.Res) != 1 || listKey(e.Res[0]) != listKey(list) {
			continue
		}
		switch helperCall(e) {
		case "put":
			if same(e.Args[1], item) {
				return 1
			}
			return p.member(q, evs, e.Args[0], item)
		case "remove":
			x := p.foundAt(q, evs, e.Args[0], e.Args[1])
			if x == nil {
				return 0
			}
			if same(x, item) {
				return -1
			}
			return p.member(q, evs, e.Args[0], item)
		}
	}
	for _, e := range evs {
		if helperCall(e) == "find" && listKey(e.Args[0]) == listKey(list) && same(e.Args[1], item) {
			if s := p.found(q, e); s != 0 {
				return s
			}
		}
	}
	return 0
}

// found: what a search is known to have found.
func (p *profileCheck) found(q *Path, e *Event) int {
	if q.St.decide(le0(neg(e.Res[0]))) == 1 {
		return 1
	}
	if q.St.decide(le0(addc(e.Res[0], 1))) == 1 || q.St.decide(eqInt(e.Res[0], Int(-1))) == 1 {
		return -1
	}
	if q.St.decide(eqInt(e.Res[0], Int(-1))) == -1 {
		return 1
	}
	return 0
}

// foundAt is the element that a search has found at the position in the list.
func (p *profileCheck) foundAt(q *Path, evs []*Event, list, at Val) Val {
	for _, e := range evs {
		if helperCall(e) == "find" && listKey(e.Args[0]) == listKey(list) && same(e.Res[0], at) && p.found(q, e) == 1 {
			return e.Args[1]
		}
	}
	return nil
}

// base is the list that operations have been applied to, and the items that
// they add and remove; nil if it isn't known.
func (p *profileCheck) base(q *Path, evs []*Event, list Val) (Val, []Val) {
	for _, e := range evs {
		if len(e.Res) != 1 || listKey(e.Res[0]) != listKey(list) {
			continue
		}
		switch helperCall(e) {
		case "put":
			b, xs := p.base(q, evs, e.Args[0])
			return b, append(xs, e.Args[1])
		case "remove":
			x := p.foundAt(q, evs, e.Args[0], e.Args[1])
			if x == nil {
				return nil, nil
			}
			b, xs := p.base(q, evs, e.Args[0])
			return b, append(xs, x)
		case "find":
		default:
			if e.Kind == "call" {
				return nil, nil
			}
		}
	}
	return list, nil
}

// ---- C28

var opinions = map[string][2]int{ // in the liked, disliked list afterwards; 0: as before
	"Like": {1, -1}, "Dislike": {-1, 1}, "Unlike": {-1, 0}, "Undislike": {0, -1}, "RemoveItem": {-1, -1},
}

func opinionRules(c *Ctx) {
	p := newProfile(c)
	if p == nil {
		return
	}
	n, ops := 0, 0
	for _, fn := range c.w.Funcs {
		recv := fn.Signature.Recv()
		if recv == nil || fn.Object() == nil || !fn.Object().Exported() || fn.Synthetic != "" || fn.Blocks == nil || !types.Identical(deptr(recv.Type()), p.t) {
			continue
		}
		want, isOp := opinions[fn.Name()]
		if isOp && c.ob(p.item(fn) != nil, "operation", fn, fn.Pos(), "item", "the item that %s is about isn't known", fn.Name()) {
			ops++
		}
		ps := c.run(p.in, fn, p.in.args(fn, ""), nil, nil)
		for _, q := range ps {
			if !c.obPath(q.End == "", "operation", q, fn.Pos(), fn.Name()+" end", "%s may end with %s", fn.Name(), q.End) {
				continue
			}
			n++
			p.operation(q, fn, isOp, want)
		}
		if fn.Name() == "QualifyItem" {
			p.qualifies(fn, ps)
		}
	}
	c.count("operations on profiles", ops, len(opinions))
	c.count("paths of the methods of profiles", n, 12)
	p.constructors()
}

func (p *profileCheck) operation(q *Path, fn *ssa.Function, isOp bool, want [2]int) {
	c := p.c
	name := fn.Name()
	if _, isPtr := fn.Signature.Recv().Type().Underlying().(*types.Pointer); !isPtr {
		c.obPath(!isOp, "operation", q, fn.Pos(), name+" receiver", "%s changes a copy of the profile", name)
		return
	}
	recv := p.recv(fn)
	item := p.item(fn)
	lists := []leaf{p.likes, p.dislikes}
	for i, l := range lists {
		before, after := p.initial(fn, l), p.field(q.St, recv, l)
		if !c.obPath(before != nil && after != nil, "list", q, fn.Pos(), name+" "+l.path, "the list %s isn't known", l.path) {
			continue
		}
		b, xs := p.base(q, q.Ev, after)
		if !c.obPath(b != nil && listKey(b) == listKey(before), "list", q, fn.Pos(), name+" base "+l.path, "after %s the list %s isn't the one before with items added or removed", name, l.path) {
			continue
		}
		for _, x := range xs {
			c.obPath(item != nil && same(x, item), "others", q, fn.Pos(), name+" others "+l.path, "%s affects other items of %s than the one it's about", name, l.path)
		}
		if !isOp || item == nil {
			continue
		}
		m := p.member(q, q.Ev, after, item)
		switch want[i] {
		case 1:
			c.obPath(m == 1, "opinion", q, fn.Pos(), name+" "+l.path, "after %s the item may not be in %s", name, l.path)
		case -1:
			c.obPath(m == -1, "opinion", q, fn.Pos(), name+" "+l.path, "after %s the item may be in %s", name, l.path)
		default:
			c.obPath(len(xs) == 0, "opinion", q, fn.Pos(), name+" "+l.path, "%s changes %s", name, l.path)
		}
	}
	if !isOp && item == nil {
		// whatever it does, it does it to nothing
	}
	c.obPath(same(p.field(q.St, recv, p.user), p.initial(fn, p.user)), "others", q, fn.Pos(), name+" user", "%s changes the user of the profile", name)
	r := p.in.deref(recv)
	q.each(func(e *Event, _ *State, _ int, inner bool) {
		switch e.Kind {
		case "store", "storewin":
			v := e.Obj
			pt, _ := v.(*Ptr)
			own := pt != nil && (pt.O.Kind == "alloc" || r != nil && pt.O == r.O && !inner)
			if pt != nil && pt.O.Base != nil && r != nil && r.O.Base != nil && pt.O.Base.Key() == r.O.Base.Key() {
				own = own || !inner
			}
			c.obPath(own, "others", q, e.Pos, name+" store", "%s writes to memory that may belong to somebody else", name)
		case "copymem", "appendover":
			c.obPath(false, "others", q, e.Pos, name+" "+e.Kind, "%s writes to elements of a list that may be shared", name)
		case "go", "callfn", "panic", "exit":
			c.obPath(false, "others", q, e.Pos, name+" "+e.Kind, "%s does what isn't understood: %s", name, e.Kind)
		}
		if isOp && inner {
			c.obPath(helperCall(e) == "" || helperCall(e) == "find", "others", q, e.Pos, name+" repeatedly", "%s changes a list repeatedly", name)
		}
	})
}

// qualifies: the answer follows from the lists.
func (p *profileCheck) qualifies(fn *ssa.Function, ps []*Path) {
	c := p.c
	item := p.item(fn)
	if item == nil {
		return
	}
	k := map[string]Val{}
	for _, n := range []string{"ItemLiked", "ItemDisliked", "ItemUnknown"} {
		v, ok := c.constOf("domain", n)
		if !ok {
			return
		}
		for _, o := range k {
			c.ob(!same(o, v), "answer", fn, fn.Pos(), "constants", "%s can't be told from another answer", n)
		}
		k[n] = v
	}
	for _, q := range ps {
		if !q.OK() || len(q.Rets) != 1 {
			continue
		}
		l, d := p.member(q, q.Ev, p.initial(fn, p.likes), item), p.member(q, q.Ev, p.initial(fn, p.dislikes), item)
		want := "?"
		switch {
		case l == 1:
			want = "ItemLiked"
		case d == 1:
			want = "ItemDisliked" // an item isn't in both lists
		case l == -1 && d == -1:
			want = "ItemUnknown"
		}
		c.obPath(k[want] != nil && same(q.Rets[0], k[want]), "answer", q, fn.Pos(), "QualifyItem "+want, "QualifyItem answers %s when the item is liked: %s, disliked: %s", show(q.Rets[0]), yesNo(l), yesNo(d))
	}
}

func yesNo(n int) string {
	switch n {
	case 1:
		return "yes"
	case -1:
		return "no"
	}
	return "not known"
}

// constructors: a new profile has no opinions and its lists aren't shared.
func (p *profileCheck) constructors() {
	c := p.c
	n := 0
	for _, fn := range c.w.Funcs {
		if fn.Signature.Recv() != nil || fn.Object() == nil || !fn.Object().Exported() || fn.Blocks == nil || fn.Signature.Results().Len() != 1 || !types.Identical(deptr(fn.Signature.Results().At(0).Type()), p.t) {
			continue
		}
		in := p.in
		for _, q := range c.run(in, fn, in.args(fn, ""), nil, nil) {
			if !q.OK() {
				continue
			}
			n++
			ret := q.Rets[0]
			var objs []*Obj
			for _, l := range []leaf{p.likes, p.dislikes} {
				v := p.field(q.St, ret, l)
				sl := in.toSlice(orNil(v))
				empty := v != nil && (isNilConst(v) || sl != nil && q.St.decide(eqInt(sl.Len, Int(0))) == 1)
				c.obPath(empty, "new", q, fn.Pos(), fn.Name()+" "+l.path, "a new profile has opinions in %s", l.path)
				if sl != nil && sl.Base != nil && q.St.decide(eqInt(sl.Cap, Int(0))) != 1 {
					for _, o := range objs {
						c.obPath(o != sl.Base.O, "new", q, fn.Pos(), fn.Name()+" shared", "the lists of a new profile share their array")
					}
					c.obPath(sl.Base.O.Kind == "arr" || sl.Base.O.Kind == "alloc", "new", q, fn.Pos(), fn.Name()+" fresh "+l.path, "the list %s of a new profile may be shared with other profiles", l.path)
					objs = append(objs, sl.Base.O)
				}
			}
			var id Val
			for i, a := range in.args(fn, "") {
				if isInteger(fn.Params[i].Type()) && id == nil {
					id = a
				}
			}
			if id != nil {
				c.obPath(same(p.field(q.St, ret, p.user), id), "new", q, fn.Pos(), fn.Name()+" user", "a new profile isn't the one of the user given")
			}
		}
	}
	c.count("ways of making a profile", n, 1)
}

// ---- C29

// counting is a loop that counts the elements of a list that are in another one.
type counting struct {
	a, b  Val // the lists
	n     string
	kind  string // the path of the lists
	loops *LoopSum
}

type similarity struct {
	p     *profileCheck
	q     *Path
	cnt   []*counting
	terms map[string]poly // replacements of variables: lengths and counters
	zero  map[string]bool // variables that are zero
	pos   []poly          // positive
	sign  map[string]bool // variables known not to be negative
	bad   string

	factor  Val
	without []*counting     // lists that weren't compared
	whole   map[string]poly // what integer parts are taken of
}

func similarityRules(c *Ctx) {
	p := newProfile(c)
	if p == nil {
		return
	}
	fn := c.meth(types.NewPointer(p.t), "ComputeSimilarity")
	if fn == nil {
		return
	}
	var factor, other Val
	args := p.in.args(fn, "")
	for i, x := range fn.Params[1:] {
		if isFloat(x.Type()) {
			factor = args[i+1]
		}
		if types.Identical(deptr(x.Type()), p.t) {
			other = args[i+1]
		}
	}
	if factor == nil || other == nil {
		c.missing("the other profile and the factor")
		return
	}
	ps := c.run(p.in, fn, args, nil, nil)
	nd, n := 0, 0
	for _, q := range ps {
		if !c.obPath(q.End == "", "result", q, fn.Pos(), "end", "comparing may end with %s", q.End) {
			continue
		}
		s := &similarity{p: p, q: q, terms: map[string]poly{}, zero: map[string]bool{}, sign: map[string]bool{factor.Key(): true}, whole: map[string]poly{}, factor: factor}
		s.counters(fn, args[0], other)
		if s.facts(); s.bad == "infeasible" {
			continue
		}
		n++
		for _, k := range s.without {
			c.obPath(s.zero[escape(k.n)], "common", q, fn.Pos(), "both lists", "the lists %s aren't compared though they may have something in common", k.kind)
		}
		q.each(func(e *Event, _ *State, _ int, inner bool) {
			switch e.Kind {
			case "fdiv":
				nd++
				r := s.ratio(e.Args[1])
				c.obPath(!inner && r.ok() && s.positive(r.n) && s.positive(r.d), "divisor", q, e.Pos, "division", "the divisor %s may be zero", clip(e.Args[1].Key()))
			case "idiv":
				r := s.ratio(e.Args[1])
				c.obPath(!inner && r.ok() && s.positive(r.n) && s.positive(r.d), "divisor", q, e.Pos, "integer division", "the divisor %s may be zero", clip(e.Args[1].Key()))
			case "store", "storewin", "copymem", "appendover", "mapupdate", "mapdelete":
				pt, _ := e.Obj.(*Ptr)
				c.obPath(pt != nil && pt.O.Kind == "alloc", "unchanged", q, e.Pos, "store", "comparing writes to memory that may belong to a profile")
			}
			if k := helperCall(e); k == "put" || k == "remove" {
				c.obPath(false, "unchanged", q, e.Pos, k, "comparing changes a list")
			}
		})
		if !c.obPath(len(q.Rets) == 1, "result", q, fn.Pos(), "results", "comparing has more than one result") {
			continue
		}
		s.result(fn, q.Rets[0])
	}
	c.count("ways of comparing profiles", n, 4)
	c.count("divisions", nd, 4)
}

// counters finds the loops that count common elements.
func (s *similarity) counters(fn *ssa.Function, me, other Val) {
	c, q, p := s.p.c, s.q, s.p
	for _, e := range q.Ev {
		if e.Loop == nil {
			continue
		}
		l := e.Loop
		// the lookup of the elements
		var a, b Val
		ok := len(l.Iters) > 0
		hit := make([]int, len(l.Iters))
		for i, it := range l.Iters {
			sub := &Path{In: q.In, St: it.End, Fn: q.Fn}
			for _, x := range it.Events {
				if x.Loop != nil {
					ok = false
				}
				if helperCall(x) != "find" {
					continue
				}
				el, isEl := isApp(x.Args[1], "elem")
				if !isEl || hit[i] != 0 {
					ok = false
					continue
				}
				if idx := el.Args[1]; !same(idx, l.Count) {
					ok = false
				}
				if a != nil && (listKey(a) != listKey(el.Args[0]) || listKey(b) != listKey(x.Args[0])) {
					ok = false
				}
				a, b = el.Args[0], x.Args[0]
				hit[i] = p.found(sub, x)
			}
			ok = ok && hit[i] != 0
		}
		if !ok || a == nil || !exactly(q, l, lenTerm(a)) {
			c.obPath(false, "common", q, e.Pos, "loop", "the loop doesn't count the common elements of two lists in a way that's understood")
			continue
		}
		k := &counting{a: a, b: b, n: "common " + listKey(a) + " " + listKey(b), loops: l}
		s.cnt = append(s.cnt, k)
		// lengths: common elements and the rest
		s.sign[k.n] = true
		for _, x := range []Val{a, b} {
			rest := "rest of " + listKey(x)
			s.sign[rest] = true
			key := lenTerm(x).Key()
			if old, have := s.terms[key]; have {
				want := pvar(k.n).add(pvar(rest), 1)
				c.obPath(old.key() == want.key(), "common", q, e.Pos, "twice", "a list is compared with several others")
			}
			s.terms[key] = pvar(k.n).add(pvar(rest), 1)
		}
		s.terms[l.Count.Key()] = s.terms[lenTerm(a).Key()] // the loop goes through all of it
		// what is counted
		for _, h := range l.Havoc {
			at, isSym := h.At.(*Sym)
			if !isSym || at == l.Count {
				continue
			}
			step := int64(0)
			fine := len(h.Next) == len(l.Iters)
			for i, nx := range h.Next {
				d, isC := constInt(sub(nx, h.At))
				if !isC {
					fine = false
					break
				}
				if i < len(hit) && hit[i] == -1 && d != 0 {
					fine = false
				}
				if i < len(hit) && hit[i] == 1 {
					step = d
				}
			}
			if !fine {
				continue
			}
			for i := range h.Next {
				if d, _ := constInt(sub(h.Next[i], h.At)); hit[i] == 1 && d != step {
					fine = false
				}
			}
			if r := s.ratio(h.Init); fine && r.ok() && r.d.isOne() {
				s.terms[at.Key()] = r.n.add(pvar(k.n), step)
			}
		}
	}
	// each list of one profile is compared with the same one of the other
	byKind := map[string]bool{}
	for _, k := range s.cnt {
		for _, l := range []leaf{p.likes, p.dislikes} {
			x, y := s.listOf(me, l), s.listOf(other, l)
			if listKey(k.a) == x && listKey(k.b) == y || listKey(k.a) == y && listKey(k.b) == x {
				byKind[l.path] = true
				k.n, k.kind = "!"+k.n, l.path
			}
		}
	}
	for _, k := range s.cnt {
		c.obPath(strings.HasPrefix(k.n, "!"), "common", q, k.loops.Pos, "lists", "the lists compared aren't the same ones of both profiles: %s and %s", clip(listKey(k.a)), clip(listKey(k.b)))
		k.n = strings.TrimPrefix(k.n, "!")
	}
	// lists that weren't
	for _, l := range []leaf{p.likes, p.dislikes} {
		if byKind[l.path] {
			continue
		}
		a, b := s.valOf(me, l), s.valOf(other, l)
		k := &counting{a: a, b: b, n: "common " + listKey(a) + " " + listKey(b), kind: l.path}
		s.cnt = append(s.cnt, k)
		s.without = append(s.without, k)
		s.sign[k.n] = true
		for _, x := range []Val{a, b} {
			rest := "rest of " + listKey(x)
			s.sign[rest] = true
			if _, have := s.terms[lenTerm(x).Key()]; !have {
				s.terms[lenTerm(x).Key()] = pvar(k.n).add(pvar(rest), 1)
			}
		}
	}
}

func (s *similarity) listOf(pr Val, l leaf) string { return listKey(s.valOf(pr, l)) }

func (s *similarity) valOf(pr Val, l leaf) Val {
	st := s.p.in.NewState()
	if t := typeOfVal(pr); t != nil {
		if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
			return s.p.field(st, pr, l)
		}
	}
	return project(pr, l.path, l.t)
}

// facts finds out which quantities are zero and which aren't.
func (s *similarity) facts() {
	fs := s.q.St.factList()
	for again := true; again; {
		again = false
		for _, f := range fs {
			a, ok := f.C.(*App)
			if !ok || !f.Truth {
				continue
			}
			var r ratio
			switch {
			case a.Op == "eq0":
				r = s.ratio(a.Args[0])
			case a.Op == "eqv":
				r = s.ratio(a.Args[0]).sub(s.ratio(a.Args[1]))
			case a.Op == "le0": // not positive
				r = s.ratio(a.Args[0])
			case a.Op == "f<=":
				r = s.ratio(a.Args[0]).sub(s.ratio(a.Args[1]))
			default:
				continue
			}
			if r.ok() && s.nonneg(r.n.scale(-1)) && (a.Op == "eq0" || a.Op == "eqv") {
				r.n = r.n.scale(-1)
			}
			if !r.ok() || !s.positive(r.d) || !s.nonneg(r.n) {
				continue
			}
			// not negative and zero: every monomial is
			for m := range r.n {
				if m == "" {
					s.bad = "infeasible"
					return
				}
				if !s.zero[m] {
					s.zero[m] = true
					again = true
				}
			}
		}
	}
	for _, f := range fs {
		a, ok := f.C.(*App)
		if !ok {
			continue
		}
		var r ratio
		switch {
		case !f.Truth && a.Op == "eq0":
			r = s.ratio(a.Args[0])
			if r.ok() && s.nonneg(r.n.scale(-1)) {
				r.n = r.n.scale(-1)
			}
		case !f.Truth && a.Op == "eqv":
			r = s.ratio(a.Args[0]).sub(s.ratio(a.Args[1]))
			if r.ok() && s.nonneg(r.n.scale(-1)) {
				r.n = r.n.scale(-1)
			}
		case !f.Truth && a.Op == "le0":
			r = s.ratio(a.Args[0])
		case !f.Truth && a.Op == "f<=":
			r = s.ratio(a.Args[0]).sub(s.ratio(a.Args[1]))
		case f.Truth && a.Op == "f<":
			r = s.ratio(a.Args[1]).sub(s.ratio(a.Args[0]))
		case f.Truth && a.Op == "le0": // 1-x <= 0
			r = s.ratio(sub(Int(1), a.Args[0]))
		default:
			continue
		}
		if !r.ok() || !s.nonneg(r.n) {
			continue
		}
		if len(r.n) == 0 {
			s.bad = "infeasible"
			return
		}
		if r.n[""] != nil {
			continue // always
		}
		s.pos = append(s.pos, r.n)
	}
}

// result: it's between 0 and 100, and has the values it must have.
func (s *similarity) result(fn *ssa.Function, v Val) {
	c, q := s.p.c, s.q
	r := s.ratio(v)
	if !c.obPath(r.ok(), "result", q, fn.Pos(), "known", "the similarity %s isn't understood", clip(v.Key())) {
		return
	}
	if !c.obPath(s.positive(r.d), "result", q, fn.Pos(), "finite", "the similarity may not be a number") {
		return
	}
	c.obPath(s.nonneg(r.n), "range", q, fn.Pos(), "low", "the similarity may be negative")
	c.obPath(s.nonneg(r.d.scale(100).add(r.n, -1)), "range", q, fn.Pos(), "high", "the similarity may be more than 100")
	// nothing in common
	none, all := map[string]bool{}, map[string]bool{}
	for m := range s.sign {
		if strings.HasPrefix(m, "common ") {
			none[m] = true
		} else if strings.HasPrefix(m, "rest of ") {
			all[m] = true
		}
	}
	for _, set := range []map[string]bool{none, all} {
		for z, w := range s.whole {
			if len(w.without(set).without(s.zero)) == 0 {
				set[z] = true
			}
		}
	}
	c.obPath(len(r.n.without(none)) == 0, "value", q, fn.Pos(), "dissimilar", "profiles that have nothing in common aren't given the similarity 0")
	// who's compared with whom doesn't matter
	sym := true
	for z := range s.zero {
		sym = sym && s.zero[s.swap(z)]
	}
	if sym {
		x, y := s.swapped(r.n), s.swapped(r.d)
		c.obPath(r.n.mul(y).key() == x.mul(r.d).key(), "value", q, fn.Pos(), "symmetry", "the similarity depends on which profile is compared with the other")
	}
	s.likesOnly(fn, r)
	// the same: 100, unless nothing counts
	for _, x := range s.pos {
		if len(x.without(all)) == 0 {
			return // they can't be the same
		}
	}
	d := r.d.without(all).scale(100).add(r.n.without(all), -1)
	c.obPath(len(d) == 0 || s.nothing(), "value", q, fn.Pos(), "identical", "equal profiles aren't given the similarity 100")
}

// likesOnly: with the factor 0 it's the similarity of the likes.
func (s *similarity) likesOnly(fn *ssa.Function, r ratio) {
	none := map[string]bool{}
	for z := range s.zero {
		none[z] = true
	}
	none[escape(s.factor.Key())] = true
	for z, w := range s.whole {
		if len(w.without(none)) == 0 {
			none[z] = true
		}
	}
	for _, x := range s.pos {
		if len(x.without(none)) == 0 {
			return // the factor isn't 0
		}
	}
	for _, k := range s.cnt {
		if k.kind != s.p.likes.path {
			continue
		}
		common := pvar(k.n)
		union := common.add(pvar("rest of "+listKey(k.a)), 1).add(pvar("rest of "+listKey(k.b)), 1)
		n, d := r.n.mul(union).without(none), common.scale(100).mul(r.d).without(none)
		s.p.c.obPath(n.key() == d.key(), "value", s.q, fn.Pos(), "factor", "dislikes change the similarity though the factor is 0, or likes don't count")
	}
}

// swap is the variable with the profiles exchanged.
func (s *similarity) swap(v string) string {
	vs := strings.Split(v, "*")
	for i, x := range vs {
		for _, k := range s.cnt {
			a, b := escape("rest of "+listKey(k.a)), escape("rest of "+listKey(k.b))
			if x == a {
				vs[i] = b
			} else if x == b {
				vs[i] = a
			}
		}
		// integer parts
		if w, ok := s.whole[x]; ok && s.swapped(w).key() != w.key() {
			vs[i] = "swapped " + x
		}
	}
	sort.Strings(vs)
	return strings.Join(vs, "*")
}

func (s *similarity) swapped(p poly) poly {
	r := poly{}
	for m, x := range p {
		r[s.swap(m)] = x
	}
	return r
}

// nothing reports whether there's nothing in common that counts: no likes, and
// no dislikes or none after the factor is applied.
func (s *similarity) nothing() bool {
	zero := func(p poly) bool { return len(p.without(s.zero)) == 0 }
	var f poly
	if s.factor != nil {
		f = pvar(s.factor.Key())
	}
	likes, dislikes := false, false
	for _, k := range s.cnt {
		n := pvar(k.n)
		if k.kind == s.p.likes.path {
			likes = likes || zero(n)
			continue
		}
		dislikes = dislikes || zero(n) || f != nil && zero(f.mul(n))
		for z := range s.zero {
			if w, ok := s.whole[z]; ok {
				for m := range w {
					dislikes = dislikes || m == escape(k.n) || f != nil && poly{m: newRat(1)}.key() == f.mul(n).key()
				}
			}
		}
	}
	return likes && dislikes
}

// ---- rational functions

// poly is a polynomial: coefficients by monomial, the product of its variables'
// names.
type poly map[string]*rat

type ratio struct{ n, d poly }

func (r ratio) ok() bool { return r.n != nil && r.d != nil }
func (r ratio) sub(o ratio) ratio {
	if !r.ok() || !o.ok() {
		return ratio{}
	}
	if r.d.key() == o.d.key() {
		return ratio{r.n.add(o.n, -1), r.d}
	}
	return ratio{r.n.mul(o.d).add(o.n.mul(r.d), -1), r.d.mul(o.d)}
}

func (p poly) isOne() bool { return len(p) == 1 && p[""] != nil && p[""].Cmp(newRat(1)) == 0 }

func pconst(x *rat) poly {
	if x.Sign() == 0 {
		return poly{}
	}
	return poly{"": x}
}
func pvar(n string) poly { return poly{escape(n): newRat(1)} }

func escape(n string) string { return strings.ReplaceAll(n, "*", "×") }

func (p poly) add(q poly, k int64) poly {
	r := poly{}
	for m, x := range p {
		r[m] = x
	}
	for m, x := range q {
		y := newRat(0).Mul(x, newRat(k))
		if o := r[m]; o != nil {
			y = y.Add(y, o)
		}
		if y.Sign() == 0 {
			delete(r, m)
		} else {
			r[m] = y
		}
	}
	return r
}
func (p poly) scale(k int64) poly { return poly{}.add(p, k) }
func (p poly) mul(q poly) poly {
	r := poly{}
	for m, x := range p {
		for n, y := range q {
			var vs []string
			for _, k := range []string{m, n} {
				if k != "" {
					vs = append(vs, strings.Split(k, "*")...)
				}
			}
			sort.Strings(vs)
			r = r.add(poly{strings.Join(vs, "*"): newRat(0).Mul(x, y)}, 1)
		}
	}
	return r
}

// without sets variables to zero.
func (p poly) without(zero map[string]bool) poly {
	r := poly{}
	for m, x := range p {
		z := false
		for _, v := range strings.Split(m, "*") {
			z = z || zero[v]
		}
		z = z || zero[m]
		if !z {
			r[m] = x
		}
	}
	return r
}
func (p poly) key() string {
	var ks []string
	for m, x := range p {
		ks = append(ks, x.String()+" "+m)
	}
	sort.Strings(ks)
	return strings.Join(ks, " + ")
}

// nonneg: no coefficient is negative, nor is any variable.
func (s *similarity) nonneg(p poly) bool {
	for m, x := range p {
		if x.Sign() < 0 {
			return false
		}
		for _, v := range strings.Split(m, "*") {
			if v != "" && !s.sign[v] {
				return false
			}
		}
	}
	return true
}

// positive: not negative, and one of the positive sums is part of it.
func (s *similarity) positive(p poly) bool {
	if !s.nonneg(p) {
		return false
	}
	if p[""] != nil {
		return true
	}
	has := func(q poly) bool {
		for m := range q {
			if p[m] == nil {
				return false
			}
		}
		return len(q) > 0
	}
	for _, q := range s.pos {
		if has(q.without(s.zero)) {
			return true
		}
	}
	// products of positive sums
	for _, a := range s.pos {
		for _, b := range s.pos {
			ab := a.mul(b).without(s.zero)
			if has(ab) {
				return true
			}
			for _, d := range s.pos {
				if has(ab.mul(d).without(s.zero)) {
					return true
				}
			}
		}
	}
	return false
}

// ratio converts a number; not ok if it isn't understood.
func (s *similarity) ratio(v Val) ratio {
	one := pconst(newRat(1))
	switch x := v.(type) {
	case *Const:
		if x.V == nil {
			return ratio{}
		}
		r, ok := ratOf(x.V)
		if !ok {
			return ratio{}
		}
		return ratio{pconst(r), one}
	case *Lin:
		c, coef, atom := linOf(x)
		res := ratio{pconst(newRat(c)), one}
		for k, n := range coef {
			a := s.ratio(atom[k])
			if !a.ok() {
				return ratio{}
			}
			a.n = a.n.scale(-n)
			res = res.sub(a)
		}
		return res
	case *App:
		switch x.Op {
		case "i2f", "f2f":
			return s.ratio(x.Args[0])
		case "f+", "f-", "f*", "f/", "mul":
			if len(x.Args) != 2 {
				return ratio{}
			}
			a, b := s.ratio(x.Args[0]), s.ratio(x.Args[1])
			if !a.ok() || !b.ok() {
				return ratio{}
			}
			switch x.Op {
			case "f+":
				b.n = b.n.scale(-1)
				return a.sub(b)
			case "f-":
				return a.sub(b)
			case "f*", "mul":
				return ratio{a.n.mul(b.n), a.d.mul(b.d)}.reduced()
			}
			if len(b.n) == 0 {
				return ratio{}
			}
			return ratio{a.n.mul(b.d), a.d.mul(b.n)}.reduced()
		case "f2i":
			// the integer part isn't negative if the number isn't
			a := s.ratio(x.Args[0])
			if a.ok() && len(a.n) == 0 {
				return ratio{poly{}, one}
			}
			k := escape(x.Key())
			if a.ok() && a.d.isOne() {
				s.whole[k] = a.n
			}
			if a.ok() && s.nonneg(a.n) && s.nonneg(a.d) {
				s.sign[k] = true
			}
			return ratio{pvar(k).without(s.zero), one}
		}
	}
	if t, ok := s.terms[v.Key()]; ok {
		return ratio{t.without(s.zero), one}
	}
	if strings.HasPrefix(v.Key(), "len(") {
		s.sign[escape(v.Key())] = true
	}
	return ratio{pvar(v.Key()).without(s.zero), one}
}

// reduced cancels equal numerators and denominators.
func (r ratio) reduced() ratio {
	if len(r.n) > 0 && r.n.key() == r.d.key() {
		return ratio{pconst(newRat(1)), pconst(newRat(1))}
	}
	return r
}

// field loads a field of the struct that a pointer points to.
func (p *profileCheck) field(st *State, ptr Val, l leaf) Val {
	at := p.in.deref(ptr)
	if at == nil {
		return nil
	}
	return st.load(mkPtr(at.O, at.Path+l.path), l.t)
}
