package main

// A small domain of linear inequalities over integers, with invariants of loops
// of the form x - y <= k, and the order of a sorted list.
//
// The order of a sorted list h relative to a value v is described by two numbers:
// less, the number of elements below v, and upto, the number of elements that
// aren't above v. A comparison of h[i] with v is then an inequality between i and
// one of the two.

import (
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// ineq is c + sum(t[x]*x) <= 0.
type ineq struct {
	c int64
	t map[string]int64
}

func (a ineq) key() string {
	names := make([]string, 0, len(a.t))
	for n := range a.t {
		names = append(names, n)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, n := range names {
		b.WriteString(strconv.FormatInt(a.t[n], 10) + "*" + n + " ")
	}
	return b.String()
}

func (a ineq) plus(b ineq, m int64) ineq {
	r := ineq{a.c + m*b.c, map[string]int64{}}
	for n, k := range a.t {
		r.t[n] = k
	}
	for n, k := range b.t {
		if r.t[n] += m * k; r.t[n] == 0 {
			delete(r.t, n)
		}
	}
	return r
}
func (a ineq) times(m int64) ineq { return ineq{t: map[string]int64{}}.plus(a, m) }
func (a ineq) add(n int64) ineq   { return ineq{a.c + n, a.t} }

// tight divides by the greatest common divisor of the coefficients.
func (a ineq) tight() ineq {
	var g int64
	for _, k := range a.t {
		if k < 0 {
			k = -k
		}
		for k != 0 {
			g, k = k, g%k
		}
	}
	if g <= 1 {
		return a
	}
	r := ineq{t: map[string]int64{}}
	for n, k := range a.t {
		r.t[n] = k / g
	}
	// c/g rounded up
	r.c = a.c / g
	if a.c > 0 && a.c%g != 0 {
		r.c++
	}
	return r
}

// sys is a conjunction of inequalities, and of expressions that aren't zero.
type sys struct {
	cs []ineq
	ne []ineq
	or [][]ineq // one of the inequalities

	o    *order
	done map[string]bool // atoms that have been considered
}

func (s *sys) clone() *sys {
	t := &sys{append([]ineq{}, s.cs...), append([]ineq{}, s.ne...), append([][]ineq{}, s.or...), s.o, map[string]bool{}}
	for n := range s.done {
		t.done[n] = true
	}
	return t
}
func (s *sys) le(a ineq) { s.cs = append(s.cs, a) }
func (s *sys) eq(a ineq) { s.cs = append(s.cs, a, a.times(-1)) }

const maxIneqs = 3000

// contradicts: the inequalities alone have no solution (Fourier-Motzkin
// elimination, with the variables numbered).
func contradicts(cs []ineq) bool {
	num := map[string]int{}
	for _, a := range cs {
		for n := range a.t {
			if _, ok := num[n]; !ok {
				num[n] = len(num)
			}
		}
	}
	nv := len(num)
	type row struct {
		c int64
		t []int16
	}
	var rows []row
	at := map[string]int{}
	key := make([]byte, 2*nv)
	// put adds a row divided by the greatest common divisor of its coefficients,
	// unless there's a stronger one with the same coefficients.
	put := func(c int64, t []int64) bool {
		var g int64
		for _, k := range t {
			if k < 0 {
				k = -k
			}
			for k != 0 {
				g, k = k, g%k
			}
		}
		if g == 0 {
			return c > 0
		}
		if g > 1 {
			up := c > 0 && c%g != 0
			if c /= g; up {
				c++
			}
		}
		for i, k := range t {
			k /= g
			if k != int64(int16(k)) {
				return false // too large a number: forget the row
			}
			key[2*i], key[2*i+1] = byte(k), byte(k>>8)
		}
		if i, ok := at[string(key)]; ok {
			if c > rows[i].c {
				rows[i].c = c
			}
			return false
		}
		r := row{c, make([]int16, nv)}
		for i, k := range t {
			r.t[i] = int16(k / g)
		}
		at[string(key)] = len(rows)
		rows = append(rows, r)
		return false
	}
	buf := make([]int64, nv)
	for _, a := range cs {
		for i := range buf {
			buf[i] = 0
		}
		for n, k := range a.t {
			buf[num[n]] = k
		}
		if put(a.c, buf) {
			return true
		}
	}
	up, down := make([]int, nv), make([]int, nv)
	for {
		for i := range up {
			up[i], down[i] = 0, 0
		}
		for _, r := range rows {
			for i, k := range r.t {
				if k > 0 {
					up[i]++
				} else if k < 0 {
					down[i]++
				}
			}
		}
		best, cost := -1, 0
		for i := range up {
			if up[i]+down[i] == 0 {
				continue
			}
			if c := up[i]*down[i] - up[i] - down[i]; best < 0 || c < cost {
				best, cost = i, c
			}
		}
		if best < 0 {
			return false
		}
		old := rows
		rows, at = nil, map[string]int{}
		var pos, neg []row
		for _, r := range old {
			switch k := r.t[best]; {
			case k > 0:
				pos = append(pos, r)
			case k < 0:
				neg = append(neg, r)
			default:
				for i, k := range r.t {
					key[2*i], key[2*i+1] = byte(k), byte(k>>8)
				}
				at[string(key)] = len(rows)
				rows = append(rows, r)
			}
		}
		for _, p := range pos {
			for _, n := range neg {
				mp, mn := int64(-n.t[best]), int64(p.t[best])
				for i := range buf {
					buf[i] = mp*int64(p.t[i]) + mn*int64(n.t[i])
				}
				if put(mp*p.c+mn*n.c, buf) {
					return true
				}
			}
		}
		if len(rows) > maxIneqs {
			return false
		}
	}
}

// impossible: the system has no solution.
func (s *sys) impossible(depth int) bool {
	if contradicts(s.cs) {
		return true
	}
	if depth == 0 {
		return false
	}
	// what isn't zero is on the side of it that's left
	for i, d := range s.ne {
		lo := s.clone() // d <= -1
		lo.ne = append(append([]ineq{}, s.ne[:i]...), s.ne[i+1:]...)
		hi := lo.clone()
		lo.le(d.add(1))
		hi.le(d.times(-1).add(1))
		l, h := contradicts(lo.cs), contradicts(hi.cs)
		switch {
		case l && h:
			return true
		case l:
			return hi.impossible(depth)
		case h:
			return lo.impossible(depth)
		}
	}
	for i, alts := range s.or {
		rest := append(append([][]ineq{}, s.or[:i]...), s.or[i+1:]...)
		all := true
		for _, a := range alts {
			t := s.clone()
			t.or = rest
			t.le(a)
			if all = all && t.impossible(depth-1); !all {
				break
			}
		}
		if all {
			return true
		}
	}
	if len(s.ne) > 0 {
		d := s.ne[0]
		for _, a := range []ineq{d.add(1), d.times(-1).add(1)} {
			t := s.clone()
			t.ne = s.ne[1:]
			t.le(a)
			if !t.impossible(depth - 1) {
				return false
			}
		}
		return true
	}
	return false
}

const splitDepth = 3

func (s *sys) entails(a ineq) bool {
	t := s.clone()
	t.le(a.times(-1).add(1))
	if t.o != nil {
		t.o.about(t)
	}
	return t.impossible(splitDepth)
}

// follows from the inequalities as they are.
func (s *sys) follows(a ineq) bool {
	t := s.clone()
	t.le(a.times(-1).add(1))
	return t.impossible(splitDepth)
}
func (s *sys) entailsEq(a ineq) bool { return s.entails(a) && s.entails(a.times(-1)) }

// order translates terms and facts to inequalities.
type order struct {
	memo map[memoKey]int
	list string // the key of the contents of the list that is searched
	v    string // the key of the value that is searched for
	mode string // sorted, place: a position at which the value is, or ""
	size Val    // the number of elements of the list

	at Val // a probe: the position

	any bool // compare with results of any operations

	inv   map[*LoopSum][]ineq
	atoms map[string]Val
}

const (
	gLess  = "#less"
	gUpto  = "#upto"
	gPlace = "#place"
)

func newOrder() *order {
	return &order{inv: map[*LoopSum][]ineq{}, atoms: map[string]Val{}, memo: map[memoKey]int{}}
}

type memoKey struct {
	facts *factNode
	tr    *evNode
	k     string
	done  bool
}

// decide is asked by the interpreter.
func (o *order) decide(st *State, c *App) int {
	evs := st.events()
	k := memoKey{st.facts, st.tr, c.k, true}
	for _, e := range evs {
		k.done = k.done && (e.Loop == nil || e.Loop.Done)
	}
	if r, ok := o.memo[k]; ok {
		return r
	}
	s := o.system(st.factList(), o.loops(evs, nil)...)
	r := 0
	yes, no := s.clone(), s.clone()
	o.fact(yes, Fact{c, true})
	o.fact(no, Fact{c, false})
	o.about(yes)
	o.about(no)
	if no.impossible(splitDepth) {
		r = 1
	} else if yes.impossible(splitDepth) {
		r = -1
	}
	o.memo[k] = r
	return r
}

// of a term
func (o *order) of(v Val) ineq {
	c, coef, atom := linOf(v)
	r := ineq{c, map[string]int64{}}
	for k, n := range coef {
		r.t[k] = n
		o.atoms[k] = atom[k]
	}
	return r
}
func (o *order) ghost(n string) ineq { return ineq{t: map[string]int64{n: 1}} }

// about adds what is known of the atoms themselves.
func (o *order) about(s *sys) {
	if s.done == nil {
		s.done = map[string]bool{}
	}
	for {
		names := map[string]bool{}
		for _, a := range append(append([]ineq{}, s.cs...), s.ne...) {
			for n := range a.t {
				names[n] = true
			}
		}
		for _, alts := range s.or {
			for _, a := range alts {
				for n := range a.t {
					names[n] = true
				}
			}
		}
		var now []string
		for n := range names {
			if !s.done[n] {
				now = append(now, n)
				// what it's computed from
				if v, ok := o.atoms[n].(*App); ok && (v.Op == "div" || v.Op == "shr" || v.Op == "rem") {
					for m := range o.of(v.Args[0]).t {
						if !s.done[m] && !names[m] {
							now = append(now, m)
						}
					}
				}
			}
		}
		if len(now) == 0 {
			return
		}
		sort.Slice(now, func(i, j int) bool {
			x, y := o.rank(now[i]), o.rank(now[j])
			return x < y || x == y && now[i] < now[j]
		})
		for _, n := range now {
			if !s.done[n] {
				s.done[n] = true
				o.atom(s, n)
			}
		}
	}
}

// rank orders quotients behind what they're computed from.
func (o *order) rank(n string) int {
	v, ok := o.atoms[n].(*App)
	if !ok || v.Op != "div" && v.Op != "shr" && v.Op != "rem" {
		return 0
	}
	r := 0
	for m := range o.of(v.Args[0]).t {
		if k := o.rank(m); k > r {
			r = k
		}
	}
	return r + 1
}

func (o *order) atom(s *sys, n string) {
	x := ineq{t: map[string]int64{n: 1}}
	switch v := o.atoms[n].(type) {
	case *Sym:
		if v.T != nil {
			if b, ok := v.T.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				s.le(x.times(-1))
			}
		}
	case *App:
		switch v.Op {
		case "len", "cap":
			s.le(x.times(-1))
		case "div", "shr":
			k, ok := constInt(v.Args[1])
			if !ok || k <= 0 {
				return
			}
			if v.Op == "shr" {
				if k > 30 {
					return
				}
				k = 1 << uint(k)
			}
			e := o.of(v.Args[0])
			// division rounds to zero, shifting rounds down
			if v.Op == "shr" || s.follows(e.times(-1)) {
				s.le(x.times(k).plus(e, -1))
				s.le(e.plus(x, -k).add(-(k - 1)))
			}
		case "rem":
			k, ok := constInt(v.Args[1])
			if !ok || k <= 0 {
				return
			}
			if s.follows(o.of(v.Args[0]).times(-1)) {
				s.le(x.times(-1))
				s.le(x.add(1 - k))
			}
		case "min", "max":
			m := int64(1)
			if v.Op == "max" {
				m = -1
			}
			var alts []ineq
			for _, a := range v.Args {
				e := o.of(a)
				s.le(x.plus(e, -1).times(m))
				alts = append(alts, e.plus(x, -1).times(m))
			}
			s.or = append(s.or, alts)
		}
	}
}

// elem: the term is an element of the list.
func (o *order) elem(v Val) (Val, bool) {
	if a, ok := isApp(v, "elem"); ok && len(a.Args) == 2 && o.list != "" && a.Args[0].Key() == o.list {
		return a.Args[1], true
	}
	return nil, false
}

// compared: the element at a position of the list stands in the relation to
// the value.
func (o *order) compared(s *sys, at Val, rel string) {
	if o.mode == "probe" {
		if rel == "==" {
			o.at = at
		}
		return
	}
	i := o.of(at)
	less, upto := o.ghost(gLess), o.ghost(gUpto)
	switch o.mode {
	case "sorted":
		switch rel {
		case "<":
			s.le(i.plus(less, -1).add(1))
		case "<=":
			s.le(i.plus(upto, -1).add(1))
		case ">":
			s.le(upto.plus(i, -1))
		case ">=":
			s.le(less.plus(i, -1))
		case "==":
			s.le(less.plus(i, -1))
			s.le(i.plus(upto, -1).add(1))
		case "!=":
			s.or = append(s.or, []ineq{i.plus(less, -1).add(1), upto.plus(i, -1)})
		}
	case "place":
		if rel == "!=" || rel == "<" || rel == ">" {
			s.ne = append(s.ne, i.plus(o.ghost(gPlace), -1))
		}
	}
}

func negRel(r string) string {
	switch r {
	case "<":
		return ">="
	case "<=":
		return ">"
	case ">":
		return "<="
	case ">=":
		return "<"
	case "==":
		return "!="
	}
	return "=="
}
func flipRel(r string) string {
	switch r {
	case "<":
		return ">"
	case "<=":
		return ">="
	case ">":
		return "<"
	case ">=":
		return "<="
	}
	return r
}

// fact adds what a condition says.
func (o *order) fact(s *sys, f Fact) {
	a, ok := f.C.(*App)
	if !ok {
		return
	}
	switch a.Op {
	case "not":
		o.fact(s, Fact{a.Args[0], !f.Truth})
		return
	case "le0", "eq0":
		// an element and the value in a linear form, if they are integers
		c, coef, atom := linOf(a.Args[0])
		if len(coef) == 2 {
			var at Val
			var ke, kv int64
			for k, n := range coef {
				if i, ok := o.elem(atom[k]); ok {
					at, ke = i, n
				} else if k == o.v {
					kv = n
				}
			}
			if at != nil && kv == -ke && (ke == 1 || ke == -1) {
				rel := ""
				switch {
				case a.Op == "eq0" && c == 0:
					rel = "=="
				case a.Op == "le0" && c == 0:
					rel = "<="
				case a.Op == "le0" && c == 1:
					rel = "<"
				}
				if rel != "" {
					if ke == -1 {
						rel = flipRel(rel)
					}
					if !f.Truth {
						rel = negRel(rel)
					}
					o.compared(s, at, rel)
					return
				}
			}
		}
		e := o.of(a.Args[0])
		switch {
		case a.Op == "le0" && f.Truth:
			s.le(e)
		case a.Op == "le0":
			s.le(e.times(-1).add(1))
		case f.Truth:
			s.eq(e)
		default:
			s.ne = append(s.ne, e)
		}
		return
	}
	rel := ""
	switch a.Op {
	case "eqv", "str==", "op==":
		rel = "=="
	case "op!=":
		rel = "!="
	case "op<", "f<", "str<":
		rel = "<"
	case "op<=", "f<=", "str<=":
		rel = "<="
	case "op>", "str>":
		rel = ">"
	case "op>=", "str>=":
		rel = ">="
	}
	if rel == "" || len(a.Args) != 2 {
		return
	}
	if !f.Truth {
		rel = negRel(rel)
	}
	if at, ok := o.elem(a.Args[0]); ok && a.Args[1].Key() == o.v {
		o.compared(s, at, rel)
	}
	if at, ok := o.elem(a.Args[1]); ok && a.Args[0].Key() == o.v {
		o.compared(s, at, flipRel(rel))
	}
}

// system of the facts and of what is known in general.
func (o *order) system(facts []Fact, more ...ineq) *sys {
	s := &sys{o: o}
	for _, f := range facts {
		o.fact(s, f)
	}
	s.cs = append(s.cs, more...)
	if o.mode != "" {
		n := o.of(o.size)
		switch o.mode {
		case "sorted":
			less, upto := o.ghost(gLess), o.ghost(gUpto)
			s.le(less.times(-1))
			s.le(less.plus(upto, -1))
			s.le(upto.plus(n, -1))
		case "place":
			p := o.ghost(gPlace)
			s.le(p.times(-1))
			s.le(p.plus(n, -1).add(1))
		}
	}
	o.about(s)
	return s
}

// loops finds the invariants of the loops among the events, given what is
// known before.
func (o *order) loops(evs []*Event, before []ineq) []ineq {
	known := append([]ineq{}, before...)
	for _, e := range evs {
		if e.Loop != nil && e.Loop.Done {
			known = append(known, o.invariants(e.Loop, known)...)
		}
	}
	return known[len(before):]
}

// place is a quantity of a loop: before it, in an iteration, and behind each of
// the ways through the loop's body.
type place struct {
	init, at ineq
	next     []ineq
}

// places of a loop are the quantities that it changes, and those that it is
// compared with.
func (o *order) places(l *LoopSum) (ps, refs []place) {
	keys := make([]string, 0, len(l.Havoc))
	for k := range l.Havoc {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	seen := map[string]bool{}
	for _, k := range keys {
		h := l.Havoc[k]
		if h.At == nil || h.Init == nil || seen[h.At.Key()] || !strings.HasPrefix(k, "#pos:") && (!integral(h.At) || !integral(h.Init)) {
			continue
		}
		p := place{init: o.of(h.Init), at: o.of(h.At)}
		switch {
		case h.Step != nil:
			for range l.Iters {
				p.next = append(p.next, p.at.plus(o.of(h.Step), 1))
			}
		case len(h.Next) == len(l.Iters):
			for _, n := range h.Next {
				if n == nil || !strings.HasPrefix(k, "#pos:") && !integral(n) {
					p.next = nil
					break
				}
				p.next = append(p.next, o.of(n))
			}
			if len(p.next) != len(l.Iters) {
				continue
			}
		default:
			continue
		}
		seen[h.At.Key()] = true
		ps = append(ps, p)
	}
	if l.Count != nil && !seen[l.Count.Key()] { // the iterations themselves
		seen[l.Count.Key()] = true
		p := place{init: ineq{t: map[string]int64{}}, at: o.of(l.Count)}
		for range l.Iters {
			p.next = append(p.next, p.at.add(1))
		}
		ps = append(ps, p)
	}
	same := func(e ineq) place {
		p := place{init: e, at: e}
		for range l.Iters {
			p.next = append(p.next, e)
		}
		return p
	}
	refs = []place{same(ineq{t: map[string]int64{}})}
	if o.size != nil {
		refs = append(refs, same(o.of(o.size)))
	}
	switch o.mode {
	case "sorted":
		refs = append(refs, same(o.ghost(gLess)), same(o.ghost(gUpto)))
	case "place":
		refs = append(refs, same(o.ghost(gPlace)))
	}
	// quantities that the loop is compared with
	for _, it := range l.Iters {
		for _, f := range it.Facts {
			a, ok := f.C.(*App)
			if !ok || a.Op != "le0" {
				continue
			}
			_, coef, atom := linOf(a.Args[0])
			if len(coef) > 2 { // with several quantities together
				rest := ineq{t: map[string]int64{}}
				own := int64(0)
				for k, n := range coef {
					if older(atom[k], l.Count.ID) {
						rest.t[k] = n
						o.atoms[k] = atom[k]
					} else if own != 0 || n != 1 && n != -1 {
						own = 2
					} else {
						own = n
					}
				}
				if own == 1 {
					rest = rest.times(-1)
				}
				if (own == 1 || own == -1) && !seen[rest.key()] {
					seen[rest.key()] = true
					refs = append(refs, same(rest))
				}
			}
			for k := range coef {
				if y, ok := atom[k].(*Sym); ok && !seen[k] && y.ID < l.Count.ID {
					seen[k] = true
					refs = append(refs, same(o.of(y)))
				}
				if y, ok := atom[k].(*App); ok && !seen[k] && (y.Op == "len" || o.any) && older(y, l.Count.ID) {
					seen[k] = true
					refs = append(refs, same(o.of(y)))
				}
			}
		}
	}
	return ps, refs
}

// ends: there is a quantity that every iteration of the loop decreases, and
// which is bounded.
func (o *order) ends(l *LoopSum, known []ineq) bool {
	ps, refs := o.places(l)
	all := append(append([]place{}, ps...), refs...)
	var ss []*sys
	for _, it := range l.Iters {
		inner := o.loopsUnder(it, known)
		ss = append(ss, o.system(it.End.factList(), append(append([]ineq{}, known...), inner...)...))
	}
	for i, x := range all {
		for j, y := range all {
			if i == j || i >= len(ps) && j >= len(ps) {
				continue
			}
			m := x.at.plus(y.at, -1)
			ok := true
			for k, s := range ss {
				if s.impossible(splitDepth) {
					continue
				}
				next := x.next[k].plus(y.next[k], -1)
				if ok = s.entails(m.times(-1).add(-1)) && s.entails(next.plus(m, -1).add(1)); !ok {
					break
				}
			}
			if ok {
				return true
			}
		}
	}
	return len(ss) == 0
}

// invariants x - y <= k that hold initially and are kept by every iteration.
func (o *order) invariants(l *LoopSum, before []ineq) []ineq {
	if v, ok := o.inv[l]; ok {
		return v
	}
	ps, refs := o.places(l)
	type cand struct{ init, at ineq }
	var cands []cand
	var next [][]ineq
	base := o.system(factsSince(l.Base, 0), before...)
	consider := func(x, y place) {
		for k := int64(-1); k <= 1; k++ {
			i := x.init.plus(y.init, -1).add(-k)
			if !base.entails(i) {
				continue
			}
			var ns []ineq
			for j := range l.Iters {
				ns = append(ns, x.next[j].plus(y.next[j], -1).add(-k))
			}
			cands = append(cands, cand{i, x.at.plus(y.at, -1).add(-k)})
			next = append(next, ns)
		}
	}
	equal := func(x, y place) {
		// x - y keeps its initial value
		d := x.init.plus(y.init, -1)
		for _, m := range []int64{1, -1} {
			var ns []ineq
			for j := range l.Iters {
				ns = append(ns, x.next[j].plus(y.next[j], -1).plus(d, -1).times(m))
			}
			cands = append(cands, cand{ineq{}, x.at.plus(y.at, -1).plus(d, -1).times(m)})
			next = append(next, ns)
		}
	}
	for i, p := range ps {
		for _, r := range refs {
			consider(p, r)
			consider(r, p)
		}
		for j, r := range ps {
			if i != j {
				consider(p, r)
			}
			if i < j {
				equal(p, r)
				sum := place{init: p.init.plus(r.init, 1), at: p.at.plus(r.at, 1)}
				for k := range l.Iters {
					sum.next = append(sum.next, p.next[k].plus(r.next[k], 1))
				}
				for _, y := range refs {
					consider(sum, y)
					consider(y, sum)
				}
			}
		}
	}
	alive := make([]bool, len(cands))
	for i := range alive {
		alive[i] = true
	}
	current := func() (out []ineq) {
		for i, c := range cands {
			if alive[i] {
				out = append(out, c.at)
			}
		}
		return
	}
	for changed := true; changed; {
		changed = false
		hyp := append(append([]ineq{}, before...), current()...)
		for j, it := range l.Iters {
			inner := o.loopsUnder(it, hyp)
			s := o.system(it.End.factList(), append(append([]ineq{}, hyp...), inner...)...)
			if s.impossible(splitDepth) {
				continue
			}
			for i := range cands {
				if alive[i] {
					t := s.clone()
					t.le(next[i][j].times(-1).add(1))
					o.about(t)
					if !t.impossible(splitDepth) {
						alive[i] = false
						changed = true
					}
				}
			}
		}
	}
	o.inv[l] = current()
	return o.inv[l]
}

// loopsUnder: the invariants of loops within an iteration depend on what is
// assumed of it.
func (o *order) loopsUnder(it *IterPath, hyp []ineq) []ineq {
	for _, e := range it.Events {
		if e.Loop != nil {
			delete(o.inv, e.Loop)
		}
	}
	return o.loops(it.Events, hyp)
}

func integral(v Val) bool {
	switch x := v.(type) {
	case *Const:
		_, ok := constInt(x)
		return ok
	case *Lin:
		return true
	case *Sym:
		return x.T != nil && isInteger(x.T)
	case *App:
		return x.T != nil && isInteger(x.T) || x.Op == "len"
	}
	return false
}

// each calls f for every event of a path, with the system of what is known
// when it happens.
func (o *order) each(q *Path, pre []ineq, f func(e *Event, s *sys)) {
	var walk func(evs []*Event, known []ineq)
	walk = func(evs []*Event, known []ineq) {
		for _, e := range evs {
			if e.Loop != nil && e.Loop.Done {
				inv := o.invariants(e.Loop, known)
				inside := append(append([]ineq{}, known...), inv...)
				for _, it := range e.Loop.Iters {
					walk(it.Events, inside)
				}
				known = inside
			}
			f(e, o.system(factsSince(e.facts, 0), known...))
		}
	}
	walk(q.Ev, pre)
}

// end is what is known at the end of a path.
func (o *order) end(q *Path, pre []ineq) *sys {
	return o.system(q.St.factList(), append(append([]ineq{}, pre...), o.loops(q.Ev, pre)...)...)
}

// older: the value doesn't depend on symbols that are as new as id.
func older(v Val, id int) bool {
	switch x := v.(type) {
	case *Const:
		return true
	case *Sym:
		return x.ID < id
	case *Ptr:
		return x.O.ID < id && x.Path == ""
	case *App:
		for _, a := range x.Args {
			if !older(a, id) {
				return false
			}
		}
		return true
	case *Lin:
		for _, a := range x.Atom {
			if !older(a, id) {
				return false
			}
		}
		return true
	}
	return false
}
