package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is an abstract effect. A path's effects are a sequence of events; the
// effects of a loop are one "loop" event that holds the effects of its
// iterations (a regular expression over events).
type Event struct {
	facts *factNode // known at the event
	Out   []Val     // what has been put into the variables a function was given
	Kind  string
	Name  string // callee or operation name
	Pos   token.Pos
	Fn    *ssa.Function
	Obj   Val   // object operated on (stream, channel, mutex, map ...)
	Args  []Val // operation specific
	Res   []Val
	Err   Val // the error result, if any
	At    Val // stream position before
	Seq   *Seq
	Loop  *LoopSum
	Loc   string // location for load/store
	Sub   string // extra
	T     types.Type
}

func (e *Event) String() string {
	var b strings.Builder
	b.WriteString(e.Kind)
	if e.Name != "" {
		b.WriteString(" " + e.Name)
	}
	if e.Obj != nil {
		b.WriteString(" obj=" + e.Obj.Key())
	}
	if e.Loc != "" {
		b.WriteString(" loc=" + e.Loc)
	}
	if e.At != nil {
		b.WriteString(" at=" + e.At.Key())
	}
	for _, a := range e.Args {
		if a != nil {
			b.WriteString(" arg=" + a.Key())
		}
	}
	if e.Seq != nil {
		b.WriteString(" " + e.Seq.Key())
	}
	if e.Err != nil {
		b.WriteString(" err=" + e.Err.Key())
	}
	if e.Loop != nil {
		b.WriteString(" {")
		for i, it := range e.Loop.Iters {
			if i > 0 {
				b.WriteString(" | ")
			}
			for _, x := range it.Events {
				b.WriteString(x.String() + "; ")
			}
		}
		b.WriteString("}*")
	}
	return b.String()
}

// LoopSum summarises a loop.
type LoopSum struct {
	ID     int
	Fn     *ssa.Function
	Header *ssa.BasicBlock
	Pos    token.Pos
	Count  *Sym      // number of completed iterations
	Base   *factNode // known before the loop
	Done   bool      // all of the iterations are known
	Iters  []*IterPath
	Havoc  map[string]*HavocInfo // by location or phi key
}
type HavocInfo struct {
	Init Val
	At   Val // value at the beginning of an iteration
	Next []Val
	Step Val // constant step if At is linear in Count
}
type IterPath struct {
	Events []*Event
	Facts  []Fact
	End    *State // state at the end of the iteration
}

type Fact struct {
	C     Val
	Truth bool
}

func (f Fact) String() string {
	if f.Truth {
		return f.C.Key()
	}
	return "!" + f.C.Key()
}

type evNode struct {
	e    *Event
	prev *evNode
	n    int
}
type factNode struct {
	f    Fact
	prev *factNode
	n    int
}

// State of an abstract execution.
type State struct {
	in    *Interp
	heap  map[string]Val
	tr    *evNode
	facts *factNode
}

func (s *State) clone() *State {
	h := make(map[string]Val, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{s.in, h, s.tr, s.facts}
}
func (s *State) emit(e *Event) *Event {
	n := 0
	if s.tr != nil {
		n = s.tr.n
	}
	if e.facts == nil {
		e.facts = s.facts
	}
	s.tr = &evNode{e, s.tr, n + 1}
	return e
}
func (s *State) events() []*Event { return eventsSince(s.tr, 0) }
func eventsSince(t *evNode, n int) []*Event {
	var out []*Event
	for ; t != nil && t.n > n; t = t.prev {
		out = append(out, t.e)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}
func (s *State) trLen() int {
	if s.tr == nil {
		return 0
	}
	return s.tr.n
}
func (s *State) factLen() int {
	if s.facts == nil {
		return 0
	}
	return s.facts.n
}
func (s *State) factList() []Fact { return factsSince(s.facts, 0) }
func factsSince(t *factNode, n int) []Fact {
	var out []Fact
	for ; t != nil && t.n > n; t = t.prev {
		out = append(out, t.f)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// hasFact: the condition itself is known.
func (s *State) hasFact(c Val, truth bool) bool {
	k := c.Key()
	for f := s.facts; f != nil; f = f.prev {
		if f.f.Truth == truth && f.f.C.Key() == k {
			return true
		}
	}
	return false
}

func (s *State) addFact(c Val, truth bool) {
	if a, ok := isApp(c, "not"); ok {
		s.addFact(a.Args[0], !truth)
		return
	}
	if a, ok := isApp(c, "le0"); ok && !truth {
		// !(x<=0)  =>  -x+1 <= 0
		c, truth = le0(addc(mulc(a.Args[0], -1), 1)), true
	}
	if _, ok := c.(*Const); ok {
		return
	}
	n := 0
	if s.facts != nil {
		n = s.facts.n
	}
	s.facts = &factNode{Fact{c, truth}, s.facts, n + 1}
	// consequences
	if a, ok := isApp(c, "eq0"); ok && !truth { // below or above if it isn't equal
		for _, h := range []Val{a.Args[0], mulc(a.Args[0], -1)} {
			if s.hasFact(le0(h), true) {
				s.addFact(le0(addc(h, 1)), true)
			}
		}
	}
	if a, ok := isApp(c, "le0"); ok && truth && s.hasFact(eqInt(a.Args[0], Int(0)), false) {
		s.addFact(le0(addc(a.Args[0], 1)), true)
	}
	if a, ok := isApp(c, "is"); ok && truth {
		s.addFact(app("isnil", a.Args[0]), false)
	}
	if a, ok := isApp(c, "maphas"); ok && !truth {
		s.addFact(eqInt(app("len", app("mapget", a.Args...)), Int(0)), true)
	}
}

// nonneg tells whether the value is surely >= 0.
func nonneg(v Val) bool {
	switch x := v.(type) {
	case *Const:
		n, ok := constInt(v)
		return ok && n >= 0
	case *Lin:
		if x.C < 0 {
			return false
		}
		for k, n := range x.Coef {
			if n < 0 || !nonneg(x.Atom[k]) {
				return false
			}
		}
		return true
	case *App:
		switch x.Op {
		case "len", "cap", "byte", "decode", "in", "maplen", "trunc", "and":
			if x.Op == "trunc" && x.T != nil && !isUnsigned(x.T) {
				return false
			}
			return true
		case "mul", "div", "shr":
			return nonneg(x.Args[0]) && nonneg(x.Args[1])
		}
		return x.T != nil && isInteger(x.T) && isUnsigned(x.T)
	case *Sym:
		return x.T != nil && isInteger(x.T) && isUnsigned(x.T)
	}
	return false
}
func nonpos(v Val) bool { return nonneg(mulc(v, -1)) }

// decide evaluates a condition under the facts: 1 true, -1 false, 0 unknown.
func (s *State) decide(c Val) int {
	if b, ok := constBool(c); ok {
		if b {
			return 1
		}
		return -1
	}
	if a, ok := isApp(c, "not"); ok {
		return -s.decide(a.Args[0])
	}
	k := c.Key()
	a, _ := c.(*App)
	if a != nil && a.Op == "le0" {
		if nonpos(a.Args[0]) {
			return 1
		}
		if nonneg(addc(a.Args[0], -1)) {
			return -1
		}
	}
	if a != nil && a.Op == "eq0" {
		if nonneg(addc(a.Args[0], -1)) || nonpos(addc(a.Args[0], 1)) {
			return -1
		}
	}
	if a != nil && a.Op == "isnil" {
		switch s.nilness(a.Args[0]) {
		case 1:
			return 1
		case -1:
			return -1
		}
	}
	for f := s.facts; f != nil; f = f.prev {
		if f.f.C.Key() == k {
			if f.f.Truth {
				return 1
			}
			return -1
		}
		fa, _ := f.f.C.(*App)
		if fa == nil || a == nil {
			continue
		}
		switch a.Op {
		case "le0":
			g := a.Args[0]
			if fa.Op == "le0" && f.f.Truth {
				// fact: h<=0. goal g<=0 if g-h<=0; !goal if -g+1<=0, i.e. -g+1-h<=0
				h := fa.Args[0]
				if nonpos(sub(g, h)) {
					return 1
				}
				if nonpos(sub(addc(mulc(g, -1), 1), h)) {
					return -1
				}
			}
			if fa.Op == "eq0" && f.f.Truth {
				h := fa.Args[0]
				for _, hh := range []Val{h, mulc(h, -1)} {
					if nonpos(sub(g, hh)) {
						return 1
					}
					if nonpos(sub(addc(mulc(g, -1), 1), hh)) {
						return -1
					}
				}
			}
			if fa.Op == "eq0" && !f.f.Truth {
				// x != 0 and x >= 0  =>  x >= 1
				h := fa.Args[0]
				if nonneg(h) {
					hh := addc(mulc(h, -1), 1) // 1-h <= 0
					if nonpos(sub(g, hh)) {
						return 1
					}
					if nonpos(sub(addc(mulc(g, -1), 1), hh)) {
						return -1
					}
				}
			}
		case "eq0":
			g := a.Args[0]
			if fa.Op == "eq0" && f.f.Truth {
				if n, ok := constInt(sub(g, fa.Args[0])); ok && n != 0 {
					return -1
				}
				if n, ok := constInt(add(g, fa.Args[0])); ok && n != 0 {
					return -1
				}
			}
			if fa.Op == "le0" && f.f.Truth {
				h := fa.Args[0]
				// h<=0; g = h - k (k>0) => g<0 ; g = -h + k => g>0
				if nonpos(addc(sub(g, h), 1)) || nonpos(addc(sub(mulc(g, -1), h), 1)) {
					return -1
				}
			}
		}
	}
	if a != nil && a.Op == "eq0" && (nonneg(a.Args[0]) && s.proveLe(a.Args[0], 3) || nonpos(a.Args[0]) && s.proveLe(mulc(a.Args[0], -1), 3)) {
		return 1 // between 0 and 0
	}
	if a != nil && a.Op == "le0" {
		if s.proveLe(a.Args[0], 3) {
			return 1
		}
		if s.proveLe(addc(mulc(a.Args[0], -1), 1), 3) {
			return -1
		}
	}
	if a != nil && a.Op == "eq0" {
		// g<=0 and -g<=0 => g==0
		g := a.Args[0]
		if s.decideLe(g) == 1 && s.decideLe(mulc(g, -1)) == 1 {
			return 1
		}
		if s.decideLe(g) == -1 || s.decideLe(mulc(g, -1)) == -1 {
			return -1
		}
	}
	if a != nil {
		switch a.Op {
		case "eqv":
			// values of nil-ness
		case "is": // errors.Is(err, target)
			if s.decide(app("isnil", a.Args[0])) == 1 {
				return -1
			}
		case "le0", "eq0":
			if s.in.cfg.Order != nil {
				return s.in.cfg.Order.decide(s, a)
			}
		}
	}
	return 0
}

// proveLe proves g<=0 by adding up to depth of the facts, each eliminating a
// term of g.
func (s *State) proveLe(g Val, depth int) bool {
	if nonpos(g) {
		return true
	}
	if depth == 0 {
		return false
	}
	_, coef, atom := linOf(g)
	bad := ""
	for k, n := range coef {
		if (n > 0 || !nonneg(atom[k])) && (bad == "" || k < bad) {
			bad = k
		}
	}
	if bad == "" {
		return false
	}
	// a quotient is the dividend by the divisor but for the remainder
	for _, k := range sortedKeys(atom) {
		q, ok := isApp(atom[k], "div")
		if !ok || !nonneg(q.Args[0]) {
			continue
		}
		if c, ok := constInt(q.Args[1]); ok && c > 0 && c <= 1<<20 && abs64(coef[k]) <= 1<<20 {
			x := mulc(q.Args[0], coef[k]) // c*coef*q is between this and this less coef*(c-1)
			if coef[k] < 0 {
				x = addc(x, -coef[k]*(c-1))
			}
			if s.proveLe(add(sub(mulc(g, c), mulc(q, c*coef[k])), x), depth-1) {
				return true
			}
		}
	}
	n := coef[bad]
	try := func(h Val) bool {
		_, hc, _ := linOf(h)
		m := hc[bad]
		if m == 0 || (m > 0) != (n > 0) {
			return false
		}
		a, b := abs64(m), abs64(n)
		if a > 1<<20 || b > 1<<20 {
			return false
		}
		return s.proveLe(sub(mulc(g, a), mulc(h, b)), depth-1)
	}
	for f := s.facts; f != nil; f = f.prev {
		fa, _ := f.f.C.(*App)
		if fa == nil {
			continue
		}
		h := fa.Args
		switch {
		case fa.Op == "le0" && f.f.Truth:
			if try(h[0]) {
				return true
			}
		case fa.Op == "eq0" && f.f.Truth:
			if try(h[0]) || try(mulc(h[0], -1)) {
				return true
			}
		case fa.Op == "eq0" && nonneg(h[0]):
			if try(addc(mulc(h[0], -1), 1)) {
				return true
			}
		}
	}
	return false
}
func abs64(n int64) int64 {
	if n < 0 {
		return -n
	}
	return n
}

// simp drops the terms that are known to be zero.
func (s *State) simp(v Val) Val {
	l, ok := v.(*Lin)
	if !ok {
		if _, isC := v.(*Const); !isC && s.decide(eqInt(v, Int(0))) == 1 {
			return Int(0)
		}
		return v
	}
	for _, k := range l.names {
		if s.decide(eqInt(l.Atom[k], Int(0))) == 1 {
			v = sub(v, mulc(l.Atom[k], l.Coef[k]))
		}
	}
	return v
}
func (s *State) decideLe(g Val) int {
	c := le0(g)
	return s.decide(c)
}

// nilness: 1 surely nil, -1 surely not nil, 0 unknown (structure only).
func (s *State) nilness(v Val) int {
	switch x := v.(type) {
	case *Const:
		if x.V == nil {
			return 1
		}
		return -1
	case *Ptr, *Iface, *Closure, *Agg:
		return -1
	case *Slice:
		return -1
	case *App:
		switch x.Op {
		case "errorf", "newerr", "nonnil":
			return -1
		}
	case *Sym:
		if strings.HasPrefix(x.Name, "!") { // known non-nil
			return -1
		}
	}
	return 0
}

// known: 1 nil, -1 non-nil, 0 unknown under the facts
func (s *State) isNil(v Val) int { return s.decide(app("isnil", v)) }

// ---- heap

func (s *State) set(loc string, v Val) { s.heap[loc] = v }

// dropUnder removes all the locations strictly under the prefix.
func (s *State) dropUnder(prefix string) {
	for k := range s.heap {
		if strings.HasPrefix(k, prefix) && len(k) > len(prefix) && (k[len(prefix)] == '.' || k[len(prefix)] == '[' || k[len(prefix)] == '#') {
			delete(s.heap, k)
		}
	}
}

func fieldPath(st *types.Struct, i int) string { return "." + st.Field(i).Name() }

// load reads a location of the given type.
func (s *State) load(p *Ptr, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if isModelStruct(t) {
			break
		}
		fs := make([]Val, u.NumFields())
		for i := range fs {
			fs[i] = s.load(mkPtr(p.O, p.Path+fieldPath(u, i)), u.Field(i).Type())
		}
		return mkAgg(t, fs)
	case *types.Array:
		return s.content(p, Int(0), Int(u.Len()))
	}
	k := p.loc()
	if v, ok := s.heap[k]; ok {
		return v
	}
	// an element covered by the base content of its array?
	if i := strings.LastIndexByte(p.Path, '['); i >= 0 {
		return s.elemPath(p, i, t)
	}
	v := s.initial(p, t)
	s.heap[k] = v
	return v
}

// isModelStruct: structs that are opaque to the analysis (sync.Mutex etc).
func isModelStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	pk := n.Obj().Pkg()
	return pk != nil && !isModule(pk)
}

func (s *State) initial(p *Ptr, t types.Type) Val {
	if p.O.Kind == "alloc" || p.O.Kind == "arr" {
		return zeroVal(t)
	}
	// lazily created symbol, the same one for every path
	return s.in.lazy(p, t)
}

func zeroVal(t types.Type) Val {
	if t == nil { // of an unknown type: the zero of none
		return app("zero")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsNumeric != 0:
			return Int(0)
		}
	case *types.Struct:
		fs := make([]Val, u.NumFields())
		for i := range fs {
			fs[i] = zeroVal(u.Field(i).Type())
		}
		return mkAgg(t, fs)
	case *types.Array:
		return mkSeq(Seg{Kind: "zero", Len: Int(u.Len())})
	}
	return Nil
}

// store writes a value of the given type.
func (s *State) store(p *Ptr, v Val, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if a, ok := v.(*Agg); ok && !isModelStruct(t) {
			for i := 0; i < u.NumFields(); i++ {
				s.store(mkPtr(p.O, p.Path+fieldPath(u, i)), a.Fields[i], u.Field(i).Type())
			}
			return
		}
		if !isModelStruct(t) {
			for i := 0; i < u.NumFields(); i++ {
				s.store(mkPtr(p.O, p.Path+fieldPath(u, i)), appT(u.Field(i).Type(), "field:"+u.Field(i).Name(), v), u.Field(i).Type())
			}
			return
		}
	case *types.Array:
		s.setContent(p, asSeq(v, Int(u.Len())))
		return
	}
	if i := strings.LastIndexByte(p.Path, '['); i >= 0 {
		s.invalidateElems(p, v)
	}
	s.heap[p.loc()] = v
}

func asSeq(v Val, n Val) *Seq {
	if q, ok := v.(*Seq); ok {
		return q
	}
	return mkSeq(Seg{Kind: "sub", Len: n, V: v, Off: Int(0)})
}

func (s *State) setContent(p *Ptr, q *Seq) {
	s.dropUnder(p.loc())
	s.heap[p.loc()+"#seq"] = q
}

// elemLoc builds the pointer to an element.
func elemPtr(base *Ptr, idx Val) *Ptr {
	p := mkPtr(base.O, base.Path+"["+idx.Key()+"]")
	elemIdx[p.Path] = idx
	return p
}

// index values of element paths (they're canonical strings of immutable values)
var elemIdx = map[string]Val{}

func splitElem(p *Ptr, i int) (base *Ptr, idx Val, rest string) {
	j := matchBracket(p.Path, i)
	base = mkPtr(p.O, p.Path[:i])
	idx = elemIdx[p.Path[:j+1]]
	return base, idx, p.Path[j+1:]
}
func matchBracket(s string, i int) int {
	d := 0
	for j := i; j < len(s); j++ {
		switch s[j] {
		case '[':
			d++
		case ']':
			d--
			if d == 0 {
				return j
			}
		case '"':
			for j++; j < len(s) && s[j] != '"'; j++ {
				if s[j] == '\\' {
					j++
				}
			}
		}
	}
	return len(s) - 1
}
func lastElem(path string) int {
	// the last top-level '['
	last := -1
	for i := 0; i < len(path); i++ {
		if path[i] == '[' {
			last = i
			i = matchBracket(path, i)
		}
	}
	return last
}

// elemPath reads a location inside an array element which has no entry itself.
func (s *State) elemPath(p *Ptr, _ int, t types.Type) Val {
	i := lastElem(p.Path)
	base, idx, rest := splitElem(p, i)
	if idx == nil {
		return s.in.lazy(p, t)
	}
	if s.mayAliasElem(base, idx, rest) {
		return s.in.fresh("elem?", t)
	}
	q, ok := s.heap[base.loc()+"#seq"].(*Seq)
	if !ok {
		if base.O.Kind == "alloc" || base.O.Kind == "arr" {
			return zeroVal(t)
		}
		return s.in.lazy(p, t)
	}
	e := s.seqElem(q, idx, t)
	if rest == "" {
		return e
	}
	// project fields
	return project(e, rest, t)
}

func project(e Val, rest string, t types.Type) Val {
	for rest != "" {
		if rest[0] != '.' {
			return appT(t, "proj:"+rest, e)
		}
		j := 1
		for j < len(rest) && rest[j] != '.' && rest[j] != '[' {
			j++
		}
		name := rest[1:j]
		rest = rest[j:]
		if a, ok := e.(*Agg); ok {
			found := false
			for i := 0; i < a.T.NumFields(); i++ {
				if a.T.Field(i).Name() == name {
					e, found = a.Fields[i], true
				}
			}
			if found {
				continue
			}
		}
		if isNilConst(e) {
			e = zeroVal(t)
			continue
		}
		ft := t
		if rest != "" {
			ft = nil
		}
		e = appT(ft, "field:"+name, e)
	}
	return e
}

// mayAliasElem: is there a point store to another index that may be the same?
func (s *State) mayAliasElem(base *Ptr, idx Val, rest string) bool {
	pre := base.loc() + "["
	for k := range s.heap {
		if !strings.HasPrefix(k, pre) || strings.Contains(k, "#") {
			continue
		}
		path := k[len(mkPtr(base.O, "").loc()):]
		j := matchBracket(path, len(base.Path))
		oi := elemIdx[path[:j+1]]
		if oi == nil {
			return true
		}
		if oi.Key() == idx.Key() {
			continue
		}
		if s.decide(eqInt(oi, idx)) == -1 {
			continue
		}
		if rest != "" && j+1 < len(path) && path[j+1:] != rest && !strings.HasPrefix(rest, path[j+1:]) && !strings.HasPrefix(path[j+1:], rest) {
			continue
		}
		return true
	}
	return false
}

// invalidateElems drops the entries of elements that may be the stored one.
func (s *State) invalidateElems(p *Ptr, v Val) {
	i := lastElem(p.Path)
	base, idx, rest := splitElem(p, i)
	pre := base.loc() + "["
	plen := len(mkPtr(base.O, "").loc())
	for k := range s.heap {
		if !strings.HasPrefix(k, pre) {
			continue
		}
		path := k[plen:]
		j := matchBracket(path, len(base.Path))
		oi := elemIdx[path[:j+1]]
		if oi != nil && idx != nil {
			if oi.Key() == idx.Key() || s.decide(eqInt(oi, idx)) == -1 {
				continue
			}
		}
		if j+1 < len(path) && path[j+1:] != rest {
			continue
		}
		if oi != nil && idx != nil && v != nil && s.heap[k] != nil {
			same := func(from, to Val) bool {
				if _, ok := from.(*Sym); !ok {
					return false
				}
				put := func(v Val) Val {
					return subst(v, func(x Val) Val {
						if x.Key() == from.Key() {
							return to
						}
						return nil
					})
				}
				return put(s.heap[k]).Key() == put(v).Key()
			}
			if same(oi, idx) || same(idx, oi) {
				continue // the same if the indexes are
			}
		}
		s.heap[k] = s.in.fresh("elem?", nil)
	}
}

// seqElem reads an element of a sequence.
func (s *State) seqElem(q *Seq, idx Val, t types.Type) Val {
	start := Int(0)
	for _, g := range q.Segs {
		off := sub(idx, start)
		if s.decide(le0(mulc(off, -1))) == 1 && (s.decide(le0(addc(sub(off, g.Len), 1))) == 1 || len(q.Segs) == 1) {
			return s.segElem(g, off, t)
		}
		start = add(start, g.Len)
	}
	if len(q.Segs) == 1 {
		return s.segElem(q.Segs[0], idx, t)
	}
	if len(q.Segs) == 0 {
		return s.in.fresh("oob", t)
	}
	return appT(t, "elem", q, idx)
}

func (s *State) segElem(g Seg, off Val, t types.Type) Val {
	switch g.Kind {
	case "zero":
		if t == nil {
			return Int(0)
		}
		return zeroVal(t)
	case "val":
		return g.V
	case "be", "le":
		if n, ok := constInt(off); ok && g.W > 0 {
			if _, isSeq := g.V.(*Seq); !isSeq {
				j := int(n)
				if g.Kind == "be" {
					j = g.W - 1 - j
				}
				return byteOf(g.V, j)
			}
		}
		return appT(t, "encbyte", g.V, off)
	case "in":
		if g.W > 1 { // elements decoded from W bytes each
			return s.inElem(g, off)
		}
		return app("in", g.V, add(g.Off, off))
	case "sub":
		return appT(t, "elem", g.V, add(g.Off, off))
	case "str":
		return appT(t, "elem", g.V, off)
	}
	return s.in.fresh("elem", t)
}
func (s *State) inElem(g Seg, off Val) Val {
	pos := add(g.Off, mulc(off, int64(g.W)))
	bs := make([]Val, g.W)
	for i := range bs {
		bs[i] = app("in", g.V, addc(pos, int64(i)))
	}
	return decode(bs)
}

// content returns the sequence of the elements [off, off+n) of an array.
func (s *State) content(base *Ptr, off, n Val) *Seq {
	q, ok := s.heap[base.loc()+"#seq"].(*Seq)
	var stores []Val
	plen := len(mkPtr(base.O, "").loc())
	pre := base.loc() + "["
	partial := false
	for k := range s.heap {
		if strings.HasPrefix(k, pre) {
			path := k[plen:]
			j := matchBracket(path, len(base.Path))
			oi := elemIdx[path[:j+1]]
			if oi == nil {
				partial = true
				continue
			}
			if j+1 < len(path) {
				partial = true
			}
			stores = append(stores, oi)
		}
	}
	if !ok {
		if base.O.Kind == "alloc" || base.O.Kind == "arr" {
			q = mkSeq(Seg{Kind: "zero", Len: add(off, n)})
		} else {
			q = mkSeq(Seg{Kind: "sub", Len: add(off, n), V: arrBase(base), Off: Int(0)})
		}
	}
	if !partial && len(stores) > 1 { // those outside don't matter
		var in []Val
		for _, i := range stores {
			rel := sub(i, off)
			if s.decide(le0(mulc(rel, -1))) != -1 && s.decide(le0(addc(sub(rel, n), 1))) != -1 {
				in = append(in, i)
			}
		}
		stores = in
	}
	if len(stores) == 0 {
		return s.window(q, off, n)
	}
	cn, okn := constInt(n)
	var et types.Type
	if partial && base.Path == "" {
		et = elemType(base.O.T)
	}
	if okn && cn <= 256 && (!partial || et != nil) {
		var segs []Seg
		for i := int64(0); i < cn; i++ {
			idx := addc(off, i)
			p := elemPtr(base, idx)
			v, ok := s.heap[p.loc()]
			if et != nil {
				v = s.clone().load(p, et)
			} else if !ok {
				v = s.elemPath(p, 0, anyElem(base))
			}
			segs = append(segs, Seg{Kind: "val", Len: Int(1), V: v})
		}
		return mkSeq(segs...)
	}
	if !partial {
		// Symbolic length with known point stores: split the base around them.
		sort.Slice(stores, func(i, j int) bool { return stores[i].Key() < stores[j].Key() })
		if len(stores) == 1 {
			i := stores[0]
			v := s.heap[elemPtr(base, i).loc()]
			rel := sub(i, off)
			if s.decide(le0(mulc(rel, -1))) == -1 || s.decide(le0(addc(sub(rel, n), 1))) == -1 {
				return s.window(q, off, n) // outside
			}
			if s.decide(le0(mulc(rel, -1))) == 1 {
				split := func() *Seq {
					l := s.window(q, off, rel)
					r := s.window(q, addc(i, 1), addc(sub(n, rel), -1))
					return mkSeq(append(append(append([]Seg{}, l.Segs...), Seg{Kind: "val", Len: Int(1), V: v}), r.Segs...)...)
				}
				if s.decide(le0(addc(sub(rel, n), 1))) == 1 {
					return split() // inside
				}
				// Right behind the window, unless it's inside. What is stored there
				// is the first element behind the window: then the content is that
				// of the window without element i plus that element, in either case.
				if s.decide(le0(sub(rel, n))) == 1 && v.Key() == s.seqElem(q, add(off, n), nil).Key() {
					return split()
				}
			}
		}
	}
	return mkSeq(Seg{Kind: "unk", Len: n, V: s.in.fresh("content", nil)})
}

// elemType is the type of the elements of an array or slice of structs.
// anyElem is the type of the elements of an array, if it's known.
func anyElem(base *Ptr) types.Type {
	if base.Path == "" && base.O.T != nil {
		switch u := base.O.T.Underlying().(type) {
		case *types.Array:
			return u.Elem()
		case *types.Slice:
			return u.Elem()
		}
	}
	return nil
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	var e types.Type
	switch u := t.Underlying().(type) {
	case *types.Array:
		e = u.Elem()
	case *types.Slice:
		e = u.Elem()
	default:
		return nil
	}
	if _, ok := e.Underlying().(*types.Struct); !ok || isModelStruct(e) {
		return nil
	}
	return e
}

// window extracts a part of a sequence.
func (s *State) window(q *Seq, off, n Val) *Seq {
	if cn, ok := constInt(n); ok && cn <= 0 {
		return mkSeq()
	}
	if z, ok := constInt(off); ok && z == 0 && s.decide(eqInt(n, q.length())) == 1 {
		return q
	}
	start := Int(0)
	var out []Seg
	need := n
	pos := off // position we need next
	for i, g := range q.Segs {
		if z, ok := constInt(need); ok && z == 0 {
			break
		}
		end := add(start, g.Len)
		last := i == len(q.Segs)-1
		// does pos lie in [start,end)?
		rel := sub(pos, start)
		inside := s.decide(le0(mulc(rel, -1))) == 1
		before := s.decide(le0(addc(sub(pos, end), 1))) == 1
		if !before && s.decide(le0(sub(end, pos))) == 1 {
			start = end // entirely before
			continue
		}
		// either the window begins in this segment, or it's empty
		fits := s.decide(le0(sub(need, sub(end, pos)))) == 1
		// or it begins at the end of the segment, and takes nothing of it
		whole := !last && s.decide(le0(sub(pos, end))) == 1 && s.decide(le0(sub(sub(end, pos), need))) == 1
		if !(inside && (before || last || fits || whole || len(out) > 0)) && !(last && len(q.Segs) == 1) {
			return mkSeq(Seg{Kind: "unk", Len: n, V: app("window", q, off)})
		}
		avail := sub(end, pos)
		take := need
		if !last {
			if s.decide(le0(sub(need, avail))) == 1 {
				take = need
			} else if s.decide(le0(sub(avail, need))) == 1 {
				take = avail
			} else {
				return mkSeq(Seg{Kind: "unk", Len: n, V: app("window", q, off)})
			}
		}
		out = append(out, cutSeg(s, g, rel, take)...)
		need = sub(need, take)
		pos = add(pos, take)
		start = end
	}
	return mkSeq(out...)
}

func cutSeg(s *State, g Seg, off, n Val) []Seg {
	if z, ok := constInt(off); ok && z == 0 && g.Len.Key() == n.Key() {
		return []Seg{g}
	}
	switch g.Kind {
	case "zero":
		return []Seg{{Kind: "zero", Len: n}}
	case "in":
		w := g.W
		if w < 1 {
			w = 1
		}
		return []Seg{{Kind: "in", Len: n, V: g.V, Off: add(g.Off, mulc(off, int64(w))), W: g.W}}
	case "sub":
		return []Seg{{Kind: "sub", Len: n, V: g.V, Off: add(g.Off, off)}}
	case "be", "le":
		co, ok1 := constInt(off)
		cn, ok2 := constInt(n)
		if ok1 && ok2 {
			var segs []Seg
			for i := co; i < co+cn; i++ {
				segs = append(segs, Seg{Kind: "val", Len: Int(1), V: s.segElem(g, Int(i), nil)})
			}
			return segs
		}
	}
	// a part of a window is a window
	if a, ok := isApp(g.V, "window"); ok && g.Kind == "unk" {
		if q, ok := a.Args[0].(*Seq); ok {
			return s.window(q, add(a.Args[1], off), n).Segs
		}
	}
	return []Seg{{Kind: "unk", Len: n, V: app("cut", mkSeq(g), off)}}
}

func concatSeq(a, b *Seq) *Seq {
	return mkSeq(append(append([]Seg{}, a.Segs...), b.Segs...)...)
}

// ---- bytes

// flatten turns a byte sequence into canonical byte-level segments: constants
// and bytes of values one by one, bulk segments as they are.
func flattenBytes(q *Seq) []Seg {
	var out []Seg
	for _, g := range q.Segs {
		switch g.Kind {
		case "be", "le":
			if _, isSeq := g.V.(*Seq); !isSeq && g.W > 0 {
				for i := 0; i < g.W; i++ {
					j := i
					if g.Kind == "be" {
						j = g.W - 1 - i
					}
					out = append(out, Seg{Kind: "val", Len: Int(1), V: byteOf(g.V, j)})
				}
				continue
			}
		case "zero":
			if n, ok := constInt(g.Len); ok && n <= 64 {
				for i := int64(0); i < n; i++ {
					out = append(out, Seg{Kind: "val", Len: Int(1), V: Int(0)})
				}
				continue
			}
		}
		out = append(out, g)
	}
	return out
}

// ---- maps

type MapState struct {
	Base Val // Nil: empty
	Upd  []MapUpd
	k    string
}
type MapUpd struct {
	K, V Val // V nil: deleted
}

func (m *MapState) Key() string { return m.k }
func mkMap(base Val, upd []MapUpd) *MapState {
	b := "map<" + base.Key()
	for _, u := range upd {
		v := "DEL"
		if u.V != nil {
			v = u.V.Key()
		}
		b += ";" + u.K.Key() + "=" + v
	}
	return &MapState{base, upd, b + ">"}
}

func (s *State) mapOf(m Val) *MapState {
	p := s.in.deref(m)
	if p == nil {
		return mkMap(Nil, nil)
	}
	if v, ok := s.heap[p.loc()+"#map"].(*MapState); ok {
		return v
	}
	if p.O.Kind == "sym" {
		ms := mkMap(app("map0", p), nil)
		s.heap[p.loc()+"#map"] = ms
		return ms
	}
	return mkMap(Nil, nil)
}

// mapGet: value and presence (1, -1, 0 with the condition).
func (s *State) mapGet(m *MapState, k Val, t types.Type) (Val, Val) {
	for i := len(m.Upd) - 1; i >= 0; i-- {
		u := m.Upd[i]
		if u.K.Key() == k.Key() {
			if u.V == nil {
				return zeroVal(t), False
			}
			return u.V, True
		}
		if s.decide(eqVal(u.K, k)) != -1 {
			// ambiguous
			sub := mkMap(m.Base, m.Upd[:i+1])
			return appT(t, "mapget", sub, k), app("maphas", sub, k)
		}
	}
	if isNilConst(m.Base) {
		return zeroVal(t), False
	}
	return appT(t, "mapget", m.Base, k), app("maphas", m.Base, k)
}

func eqVal(a, b Val) Val {
	if a.Key() == b.Key() {
		return True
	}
	_, ca := a.(*Const)
	_, cb := b.(*Const)
	if ca && cb {
		return False
	}
	if a.Key() > b.Key() {
		a, b = b, a
	}
	return app("eqv", a, b)
}

func (s *State) dump() string {
	var ks []string
	for k := range s.heap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "  %s = %s\n", k, s.heap[k].Key())
	}
	return b.String()
}
