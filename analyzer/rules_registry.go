package main

// C20, C22, C23: the registry of namespaces. The list of namespaces is treated
// as a multiset: a formal sum of windows of the list found at the entry and of
// single elements, so that the effect of an operation is the difference of the
// sums, however it's programmed.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C20", "Effect of each operation of the registry on the list and on the names of namespaces, as terms: every name that appears in the list is the one that the namespace had, or one that a complete search of the unchanged list, made while holding the same write lock, has proved free", uniqueRules)
	register("C22", "Effect of each operation of the registry on every path, as the difference of the list and of the settings of every namespace from those at the entry, related to whether the list has been encoded, written to another file and renamed afterwards", savedRules)
	register("C23", "Dataflow of every setting, as terms: requests composed with the operations, constructors and setters composed with getters, on every path", settingRules)
}

type registry struct {
	c        *Ctx
	svc      types.Type // pointer to NamespaceService
	iface    *types.Named
	ns       types.Type // pointer to the implementation of Namespace
	name     leaf
	nameType *types.Named
	list     leaf
	in       *Interp
	s        *Sym
	data     []leaf // the settings of a namespace
	nonzero  map[string]bool
	file     Val // the path of the registry's file
	initList Val
}

func newRegistry(c *Ctx) *registry {
	return newRegistryIn(c, NewInterp(c.w, Config{OpaqueIface: storages, Accesses: true}))
}
func newRegistryIn(c *Ctx, in *Interp) *registry {
	r := &registry{c: c, iface: c.named("domain", "Namespace"), nonzero: map[string]bool{}}
	svc := c.named("domain", "NamespaceService")
	r.nameType = c.named("domain/valueobjects", "NamespaceName")
	r.ns = c.impl("domain", "Namespace")
	if svc == nil || r.iface == nil || r.nameType == nil || r.ns == nil {
		return nil
	}
	r.svc = types.NewPointer(svc)
	var lists, names []leaf
	for _, l := range leaves(svc) {
		if u, ok := l.t.Underlying().(*types.Slice); ok && types.Identical(u.Elem(), r.iface) {
			lists = append(lists, l)
		}
	}
	nst, _ := deptr(r.ns).Underlying().(*types.Struct)
	for i := 0; nst != nil && i < nst.NumFields(); i++ {
		if types.Identical(nst.Field(i).Type(), r.nameType) {
			for _, l := range leaves(r.nameType) {
				names = append(names, leaf{fieldPath(nst, i) + l.path, l.t})
			}
		}
	}
	var ok1, ok2 bool
	r.list, ok1 = only(c, lists, "the field of NamespaceService holding the namespaces")
	r.name, ok2 = only(c, names, "the field of the namespace holding its name")
	if !ok1 || !ok2 {
		return nil
	}
	for _, l := range leaves(deptr(r.ns)) {
		switch u := l.t.Underlying().(type) {
		case *types.Basic, *types.Interface:
			r.data = append(r.data, l)
		case *types.Struct, *types.Chan:
		default:
			_ = u
			r.data = append(r.data, l)
		}
	}
	r.in = in
	r.s = r.in.namedSym("s", r.svc)
	r.initList = r.in.NewState().load(mkPtr(r.in.deref(r.s).O, r.list.path), r.list.t)
	r.invariants()
	return r
}

func (r *registry) args(fn *ssa.Function) []Val {
	args := r.in.args(fn, "")
	args[0] = r.s
	return args
}

func (r *registry) op(name string) (*ssa.Function, []*Path) {
	fn := r.c.meth(r.svc, name)
	if fn == nil {
		return nil, nil
	}
	ps := r.c.run(r.in, fn, r.args(fn), nil, nil)
	var out []*Path
	for _, q := range ps {
		if r.feasible(q) {
			out = append(out, q)
		}
	}
	r.c.ob(len(out) > 0, "operation", fn, token.NoPos, name, "no path of %s can be analysed", name)
	return fn, out
}

// operations are the exported methods of the registry.
func (r *registry) operations() (out []*ssa.Function) {
	ms := types.NewMethodSet(r.svc)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			if fn := r.c.w.method(r.svc, ms.At(i).Obj().Name()); fn != nil && fn.Blocks != nil {
				out = append(out, fn)
			}
		}
	}
	return
}

// invariants finds the settings that are never zero: neither in a namespace
// that is returned by a constructor nor after any method of a namespace.
func (r *registry) invariants() {
	c := r.c
	in := NewInterp(c.w, Config{OpaqueIface: storages, Accesses: true})
	bad, seen := map[string]bool{}, map[string]bool{}
	note := func(q *Path, l leaf, v Val) {
		seen[l.path] = true
		if v == nil || q.St.decide(eqInt(v, Int(0))) != -1 {
			bad[l.path] = true
		}
	}
	var nums []leaf
	for _, l := range r.data {
		if b, ok := l.t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			nums = append(nums, l)
		}
	}
	for _, fn := range c.w.Funcs {
		if fn.Parent() != nil || fn.Synthetic != "" || fn.Blocks == nil || !r.stores(fn) {
			continue
		}
		recv := fn.Signature.Recv()
		for _, q := range c.run(in, fn, in.args(fn, ""), nil, nil) {
			q.each(func(e *Event, st *State, _ int, _ bool) {
				p, _ := unwrap(orNil(e.Obj)).(*Ptr)
				if e.Kind != "store" || p == nil || p.O.Kind == "alloc" {
					return
				}
				for _, l := range nums {
					if p.Path == l.path && len(e.Args) == 1 {
						if o := p.O.T; o != nil && types.Identical(deptr(o), deptr(r.ns)) {
							seen[l.path] = true
							if st.decide(eqInt(e.Args[0], Int(0))) != -1 {
								bad[l.path] = true
							}
						}
					}
				}
			})
			for _, v := range q.Rets {
				p := in.deref(v)
				if recv != nil || p == nil || p.O.Kind != "alloc" || p.Path != "" || p.O.T == nil || !types.Identical(deptr(p.O.T), deptr(r.ns)) {
					continue
				}
				for _, l := range nums {
					note(q, l, in.fieldVal(q.St, p, l))
				}
			}
		}
	}
	for _, l := range nums {
		if seen[l.path] && !bad[l.path] {
			r.nonzero[l.path] = true
		}
	}
}

// stores: the function itself stores to a field of a namespace.
func (r *registry) stores(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if fa, ok := ins.(*ssa.FieldAddr); ok && types.Identical(deptr(fa.X.Type()), deptr(r.ns)) {
				for _, u := range *fa.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == fa {
						return true
					}
				}
			}
		}
	}
	return false
}

// feasible: no setting that is never zero is assumed to be zero.
func (r *registry) feasible(q *Path) bool {
	for path := range r.nonzero {
		for _, o := range r.members(q) {
			if v := r.initial(o, leaf{path, types.Typ[types.Uint]}); v != nil && q.St.decide(eqInt(v, Int(0))) == 1 {
				return false
			}
		}
	}
	return true
}

func (r *registry) initial(o *Obj, l leaf) Val {
	return r.in.fieldVal(r.in.NewState(), mkPtr(o, ""), l)
}

// members are the namespaces found in the registry that a path deals with.
func (r *registry) members(q *Path) (out []*Obj) {
	seen := map[int]bool{}
	for _, o := range r.in.byID {
		if o.Kind == "sym" && o.Base != nil && !seen[o.ID] {
			if _, ok := r.indexOf(o.Base); ok {
				seen[o.ID] = true
				out = append(out, o)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return
}

// indexOf: the value is an element of the initial list.
func (r *registry) indexOf(v Val) (Val, bool) {
	a, ok := isApp(unwrap(v), "elem")
	if !ok || len(a.Args) != 2 || !same(r.listTerm(), a.Args[0]) {
		return nil, false
	}
	return a.Args[1], true
}

// listTerm is the term whose elements are the initial namespaces.
func (r *registry) listTerm() Val {
	q, _ := r.in.seqOf(r.in.NewState(), r.initList)
	if len(q.Segs) == 1 && q.Segs[0].Kind == "sub" {
		return q.Segs[0].V
	}
	return Nil
}

// ---- multisets

type msum struct {
	at  map[string]int // boundaries of windows of the initial list, by position
	pos map[string]Val
	obj map[string]int // other elements
	val map[string]Val
	unk bool
}

func newSum() *msum {
	return &msum{at: map[string]int{}, pos: map[string]Val{}, obj: map[string]int{}, val: map[string]Val{}}
}
func (m *msum) point(v Val, n int) {
	m.at[v.Key()] += n
	m.pos[v.Key()] = v
	if m.at[v.Key()] == 0 {
		delete(m.at, v.Key())
	}
}
func (m *msum) window(from, to Val, n int) { m.point(to, n); m.point(from, -n) }

// sum adds the elements of a list in a state, n times.
func (r *registry) sum(m *msum, st *State, list Val, n int) *msum {
	if list == nil || isNilConst(list) {
		return m
	}
	q, _ := r.in.seqOf(st, list)
	for _, g := range q.Segs {
		switch {
		case g.Kind == "sub" && same(g.V, r.listTerm()):
			m.window(st.simp(g.Off), st.simp(add(g.Off, g.Len)), n)
		case g.Kind == "sub" && r.filtered(m, st, list, n):
		case g.Kind == "val" && isConstInt(g.Len):
			k, _ := constInt(g.Len)
			if i, ok := r.indexOf(g.V); ok {
				m.window(st.simp(i), st.simp(addc(i, 1)), n*int(k))
				continue
			}
			key := unwrap(g.V).Key()
			m.obj[key] += n * int(k)
			m.val[key] = g.V
			if m.obj[key] == 0 {
				delete(m.obj, key)
			}
		case g.Kind == "zero" && isZeroInt(g.Len):
		default:
			m.unk = true
		}
	}
	return m
}

// filtered: the list has been made by a loop that goes through the initial list
// and keeps all elements but one, which is added to the sum.
func (r *registry) filtered(m *msum, st *State, list Val, n int) bool {
	sl := r.in.toSlice(list)
	_, size := r.in.seqOf(r.in.NewState(), r.initList)
	if sl == nil || size == nil {
		return false
	}
	q := &Path{In: r.in, St: st, Ev: st.events()}
	for _, e := range q.Ev {
		l := e.Loop
		if l == nil || !exactly(q, l, size) {
			continue
		}
		nexts := q.collected(l, sl)
		if nexts == nil {
			continue
		}
		empty := false
		for _, h := range l.Havoc {
			if at := r.in.toSlice(h.At); at != nil && isSame(q, at, sl) {
				_, k := r.in.seqOf(st, h.Init)
				empty = h.Init != nil && (isNilConst(h.Init) || k != nil && isZeroInt(k))
			}
		}
		if !empty {
			continue
		}
		el := appT(r.iface, "elem", r.listTerm(), l.Count)
		var drop []*IterPath // the iterations that keep nothing
		var keep []*IterPath
		ok := len(nexts) == len(l.Iters)
		for i, x := range nexts {
			if !ok {
				break
			}
			whole := l.Iters[i].End.content(x.Base, x.Off, x.Len)
			switch {
			case len(whole.Segs) == 1 && isSame(q, x, sl):
				drop = append(drop, l.Iters[i])
			case len(whole.Segs) == 2 && whole.Segs[1].Kind == "val" && isOne(whole.Segs[1].Len) && same(unwrap(whole.Segs[1].V), unwrap(el)):
				keep = append(keep, l.Iters[i])
			default:
				ok = false
			}
		}
		if !ok {
			continue
		}
		for _, k := range r.missing(st, l, drop, keep) {
			m.window(Int(0), st.simp(size), n)
			m.window(st.simp(k), st.simp(addc(k, 1)), -n)
			return true
		}
	}
	return false
}

func isOne(v Val) bool { n, ok := constInt(v); return ok && n == 1 }

func isSame(q *Path, a, b *Slice) bool {
	x, y := q.St.content(a.Base, a.Off, a.Len), q.St.content(b.Base, b.Off, b.Len)
	return len(x.Segs) == 1 && len(y.Segs) == 1 && x.Segs[0].V != nil && y.Segs[0].V != nil && same(x.Segs[0].V, y.Segs[0].V)
}

// missing: the position of the only element that isn't kept, which is told by
// its position or by its name.
func (r *registry) missing(st *State, l *LoopSum, drop, keep []*IterPath) (out []Val) {
	q := &Path{In: r.in, St: st}
	el := r.in.deref(appT(r.iface, "elem", r.listTerm(), l.Count))
	for _, o := range r.members(q) {
		k, _ := r.indexOf(o.Base)
		if k == nil || st.decide(le0(mulc(k, -1))) != 1 {
			continue
		}
		_, size := r.in.seqOf(r.in.NewState(), r.initList)
		if st.decide(le0(addc(sub(k, size), 1))) != 1 {
			continue
		}
		at, named := true, el != nil
		name := r.initial(o, r.name)
		byName := func(it *IterPath) int {
			mine := r.initial(el.O, r.name)
			for _, f := range it.End.factList() {
				a, ok := isApp(f.C, "str==")
				if !ok || len(a.Args) != 2 {
					continue
				}
				for i := range a.Args {
					if same(a.Args[i], mine) && r.kept(q, a.Args[1-i], name) {
						if f.Truth {
							return 1
						}
						return -1
					}
				}
			}
			return 0
		}
		for _, it := range drop {
			at = at && it.End.decide(eqInt(l.Count, k)) == 1
			named = named && byName(it) == 1
		}
		for _, it := range keep {
			at = at && it.End.decide(eqInt(l.Count, k)) == -1
			named = named && byName(it) == -1
		}
		// names are unique, so that no other element has it
		if at || named {
			out = append(out, k)
		}
	}
	return
}

func isZeroInt(v Val) bool { n, ok := constInt(v); return ok && n == 0 }

// change is the difference of the list at the end of a path from the initial one.
func (r *registry) change(q *Path) *msum {
	return r.sum(r.sum(newSum(), q.St, r.final(q), 1), r.in.NewState(), r.initList, -1)
}
func (r *registry) final(q *Path) Val {
	return q.St.load(mkPtr(r.in.deref(r.s).O, r.list.path), r.list.t)
}

func (m *msum) none() bool { return !m.unk && len(m.at) == 0 && len(m.obj) == 0 }

// removed: exactly the element at the returned position of the initial list is
// missing.
func (m *msum) removed() Val {
	if m.unk || len(m.obj) != 0 || len(m.at) != 2 {
		return nil
	}
	var up, down Val
	for k, n := range m.at {
		switch n {
		case 1:
			up = m.pos[k]
		case -1:
			down = m.pos[k]
		}
	}
	if up != nil && down != nil && same(addc(up, 1), down) {
		return up
	}
	return nil
}

// added: exactly this value has been added.
func (m *msum) added() Val {
	if m.unk || len(m.at) != 0 || len(m.obj) != 1 {
		return nil
	}
	for k, n := range m.obj {
		if n == 1 {
			return m.val[k]
		}
	}
	return nil
}

func (m *msum) String() string {
	if m.unk {
		return "unknown"
	}
	var out []string
	for k, n := range m.at {
		s := "up to " + k
		if n < 0 {
			s = "less those up to " + k
		}
		out = append(out, s)
	}
	for k := range m.obj {
		out = append(out, k)
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

// ---- settings

// kept: a value equals another one, considering what the path has found out.
func (r *registry) kept(q *Path, a, b Val) bool {
	if same(a, b) {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	x, y := a, b
	if x.Key() > y.Key() {
		x, y = y, x
	}
	if q.St.decide(app("str==", x, y)) == 1 || q.St.decide(app("eqv", x, y)) == 1 {
		return true
	}
	return equalities(q.St)(a, b)
}

// equalities is the congruence that the facts of a state imply for texts: equal
// texts, of elements at equal positions.
func equalities(st *State) func(a, b Val) bool {
	var pairs [][2]string
	subst := [][2]string{}
	for _, f := range st.factList() {
		a, ok := f.C.(*App)
		if !ok || !f.Truth {
			continue
		}
		switch {
		case (a.Op == "str==" || a.Op == "eqv") && len(a.Args) == 2:
			pairs = append(pairs, [2]string{a.Args[0].Key(), a.Args[1].Key()})
		case a.Op == "eq0":
			c, coef, atoms := linOf(a.Args[0])
			if c != 0 || len(coef) != 2 {
				continue
			}
			var ks []string
			sum := int64(0)
			for k, n := range coef {
				sum += n
				if _, isSym := atoms[k].(*Sym); isSym && (n == 1 || n == -1) {
					ks = append(ks, k)
				}
			}
			if len(ks) == 2 && sum == 0 {
				sort.Strings(ks)
				subst = append(subst, [2]string{ks[1], ks[0]})
			}
		}
	}
	canon := func(k string) string {
		for _, s := range subst {
			for i := 0; i+len(s[0]) <= len(k); i++ {
				if k[i:i+len(s[0])] != s[0] {
					continue
				}
				if j := i + len(s[0]); j < len(k) && k[j] >= '0' && k[j] <= '9' {
					continue // another symbol
				}
				k = k[:i] + s[1] + k[i+len(s[0]):]
				i += len(s[1]) - 1
			}
		}
		return k
	}
	root := map[string]string{}
	find := func(k string) string {
		for root[k] != "" {
			k = root[k]
		}
		return k
	}
	for _, p := range pairs {
		if a, b := find(canon(p[0])), find(canon(p[1])); a != b {
			root[a] = b
		}
	}
	return func(a, b Val) bool { return find(canon(a.Key())) == find(canon(b.Key())) }
}

// changed lists the settings of registered namespaces that differ at the end.
func (r *registry) changed(q *Path) (out []string, objs []*Obj) {
	for _, o := range r.members(q) {
		diff := false
		for _, l := range r.data {
			if !r.kept(q, r.in.fieldVal(q.St, mkPtr(o, ""), l), r.initial(o, l)) {
				out = append(out, l.path[1:])
				diff = true
			}
		}
		if diff {
			objs = append(objs, o)
		}
	}
	return
}

// ---- saving

// saving describes how a path saves the list.
type saving struct {
	encode, write, rename int // positions of the events, -1
}

func nilErr(q *Path, e *Event) bool { return e.Err != nil && q.St.isNil(e.Err) == 1 }

// registryFile is the path that the list is loaded from.
func (r *registry) registryFile() Val {
	if r.file != nil {
		return r.file
	}
	fn := r.c.meth(r.svc, "LoadNamespaces")
	if fn == nil {
		return nil
	}
	for _, q := range r.c.run(r.in, fn, r.args(fn), nil, nil) {
		for _, e := range q.Ev {
			if e.Kind == "call" && (e.Name == "os.ReadFile" || e.Name == "os.Open" || e.Name == "os.OpenFile") && len(e.Args) > 0 {
				r.file = e.Args[0]
			}
		}
	}
	if r.file == nil {
		r.c.missing("the file that LoadNamespaces reads")
	}
	return r.file
}

// differ: the two strings can't be equal.
func differ(a, b Val) bool {
	sa, oka := constStr(a)
	sb, okb := constStr(b)
	if oka && okb {
		return sa != sb
	}
	parts := func(v Val) []Val {
		if x, ok := isApp(v, "concat"); ok {
			return x.Args
		}
		return []Val{v}
	}
	pa, pb := parts(a), parts(b)
	for len(pa) > 0 && len(pb) > 0 && same(pa[0], pb[0]) {
		pa, pb = pa[1:], pb[1:]
	}
	rest := func(ps []Val) (string, bool) {
		if len(ps) == 0 {
			return "", true
		}
		s, ok := constStr(ps[0])
		return s, ok && len(ps) == 1
	}
	ra, oka := rest(pa)
	rb, okb := rest(pb)
	if oka && okb {
		return ra != rb
	}
	// a constant rest that isn't empty against nothing but further text
	return (oka && ra == "" && hasText(pb)) || (okb && rb == "" && hasText(pa))
}
func hasText(ps []Val) bool {
	for _, p := range ps {
		if s, ok := constStr(p); ok && s != "" {
			return true
		}
	}
	return false
}

// saved finds the encoding, writing and renaming that succeed on a path.
func (r *registry) saved(q *Path) (*saving, string) {
	file := r.registryFile()
	s := &saving{-1, -1, -1}
	why := "the list isn't encoded"
	for i := len(q.Ev) - 1; i >= 0; i-- {
		e := q.Ev[i]
		if s.rename < 0 && e.Kind == "call" && e.Name == "os.Rename" && len(e.Args) == 2 && same(e.Args[1], file) && nilErr(q, e) {
			s.rename = i
		}
	}
	if s.rename < 0 {
		return s, "the file of the registry isn't replaced"
	}
	tmp := q.Ev[s.rename].Args[0]
	if !differ(tmp, file) {
		return s, "the list is written to the file of the registry itself"
	}
	var data *Seq
	for i := s.rename - 1; i >= 0 && s.write < 0; i-- {
		e := q.Ev[i]
		if e.Kind == "call" && e.Name == "os.WriteFile" && len(e.Args) >= 2 && same(e.Args[0], tmp) {
			if !nilErr(q, e) {
				return s, "a failure to write is ignored"
			}
			s.write = i
			data, _ = r.in.seqOf(q.St, unwrap(e.Args[1]))
		}
	}
	if s.write < 0 {
		if s.write, data = r.written(q, tmp, s.rename); s.write < 0 {
			return s, "the file that replaces that of the registry isn't written completely"
		}
	}
	for i := s.write - 1; i >= 0; i-- {
		e := q.Ev[i]
		if e.Kind == "call" && strings.HasPrefix(e.Name, "encoding/json.Marshal") && len(e.Res) > 0 && r.holdsAll(q, data, e.Res[0]) {
			if !nilErr(q, e) {
				return s, "a failure to encode is ignored"
			}
			s.encode = i
			break
		}
	}
	if s.encode < 0 {
		return s, why
	}
	// what is encoded is the list as it is at the end
	encoded := unwrapIface(q.Ev[s.encode].Args[0])
	if ptr, ok := encoded.(*Ptr); ok {
		for _, e := range q.Ev[s.encode+1:] {
			if e.Kind == "store" && e.Obj != nil && e.Obj.Key() == ptr.Key() {
				return s, "what has been encoded is changed afterwards"
			}
		}
		if i, ok := q.Ev[s.encode].Args[0].(*Iface); ok {
			if pt, ok := i.Dyn.Underlying().(*types.Pointer); ok {
				encoded = q.St.load(ptr, pt.Elem())
			}
		}
	}
	m := r.sum(r.sum(newSum(), q.St, encoded, 1), q.St, r.final(q), -1)
	if !m.none() {
		return s, "what is saved isn't the list of namespaces (" + m.String() + ")"
	}
	for i := s.encode + 1; i < len(q.Ev); i++ {
		if e := q.Ev[i]; r.alters(q, e) {
			return s, "the registry is changed after it has been encoded, at " + r.c.w.pos(e.Pos)
		}
	}
	return s, ""
}

// written: the file has been created, written and closed successfully.
func (r *registry) written(q *Path, path Val, before int) (int, *Seq) {
	for i := before - 1; i >= 0; i-- {
		e := q.Ev[i]
		if e.Kind != "call" || (e.Name != "os.Create" && e.Name != "os.OpenFile") || len(e.Args) == 0 || !same(e.Args[0], path) || !nilErr(q, e) || len(e.Res) == 0 {
			continue
		}
		f := e.Res[0]
		at, closed := -1, false
		var data *Seq
		for j := i + 1; j < before; j++ {
			x := q.Ev[j]
			if x.Obj == nil || !same(unwrap(x.Obj), unwrap(f)) {
				continue
			}
			switch x.Kind {
			case "write":
				if at >= 0 || !nilErr(q, x) || x.Seq == nil {
					return -1, nil
				}
				at, data = j, x.Seq
			case "close":
				closed = at >= 0 && nilErr(q, x)
			}
		}
		if at >= 0 && closed {
			return at, data
		}
		return -1, nil
	}
	return -1, nil
}

// holdsAll: the sequence is the whole of a byte slice.
func (r *registry) holdsAll(q *Path, data *Seq, v Val) bool {
	all, _ := r.in.seqOf(q.St, unwrap(v))
	return data != nil && len(all.Segs) > 0 && all.Key() == data.Key()
}

func unwrapIface(v Val) Val {
	if i, ok := v.(*Iface); ok {
		return i.V
	}
	return v
}

// alters: the event changes the list, an array of namespaces or a setting of a
// namespace.
func (r *registry) alters(q *Path, e *Event) bool {
	if e.Loop != nil {
		for _, it := range e.Loop.Iters {
			for _, x := range it.Events {
				if r.alters(q, x) {
					return true
				}
			}
		}
		return false
	}
	p, _ := unwrap(orNil(e.Obj)).(*Ptr)
	switch e.Kind {
	case "store":
		if p == nil {
			return true
		}
		if p.O == r.in.deref(r.s).O && (p.Path == r.list.path || strings.HasPrefix(r.list.path, p.Path)) {
			return true
		}
		if p.O.Kind == "sym" {
			for _, l := range r.data {
				if p.O.T != nil && types.Identical(deptr(p.O.T), deptr(r.ns)) && (strings.HasPrefix(l.path, p.Path) || strings.HasPrefix(p.Path, l.path)) {
					return true
				}
			}
		}
		return len(e.Args) == 1 && strings.Contains(p.Path, "[") && r.isMember(q, e.Args[0])
	case "appendover", "copymem", "storewin":
		return true
	}
	return false
}

func (r *registry) isMember(q *Path, v Val) bool {
	if _, ok := r.indexOf(v); ok {
		return true
	}
	p := r.in.deref(v)
	return p != nil && p.O.T != nil && types.Identical(deptr(p.O.T), deptr(r.ns))
}

// ---- C22

func savedRules(c *Ctx) {
	r := newRegistry(c)
	if r == nil {
		return
	}
	if r.registryFile() == nil {
		return
	}
	r.creates()
	r.updates()
	r.deletes()
	r.saves()
	r.loads()
	r.others()
	if h := newHTTP(c); h != nil {
		h.untouched()
	}
}

func fails(q *Path) bool { return q.Err != nil && q.St.isNil(q.Err) != 1 }

// undone: a failed operation leaves the registry as it was.
func (r *registry) undone(q *Path) {
	m := r.change(q)
	r.c.obPath(m.none(), "undone", q, token.NoPos, "list", "%s fails, but the list of namespaces has changed (%s)", q.Fn.Name(), m)
	diff, _ := r.changed(q)
	r.c.obPath(len(diff) == 0, "undone", q, token.NoPos, "settings", "%s fails, but settings of a registered namespace have changed (%s)", q.Fn.Name(), strings.Join(diff, ", "))
	r.notStopped(q, nil)
}

// quits are the channels of registered namespaces that are closed on a path,
// with the positions.
func (r *registry) quits(q *Path) map[string]int {
	out := map[string]int{}
	for i, e := range q.Ev {
		walk([]*Event{e}, nil, func(e *Event, _ []*IterPath) {
			if e.Kind == "close" && e.Sub == "chan" && e.Obj != nil {
				out[e.Obj.Key()] = i
			}
			if e.Kind == "go" {
				out["a goroutine"] = i
			}
		})
	}
	return out
}

// quitOf is the channel that stopping a namespace closes.
func (r *registry) quitOf(q *Path, ns Val) string {
	stop := r.c.meth(r.ns, "Stop")
	if stop == nil {
		return ""
	}
	out := ""
	for _, p := range r.c.run(r.in, stop, []Val{ns}, nil, nil) {
		for k := range r.quits(p) {
			out = k
		}
	}
	return out
}

func (r *registry) notStopped(q *Path, but Val) {
	for k := range r.quits(q) {
		r.c.obPath(but != nil && k == r.quitOf(q, but), "stop", q, token.NoPos, "stopped", "%s stops a namespace that isn't deleted", q.Fn.Name())
	}
}

func (r *registry) mustSave(q *Path) (*saving, bool) {
	s, why := r.saved(q)
	r.c.obPath(why == "", "saved", q, token.NoPos, "before success", "%s succeeds, but %s", q.Fn.Name(), why)
	return s, why == ""
}

// named: the initial name of the namespace equals the value.
func (r *registry) isNamed(q *Path, o *Obj, name Val) bool {
	return name != nil && r.kept(q, r.initial(o, r.name), name)
}

// nameParam is the name among the parameters.
func (r *registry) nameParam(fn *ssa.Function) Val {
	for i, p := range fn.Params {
		if types.Identical(p.Type(), r.nameType) {
			v := r.args(fn)[i]
			st := r.in.NewState()
			for _, l := range leaves(r.nameType) {
				return r.part(st, v, l)
			}
		}
	}
	return nil
}

// part is a field of a struct value.
func (r *registry) part(st *State, v Val, l leaf) Val {
	if a, ok := v.(*Agg); ok {
		return aggField(a, l)
	}
	return projection(v, l)
}

func (r *registry) creates() {
	fn, ps := r.op("CreateNamespace")
	n := 0
	for _, q := range ps {
		if q.End != "" {
			continue
		}
		if fails(q) {
			r.undone(q)
			continue
		}
		n++
		m := r.change(q)
		v := m.added()
		r.c.obPath(v != nil && len(q.Rets) > 0 && r.in.deref(q.Rets[0]) != nil && same(r.in.deref(v), r.in.deref(q.Rets[0])), "effect", q, token.NoPos, "one more", "%s succeeds, but the list of namespaces doesn't have just one more, the one that is returned (%s)", fn.Name(), m)
		diff, _ := r.changed(q)
		r.c.obPath(len(diff) == 0, "effect", q, token.NoPos, "settings", "%s changes settings of another namespace (%s)", fn.Name(), strings.Join(diff, ", "))
		r.mustSave(q)
		r.notStopped(q, nil)
	}
	r.c.count("created", n, 1)
}

func (r *registry) updates() {
	fn, ps := r.op("UpdateNamespace")
	n := 0
	for _, q := range ps {
		if q.End != "" {
			continue
		}
		if fails(q) {
			r.undone(q)
			continue
		}
		n++
		m := r.change(q)
		r.c.obPath(m.none(), "effect", q, token.NoPos, "list", "%s changes the list of namespaces (%s)", fn.Name(), m)
		var ret *Ptr
		if len(q.Rets) > 0 {
			ret = r.in.deref(q.Rets[0])
		}
		ok := ret != nil && ret.O.Base != nil
		if ok {
			_, ok = r.indexOf(ret.O.Base)
		}
		r.c.obPath(ok && r.isNamed(q, ret.O, r.nameParam(fn)), "effect", q, token.NoPos, "namespace", "%s succeeds with a namespace that isn't known to be the one named", fn.Name())
		_, objs := r.changed(q)
		for _, o := range objs {
			r.c.obPath(ok && o == ret.O, "effect", q, token.NoPos, "other", "%s changes settings of another namespace than the one named", fn.Name())
		}
		r.mustSave(q)
		r.notStopped(q, nil)
	}
	r.c.count("updated", n, 1)
}

func (r *registry) deletes() {
	fn, ps := r.op("DeleteNamespace")
	n := 0
	for _, q := range ps {
		if q.End != "" {
			continue
		}
		if fails(q) {
			r.undone(q)
			continue
		}
		n++
		m := r.change(q)
		i := m.removed()
		ok := r.c.obPath(i != nil, "effect", q, token.NoPos, "one less", "%s succeeds, but the list of namespaces isn't the one before without one element (%s)", fn.Name(), m)
		diff, _ := r.changed(q)
		r.c.obPath(len(diff) == 0, "effect", q, token.NoPos, "settings", "%s changes settings of a namespace (%s)", fn.Name(), strings.Join(diff, ", "))
		s, saved := r.mustSave(q)
		if !ok {
			continue
		}
		el := appT(r.iface, "elem", r.listTerm(), i)
		o := r.in.deref(el).O
		r.c.obPath(r.isNamed(q, o, r.nameParam(fn)), "effect", q, token.NoPos, "namespace", "%s removes a namespace that isn't known to be the one named", fn.Name())
		at, stopped := r.quits(q)[r.quitOf(q, el)]
		r.c.obPath(stopped, "stop", q, token.NoPos, "deleted", "%s doesn't stop the namespace", fn.Name())
		r.c.obPath(!stopped || !saved || at > s.rename, "stop", q, token.NoPos, "after saving", "%s stops the namespace before the deletion has been saved", fn.Name())
		r.notStopped(q, el)
	}
	r.c.count("deleted", n, 1)
}

func (r *registry) saves() {
	fn, ps := r.op("SaveNamespaces")
	n := 0
	for _, q := range ps {
		if q.End != "" {
			continue
		}
		r.undone(q)
		if !fails(q) {
			n++
			r.mustSave(q)
		}
	}
	r.c.count("saved", n, 1)
	_ = fn
}

// loads: a failure to load leaves the list as it was.
func (r *registry) loads() {
	_, ps := r.op("LoadNamespaces")
	for _, q := range ps {
		if q.End == "" && fails(q) {
			r.undone(q)
		}
	}
}

// others: no other operation changes the registry, and nothing writes to the
// registry's file but by renaming a file that has been written completely.
func (r *registry) others() {
	c := r.c
	special := map[string]bool{"CreateNamespace": true, "UpdateNamespace": true, "DeleteNamespace": true, "LoadNamespaces": true, "SaveNamespaces": true}
	file := r.registryFile()
	writes := 0
	for _, fn := range r.operations() {
		if fn.Name() == "Start" {
			continue // C15, C16
		}
		_, ps := r.op(fn.Name())
		for _, q := range ps {
			if !special[fn.Name()] && q.End == "" {
				r.undone(q)
			}
			var l lockset
			for i, e := range q.Ev {
				l.step(e)
				if e.Kind != "call" || len(e.Args) == 0 {
					continue
				}
				switch e.Name {
				case "os.WriteFile", "os.Create", "os.OpenFile", "os.Truncate", "os.Remove", "os.RemoveAll":
					writes++
					reads := false
					if e.Name == "os.OpenFile" && len(e.Args) > 1 {
						n, ok := constInt(e.Args[1])
						reads = ok && n == 0
					}
					c.obPath(reads || differ(e.Args[0], file), "atomic", q, e.Pos, e.Name, "%s writes to the file of the registry itself, so that a failure destroys the list saved before", fn.Name())
					r.exclusive(q, l, e)
				case "os.Rename":
					if same(e.Args[0], file) || !differ(e.Args[0], file) {
						c.obPath(false, "atomic", q, e.Pos, e.Name, "%s moves the file of the registry away", fn.Name())
					}
					if len(e.Args) == 2 && same(e.Args[1], file) {
						writes++
						p := &Path{In: q.In, St: q.St, Fn: q.Fn, Ev: q.Ev[:i]}
						c.obPath(r.complete(p, e.Args[0]), "atomic", q, e.Pos, e.Name, "%s replaces the file of the registry by one that isn't known to be complete", fn.Name())
						r.exclusive(q, l, e)
					}
				}
			}
		}
	}
	c.count("writes to the registry's file", writes, 2)
}

// complete: the last thing done to the file is writing it successfully.
func (r *registry) complete(q *Path, path Val) bool {
	for i := len(q.Ev) - 1; i >= 0; i-- {
		e := q.Ev[i]
		if e.Kind == "call" && e.Name == "os.WriteFile" && len(e.Args) >= 2 && same(e.Args[0], path) {
			return nilErr(q, e)
		}
	}
	at, _ := r.written(q, path, len(q.Ev))
	return at >= 0
}

// exclusive: saving is done by one operation at a time.
func (r *registry) exclusive(q *Path, l lockset, e *Event) {
	r.c.obPath(r.writeHeld(l) != nil, "exclusive", q, e.Pos, e.Name, "%s changes files of the registry without holding its mutex exclusively, so that two operations can mix up what they save", q.Fn.Name())
}

func (r *registry) writeHeld(l lockset) *Event {
	for _, h := range l {
		if h.write && h.obj == r.in.deref(r.s).O {
			return h.ev
		}
	}
	return nil
}

// ---- C20

func uniqueRules(c *Ctx) {
	r := newRegistry(c)
	if r == nil {
		return
	}
	n, m := 0, 0
	for _, fn := range r.operations() {
		if fn.Name() == "Start" || fn.Name() == "LoadNamespaces" {
			continue
		}
		_, ps := r.op(fn.Name())
		for _, q := range ps {
			if q.End != "" {
				continue
			}
			// new members
			sum := r.change(q)
			c.obPath(!sum.unk, "list", q, token.NoPos, "known", "the list of namespaces after %s isn't known", fn.Name())
			for k, v := range sum.val {
				if sum.obj[k] <= 0 {
					continue
				}
				n++
				p := r.in.deref(v)
				fresh := p != nil && p.O.Kind == "alloc"
				c.obPath(fresh && sum.obj[k] == 1, "member", q, token.NoPos, "new", "%s adds %s to the list, which isn't one new namespace", fn.Name(), show(v))
				if fresh {
					name := r.in.fieldVal(q.St, p, r.name)
					why := r.free(q, name, r.lastChange(q))
					c.obPath(why == "", "name", q, token.NoPos, "new", "%s registers a namespace though its name may be taken: %s", fn.Name(), why)
				}
			}
			for k, v := range sum.at {
				c.obPath(r.balanced(sum), "member", q, token.NoPos, "twice", "%s may leave a namespace in the list twice (%d times up to %s)", fn.Name(), v, k)
			}
			// renamed members
			for _, o := range r.members(q) {
				v := r.in.fieldVal(q.St, mkPtr(o, ""), r.name)
				if r.kept(q, v, r.initial(o, r.name)) {
					continue
				}
				m++
				why := r.free(q, v, r.renamed(q, o))
				c.obPath(why == "", "name", q, token.NoPos, "changed", "%s renames a namespace though the new name may be taken: %s", fn.Name(), why)
			}
		}
	}
	c.count("registered names", n, 1)
	c.count("changed names", m, 1)
	r.refused()
	r.renames()
}

// balanced: no element of the initial list is in the list more than once: the
// difference is made of removals only.
func (r *registry) balanced(m *msum) bool {
	return m.none() || len(m.at) == 0 || m.removed() != nil
}

// refused: an operation that fails though no operation on files has failed
// changes nothing. That a name that is taken is refused follows from free.
func (r *registry) refused() {
	n := 0
	for _, name := range []string{"CreateNamespace", "UpdateNamespace"} {
		_, ps := r.op(name)
		for _, q := range ps {
			if q.End == "" && fails(q) && !q.ioFailed() {
				n++
				s := r.change(q)
				diff, _ := r.changed(q)
				r.c.obPath(s.none() && len(diff) == 0, "refused", q, token.NoPos, name, "%s fails, but changes the registry (%s)", name, strings.Join(append(diff, s.String()), " "))
			}
		}
	}
	r.c.count("refusals", n, 2)
}

// lastChange is the position of the last change of the list.
func (r *registry) lastChange(q *Path) int {
	at := -1
	for i, e := range q.Ev {
		p, _ := unwrap(orNil(e.Obj)).(*Ptr)
		if e.Kind == "store" && p != nil && p.O == r.in.deref(r.s).O && p.Path == r.list.path {
			at = i
		}
	}
	return at
}

func (r *registry) renamed(q *Path, o *Obj) int {
	at := -1
	for i, e := range q.Ev {
		p, _ := unwrap(orNil(e.Obj)).(*Ptr)
		if e.Kind == "store" && p != nil && p.O == o && (strings.HasPrefix(r.name.path, p.Path) || strings.HasPrefix(p.Path, r.name.path)) {
			at = i
		}
	}
	return at
}

// free: before the event a search of the whole list, made while holding the
// same lock, has found no namespace of that name.
func (r *registry) free(q *Path, name Val, at int) string {
	if at < 0 {
		return "the change isn't found"
	}
	var l lockset
	locks := make([]*Event, len(q.Ev))
	for i, e := range q.Ev {
		l.step(e)
		locks[i] = r.writeHeld(l)
	}
	if locks[at] == nil {
		return "the mutex of the registry isn't held exclusively"
	}
	why := "the list isn't searched"
	for i := 0; i < at; i++ {
		e := q.Ev[i]
		if r.alters(q, e) {
			break
		}
		if e.Loop == nil || !r.denies(q, e.Loop, name) {
			continue
		}
		if locks[i] != locks[at] {
			why = "the mutex is released between searching the list and changing it"
			continue
		}
		return ""
	}
	return why
}

// denies: the loop has gone through the whole initial list, and no element has
// the name.
func (r *registry) denies(q *Path, l *LoopSum, name Val) bool {
	sq, n := r.in.seqOf(r.in.NewState(), r.initList)
	if len(sq.Segs) != 1 || len(l.Iters) == 0 {
		return false
	}
	for _, at := range []Val{l.Count, addc(add(n, mulc(l.Count, -1)), -1)} { // forwards, backwards
		ok := exactly(q, l, n)
		o := r.in.deref(appT(r.iface, "elem", r.listTerm(), at))
		for _, it := range l.Iters {
			if o == nil {
				ok = false
				break
			}
			a, b := r.initial(o.O, r.name), name
			if a.Key() > b.Key() {
				a, b = b, a
			}
			if it.End.decide(app("str==", a, b)) != -1 {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// renames: the name of a namespace is stored nowhere but in constructors and
// in methods that nobody but the registry calls.
func (r *registry) renames() {
	c := r.c
	writers := map[*ssa.Function]bool{}
	for _, fn := range c.w.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok || !types.Identical(deptr(fa.X.Type()), deptr(r.ns)) {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				st := deptr(fa.X.Type()).Underlying().(*types.Struct)
				if strings.HasPrefix(r.name.path, fieldPath(st, fa.Field)) && writesTo(fa) {
					writers[fn] = true
				}
			}
		}
	}
	n := 0
	for done := false; !done; {
		done = true
		for _, fn := range c.w.Funcs {
			if writers[fn] || r.ofRegistry(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if ci, ok := ins.(ssa.CallInstruction); ok && r.callsWriter(ci, writers) && !writers[fn] {
						writers[fn] = true
						done = false
					}
				}
			}
		}
	}
	for fn := range writers {
		n++
		recv := fn.Signature.Recv()
		c.ob(recv != nil && types.Identical(deptr(recv.Type()), deptr(r.ns)), "rename", fn, token.NoPos, fn.Name(), "%s changes the name of a namespace without the registry knowing", fn.Name())
	}
	c.count("functions that change names", n, 1)
}

// writesTo: the address is used for anything but loading.
func writesTo(addr ssa.Value) bool {
	for _, u := range *addr.Referrers() {
		switch x := u.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				continue
			}
		case *ssa.DebugRef:
			continue
		case *ssa.FieldAddr:
			if !writesTo(x) {
				continue
			}
		}
		return true
	}
	return false
}

func (r *registry) ofRegistry(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	recv := fn.Signature.Recv()
	return recv != nil && types.Identical(deptr(recv.Type()), deptr(r.svc))
}

func (r *registry) callsWriter(ci ssa.CallInstruction, writers map[*ssa.Function]bool) bool {
	cm := ci.Common()
	if cm.IsInvoke() {
		n, ok := types.Unalias(cm.Value.Type()).(*types.Named)
		if !ok || !types.Identical(n, r.iface) {
			return false
		}
		return writers[r.c.w.method(r.ns, cm.Method.Name())]
	}
	return writers[cm.StaticCallee()]
}

// projection is the field of a symbolic struct value.
func projection(v Val, l leaf) Val {
	names := strings.Split(strings.TrimPrefix(l.path, "."), ".")
	for i, n := range names {
		var t types.Type
		if i == len(names)-1 {
			t = l.t
		}
		v = appT(t, "field:"+n, v)
	}
	return v
}

// ---- C23

func settingRules(c *Ctx) {
	r := newRegistry(c)
	if r == nil || r.registryFile() == nil {
		return
	}
	g := &settings{r: r}
	if !g.find() {
		return
	}
	g.constructors()
	g.setters()
	g.created()
	g.updated()
	g.service()
	g.requests()
	g.responses()
}

type settings struct {
	r       *registry
	get     map[string]*ssa.Function // by the name of the setting
	names   []string
	byZero  Val // the value that stands for zero
	factory int
}

// find lists the settings that a namespace reports.
func (g *settings) find() bool {
	r := g.r
	g.get = map[string]*ssa.Function{}
	it := r.iface.Underlying().(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		sig := m.Type().(*types.Signature)
		x, ok := strings.CutPrefix(m.Name(), "Get")
		if !ok || sig.Params().Len() != 0 || sig.Results().Len() != 1 {
			continue
		}
		fn := r.c.meth(r.ns, m.Name())
		if fn == nil {
			return false
		}
		g.get[x] = fn
		g.names = append(g.names, x)
	}
	sort.Strings(g.names)
	r.c.count("settings reported", len(g.names), 4)
	return len(g.names) > 0
}

// report is what a getter of a namespace returns in a state, nil if it depends.
func (g *settings) report(st *State, ns Val, x string) Val {
	var out Val
	for _, q := range g.r.c.run(g.r.in, g.get[x], []Val{ns}, nil, st.clone()) {
		if q.End != "" || len(q.Rets) != 1 || out != nil && !same(out, q.Rets[0]) {
			return nil
		}
		out = q.Rets[0]
	}
	return out
}

// equals: a value of a setting is the one wanted. Zero may stand for a default.
func (g *settings) equals(q *Path, x string, got, want Val, t types.Type) bool {
	if got == nil || want == nil {
		return false
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		for _, l := range leaves(t) {
			if !g.equals(q, x, g.r.part(q.St, got, l), g.r.part(q.St, want, l), l.t) {
				return false
			}
		}
		return true
	}
	if g.r.kept(q, got, want) {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && x == "MaxSimilarProfiles" {
			return q.St.decide(eqInt(want, Int(0))) == -1
		}
		return true
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && q.St.decide(eqInt(want, Int(0))) == 1 && x == "MaxSimilarProfiles" {
		n, ok := constInt(got)
		if !ok || n <= 0 || g.byZero != nil && !same(g.byZero, got) {
			return false
		}
		g.byZero = got
		return true
	}
	return false
}

// request finds the parameter that is a request with settings, and the value of
// a setting in it.
func (g *settings) request(fn *ssa.Function, args []Val) (*types.Struct, Val) {
	for i, p := range fn.Params {
		if fn.Signature.Recv() != nil && i == 0 {
			continue
		}
		st, ok := deptr(p.Type()).Underlying().(*types.Struct)
		if _, isPtr := p.Type().Underlying().(*types.Pointer); ok && isPtr {
			for j := 0; j < st.NumFields(); j++ {
				if g.get[st.Field(j).Name()] != nil {
					return st, args[i]
				}
			}
		}
	}
	return nil, nil
}

// field is the initial value of a field of the struct a pointer refers to.
func (g *settings) field(st *types.Struct, ptr Val, name string) (Val, types.Type) {
	for _, x := range promotedFields(st) {
		if x.field().Name() == name {
			p := g.r.in.deref(ptr)
			return g.r.in.NewState().load(mkPtr(p.O, p.Path+x.path), x.field().Type()), x.field().Type()
		}
	}
	return nil, nil
}

// matches: the namespace reports what the request asks for.
func (g *settings) matches(q *Path, ns Val, st *types.Struct, req Val, rule string) {
	for _, x := range g.names {
		want, t := g.field(st, req, x)
		if want == nil {
			continue
		}
		got := g.report(q.St, ns, x)
		g.r.c.obPath(g.equals(q, x, got, want, t), rule, q, token.NoPos, x, "after %s the namespace reports %s as its %s instead of what has been asked for", q.Fn.Name(), show(got), x)
	}
}

func (g *settings) constructors() {
	r, c := g.r, g.r.c
	n := 0
	for _, fn := range c.w.Funcs {
		pk := fnPkg(fn)
		if pk == nil || pk != r.iface.Obj().Pkg() || fn.Signature.Recv() != nil || fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || fn.Blocks == nil || fn.Signature.Results().Len() != 1 {
			continue
		}
		if t := fn.Signature.Results().At(0).Type(); !types.Identical(t, r.ns) && !types.Identical(t, r.iface) {
			continue
		}
		args := r.in.args(fn, "")
		st, req := g.request(fn, args)
		if st == nil {
			c.ob(false, "constructor", fn, token.NoPos, fn.Name(), "%s makes a namespace from something that isn't understood", fn.Name())
			continue
		}
		n++
		for _, q := range c.run(r.in, fn, args, nil, nil) {
			if q.End != "" {
				continue
			}
			g.matches(q, q.Rets[0], st, req, "constructor")
			var dir Val
			fac := map[string]Val{}
			for j := 0; j < st.NumFields(); j++ {
				v, t := g.field(st, req, st.Field(j).Name())
				if isString(t) {
					dir = v
				}
				if nt, ok := types.Unalias(t).(*types.Named); ok && types.IsInterface(t) && nt.Obj().Pkg() != nil && isModule(nt.Obj().Pkg()) {
					fac[nt.Obj().Name()] = v
				}
			}
			g.uses(q, q.Rets[0], dir, fac)
		}
	}
	c.count("constructors of namespaces", n, 1)
}

// uses: starting the namespace uses the directory and the factories given.
func (g *settings) uses(q *Path, ns Val, dir Val, fac map[string]Val) {
	r, c := g.r, g.r.c
	start := c.meth(r.ns, "Start")
	if start == nil {
		return
	}
	args := r.in.args(start, "start.")
	args[0] = ns
	st := q.St.clone()
	n := st.trLen()
	used := map[string]bool{}
	for _, p := range c.run(r.in, start, args, nil, st) {
		p.Ev = eventsSince(p.St.tr, n)
		for _, e := range p.Ev {
			if e.Kind != "call" {
				continue
			}
			if e.Name == "os.OpenFile" || e.Name == "os.Open" || e.Name == "os.Create" {
				used["file"] = true
				c.obPath(dir != nil && len(e.Args) > 0 && same(prefix(e.Args[0]), dir), "directory", p, e.Pos, e.Name, "a file of the namespace isn't opened in the directory given")
			}
			if i := strings.IndexByte(e.Name, '.'); i > 0 && fac[e.Name[:i]] != nil {
				used[e.Name[:i]] = true
				g.factory++
				c.obPath(e.Obj != nil && same(unwrap(e.Obj), unwrap(fac[e.Name[:i]])), "factory", p, e.Pos, e.Name[:i], "the namespace uses another %s than the one given", e.Name[:i])
			}
		}
	}
	var names []string
	for x := range fac {
		names = append(names, x)
	}
	sort.Strings(names)
	for _, x := range names {
		c.obPath(used[x], "factory", q, token.NoPos, x, "starting the namespace doesn't use the %s given", x)
	}
	c.obPath(used["file"], "directory", q, token.NoPos, "used", "starting the namespace opens no file")
}

// prefix is the first part of a string that is put together.
func prefix(v Val) Val {
	if a, ok := isApp(v, "concat"); ok && len(a.Args) > 0 {
		return a.Args[0]
	}
	return v
}

// setters: a getter reports what the setter was given, the others what they
// reported before.
func (g *settings) setters() {
	r, c := g.r, g.r.c
	n := 0
	it := r.iface.Underlying().(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		x, ok := strings.CutPrefix(m.Name(), "Set")
		if m.Name() == "Rename" {
			x, ok = "Name", true
		}
		if !ok {
			continue
		}
		fn := c.meth(r.ns, m.Name())
		if fn == nil || g.get[x] == nil || len(fn.Params) != 2 {
			c.ob(fn == nil, "setter", fn, token.NoPos, m.Name(), "nothing reports what %s sets", m.Name())
			continue
		}
		n++
		args := r.in.args(fn, "")
		args[0] = r.in.namedSym("ns", r.ns)
		for _, q := range c.run(r.in, fn, args, nil, nil) {
			if q.End != "" {
				continue
			}
			got := g.report(q.St, args[0], x)
			c.obPath(g.equals(q, x, got, args[1], fn.Params[1].Type()), "setter", q, token.NoPos, x, "after %s the namespace reports %s as its %s instead of what has been set", fn.Name(), show(got), x)
			for _, y := range g.names {
				if y != x {
					was, is := g.report(r.in.NewState(), args[0], y), g.report(q.St, args[0], y)
					c.obPath(was != nil && same(was, is), "setter", q, token.NoPos, x+" changes "+y, "%s changes the %s of the namespace", fn.Name(), y)
				}
			}
		}
	}
	c.count("setters", n, 3)
}

func (g *settings) created() {
	r := g.r
	fn, ps := r.op("CreateNamespace")
	if fn == nil {
		return
	}
	st, req := g.request(fn, r.args(fn))
	fac := map[string]Val{}
	for _, l := range leaves(deptr(r.svc)) {
		if nt, ok := types.Unalias(l.t).(*types.Named); ok && types.IsInterface(l.t) && nt.Obj().Pkg() != nil && isModule(nt.Obj().Pkg()) {
			fac[nt.Obj().Name()] = r.in.fieldVal(r.in.NewState(), r.s, l)
		}
	}
	n := 0
	for _, q := range ps {
		if q.End == "" && !fails(q) {
			n++
			g.matches(q, q.Rets[0], st, req, "created")
			g.uses(q, q.Rets[0], prefix(r.registryFile()), fac)
		}
	}
	r.c.ob(st != nil, "created", fn, token.NoPos, "request", "the request isn't found")
	r.c.count("namespaces created", n, 1)
	r.c.count("uses of factories", g.factory, 4)
}

func (g *settings) updated() {
	r := g.r
	fn, ps := r.op("UpdateNamespace")
	if fn == nil {
		return
	}
	st, req := g.request(fn, r.args(fn))
	r.c.ob(st != nil, "updated", fn, token.NoPos, "request", "the request isn't found")
	n := 0
	for _, q := range ps {
		if q.End == "" && !fails(q) {
			n++
			g.matches(q, q.Rets[0], st, req, "updated")
			// the rest of the settings of all namespaces
			_, objs := r.changed(q)
			ret := r.in.deref(q.Rets[0])
			for _, o := range objs {
				r.c.obPath(ret != nil && o == ret.O, "updated", q, token.NoPos, "other", "%s changes settings of another namespace than the one it returns", fn.Name())
			}
			for _, x := range g.names {
				if v, _ := g.field(st, req, x); v == nil {
					was, is := g.report(r.in.NewState(), q.Rets[0], x), g.report(q.St, q.Rets[0], x)
					r.c.obPath(was != nil && same(was, is), "updated", q, token.NoPos, x, "%s changes the %s of the namespace", fn.Name(), x)
				}
			}
		}
	}
	r.c.count("namespaces updated", n, 1)
}

// service: the registry keeps the factories it's given.
func (g *settings) service() {
	r, c := g.r, g.r.c
	n := 0
	for _, fn := range c.w.Funcs {
		if fn.Signature.Recv() != nil || fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || fn.Blocks == nil || fn.Signature.Results().Len() == 0 || !types.Identical(fn.Signature.Results().At(0).Type(), r.svc) {
			continue
		}
		args := r.in.args(fn, "")
		for _, q := range c.run(r.in, fn, args, nil, nil) {
			if !q.OK() {
				continue
			}
			for i, p := range fn.Params {
				nt, ok := types.Unalias(p.Type()).(*types.Named)
				if !ok || !types.IsInterface(nt) || !isModule(nt.Obj().Pkg()) {
					continue
				}
				for _, l := range leaves(deptr(r.svc)) {
					if types.Identical(l.t, p.Type()) {
						n++
						c.obPath(same(unwrap(orNil(r.in.fieldVal(q.St, q.Rets[0], l))), unwrap(args[i])), "registry", q, token.NoPos, l.path[1:], "%s doesn't keep the %s it's given", fn.Name(), nt.Obj().Name())
					}
				}
			}
		}
	}
	c.count("factories kept by the registry", n, 2)
}

// requests: what is asked for over HTTP is what the registry is asked for.
func (g *settings) requests() {
	r, c := g.r, g.r.c
	n := 0
	for _, fn := range c.w.Funcs {
		recv := fn.Signature.Recv()
		if recv == nil || fn.Name() != "ToDomain" || fn.Synthetic != "" || fn.Blocks == nil || fn.Signature.Results().Len() != 2 {
			continue
		}
		to, ok1 := deptr(fn.Signature.Results().At(0).Type()).Underlying().(*types.Struct)
		from, ok2 := deptr(recv.Type()).Underlying().(*types.Struct)
		if !ok1 || !ok2 {
			continue
		}
		n++
		args := r.in.args(fn, "")
		ok := 0
		for _, q := range c.run(r.in, fn, args, nil, nil) {
			if !q.OK() {
				continue
			}
			ok++
			out := r.in.deref(q.Rets[0])
			for j := 0; j < to.NumFields(); j++ {
				f := to.Field(j)
				want, t := g.field(from, args[0], f.Name())
				if p, isPtr := orPtr(t); isPtr && want != nil {
					d := r.in.deref(want)
					want, t = q.St.load(d, p), p
				}
				ls := leaves(f.Type())
				good := out != nil && want != nil && len(ls) == 1
				var got Val
				if good {
					got = r.in.fieldVal(q.St, out, leaf{fieldPath(to, j) + ls[0].path, ls[0].t})
					good = same(got, want)
				}
				c.obPath(good, "request", q, token.NoPos, f.Name(), "the registry is asked for %s as the %s instead of what the request says", show(got), f.Name())
			}
		}
		c.ob(ok > 0, "request", fn, token.NoPos, "success", "no request can be converted")
	}
	c.count("requests converted", n, 2)
}

func orPtr(t types.Type) (types.Type, bool) {
	if t == nil {
		return nil, false
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	return p.Elem(), true
}

// responses: what is reported over HTTP is what the namespace reports.
func (g *settings) responses() {
	r, c := g.r, g.r.c
	n, lists := 0, 0
	for _, fn := range c.w.Funcs {
		pk := fnPkg(fn)
		if pk == nil || !isModule(pk) || pk.Name() != "dto" || fn.Signature.Recv() != nil || fn.Parent() != nil || fn.Blocks == nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 1 {
			continue
		}
		if types.Identical(fn.Params[0].Type(), r.iface) {
			to, ok := deptr(fn.Signature.Results().At(0).Type()).Underlying().(*types.Struct)
			if !ok {
				continue
			}
			n++
			args := r.in.args(fn, "")
			for _, q := range c.run(r.in, fn, args, nil, nil) {
				if q.End == "" {
					g.response(q, q.St, r.in.deref(q.Rets[0]), to, args[0])
				}
			}
		}
		if u, ok := fn.Params[0].Type().Underlying().(*types.Slice); ok && types.Identical(u.Elem(), r.iface) {
			res, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			to, ok := deptr(res.Elem()).Underlying().(*types.Struct)
			if !ok {
				continue
			}
			lists++
			args := r.in.args(fn, "")
			for _, q := range c.run(r.in, fn, args, nil, nil) {
				if q.End == "" {
					g.responseList(q, args[0], to, q.Rets[0])
				}
			}
		}
	}
	c.count("responses", n, 1)
	c.count("lists of responses", lists, 1)
}

func (g *settings) response(q *Path, st *State, out *Ptr, to *types.Struct, ns Val) {
	for j := 0; j < to.NumFields(); j++ {
		f := to.Field(j)
		var got, want Val
		if out != nil {
			got = st.load(mkPtr(out.O, out.Path+fieldPath(to, j)), f.Type())
		}
		if g.get[f.Name()] != nil {
			want = g.report(g.r.in.NewState(), ns, f.Name())
			if a, ok := want.(*Agg); ok && len(a.Fields) == 1 {
				want = a.Fields[0]
			}
		}
		g.r.c.obPath(got != nil && same(got, want), "response", q, token.NoPos, f.Name(), "%s reports %s as the %s instead of %s", q.Fn.Name(), show(got), f.Name(), show(want))
	}
}

// responseList: there is one response for each namespace, in the same order.
func (g *settings) responseList(q *Path, list Val, to *types.Struct, result Val) {
	r := g.r
	_, n := r.in.seqOf(r.in.NewState(), list)
	out := r.in.toSlice(result)
	good := false
	for _, e := range q.Ev {
		l := e.Loop
		if l == nil || out == nil || !exactly(q, l, n) || q.St.decide(eqInt(out.Len, n)) != 1 {
			continue
		}
		lists := q.collected(l, out)
		for i, it := range l.Iters {
			good = true
			to1 := out
			if lists != nil {
				to1 = lists[i]
			}
			slot := elemPtr(to1.Base, add(to1.Off, l.Count))
			g.response(q, it.End, slot, to, appT(r.iface, "elem", list, l.Count))
			for _, x := range it.Events {
				if p, ok := unwrap(orNil(x.Obj)).(*Ptr); ok && x.Kind == "store" && p.O == to1.Base.O && !strings.HasPrefix(p.Path, slot.Path) {
					r.c.obPath(false, "response", q, x.Pos, "list", "%s stores the response for another namespace", q.Fn.Name())
				}
			}
		}
	}
	r.c.obPath(good, "response", q, token.NoPos, "list", "%s isn't known to return one response for each namespace", q.Fn.Name())
}

// collected: the list consists of what the iterations of the loop have appended
// to an empty one. The results are the lists at the ends of the iterations.
func (q *Path) collected(l *LoopSum, list *Slice) []*Slice {
	whole := q.St.content(list.Base, list.Off, list.Len)
	if len(whole.Segs) != 1 || whole.Segs[0].Kind != "sub" {
		return nil
	}
	items := whole.Segs[0].V
	for _, h := range l.Havoc {
		at := q.In.toSlice(h.At)
		if at == nil || len(h.Next) != len(l.Iters) {
			continue
		}
		now := q.St.content(at.Base, at.Off, at.Len)
		if len(now.Segs) != 1 || now.Segs[0].V == nil || !same(now.Segs[0].V, items) {
			continue
		}
		var out []*Slice
		for _, v := range h.Next {
			x := q.In.toSlice(v)
			if x == nil {
				return nil
			}
			out = append(out, x)
		}
		return out
	}
	return nil
}
