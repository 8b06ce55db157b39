package main

// C21: names of namespaces and of their files. The strings that are accepted as
// names are a regular language, which is compared with that of safe names; the
// paths of files are strings put together of the directory, the name and constant
// text, so that whether two of them can be equal is decided from the constants.

import (
	"go/token"
	"go/types"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", "Language inclusion of the names accepted, decided on the product of the automata of the regular expressions tested on a path with that of safe names; who-may-construct analysis of names; path terms of every call that names a file, composed with the construction of the namespace", nameRules)
}

// ---- regular languages

// lang is the deterministic automaton of "the expression matches the text
// somewhere", built on demand.
type lang struct {
	prog   *syntax.Prog
	negate bool
}

const langEOF rune = -1

// lstate is a set of instructions before a position, with the rune before it.
type lstate struct {
	key  string
	pcs  []uint32
	prev rune
	acc  bool
}

func newLang(pattern string, negate bool) (*lang, bool) {
	re, err := syntax.Parse(pattern, syntax.Perl)
	if err != nil {
		return nil, false
	}
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil, false
	}
	return &lang{prog, negate}, true
}

func (l *lang) start() *lstate { return l.state(nil, langEOF, false) }
func (l *lang) state(pcs map[uint32]bool, prev rune, acc bool) *lstate {
	s := &lstate{prev: prev, acc: acc}
	// what matters of the previous rune
	var b strings.Builder
	if acc {
		s.key = "accepted"
		return s
	}
	for pc := range pcs {
		s.pcs = append(s.pcs, pc)
	}
	sort.Slice(s.pcs, func(i, j int) bool { return s.pcs[i] < s.pcs[j] })
	for _, pc := range s.pcs {
		b.WriteRune(rune(pc))
		b.WriteByte(',')
	}
	switch {
	case prev == langEOF:
		b.WriteByte('^')
	case prev == '\n':
		b.WriteByte('n')
	case syntax.IsWordChar(prev):
		b.WriteByte('w')
	}
	s.key = b.String()
	return s
}

// next reads a rune, or the end of the text.
func (l *lang) next(s *lstate, r rune) *lstate {
	if s.acc {
		return s
	}
	flags := syntax.EmptyOpContext(s.prev, r)
	seen := map[uint32]bool{}
	step := map[uint32]bool{}
	acc := false
	var visit func(pc uint32)
	visit = func(pc uint32) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		in := &l.prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			visit(in.Out)
			visit(in.Arg)
		case syntax.InstCapture, syntax.InstNop:
			visit(in.Out)
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(in.Arg)&^flags == 0 {
				visit(in.Out)
			}
		case syntax.InstMatch:
			acc = true
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			if r != langEOF && in.MatchRune(r) {
				step[in.Out] = true
			}
		}
	}
	visit(uint32(l.prog.Start)) // a match may begin anywhere
	for _, pc := range s.pcs {
		visit(pc)
	}
	if r == langEOF {
		return &lstate{acc: acc}
	}
	return l.state(step, r, acc)
}

// alphabet has a representative of every class of runes that the expressions,
// or safe names, tell from each other.
func alphabet(ls []*lang) []rune {
	cut := map[rune]bool{}
	add := func(r rune) {
		for _, x := range []rune{r - 1, r, r + 1} {
			if x >= 0 && x <= utf8.MaxRune {
				cut[x] = true
			}
		}
	}
	for _, s := range []string{"azAZ09_-\n\x00/. \u017f\u212a", string(utf8.RuneError)} {
		for _, r := range s {
			add(r)
		}
	}
	for _, l := range ls {
		for i := range l.prog.Inst {
			in := &l.prog.Inst[i]
			for _, r := range in.Rune {
				add(r)
				if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
					for _, x := range []rune{r &^ 32, r | 32} {
						add(x)
					}
				}
			}
		}
	}
	var out []rune
	for r := range cut {
		if r < 0xD800 || r > 0xDFFF {
			out = append(out, r)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func letter(r rune) bool { return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' }
func safeRune(r rune) bool {
	return letter(r) || r >= '0' && r <= '9' || r == '_' || r == '-'
}
func safeText(s string) bool {
	for _, r := range s {
		if !safeRune(r) {
			return false
		}
	}
	return true
}

// unsafeName finds a string that all languages contain and that isn't a safe name.
func unsafeName(ls []*lang) (string, bool) {
	type node struct {
		at   []*lstate
		safe int // 0 empty, 1 safe so far, 2 unsafe
		text string
	}
	var first node
	for _, l := range ls {
		first.at = append(first.at, l.start())
	}
	runes := alphabet(ls)
	seen := map[string]bool{}
	todo := []node{first}
	for len(todo) > 0 && len(seen) < 20000 {
		n := todo[0]
		todo = todo[1:]
		key := string(rune('0' + n.safe))
		for _, s := range n.at {
			key += "|" + s.key
		}
		if seen[key] {
			continue
		}
		seen[key] = true
		all := true
		for i, l := range ls {
			all = all && l.next(n.at[i], langEOF).acc != l.negate
		}
		if all && n.safe != 1 {
			return n.text, true
		}
		for _, r := range runes {
			m := node{text: n.text + string(r), safe: 2}
			if n.safe == 0 && letter(r) || n.safe == 1 && safeRune(r) {
				m.safe = 1
			}
			for i, l := range ls {
				m.at = append(m.at, l.next(n.at[i], r))
			}
			todo = append(todo, m)
		}
	}
	return "", len(todo) > 0
}

// tested are the regular expressions that a path has tested on a string.
func tested(st *State, v Val) (out []*lang) {
	for _, f := range st.factList() {
		a, ok := f.C.(*App)
		if !ok {
			continue
		}
		var pattern, text Val
		switch a.Op {
		case "fn:(*regexp.Regexp).MatchString", "fn:(*regexp.Regexp).MatchString#0":
			if len(a.Args) == 2 {
				if re, ok := a.Args[0].(*App); ok && strings.HasPrefix(re.Op, "fn:regexp.") && len(re.Args) == 1 && !strings.Contains(re.Op, "POSIX") {
					pattern, text = re.Args[0], a.Args[1]
				}
			}
		case "fn:regexp.MatchString", "fn:regexp.MatchString#0":
			if len(a.Args) == 2 {
				pattern, text = a.Args[0], a.Args[1]
			}
		}
		if pattern == nil || !same(text, v) {
			continue
		}
		if p, ok := constStr(pattern); ok {
			if l, ok := newLang(p, !f.Truth); ok {
				out = append(out, l)
			}
		}
	}
	return out
}

// safeOn: the string is known to be a safe name on the path.
func safeOn(st *State, v Val) (bool, string) {
	if s, ok := constStr(v); ok {
		return s != "" && letter(rune(s[0])) && safeText(s), s
	}
	ls := tested(st, v)
	if len(ls) == 0 {
		return spelled(st, v), ""
	}
	s, bad := unsafeName(ls)
	return !bad, s
}

// may: the facts about it alone allow the value.
func may(facts []Fact, v Val, n int64) bool {
	_, want, _ := linOf(v)
	if len(want) != 1 {
		return true
	}
	for _, f := range facts {
		a, ok := f.C.(*App)
		if !ok || len(a.Args) != 1 || a.Op != "le0" && a.Op != "eq0" {
			continue
		}
		c, coef, _ := linOf(a.Args[0])
		if len(coef) != 1 {
			continue
		}
		for k, m := range coef {
			if w, ok := want[k]; ok && w == 1 {
				x := c + m*n
				if (a.Op == "le0" && x <= 0 || a.Op == "eq0" && x == 0) != f.Truth {
					return false
				}
			}
		}
	}
	return true
}

// onlyIn: the facts allow characters of the class only. A character beyond the
// constants of the facts is like any other one.
func onlyIn(facts []Fact, v Val, class func(rune) bool) bool {
	for n := int64(0); n < 1024; n++ {
		if !class(rune(n)) && may(facts, v, n) {
			return false
		}
	}
	for _, f := range facts {
		if a, ok := f.C.(*App); ok && len(a.Args) == 1 {
			c, _, _ := linOf(a.Args[0])
			for _, n := range []int64{c - 1, c, c + 1, -c - 1, -c, -c + 1} {
				if n >= 1024 && n <= utf8.MaxRune && may(facts, v, n) {
					return false
				}
			}
		}
	}
	return !may(facts, v, utf8.MaxRune)
}

// spelled: a loop has gone through all of the characters of the string, and
// goes on after those of a safe name only.
func spelled(st *State, v Val) bool {
	facts := st.factList()
	size := lenTerm(v)
	some := !may(facts, size, 0)
	for _, f := range facts {
		if a, ok := f.C.(*App); ok && a.Op == "str==" && !f.Truth && len(a.Args) == 2 {
			for i := range a.Args {
				if s, ok := constStr(a.Args[i]); ok && s == "" && same(a.Args[1-i], v) {
					some = true
				}
			}
		}
	}
	elem := func(i Val) Val { return app("elem", v, i) }
	begins := onlyIn(facts, elem(Int(0)), letter)
	es := eventsSince(st.tr, 0)
	for i, e := range es {
		l := e.Loop
		if e.Kind != "loop" || l == nil || !l.Done || len(l.Iters) == 0 {
			continue
		}
		ended := false
		for _, d := range es[i+1:] {
			ended = ended || d.Kind == "rangestrend" && same(d.Obj, v)
		}
		if ended && some {
			ok := true
			for _, it := range l.Iters {
				var at, r Val
				for _, d := range it.Events {
					if d.Kind == "rangestr" && same(d.Obj, v) {
						at, r = d.Args[0], d.Args[1]
					}
				}
				ok = ok && r != nil && onlyIn(it.Facts, r, safeRune) && (begins || !may(it.Facts, at, 0) || onlyIn(it.Facts, r, letter))
			}
			if ok {
				return true
			}
		}
		for c := int64(0); c < 2; c++ {
			// the loop has ended behind the last character
			over := st.decide(le0(addc(sub(size, l.Count), -c))) == 1
			if !over || !some && !begins || c == 1 && !begins {
				continue
			}
			ok := true
			for _, it := range l.Iters {
				x := elem(add(l.Count, Int(c)))
				ok = ok && onlyIn(it.Facts, x, safeRune) && (begins || !may(it.Facts, l.Count, 0) || onlyIn(it.Facts, x, letter))
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// misspelled are the strings of which a path has found a character that's not
// one of a safe name, or none at all.
func misspelled(st *State) (out []Val) {
	facts := st.factList()
	seen := map[string]bool{}
	found := func(v Val) {
		if !seen[v.Key()] {
			seen[v.Key()] = true
			out = append(out, v)
		}
	}
	none := func(v Val, class func(rune) bool) bool {
		for n := int64(0); n < 128; n++ {
			if class(rune(n)) && may(facts, v, n) {
				return false
			}
		}
		return true
	}
	for _, f := range facts {
		visit(f.C, func(w Val) {
			a, ok := w.(*App)
			switch {
			case !ok || len(a.Args) == 0:
			case a.Op == "elem" && len(a.Args) == 2 && isString(typeOfVal(a.Args[0])):
				n, isN := constInt(a.Args[1])
				if none(a, safeRune) || isN && n == 0 && none(a, letter) {
					found(a.Args[0])
				}
			case a.Op == "len" && isString(typeOfVal(a.Args[0])) && !may(facts, a, 1) && !may(facts, a, 2):
				found(a.Args[0])
			case a.Op == "str==" && f.Truth && same(f.C, a) && len(a.Args) == 2:
				for i := range a.Args {
					if s, ok := constStr(a.Args[i]); ok && s == "" {
						found(a.Args[1-i])
					}
				}
			}
		})
	}
	for _, e := range eventsSince(st.tr, 0) {
		if e.Kind == "rangestr" && (none(e.Args[1], safeRune) || !may(facts, e.Args[0], 1) && none(e.Args[1], letter)) {
			found(e.Obj)
		}
	}
	return out
}

// ---- rules

type nameCheck struct {
	r    *registry
	base Val
	name Val
	// extensions by kind of file, and the places
	ext map[string]map[string]*Event
	at  map[token.Pos]bool
	run map[*ssa.Function]bool
}

func nameRules(c *Ctx) {
	r := newRegistry(c)
	if r == nil || r.registryFile() == nil {
		return
	}
	n := &nameCheck{r: r, ext: map[string]map[string]*Event{}, at: map[token.Pos]bool{}}
	n.constructors()
	n.converters()
	n.directory()
	n.files()
	n.distinct()
	n.elsewhere()
}

// text is the string of a name.
func (n *nameCheck) text(st *State, v Val) Val {
	ls := leaves(n.r.nameType)
	if len(ls) != 1 {
		return nil
	}
	if p := n.r.in.deref(v); p != nil {
		return n.r.in.fieldVal(st, p, ls[0])
	}
	return n.r.part(st, v, ls[0])
}

// given: the string is that of a name that existed before.
func given(v Val, t types.Type) bool {
	switch x := v.(type) {
	case *App:
		if strings.HasPrefix(x.Op, "field:") && len(x.Args) == 1 {
			switch y := x.Args[0].(type) {
			case *Sym:
				return y.T != nil && types.Identical(y.T, t)
			case *App:
				return y.T != nil && types.Identical(y.T, t)
			}
		}
	}
	return false
}

// constructors: only safe names are made by the package of names, and nobody
// else makes names.
func (n *nameCheck) constructors() {
	c, r := n.r.c, n.r
	made := 0
	pkg := r.nameType.Obj().Pkg()
	for _, fn := range c.w.Funcs {
		if fnPkg(fn) != pkg || fn.Parent() != nil || fn.Blocks == nil || fn.Synthetic != "" {
			continue
		}
		deals := false
		sig := fn.Signature
		for i := 0; i < sig.Results().Len(); i++ {
			deals = deals || types.Identical(deptr(sig.Results().At(i).Type()), r.nameType)
		}
		for _, p := range fn.Params {
			if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
				deals = deals || types.Identical(pt.Elem(), r.nameType)
			}
		}
		if !deals {
			continue
		}
		made++
		args := r.in.args(fn, "")
		for _, q := range c.run(r.in, fn, args, nil, nil) {
			if q.End != "" || q.Err != nil && q.St.isNil(q.Err) != 1 {
				continue
			}
			check := func(v Val) {
				s := n.text(q.St, v)
				ok, bad := false, ""
				if s != nil {
					if ok, bad = safeOn(q.St, s); !ok {
						for i, p := range fn.Params {
							if types.Identical(deptr(p.Type()), r.nameType) && same(s, n.text(r.in.NewState(), args[i])) {
								ok = true
							}
						}
					}
				}
				if bad != "" || ok {
					c.obPath(ok, "accepted", q, token.NoPos, fn.Name(), "%s accepts the name %q", fn.Name(), bad)
				} else {
					c.obPath(ok, "accepted", q, token.NoPos, fn.Name(), "%s isn't known to accept safe names only", fn.Name())
				}
			}
			for i, v := range q.Rets {
				if types.Identical(deptr(sig.Results().At(i).Type()), r.nameType) {
					check(v)
				}
			}
			for i, p := range fn.Params {
				if pt, ok := p.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), r.nameType) {
					check(args[i])
				}
			}
		}
	}
	c.count("functions making names", made, 1)
	// names can't be made elsewhere: the text isn't accessible
	st, _ := r.nameType.Underlying().(*types.Struct)
	hidden := st != nil
	for i := 0; st != nil && i < st.NumFields(); i++ {
		hidden = hidden && !st.Field(i).Exported()
	}
	c.ob(hidden, "constructible", nil, r.nameType.Obj().Pos(), r.nameType.Obj().Name(), "other packages can make names that haven't been checked")
}

// converters: requests for the registry carry names that have been checked.
func (n *nameCheck) converters() {
	c, r := n.r.c, n.r
	found := 0
	for _, fn := range c.w.Funcs {
		pk := fnPkg(fn)
		if pk == nil || !isModule(pk) || pk == r.nameType.Obj().Pkg() || fn.Parent() != nil || fn.Blocks == nil || fn.Synthetic != "" || fn.Signature.Recv() == nil {
			continue
		}
		res := fn.Signature.Results()
		if res.Len() != 2 || !types.Identical(res.At(1).Type(), tError) {
			continue
		}
		st, ok := deptr(res.At(0).Type()).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		var fields []leaf
		for i := 0; i < st.NumFields(); i++ {
			if types.Identical(st.Field(i).Type(), r.nameType) {
				fields = append(fields, leaf{fieldPath(st, i), r.nameType})
			}
		}
		if len(fields) == 0 || fnPkg(fn) == r.iface.Obj().Pkg() {
			continue
		}
		found++
		for _, q := range c.run(r.in, fn, r.in.args(fn, ""), nil, nil) {
			if !q.OK() {
				continue
			}
			for _, f := range fields {
				var s Val
				if p := r.in.deref(q.Rets[0]); p != nil {
					s = n.text(q.St, q.St.load(mkPtr(p.O, p.Path+f.path), r.nameType))
				}
				ok := false
				if s != nil {
					ok, _ = safeOn(q.St, s)
				}
				c.obPath(ok, "converted", q, token.NoPos, f.path[1:], "%s lets a name through that hasn't been checked", fn.Name())
			}
		}
	}
	c.count("requests carrying names", found, 2)
}

// directory: the data directory that the registry is made with is the current
// one, or its path ends with a slash.
func (n *nameCheck) directory() {
	c, r := n.r.c, n.r
	file, ok := isApp(r.file, "concat")
	if !ok || len(file.Args) != 2 {
		c.ob(false, "directory", nil, token.NoPos, "registry", "the file of the registry isn't the data directory followed by a name")
		return
	}
	n.base = file.Args[0]
	var at *leaf
	for _, l := range leaves(deptr(r.svc)) {
		if same(r.in.fieldVal(r.in.NewState(), r.s, l), n.base) {
			l := l
			at = &l
		}
	}
	if at == nil {
		c.ob(false, "directory", nil, token.NoPos, "field", "the data directory isn't a setting of the registry")
		return
	}
	made := 0
	for _, fn := range c.w.Funcs {
		if fn.Signature.Recv() != nil || fn.Parent() != nil || fn.Blocks == nil || fn.Synthetic != "" || fn.Signature.Results().Len() == 0 || !types.Identical(fn.Signature.Results().At(0).Type(), r.svc) {
			continue
		}
		for _, q := range c.run(r.in, fn, r.in.args(fn, ""), nil, nil) {
			if !q.OK() {
				continue
			}
			made++
			v := r.in.fieldVal(q.St, q.Rets[0], *at)
			c.obPath(n.endsWithSlash(q.St, v), "directory", q, token.NoPos, at.path[1:], "the directory isn't known to be empty or to end with a slash, so that files are put outside it")
		}
	}
	c.count("paths making the registry", made, 2)
	// nobody changes it later
	for _, fn := range r.operations() {
		if fn.Name() == "Start" {
			continue // decided for what it calls
		}
		for _, q := range c.run(r.in, fn, r.args(fn), nil, nil) {
			if q.End == "" {
				c.obPath(same(r.in.fieldVal(q.St, r.s, *at), n.base), "directory", q, token.NoPos, fn.Name(), "%s changes the data directory", fn.Name())
			}
		}
	}
}

func (n *nameCheck) endsWithSlash(st *State, v Val) bool {
	if v == nil {
		return false
	}
	if s, ok := constStr(v); ok {
		return s == "" || strings.HasSuffix(s, "/")
	}
	if a, ok := isApp(v, "concat"); ok {
		s, ok := constStr(a.Args[len(a.Args)-1])
		return ok && strings.HasSuffix(s, "/")
	}
	if st.decide(strEq(v, Str(""))) == 1 || st.decide(eqInt(lenTerm(v), Int(0))) == 1 {
		return true
	}
	last := appT(types.Typ[types.Uint8], "elem", v, addc(lenTerm(v), -1))
	if st.decide(eqInt(last, Int('/'))) == 1 {
		return true
	}
	return st.decide(app("fn:strings.HasSuffix", v, Str("/"))) == 1
}

func strEq(a, b Val) Val {
	if a.Key() > b.Key() {
		a, b = b, a
	}
	return app("str==", a, b)
}

var fileNaming = map[string][]int{"os.OpenFile": {0}, "os.Open": {0}, "os.Create": {0}, "os.WriteFile": {0}, "os.ReadFile": {0}, "os.Rename": {0, 1},
	"os.Remove": {0}, "os.RemoveAll": {0}, "os.Truncate": {0}, "os.Mkdir": {0}, "os.MkdirAll": {0}, "os.Link": {0, 1}, "os.Symlink": {0, 1},
	"os.Chmod": {0}, "os.Chown": {0}, "os.CreateTemp": {0}, "os.MkdirTemp": {0}}

// files: the paths of the files of namespaces, as made by the registry or by
// anyone else, and those of the registry.
func (n *nameCheck) files() {
	c, r := n.r.c, n.r
	// every method of a namespace
	ms := types.NewMethodSet(r.ns)
	self := r.in.namedSym("ns", r.ns)
	opened := 0
	for i := 0; i < ms.Len(); i++ {
		fn := c.w.method(r.ns, ms.At(i).Obj().Name())
		if fn == nil || fn.Blocks == nil || !mayNameFiles(fn, map[*ssa.Function]bool{}) || !fn.Object().Exported() {
			continue
		}
		args := r.in.args(fn, "")
		args[0] = self
		for _, q := range c.run(r.in, fn, args, nil, nil) {
			opened += n.paths(q, q.Ev, nil, self, r.in.NewState())
		}
	}
	c.count("files opened by namespaces", opened, 3)
	// namespaces made by the registry
	fn, ps := r.op("CreateNamespace")
	start := c.meth(r.ns, "Start")
	if fn == nil || start == nil {
		return
	}
	made := 0
	for _, q := range ps {
		if q.End != "" || fails(q) {
			continue
		}
		args := r.in.args(start, "start.")
		args[0] = q.Rets[0]
		st := q.St.clone()
		k := st.trLen()
		for _, p := range c.run(r.in, start, args, nil, st) {
			made += n.paths(p, eventsSince(p.St.tr, k), n.base, q.Rets[0], q.St)
		}
	}
	c.count("files opened by registered namespaces", made, 2)
	for _, fn := range r.operations() {
		if fn.Name() == "Start" {
			continue // the namespaces are opaque to the registry
		}
		for _, q := range c.run(r.in, fn, r.args(fn), nil, nil) {
			q.each(func(e *Event, st *State, _ int, _ bool) {
				for _, i := range fileNaming[e.Name] {
					if e.Kind != "call" || i >= len(e.Args) {
						continue
					}
					n.at[e.Pos] = true
					s, ok := n.own(e.Args[i])
					c.obPath(ok, "path", q, e.Pos, e.Name, "%s: the path isn't the data directory followed by a constant name", e.Name)
					if ok {
						n.add("the registry", s, e)
					}
				}
			})
		}
	}
}

// own is the name of a file of the registry in the data directory.
func (n *nameCheck) own(v Val) (string, bool) {
	a, ok := isApp(v, "concat")
	if !ok || len(a.Args) != 2 || !same(a.Args[0], n.base) {
		return "", false
	}
	s, ok := constStr(a.Args[1])
	return s, ok && s != "" && !strings.Contains(s, "/")
}

func (n *nameCheck) add(kind, ext string, e *Event) {
	if n.ext[kind] == nil {
		n.ext[kind] = map[string]*Event{}
	}
	n.ext[kind][ext] = e
}

// paths: what a namespace opens. The result is the number of files.
func (n *nameCheck) paths(q *Path, evs []*Event, base, ns Val, at *State) int {
	c, r := n.r.c, n.r
	p := r.in.deref(ns)
	name := Val(nil)
	if p != nil {
		name = r.in.fieldVal(at, ns, r.name)
	}
	byFile := map[string]string{}
	count := 0
	for _, e := range evs {
		if e.Kind != "call" {
			continue
		}
		for _, i := range fileNaming[e.Name] {
			if i >= len(e.Args) {
				continue
			}
			count++
			n.at[e.Pos] = true
			ext, why := n.extension(e.Args[i], base, name, ns, at)
			c.obPath(why == "", "path", q, e.Pos, e.Name, "%s: %s", e.Name, why)
			if why == "" && len(e.Res) > 0 {
				byFile[unwrap(e.Res[0]).Key()] = ext
			}
		}
		if i := strings.IndexByte(e.Name, '.'); i > 0 && fileNaming[e.Name] == nil {
			for _, a := range e.Args {
				if ext, ok := byFile[unwrap(orNil(a)).Key()]; ok && a != nil {
					n.add(e.Name[:i], ext, e)
				}
			}
		}
	}
	return count
}

// extension is what follows the name in the path of a file.
func (n *nameCheck) extension(v, base, name, ns Val, st *State) (string, string) {
	a, ok := isApp(v, "concat")
	if !ok || len(a.Args) < 3 {
		return "", "the path isn't put together of the data directory, the name and an extension"
	}
	if base != nil && !same(a.Args[0], base) {
		return "", "the path doesn't begin with the data directory"
	}
	if base == nil {
		found := false
		for _, l := range leaves(deptr(n.r.ns)) {
			if isString(l.t) && l.path != n.r.name.path && same(n.r.in.fieldVal(st, ns, l), a.Args[0]) {
				found = true
			}
		}
		if !found {
			return "", "the path doesn't begin with the directory of the namespace"
		}
	}
	if name == nil || !same(a.Args[1], name) {
		return "", "the directory isn't followed by the name of the namespace"
	}
	s, ok := constStr(a.Args[2])
	if !ok || len(a.Args) != 3 {
		return "", "the name isn't followed by a constant extension"
	}
	if s == "" || strings.Contains(s, "/") {
		return "", "what follows the name isn't an extension: " + s
	}
	return s, ""
}

// distinct: no two files have the same path.
func (n *nameCheck) distinct() {
	c := n.r.c
	var kinds []string
	for k := range n.ext {
		if k != "the registry" {
			kinds = append(kinds, k)
		}
	}
	sort.Strings(kinds)
	c.count("kinds of files", len(kinds), 3)
	exts := func(k string) (out []string) {
		for x := range n.ext[k] {
			out = append(out, x)
		}
		sort.Strings(out)
		return out
	}
	clash := func(a, b string) bool { // names followed by a and by b may be equal
		if len(a) > len(b) {
			a, b = b, a
		}
		return strings.HasSuffix(b, a) && safeText(strings.TrimSuffix(b, a))
	}
	for i, k := range kinds {
		for _, x := range exts(k) {
			e := n.ext[k][x]
			for _, o := range exts("the registry") {
				bad := false
				if name, ok := strings.CutSuffix(o, x); ok {
					bad = name != "" && letter(rune(name[0])) && safeText(name)
				}
				c.ob(!bad, "distinct", e.Fn, e.Pos, k+" registry", "a namespace may be named so that its file %s is the file of the registry, %s", x, o)
			}
			for j, k2 := range kinds {
				for _, y := range exts(k2) {
					if i != j || x != y {
						c.ob(!clash(x, y), "distinct", e.Fn, e.Pos, k+" "+k2, "files %s of the %s and %s of the %s may be the same", x, k, y, k2)
					}
				}
			}
		}
	}
}

// elsewhere: there are no other files that could be the same.
func (n *nameCheck) elsewhere() {
	c := n.r.c
	sites := 0
	for _, fn := range c.w.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil || fileNaming[ci.Common().StaticCallee().String()] == nil {
					continue
				}
				sites++
				if !n.at[ci.Pos()] && passesOn(ci) && !n.called(fn) {
					continue // the path is the caller's, and there's no caller
				}
				c.ob(n.at[ci.Pos()], "elsewhere", fn, ci.Pos(), ci.Common().StaticCallee().String(), "a file is named here, and it isn't known to be a file of a namespace or of the registry")
			}
		}
	}
	c.count("calls naming files", sites, 5)
}

// passesOn: the paths are parameters of the function.
func passesOn(ci ssa.CallInstruction) bool {
	for _, i := range fileNaming[ci.Common().StaticCallee().String()] {
		if _, ok := ci.Common().Args[i].(*ssa.Parameter); !ok {
			return false
		}
	}
	return true
}

// called: the function may be called when the program runs.
func (n *nameCheck) called(fn *ssa.Function) bool {
	if n.run == nil {
		n.run = n.r.c.w.mayRun()
	}
	return n.run[fn]
}

// mayRun are the functions of the module that main and the initialisation may
// come to call, by any of the methods that an interface's may stand for.
func (w *World) mayRun() map[*ssa.Function]bool {
	run := map[*ssa.Function]bool{}
	byName := map[string][]*ssa.Function{}
	var todo []*ssa.Function
	add := func(fn *ssa.Function) {
		if !run[fn] {
			run[fn] = true
			todo = append(todo, fn)
		}
	}
	for _, fn := range w.Funcs {
		if fn.Signature.Recv() != nil {
			byName[fn.Name()] = append(byName[fn.Name()], fn)
		} else if (fn.Name() == "main" || strings.HasPrefix(fn.Name(), "init")) && fn.Parent() == nil {
			add(fn)
		}
	}
	for len(todo) > 0 {
		fn := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, a := range fn.AnonFuncs {
			add(a)
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					for _, m := range byName[ci.Common().Method.Name()] {
						add(m)
					}
				}
				for _, op := range ins.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						add(f)
					}
				}
			}
		}
	}
	return run
}

// mayNameFiles: the function, or one it calls, calls something that takes a path.
func mayNameFiles(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok {
				if f, ok := mc.Fn.(*ssa.Function); ok && mayNameFiles(f, seen) {
					return true
				}
			}
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			f := ci.Common().StaticCallee()
			if f == nil {
				continue
			}
			if fileNaming[f.String()] != nil || f.Blocks != nil && fnPkg(f) != nil && isModule(fnPkg(f)) && mayNameFiles(f, seen) {
				return true
			}
		}
	}
	return false
}
