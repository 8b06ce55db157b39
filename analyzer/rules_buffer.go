package main

// The in-memory file.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C32", "Every path of the operations of the in-memory file, from every state in which its position can be told: the contents, the position (as Seek tells it) and the count returned are compared with those of a file, all as linear inequalities; every index is within its bounds. After Close, every path of every operation fails.", fileBufferRules,
		"positions and sizes don't overflow")
}

type fileBuffer struct {
	c  *Ctx
	o  *order
	in *Interp
	t  *types.Named

	fb      Val
	st      *State // open
	pos     ineq
	content *Seq
	size    ineq
	n       int
}

// run runs a method from a state.
func (b *fileBuffer) run(name string, st *State, args ...Val) []*Path {
	fn := b.method(name)
	if fn == nil {
		return nil
	}
	vals := append([]Val{b.fb}, args...)
	if len(vals) != len(fn.Params) {
		b.c.missing("the arguments of " + name)
		return nil
	}
	return b.c.run(b.in, fn, vals, nil, st.clone())
}

func (b *fileBuffer) method(name string) *ssa.Function {
	fn := b.c.w.Prog.LookupMethod(types.NewPointer(b.t), b.t.Obj().Pkg(), name)
	if fn == nil {
		b.c.missing("FileBuffer." + name)
	}
	return fn
}

// args of a method but the receiver.
func (b *fileBuffer) args(name string) []Val {
	fn := b.method(name)
	if fn == nil {
		return nil
	}
	return b.in.args(fn, "")[1:]
}

// bytes of a file in a state.
func (b *fileBuffer) bytes(st *State) (*Seq, bool) {
	ps := b.run("Bytes", st)
	if len(ps) != 1 || ps[0].End != "" || len(ps[0].Rets) != 1 {
		return nil, false
	}
	q, _ := b.in.seqOf(ps[0].St, ps[0].Rets[0])
	return q, true
}

// where: the states in which the position can be told, and the position.
func (b *fileBuffer) where(st *State) (out []*Path) {
	for _, q := range b.run("Seek", st, Int(0), Int(1)) {
		if q.OK() && len(q.Rets) == 2 && !b.o.end(q, nil).impossible(splitDepth) {
			out = append(out, q)
		}
	}
	return
}

func (b *fileBuffer) within(q *Path, name string) {
	c := b.c
	b.o.each(q, nil, func(e *Event, s *sys) {
		switch e.Kind {
		case "bound":
			ok := false
			if e.Sub == "slice" {
				lo, hi, n := b.o.of(e.Args[0]), b.o.of(e.Args[1]), b.o.of(e.Args[2])
				ok = s.entails(lo.times(-1)) && s.entails(lo.plus(hi, -1)) && s.entails(hi.plus(n, -1))
			} else {
				i, n := b.o.of(e.Args[0]), b.o.of(e.Args[1])
				ok = s.entails(i.times(-1)) && s.entails(i.plus(n, -1).add(1))
			}
			c.obPath(ok || s.impossible(splitDepth), "bounds", q, e.Pos, name, "%s may be out of range", name)
		case "alloc":
			ok := len(e.Args) > 0 && s.entails(b.o.of(e.Args[0]).times(-1))
			c.obPath(ok || s.impossible(splitDepth), "bounds", q, e.Pos, name+" alloc", "%s may make a list of a negative size", name)
		case "loop":
			c.obPath(e.Loop != nil && b.o.ends(e.Loop, s.cs), "terminates", q, e.Pos, name, "a loop of %s may never end", name)
		case "idiv", "panic", "nilderef", "nilmap", "anomaly", "exit", "recursion":
			c.obPath(s.impossible(splitDepth), "bounds", q, e.Pos, name+" "+e.Kind, "%s may fail: %s", name, e.Kind)
		}
	})
}

// span is a part of some contents, or zeros.
type span struct {
	base string // "" for zeros
	off  ineq
	n    ineq
}

func (b *fileBuffer) spans(q *Seq) ([]span, bool) {
	var out []span
	for _, g := range q.Segs {
		switch g.Kind {
		case "zero":
			out = append(out, span{"", ineq{t: map[string]int64{}}, b.o.of(g.Len)})
		case "sub":
			out = append(out, span{g.V.Key(), b.o.of(g.Off), b.o.of(g.Len)})
		case "val":
			if k, ok := constInt(g.V); ok && k == 0 {
				out = append(out, span{"", ineq{t: map[string]int64{}}, b.o.of(g.Len)})
				continue
			}
			return nil, false
		default:
			return nil, false
		}
	}
	return out, true
}

// cut takes a part of the spans.
func cutSpans(s *sys, in []span, from, to ineq) ([]span, bool) {
	zero := ineq{t: map[string]int64{}}
	at := zero
	var out []span
	for _, p := range in {
		end := at.plus(p.n, 1)
		lo, hi := at, end
		switch {
		case s.entails(from.plus(at, -1)):
		case s.entails(at.plus(from, -1)):
			lo = from
		default:
			return nil, false
		}
		switch {
		case s.entails(end.plus(to, -1)):
		case s.entails(to.plus(end, -1)):
			hi = to
		default:
			return nil, false
		}
		if n := hi.plus(lo, -1); !s.entails(n) {
			q := span{p.base, p.off, n}
			if p.base != "" {
				q.off = p.off.plus(lo, 1).plus(at, -1)
			}
			out = append(out, q)
		}
		at = end
	}
	return out, true
}

// equalSpans: the contents are the same.
func equalSpans(s *sys, a, b []span) bool {
	trim := func(x []span) []span {
		for len(x) > 0 && s.entails(x[0].n) {
			x = x[1:]
		}
		return x
	}
	for {
		a, b = trim(a), trim(b)
		if len(a) == 0 || len(b) == 0 {
			return len(a) == 0 && len(b) == 0
		}
		x, y := a[0], b[0]
		if x.base != y.base || x.base != "" && !s.entailsEq(x.off.plus(y.off, -1)) {
			return false
		}
		rest := func(p, q span) span { // of p, without q's length
			r := span{p.base, p.off, p.n.plus(q.n, -1)}
			if p.base != "" {
				r.off = p.off.plus(q.n, 1)
			}
			return r
		}
		switch {
		case s.entails(x.n.plus(y.n, -1)):
			a = a[1:]
			b = append([]span{rest(y, x)}, b[1:]...)
		case s.entails(y.n.plus(x.n, -1)):
			b = b[1:]
			a = append([]span{rest(x, y)}, a[1:]...)
		default:
			return false
		}
	}
}

// state checks the contents and the position after an operation.
func (b *fileBuffer) after(q *Path, name string, want []span, pos func(s *sys, at ineq) bool) {
	c := b.c
	b.n++
	got, ok := b.bytes(q.St)
	s := b.o.end(q, nil)
	same := false
	if ok {
		if ps, ok := b.spans(got); ok {
			same = equalSpans(s, ps, want)
		}
	}
	show := ""
	if got != nil {
		show = got.Key()
	}
	c.obPath(same, "contents", q, q.Fn.Pos(), name, "the contents after %s aren't known to be those of a file: %s", name, clip(show))
	told := b.where(q.St)
	c.obPath(len(told) > 0, "position", q, q.Fn.Pos(), name+" tells", "the position after %s can't be told", name)
	for _, w := range told {
		s := b.o.end(w, nil)
		c.obPath(pos(s, b.o.of(w.Rets[0])), "position", q, q.Fn.Pos(), name, "the position after %s is %s", name, clip(w.Rets[0].Key()))
	}
	// no state is left in which the position can't be told
	for _, w := range b.run("Seek", q.St, Int(0), Int(1)) {
		if !w.OK() {
			c.obPath(b.o.end(w, nil).impossible(splitDepth), "position", q, q.Fn.Pos(), name+" fails", "the position may be unusable after %s", name)
		}
	}
}

func (b *fileBuffer) at(want ineq) func(s *sys, at ineq) bool {
	return func(s *sys, at ineq) bool { return s.entailsEq(at.plus(want, -1)) }
}

func fileBufferRules(c *Ctx) {
	t := c.named("helpers", "FileBuffer")
	if t == nil {
		return
	}
	b := &fileBuffer{c: c, o: newOrder(), t: t}
	b.in = NewInterp(c.w, Config{Order: b.o})
	b.created()
	seek := b.method("Seek")
	if seek == nil {
		return
	}
	b.fb = b.in.args(seek, "")[0]
	// every state in which the position can be told and is within the file
	open := 0
	for _, q := range b.where(b.in.NewState()) {
		content, ok := b.bytes(q.St)
		if !ok {
			continue
		}
		b.st, b.content = q.St, content
		b.pos, b.size = b.o.of(q.Rets[0]), b.o.of(content.length())
		s := b.o.end(q, nil)
		ok = s.entails(b.pos.times(-1)) && s.entails(b.pos.plus(b.size, -1))
		c.obPath(ok, "position", q, seek.Pos(), "initial", "the position may be outside the file")
		open++
		b.read()
		b.write()
		b.seek()
		b.truncate()
		b.closed()
		b.length()
	}
	c.count("open files", open, 1)
	c.count("outcomes", b.n, 10)
}

func (b *fileBuffer) initial() []span {
	ps, ok := b.spans(b.content)
	b.c.ob(ok, "contents", b.method("Bytes"), b.method("Bytes").Pos(), "initial", "the contents of the file aren't known: %s", clip(b.content.Key()))
	return ps
}

func (b *fileBuffer) buffer(name string) (Val, Val, []span) {
	args := b.args(name)
	if len(args) != 1 {
		return nil, nil, nil
	}
	q, n := b.in.seqOf(b.st, args[0])
	ps, _ := b.spans(q)
	return args[0], n, ps
}

func (b *fileBuffer) read() {
	c := b.c
	buf, n, before := b.buffer("Read")
	if buf == nil {
		return
	}
	m := b.o.of(n)
	data := b.initial()
	for _, q := range b.run("Read", b.st, buf) {
		s := b.o.end(q, nil)
		if s.impossible(splitDepth) {
			continue
		}
		if !c.obPath(q.End == "" && len(q.Rets) == 2, "ends", q, q.Fn.Pos(), "Read", "Read ends by %s", q.End) {
			continue
		}
		b.within(q, "Read")
		k := b.o.of(q.Rets[0])
		left := b.size.plus(b.pos, -1)
		if !q.OK() {
			c.obPath(isEOF(q.Err) && s.entails(left), "eof", q, q.Fn.Pos(), "Read", "Read fails although there is something to read, or by another error than EOF")
			c.obPath(s.entailsEq(k), "count", q, q.Fn.Pos(), "Read failure", "Read tells that it has read %s bytes at the end of the file", clip(q.Rets[0].Key()))
			b.after(q, "Read", data, b.at(b.pos))
			continue
		}
		none := s.clone() // nothing at the end of the file
		none.le(left)
		none.le(m.times(-1).add(1))
		b.o.about(none)
		c.obPath(none.impossible(splitDepth), "eof", q, q.Fn.Pos(), "Read end", "Read doesn't tell the end of the file")
		less := s.clone()
		less.le(k.plus(m, -1).add(1))
		less.le(k.plus(left, -1).add(1))
		b.o.about(less)
		ok := s.entails(k.plus(m, -1)) && s.entails(k.plus(left, -1)) && less.impossible(splitDepth)
		c.obPath(ok, "count", q, q.Fn.Pos(), "Read", "Read reads %s bytes", clip(q.Rets[0].Key()))
		got, _ := b.in.seqOf(q.St, buf)
		ps, ok := b.spans(got)
		part, ok1 := cutSpans(s, data, b.pos, b.pos.plus(k, 1))
		rest, ok2 := cutSpans(s, before, k, m)
		ok = ok && ok1 && ok2 && equalSpans(s, ps, append(part, rest...))
		c.obPath(ok, "transfer", q, q.Fn.Pos(), "Read", "Read isn't known to read what is at the position: %s", clip(got.Key()))
		b.after(q, "Read", data, b.at(b.pos.plus(k, 1)))
	}
}

func isEOF(v Val) bool {
	return v != nil && len(v.Key()) >= 10 && v.Key()[len(v.Key())-10:] == "ext:io.EOF"
}

func (b *fileBuffer) write() {
	c := b.c
	buf, n, given := b.buffer("Write")
	if buf == nil {
		return
	}
	m := b.o.of(n)
	zero := ineq{t: map[string]int64{}}
	data := b.initial()
	for _, q := range b.run("Write", b.st, buf) {
		s := b.o.end(q, nil)
		if s.impossible(splitDepth) {
			continue
		}
		if !c.obPath(q.End == "" && q.OK() && len(q.Rets) == 2, "ends", q, q.Fn.Pos(), "Write", "Write may fail") {
			continue
		}
		b.within(q, "Write")
		c.obPath(s.entailsEq(b.o.of(q.Rets[0]).plus(m, -1)), "count", q, q.Fn.Pos(), "Write", "Write writes %s bytes", clip(q.Rets[0].Key()))
		end := b.pos.plus(m, 1)
		// what is behind, if the file is longer
		var tails [][]span
		var cases []*sys
		in, out := s.clone(), s.clone()
		in.le(end.plus(b.size, -1))
		out.le(b.size.plus(end, -1).add(1))
		b.o.about(in)
		b.o.about(out)
		if !in.impossible(splitDepth) {
			rest, _ := cutSpans(in, data, end, b.size)
			tails, cases = append(tails, rest), append(cases, in)
		}
		if !out.impossible(splitDepth) {
			tails, cases = append(tails, nil), append(cases, out)
		}
		got, ok := b.bytes(q.St)
		for i, s := range cases {
			same := false
			if ok {
				head, ok1 := cutSpans(s, data, zero, b.pos)
				ps, ok2 := b.spans(got)
				want := append(append(append([]span{}, head...), given...), tails[i]...)
				same = ok1 && ok2 && equalSpans(s, ps, want)
			}
			c.obPath(same, "contents", q, q.Fn.Pos(), "Write", "the contents after Write aren't known to be those of a file: %s", clip(seqText(got)))
		}
		src, _ := b.in.seqOf(q.St, buf)
		was, _ := b.in.seqOf(b.st, buf)
		c.obPath(src.Key() == was.Key(), "transfer", q, q.Fn.Pos(), "Write", "Write changes what it's given")
		b.moved(q, "Write", end)
	}
}

// moved checks the position after an operation.
func (b *fileBuffer) moved(q *Path, name string, want ineq) {
	b.n++
	told := 0
	for _, w := range b.run("Seek", q.St, Int(0), Int(1)) {
		s := b.o.end(w, nil)
		if s.impossible(splitDepth) {
			continue
		}
		ok := w.OK() && len(w.Rets) == 2 && s.entailsEq(b.o.of(w.Rets[0]).plus(want, -1))
		told++
		b.c.obPath(ok, "position", q, q.Fn.Pos(), name, "the position after %s isn't the right one", name)
	}
	b.c.obPath(told > 0, "position", q, q.Fn.Pos(), name+" tells", "the position after %s can't be told", name)
}

func seqText(q *Seq) string {
	if q == nil {
		return "?"
	}
	return q.Key()
}

func (b *fileBuffer) seek() {
	c := b.c
	args := b.args("Seek")
	if len(args) != 2 {
		return
	}
	data := b.initial()
	zero := ineq{t: map[string]int64{}}
	froms := map[int64]ineq{0: zero, 1: b.pos, 2: b.size}
	for _, whence := range []int64{0, 1, 2} {
		to := froms[whence].plus(b.o.of(args[0]), 1)
		for _, q := range b.run("Seek", b.st, args[0], Int(whence)) {
			s := b.o.end(q, nil)
			if s.impossible(splitDepth) {
				continue
			}
			if !c.obPath(q.End == "" && len(q.Rets) == 2, "ends", q, q.Fn.Pos(), "Seek", "Seek ends by %s", q.End) {
				continue
			}
			b.within(q, "Seek")
			if !q.OK() {
				in := s.clone()
				in.le(to.times(-1))
				in.le(to.plus(b.size, -1))
				b.o.about(in)
				c.obPath(in.impossible(splitDepth), "refused", q, q.Fn.Pos(), "Seek inside", "Seek refuses a position within the file")
				b.after(q, "Seek", data, b.at(b.pos))
				continue
			}
			c.obPath(s.entails(to.times(-1)) && s.entails(to.plus(b.size, -1)), "refused", q, q.Fn.Pos(), "Seek", "Seek may accept a position outside the file")
			c.obPath(s.entailsEq(b.o.of(q.Rets[0]).plus(to, -1)), "count", q, q.Fn.Pos(), "Seek", "Seek tells that the position is %s", clip(q.Rets[0].Key()))
			b.after(q, "Seek", data, b.at(to))
		}
	}
	st := b.st.clone()
	for k := int64(0); k < 3; k++ {
		st.addFact(eqInt(args[1], Int(k)), false)
	}
	for _, q := range b.run("Seek", st, args[0], args[1]) {
		if b.o.end(q, nil).impossible(splitDepth) {
			continue
		}
		c.obPath(q.End == "" && !q.OK(), "refused", q, q.Fn.Pos(), "Seek whence", "Seek accepts an unknown origin")
		b.after(q, "Seek", data, b.at(b.pos))
	}
}

func (b *fileBuffer) truncate() {
	c := b.c
	args := b.args("Truncate")
	if len(args) != 1 {
		return
	}
	size := b.o.of(args[0])
	zero := ineq{t: map[string]int64{}}
	data := b.initial()
	for _, q := range b.run("Truncate", b.st, args[0]) {
		s := b.o.end(q, nil)
		if s.impossible(splitDepth) {
			continue
		}
		if !c.obPath(q.End == "", "ends", q, q.Fn.Pos(), "Truncate", "Truncate ends by %s", q.End) {
			continue
		}
		b.within(q, "Truncate")
		if !q.OK() {
			c.obPath(s.entails(size.add(1)), "refused", q, q.Fn.Pos(), "Truncate", "Truncate refuses a size that isn't negative")
			b.after(q, "Truncate", data, b.at(b.pos))
			continue
		}
		c.obPath(s.entails(size.times(-1)), "refused", q, q.Fn.Pos(), "Truncate negative", "Truncate may accept a negative size")
		got, ok := b.bytes(q.St)
		shrink, grow := s.clone(), s.clone()
		shrink.le(size.plus(b.size, -1))
		grow.le(b.size.plus(size, -1).add(1))
		for i, s := range []*sys{shrink, grow} {
			b.o.about(s)
			if s.impossible(splitDepth) {
				continue
			}
			same := false
			if ok {
				ps, ok1 := b.spans(got)
				var want []span
				ok2 := true
				if i == 0 {
					want, ok2 = cutSpans(s, data, zero, size)
				} else {
					want = append(append([]span{}, data...), span{"", zero, size.plus(b.size, -1)})
				}
				same = ok1 && ok2 && equalSpans(s, ps, want)
			}
			c.obPath(same, "contents", q, q.Fn.Pos(), "Truncate", "the contents after Truncate aren't known to be those of a file: %s", clip(seqText(got)))
		}
		// the position stays, unless it would be outside
		b.n++
		told := 0
		for _, w := range b.run("Seek", q.St, Int(0), Int(1)) {
			s := b.o.end(w, nil)
			if s.impossible(splitDepth) {
				continue
			}
			told++
			ok := w.OK() && len(w.Rets) == 2
			for i, want := range []ineq{b.pos, size} {
				t := s.clone()
				if i == 0 {
					t.le(b.pos.plus(size, -1))
				} else {
					t.le(size.plus(b.pos, -1).add(1))
				}
				b.o.about(t)
				if ok && !t.impossible(splitDepth) {
					ok = t.entailsEq(b.o.of(w.Rets[0]).plus(want, -1))
				}
			}
			c.obPath(ok, "position", q, q.Fn.Pos(), "Truncate", "the position after Truncate isn't the right one")
		}
		c.obPath(told > 0, "position", q, q.Fn.Pos(), "Truncate tells", "the position after Truncate can't be told")
	}
}

// closed: after Close, nothing works.
func (b *fileBuffer) closed() {
	c := b.c
	n := 0
	for _, q := range b.run("Close", b.st) {
		if !c.obPath(q.OK(), "ends", q, q.Fn.Pos(), "Close", "Close fails") {
			continue
		}
		b.within(q, "Close")
		got, ok := b.bytes(q.St)
		if ok {
			ps, ok1 := b.spans(got)
			ok = ok1 && equalSpans(b.o.end(q, nil), ps, b.initial())
		}
		c.obPath(ok, "contents", q, q.Fn.Pos(), "Close", "Close changes the contents")
		for _, again := range b.run("Close", q.St) { // stays closed
			for _, p := range b.run("Seek", again.St, b.args("Seek")...) {
				ok := p.End == "" && !p.OK() || b.o.end(p, nil).impossible(splitDepth)
				c.obPath(ok, "closed", p, again.Fn.Pos(), "Close twice", "closing twice opens the file again")
			}
		}
		for _, name := range []string{"Read", "Write", "Seek", "Truncate"} {
			for _, p := range b.run(name, q.St, b.args(name)...) {
				if b.o.end(p, nil).impossible(splitDepth) {
					continue
				}
				n++
				b.within(p, name)
				c.obPath(p.End == "" && p.Err != nil && !p.OK() && p.St.isNil(p.Err) == -1, "closed", p, p.Fn.Pos(), name, "%s works on a closed file", name)
				after, ok := b.bytes(p.St)
				if ok {
					ps, ok1 := b.spans(after)
					ok = ok1 && equalSpans(b.o.end(p, nil), ps, b.initial())
				}
				c.obPath(ok, "contents", p, p.Fn.Pos(), name+" closed", "%s changes the contents of a closed file", name)
			}
		}
	}
	c.count("closed", n, 4)
}

// length is that of the contents.
func (b *fileBuffer) length() {
	for _, q := range b.run("Len", b.st) {
		ok := q.End == "" && len(q.Rets) == 1 && b.o.end(q, nil).entailsEq(b.o.of(q.Rets[0]).plus(b.size, -1))
		b.c.obPath(ok, "count", q, q.Fn.Pos(), "Len", "Len isn't the number of bytes of the file")
	}
}

// created: a new file has the given contents and is open at its beginning.
func (b *fileBuffer) created() {
	c := b.c
	fn := c.fn("helpers.NewFileBuffer")
	if fn == nil {
		return
	}
	args := b.in.args(fn, "")
	if len(args) != 1 {
		c.missing("the contents that NewFileBuffer is given")
		return
	}
	n := 0
	for _, given := range []Val{args[0], Nil} {
		for _, q := range c.run(b.in, fn, []Val{given}, nil, nil) {
			if !c.obPath(q.End == "" && len(q.Rets) == 1, "ends", q, fn.Pos(), "NewFileBuffer", "NewFileBuffer ends by %s", q.End) {
				continue
			}
			n++
			b.within(q, "NewFileBuffer")
			b.fb = q.Rets[0]
			want, _ := b.in.seqOf(q.St, given)
			ps, ok := b.spans(want)
			if q.St.isNil(given) == 1 {
				ps, ok = nil, true
			}
			c.obPath(ok, "contents", q, fn.Pos(), "NewFileBuffer given", "the contents given aren't known")
			b.after(q, "NewFileBuffer", ps, b.at(ineq{t: map[string]int64{}}))
		}
	}
	c.count("new files", n, 2)
}
