package main

// The worker of a namespace and its clients.

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", "For every operation of a namespace, on every path: it sends at most one action, whose kind is the constant named after the operation, whose payload holds the operation's arguments in order and whose channels are new ones with room for an answer; it returns what it has received from the channels of that action, or an error. The worker: every action received from the queue is passed, in the order of receipt, to exactly one call of the storage, and if that fails the error is offered, without waiting, to each of these actions; it waits for no more actions than the queue is known to hold, so that none of those received waits for another. The storage: exactly one send per action of the list, to the channel of its kind, and no panic on a payload that the operation sends.", answerRules)
}

// worker is what's known about the goroutine that a namespace starts.
type worker struct {
	c                  *Ctx
	t                  types.Type
	action             *types.Named
	in                 *Interp
	ns                 Val
	start              *ssa.Function
	starts             []*Path // of Start
	runs               []*Path // of the goroutine
	queue, quit        Val
	kind, errF, payldF leaf
	stop, client0      []*Path
}

// goroutines runs the functions that a path starts, from the state at the go statement.
func (c *Ctx) goroutines(q *Path) (out []*Path) {
	walk(q.Ev, nil, func(e *Event, _ []*IterPath) {
		if e.Kind != "go" {
			return
		}
		cl, ok := e.Obj.(*Closure)
		st := q.In.W.goStates[e]
		if !ok || st == nil {
			c.obPath(false, "goroutine", q, e.Pos, q.Fn.Name(), "the function started isn't known")
			return
		}
		n := st.trLen()
		for _, p := range c.run(q.In, cl.Fn, e.Args, cl.Binds, st.clone()) {
			p.Ev = eventsSince(p.St.tr, n)
			out = append(out, p)
		}
	})
	return
}

func (c *Ctx) nsWorker() *worker {
	w := &worker{c: c, t: c.impl("domain", "Namespace"), action: c.named("domain", "Action")}
	if w.t == nil || w.action == nil {
		return nil
	}
	w.start = c.meth(w.t, "Start")
	stop := c.meth(w.t, "Stop")
	if w.start == nil || stop == nil {
		return nil
	}
	w.in = NewInterp(c.w, Config{OpaqueIface: storages})
	w.ns = w.in.namedSym("ns", w.t)
	for _, l := range leaves(w.action) {
		switch u := l.t.Underlying().(type) {
		case *types.Chan:
			if types.Identical(u.Elem(), tError) {
				w.errF = l
			}
		case *types.Interface:
			w.payldF = l
		case *types.Basic:
			w.kind = l
		}
	}
	w.starts = c.run(w.in, w.start, w.args(w.in, w.start), nil, nil)
	for _, q := range w.starts {
		w.runs = append(w.runs, c.goroutines(q)...)
	}
	for _, q := range w.runs {
		q.each(func(e *Event, _ *State, _ int, _ bool) {
			if e.Kind == "recv" && len(e.Res) > 0 && w.isAction(e.Res[0]) {
				w.queue = e.Obj
			}
		})
	}
	in := NewInterp(c.w, Config{})
	w.stop = c.run(in, stop, w.args(in, stop), nil, nil)
	for _, q := range w.stop {
		q.each(func(e *Event, _ *State, _ int, _ bool) {
			if e.Kind == "close" && e.Sub == "chan" {
				w.quit = e.Obj
			}
		})
	}
	switch {
	case w.queue == nil:
		c.missing("the queue that the worker of a namespace receives from")
	case w.quit == nil:
		c.missing("the channel that stopping a namespace closes")
	case w.kind.path == "" || w.errF.path == "" || w.payldF.path == "":
		c.missing("the fields of Action")
	default:
		return w
	}
	return nil
}

func (w *worker) isAction(v Val) bool {
	s, ok := v.(*Sym)
	return ok && s.T != nil && types.Identical(s.T, w.action)
}

func (w *worker) args(in *Interp, fn *ssa.Function) []Val {
	args := in.args(fn, "")
	args[0] = w.ns
	return args
}

// operation is an operation that the worker performs.
type operation struct {
	fn      *ssa.Function
	paths   []*Path
	kind    int64
	payload types.Type
}

// operations are the exported methods that put an action in the queue.
func (w *worker) operations() (out []*operation) {
	c := w.c
	ms := types.NewMethodSet(w.t)
	for i := 0; i < ms.Len(); i++ {
		fn := c.w.method(w.t, ms.At(i).Obj().Name())
		if fn == nil || fn == w.start || !ms.At(i).Obj().Exported() {
			continue
		}
		in := NewInterp(c.w, Config{})
		o := &operation{fn: fn, kind: -1, paths: c.run(in, fn, w.args(in, fn), nil, nil)}
		sends := false
		for _, q := range o.paths {
			for _, e := range w.sends(q.Ev) {
				sends = true
				ag, ok := e.Args[0].(*Agg)
				if !ok {
					continue
				}
				o.kind, _ = constInt(aggField(ag, w.kind))
				if p, ok := aggField(ag, w.payldF).(*Iface); ok {
					o.payload = p.Dyn
				}
			}
		}
		if sends {
			out = append(out, o)
		}
	}
	return
}

// aggField is a field of a struct value.
func aggField(a *Agg, l leaf) Val {
	st, ok := a.N.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if fieldPath(st, i) == l.path {
			return a.Fields[i]
		}
	}
	return nil
}

// sends are the sends to the queue.
func (w *worker) sends(evs []*Event) (out []*Event) {
	walk(evs, nil, func(e *Event, _ []*IterPath) {
		if e.Kind == "send" && e.Obj != nil && e.Obj.Key() == w.queue.Key() {
			out = append(out, e)
		}
	})
	return
}

// roomy: a channel made by the path, with room for a value.
func roomy(q *Path, ch Val) bool {
	p, ok := unwrap(ch).(*Ptr)
	if !ok || p.O.Kind != "chan" {
		return false
	}
	v := q.St.heap[p.loc()+"#cap"]
	if v == nil {
		return false
	}
	n, ok := constInt(v)
	return ok && n >= 1
}

func answerRules(c *Ctx) {
	w := c.nsWorker()
	if w == nil {
		return
	}
	ops := w.operations()
	c.count("operations performed by the worker", len(ops), 7)
	kinds := map[int64]*operation{}
	for _, o := range ops {
		if x := kinds[o.kind]; x != nil {
			c.ob(false, "request", o.fn, o.fn.Pos(), o.fn.Name()+" kind", "%s and %s send the same kind of action", o.fn.Name(), x.fn.Name())
		}
		kinds[o.kind] = o
		w.client(o)
	}
	w.batches()
	n := 0
	for _, q := range w.runs {
		n += w.waiting(q, q.Ev, q.St, true)
	}
	c.count("waiting of workers", n, 3)
	w.responses(kinds)
}

func (w *worker) client(o *operation) {
	c := w.c
	var want Val
	if k, ok := c.w.Pkg("domain").Members["Action"+o.fn.Name()].(*ssa.NamedConst); ok {
		if n, exact := constant.Int64Val(k.Value.Value); exact {
			want = Int(n)
		}
	}
	if want == nil {
		c.missing("the kind of action of " + o.fn.Name())
		return
	}
	for _, q := range o.paths {
		fail := func(ok bool, construct, format string, args ...any) bool {
			return c.obPath(ok, "request", q, o.fn.Pos(), o.fn.Name()+" "+construct, format, args...)
		}
		if !fail(q.End == "", "end", "%s may end with %s", o.fn.Name(), q.End) {
			continue
		}
		sends := w.sends(q.Ev)
		nOther := 0
		q.each(func(e *Event, _ *State, _ int, _ bool) {
			if e.Kind == "send" && e.Obj.Key() != w.queue.Key() {
				nOther++
			}
		})
		fail(nOther == 0, "other", "%s sends something to another channel than the queue", o.fn.Name())
		if len(sends) == 0 {
			fail(q.Err != nil && q.St.isNil(q.Err) == -1, "refused", "%s succeeds without having submitted an action", o.fn.Name())
			told := false
			for _, e := range q.Ev {
				told = told || e.Kind == "recv" && e.Obj != nil && e.Obj.Key() == w.quit.Key()
			}
			fail(told, "refused", "%s gives up though the namespace isn't known to have stopped", o.fn.Name())
			continue
		}
		if !fail(len(sends) == 1, "once", "%s submits %d actions", o.fn.Name(), len(sends)) {
			continue
		}
		a, ok := sends[0].Args[0].(*Agg)
		if !fail(ok, "action", "the action submitted by %s isn't known", o.fn.Name()) {
			continue
		}
		k := aggField(a, w.kind)
		fail(k.Key() == want.Key(), "kind", "the kind of the action submitted is %s, not Action%s", k.Key(), o.fn.Name())
		errCh := aggField(a, w.errF)
		fail(roomy(q, errCh), "error channel", "the channel for errors isn't a new one with room for an answer")
		pay, ok := aggField(a, w.payldF).(*Iface)
		if !fail(ok && o.payload != nil && types.Identical(pay.Dyn, o.payload), "payload", "the payload isn't of a known type") {
			continue
		}
		v, ok := pay.V.(*Agg)
		st, oks := pay.Dyn.Underlying().(*types.Struct)
		if !fail(ok && oks, "payload", "the payload isn't known") {
			continue
		}
		var ch Val
		arg := 1
		for i := 0; i < st.NumFields(); i++ {
			if _, isCh := st.Field(i).Type().Underlying().(*types.Chan); isCh {
				ch = v.Fields[i]
				fail(roomy(q, ch), "channel", "the channel for the result isn't a new one with room for an answer")
				continue
			}
			okArg := arg < len(o.fn.Params) && v.Fields[i].Key() == argOfField(o.fn, st.Field(i).Name(), arg)
			fail(okArg, "argument "+st.Field(i).Name(), "the payload's %s is %s, not the argument given", st.Field(i).Name(), clip(v.Fields[i].Key()))
			arg++
		}
		fail(arg == len(o.fn.Params), "arguments", "not all the arguments are passed to the worker")
		// what it returns
		var got *Event
		n := 0
		for _, e := range q.Ev {
			if e.Kind == "recv" {
				got = e
				n++
			}
		}
		if !fail(n == 1, "answer", "%s waits for %d answers", o.fn.Name(), n) {
			continue
		}
		switch {
		case got.Obj.Key() == errCh.Key():
			ok = q.Err != nil && (q.Err.Key() == got.Res[0].Key() || q.St.isNil(q.Err) == q.St.isNil(got.Res[0]) && q.St.isNil(q.Err) != 0)
			if q.St.isNil(got.Res[0]) == -1 && q.St.isNil(q.Err) == -1 {
				ok = wraps(q.Err, got.Res[0])
			}
			fail(ok, "answer error", "%s doesn't return the error it has been answered", o.fn.Name())
		case ch != nil && got.Obj.Key() == ch.Key():
			fail(q.St.isNil(q.Err) == 1 && same(q.Rets[0], got.Res[0]), "answer result", "%s doesn't return the result it has been answered", o.fn.Name())
		default:
			fail(got.Obj.Key() == w.quit.Key() && q.St.isNil(q.Err) == -1, "stopped", "%s returns without an answer and without an error", o.fn.Name())
		}
	}
	// an answer may come from each of its channels
	waited := map[string]bool{}
	for _, q := range o.paths {
		for _, e := range q.Ev {
			if e.Kind == "recv" {
				waited[chanRole(w, q, e.Obj)] = true
			}
		}
	}
	c.ob(waited["error"], "request", o.fn, o.fn.Pos(), o.fn.Name()+" waits error", "%s doesn't wait for an error", o.fn.Name())
	hasResult := false
	if st, ok := o.payload.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			_, isCh := st.Field(i).Type().Underlying().(*types.Chan)
			hasResult = hasResult || isCh
		}
	}
	c.ob(!hasResult || waited["result"], "request", o.fn, o.fn.Pos(), o.fn.Name()+" waits result", "%s doesn't wait for the result", o.fn.Name())
}

// argOfField is the argument that a field of a payload is for: the one whose name the
// field's name starts with, or else the one at the same place.
func argOfField(fn *ssa.Function, field string, arg int) string {
	found := ""
	for _, p := range fn.Params[1:] {
		if strings.HasPrefix(strings.ToLower(field), strings.ToLower(p.Name())) {
			if found != "" {
				return fn.Params[arg].Name()
			}
			found = p.Name()
		}
	}
	if found == "" {
		return fn.Params[arg].Name()
	}
	return found
}

// wraps: an error is another one or wraps it.
func wraps(e, of Val) bool {
	if e.Key() == of.Key() {
		return true
	}
	if a, ok := isApp(e, "errorf"); ok && len(a.Args) == 2 {
		return wraps(a.Args[1], of)
	}
	return false
}

// chanRole tells which channel of the action sent on the path it is.
func chanRole(w *worker, q *Path, ch Val) string {
	if ch.Key() == w.quit.Key() {
		return "quit"
	}
	for _, e := range w.sends(q.Ev) {
		if a, ok := e.Args[0].(*Agg); ok {
			if aggField(a, w.errF).Key() == ch.Key() {
				return "error"
			}
			return "result"
		}
	}
	return ""
}

// whole is the struct that a value consists of all the fields of.
func whole(v Val) Val {
	a, ok := v.(*Agg)
	if !ok {
		return v
	}
	st, ok := a.N.Underlying().(*types.Struct)
	if !ok {
		return v
	}
	var of Val
	for i, f := range a.Fields {
		x, ok := isApp(f, "field:"+st.Field(i).Name())
		if !ok || of != nil && of.Key() != x.Args[0].Key() {
			return v
		}
		of = x.Args[0]
	}
	if of == nil {
		return v
	}
	return of
}

// isRecv: a receipt of an action from the queue.
func (w *worker) isRecv(e *Event) bool {
	return e.Kind == "recv" && e.Obj != nil && e.Obj.Key() == w.queue.Key()
}

// batches: what the worker receives is what it passes on.
func (w *worker) batches() {
	c := w.c
	c.count("ways through the worker", len(w.runs), 2)
	n := 0
	for _, q := range w.runs {
		c.obPath(q.End == "", "worker", q, q.Fn.Pos(), "end", "the worker may end with %s", q.End)
		n += w.batch(q, q.Ev, q.St)
		walk(q.Ev, nil, func(e *Event, up []*IterPath) {
			if e.Loop == nil || w.received(up) {
				return
			}
			for _, it := range e.Loop.Iters {
				n += w.batch(q, it.Events, it.End)
			}
		})
	}
	c.count("batches of actions", n, 2)
}

// received: one of the enclosing iterations receives something itself.
func (w *worker) received(up []*IterPath) bool {
	for _, it := range up {
		for _, e := range it.Events {
			if w.isRecv(e) {
				return true
			}
		}
	}
	return false
}

func (w *worker) batch(q *Path, evs []*Event, st *State) int {
	c := w.c
	fail := func(ok bool, e *Event, construct, format string, args ...any) bool {
		return c.obPath(ok, "batch", q, e.Pos, "worker "+construct, format, args...)
	}
	// the events of this level
	type part struct {
		e *Event // a receipt, or a loop of receipts
	}
	var got []part
	var process []*Event
	for _, e := range evs {
		switch {
		case w.isRecv(e):
			fail(len(process) == 0, e, "late", "an action is received after the actions have been passed to the storage")
			got = append(got, part{e})
		case e.Loop != nil:
			recvs, calls := false, false
			walk(e.Loop.Iters0(), nil, func(x *Event, _ []*IterPath) {
				recvs = recvs || w.isRecv(x)
				calls = calls || isProcess(x)
			})
			if recvs && calls {
				continue // a batch of its own
			}
			if recvs {
				fail(len(process) == 0, e, "late", "an action is received after the actions have been passed to the storage")
				got = append(got, part{e})
			}
			fail(!calls || !recvs && len(got) == 0, e, "again", "actions may be passed to the storage more than once")
		case isProcess(e):
			process = append(process, e)
		}
	}
	if len(got) == 0 {
		for _, e := range process {
			fail(false, e, "nothing", "something is passed to the storage that hasn't been received")
		}
		return 0
	}
	if !fail(len(process) == 1, got[0].e, "once", "the actions received are passed to the storage %d times", len(process)) {
		return 1
	}
	call := process[0]
	seq, _ := q.In.seqOf(st, call.Args[0])
	segs := seq.Segs
	ok := true
	for _, p := range got {
		if !ok || len(segs) == 0 {
			ok = false
			break
		}
		g := segs[0]
		segs = segs[1:]
		if p.e.Loop == nil {
			n, isC := constInt(g.Len)
			ok = g.Kind == "val" && isC && n == 1 && whole(g.V).Key() == p.e.Res[0].Key()
			continue
		}
		l := p.e.Loop
		ok = g.Kind == "sub" && w.collects(q, l, g)
	}
	fail(ok && len(segs) == 0, call, "list", "what is passed to the storage isn't the list of the actions received: %s", clip(seq.Key()))
	// failures
	if st.isNil(call.Err) == 1 {
		return 1
	}
	answered := false
	after := false
	for _, e := range evs {
		after = after || e == call
		if after && e.Loop != nil {
			answered = answered || w.answersAll(st, e.Loop, call.Args[0], seq, call.Err)
		}
	}
	fail(answered, call, "failure", "when the storage fails, its error isn't offered to every action")
	return 1
}

func isProcess(e *Event) bool {
	return e.Kind == "call" && strings.HasSuffix(e.Name, ".ProcessActions")
}

// collects: each iteration of the loop receives one action and appends it to the
// list whose new elements the segment stands for.
func (w *worker) collects(q *Path, l *LoopSum, g Seg) bool {
	for _, h := range l.Havoc {
		sl, ok := h.At.(*Slice)
		if !ok || len(h.Next) != len(l.Iters) {
			continue
		}
		at, _ := q.In.seqOf(l.Iters[0].End, sl)
		if len(at.Segs) == 0 || at.Segs[len(at.Segs)-1].Kind != "sub" || at.Segs[len(at.Segs)-1].V.Key() != g.V.Key() || g.Len.Key() != l.Count.Key() {
			continue
		}
		for i, it := range l.Iters {
			nx, _ := q.In.seqOf(it.End, h.Next[i])
			var recv []*Event
			nested := false
			for _, e := range it.Events {
				if w.isRecv(e) {
					recv = append(recv, e)
				}
				nested = nested || e.Loop != nil
			}
			if nested || len(recv) != 1 || len(nx.Segs) != len(at.Segs)+1 || whole(nx.Segs[len(nx.Segs)-1].V).Key() != recv[0].Res[0].Key() {
				return false
			}
		}
		return true
	}
	return false
}

// answersAll: the loop offers the error to the error channel of every element.
func (w *worker) answersAll(st *State, l *LoopSum, list Val, seq *Seq, err Val) bool {
	if !exactlyIn(st, l, seq.length()) {
		return false
	}
	for _, it := range l.Iters {
		ok := false
		for i, e := range it.Events {
			if e.Kind != "select" || !strings.HasSuffix(e.Name, "d") {
				continue
			}
			for _, ch := range e.Args {
				if w.errorOf(ch, seq, list, l.Count) {
					ok = true
				}
			}
			// the case that is taken sends the error
			if i+1 < len(it.Events) && it.Events[i+1].Kind == "send" && !wraps(it.Events[i+1].Args[0], err) {
				return false
			}
		}
		if !ok {
			return false
		}
	}
	return len(l.Iters) > 0
}

// errorOf: the channel for errors of an element of the list.
func (w *worker) errorOf(ch Val, seq *Seq, list, idx Val) bool {
	a, ok := isApp(ch, "field"+strings.Replace(w.errF.path, ".", ":", 1))
	if !ok {
		return false
	}
	e, ok := isApp(a.Args[0], "elem")
	return ok && (e.Args[0].Key() == seq.Key() || e.Args[0].Key() == list.Key()) && e.Args[1].Key() == idx.Key()
}

// responses: the storage answers each action once.
func (w *worker) responses(kinds map[int64]*operation) {
	c := w.c
	t := c.impl("domain", "LikeStorage")
	if t == nil {
		return
	}
	pa := c.meth(t, "ProcessActions")
	if pa == nil {
		return
	}
	in := NewInterp(c.w, Config{})
	args := in.args(pa, "")
	list := args[len(args)-1]
	seen := map[int64]bool{}
	nOK := 0
	for _, q := range c.run(in, pa, args, nil, nil) {
		fail := func(ok bool, e *Event, construct, format string, args ...any) bool {
			pos := pa.Pos()
			if e != nil {
				pos = e.Pos
			}
			return c.obPath(ok, "response", q, pos, pa.Name()+" "+construct, format, args...)
		}
		if q.End != "" {
			fail(w.wrongPayload(q, kinds), nil, "end", "processing may end with %s", q.End)
			continue
		}
		var loops []*LoopSum
		direct := 0
		for _, e := range q.Ev {
			if e.Loop != nil && sendsSomething(e.Loop) {
				loops = append(loops, e.Loop)
			} else if e.Kind == "send" {
				direct++
			}
		}
		if q.OK() {
			nOK++
			n := app("len", list)
			fail(len(loops) == 1 && exactlyIn(q.St, loops[0], n) || len(loops) == 0 && q.St.decide(eqInt(n, Int(0))) == 1, nil, "all", "not every action of the list is answered when processing succeeds")
			fail(direct == 0, nil, "more", "something is sent after the loop over the actions")
		}
		for _, l := range loops {
			for _, it := range l.Iters {
				var sends []*Event
				nested := false
				for _, e := range it.Events {
					if e.Kind == "send" {
						sends = append(sends, e)
					}
					nested = nested || e.Loop != nil && sendsSomething(e.Loop)
				}
				k, def := w.kindOf(it.Facts, list, l.Count, kinds)
				name := "unknown"
				if o := kinds[k]; o != nil && !def {
					name = o.fn.Name()
					seen[k] = true
				}
				if !fail(len(sends) == 1 && !nested, first0(sends), "once "+name, "an action (%s) is answered %d times", name, len(sends)) {
					continue
				}
				fail(w.rightChannel(it, sends[0], list, l.Count, kinds[k], def), sends[0], "channel "+name, "an action (%s) is answered to %s", name, clip(sends[0].Obj.Key()))
			}
		}
	}
	for k, o := range kinds {
		c.ob(seen[k], "response", pa, pa.Pos(), pa.Name()+" kind "+o.fn.Name(), "no way of processing actions of %s has been found", o.fn.Name())
	}
	c.count("successful ways of processing", nOK, 1)
}

func first0(es []*Event) *Event {
	if len(es) == 0 {
		return nil
	}
	return es[0]
}

func sendsSomething(l *LoopSum) bool {
	found := false
	walk(l.Iters0(), nil, func(e *Event, _ []*IterPath) { found = found || e.Kind == "send" })
	return found
}

// kindOf is the kind of action that an iteration is for; def: none of the known.
func (w *worker) kindOf(facts []Fact, list, idx Val, kinds map[int64]*operation) (int64, bool) {
	st := w.in.NewState()
	for _, f := range facts {
		st.addFact(f.C, f.Truth)
	}
	k := appT(w.kind.t, "field"+strings.Replace(w.kind.path, ".", ":", 1), app("elem", list, idx))
	for n := range kinds {
		if st.decide(eqInt(k, Int(n))) == 1 {
			return n, false
		}
	}
	return -1, true
}

func (w *worker) rightChannel(it *IterPath, e *Event, list, idx Val, o *operation, def bool) bool {
	el := app("elem", list, idx)
	errCh := app("field"+strings.Replace(w.errF.path, ".", ":", 1), el)
	toErr := e.Obj.Key() == errCh.Key()
	if def || o == nil {
		return toErr && it.End.isNil(e.Args[0]) == -1
	}
	st, ok := o.payload.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if _, isCh := st.Field(i).Type().Underlying().(*types.Chan); isCh {
			if toErr {
				return it.End.isNil(e.Args[0]) == -1
			}
			pay := app("field"+strings.Replace(w.payldF.path, ".", ":", 1), el)
			want := app("field:"+st.Field(i).Name(), app("as:"+o.payload.String(), pay))
			return e.Obj.Key() == want.Key()
		}
	}
	return toErr
}

// wrongPayload: the path fails because of a payload that isn't the one that the
// operation of that kind sends.
func (w *worker) wrongPayload(q *Path, kinds map[int64]*operation) bool {
	if q.End != "panic" {
		return false
	}
	var want types.Type
	for n, o := range kinds {
		for _, f := range q.St.factList() {
			a, ok := isApp(f.C, "eq0")
			if !ok || !f.Truth {
				continue
			}
			c, coef, atom := linOf(a.Args[0])
			for k, v := range coef {
				if len(coef) == 1 && v != 0 && -c/v == n && strings.HasPrefix(atom[k].Key(), "field"+strings.Replace(w.kind.path, ".", ":", 1)+"(elem(") {
					want = o.payload
				}
			}
		}
	}
	if want == nil {
		return false
	}
	for _, f := range q.St.factList() {
		if a, ok := f.C.(*App); ok && !f.Truth && a.Op == "istype:"+want.String() {
			return true
		}
	}
	return false
}
