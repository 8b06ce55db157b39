package main

// Stopping of a namespace: typestate of its channels and its storages, and what
// its worker and its clients may wait for.

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C16", "The channels of a namespace are made by its constructors and never replaced; the queue is never closed; the quit channel is closed only inside one sync.Once. Every operation that waits, on every path and in loops, waits in a select that also receives from the quit channel, or on a receive that the length of the queue, measured before by its only receiver, covers. The worker leaves its loop on every receive from the quit channel or from the context's, and only then. Every way out of the worker closes each storage once, a storage before those it uses, and then closes the quit channel. On every failing path of Start each storage that has been opened is closed once and no goroutine is started, on every successful one no storage is closed and one goroutine is started. Operations that start namespaces pass on the context they're given.", stopRules)
}

func stopRules(c *Ctx) {
	w := c.nsWorker()
	if w == nil {
		return
	}
	w.channels()
	w.stops()
	w.waits()
	w.leaves()
	w.starting()
	w.contexts()
}

// contexts: whoever starts namespaces passes the context on.
func (w *worker) contexts() {
	c := w.c
	n := 0
	for _, fn := range c.w.Funcs {
		if !isModule(fnPkg(fn)) || fn.Synthetic != "" || fn.Parent() != nil {
			continue
		}
		var ctx types.Type
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			if t := fn.Signature.Params().At(i).Type(); t.String() == "context.Context" {
				ctx = t
			}
		}
		if ctx == nil || fn.Signature.Recv() == nil || types.Identical(deptr(fn.Signature.Recv().Type()), deptr(w.t)) {
			continue
		}
		in := NewInterp(c.w, Config{OpaqueIface: func(n *types.Named) bool { return storages(n) || n.Obj().Name() == "Namespace" }})
		for _, q := range c.run(in, fn, in.args(fn, ""), nil, nil) {
			from := map[string]bool{q.In.paramNamed(fn, ctx, 0).Key(): true}
			q.each(func(e *Event, _ *State, _ int, _ bool) {
				if e.Kind != "call" || len(e.Args) == 0 || e.Args[0] == nil {
					return
				}
				if strings.HasPrefix(e.Name, "context.With") && len(e.Res) > 0 && from[e.Args[0].Key()] {
					from[e.Res[0].Key()] = true
				}
				if e.Name == "Namespace.Start" {
					n++
					c.obPath(from[e.Args[0].Key()], "context", q, e.Pos, fn.Name(), "%s starts namespaces with another context than the one it's given", fn.Name())
				}
			})
		}
	}
	c.count("namespaces started with a context", n, 1)
}

// chanFields are the fields of a struct that hold channels.
func chanFields(t types.Type) (out []leaf) {
	for _, l := range leaves(deptr(t)) {
		if _, ok := l.t.Underlying().(*types.Chan); ok {
			out = append(out, l)
		}
	}
	return
}

func deptr(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// channels: who makes, replaces and closes the channels of a namespace.
func (w *worker) channels() {
	c := w.c
	n, nc := 0, 0
	st := deptr(w.t).Underlying().(*types.Struct)
	closes := map[token.Pos]bool{}
	visit := func(ps []*Path) {
		for _, q := range ps {
			q.each(func(e *Event, _ *State, _ int, _ bool) {
				if e.Kind == "close" && e.Sub == "chan" {
					closes[e.Pos] = true
				}
			})
		}
	}
	visit(w.starts)
	visit(w.runs)
	for _, q := range w.all() {
		visit([]*Path{q})
	}
	for _, fn := range c.w.Funcs {
		makes := false
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Alloc:
					makes = makes || types.Identical(deptr(x.Type()), deptr(w.t))
				case *ssa.FieldAddr:
					if !types.Identical(deptr(x.X.Type()), deptr(w.t)) {
						continue
					}
					t := st.Field(x.Field).Type()
					_, isChan := t.Underlying().(*types.Chan)
					if !isChan && t.String() != "sync.Once" {
						continue
					}
					if _, fresh := x.X.(*ssa.Alloc); fresh {
						continue
					}
					for _, r := range *x.Referrers() {
						n++
						ok := false
						switch y := r.(type) {
						case *ssa.UnOp:
							ok = isChan && y.Op == token.MUL
						case ssa.CallInstruction:
							callee := y.Common().StaticCallee()
							ok = !isChan && callee != nil && callee.String() == "(*sync.Once).Do"
						case *ssa.DebugRef:
							ok = true
						}
						c.ob(ok, "channels", fn, ins.Pos(), "field "+st.Field(x.Field).Name(), "%s of a namespace is changed or shared after it has been made", st.Field(x.Field).Name())
					}
				case ssa.CallInstruction:
					bi, ok := x.Common().Value.(*ssa.Builtin)
					if !ok || bi.Name() != "close" {
						continue
					}
					t := x.Common().Args[0].Type()
					for _, l := range chanFields(w.t) {
						if types.Identical(t.Underlying(), l.t.Underlying()) {
							c.ob(closes[ins.Pos()] || closes[x.Common().Pos()], "channels", fn, ins.Pos(), "close", "a channel is closed that may be one of a namespace")
						}
					}
				}
			}
		}
		if !makes {
			continue
		}
		in := NewInterp(c.w, Config{})
		for _, q := range c.run(in, fn, in.args(fn, ""), nil, nil) {
			if !q.OK() || len(q.Rets) == 0 {
				continue
			}
			nc++
			for _, l := range chanFields(w.t) {
				v := in.fieldVal(q.St, unwrap(q.Rets[0]), l)
				if v == nil {
					c.obPath(false, "channels", q, fn.Pos(), fn.Name()+" result", "what %s returns isn't known", fn.Name())
					continue
				}
				p, ok := unwrap(v).(*Ptr)
				c.obPath(ok && p.O.Kind == "chan", "channels", q, fn.Pos(), fn.Name()+" "+l.path, "the channel %s of a new namespace is %s", l.path, clip(v.Key()))
			}
		}
	}
	c.count("uses of the channels of a namespace", n, 6)
	c.count("ways of making a namespace", nc, 1)
}

// all are the paths of the operations that clients call.
func (w *worker) all() (out []*Path) {
	if w.client0 == nil {
		ms := types.NewMethodSet(w.t)
		for i := 0; i < ms.Len(); i++ {
			fn := w.c.w.method(w.t, ms.At(i).Obj().Name())
			if fn == nil || fn == w.start || !ms.At(i).Obj().Exported() {
				continue
			}
			in := NewInterp(w.c.w, Config{})
			w.client0 = append(w.client0, w.c.run(in, fn, w.args(in, fn), nil, nil)...)
		}
	}
	return w.client0
}

// stops: the quit channel is closed once, by every call of Stop.
func (w *worker) stops() {
	c := w.c
	once := map[string]bool{}
	closes := 0
	check := func(q *Path) {
		var rec func(evs []*Event)
		rec = func(evs []*Event) {
			var in []string
			for _, e := range evs {
				switch {
				case e.Kind == "once":
					in = append(in, e.Obj.Key())
				case e.Kind == "onceend" && len(in) > 0:
					in = in[:len(in)-1]
				case e.Kind == "close" && e.Sub == "chan":
					closes++
					if !c.obPath(e.Obj.Key() == w.quit.Key(), "stop", q, e.Pos, q.Fn.Name()+" close", "%s closes another channel than the one for stopping", q.Fn.Name()) {
						continue
					}
					if c.obPath(len(in) == 1, "stop", q, e.Pos, q.Fn.Name()+" once", "the channel for stopping may be closed twice, which panics") {
						once[strings.TrimPrefix(in[0], "&")] = true
					}
				case e.Loop != nil:
					for _, it := range e.Loop.Iters {
						rec(it.Events)
					}
				}
			}
		}
		rec(q.Ev)
	}
	for _, q := range w.all() {
		check(q)
		c.obPath(q.End == "", "stop", q, q.Fn.Pos(), q.Fn.Name()+" end", "%s may end with %s", q.Fn.Name(), q.End)
	}
	for _, q := range w.runs {
		check(q)
	}
	fields := map[string]bool{}
	for k := range once {
		fields[k[strings.IndexByte(k, '.')+1:]] = true
	}
	c.ob(len(fields) == 1, "stop", w.start, w.start.Pos(), "same once", "the channel for stopping is closed under different guards, so perhaps twice")
	c.count("closes of the channel for stopping", closes, 2)
	for _, q := range w.stop {
		n := 0
		for _, e := range q.Ev {
			if e.Kind == "close" && e.Sub == "chan" && e.Obj.Key() == w.quit.Key() {
				n++
			}
		}
		c.obPath(n == 1, "stop", q, q.Fn.Pos(), q.Fn.Name()+" closes", "%s may return without the worker having been told to stop", q.Fn.Name())
	}
}

// chosen is the channel of the case that a select takes.
func chosen(e *Event) Val {
	i, err := strconv.Atoi(e.Sub)
	if err != nil || i < 0 || i >= len(e.Args) {
		return nil
	}
	return e.Args[i]
}

// waits: what clients and workers may wait for.
func (w *worker) waits() {
	c := w.c
	n := 0
	for _, q := range w.all() {
		n += w.waiting(q, q.Ev, q.St, false)
	}
	c.count("waiting of clients", n, 10)
	n = 0
	receivers := map[*ssa.Function]bool{}
	for _, q := range w.runs {
		n += w.waiting(q, q.Ev, q.St, true)
		q.each(func(e *Event, _ *State, _ int, _ bool) {
			if w.isRecv(e) {
				receivers[e.Fn] = true
			}
		})
	}
	c.count("waiting of workers", n, 3)
	for _, q := range w.all() {
		q.each(func(e *Event, _ *State, _ int, _ bool) {
			c.obPath(!w.isRecv(e), "wait", q, e.Pos, q.Fn.Name()+" receives", "%s takes actions out of the queue, so the worker can't rely on its length", q.Fn.Name())
		})
	}
}

func isDone(ch Val) bool {
	return ch != nil && strings.Contains(ch.Key(), "Done(")
}

// waiting checks the events of a path, or of an iteration of one of its loops.
func (w *worker) waiting(q *Path, evs []*Event, st *State, isWorker bool) int {
	c := w.c
	n := 0
	var avail Val
	take := func(by Val) {
		if avail != nil {
			avail = sub(avail, by)
		}
	}
	for i, e := range evs {
		name := q.Fn.Name() + " " + e.Kind
		switch {
		case e.Kind == "chanlen" && e.Obj.Key() == w.queue.Key():
			avail = e.Res[0]
		case e.Kind == "select":
			n++
			if strings.HasSuffix(e.Name, "d") {
				continue
			}
			quit, done := false, false
			for j, ch := range e.Args {
				quit = quit || ch.Key() == w.quit.Key() && e.Name[j] == 'r'
				done = done || isDone(ch) && e.Name[j] == 'r'
			}
			c.obPath(quit, "wait", q, e.Pos, name, "%s may wait for ever when the namespace has been stopped", q.Fn.Name())
			if isWorker {
				c.obPath(done, "wait", q, e.Pos, name+" context", "the worker may wait for ever when the context has been cancelled")
			}
		case (e.Kind == "recv" || e.Kind == "send") && e.Sub == "select":
			if w.isRecv(e) {
				take(Int(1))
			}
		case e.Kind == "recv":
			n++
			ok := isWorker && w.isRecv(e) && avail != nil && st.decide(le0(sub(Int(1), avail))) == 1
			c.obPath(ok, "wait", q, e.Pos, name, "%s may wait for ever for something to receive", q.Fn.Name())
			take(Int(1))
		case e.Kind == "send":
			n++
			first := true
			for _, x := range evs[:i] {
				first = first && !(x.Kind == "send" && x.Obj.Key() == e.Obj.Key())
			}
			c.obPath(first && roomy(q, e.Obj), "wait", q, e.Pos, name, "%s may wait for ever for somebody to receive", q.Fn.Name())
		case e.Kind == "call" && (strings.HasSuffix(e.Name, "WaitGroup).Wait") || strings.HasSuffix(e.Name, "Cond).Wait") || strings.HasSuffix(e.Name, "RunUntilQuit")):
			c.obPath(false, "wait", q, e.Pos, name+" "+e.Name, "%s waits for something that may never happen", q.Fn.Name())
		case e.Loop != nil:
			l := e.Loop
			bounded := true
			for _, it := range l.Iters {
				plain := 0
				for _, x := range it.Events {
					if w.isRecv(x) && x.Sub != "select" {
						plain++
					}
				}
				if plain == 0 || avail == nil {
					bounded = bounded && plain == 0
					n += w.waiting(q, it.Events, it.End, isWorker)
					continue
				}
				// as many as have been there
				n++
				ok := isWorker && plain == 1 && it.End.decide(le0(sub(addc(l.Count, 1), avail))) == 1
				c.obPath(ok, "wait", q, e.Pos, name+" queue", "the worker may wait for more actions than there are in the queue")
				var rest []*Event
				for _, x := range it.Events {
					if !(w.isRecv(x) && x.Sub != "select") {
						rest = append(rest, x)
					}
				}
				n += w.waiting(q, rest, it.End, isWorker)
			}
			touched := false
			walk(l.Iters0(), nil, func(x *Event, _ []*IterPath) { touched = touched || w.isRecv(x) })
			if touched {
				if bounded {
					avail = nil
				} else {
					take(l.Count)
				}
			}
		}
	}
	return n
}

// leaves: the ways out of the worker.
func (w *worker) leaves() {
	c := w.c
	quits, dones := 0, 0
	for _, q := range w.runs {
		c.obPath(q.End == "", "leave", q, q.Fn.Pos(), "end", "the worker may end with %s", q.End)
		walk(q.Ev, nil, func(e *Event, up []*IterPath) {
			if e.Kind == "select" {
				ch := chosen(e)
				if ch != nil && (ch.Key() == w.quit.Key() || isDone(ch)) {
					c.obPath(len(up) == 0, "leave", q, e.Pos, "goes on", "the worker goes on after it has been told to stop")
				}
			}
			if e.Kind == "call" && strings.HasSuffix(e.Name, ".Close") {
				c.obPath(len(up) == 0, "leave", q, e.Pos, "closes in a loop", "a storage is closed while the worker goes on")
			}
		})
		var closing *Event
		for _, e := range q.Ev {
			if e.Kind == "call" && strings.HasSuffix(e.Name, ".Close") {
				closing = e
				continue
			}
			walk([]*Event{e}, nil, func(u *Event, _ []*IterPath) {
				if isProcess(u) {
					c.obPath(closing == nil, "leave", q, u.Pos, "used after close", "a storage is used after it, or one that it uses, has been closed")
				}
			})
		}
		last := -1
		told := false
		for _, e := range q.Ev {
			told = told || e.Kind == "select" && chosen(e) != nil && (chosen(e).Key() == w.quit.Key() || isDone(chosen(e)))
			if e.Kind == "select" && chosen(e) != nil && chosen(e).Key() == w.quit.Key() {
				quits++
			}
			if e.Kind == "select" && isDone(chosen(e)) {
				dones++
			}
		}
		c.obPath(told, "leave", q, q.Fn.Pos(), "untold", "the worker may return though nobody has told it to stop")
		// the storages that the worker is left with
		var opened []*Event
		base := w.base(q)
		for _, e := range base {
			if isOpen(e) && e.Err != nil && q.St.isNil(e.Err) == 1 {
				opened = append(opened, e)
			}
		}
		at := map[string]int{}
		for i, e := range q.Ev {
			if e.Kind == "call" && strings.HasSuffix(e.Name, ".Close") && e.Obj != nil {
				last = i
				_, twice := at[unwrap(e.Obj).Key()]
				c.obPath(!twice, "leave", q, e.Pos, "twice "+e.Name, "a storage is closed twice")
				at[unwrap(e.Obj).Key()] = i
			}
		}
		for _, e := range opened {
			i, ok := at[unwrap(e.Res[0]).Key()]
			if !c.obPath(ok, "leave", q, q.Fn.Pos(), "closes "+e.Name, "the storage opened by %s isn't closed when the worker returns", e.Name) {
				continue
			}
			for _, a := range e.Args {
				if j, ok := at[unwrap(a).Key()]; ok {
					c.obPath(i < j, "leave", q, q.Ev[j].Pos, "order "+e.Name, "a storage is closed before the one opened by %s, which uses it", e.Name)
				}
			}
		}
		c.count("storages that a worker is left with", len(opened), 3)
		closed := -1
		for i, e := range q.Ev {
			if e.Kind == "close" && e.Sub == "chan" && e.Obj.Key() == w.quit.Key() {
				closed = i
			}
		}
		c.obPath(closed >= 0 && closed > last, "leave", q, q.Fn.Pos(), "releases", "the clients aren't released after everything has been closed when the worker returns")
	}
	c.count("ways out because of stopping", quits, 1)
	c.count("ways out because of the context", dones, 1)
}

// base are the events before the worker has been started.
func (w *worker) base(q *Path) []*Event {
	evs := q.St.events()
	for i, e := range evs {
		if e.Kind == "go" {
			return evs[:i]
		}
	}
	return evs
}

func isOpen(e *Event) bool {
	return e.Kind == "call" && strings.Contains(e.Name, "Factory.") && len(e.Res) > 0
}

// starting: a namespace is either started or left as it was.
func (w *worker) starting() {
	c := w.c
	oks, fails := 0, 0
	for _, q := range w.starts {
		if !c.obPath(q.End == "", "start", q, q.Fn.Pos(), "end", "%s may end with %s", q.Fn.Name(), q.End) {
			continue
		}
		gos, closes := 0, map[string]int{}
		var opened []*Event
		q.each(func(e *Event, _ *State, _ int, inner bool) {
			switch {
			case e.Kind == "go":
				gos++
			case e.Kind == "call" && strings.HasSuffix(e.Name, ".Close") && e.Obj != nil:
				closes[unwrap(e.Obj).Key()]++
			case isOpen(e) && e.Err != nil && q.St.isNil(e.Err) == 1:
				opened = append(opened, e)
			case isOpen(e):
				c.obPath(e.Err != nil && q.St.isNil(e.Err) == -1, "start", q, e.Pos, "unchecked "+e.Name, "whether %s succeeds isn't checked", e.Name)
			}
		})
		want := 0
		if q.OK() {
			oks++
			c.obPath(gos == 1, "start", q, q.Fn.Pos(), "started", "%s succeeds having started %d workers", q.Fn.Name(), gos)
		} else {
			fails++
			want = 1
			c.obPath(gos == 0, "start", q, q.Fn.Pos(), "not started", "%s fails having started a worker", q.Fn.Name())
		}
		for _, e := range opened {
			n := closes[unwrap(e.Res[0]).Key()]
			c.obPath(n == want, "start", q, e.Pos, "storage "+e.Name, "the storage opened by %s is closed %d times when %s returns %s", e.Name, n, q.Fn.Name(), ending(q))
		}
	}
	c.count("ways of starting", oks, 2)
	c.count("ways of failing to start", fails, 6)
}
