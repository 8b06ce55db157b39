package main

// The life of the server: what running the application waits for, how it shuts
// the server down, and what it reports.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C27", "Every path of the method that runs the server, and of the goroutines it starts: the goroutine that listens calls the server once and then, without waiting for anything, sends one result to a channel with room for it. What the method waits for includes that channel and the termination signals, registered before on a buffered channel; after a signal the server is shut down once, with a context that is made then, isn't cancelled, and expires after a constant time between a second and five minutes; further waiting includes the context's channel or that of the listener. The error returned is compared with what the path received, for every class of result of the goroutine: no error, closed, failed.", serverRules,
		"net/http: ListenAndServe returns when listening fails or the server is shut down, in this case ErrServerClosed; Shutdown returns when its context expires")
}

const httpServer = "(*net/http.Server)."

func isServe(e *Event) bool {
	m := strings.TrimPrefix(e.Name, httpServer)
	return e.Kind == "call" && m != e.Name && (strings.HasPrefix(m, "ListenAndServe") || strings.HasPrefix(m, "Serve"))
}

func serverRules(c *Ctx) {
	h := newApp(c)
	if h == nil {
		return
	}
	t := h.app.Rets[0]
	_, st := h.server()
	if st == nil {
		c.missing("the server of the application")
		return
	}
	for _, e := range h.app.Ev {
		c.obPath(e.Kind != "go" && !isServe(e), "run", h.app, e.Pos, "early "+e.Kind, "the server may be served before the application is run")
	}
	n := 0
	rt := h.app.Fn.Signature.Results().At(0).Type()
	for _, fn := range c.w.Funcs {
		recv := fn.Signature.Recv()
		if recv == nil || fn.Object() == nil || !fn.Object().Exported() || fn.Synthetic != "" || fn.Blocks == nil || !types.Identical(deptr(recv.Type()), deptr(rt)) {
			continue
		}
		if !c.reachesServe(fn, map[*ssa.Function]bool{}) {
			continue
		}
		n++
		s := &serverRun{c: c, h: h, srv: st}
		s.check(fn, t)
	}
	c.count("methods that run the server", n, 1)
}

// reachesServe: the function, or a module function it names, serves.
func (c *Ctx) reachesServe(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if fn == nil || seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				f, ok := (*op).(*ssa.Function)
				if !ok {
					continue
				}
				s := f.String()
				if strings.HasPrefix(s, httpServer+"ListenAndServe") || strings.HasPrefix(s, httpServer+"Serve") {
					return true
				}
				if pk := fnPkg(f); pk != nil && isModule(pk) && c.reachesServe(f, seen) {
					return true
				}
			}
		}
	}
	return false
}

// server is the server that the application has.
func (h *httpCheck) server() (p *Ptr, key Val) {
	ret := h.in.deref(h.app.Rets[0])
	st, _ := deptr(h.app.Fn.Signature.Results().At(0).Type()).Underlying().(*types.Struct)
	for i := 0; ret != nil && st != nil && i < st.NumFields(); i++ {
		if !strings.HasSuffix(st.Field(i).Type().String(), "net/http.Server") {
			continue
		}
		p := mkPtr(ret.O, ret.Path+fieldPath(st, i))
		if _, isPtr := st.Field(i).Type().Underlying().(*types.Pointer); isPtr {
			p = h.in.deref(h.app.St.load(p, st.Field(i).Type()))
		}
		if p != nil {
			return p, p
		}
	}
	return nil, nil
}

// outcome of the goroutine that listens
type listened struct {
	failed bool   // listening failed
	sent   string // what is sent: "nil", "closed" or "failed"
}

type serverRun struct {
	c   *Ctx
	h   *httpCheck
	srv Val
	ch  Val // of the listener
	res []listened
}

// classes are what an error may be on a path: nil, http.ErrServerClosed, or
// something else.
func classes(st *State, v Val) (out []string) {
	v = unwrapErr(v)
	if isNilConst(v) {
		return []string{"nil"}
	}
	if strings.HasSuffix(strings.TrimPrefix(v.Key(), "*"), "net/http.ErrServerClosed") {
		return []string{"closed"}
	}
	if _, ok := v.(*Sym); !ok {
		switch st.isNil(v) {
		case 1:
			return []string{"nil"}
		case -1:
			return []string{"failed"}
		}
		return []string{"nil", "failed"}
	}
	null, closed := st.isNil(v), 0
	for _, f := range st.factList() {
		if k := f.C.Key(); strings.Contains(k, "net/http.ErrServerClosed") && strings.Contains(k, v.Key()) {
			if f.Truth {
				closed = 1
			} else {
				closed = -1
			}
		}
	}
	switch {
	case null == 1:
		return []string{"nil"}
	case closed == 1:
		return []string{"closed"}
	}
	if null == 0 {
		out = append(out, "nil")
	}
	if closed == 0 {
		out = append(out, "closed")
	}
	return append(out, "failed")
}

func unwrapErr(v Val) Val {
	if v == nil {
		return Nil
	}
	return v
}

func (s *serverRun) check(fn *ssa.Function, recv Val) {
	c, in := s.c, s.h.in
	st := s.h.app.St.clone()
	k := st.trLen()
	args := append([]Val{recv}, in.args(fn, "run.")[1:]...)
	ps := c.run(in, fn, args, nil, st)
	for _, q := range ps {
		q.Ev = eventsSince(q.St.tr, k)
	}
	nl := 0
	for _, q := range ps {
		s.ch, s.res = nil, nil
		for _, g := range c.goroutines(q) {
			s.goroutine(q, g)
		}
		if s.ch != nil {
			nl++
		}
		s.path(q)
	}
	c.count("paths that listen", nl, 3)
	// both ways of stopping are there
	var failing, signalled int
	for _, q := range ps {
		for _, e := range q.Ev {
			if e.Kind == "call" && e.Name == httpServer+"Shutdown" {
				signalled++
				break
			}
		}
		for _, e := range q.Ev {
			if s.ch != nil && e.Kind == "recv" && same(e.Obj, s.ch) {
				failing++
				break
			}
		}
	}
	c.count("paths that shut the server down", signalled, 2)
	c.count("paths that learn how listening ended", failing, 2)
}

// blocking: the event may wait for something.
func blocking(e *Event) bool {
	switch e.Kind {
	case "recv", "send":
		return e.Sub != "select"
	case "select":
		return !strings.HasSuffix(e.Name, "d")
	case "lock", "rlock":
		return true
	case "call":
		return strings.HasSuffix(e.Name, ").Wait") || e.Name == "time.Sleep" || strings.HasSuffix(e.Name, ").RunUntilQuit")
	}
	return false
}

// goroutine checks a path of a goroutine.
func (s *serverRun) goroutine(q, g *Path) {
	c := s.c
	var serve *Event
	var sent []*Event
	closed := false
	name := g.Fn.Name()
	c.obPath(g.End == "" || g.End == "exit" && serve == nil, "listener", g, g.Fn.Pos(), name+" end", "the goroutine ends with %s", g.End)
	walk(g.Ev, nil, func(e *Event, up []*IterPath) {
		switch {
		case isServe(e):
			c.obPath(serve == nil && len(up) == 0, "listener", g, e.Pos, name+" serve", "the server is served more than once")
			c.obPath(e.Obj != nil && same(unwrap(e.Obj), s.srv), "listener", g, e.Pos, name+" server", "what is served isn't the application's server")
			c.obPath(len(sent) == 0, "listener", g, e.Pos, name+" order", "a result is sent before the server has been served")
			serve = e
		case e.Kind == "send":
			c.obPath(len(up) == 0, "listener", g, e.Pos, name+" send", "results are sent repeatedly")
			sent = append(sent, e)
		case e.Kind == "close" && e.Sub == "chan":
			closed = true
			if len(sent) == 0 {
				sent = append(sent, e)
			}
		case blocking(e):
			c.obPath(false, "listener", g, e.Pos, name+" "+e.Kind, "the goroutine may wait for ever")
		}
	})
	if serve == nil {
		c.obPath(len(sent) == 0, "listener", g, g.Fn.Pos(), name+" serve", "the goroutine sends a result without serving")
		return
	}
	if !c.obPath(len(sent) >= 1, "listener", g, serve.Pos, name+" result", "the goroutine doesn't report that listening has ended") {
		return
	}
	n := 0
	for _, e := range sent {
		if e.Kind == "send" {
			n++
			c.obPath(same(e.Obj, sent[0].Obj), "listener", g, e.Pos, name+" channel", "results are sent to several channels")
		}
	}
	ch := sent[0].Obj
	if n > 0 {
		room := int64(-1)
		if p, ok := unwrap(ch).(*Ptr); ok && p.O.Kind == "chan" {
			if v := g.St.heap[p.loc()+"#cap"]; v != nil {
				if k, ok := constInt(v); ok {
					room = k
				}
			}
		}
		c.obPath(room >= int64(n), "listener", g, sent[0].Pos, name+" room", "the goroutine may wait for ever for somebody to receive its result")
	}
	c.obPath(n <= 1 || closed, "listener", g, sent[0].Pos, name+" results", "%d results are sent", n)
	if s.ch != nil {
		c.obPath(same(ch, s.ch), "listener", g, sent[0].Pos, name+" channel", "results are sent to several channels")
	}
	s.ch = ch
	if serve.Err == nil && len(serve.Res) > 0 {
		serve.Err = serve.Res[0]
	}
	for _, k := range classes(g.St, orNil(serve.Err)) {
		x := listened{failed: k == "failed"}
		if sent[0].Kind == "close" {
			x.sent = "nil"
			s.res = append(s.res, x)
			continue
		}
		v := orNil(sent[0].Args[0])
		if same(v, orNil(serve.Err)) {
			x.sent = k
			s.res = append(s.res, x)
			continue
		}
		for _, m := range classes(g.St, v) {
			x.sent = m
			s.res = append(s.res, x)
		}
	}
}

// path checks a path of the method.
func (s *serverRun) path(q *Path) {
	c := s.c
	name := q.Fn.Name()
	c.obPath(q.End == "", "run", q, q.Fn.Pos(), name+" end", "running the application ends with %s", q.End)
	started := false
	var source, shutdown, got *Event // the signal's channel has been received from; shutdown; the listener's result
	signals := map[string]*Event{}   // channels signals are delivered to
	contexts := map[string]*Event{}  // contexts that expire
	made := map[string]bool{}        // ... made after the signal
	gone := map[string]bool{}        // channels and contexts that don't serve any more
	cancels := map[string]string{}   // functions that cancel
	expired := false
	doneOf := func(ch Val) string {
		a, ok := unwrap(ch).(*App)
		if ok && strings.Contains(a.Op, "Done") && len(a.Args) == 1 {
			return a.Args[0].Key()
		}
		return ""
	}
	isSignal := func(ch Val) bool {
		return signals[ch.Key()] != nil && !gone[ch.Key()] || doneOf(ch) != "" && signals[doneOf(ch)] != nil && !gone[doneOf(ch)]
	}
	isDeadline := func(ch Val) bool { k := doneOf(ch); return k != "" && contexts[k] != nil }
	n := 0
	q.each(func(e *Event, _ *State, _ int, inner bool) {
		at := name + " " + e.Kind + " " + e.Name
		if e.Kind == "go" {
			started = true
			return
		}
		if inner && (blocking(e) || e.Kind == "recv" || strings.HasPrefix(e.Name, httpServer)) {
			c.obPath(false, "run", q, e.Pos, at+" loop", "waiting repeatedly isn't understood")
			return
		}
		switch {
		case isServe(e):
			c.obPath(false, "run", q, e.Pos, at, "the method that runs the application is blocked by the server and can't stop it")
		case e.Kind == "call" && (e.Name == "os/signal.Notify" || e.Name == "os/signal.NotifyContext"):
			s.signals(q, e, at)
			if e.Name == "os/signal.Notify" && len(e.Args) > 0 {
				signals[orNil(e.Args[0]).Key()] = e
				gone[orNil(e.Args[0]).Key()] = false
				c.obPath(roomy(q, e.Args[0]), "signal", q, e.Pos, at+" room", "a signal is lost if nobody waits for it yet")
			} else if len(e.Res) > 1 {
				signals[e.Res[0].Key()] = e
				cancels[e.Res[1].Key()] = e.Res[0].Key()
			}
		case e.Kind == "call" && (e.Name == "os/signal.Stop" || e.Name == "os/signal.Reset" || e.Name == "os/signal.Ignore"):
			for k := range signals {
				if e.Name != "os/signal.Stop" || len(e.Args) == 1 && e.Args[0].Key() == k {
					gone[k] = true
				}
			}
		case e.Kind == "call" && (e.Name == "context.WithTimeout" || e.Name == "context.WithDeadline") && len(e.Res) == 2:
			contexts[e.Res[0].Key()] = e
			made[e.Res[0].Key()] = source != nil
			cancels[e.Res[1].Key()] = e.Res[0].Key()
		case e.Kind == "callfn" && e.Obj != nil:
			if k := cancels[e.Obj.Key()]; k != "" {
				gone[k] = true
			}
		case e.Kind == "call" && e.Name == httpServer+"Shutdown":
			c.obPath(shutdown == nil, "shutdown", q, e.Pos, at, "the server is shut down twice")
			c.obPath(source != nil, "shutdown", q, e.Pos, at+" signal", "the server is shut down without a signal")
			c.obPath(e.Obj != nil && same(unwrap(e.Obj), s.srv), "shutdown", q, e.Pos, at+" server", "what is shut down isn't the application's server")
			k := ""
			if len(e.Args) > 0 {
				k = e.Args[0].Key()
			}
			if c.obPath(contexts[k] != nil, "shutdown", q, e.Pos, at+" context", "shutting down isn't limited in time") {
				s.timeout(q, contexts[k], e, at, signals)
				c.obPath(made[k], "shutdown", q, e.Pos, at+" start", "the time for shutting down starts before the signal")
				c.obPath(!gone[k], "shutdown", q, e.Pos, at+" cancelled", "the context is cancelled before the server has been shut down")
			}
			shutdown = e
		case e.Kind == "call" && e.Name == httpServer+"Close":
			c.obPath(shutdown != nil, "shutdown", q, e.Pos, at, "the server is closed without finishing the requests being served")
		case e.Kind == "recv":
			before, had := source != nil, got != nil
			switch {
			case s.ch != nil && same(e.Obj, s.ch):
				got = e
			case isSignal(e.Obj):
				source = e
			case isDeadline(e.Obj):
				expired = true
			}
			if e.Sub == "select" {
				return
			}
			n++
			s.wait(q, e, at, []Val{e.Obj}, "r", started, before, shutdown, had, isSignal, isDeadline, gone, doneOf)
		case e.Kind == "select":
			if strings.HasSuffix(e.Name, "d") {
				return
			}
			n++
			s.wait(q, e, at, e.Args, e.Name, started, source != nil, shutdown, got != nil, isSignal, isDeadline, gone, doneOf)
		case blocking(e):
			c.obPath(false, "wait", q, e.Pos, at, "running the application may wait for ever")
		}
	})
	if q.End != "" {
		return
	}
	if !c.obPath(q.Err != nil, "run", q, q.Fn.Pos(), name+" result", "running the application doesn't report errors") {
		return
	}
	fails := q.St.isNil(q.Err) == -1
	// an error that is neither known to be nil nor not has been split by run
	switch {
	case !started:
		c.obPath(fails, "report", q, q.Fn.Pos(), name+" start", "running the application succeeds without serving")
		return
	case source == nil && got == nil:
		c.obPath(false, "run", q, q.Fn.Pos(), name+" waits", "running the application ends without a signal and without listening having ended")
		return
	case source != nil && shutdown == nil:
		c.obPath(false, "shutdown", q, source.Pos, name+" none", "the server isn't shut down when a signal has arrived")
		return
	}
	if shutdown != nil && shutdown.Err != nil && q.St.isNil(shutdown.Err) != 1 {
		ok := fails || same(q.Err, shutdown.Err)
		if q.St.isNil(shutdown.Err) == 0 {
			// not looked at
			ok = same(q.Err, shutdown.Err)
			if fails {
				ok = true
			}
		}
		c.obPath(ok, "report", q, shutdown.Pos, name+" shutdown", "a failure to shut down isn't reported")
		return
	}
	if expired {
		// of a context that has ended
		k := q.Err.Key()
		fails = fails || strings.Contains(k, "context.Context") && (strings.Contains(k, ".Err") || strings.Contains(k, "Cause"))
		c.obPath(fails, "report", q, q.Fn.Pos(), name+" timeout", "that shutting down has taken too long isn't reported")
		return
	}
	if got == nil {
		c.obPath(!fails, "report", q, q.Fn.Pos(), name+" success", "an error is reported although the server has been shut down")
		return
	}
	var r Val
	if len(got.Res) > 0 {
		r = got.Res[0]
	}
	if !c.obPath(r != nil, "report", q, got.Pos, name+" received", "what is received isn't known") {
		return
	}
	possible := map[string]bool{}
	for _, k := range classes(q.St, r) {
		possible[k] = true
	}
	for _, x := range s.res {
		if !possible[x.sent] {
			continue
		}
		if x.failed {
			c.obPath(fails, "report", q, got.Pos, name+" failure", "that listening has failed isn't reported")
		} else if shutdown != nil {
			c.obPath(!fails, "report", q, got.Pos, name+" closed", "an error is reported although the server has been shut down")
		}
	}
}

// wait checks what is waited for.
func (s *serverRun) wait(q *Path, e *Event, at string, chs []Val, kinds string, started, signalled bool, shutdown *Event, got bool, isSignal, isDeadline func(Val) bool, gone map[string]bool, doneOf func(Val) string) {
	c := s.c
	sig, lis, dead := false, false, false
	for i, ch := range chs {
		if i >= len(kinds) || kinds[i] != 'r' {
			continue
		}
		sig = sig || isSignal(ch)
		lis = lis || s.ch != nil && same(ch, s.ch)
		dead = dead || isDeadline(ch)
		if isDeadline(ch) && shutdown != nil {
			c.obPath(!gone[doneOf(ch)], "wait", q, e.Pos, at+" cancelled", "the context is cancelled before it's waited for")
		}
	}
	if !c.obPath(started, "wait", q, e.Pos, at+" early", "the application waits before it serves") {
		return
	}
	if !signalled {
		c.obPath(sig, "wait", q, e.Pos, at+" signal", "signals to terminate aren't waited for")
		c.obPath(lis, "wait", q, e.Pos, at+" listener", "that listening has ended isn't waited for")
		return
	}
	if shutdown == nil {
		c.obPath(false, "wait", q, e.Pos, at+" shutdown", "the application waits before the server has been shut down")
		return
	}
	c.obPath(dead || lis && !got, "wait", q, e.Pos, at+" end", "the application may wait for ever for the server to end")
}

// signals checks which signals are delivered.
func (s *serverRun) signals(q *Path, e *Event, at string) {
	have := map[int64]bool{}
	for _, a := range e.Args[1:] {
		if k, ok := constInt(unwrap(a)); ok {
			have[k] = true
			s.c.obPath(k == 1 || k == 2 || k == 3 || k == 15, "signal", q, e.Pos, at+" others", "signal %d, which isn't one to terminate, stops the application", k)
		} else if g := unwrap(a).Key(); strings.Contains(g, "os.Interrupt") {
			have[2] = true
		} else {
			s.c.obPath(false, "signal", q, e.Pos, at+" others", "the signal %s isn't known", clip(g))
		}
	}
	s.c.obPath(have[2], "signal", q, e.Pos, at+" int", "SIGINT doesn't stop the application gracefully")
	s.c.obPath(have[15], "signal", q, e.Pos, at+" term", "SIGTERM doesn't stop the application gracefully")
}

// timeout checks how long shutting down may take.
func (s *serverRun) timeout(q *Path, ev, at *Event, name string, signals map[string]*Event) {
	c := s.c
	c.obPath(signals[ev.Args[0].Key()] == nil, "shutdown", q, ev.Pos, name+" parent", "the context for shutting down has been cancelled by the signal")
	var d int64 = -1
	if ev.Name == "context.WithTimeout" {
		if k, ok := constInt(ev.Args[1]); ok {
			d = k
		}
	} else if a, ok := ev.Args[1].(*App); ok && strings.Contains(a.Op, "Add") && len(a.Args) == 2 && strings.Contains(a.Args[0].Key(), "time.Now") {
		if k, ok := constInt(a.Args[1]); ok {
			d = k
		}
	}
	c.obPath(d >= 1e9 && d <= 300e9, "shutdown", q, ev.Pos, name+" time", "the time for shutting down isn't between a second and five minutes")
}
