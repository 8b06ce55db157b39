package main

// The start of the program: main is run as a whole, with the namespaces and the
// storages as interfaces.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C36", "Every path of main, with everything of the module inlined but the namespaces and the storages: before the server is served (by the goroutine, or directly), the file of settings has been loaded, before any variable is read, the list of namespaces has been read, and every element of the list that the registry then has has been started once, successfully; the registry that the handlers refer to is this one. The context that the namespaces are started with, and those it derives from, have no time limit, and aren't ended before the server has stopped, or is told to. Every path on which one of the steps is known to fail, except reading the list, ends with a non-zero exit status, and doesn't serve if the step precedes serving; every other path serves.", startupRules,
		"godotenv.Load makes the file of settings part of the environment; log.Fatal ends the program with a non-zero status")
}

type startup struct {
	c  *Ctx
	in *Interp
	r  *registry

	paths []*Path
}

func newStartup(c *Ctx) *startup {
	r := newRegistry(c)
	if r == nil || r.registryFile() == nil {
		return nil
	}
	s := &startup{c: c, r: r}
	s.in = NewInterp(c.w, Config{OpaqueIface: func(n *types.Named) bool { return storages(n) || n == r.iface }})
	mp := c.w.SSA[modulePath]
	if mp == nil || mp.Func("main") == nil {
		c.missing("the function main")
		return nil
	}
	s.paths = c.run(s.in, mp.Func("main"), nil, nil, nil)
	return s
}

// serves: the event is the call of a function that serves, or starts a
// goroutine that does.
func (s *startup) serves(e *Event) bool {
	if isServe(e) {
		return true
	}
	if e.Kind != "go" {
		return false
	}
	fn := goroutine(e)
	return fn != nil && s.c.reachesServe(fn, map[*ssa.Function]bool{})
}

func goroutine(e *Event) *ssa.Function {
	for _, v := range append([]Val{e.Obj}, e.Args...) {
		if cl, ok := v.(*Closure); ok && cl.Fn != nil {
			return cl.Fn
		}
	}
	return nil
}

// reachable lists the values of a type that can be reached from a value.
func (s *startup) reachable(st *State, v Val, t, want types.Type, depth int, out map[string]Val) {
	if v == nil || depth == 0 {
		return
	}
	if t != nil && types.Identical(t, want) {
		if p := s.in.deref(v); p != nil {
			out[p.Key()] = p
		}
		return
	}
	switch x := v.(type) {
	case *Closure:
		for i, b := range x.Binds {
			if i < len(x.Fn.FreeVars) {
				s.reachable(st, b, x.Fn.FreeVars[i].Type(), want, depth-1, out)
			} else if x.Fn.Signature.Recv() != nil {
				s.reachable(st, b, x.Fn.Signature.Recv().Type(), want, depth-1, out)
			}
		}
		return
	case *Iface:
		s.reachable(st, x.V, x.Dyn, want, depth-1, out)
		return
	}
	if t == nil {
		return
	}
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	p := s.in.deref(v)
	if p == nil {
		return
	}
	if n, ok := types.Unalias(pt.Elem()).(*types.Named); ok && !isModule(n.Obj().Pkg()) {
		return
	}
	if _, ok := pt.Elem().Underlying().(*types.Struct); !ok {
		s.reachable(st, st.load(p, pt.Elem()), pt.Elem(), want, depth-1, out)
		return
	}
	for _, l := range leaves(pt.Elem()) {
		switch l.t.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Signature:
			f := mkPtr(p.O, p.Path+l.path)
			if types.Identical(l.t, want) {
				if x := s.in.deref(st.load(f, l.t)); x != nil {
					out[x.Key()] = x
				}
				continue
			}
			s.reachable(st, st.load(f, l.t), l.t, want, depth-1, out)
		}
		if types.Identical(types.NewPointer(l.t), want) {
			x := mkPtr(p.O, p.Path+l.path)
			out[x.Key()] = x
		}
	}
}

func startupRules(c *Ctx) {
	s := newStartup(c)
	if s == nil {
		return
	}
	n, served, failed, loaded, workers := 0, 0, 0, 0, 0
	for _, q := range s.paths {
		n++
		pos := q.Fn.Pos()
		settings, list, serve := -1, -1, -1
		var listErr, settingsErr Val
		var at *State
		idx := 0
		early := false
		broken := ""
		q.each(func(e *Event, st *State, _ int, inner bool) {
			idx++
			switch {
			case e.Kind == "call" && strings.HasPrefix(e.Name, "github.com/joho/godotenv."):
				if settings < 0 {
					settings = idx
					settingsErr = e.Err
				}
			case e.Kind == "env":
				early = early || settings < 0
			case s.readsList(e):
				if list < 0 {
					list = idx
					listErr = e.Err
				}
			case s.serves(e):
				if serve < 0 {
					serve = idx
					at = q.St
				}
			}
			// steps that fail
			if e.Err != nil && q.St.isNil(e.Err) == -1 && !s.tolerated(e) && broken == "" {
				broken = e.Name
				if serve < 0 {
					broken = "*" + broken
				}
			}
		})
		for _, f := range q.St.factList() {
			// an error received
			if a, ok := isApp(f.C, "isnil"); ok && !f.Truth && broken == "" {
				if y, ok := a.Args[0].(*Sym); ok && y.T != nil && isErrorType(y.T) && strings.HasPrefix(y.Name, "recv") {
					broken = "what is reported by another goroutine"
				}
			}
		}
		if broken != "" {
			failed++
			name := strings.TrimPrefix(broken, "*")
			c.obPath(q.End == "exit" && !zeroExit(q) || q.End == "panic", "loud", q, pos, name, "%s fails, but the program goes on, or ends as if nothing had happened", name)
			if broken[0] == '*' {
				c.obPath(serve < 0, "loud", q, pos, name+" served", "%s fails, but requests are served", name)
			}
			if serve < 0 {
				continue
			}
		}
		c.obPath(serve >= 0, "serves", q, pos, "main", "the program never serves although nothing is known to fail")
		if serve < 0 {
			continue
		}
		served++
		c.obPath(settings > 0 && settings < serve, "settings", q, pos, "loaded", "requests are served before the settings are loaded")
		c.obPath(settingsErr == nil || q.St.isNil(settingsErr) == 1, "loud", q, pos, "settings", "requests are served though the settings may not have been loaded")
		c.obPath(!early, "settings", q, pos, "order", "a variable is read before the settings are loaded")
		c.obPath(list > 0 && list < serve, "list", q, pos, "loaded", "requests are served before the list of namespaces is loaded")
		if list < 0 || list > serve {
			continue
		}
		if listErr != nil && q.St.isNil(listErr) == 1 {
			loaded++
		}
		s.started(q, at, serve)
		workers += s.lifetime(q)
	}
	c.count("paths that serve with a context for the workers", workers, 5)
	c.count("paths of main", n, 20)
	c.count("paths that serve", served, 10)
	c.count("paths with a failing step", failed, 5)
	c.count("paths with a list that has been read", loaded, 5)
}

// lifetime: the context with which the namespaces are started ends neither by
// itself nor by the program before the server has stopped serving.
func (s *startup) lifetime(q *Path) int {
	c := s.c
	parent := map[string]string{}
	limited := map[string]bool{}
	cancels := map[string]string{} // a function that ends a context
	ended := map[string]int{}
	used := map[string]bool{}
	idx, serve, wait := 0, -1, -1
	q.each(func(e *Event, _ *State, _ int, _ bool) {
		idx++
		switch {
		case e.Kind == "call" && strings.HasPrefix(e.Name, "context.With") && len(e.Args) > 0 && e.Args[0] != nil && len(e.Res) > 0 && e.Res[0] != nil:
			k := e.Res[0].Key()
			if e.Name != "context.WithoutCancel" {
				parent[k] = e.Args[0].Key()
			}
			limited[k] = strings.HasPrefix(e.Name, "context.WithTimeout") || strings.HasPrefix(e.Name, "context.WithDeadline")
			if len(e.Res) > 1 && e.Res[1] != nil {
				cancels[e.Res[1].Key()] = k
			}
		case e.Kind == "callfn" && e.Obj != nil && cancels[e.Obj.Key()] != "":
			if k := cancels[e.Obj.Key()]; ended[k] == 0 {
				ended[k] = idx
			}
		case e.Kind == "call" && e.Name == "Namespace.Start" && len(e.Args) > 0 && e.Args[0] != nil:
			used[e.Args[0].Key()] = true
		case s.serves(e):
			if serve < 0 {
				serve = idx
				if isServe(e) {
					wait = idx
				}
			}
		case e.Kind == "recv" || e.Kind == "select":
			if serve > 0 && wait < 0 {
				wait = idx
			}
		}
	})
	if serve < 0 {
		return 0
	}
	for k := range used {
		for i := 0; k != "" && i < 20; i++ {
			c.obPath(!limited[k], "lifetime", q, q.Fn.Pos(), "limited", "the namespaces are started with a context that ends after some time, while requests are served")
			c.obPath(ended[k] == 0 || ended[k] > max(serve, wait), "lifetime", q, q.Fn.Pos(), "ended", "the context with which the namespaces are started is ended before the server has stopped")
			k = parent[k]
		}
	}
	if len(used) > 0 {
		return 1
	}
	return 0
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// zeroExit: the path ends with os.Exit(0), or with what ends as well only the
// goroutine.
func zeroExit(q *Path) bool {
	for i := len(q.Ev) - 1; i >= 0; i-- {
		e := q.Ev[i]
		if e.Kind != "exit" {
			continue
		}
		if strings.HasPrefix(e.Name, "log.Fatal") {
			return false
		}
		if len(e.Args) == 1 {
			k, ok := constInt(e.Args[0])
			return !ok || k == 0
		}
		return true
	}
	return true
}

// readsList: the list of namespaces is read.
func (s *startup) readsList(e *Event) bool {
	if e.Kind != "call" || !strings.HasPrefix(e.Name, "os.") && !strings.HasPrefix(e.Name, "io/ioutil.ReadFile") || len(e.Args) == 0 {
		return false
	}
	v, ok := isApp(e.Args[0], "concat")
	if !ok {
		_, isC := e.Args[0].(*Const)
		if !isC {
			return false
		}
	}
	suffix := ""
	if f, ok := isApp(s.r.file, "concat"); ok {
		suffix, _ = constStr(f.Args[len(f.Args)-1])
	}
	last := e.Args[0]
	if ok {
		last = v.Args[len(v.Args)-1]
	}
	text, isText := constStr(last)
	return isText && suffix != "" && strings.HasSuffix(text, strings.TrimPrefix(suffix, "/"))
}

// tolerated: what isn't necessary for the program to work.
func (s *startup) tolerated(e *Event) bool {
	if s.readsList(e) {
		return true
	}
	for _, p := range []string{"encoding/json.", "(*encoding/json.", "log.", "(*log.", "fmt.", "(*os.File).Close", "io.ReadAll"} {
		if strings.HasPrefix(e.Name, p) {
			return true
		}
	}
	return e.Kind == "close" || e.Kind == "read"
}

// started: the registry that is served has had its namespaces started.
func (s *startup) started(q *Path, st *State, serve int) {
	c := s.c
	pos := q.Fn.Pos()
	regs := map[string]Val{}
	for _, e := range q.Ev {
		if e.Kind == "call" && strings.Contains(e.Name, "gin.RouterGroup)") || e.Kind == "call" && strings.Contains(e.Name, "gin.Engine)") {
			for _, a := range e.Args {
				s.reachable(st, a, nil, s.r.svc, 5, regs)
			}
		}
	}
	c.obPath(len(regs) == 1, "registry", q, pos, "one", "the requests are served by %d registries", len(regs))
	if len(regs) != 1 {
		return
	}
	var reg *Ptr
	for _, v := range regs {
		reg = s.in.deref(v)
	}
	list, n := s.in.seqOf(st, st.load(mkPtr(reg.O, reg.Path+s.r.list.path), s.r.list.t))
	if k, ok := constInt(n); ok && k == 0 {
		// nothing to start; nothing has been loaded into another registry
		for _, e := range q.Ev {
			c.obPath(!(e.Kind == "call" && e.Name == "Namespace.Start"), "registry", q, e.Pos, "other", "the namespaces started aren't those of the registry that is served")
		}
		if s.decoded(q) {
			c.obPath(false, "registry", q, pos, "lost", "the list that has been loaded isn't that of the registry that is served")
		}
		return
	}
	c.obPath(s.decoded(q), "registry", q, pos, "from", "the registry that is served has namespaces that haven't been loaded")
	var elems Val
	if list != nil && len(list.Segs) == 1 && list.Segs[0].Kind == "sub" {
		elems = list.Segs[0].V
	}
	idx, all := 0, false
	q.each(func(e *Event, _ *State, _ int, inner bool) {
		idx++
		if idx > serve || e.Loop == nil || inner || elems == nil {
			return
		}
		l := e.Loop
		if q.St.decide(le0(sub(n, l.Count))) != 1 || len(l.Iters) == 0 {
			return
		}
		ok := true
		for _, it := range l.Iters {
			k := 0
			for _, x := range it.Events {
				if x.Kind != "call" || x.Name != "Namespace.Start" {
					continue
				}
				fwd := appT(nil, "elem", elems, l.Count)
				back := appT(nil, "elem", elems, sub(addc(n, -1), l.Count))
				if x.Obj != nil && (x.Obj.Key() == fwd.Key() || x.Obj.Key() == back.Key()) && x.Err != nil && it.End.isNil(x.Err) == 1 {
					k++
				} else {
					k = -100
				}
			}
			ok = ok && k == 1
		}
		all = all || ok
	})
	c.obPath(all, "started", q, pos, "every namespace", "requests are served although not every namespace of the list has been started")
}

// decoded: a list has been loaded successfully.
func (s *startup) decoded(q *Path) bool {
	for _, e := range q.Ev {
		if e.Kind == "call" && e.Err != nil && (strings.Contains(e.Name, "json.Unmarshal") || strings.Contains(e.Name, "json.Decoder).Decode")) {
			return q.St.isNil(e.Err) == 1
		}
	}
	return false
}
