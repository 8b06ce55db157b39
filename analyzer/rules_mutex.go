package main

// Mutexes: what they guard, and how they're taken and released.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", "Lockset analysis of every path of every exported function of the packages that have structs with mutexes, and of the goroutines they start: a field that some path changes in an object that existed before is guarded; every read of a guarded field, or of the elements of a slice or map in it, happens with the object's mutex held, every change with it held exclusively; a reference to such a slice or map is neither returned, nor sent, nor stored anywhere else, nor passed to other code without the mutex.", locksetRules)
	register("C19", "On every path of every exported function of the packages that have structs with mutexes, and of the goroutines they start: a mutex is released exactly as it has been taken by the time the function ends, or explicitly panics, and isn't taken while it, or another one of the same kind, is held; the relation 'taken while held' between kinds of mutexes has no cycles; while one is held, nothing that waits for a goroutine is done, except receiving what the path itself has sent; between taking and releasing it without deferring no code is called that may panic. No struct with a mutex is copied.", lockRules)
}

// isMutex tells whether a type is a mutex.
func isMutex(t types.Type) bool {
	s := t.String()
	return s == "sync.Mutex" || s == "sync.RWMutex"
}

// mutexFields are the fields of a struct that are mutexes.
func mutexFields(t types.Type) (out []string) {
	for _, l := range leaves(t) {
		if isMutex(l.t) {
			out = append(out, l.path)
		}
	}
	return
}

// locking are the structs of the module that have mutexes.
func (c *Ctx) locking() (out []*types.Named) {
	for _, pk := range c.w.Packages() {
		sc := pk.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			if _, ok := nt.Underlying().(*types.Struct); ok && nt.TypeParams().Len() == 0 && len(mutexFields(nt)) > 0 {
				out = append(out, nt)
			}
		}
	}
	return
}

// lockPaths runs the functions whose locking is checked.
func (c *Ctx) lockPaths(named []*types.Named, accesses bool) (out []*Path) {
	pkgs := map[string]bool{}
	for _, n := range named {
		pkgs[n.Obj().Pkg().Path()] = true
	}
	for _, fn := range c.w.Funcs {
		pk := fnPkg(fn)
		if pk == nil || !pkgs[pk.Path()] || fn.Synthetic != "" || fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || fn.TypeParams().Len() > 0 {
			continue
		}
		if !c.w.touches(fn, named) {
			continue
		}
		cfg := Config{Accesses: accesses, OpaqueIface: storages}
		if recv := fn.Signature.Recv(); recv != nil && fn.Name() == "Start" && c.starts(fn) {
			cfg.OpaqueIface = func(n *types.Named) bool { return storages(n) || n.Obj().Name() == "Namespace" }
		}
		in := NewInterp(c.w, cfg)
		ps := c.run(in, fn, in.args(fn, ""), nil, nil)
		out = append(out, ps...)
		for _, q := range ps {
			out = append(out, c.goroutines(q)...)
		}
	}
	return
}

// starts: the function calls the method of the same name through an interface.
func (c *Ctx) starts(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == fn.Name() {
				return true
			}
		}
	}
	return false
}

// touches: the function, or one that it calls or makes, uses one of the types or
// may be called with the module's interfaces.
func (w *World) touches(fn *ssa.Function, named []*types.Named) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function) bool
	visit = func(fn *ssa.Function) bool {
		if fn == nil || seen[fn] || !isModule(fnPkg(fn)) {
			return false
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.FieldAddr:
					for _, n := range named {
						if types.Identical(deptr(x.X.Type()), n) {
							return true
						}
					}
				case *ssa.MakeClosure:
					if visit(x.Fn.(*ssa.Function)) {
						return true
					}
				case ssa.CallInstruction:
					cm := x.Common()
					if cm.IsInvoke() {
						n, ok := types.Unalias(cm.Value.Type()).(*types.Named)
						if ok && n.Obj().Pkg() != nil && isModule(n.Obj().Pkg()) {
							if im := w.implementor(n); im != nil && visit(w.method(im, cm.Method.Name())) {
								return true
							}
						}
					} else if visit(cm.StaticCallee()) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(fn)
}

// ---- locks held

type held struct {
	obj      *Obj
	path     string
	write    bool
	deferred bool
	ev       *Event
}

func (h held) class() string { return mutexClass(h.obj, h.path) }

func mutexClass(o *Obj, path string) string {
	t := "?"
	if o.T != nil {
		t = strings.TrimPrefix(deptr(o.T).String(), modulePath+"/internal/")
	}
	return t + path
}

type lockset []held

func (l lockset) find(o *Obj, path string) int {
	for i := len(l) - 1; i >= 0; i-- {
		if l[i].obj == o && l[i].path == path {
			return i
		}
	}
	return -1
}

// step follows a lock event; what is wrong with it, if anything.
func (l *lockset) step(e *Event) string {
	var p *Ptr
	if e.Obj != nil {
		p, _ = unwrap(e.Obj).(*Ptr)
	}
	switch e.Kind {
	case "lock", "rlock":
		if p == nil {
			return "a mutex is taken that can't be identified"
		}
		msg := ""
		if l.find(p.O, p.Path) >= 0 {
			msg = "the mutex " + mutexClass(p.O, p.Path) + " is taken while it's held already"
		} else {
			for _, h := range *l {
				if h.class() == mutexClass(p.O, p.Path) {
					msg = "the mutex " + h.class() + " of an object is taken while that of another one, perhaps the same one, is held"
				}
			}
		}
		*l = append(append(lockset{}, *l...), held{obj: p.O, path: p.Path, write: e.Kind == "lock", ev: e})
		return msg
	case "unlock", "runlock":
		if p == nil {
			return "a mutex is released that can't be identified"
		}
		i := l.find(p.O, p.Path)
		if i < 0 {
			return "the mutex " + mutexClass(p.O, p.Path) + " is released, but isn't held"
		}
		h := (*l)[i]
		*l = append(append(lockset{}, (*l)[:i]...), (*l)[i+1:]...)
		if h.write != (e.Kind == "unlock") {
			return "the mutex " + h.class() + " is released in another way than it has been taken"
		}
	}
	return ""
}

// holds visits the events with the locks held.
func holds(evs []*Event, l lockset, f func(e *Event, l lockset, bad string, rest []*Event), end func(l lockset, it *IterPath)) lockset {
	for i, e := range evs {
		before := l
		bad := l.step(e)
		f(e, before, bad, evs[i+1:])
		if e.Loop != nil {
			for _, it := range e.Loop.Iters {
				end(holds(it.Events, l, f, end), it)
			}
		}
	}
	return l
}

// ---- C17

// guarded is a field of a struct with a mutex.
func topField(path string) string {
	if path == "" {
		return ""
	}
	i := strings.IndexAny(path[1:], ".[")
	if i < 0 {
		return path
	}
	return path[:i+1]
}

// ownerOf finds the struct with a mutex that a location is in.
func ownerOf(named []*types.Named, p *Ptr) (*types.Named, string) {
	if p == nil || p.O == nil || p.O.T == nil {
		return nil, ""
	}
	for _, n := range named {
		if types.Identical(deptr(p.O.T), n) || types.Identical(p.O.T, n) {
			return n, topField(p.Path)
		}
	}
	return nil, ""
}

type guardedBy struct {
	obj   *Obj
	n     *types.Named
	field string
}

// reaches lists the array and map objects that a value refers to directly.
func reaches(v Val) (out []*Obj) {
	switch x := v.(type) {
	case *Slice:
		out = append(out, x.Base.O)
	case *Ptr:
		if x.O.Kind == "map" || x.O.Kind == "arr" {
			out = append(out, x.O)
		}
	case *Iface:
		if x.V != nil {
			out = append(out, reaches(x.V)...)
		}
	case *Agg:
		for _, f := range x.Fields {
			out = append(out, reaches(f)...)
		}
	case *Tuple:
		for _, f := range x.Vs {
			out = append(out, reaches(f)...)
		}
	}
	return
}

// reaches also lists the arrays that an array made by appending may be the same as.
func (q *Path) reaches(v Val) []*Obj {
	out := reaches(v)
	for i := 0; i < len(out); i++ {
		if b := q.In.grown[out[i].ID]; b != nil {
			out = append(out, b)
		}
	}
	return out
}

func isRef(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

func locksetRules(c *Ctx) {
	named := c.locking()
	c.count("structs with mutexes", len(named), 2)
	ps := c.lockPaths(named, true)
	// what's changed after it has been made
	changed := map[string]bool{}
	note := func(p *Ptr) {
		if n, f := ownerOf(named, p); n != nil && f != "" {
			changed[n.Obj().Name()+f] = true
		}
	}
	for _, q := range ps {
		arrs := c.guardedArrays(named, q)
		q.each(func(e *Event, _ *State, _ int, _ bool) {
			p, _ := unwrap(orNil(e.Obj)).(*Ptr)
			if sl, ok := e.Obj.(*Slice); ok {
				p = sl.Base
			}
			if p == nil {
				return
			}
			switch e.Kind {
			case "store", "storewin", "copymem", "appendover", "mapupdate", "mapdelete", "mapclear":
				note(p)
				if g, ok := arrs[p.O.ID]; ok {
					changed[g.n.Obj().Name()+g.field] = true
				}
			}
		})
	}
	var names []string
	for k := range changed {
		names = append(names, k)
	}
	sort.Strings(names)
	c.count("guarded fields", len(names), 4)
	n := 0
	for _, q := range ps {
		arrs := c.guardedArrays(named, q)
		fresh := map[int]bool{}
		check := func(e *Event, l lockset, o *Obj, t *types.Named, field string, write bool, what string) {
			if o.Kind == "alloc" || fresh[o.ID] || !changed[t.Obj().Name()+field] {
				return
			}
			n++
			ok := false
			for _, m := range mutexFields(t) {
				if i := l.find(o, m); i >= 0 && (l[i].write || !write) {
					ok = true
				}
			}
			verb := "read"
			if write {
				verb = "changed"
			}
			c.obPath(ok, "lockset", q, e.Pos, e.Fn.Name()+" "+verb+" "+t.Obj().Name()+field, "%s of %s%s is %s without its mutex", what, t.Obj().Name(), field, verb)
		}
		holds(q.Ev, nil, func(e *Event, l lockset, _ string, _ []*Event) {
			write := true
			switch e.Kind {
			case "load", "maplookup", "rangemap", "rangeend":
				write = false
			case "store", "storewin", "copymem", "appendover", "mapupdate", "mapdelete", "mapclear":
			case "call", "callfn", "send", "go":
				for _, a := range append(append([]Val{}, e.Args...), orNil(e.Obj)) {
					for _, o := range q.reaches(a) {
						if g, ok := arrs[o.ID]; ok {
							check(e, l, g.obj, g.n, g.field, false, "an element")
							n++
							c.obPath(e.Kind == "call" || e.Kind == "callfn", "escape", q, e.Pos, e.Fn.Name()+" "+e.Kind+" "+g.n.Obj().Name()+g.field, "a reference to %s%s is given to another goroutine", g.n.Obj().Name(), g.field)
						}
					}
				}
				return
			default:
				return
			}
			var p *Ptr
			switch x := unwrap(orNil(e.Obj)).(type) {
			case *Ptr:
				p = x
			case *Slice:
				p = x.Base
			}
			if p == nil {
				return
			}
			if t, f := ownerOf(named, p); t != nil && f != "" {
				for _, m := range mutexFields(t) {
					if topField(m) == f {
						return
					}
				}
				check(e, l, p.O, t, f, write, "the value")
			} else if g, ok := arrs[p.O.ID]; ok {
				check(e, l, g.obj, g.n, g.field, write, "an element")
			}
			// stored somewhere else
			if e.Kind == "store" && len(e.Args) == 1 {
				for _, o := range q.reaches(e.Args[0]) {
					g, ok := arrs[o.ID]
					if !ok || g.obj.Kind == "alloc" || !changed[g.n.Obj().Name()+g.field] {
						continue
					}
					t, f := ownerOf(named, p)
					n++
					c.obPath(p.O.Kind == "alloc" || t == g.n && f == g.field && p.O == g.obj, "escape", q, e.Pos, e.Fn.Name()+" stores "+g.n.Obj().Name()+g.field, "a reference to %s%s is stored somewhere else", g.n.Obj().Name(), g.field)
				}
			}
		}, func(lockset, *IterPath) {})
		for _, r := range q.Rets {
			for _, o := range q.reaches(resolveSlice(q, r)) {
				g, ok := arrs[o.ID]
				if !ok || g.obj.Kind == "alloc" {
					continue
				}
				n++
				c.obPath(!changed[g.n.Obj().Name()+g.field], "escape", q, q.Fn.Pos(), q.Fn.Name()+" returns "+g.n.Obj().Name()+g.field, "%s returns a reference to %s%s, which the caller uses without the mutex", q.Fn.Name(), g.n.Obj().Name(), g.field)
			}
		}
	}
	c.count("accesses to guarded fields", n, 40)
}

func orNil(v Val) Val {
	if v == nil {
		return Nil
	}
	return v
}

// resolveSlice is the window that a symbolic slice stands for.
func resolveSlice(q *Path, v Val) Val {
	if s, ok := v.(*Sym); ok && s.T != nil && isRef(s.T) {
		if sl := q.In.toSlice(v); sl != nil {
			return sl
		}
	}
	return v
}

// guardedArrays maps the objects that hold the elements of slices and maps in
// fields of structs with mutexes to these fields.
func (c *Ctx) guardedArrays(named []*types.Named, q *Path) map[int]guardedBy {
	out := map[int]guardedBy{}
	add := func(e *Event, v Val) {
		p, _ := unwrap(orNil(e.Obj)).(*Ptr)
		t, f := ownerOf(named, p)
		if t == nil || f == "" || e.T == nil || !isRef(e.T) {
			return
		}
		var objs []*Obj
		if p2 := q.In.deref(v); p2 != nil {
			objs = append(objs, p2.O)
		}
		if sl := q.In.toSlice(v); sl != nil {
			objs = append(objs, sl.Base.O)
		}
		for _, o := range objs {
			for o != nil {
				if _, ok := out[o.ID]; ok {
					break
				}
				out[o.ID] = guardedBy{p.O, t, f}
				o = q.In.grown[o.ID]
			}
		}
	}
	q.each(func(e *Event, _ *State, _ int, _ bool) {
		switch e.Kind {
		case "load":
			if len(e.Res) == 1 {
				add(e, e.Res[0])
			}
		case "store":
			if len(e.Args) == 1 {
				add(e, e.Args[0])
			}
		}
	})
	return out
}

// ---- C19

func lockRules(c *Ctx) {
	named := c.locking()
	c.count("structs with mutexes", len(named), 2)
	ps := c.lockPaths(named, false)
	order := map[string]map[string]string{} // held -> taken -> where
	taken := 0
	edge := func(a, b, where string) {
		if order[a] == nil {
			order[a] = map[string]string{}
		}
		if _, ok := order[a][b]; !ok {
			order[a][b] = where
		}
	}
	memo := map[string][]string{}
	for _, q := range ps {
		name := q.Fn.Name()
		end := func(l lockset, what string) {
			for _, h := range l {
				c.obPath(false, "released", q, h.ev.Pos, h.ev.Fn.Name()+" "+h.class()+what, "%s ends (%s) with the mutex %s still held", name, ending(q)+what, h.class())
			}
		}
		last := holds(q.Ev, nil, func(e *Event, l lockset, bad string, rest []*Event) {
			switch e.Kind {
			case "lock", "rlock":
				taken++
				p, _ := unwrap(orNil(e.Obj)).(*Ptr)
				if p != nil {
					for _, h := range l {
						edge(h.class(), mutexClass(p.O, p.Path), c.w.pos(e.Pos))
					}
				}
				c.obPath(bad == "", "taken", q, e.Pos, e.Fn.Name()+" "+e.Kind, "%s", bad)
			case "unlock", "runlock":
				c.obPath(bad == "", "taken", q, e.Pos, e.Fn.Name()+" "+e.Kind, "%s", bad)
			}
			if len(l) == 0 {
				return
			}
			c.waitsHeld(q, e, l)
			if e.Kind == "call" || e.Kind == "callfn" || e.Kind == "bound" || e.Kind == "nilderef" || e.Kind == "idiv" || e.Kind == "panic" {
				c.panicsHeld(q, e, l)
			}
			if e.Kind == "call" {
				for _, cl := range c.locksOf(e.Name, memo) {
					for _, h := range l {
						edge(h.class(), cl, c.w.pos(e.Pos))
						c.obPath(h.class() != cl, "taken", q, e.Pos, e.Fn.Name()+" "+e.Name, "%s takes a mutex %s while one is held", e.Name, cl)
					}
				}
			}
		}, func(l lockset, it *IterPath) {})
		end(last, "")
		// iterations leave the mutexes as they were
		walk(q.Ev, nil, func(e *Event, _ []*IterPath) {
			if e.Loop == nil {
				return
			}
			for _, it := range e.Loop.Iters {
				var base lockset
				bal := 0
				for _, x := range it.Events {
					switch x.Kind {
					case "lock", "rlock":
						bal++
						base.step(x)
					case "unlock", "runlock":
						bal--
						base.step(x)
					}
				}
				c.obPath(bal == 0 && len(base) == 0, "released", q, e.Pos, e.Fn0(q).Name()+" loop", "an iteration of a loop doesn't leave the mutexes as they were")
			}
		})
		c.obPath(len(last) == 0, "released", q, q.Fn.Pos(), name, "%s ends (%s) with a mutex held", name, ending(q))
	}
	c.count("mutexes taken", taken, 30)
	// cycles
	var visit func(a string, stack []string)
	visit = func(a string, stack []string) {
		for i, s := range stack {
			if s == a {
				c.ob(false, "order", nil, 0, strings.Join(stack[i:], "->"), "mutexes are taken in different orders: %s", strings.Join(append(stack[i:], a), " then "))
				return
			}
		}
		for b := range order[a] {
			visit(b, append(append([]string{}, stack...), a))
		}
	}
	edges := 0
	for a := range order {
		edges += len(order[a])
		visit(a, nil)
	}
	c.ob(true, "order", nil, 0, "order of mutexes", "")
	c.count("kinds of mutexes taken while another is held", edges, 1)
	c.copies(named)
}

// Fn0 is the function that an event is in.
func (e *Event) Fn0(q *Path) *ssa.Function {
	if e.Fn != nil {
		return e.Fn
	}
	return q.Fn
}

// locksOf are the kinds of mutexes that a method called through an interface of
// the module takes.
func (c *Ctx) locksOf(name string, memo map[string][]string) []string {
	if v, ok := memo[name]; ok {
		return v
	}
	memo[name] = nil
	i := strings.IndexByte(name, '.')
	if i < 0 || strings.ContainsAny(name, "(/") {
		return nil
	}
	var im types.Type
	for _, pk := range c.w.Packages() {
		tn, ok := pk.Pkg.Scope().Lookup(name[:i]).(*types.TypeName)
		if !ok {
			continue
		}
		if n, ok := tn.Type().(*types.Named); ok {
			if _, ok := n.Underlying().(*types.Interface); ok {
				im = c.w.implementor(n)
			}
		}
	}
	if im == nil {
		return nil
	}
	fn := c.w.method(im, name[i+1:])
	if fn == nil || !c.w.touches(fn, c.locking()) {
		return nil
	}
	in := NewInterp(c.w, Config{OpaqueIface: storages})
	set := map[string]bool{}
	for _, q := range c.run(in, fn, in.args(fn, ""), nil, nil) {
		walk(q.Ev, nil, func(e *Event, _ []*IterPath) {
			if e.Kind == "lock" || e.Kind == "rlock" {
				if p, ok := unwrap(orNil(e.Obj)).(*Ptr); ok {
					set[mutexClass(p.O, p.Path)] = true
				}
			}
		})
	}
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	memo[name] = out
	return out
}

// waitsHeld: nothing is waited for while a mutex is held.
func (c *Ctx) waitsHeld(q *Path, e *Event, l lockset) {
	what := ""
	switch e.Kind {
	case "recv", "send":
		if e.Sub == "select" || ready(q, e) {
			return
		}
		what = "waits for a channel"
	case "select":
		if strings.HasSuffix(e.Name, "d") {
			return
		}
		what = "waits for a channel"
	case "call":
		switch {
		case e.Name == "time.Sleep", strings.HasSuffix(e.Name, "WaitGroup).Wait"), strings.HasSuffix(e.Name, "Cond).Wait"):
			what = "waits"
		case strings.HasPrefix(e.Name, "(*net/http.Server)."), strings.HasPrefix(e.Name, "net/http."):
			what = "waits for the network"
		default:
			return
		}
	default:
		return
	}
	c.obPath(false, "waiting", q, e.Pos, e.Fn.Name()+" "+e.Kind+" "+e.Name, "%s while the mutex %s is held", what, l[len(l)-1].class())
}

// ready: the operation on a channel can't wait, because the path has made the
// channel and it has room, or something to receive.
func ready(q *Path, e *Event) bool {
	p, ok := unwrap(orNil(e.Obj)).(*Ptr)
	if !ok || p.O.Kind != "chan" {
		return false
	}
	n := int64(0)
	found, inLoop, closed := false, false, false
	walk(q.Ev, nil, func(x *Event, up []*IterPath) {
		if x == e {
			found = true
			return
		}
		if found || x.Obj == nil || unwrap(x.Obj).Key() != p.Key() {
			return
		}
		switch x.Kind {
		case "send":
			n++
		case "recv":
			n--
		case "close":
			closed = true
		default:
			return
		}
		inLoop = inLoop || len(up) > 0
	})
	if !found || inLoop {
		return false
	}
	if e.Kind == "recv" {
		return n > 0 || closed
	}
	cp, ok := constInt(orNil(q.St.heap[p.loc()+"#cap"]))
	return ok && n < cp
}

// panicsHeld: if the mutex isn't going to be released by a deferred call,
// nothing that's done meanwhile may panic.
func (c *Ctx) panicsHeld(q *Path, e *Event, l lockset) {
	for _, h := range l {
		if c.deferred(h.ev.Fn, h.ev) {
			continue
		}
		ok := e.Kind == "call" && harmless(e.Name)
		c.obPath(ok, "panics", q, e.Pos, h.ev.Fn.Name()+" "+h.class()+" "+e.Kind+" "+e.Name, "%s is called while the mutex %s is held that no deferred call releases", e.Name, h.class())
	}
}

// harmless: a call that can't panic.
func harmless(name string) bool {
	for _, p := range []string{"fmt.", "log.", "errors.", "os.", "time.", "strings.", "strconv.", "io.", "encoding/json.Marshal"} {
		if strings.HasPrefix(name, p) && !strings.HasPrefix(name, "log.Panic") {
			return true
		}
	}
	return false
}

// deferred: the function defers releasing of the mutex that the event takes.
func (c *Ctx) deferred(fn *ssa.Function, e *Event) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			d, ok := ins.(*ssa.Defer)
			if !ok {
				continue
			}
			if callee := d.Call.StaticCallee(); callee != nil {
				if strings.HasSuffix(callee.Name(), "nlock") {
					return true
				}
				if releases(callee) {
					return true
				}
			}
			if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok && releases(mc.Fn.(*ssa.Function)) {
				return true
			}
		}
	}
	return false
}

func releases(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok {
				if callee := ci.Common().StaticCallee(); callee != nil && strings.HasSuffix(callee.Name(), "nlock") {
					return true
				}
			}
		}
	}
	return false
}

// copies: no value of a struct with a mutex is copied.
func (c *Ctx) copies(named []*types.Named) {
	has := func(t types.Type) bool {
		for _, n := range named {
			if types.Identical(t, n) {
				return true
			}
		}
		return isMutex(t) || t.String() == "sync.Once" || t.String() == "sync.WaitGroup"
	}
	n := 0
	for _, fn := range c.w.Funcs {
		for _, p := range fn.Params {
			n++
			c.ob(!has(p.Type()), "copied", fn, fn.Pos(), fn.Name()+" parameter "+p.Name(), "a struct with a mutex is passed by value")
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if u, ok := ins.(*ssa.UnOp); ok {
					n++
					c.ob(!has(u.Type()), "copied", fn, u.Pos(), fn.Name()+" copy", "a struct with a mutex is copied")
				}
			}
		}
	}
	c.count("values that might be copies of mutexes", n, 100)
}
