package main

// Crashes of the service.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C43", "On every path of every exported operation of the packages that aren't storages, of the handlers of the routes, of the functions started as goroutines and of the program itself, for all arguments and states: no path panics and no index, slice, capacity, conversion, division or dereference may be out of range.", crashRules)
}

func crashRules(c *Ctx) {
	n, ops := 0, 0
	profile := c.named("domain", "Profile")
	if profile == nil {
		return
	}
	seen := map[*ssa.Function]bool{}
	var run func(fn *ssa.Function, q *Path)
	run = func(fn *ssa.Function, q *Path) {
		n++
		c.crash(fn.Name(), q)
		walk(q.Ev, nil, func(e *Event, _ []*IterPath) {
			if e.Kind != "go" {
				return
			}
			cl, ok := e.Obj.(*Closure)
			if ok && (fnPkg(cl.Fn) == nil || !strings.HasPrefix(fnPkg(cl.Fn).Path(), modulePath)) {
				return
			}
			for _, p := range c.goroutines(&Path{In: q.In, Fn: q.Fn, Ev: []*Event{e}, St: q.St}) {
				run(p.Fn, p)
			}
		})
	}
	for _, fn := range c.w.Funcs {
		pk := fnPkg(fn)
		rel := strings.TrimPrefix(strings.TrimPrefix(pk.Path(), modulePath), "/internal/")
		if strings.HasPrefix(rel, "infra/") || rel == "helpers" || strings.Contains(rel, "docs") {
			continue
		}
		exported := fn.Object() != nil && fn.Object().Exported() || pk.Name() == "main" && fn.Name() == "main" || serves(fn)
		if recv := fn.Signature.Recv(); recv != nil && types.Identical(deptr(recv.Type()), profile) {
			continue // C28 and C29
		}
		if fn.Synthetic != "" || fn.Parent() != nil || !exported || fn.TypeParams().Len() > 0 || seen[fn] {
			continue
		}
		seen[fn] = true
		ops++
		// starting a namespace is analysed by itself
		whole := pk.Name() == "main" || fn.Name() == "Start"
		in := NewInterp(c.w, Config{OpaqueIface: func(n *types.Named) bool { return storages(n) || whole && n.Obj().Name() == "Namespace" }})
		st := in.NewState()
		for _, q := range c.run(in, fn, in.args(fn, ""), nil, st) {
			run(fn, q)
		}
	}
	c.count("operations", ops, 40)
	c.count("paths", n, 150)
}

// crash: nothing on the path can make the process panic.
func (c *Ctx) crash(name string, q *Path) {
	c.obPath(q.End == "" || q.End == "exit", "no-panic", q, q.Fn.Pos(), name, "%s may end with %s", name, q.End)
	q.each(func(e *Event, st *State, _ int, _ bool) {
		switch e.Kind {
		case "bound", "nilderef", "nilmap":
			c.obPath(e.Kind == "bound" && within(q.In, st, e.Args), "no-panic", q, e.Pos, e.Fn.Name()+" "+e.Kind, "may be out of range: %s", clip(e.String()))
		case "idiv":
			c.obPath(st.decide(eqInt(e.Args[1], Int(0))) == -1, "no-panic", q, e.Pos, e.Fn.Name()+" division", "may divide by zero: %s", clip(e.String()))
		case "alloc":
			c.obPath(st.decide(le0(mulc(e.Args[0], -1))) == 1, "no-panic", q, e.Pos, e.Fn.Name()+" negative", "memory may be allocated for a negative number of elements, %s", clip(e.Args[0].Key()))
		}
	})
}

// serves tells whether requests are handled by the function.
func serves(fn *ssa.Function) bool {
	ps := fn.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		if strings.HasSuffix(ps.At(i).Type().String(), "gin.Context") {
			return true
		}
	}
	return false
}

// within tells whether what is known about texts puts the bounds in order.
func within(in *Interp, st *State, bs []Val) bool {
	st = st.clone()
	for _, f := range st.factList() {
		a, ok := f.C.(*App)
		if !ok || len(a.Args) != 2 {
			continue
		}
		x, y := a.Args[0], a.Args[1]
		if _, ok := constStr(x); ok {
			x, y = y, x
		}
		lit, ok := constStr(y)
		switch {
		case !ok:
		case a.Op == "str==" && !f.Truth && lit == "":
			st.addFact(le0(addc(mulc(in.lenOf(st, x), -1), 1)), true)
		case a.Op == "str==" && f.Truth:
			st.addFact(eqInt(in.lenOf(st, x), Int(int64(len(lit)))), true)
		case f.Truth && (strings.HasSuffix(a.Op, "HasPrefix") || strings.HasSuffix(a.Op, "HasSuffix")):
			st.addFact(le0(addc(mulc(in.lenOf(st, x), -1), int64(len(lit)))), true)
		}
	}
	if len(bs) == 2 {
		bs = []Val{bs[0], addc(bs[1], -1)}
	}
	ok := st.decide(le0(mulc(bs[0], -1))) == 1
	for i := 1; i < len(bs); i++ {
		ok = ok && st.decide(le0(sub(bs[i-1], bs[i]))) == 1
	}
	return ok
}
