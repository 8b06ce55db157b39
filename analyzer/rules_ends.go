package main

// Ends of loops: a quantity that every iteration decreases and that is bounded,
// or a stop signal that every iteration waits for.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C45", "In every function of the module that has a loop or calls itself, for all arguments: every loop ranges over a map or a text, or has a quantity that each iteration increases and that something fixed bounds, or each iteration reads something from the same stream without setting it back, or waits in a select that also receives the signal to stop; no function calls itself without an end.", endsRules)
}

func endsRules(c *Ctx) {
	fns, waits := 0, 0
	all := map[*ssa.BasicBlock]bool{}
	own := func(fn *ssa.Function) bool {
		return fnPkg(fn) != nil && strings.HasPrefix(fnPkg(fn).Path(), modulePath)
	}
	for _, fn := range c.w.Funcs {
		if fn.Synthetic != "" && len(fn.TypeArgs()) == 0 || fn.TypeParams().Len() > len(fn.TypeArgs()) || fn.Parent() != nil || !hasLoop(fn) && !callsItself(fn) {
			continue
		}
		fns++
		in := NewInterp(c.w, Config{OpaqueIface: func(n *types.Named) bool { return storages(n) || n.Obj().Name() == "Namespace" }})
		var paths []*Path
		var add func(q *Path)
		add = func(q *Path) {
			paths = append(paths, q)
			walk(q.Ev, nil, func(e *Event, _ []*IterPath) {
				if cl, ok := e.Obj.(*Closure); e.Kind != "go" || ok && !own(cl.Fn) {
					return
				}
				for _, p := range c.goroutines(&Path{In: q.In, Fn: q.Fn, Ev: []*Event{e}, St: q.St}) {
					add(p)
				}
			})
		}
		for _, q := range c.run(in, fn, in.args(fn, ""), nil, nil) {
			add(q)
		}
		for _, q := range paths {
			ended := map[*Event]bool{}
			for _, any := range []bool{false, true} {
				o := newOrder()
				o.any = any
				o.each(q, nil, func(e *Event, s *sys) {
					switch {
					case e.Kind == "recursion":
						c.obPath(s.impossible(splitDepth), "recursion", q, e.Pos, e.Fn.Name(), "%s may call itself for ever", e.Fn.Name())
					case e.Kind == "loop" && e.Loop != nil && !ended[e]:
						ended[e] = overMap(e.Loop) || o.ends(e.Loop, s.cs) || o.consumes(e.Loop, s.cs) || takes(e.Loop) && !closes(c.w)
						if !ended[e] && untilTold(e.Loop) {
							waits++
							ended[e] = true
						}
					}
				})
			}
			walk(q.Ev, nil, func(e *Event, _ []*IterPath) {
				if e.Kind == "loop" {
					fn := e.Fn
					if e.Loop != nil {
						fn = e.Loop.Fn
						all[e.Loop.Header] = true
					}
					c.obPath(ended[e], "ends", q, e.Pos, fn.Name(), "a loop of %s may never end", fn.Name())
				}
			})
		}
	}
	c.count("functions", fns, 10)
	c.count("loops", len(all), 15)
	c.count("waiting", waits, 1)
}

// consumes: every iteration reads something from the same stream, which it
// doesn't set back.
func (o *order) consumes(l *LoopSum, known []ineq) bool {
	var stream Val
	for _, it := range l.Iters {
		s := o.system(it.End.factList(), append(append([]ineq{}, known...), o.loopsUnder(it, known)...)...)
		if s.impossible(splitDepth) {
			continue
		}
		some := false
		for _, e := range it.Events {
			if e.Kind != "read" || e.Obj == nil || e.Err == nil || it.End.isNil(e.Err) != 1 || stream != nil && stream.Key() != e.Obj.Key() {
				continue
			}
			n := e.Seq.length()
			if e.Sub == "some" && len(e.Out) == 1 {
				n = e.Out[0] // a stream that has more to read gives some of it
			}
			if s.entails(o.of(n).times(-1).add(1)) {
				stream, some = e.Obj, true
			}
		}
		if !some {
			return false
		}
	}
	if stream == nil {
		return false
	}
	back := false
	for _, it := range l.Iters {
		walk(it.Events, nil, func(e *Event, _ []*IterPath) {
			if e.Obj != nil && e.Obj.Key() == stream.Key() && e.Kind != "read" {
				back = true
			}
		})
	}
	return !back
}

// takes: every iteration takes what is there from the same queue.
func takes(l *LoopSum) bool {
	var queue Val
	for _, it := range l.Iters {
		took := false
		for _, e := range it.Events {
			if e.Kind == "select" && strings.HasSuffix(e.Name, "d") && chosen(e) != nil && (queue == nil || queue.Key() == chosen(e).Key()) {
				queue, took = chosen(e), true
			}
		}
		if !took {
			return false
		}
	}
	return queue != nil
}

// closes: the module closes a queue, which gives zeros then without an end.
func closes(w *World) bool {
	for _, fn := range w.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if call, ok := i.(ssa.CallInstruction); ok {
					if bi, ok := call.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						ch, _ := call.Common().Args[0].Type().Underlying().(*types.Chan)
						if st, ok := ch.Elem().Underlying().(*types.Struct); !ok || st.NumFields() > 0 {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// untilTold: every iteration waits in a select that would also receive the
// signal to stop.
func untilTold(l *LoopSum) bool {
	for _, it := range l.Iters {
		told := false
		for _, e := range it.Events {
			if e.Kind != "select" || chosen(e) == nil || isDone(chosen(e)) {
				continue
			}
			for _, ch := range e.Args {
				told = told || isDone(ch)
			}
		}
		if !told {
			return false
		}
	}
	return true
}

func hasLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		if hasLoop(a) {
			return true
		}
	}
	return false
}

// overMap: the loop ranges over a map or a text.
func overMap(l *LoopSum) bool {
	for _, i := range l.Header.Instrs {
		if _, ok := i.(*ssa.Next); ok {
			return true
		}
	}
	return false
}

// callsItself: the function calls itself, or other functions that call it.
func callsItself(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var to []*ssa.Function
				if call, ok := i.(ssa.CallInstruction); ok {
					to = append(to, call.Common().StaticCallee())
				}
				if m, ok := i.(*ssa.MakeClosure); ok {
					to = append(to, m.Fn.(*ssa.Function))
				}
				for _, g := range to {
					if g == fn {
						return true
					}
					if g != nil && !seen[g] && fnPkg(g) != nil && strings.HasPrefix(fnPkg(g).Path(), modulePath) {
						seen[g] = true
						if visit(g) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return visit(fn)
}
