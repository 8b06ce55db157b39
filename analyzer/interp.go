package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/bits"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Config tells what the interpreter doesn't look into.
type Config struct {
	OpaqueFn    func(fn *ssa.Function) bool // module functions treated as events
	OpaqueIface func(n *types.Named) bool   // module interfaces whose methods are events
	Accesses    bool                        // emit load/store events
	MaxSteps    int
	Order       *order                    // decides inequalities that the facts don't decide
	After       func(st *State, e *Event) // after a module function treated as an event
}

type tokenPos = token.Pos

var tUint types.Type = types.Typ[types.Uint]

type abort struct{ msg string }

// Interp is the abstract interpreter.
type Interp struct {
	W       *World
	cfg     Config
	nextID  int
	lazies  map[string]Val
	objs    map[string]*Obj // objects of symbolic pointers
	globals map[*ssa.Global]*Obj
	locType map[string]types.Type
	grown   map[int]*Obj // what an array made by appending may be the same as
	loops   map[*ssa.Function]map[*ssa.BasicBlock]*loop
	base    map[string]Val
	steps   int
	fn      *ssa.Function // what's being called from where
	at      token.Pos
	stack   []*ssa.Function
	funcs   map[*ssa.Function]bool // analysed functions
	unknown map[string]bool        // external functions treated as opaque
	nPaths  int
	byID    map[int]*Obj
}

func NewInterp(w *World, cfg Config) *Interp {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 6_000_000
	}
	return &Interp{W: w, cfg: cfg, lazies: map[string]Val{}, objs: map[string]*Obj{},
		globals: map[*ssa.Global]*Obj{}, locType: map[string]types.Type{},
		grown: map[int]*Obj{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loop{}, funcs: map[*ssa.Function]bool{}, unknown: map[string]bool{}}
}

func (in *Interp) fresh(name string, t types.Type) *Sym {
	in.nextID++
	return &Sym{in.nextID, name, t, name + "~" + strconv.Itoa(in.nextID)}
}
func (in *Interp) namedSym(name string, t types.Type) *Sym {
	return &Sym{0, name, t, name}
}
func (in *Interp) newObj(kind, name string, t types.Type, site ssa.Value) *Obj {
	in.nextID++
	o := &Obj{ID: in.nextID, Name: name, T: t, Kind: kind, Site: site}
	in.objByID(0)
	in.byID[o.ID] = o
	return o
}

// symbolic pointers: one object per value
func (in *Interp) objOf(v Val, t types.Type) *Obj {
	k := v.Key()
	if o, ok := in.objs[k]; ok {
		return o
	}
	o := in.newObj("sym", k, t, nil)
	o.Base = v
	in.objs[k] = o
	return o
}

func (in *Interp) deref(v Val) *Ptr {
	switch x := v.(type) {
	case *Ptr:
		return x
	case *Iface:
		return in.deref(x.V)
	case *Slice:
		return x.Base
	case *Sym, *App:
		return mkPtr(in.objOf(v, nil), "")
	}
	return nil
}

func (in *Interp) lazy(p *Ptr, t types.Type) Val {
	k := p.loc()
	if v, ok := in.lazies[k]; ok {
		return v
	}
	name := p.O.Name + p.Path
	if p.Path == "" && p.O.Kind == "sym" {
		name = "*" + name // not the pointer itself
	}
	var v Val
	if a := arrElem(p); a != nil {
		v = a(t)
	} else {
		v = &Sym{0, name, t, name}
		if p.O.Kind == "global" && strings.HasPrefix(p.O.Name, "ext:") && p.Path == "" && t != nil && types.IsInterface(t) {
			v = &Sym{0, "!" + name, t, "!" + name} // sentinel errors of other packages
		}
	}
	in.lazies[k] = v
	return v
}

// elements of symbolic arrays are projections of the array value
func arrElem(p *Ptr) func(t types.Type) Val {
	i := lastElem(p.Path)
	if i < 0 {
		return nil
	}
	base, idx, rest := splitElem(p, i)
	if idx == nil {
		return nil
	}
	return func(t types.Type) Val {
		var bt types.Type
		if rest == "" {
			bt = t
		}
		return project(appT(bt, "elem", arrBase(base), idx), rest, t)
	}
}
func arrBase(base *Ptr) Val {
	if base.Path == "" && base.O.Base != nil {
		return base.O.Base
	}
	return app("arr", base)
}

func (in *Interp) globalPtr(g *ssa.Global) *Ptr {
	o, ok := in.globals[g]
	if !ok {
		kind, name := "global", g.String()
		if g.Pkg == nil || !isModule(g.Pkg.Pkg) {
			name = "ext:" + name
		}
		o = in.newObj(kind, name, g.Type().(*types.Pointer).Elem(), g)
		in.globals[g] = o
	}
	return mkPtr(o, "")
}

// ---- entry points

type outcome struct {
	st   *State
	rets []Val
	end  string // "" normal, "panic", "exit"
}

// Init runs the initializers of the module's packages to learn the initial
// values of the package-level variables.
func (in *Interp) Init() {
	st := &State{in: in, heap: map[string]Val{}}
	cfg := in.cfg
	in.cfg = Config{MaxSteps: cfg.MaxSteps}
	for _, p := range in.W.InitOrder {
		f := p.Func("init")
		if f == nil || f.Blocks == nil {
			continue
		}
		outs := in.callFn(f, nil, nil, st, token.NoPos)
		for _, o := range outs {
			if o.end == "" {
				st = o.st
			}
		}
	}
	in.cfg = cfg
	in.base = st.heap
	in.funcs = map[*ssa.Function]bool{}
	in.steps = 0
}

func (in *Interp) NewState() *State {
	if in.base == nil {
		in.Init()
	}
	st := &State{in: in, heap: map[string]Val{}}
	for k, v := range in.base {
		st.heap[k] = v
	}
	return st
}

// Run executes a function abstractly with symbolic parameters.
func (in *Interp) Run(fn *ssa.Function, args []Val) []outcome {
	return in.RunIn(fn, args, nil, in.NewState())
}
func (in *Interp) RunIn(fn *ssa.Function, args, binds []Val, st *State) []outcome {
	if args == nil {
		args = in.Params(fn)
	}
	in.steps = 0
	in.stack = nil
	outs := in.callFn(fn, args, binds, st, fn.Pos())
	in.nPaths += len(outs)
	return outs
}

// Params makes symbols for the parameters of a function.
func (in *Interp) Params(fn *ssa.Function) []Val {
	var args []Val
	for _, p := range fn.Params {
		args = append(args, in.namedSym(p.Name(), p.Type()))
	}
	return args
}

// ---- frames

type frame struct {
	in    *Interp
	fn    *ssa.Function
	loops map[*ssa.BasicBlock]*loop
}
type deferRec struct {
	call *ssa.Defer
	fnv  Val
	args []Val
	recv Val
}
type fstate struct {
	st     *State
	env    map[ssa.Value]Val
	defers []deferRec
}

func (fs *fstate) clone() *fstate {
	e := make(map[ssa.Value]Val, len(fs.env))
	for k, v := range fs.env {
		e[k] = v
	}
	return &fstate{fs.st.clone(), e, append([]deferRec{}, fs.defers...)}
}

type edge struct {
	fs       *fstate
	from, to *ssa.BasicBlock
}
type sink struct {
	rets  []outcome
	back  []edge
	exits []edge
}

func (in *Interp) callFn(fn *ssa.Function, args, binds []Val, st *State, pos token.Pos) []outcome {
	if len(in.stack) > 60 {
		panic(abort{"call depth exceeded in " + fn.String()})
	}
	in.funcs[fn] = true
	in.stack = append(in.stack, fn)
	defer func() { in.stack = in.stack[:len(in.stack)-1] }()
	f := &frame{in, fn, in.loopsOf(fn)}
	fs := &fstate{st: st.clone(), env: map[ssa.Value]Val{}}
	for i, p := range fn.Params {
		if i < len(args) {
			fs.env[p] = args[i]
		} else {
			fs.env[p] = in.fresh("arg:"+p.Name(), p.Type())
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			fs.env[p] = binds[i]
		} else {
			fs.env[p] = in.fresh("free:"+p.Name(), p.Type())
		}
	}
	sk := &sink{}
	f.transition(fs, nil, fn.Blocks[0], nil, sk)
	return sk.rets
}

func (f *frame) transition(fs *fstate, from, to *ssa.BasicBlock, cur *loop, sk *sink) {
	if cur != nil {
		if to == cur.header {
			sk.back = append(sk.back, edge{fs, from, to})
			return
		}
		if !cur.body[to] {
			sk.exits = append(sk.exits, edge{fs, from, to})
			return
		}
	}
	if lp := f.loops[to]; lp != nil {
		f.runLoop(lp, fs, from, cur, sk)
		return
	}
	f.evalPhis(fs, from, to)
	f.run(fs, to, f.firstNonPhi(to), cur, sk)
}

func (f *frame) firstNonPhi(b *ssa.BasicBlock) int {
	for i, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (f *frame) evalPhis(fs *fstate, from, to *ssa.BasicBlock) {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	vals := map[*ssa.Phi]Val{}
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vals[phi] = f.val(fs, phi.Edges[idx])
	}
	for p, v := range vals {
		fs.env[p] = v
	}
}

func (f *frame) val(fs *fstate, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroVal(x.Type())
		}
		if isFloat(x.Type()) {
			return mkConst(constant.ToFloat(x.Value))
		}
		if x.Value.Kind() == constant.Int || x.Value.Kind() == constant.Float {
			if c := constant.ToInt(x.Value); c.Kind() == constant.Int && isInteger(x.Type()) {
				return mkConst(c)
			}
		}
		return mkConst(x.Value)
	case *ssa.Function:
		return mkClosure(x, nil)
	case *ssa.Global:
		return f.in.globalPtr(x)
	case *ssa.Builtin:
		return app("builtin:" + x.Name())
	}
	r, ok := fs.env[v]
	if !ok {
		return f.in.fresh("undef:"+v.Name(), v.Type())
	}
	return r
}

func (f *frame) run(fs *fstate, b *ssa.BasicBlock, i int, cur *loop, sk *sink) {
	in := f.in
	for ; i < len(b.Instrs); i++ {
		in.steps++
		if in.steps > in.cfg.MaxSteps {
			panic(abort{"step limit exceeded in " + f.fn.String()})
		}
		switch ins := b.Instrs[i].(type) {
		case *ssa.If:
			c := f.val(fs, ins.Cond)
			switch fs.st.decide(c) {
			case 1:
				f.transition(fs, b, b.Succs[0], cur, sk)
			case -1:
				f.transition(fs, b, b.Succs[1], cur, sk)
			default:
				g := fs.clone()
				fs.st.addFact(c, true)
				f.transition(fs, b, b.Succs[0], cur, sk)
				g.st.addFact(c, false)
				f.transition(g, b, b.Succs[1], cur, sk)
			}
			return
		case *ssa.Jump:
			f.transition(fs, b, b.Succs[0], cur, sk)
			return
		case *ssa.Return:
			var rets []Val
			for _, r := range ins.Results {
				rets = append(rets, f.val(fs, r))
			}
			sk.rets = append(sk.rets, outcome{fs.st, rets, ""})
			return
		case *ssa.Panic:
			fs.st.emit(&Event{Kind: "panic", Pos: ins.Pos(), Fn: f.fn, Args: []Val{f.val(fs, ins.X)}})
			sk.rets = append(sk.rets, outcome{fs.st, nil, "panic"})
			return
		case *ssa.RunDefers:
			// run the deferred calls in the reverse order
			sts := []*fstate{fs}
			n := len(fs.defers)
			for d := n - 1; d >= 0; d-- {
				var next []*fstate
				for _, s := range sts {
					rec := s.defers[d]
					for _, o := range f.doCall(s, rec.call.Common(), rec.fnv, rec.recv, rec.args, rec.call.Pos(), "defer") {
						if o.end != "" {
							sk.rets = append(sk.rets, o)
							continue
						}
						s2 := s.clone()
						s2.st = o.st
						next = append(next, s2)
					}
				}
				sts = next
			}
			for _, s := range sts {
				s.defers = nil
				f.run(s, b, i+1, cur, sk)
			}
			return
		case *ssa.Defer:
			fnv, recv, args := f.callOperands(fs, ins.Common())
			fs.defers = append(fs.defers, deferRec{ins, fnv, args, recv})
		case *ssa.Go:
			fnv, recv, args := f.callOperands(fs, ins.Common())
			ev := &Event{Kind: "go", Pos: ins.Pos(), Fn: f.fn, Obj: fnv, Args: args}
			if recv != nil {
				ev.Args = append([]Val{recv}, args...)
			}
			if ins.Common().IsInvoke() {
				ev.Name = ins.Common().Method.Name()
			}
			fs.st.emit(ev)
			in.W.goStates[ev] = fs.st.clone()
		case *ssa.Call:
			fnv, recv, args := f.callOperands(fs, ins.Common())
			outs := f.doCall(fs, ins.Common(), fnv, recv, args, ins.Pos(), "")
			if len(outs) == 1 && outs[0].end == "" {
				fs.st = outs[0].st
				fs.env[ins] = tupleOrSingle(outs[0].rets)
				continue
			}
			for _, o := range outs {
				if o.end != "" {
					sk.rets = append(sk.rets, o)
					continue
				}
				g := fs.clone()
				g.st = o.st
				g.env[ins] = tupleOrSingle(o.rets)
				f.run(g, b, i+1, cur, sk)
			}
			return
		case *ssa.TypeAssert:
			alts := f.typeAssert(fs, ins)
			for j, a := range alts {
				g := fs
				if j < len(alts)-1 {
					g = fs.clone()
				}
				if a.cond != nil {
					g.st.addFact(a.cond, a.truth)
				}
				if a.panics {
					g.st.emit(&Event{Kind: "panic", Name: "typeassert", Pos: ins.Pos(), Fn: f.fn, Args: []Val{f.val(fs, ins.X)}, T: ins.AssertedType})
					sk.rets = append(sk.rets, outcome{g.st, nil, "panic"})
					continue
				}
				g.env[ins] = a.v
				f.run(g, b, i+1, cur, sk)
			}
			return
		case *ssa.Select:
			f.doSelect(fs, ins, b, i, cur, sk)
			return
		case *ssa.Next:
			f.doNext(fs, ins, b, i, cur, sk)
			return
		case *ssa.Lookup:
			f.doLookup(fs, ins)
		default:
			f.instr(fs, ins)
		}
	}
}

func tupleOrSingle(v []Val) Val {
	switch len(v) {
	case 0:
		return mkTuple()
	case 1:
		return v[0]
	}
	return mkTuple(v...)
}

// nothing is known about a value produced by an unsupported construct
func (f *frame) unsupported(ins ssa.Instruction) {
	panic(abort{fmt.Sprintf("unsupported instruction %T in %s", ins, f.fn)})
}

func (f *frame) instr(fs *fstate, ins ssa.Instruction) {
	in, st := f.in, fs.st
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		o := in.newObj("alloc", x.Comment, t, x)
		fs.env[x] = mkPtr(o, "")
	case *ssa.BinOp:
		fs.env[x] = f.binop(st, x.Op, f.val(fs, x.X), f.val(fs, x.Y), x.X.Type(), x.Type(), x.Pos())
	case *ssa.UnOp:
		f.unop(fs, x)
	case *ssa.ChangeType:
		fs.env[x] = f.val(fs, x.X)
	case *ssa.ChangeInterface:
		fs.env[x] = f.val(fs, x.X)
	case *ssa.MakeInterface:
		fs.env[x] = mkIface(x.X.Type(), f.val(fs, x.X))
	case *ssa.Convert:
		fs.env[x] = f.convert(st, f.val(fs, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		fs.env[x] = f.convert(st, f.val(fs, x.X), x.X.Type(), x.Type())
	case *ssa.SliceToArrayPointer:
		sl := in.toSlice(f.val(fs, x.X))
		n := x.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if sl == nil {
			fs.env[x] = in.fresh("arrptr", x.Type())
			return
		}
		// a view: copied, aliasing is lost
		o := in.newObj("arr", "view", x.Type().(*types.Pointer).Elem(), x)
		st.heap[mkPtr(o, "").loc()+"#seq"] = st.content(sl.Base, sl.Off, Int(n))
		if st.decide(le0(sub(Int(n), sl.Len))) != 1 {
			st.emit(&Event{Kind: "bound", Pos: x.Pos(), Fn: f.fn, Args: []Val{Int(n), sl.Len}})
		}
		fs.env[x] = mkPtr(o, "")
	case *ssa.Extract:
		t := f.val(fs, x.Tuple)
		if tt, ok := t.(*Tuple); ok && x.Index < len(tt.Vs) {
			fs.env[x] = tt.Vs[x.Index]
		} else {
			fs.env[x] = appT(x.Type(), "extract"+strconv.Itoa(x.Index), t)
		}
	case *ssa.Field:
		fs.env[x] = fieldOf(f.val(fs, x.X), x.Field, x.X.Type(), x.Type())
	case *ssa.FieldAddr:
		p := in.deref(f.val(fs, x.X))
		if p == nil {
			fs.env[x] = in.fresh("nilptr", x.Type())
			st.emit(&Event{Kind: "nilderef", Pos: x.Pos(), Fn: f.fn})
			return
		}
		stt := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		if p.O.T == nil && p.Path == "" && p.O.Kind == "sym" {
			p.O.T = x.X.Type().Underlying().(*types.Pointer).Elem()
		}
		fs.env[x] = mkPtr(p.O, p.Path+fieldPath(stt, x.Field))
	case *ssa.IndexAddr:
		f.indexAddr(fs, x)
	case *ssa.Index:
		v := f.val(fs, x.X)
		i := f.val(fs, x.Index)
		if q, ok := v.(*Seq); ok {
			f.bound(fs, x.Pos(), i, q.length())
			fs.env[x] = st.seqElem(q, i, x.Type())
		} else if s, ok := constStr(v); ok {
			if n, ok := constInt(i); ok && n >= 0 && int(n) < len(s) {
				fs.env[x] = Int(int64(s[n]))
				return
			}
			f.bound(fs, x.Pos(), i, Int(int64(len(s))))
			fs.env[x] = appT(x.Type(), "elem", v, i)
		} else {
			f.bound(fs, x.Pos(), i, in.lenOf(st, v))
			fs.env[x] = appT(x.Type(), "elem", v, i)
		}
	case *ssa.Store:
		p := in.deref(f.val(fs, x.Addr))
		if p == nil {
			st.emit(&Event{Kind: "nilderef", Pos: x.Pos(), Fn: f.fn})
			return
		}
		v := f.val(fs, x.Val)
		t := x.Addr.Type().Underlying().(*types.Pointer).Elem()
		in.locType[p.loc()] = t
		if in.cfg.Accesses && (p.O.Kind != "alloc" || lastElem(p.Path) >= 0) || lastElem(p.Path) >= 0 {
			st.emit(&Event{Kind: "store", Pos: x.Pos(), Fn: f.fn, Obj: p, Loc: p.loc(), Args: []Val{v}, T: t})
		}
		st.store(p, v, t)
	case *ssa.MapUpdate:
		m := f.val(fs, x.Map)
		p := in.deref(m)
		k, v := f.val(fs, x.Key), f.val(fs, x.Value)
		if p == nil {
			st.emit(&Event{Kind: "nilmap", Pos: x.Pos(), Fn: f.fn})
			return
		}
		ms := st.mapOf(m)
		st.heap[p.loc()+"#map"] = mkMap(ms.Base, append(append([]MapUpd{}, ms.Upd...), MapUpd{k, v}))
		st.emit(&Event{Kind: "mapupdate", Pos: x.Pos(), Fn: f.fn, Obj: m, Args: []Val{k, v}, Loc: p.loc()})
	case *ssa.MakeMap:
		o := in.newObj("map", "map", x.Type(), x)
		if x.Reserve != nil {
			if n := f.val(fs, x.Reserve); !isConstInt(n) {
				st.emit(&Event{Kind: "alloc", Pos: x.Pos(), Fn: f.fn, Args: []Val{n}, T: x.Type()})
			}
		}
		st.heap[mkPtr(o, "").loc()+"#map"] = mkMap(Nil, nil)
		fs.env[x] = mkPtr(o, "")
	case *ssa.MakeChan:
		o := in.newObj("chan", "chan", x.Type(), x)
		p := mkPtr(o, "")
		st.heap[p.loc()+"#cap"] = f.val(fs, x.Size)
		st.heap[p.loc()+"#fifo"] = mkTuple()
		fs.env[x] = p
	case *ssa.MakeSlice:
		n, c := f.val(fs, x.Len), f.val(fs, x.Cap)
		o := in.newObj("arr", "make", x.Type(), x)
		p := mkPtr(o, "")
		st.heap[p.loc()+"#seq"] = mkSeq(Seg{Kind: "zero", Len: n})
		if _, ok := constInt(n); !ok {
			st.emit(&Event{Kind: "alloc", Pos: x.Pos(), Fn: f.fn, Args: []Val{n}, T: x.Type()})
		} else if _, ok := constInt(c); !ok {
			st.emit(&Event{Kind: "alloc", Pos: x.Pos(), Fn: f.fn, Args: []Val{c}, T: x.Type()})
		}
		if n.Key() != c.Key() && st.decide(le0(sub(n, c))) != 1 {
			st.emit(&Event{Kind: "bound", Pos: x.Pos(), Fn: f.fn, Args: []Val{n, addc(c, 1)}})
		}
		fs.env[x] = mkSlice(p, Int(0), n, c)
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range x.Bindings {
			bs = append(bs, f.val(fs, b))
		}
		fs.env[x] = mkClosure(x.Fn.(*ssa.Function), bs)
	case *ssa.Slice:
		f.slice(fs, x)
	case *ssa.Range:
		m := f.val(fs, x.X)
		fs.env[x] = app("iter", m)
	case *ssa.Send:
		ch := f.val(fs, x.Chan)
		st.emit(&Event{Kind: "send", Pos: x.Pos(), Fn: f.fn, Obj: ch, Args: []Val{f.val(fs, x.X)}})
		in.sent(st, ch, f.val(fs, x.X))
	default:
		f.unsupported(ins)
	}
}

func fieldOf(v Val, i int, st types.Type, t types.Type) Val {
	if a, ok := v.(*Agg); ok {
		return a.Fields[i]
	}
	return appT(t, "field:"+st.Underlying().(*types.Struct).Field(i).Name(), v)
}

func (f *frame) bound(fs *fstate, pos token.Pos, i, n Val) {
	st := fs.st
	if st.decide(le0(mulc(i, -1))) == 1 && st.decide(le0(addc(sub(i, n), 1))) == 1 {
		return
	}
	st.emit(&Event{Kind: "bound", Pos: pos, Fn: f.fn, Args: []Val{i, n}})
}

func (f *frame) indexAddr(fs *fstate, x *ssa.IndexAddr) {
	in := f.in
	v := f.val(fs, x.X)
	i := f.val(fs, x.Index)
	switch u := x.X.Type().Underlying().(type) {
	case *types.Pointer: // pointer to array
		p := in.deref(v)
		if p == nil {
			fs.env[x] = in.fresh("nilptr", x.Type())
			return
		}
		f.bound(fs, x.Pos(), i, Int(u.Elem().Underlying().(*types.Array).Len()))
		fs.env[x] = elemPtr(p, i)
	default:
		sl := in.toSlice(v)
		if sl == nil {
			f.bound(fs, x.Pos(), i, Int(0))
			fs.env[x] = in.fresh("oob", x.Type())
			return
		}
		f.bound(fs, x.Pos(), i, sl.Len)
		fs.env[x] = elemPtr(sl.Base, add(sl.Off, i))
	}
}

// toSlice views a slice value as a window of an object; nil for nil slices.
func (in *Interp) toSlice(v Val) *Slice {
	switch x := v.(type) {
	case *Slice:
		return x
	case *Sym, *App:
		return mkSlice(mkPtr(in.objOf(v, nil), ""), Int(0), lenTerm(v), app("cap", v))
	}
	return nil
}
func lenTerm(v Val) Val { return app("len", v) }

// normSlice returns the symbolic slice itself if the window covers all of it
func (in *Interp) normSlice(s *Slice) Val {
	if s.Base.Path == "" && s.Base.O.Kind == "sym" && s.Base.O.Base != nil {
		b := s.Base.O.Base
		if z, ok := constInt(s.Off); ok && z == 0 && s.Len.Key() == lenTerm(b).Key() {
			return b
		}
	}
	return s
}

// atLeast is what a capacity is at least: there's room for what there is.
func atLeast(cp Val) Val {
	return subst(cp, func(v Val) Val {
		if a, ok := isApp(v, "cap"); ok && a.Args[0] != nil && typeOfVal(a.Args[0]) != nil {
			if _, ok := typeOfVal(a.Args[0]).Underlying().(*types.Slice); ok {
				return lenTerm(a.Args[0])
			}
		}
		return nil
	})
}

func (f *frame) slice(fs *fstate, x *ssa.Slice) {
	in, st := f.in, fs.st
	v := f.val(fs, x.X)
	opt := func(y ssa.Value, d Val) Val {
		if y == nil {
			return d
		}
		return f.val(fs, y)
	}
	var base *Ptr
	var off, ln, cp Val
	switch u := x.X.Type().Underlying().(type) {
	case *types.Pointer:
		p := in.deref(v)
		if p == nil {
			fs.env[x] = Nil
			return
		}
		n := u.Elem().Underlying().(*types.Array).Len()
		base, off, ln, cp = p, Int(0), Int(n), Int(n)
	case *types.Basic: // string
		lo := opt(x.Low, Int(0))
		hi := opt(x.High, in.lenOf(st, v))
		if s, ok := constStr(v); ok {
			l, ok1 := constInt(lo)
			h, ok2 := constInt(hi)
			if ok1 && ok2 && l >= 0 && l <= h && int(h) <= len(s) {
				fs.env[x] = Str(s[l:h])
				return
			}
		}
		if n := in.lenOf(st, v); !(st.decide(le0(mulc(lo, -1))) == 1 && st.decide(le0(sub(lo, hi))) == 1 && st.decide(le0(sub(hi, n))) == 1) {
			st.emit(&Event{Kind: "bound", Pos: x.Pos(), Fn: f.fn, Args: []Val{lo, hi, n}, Sub: "slice"})
		}
		fs.env[x] = appT(x.Type(), "substr", v, lo, hi)
		return
	default:
		sl := in.toSlice(v)
		if sl == nil {
			fs.env[x] = Nil
			if x.High != nil {
				h := f.val(fs, x.High)
				if n, ok := constInt(h); !ok || n != 0 {
					st.emit(&Event{Kind: "bound", Pos: x.Pos(), Fn: f.fn, Args: []Val{h, Int(0)}})
				}
			}
			return
		}
		base, off, ln, cp = sl.Base, sl.Off, sl.Len, sl.Cap
	}
	lo := opt(x.Low, Int(0))
	hi := opt(x.High, ln)
	// bounds: 0 <= lo <= hi <= cap
	if !(st.decide(le0(mulc(lo, -1))) == 1 && st.decide(le0(sub(lo, hi))) == 1 &&
		(st.decide(le0(sub(hi, cp))) == 1 || st.decide(le0(sub(hi, ln))) == 1 || st.decide(le0(sub(hi, atLeast(cp)))) == 1)) {
		st.emit(&Event{Kind: "bound", Pos: x.Pos(), Fn: f.fn, Args: []Val{lo, hi, ln}, Sub: "slice"})
	}
	max := opt(x.Max, cp)
	fs.env[x] = in.normSlice(mkSlice(base, add(off, lo), sub(hi, lo), sub(max, lo)))
}

func (in *Interp) lenOf(st *State, v Val) Val {
	switch x := v.(type) {
	case *Const:
		if x.V == nil {
			return Int(0)
		}
		if s, ok := constStr(v); ok {
			return Int(int64(len(s)))
		}
	case *Slice:
		return x.Len
	case *Seq:
		return x.length()
	case *Ptr:
		if x.O.Kind == "map" {
			return in.mapLen(st, v)
		}
	case *App:
		if x.Op == "concat" {
			n := Int(0)
			for _, a := range x.Args {
				n = add(n, in.lenOf(st, a))
			}
			return n
		}
		if x.T != nil {
			if _, ok := x.T.Underlying().(*types.Map); ok {
				return in.mapLen(st, v)
			}
		}
	case *Sym:
		if x.T != nil {
			if _, ok := x.T.Underlying().(*types.Map); ok {
				return in.mapLen(st, v)
			}
		}
	}
	return lenTerm(v)
}
func (in *Interp) mapLen(st *State, v Val) Val {
	ms := st.mapOf(v)
	if isNilConst(ms.Base) && len(ms.Upd) == 0 {
		return Int(0)
	}
	return app("maplen", ms)
}

// ---- operators

var _ = token.ADD

func wrapInt(v Val, t types.Type) Val {
	if _, ok := v.(*Const); ok {
		return truncConst(v, t)
	}
	w := intWidth(t)
	if w == 0 || w == 8 {
		return v
	}
	return truncTo(w, v, t)
}

func truncConst(v Val, t types.Type) Val {
	n, ok := constInt(v)
	if !ok {
		return v
	}
	w := uint(intWidth(t) * 8)
	if w == 0 || w == 64 {
		return v
	}
	if isUnsigned(t) {
		return Int(n & (1<<w - 1))
	}
	return Int(n << (64 - w) >> (64 - w))
}

// truncTo reduces a value modulo 2^(8w).
func truncTo(w int, v Val, t types.Type) Val {
	if _, ok := v.(*Const); ok {
		return truncConst(v, t)
	}
	if n := widthOf(v); n > 0 && n <= w && valUnsigned(v) == isUnsigned(t) {
		return v
	}
	if w >= 1 && isByteVal(v) {
		return v
	}
	if l, ok := v.(*Lin); ok { // modular: inner reductions modulo a multiple are redundant
		coef, atom := map[string]int64{}, map[string]Val{}
		c := l.C
		if w == 1 {
			c &= 255
		}
		res := Val(Int(c))
		changed := false
		for _, k := range l.names {
			a := l.Atom[k]
			if ap, ok := isApp(a, "trunc"); ok {
				if bits, _ := constInt(ap.Args[0]); bits >= int64(8*w) {
					res = add(res, mulc(ap.Args[1], l.Coef[k]))
					changed = true
					continue
				}
			}
			if w == 1 && wide(a) { // only the lowest byte counts
				res = add(res, mulc(byteOf(a, 0), l.Coef[k]))
				continue
			}
			coef[k], atom[k] = l.Coef[k], a
		}
		res = add(res, mkLin(0, coef, atom))
		if changed {
			return truncTo(w, res, t)
		}
		v = res
		if isByteVal(v) {
			return v
		}
	}
	if ap, ok := isApp(v, "trunc"); ok {
		if bits, _ := constInt(ap.Args[0]); bits >= int64(8*w) {
			return truncTo(w, ap.Args[1], t)
		}
	}
	if w == 1 {
		switch x := v.(type) {
		case *Sym:
			return byteOf(v, 0)
		case *App:
			if x.Op == "shr" || x.Op == "decode" || isUnsigned(t) && wide(v) {
				return byteOf(v, 0)
			}
		}
	}
	return appT(t, "trunc", Int(int64(8*w)), v)
}

// wide tells whether a term is a number of several bytes, known by its type.
func wide(v Val) bool {
	switch x := v.(type) {
	case *Sym:
		return x.T != nil && isInteger(x.T) && intWidth(x.T) > 1
	case *App:
		return x.Op != "trunc" && x.Op != "byte" && x.Op != "in" && x.T != nil && isInteger(x.T) && intWidth(x.T) > 1
	}
	return false
}

func valUnsigned(v Val) bool {
	switch x := v.(type) {
	case *Sym:
		return x.T != nil && isInteger(x.T) && isUnsigned(x.T)
	case *App:
		if x.Op == "decode" || x.Op == "byte" || x.Op == "in" {
			return true
		}
		return x.T != nil && isInteger(x.T) && isUnsigned(x.T)
	}
	return false
}

func (f *frame) binop(st *State, op token.Token, a, b Val, xt, rt types.Type, pos token.Pos) Val {
	if xt == nil {
		xt = rt
	}
	switch op {
	case token.EQL, token.NEQ:
		c := f.equal(st, a, b, xt)
		if op == token.NEQ {
			return not(c)
		}
		return c
	}
	if isInteger(xt) {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return intCmp(op, a, b)
		case token.ADD, token.SUB:
			var r Val
			if op == token.ADD {
				r = add(a, b)
			} else {
				r = sub(a, b)
			}
			// counters of at least 32 bits are assumed not to overflow
			if n, ok := constInt(b); ok && n <= 8 && intWidth(xt) > 2 && op == token.ADD {
				return r
			}
			if op == token.SUB && isUnsigned(xt) && intWidth(xt) > 1 && intWidth(xt) < 8 &&
				st.decide(le0(sub(b, a))) == 1 {
				return r // can't wrap around
			}
			return wrapInt(r, xt)
		case token.MUL:
			if n, ok := constInt(a); ok {
				return wrapInt(mulc(b, n), xt)
			}
			if n, ok := constInt(b); ok {
				return wrapInt(mulc(a, n), xt)
			}
			if a.Key() > b.Key() {
				a, b = b, a
			}
			return appT(xt, "mul", a, b)
		case token.QUO, token.REM, token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR:
			return f.intOp(st, op, a, b, xt, pos)
		}
	}
	if isString(xt) {
		switch op {
		case token.ADD:
			return concatStr(a, b)
		default:
			ca, oka := constStr(a)
			cb, okb := constStr(b)
			if oka && okb {
				return Bool(constant.Compare(constant.MakeString(ca), op, constant.MakeString(cb)))
			}
			return app("str"+op.String(), a, b)
		}
	}
	if isFloat(xt) {
		ca, oka := a.(*Const)
		cb, okb := b.(*Const)
		if oka && okb && ca.V != nil && cb.V != nil {
			switch op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				return Bool(constant.Compare(ca.V, op, cb.V))
			case token.ADD, token.SUB, token.MUL:
				return mkConst(constant.BinaryOp(ca.V, op, cb.V))
			case token.QUO:
				if constant.Sign(cb.V) != 0 {
					return mkConst(constant.BinaryOp(ca.V, op, cb.V))
				}
			}
		}
		switch op {
		case token.LSS, token.LEQ:
			return app("f"+op.String(), a, b)
		case token.GTR:
			return app("f<", b, a)
		case token.GEQ:
			return app("f<=", b, a)
		}
		r := appT(rt, "f"+op.String(), a, b)
		if op == token.QUO {
			st.emit(&Event{Kind: "fdiv", Pos: pos, Fn: f.fn, Args: []Val{a, b}})
		}
		return r
	}
	if isBoolean(xt) {
		return app("b"+op.String(), a, b)
	}
	return appT(rt, "op"+op.String(), a, b)
}

func concatStr(vs ...Val) Val {
	var parts []Val
	for _, v := range vs {
		if a, ok := isApp(v, "concat"); ok {
			parts = append(parts, a.Args...)
		} else {
			parts = append(parts, v)
		}
	}
	var out []Val
	for _, p := range parts {
		s, ok := constStr(p)
		if ok && s == "" {
			continue
		}
		if ok && len(out) > 0 {
			if q, ok := constStr(out[len(out)-1]); ok {
				out[len(out)-1] = Str(q + s)
				continue
			}
		}
		out = append(out, p)
	}
	switch len(out) {
	case 0:
		return Str("")
	case 1:
		return out[0]
	}
	return appT(types.Typ[types.String], "concat", out...)
}

func (f *frame) equal(st *State, a, b Val, t types.Type) Val {
	if isInteger(t) {
		return eqInt(a, b)
	}
	if a.Key() == b.Key() && !isFloat(t) {
		return True
	}
	if isNilConst(b) || isNilConst(a) {
		x := a
		if isNilConst(a) {
			x = b
		}
		switch st.nilness(x) {
		case 1:
			return True
		case -1:
			return False
		}
		return app("isnil", x)
	}
	if isBoolean(t) {
		if v, ok := constBool(b); ok {
			if v {
				return a
			}
			return not(a)
		}
		if v, ok := constBool(a); ok {
			if v {
				return b
			}
			return not(b)
		}
	}
	if sa, ok := t.Underlying().(*types.Struct); ok {
		// conjunction of field equalities; one field only
		if sa.NumFields() == 1 {
			return f.equal(st, fieldOf(a, 0, t, sa.Field(0).Type()), fieldOf(b, 0, t, sa.Field(0).Type()), sa.Field(0).Type())
		}
	}
	if ca, ok := a.(*Const); ok {
		if cb, ok := b.(*Const); ok && ca.V != nil && cb.V != nil {
			return Bool(constant.Compare(ca.V, token.EQL, cb.V))
		}
	}
	pa, oka := a.(*Ptr)
	pb, okb := b.(*Ptr)
	if oka && okb && pa.O.Kind != "sym" && pb.O.Kind != "sym" {
		return False
	}
	ia, oka := a.(*Iface)
	ib, okb := b.(*Iface)
	if oka && okb {
		if !types.Identical(ia.Dyn, ib.Dyn) {
			return False
		}
		return f.equal(st, ia.V, ib.V, ia.Dyn)
	}
	// a concrete error made here differs from the others'
	if _, ok := isApp(a, "newerr"); ok {
		if _, ok := isApp(b, "newerr"); ok {
			return False
		}
	}
	for i, x := range []Val{a, b} {
		_, created := isApp(x, "newerr")
		if created && ioError([]Val{b, a}[i]) {
			return False
		}
		// nor is an error made here a variable of another package's
		if y, ok := []Val{b, a}[i].(*Sym); ok && strings.Contains(y.Name, "ext:") {
			if _, wrapped := isApp(x, "errorf"); created || wrapped {
				return False
			}
			if dyn, ok := x.(*Iface); ok {
				if n, ok := deptr(dyn.Dyn).(*types.Named); ok && isModule(n.Obj().Pkg()) {
					return False
				}
			}
		}
	}
	if sa, ok := a.(*Seq); ok {
		if sb, ok := b.(*Seq); ok && !isString(t) {
			return seqEq(sa, sb)
		}
	}
	if isString(t) { // texts made of known bytes
		sa, oka := textBytes(a)
		sb, okb := textBytes(b)
		_, ca := constStr(a)
		_, cb := constStr(b)
		if oka && okb && !(ca && cb) {
			return seqEq(sa, sb)
		}
	}
	if a.Key() > b.Key() {
		a, b = b, a
	}
	if isString(t) {
		return app("str==", a, b)
	}
	return app("eqv", a, b)
}

// textBytes: the bytes of a text that's constant or converted from bytes.
func textBytes(v Val) (*Seq, bool) {
	if s, ok := constStr(v); ok {
		var segs []Seg
		for i := 0; i < len(s); i++ {
			segs = append(segs, Seg{Kind: "val", Len: Int(1), V: Int(int64(s[i]))})
		}
		return mkSeq(segs...), true
	}
	if a, ok := isApp(v, "string"); ok {
		q, ok := a.Args[0].(*Seq)
		return q, ok
	}
	return nil, false
}

func (f *frame) intOp(st *State, op token.Token, a, b Val, t types.Type, pos token.Pos) Val {
	na, oka := constInt(a)
	nb, okb := constInt(b)
	if oka && okb {
		ca, cb := constant.MakeInt64(na), constant.MakeInt64(nb)
		switch op {
		case token.QUO:
			if nb != 0 {
				return truncConst(Int(na/nb), t)
			}
		case token.REM:
			if nb != 0 {
				return truncConst(Int(na%nb), t)
			}
		case token.SHL:
			if nb < 63 {
				return truncConst(Int(na<<uint(nb)), t)
			}
		case token.SHR:
			return Int(na >> uint(nb))
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			return mkConst(constant.BinaryOp(ca, op, cb))
		}
	}
	switch op {
	case token.SHL:
		if okb && nb >= 0 && nb < 62 {
			if isByteVal(a) && nb%8 == 0 && intWidth(t) > int(nb/8) {
				return appT(t, "shl", a, b)
			}
			return wrapInt(mulc(a, 1<<uint(nb)), t)
		}
		return appT(t, "shl", a, b)
	case token.SHR:
		if okb && nb >= 0 {
			return shiftRight(a, nb, t)
		}
		return appT(t, "shr", a, b)
	case token.AND:
		for _, p := range [][2]Val{{a, b}, {b, a}} {
			if n, ok := constInt(p[1]); ok {
				switch n {
				case 0:
					return Int(0)
				case 0xff:
					return byteOf(p[0], 0)
				}
			}
		}
		if a.Key() > b.Key() {
			a, b = b, a
		}
		return appT(t, "and", a, b)
	case token.OR, token.XOR:
		if v := combineBytes(a, b); v != nil {
			return v
		}
		if a.Key() > b.Key() {
			a, b = b, a
		}
		o := "or"
		if op == token.XOR {
			o = "xor"
		}
		return appT(t, o, a, b)
	case token.QUO, token.REM:
		if !okb || nb == 0 {
			st.emit(&Event{Kind: "idiv", Pos: pos, Fn: f.fn, Args: []Val{a, b}})
		}
		if op == token.QUO && okb && nb >= 256 && nb&(nb-1) == 0 && isUnsigned(t) {
			return shiftRight(a, int64(bits.TrailingZeros64(uint64(nb))), t)
		}
		o := "div"
		if op == token.REM {
			o = "rem"
		}
		return appT(t, o, a, b)
	}
	return appT(t, "op"+op.String(), a, b)
}

// shiftRight is a >> n: shifts of an unsigned number add up, and nothing is left
// of it once all of its bits are out.
func shiftRight(a Val, n int64, t types.Type) Val {
	if n == 0 {
		return a
	}
	if isUnsigned(t) {
		if x, ok := isApp(a, "shr"); ok {
			if m, okm := constInt(x.Args[1]); okm && m >= 0 {
				a, n = x.Args[0], n+m
			}
		}
		if w := intWidth(t); w > 0 && n >= int64(w)*8 {
			return Int(0)
		}
	}
	return appT(t, "shr", a, Int(n))
}

// combineBytes recognizes b0<<24 | b1<<16 | b2<<8 | b3.
func combineBytes(a, b Val) Val {
	parts := map[int]Val{}
	ok := true
	var collect func(v Val)
	collect = func(v Val) {
		if x, isor := isApp(v, "bytes|"); isor {
			for i := 0; i < len(x.Args); i += 2 {
				n, _ := constInt(x.Args[i])
				if parts[int(n)] != nil {
					ok = false
				}
				parts[int(n)] = x.Args[i+1]
			}
			return
		}
		if x, iss := isApp(v, "shl"); iss && isByteVal(x.Args[0]) {
			if n, okc := constInt(x.Args[1]); okc && n%8 == 0 {
				if parts[int(n/8)] != nil {
					ok = false
				}
				parts[int(n/8)] = x.Args[0]
				return
			}
		}
		if isByteVal(v) {
			if parts[0] != nil {
				ok = false
			}
			parts[0] = v
			return
		}
		ok = false
	}
	collect(a)
	collect(b)
	if !ok {
		return nil
	}
	max := 0
	for k := range parts {
		if k > max {
			max = k
		}
	}
	if (max == 1 || max == 3 || max == 7) && len(parts) == max+1 {
		var bs []Val
		for k := max; k >= 0; k-- {
			bs = append(bs, parts[k])
		}
		return decode(bs)
	}
	var args []Val
	for k := 0; k <= max; k++ {
		if parts[k] != nil {
			args = append(args, Int(int64(k)), parts[k])
		}
	}
	return app("bytes|", args...)
}

func (f *frame) unop(fs *fstate, x *ssa.UnOp) {
	in, st := f.in, fs.st
	v := f.val(fs, x.X)
	switch x.Op {
	case token.MUL: // load
		p := in.deref(v)
		if p == nil {
			st.emit(&Event{Kind: "nilderef", Pos: x.Pos(), Fn: f.fn})
			fs.env[x] = in.fresh("nilload", x.Type())
			return
		}
		r := st.load(p, x.Type())
		in.locType[p.loc()] = x.Type()
		if in.cfg.Accesses && p.O.Kind != "alloc" {
			st.emit(&Event{Kind: "load", Pos: x.Pos(), Fn: f.fn, Obj: p, Loc: p.loc(), Res: []Val{r}, T: x.Type()})
		}
		fs.env[x] = r
	case token.NOT:
		fs.env[x] = not(v)
	case token.SUB:
		if isInteger(x.Type()) {
			fs.env[x] = wrapInt(mulc(v, -1), x.Type())
		} else {
			fs.env[x] = appT(x.Type(), "neg", v)
		}
	case token.XOR:
		fs.env[x] = appT(x.Type(), "compl", v)
	case token.ARROW:
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		r := in.received(st, v)
		if r == nil || x.CommaOk {
			r = in.fresh("recv", et)
		}
		ev := &Event{Kind: "recv", Pos: x.Pos(), Fn: f.fn, Obj: v, Res: []Val{r}}
		st.emit(ev)
		if x.CommaOk {
			fs.env[x] = mkTuple(r, in.fresh("more", types.Typ[types.Bool]))
		} else {
			fs.env[x] = r
		}
	default:
		f.unsupported(x)
	}
}

func (f *frame) convert(st *State, v Val, from, to types.Type) Val {
	in := f.in
	switch {
	case isInteger(from) && isInteger(to):
		if _, ok := v.(*Const); ok {
			return truncConst(v, to)
		}
		wf, wt := intWidth(from), intWidth(to)
		if wt < wf {
			return truncTo(wt, v, to)
		}
		return v
	case isInteger(from) && isFloat(to):
		if c, ok := v.(*Const); ok {
			return mkConst(constant.ToFloat(c.V))
		}
		return appT(to, "i2f", v)
	case isFloat(from) && isInteger(to):
		if c, ok := v.(*Const); ok && c.V != nil {
			if i := constant.ToInt(c.V); i.Kind() == constant.Int {
				return mkConst(i)
			}
		}
		return appT(to, "f2i", v)
	case isFloat(from) && isFloat(to):
		if _, ok := v.(*Const); ok {
			return v
		}
		if intWidth(from) <= intWidth(to) {
			return v
		}
		return appT(to, "f2f", v)
	case isString(to):
		if sl := in.toSlice(v); sl != nil {
			if _, ok := from.Underlying().(*types.Slice); ok {
				q := st.content(sl.Base, sl.Off, sl.Len)
				if len(q.Segs) == 1 && q.Segs[0].Kind == "str" {
					return q.Segs[0].V
				}
				return appT(to, "string", q)
			}
		}
		if isString(from) {
			return v
		}
		return appT(to, "string", v)
	case isString(from):
		if _, ok := to.Underlying().(*types.Slice); ok {
			o := in.newObj("arr", "bytes", to, nil)
			p := mkPtr(o, "")
			n := in.lenOf(st, v)
			if s, ok := constStr(v); ok {
				var segs []Seg
				for i := 0; i < len(s); i++ {
					segs = append(segs, Seg{Kind: "val", Len: Int(1), V: Int(int64(s[i]))})
				}
				st.heap[p.loc()+"#seq"] = mkSeq(segs...)
			} else {
				st.heap[p.loc()+"#seq"] = mkSeq(Seg{Kind: "str", Len: n, V: v})
			}
			return mkSlice(p, Int(0), n, n)
		}
	}
	return v
}

// ---- type assertions

type taAlt struct {
	v      Val
	cond   Val
	truth  bool
	panics bool
}

func (f *frame) typeAssert(fs *fstate, x *ssa.TypeAssert) []taAlt {
	v := f.val(fs, x.X)
	mk := func(val Val, ok bool) Val {
		if x.CommaOk {
			return mkTuple(val, Bool(ok))
		}
		return val
	}
	if i, ok := v.(*Iface); ok {
		match := false
		if types.IsInterface(x.AssertedType) {
			match = types.Implements(i.Dyn, x.AssertedType.Underlying().(*types.Interface))
			if match {
				return []taAlt{{v: mk(v, true)}}
			}
		} else if types.Identical(i.Dyn, x.AssertedType) {
			return []taAlt{{v: mk(i.V, true)}}
		}
		if x.CommaOk {
			return []taAlt{{v: mk(zeroVal(x.AssertedType), false)}}
		}
		return []taAlt{{panics: true}}
	}
	if isNilConst(v) || fs.st.isNil(v) == 1 {
		if x.CommaOk {
			return []taAlt{{v: mk(zeroVal(x.AssertedType), false)}}
		}
		return []taAlt{{panics: true}}
	}
	if types.IsInterface(x.AssertedType) {
		if it, ok := x.X.Type().Underlying().(*types.Interface); ok && types.Implements(x.X.Type(), x.AssertedType.Underlying().(*types.Interface)) {
			_ = it
			// fails for nil only
			return []taAlt{{v: mk(v, true)}}
		}
	}
	cond := app("istype:"+x.AssertedType.String(), v)
	val := Val(appT(x.AssertedType, "as:"+x.AssertedType.String(), v))
	if types.IsInterface(x.AssertedType) {
		val = v
	}
	yes := taAlt{v: mk(val, true), cond: cond, truth: true}
	no := taAlt{v: mk(zeroVal(x.AssertedType), false), cond: cond, truth: false}
	if !x.CommaOk {
		no.panics = true
	}
	switch fs.st.decide(cond) {
	case 1:
		return []taAlt{yes}
	case -1:
		return []taAlt{no}
	}
	return []taAlt{yes, no}
}

// ---- select, range, lookup

func (f *frame) doSelect(fs *fstate, x *ssa.Select, b *ssa.BasicBlock, i int, cur *loop, sk *sink) {
	in := f.in
	nrecv := 0
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	cases := make([]Val, len(x.States))
	for j, s := range x.States {
		cases[j] = f.val(fs, s.Chan)
	}
	alts := len(x.States)
	if !x.Blocking {
		alts++
	}
	for a := 0; a < alts; a++ {
		g := fs
		if a < alts-1 {
			g = fs.clone()
		}
		idx := a
		if a == len(x.States) {
			idx = -1
		}
		vs := []Val{Int(int64(idx)), in.fresh("recvok", types.Typ[types.Bool])}
		ev := &Event{Kind: "select", Pos: x.Pos(), Fn: f.fn, Args: cases, Sub: strconv.Itoa(idx)}
		for _, s := range x.States {
			if s.Dir == types.SendOnly {
				ev.Name += "s"
			} else {
				ev.Name += "r"
			}
		}
		if !x.Blocking {
			ev.Name += "d"
		}
		g.st.emit(ev)
		for j, s := range x.States {
			if s.Dir == types.SendOnly {
				if j == idx {
					g.st.emit(&Event{Kind: "send", Pos: x.Pos(), Fn: f.fn, Obj: cases[j], Args: []Val{f.val(fs, s.Send)}, Sub: "select"})
					in.sent(g.st, cases[j], f.val(fs, s.Send))
				}
				continue
			}
			et := s.Chan.Type().Underlying().(*types.Chan).Elem()
			if j == idx {
				in.received(g.st, cases[j])
				r := in.fresh("recv", et)
				g.st.emit(&Event{Kind: "recv", Pos: x.Pos(), Fn: f.fn, Obj: cases[j], Res: []Val{r}, Sub: "select"})
				vs = append(vs, r)
			} else {
				vs = append(vs, zeroVal(et))
			}
		}
		g.env[x] = mkTuple(vs...)
		f.run(g, b, i+1, cur, sk)
	}
}

func (f *frame) doNext(fs *fstate, x *ssa.Next, b *ssa.BasicBlock, i int, cur *loop, sk *sink) {
	in := f.in
	it := f.val(fs, x.Iter)
	var m Val = it
	if a, ok := isApp(it, "iter"); ok {
		m = a.Args[0]
	}
	if x.IsString {
		g := fs.clone()
		at, r := in.fresh("runeidx", types.Typ[types.Int]), in.fresh("rune", types.Typ[types.Rune])
		fs.env[x] = mkTuple(True, at, r)
		fs.st.emit(&Event{Kind: "rangestr", Pos: x.Pos(), Fn: f.fn, Obj: m, Args: []Val{at, r}})
		f.run(fs, b, i+1, cur, sk)
		g.st.emit(&Event{Kind: "rangestrend", Pos: x.Pos(), Fn: f.fn, Obj: m})
		g.env[x] = mkTuple(False, Int(0), Int(0))
		f.run(g, b, i+1, cur, sk)
		return
	}
	mt, _ := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	ms := fs.st.mapOf(m)
	g := fs.clone()
	if !(isNilConst(ms.Base) && len(ms.Upd) == 0) {
		k := in.fresh("key", mt.Key())
		fs.st.emit(&Event{Kind: "rangemap", Pos: x.Pos(), Fn: f.fn, Obj: m, Args: []Val{k, ms}})
		v, has := fs.st.mapGet(ms, k, mt.Elem())
		fs.st.addFact(has, true)
		fs.env[x] = mkTuple(True, k, v)
		f.run(fs, b, i+1, cur, sk)
	}
	g.st.emit(&Event{Kind: "rangeend", Pos: x.Pos(), Fn: f.fn, Obj: m, Args: []Val{ms}})
	g.env[x] = mkTuple(False, zeroVal(mt.Key()), zeroVal(mt.Elem()))
	f.run(g, b, i+1, cur, sk)
}

func (f *frame) doLookup(fs *fstate, x *ssa.Lookup) {
	m := f.val(fs, x.X)
	k := f.val(fs, x.Index)
	st := fs.st
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok { // string
		if s, ok := constStr(m); ok {
			if n, ok := constInt(k); ok && n >= 0 && int(n) < len(s) {
				fs.env[x] = Int(int64(s[n]))
				return
			}
		}
		f.bound(fs, x.Pos(), k, f.in.lenOf(st, m))
		fs.env[x] = appT(x.Type(), "elem", m, k)
		return
	}
	ms := st.mapOf(m)
	v, has := st.mapGet(ms, k, mt.Elem())
	if p := f.in.deref(m); p != nil {
		st.emit(&Event{Kind: "maplookup", Pos: x.Pos(), Fn: f.fn, Obj: m, Args: []Val{k}, Res: []Val{v, has}, Loc: p.loc()})
	}
	if x.CommaOk {
		fs.env[x] = mkTuple(v, has)
	} else {
		fs.env[x] = v
	}
	_ = ms
}
