package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var (
	tInt    types.Type = types.Typ[types.Int]
	tInt64  types.Type = types.Typ[types.Int64]
	tUint64 types.Type = types.Typ[types.Uint64]
	tString types.Type = types.Typ[types.String]
	tBool   types.Type = types.Typ[types.Bool]
	tError  types.Type = types.Universe.Lookup("error").Type()
)

func (f *frame) callOperands(fs *fstate, c *ssa.CallCommon) (fnv, recv Val, args []Val) {
	if c.IsInvoke() {
		recv = f.val(fs, c.Value)
	} else {
		fnv = f.val(fs, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, f.val(fs, a))
	}
	return
}

// callInfo describes a call being interpreted.
type callInfo struct {
	f    *frame
	st   *State
	sig  *types.Signature
	pos  token.Pos
	name string // full name of the callee
	recv Val    // receiver of a method (nil for functions)
	args []Val  // without the receiver
	kind string
}

func one(st *State, rets ...Val) []outcome { return []outcome{{st, rets, ""}} }

func (f *frame) doCall(fs *fstate, c *ssa.CallCommon, fnv, recv Val, args []Val, pos token.Pos, kind string) []outcome {
	f.in.fn, f.in.at = f.fn, pos
	in := f.in
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return f.builtin(fs, c, b.Name(), args, pos)
	}
	if c.IsInvoke() {
		return f.invoke(fs.st, recv, c.Method, args, pos, kind, c.Value.Type())
	}
	switch x := fnv.(type) {
	case *Closure:
		return f.callStatic(fs.st, x.Fn, args, x.Binds, pos, kind)
	}
	if isNilConst(fnv) {
		fs.st.emit(&Event{Kind: "panic", Name: "nil function", Pos: pos, Fn: f.fn})
		return []outcome{{fs.st, nil, "panic"}}
	}
	ci := &callInfo{f, fs.st, c.Signature(), pos, "func value", fnv, args, kind}
	_ = in
	return ci.opaque("callfn")
}

// callStatic calls a known function.
func (f *frame) callStatic(st *State, fn *ssa.Function, args, binds []Val, pos token.Pos, kind string) []outcome {
	in := f.in
	pkg := fnPkg(fn)
	sig := fn.Signature
	ci := &callInfo{f: f, st: st, sig: sig, pos: pos, name: fnName(fn), args: args, kind: kind}
	if sig.Recv() != nil && len(args) > 0 {
		ci.recv, ci.args = args[0], args[1:]
	}
	mod := pkg != nil && isModule(pkg)
	if mod || (fn.Synthetic != "" && fn.Blocks != nil) {
		if mod && in.cfg.OpaqueFn != nil && in.cfg.OpaqueFn(fn) {
			outs := ci.opaque("call")
			if in.cfg.After != nil {
				in.cfg.After(outs[0].st, outs[0].st.tr.e)
			}
			return outs
		}
		if mod {
			if o, ok := ci.moduleModel(); ok {
				return o
			}
		}
		if fn.Blocks == nil {
			return ci.opaque("call")
		}
		for _, s := range in.stack {
			if s == fn {
				st.emit(&Event{Kind: "recursion", Name: ci.name, Pos: pos, Fn: f.fn, Args: args})
				return ci.opaque("call")
			}
		}
		return in.callFn(fn, args, binds, st, pos)
	}
	return ci.external()
}

func fnPkg(fn *ssa.Function) *types.Package {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg()
	}
	if fn.Parent() != nil {
		return fnPkg(fn.Parent())
	}
	return nil
}
func fnName(fn *ssa.Function) string {
	if o, ok := fn.Object().(*types.Func); ok {
		return o.FullName()
	}
	return fn.String()
}

// invoke calls an interface method.
func (f *frame) invoke(st *State, recv Val, m *types.Func, args []Val, pos token.Pos, kind string, it types.Type) []outcome {
	in := f.in
	sig := m.Type().(*types.Signature)
	ci := &callInfo{f: f, st: st, sig: sig, pos: pos, name: m.FullName(), recv: recv, args: args, kind: kind}
	named, _ := types.Unalias(it).(*types.Named)
	if isNilConst(recv) || st.isNil(recv) == 1 {
		st.emit(&Event{Kind: "panic", Name: "nil interface", Pos: pos, Fn: f.fn})
		return []outcome{{st, nil, "panic"}}
	}
	if named != nil && in.cfg.OpaqueIface != nil && in.cfg.OpaqueIface(named) {
		ci.name = named.Obj().Name() + "." + m.Name()
		out := ci.opaque("call")
		for i, a := range args {
			p, ok := a.(*Ptr)
			if !ok || p.O.Kind != "alloc" || i >= sig.Params().Len() {
				continue
			}
			if pt, ok := sig.Params().At(i).Type().(*types.Pointer); ok {
				in.havocPtr(st, p, pt.Elem(), "filled") // it may be changed
			}
		}
		return out
	}
	if x, ok := recv.(*Iface); ok {
		return f.callMethod(st, x.Dyn, x.V, m.Name(), args, pos, kind, ci)
	}
	if isStreamIface(it) {
		if o, ok := ci.stream(m.Name()); ok {
			return o
		}
	}
	if m.Name() == "Error" && len(args) == 0 && types.Identical(it, tError) {
		return one(st, appT(tString, "errstr", recv))
	}
	if named != nil && named.Obj().Pkg() != nil && isModule(named.Obj().Pkg()) {
		if t := in.W.implementor(named); t != nil {
			return f.callMethod(st, t, recv, m.Name(), args, pos, kind, ci)
		}
	}
	return ci.external()
}

// callMethod calls the method of a concrete type.
func (f *frame) callMethod(st *State, t types.Type, v Val, name string, args []Val, pos token.Pos, kind string, ci *callInfo) []outcome {
	in := f.in
	sel := types.NewMethodSet(t).Lookup(nil, name)
	if sel == nil {
		for i, ms := 0, types.NewMethodSet(t); i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				sel = ms.At(i)
			}
		}
	}
	if sel == nil {
		return ci.external()
	}
	obj := sel.Obj().(*types.Func)
	if obj.Pkg() != nil && isModule(obj.Pkg()) || len(sel.Index()) > 1 {
		if fn := in.W.Prog.MethodValue(sel); fn != nil && fn.Blocks != nil {
			return f.callStatic(st, fn, append([]Val{v}, args...), nil, pos, kind)
		}
	}
	c2 := *ci
	c2.name, c2.recv, c2.args, c2.sig = obj.FullName(), v, args, obj.Type().(*types.Signature)
	return c2.external()
}

// isStreamIface: interfaces that describe files and streams by their methods.
func isStreamIface(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "io" {
		return true
	}
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		switch m.Name() {
		case "Read", "Write":
			sig := m.Type().(*types.Signature)
			if sig.Params().Len() == 1 && sig.Results().Len() == 2 && sig.Params().At(0).Type().String() == "[]byte" {
				return true
			}
		case "Seek":
			if m.Type().(*types.Signature).Params().Len() == 2 {
				return true
			}
		}
	}
	return false
}

// opaque records the call as an event with unknown results.
func (ci *callInfo) opaque(kind string) []outcome {
	ev := ci.event(kind)
	in := ci.f.in
	for _, a := range append([]Val{ci.recv}, ci.args...) {
		if a == nil {
			continue
		}
		if mem, k := in.memory(ci.st, unwrap(a)); mem != nil {
			ci.st.heap[k] = unknownSeq(in) // it may be written to
		}
	}
	for i := 0; i < ci.sig.Results().Len(); i++ {
		t := ci.sig.Results().At(i).Type()
		n := shortName(ci.name)
		if types.Identical(t, tError) {
			n += ".err"
		}
		v := in.fresh(n, t)
		ev.Res = append(ev.Res, v)
		if types.Identical(t, tError) {
			ev.Err = v
		}
	}
	return one(ci.st, ev.Res...)
}

func (ci *callInfo) event(kind string) *Event {
	ev := &Event{Kind: kind, Name: ci.name, Pos: ci.pos, Fn: ci.f.fn, Obj: ci.recv, Sub: ci.kind}
	ev.Args = ci.expandArgs()
	return ci.st.emit(ev)
}

// expandArgs lists the arguments, those of a variadic parameter one by one.
func (ci *callInfo) expandArgs() []Val {
	args := ci.args
	if ci.sig.Variadic() && len(args) > 0 {
		last := args[len(args)-1]
		if isNilConst(last) {
			return args[:len(args)-1]
		}
		if sl, ok := last.(*Slice); ok {
			if n, ok := constInt(sl.Len); ok && n <= 64 {
				out := append([]Val{}, args[:len(args)-1]...)
				et := ci.sig.Params().At(ci.sig.Params().Len() - 1).Type().(*types.Slice).Elem()
				for i := int64(0); i < n; i++ {
					out = append(out, ci.st.load(elemPtr(sl.Base, addc(sl.Off, i)), et))
				}
				return out
			}
		}
	}
	return append([]Val{}, args...)
}

func shortName(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		s = s[i+1:]
	}
	return strings.TrimPrefix(strings.NewReplacer("(", "", ")", "", "*", "").Replace(s), ".")
}

// ---- builtins

func (f *frame) builtin(fs *fstate, c *ssa.CallCommon, name string, args []Val, pos token.Pos) []outcome {
	f.in.fn, f.in.at = f.fn, pos
	in, st := f.in, fs.st
	switch name {
	case "len", "cap":
		t := c.Args[0].Type().Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		if a, ok := t.(*types.Array); ok {
			return one(st, Int(a.Len()))
		}
		if _, ok := t.(*types.Chan); ok {
			if name == "cap" {
				if p := in.deref(args[0]); p != nil {
					if v, ok := st.heap[p.loc()+"#cap"]; ok {
						return one(st, v)
					}
				}
				return one(st, appT(tInt, "cap", args[0]))
			}
			s := in.fresh("chanlen", tUint) // non-negative
			st.emit(&Event{Kind: "chanlen", Pos: pos, Fn: f.fn, Obj: args[0], Res: []Val{s}})
			return one(st, s)
		}
		if name == "cap" {
			if sl := in.toSlice(args[0]); sl != nil {
				return one(st, sl.Cap)
			}
			return one(st, Int(0))
		}
		return one(st, in.lenOf(st, args[0]))
	case "append":
		return one(st, f.appendTo(st, args[0], args[1], c.Args[0].Type(), pos))
	case "copy":
		d := in.toSlice(args[0])
		if d == nil {
			return one(st, Int(0))
		}
		q, n := in.seqOf(st, args[1])
		k := minVal(st, d.Len, n)
		if k == nil {
			k = appT(tInt, "min", d.Len, n)
		}
		f.readsArr(st, args[1], pos)
		in.setWindow(st, d, st.window(q, Int(0), k), k)
		st.emit(&Event{Kind: "copymem", Pos: pos, Fn: f.fn, Obj: d, Args: []Val{k}})
		return one(st, k)
	case "delete":
		p := in.deref(args[0])
		if p != nil {
			ms := st.mapOf(args[0])
			st.heap[p.loc()+"#map"] = mkMap(ms.Base, append(append([]MapUpd{}, ms.Upd...), MapUpd{args[1], nil}))
			st.emit(&Event{Kind: "mapdelete", Pos: pos, Fn: f.fn, Obj: args[0], Args: []Val{args[1]}, Loc: p.loc()})
		}
		return one(st)
	case "close":
		st.emit(&Event{Kind: "close", Pos: pos, Fn: f.fn, Obj: args[0], Sub: "chan"})
		return one(st)
	case "panic":
		st.emit(&Event{Kind: "panic", Pos: pos, Fn: f.fn, Args: args})
		return []outcome{{st, nil, "panic"}}
	case "clear":
		if p := in.deref(args[0]); p != nil {
			if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				st.heap[p.loc()+"#map"] = mkMap(Nil, nil)
				st.emit(&Event{Kind: "mapclear", Pos: pos, Fn: f.fn, Obj: args[0], Loc: p.loc()})
			} else if sl := in.toSlice(args[0]); sl != nil {
				in.setWindow(st, sl, mkSeq(Seg{Kind: "zero", Len: sl.Len}), sl.Len)
			}
		}
		return one(st)
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			var m Val
			if name == "min" {
				m = minVal(st, r, a)
			} else if m = minVal(st, mulcSafe(r), mulcSafe(a)); m != nil {
				m = mulc(m, -1)
			}
			if m == nil || !isInteger(c.Args[0].Type()) {
				m = appT(c.Args[0].Type(), name, r, a)
			}
			r = m
		}
		return one(st, r)
	case "print", "println":
		return one(st)
	case "ssa:wrapnilchk":
		return one(st, args[0])
	case "recover":
		return one(st, in.fresh("recovered", types.Universe.Lookup("any").Type()))
	}
	panic(abort{"unsupported builtin " + name + " in " + f.fn.String()})
}

func mulcSafe(v Val) Val { return mulc(v, -1) }

// minVal returns the lesser value if it's known which one is.
func minVal(st *State, a, b Val) Val {
	if st.decide(le0(sub(a, b))) == 1 {
		return a
	}
	if st.decide(le0(sub(b, a))) == 1 {
		return b
	}
	return nil
}

// seqOf returns the contents of a slice or string value and its length.
func (in *Interp) seqOf(st *State, v Val) (*Seq, Val) {
	if s, ok := constStr(v); ok {
		var segs []Seg
		for i := 0; i < len(s); i++ {
			segs = append(segs, Seg{Kind: "val", Len: Int(1), V: Int(int64(s[i]))})
		}
		return mkSeq(segs...), Int(int64(len(s)))
	}
	if isStringVal(v) {
		n := in.lenOf(st, v)
		return mkSeq(Seg{Kind: "str", Len: n, V: v}), n
	}
	sl := in.toSlice(v)
	if sl == nil {
		return mkSeq(), Int(0)
	}
	return st.content(sl.Base, sl.Off, sl.Len), sl.Len
}

func isStringVal(v Val) bool {
	switch x := v.(type) {
	case *Sym:
		return x.T != nil && isString(x.T)
	case *App:
		return x.T != nil && isString(x.T)
	}
	return false
}

// setWindow replaces the first n elements of a slice's window.
func (in *Interp) setWindow(st *State, d *Slice, q *Seq, n Val) {
	total := in.arrayLen(st, d.Base)
	if total == nil {
		total = add(d.Off, d.Len)
		if d.Base.O.Kind == "sym" && d.Base.Path == "" && d.Base.O.Base != nil {
			total = lenTerm(d.Base.O.Base)
		}
	}
	pre := st.content(d.Base, Int(0), d.Off)
	rest := sub(sub(total, d.Off), n)
	post := st.content(d.Base, add(d.Off, n), rest)
	nq := concatSeq(concatSeq(pre, q), post)
	st.setContent(d.Base, nq)
	if nq.Key() != pre.Key() {
		st.emit(&Event{Kind: "storewin", Pos: in.at, Fn: in.fn, Obj: d.Base, Loc: d.Base.loc(), Args: []Val{d.Off, n}, Seq: q})
	}
}

func (in *Interp) arrayLen(st *State, base *Ptr) Val {
	if q, ok := st.heap[base.loc()+"#seq"].(*Seq); ok {
		return q.length()
	}
	if base.Path == "" && base.O.T != nil {
		if a, ok := base.O.T.Underlying().(*types.Array); ok {
			return Int(a.Len())
		}
	}
	return nil
}

// appendTo models append: the result is a fresh array; the elements of the old
// one after the window are not known any more if they exist.
func (f *frame) appendTo(st *State, dst, src Val, t types.Type, pos token.Pos) Val {
	in := f.in
	sq, sn := in.seqOf(st, src)
	if n, ok := constInt(sn); ok && n == 0 {
		return dst
	}
	f.readsArr(st, src, pos)
	f.readsArr(st, dst, pos)
	dq, dn := in.seqOf(st, dst)
	if d := in.toSlice(dst); d != nil {
		total := in.arrayLen(st, d.Base)
		if total == nil && d.Base.O.Kind == "sym" && d.Base.Path == "" && d.Base.O.Base != nil {
			total = lenTerm(d.Base.O.Base)
		}
		if total != nil && add(d.Off, d.Len).Key() != total.Key() {
			keep := st.content(d.Base, Int(0), add(d.Off, d.Len))
			st.setContent(d.Base, concatSeq(keep, mkSeq(Seg{Kind: "unk", Len: sub(total, add(d.Off, d.Len)), V: in.fresh("overwritten", nil)})))
			st.emit(&Event{Kind: "appendover", Pos: pos, Fn: f.fn, Obj: d.Base, Loc: d.Base.loc(), Args: []Val{d.Off, d.Len}})
		}
	}
	o := in.newObj("arr", "append", t, nil)
	p := mkPtr(o, "")
	st.heap[p.loc()+"#seq"] = concatSeq(dq, sq)
	n := add(dn, sn)
	if d := in.toSlice(dst); d != nil && d.Len.Key() != "0" {
		in.grown[o.ID] = d.Base.O // may be the same array
	}
	var cp Val = appT(tInt, "cap", p)
	if d := in.toSlice(dst); d != nil && st.decide(le0(sub(n, d.Cap))) == 1 {
		cp = d.Cap
	}
	return mkSlice(p, Int(0), n, cp)
}

// readsArr records that the elements of a slice are read.
func (f *frame) readsArr(st *State, v Val, pos token.Pos) {
	if !f.in.cfg.Accesses {
		return
	}
	if sl := f.in.toSlice(v); sl != nil && sl.Base.O.Kind != "alloc" {
		st.emit(&Event{Kind: "load", Name: "elements", Pos: pos, Fn: f.fn, Obj: sl.Base, Loc: sl.Base.loc()})
	}
}

// havocPtr forgets the contents of the pointed-to variable.
func (in *Interp) havocPtr(st *State, p *Ptr, t types.Type, why string) {
	st.dropUnder(p.loc())
	in.havocType(st, p, t, why)
}
func (in *Interp) havocType(st *State, p *Ptr, t types.Type, why string) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if !isModelStruct(t) {
			for i := 0; i < u.NumFields(); i++ {
				in.havocType(st, mkPtr(p.O, p.Path+fieldPath(u, i)), u.Field(i).Type(), why+"."+u.Field(i).Name())
			}
			return
		}
	case *types.Array:
		st.heap[p.loc()+"#seq"] = mkSeq(Seg{Kind: "unk", Len: Int(u.Len()), V: in.fresh(why, t)})
		return
	}
	in.locType[p.loc()] = t
	st.heap[p.loc()] = in.fresh(why, t)
}

var _ = constant.MakeBool
