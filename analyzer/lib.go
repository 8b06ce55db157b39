package main

// Helpers shared by the rules.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// paramArgs builds the arguments of a call: the receiver and parameters of the
// listed types get the given values, the others get symbols.
type argFor struct {
	match func(t types.Type) bool
	v     Val
}

func ptrTo(n types.Type) func(types.Type) bool {
	return func(t types.Type) bool { return types.Identical(t, types.NewPointer(n)) }
}
func isType(n types.Type) func(types.Type) bool {
	return func(t types.Type) bool { return types.Identical(t, n) }
}

// ioParam matches the parameters of the interfaces of package io.
func ioParam(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "io" {
		return true
	}
	return n.Obj().Name() == "RandomAccessFile"
}
func isBool(t types.Type) bool { return isBoolean(t) }

func (in *Interp) args(fn *ssa.Function, prefix string, special ...argFor) []Val {
	var out []Val
	for i, p := range fn.Params {
		var v Val
		recv := i == 0 && fn.Signature.Recv() != nil
		for _, s := range special {
			if y, ok := s.v.(*Sym); recv && !(ok && y.T != nil && types.Identical(y.T, p.Type())) {
				continue
			}
			if s.match(p.Type()) {
				v = s.v
				break
			}
		}
		if v == nil {
			v = in.namedSym(prefix+p.Name(), p.Type())
		}
		out = append(out, v)
	}
	return out
}

// leaf is a field of a struct, by path.
type leaf struct {
	path string
	t    types.Type
}

// leaves lists the fields of a struct type recursively. Arrays, slices and
// pointers are leaves.
func leaves(t types.Type) []leaf {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || isModelStruct(t) {
		return []leaf{{"", t}}
	}
	var out []leaf
	for i := 0; i < st.NumFields(); i++ {
		for _, l := range leaves(st.Field(i).Type()) {
			out = append(out, leaf{fieldPath(st, i) + l.path, l.t})
		}
	}
	return out
}

// promoted is a field of a struct, or of one embedded in it.
type promoted struct {
	st   *types.Struct
	i    int
	path string
}

func (p promoted) field() *types.Var { return p.st.Field(p.i) }

func promotedFields(st *types.Struct) (out []promoted) {
	for i := 0; st != nil && i < st.NumFields(); i++ {
		f := st.Field(i)
		if s, ok := f.Type().Underlying().(*types.Struct); ok && f.Embedded() && !isModelStruct(f.Type()) {
			for _, x := range promotedFields(s) {
				out = append(out, promoted{x.st, x.i, fieldPath(st, i) + x.path})
			}
			continue
		}
		out = append(out, promoted{st, i, fieldPath(st, i)})
	}
	return out
}

// fieldVal loads a field of the struct a pointer value points to. The contents
// of arrays and slices are returned rather than the references.
func (in *Interp) fieldVal(st *State, ptr Val, l leaf) Val {
	p := in.deref(ptr)
	if p == nil {
		return nil
	}
	v := st.load(mkPtr(p.O, p.Path+l.path), l.t)
	if _, ok := l.t.Underlying().(*types.Slice); ok {
		q, _ := in.seqOf(st, v)
		return spread(q)
	}
	if q, ok := v.(*Seq); ok {
		return spread(q)
	}
	return v
}

// spread expands windows of constant size of symbolic arrays into elements.
func spread(q *Seq) *Seq {
	var out []Seg
	for _, g := range q.Segs {
		n, ok := constInt(g.Len)
		if ok && n <= 64 && g.Kind == "sub" {
			for i := int64(0); i < n; i++ {
				out = append(out, Seg{Kind: "val", Len: Int(1), V: appT(types.Typ[types.Uint8], "elem", g.V, addc(g.Off, i))})
			}
			continue
		}
		out = append(out, g)
	}
	return mkSeq(out...)
}

// ioErrs are the errors of the I/O operations of a path, those of loops too.
func ioErrs(evs []*Event) map[string]*Event {
	m := map[string]*Event{}
	walk(evs, nil, func(e *Event, _ []*IterPath) {
		if e.Err != nil {
			m[e.Err.Key()] = e
		}
	})
	return m
}

// ioFailed tells whether an I/O operation of the path failed.
func (p *Path) ioFailed() bool {
	for _, e := range ioErrs(p.Ev) {
		if p.St.isNil(e.Err) == -1 {
			return true
		}
	}
	return false
}

// assume adds substituted facts to a state; false: they contradict it.
func assume(st *State, facts []Fact, f func(Val) Val) bool {
	for _, x := range facts {
		c := x.C
		if f != nil {
			c = f(c)
		}
		switch st.decide(c) {
		case 1:
			if !x.Truth {
				return false
			}
		case -1:
			if x.Truth {
				return false
			}
		default:
			st.addFact(c, x.Truth)
		}
	}
	return true
}

// isCorrupted: errors.Is tells that the error is a CorruptedFileError.
func (c *Ctx) isCorrupted(err Val) bool {
	for {
		a, ok := isApp(err, "errorf")
		if !ok || len(a.Args) != 2 {
			break
		}
		err = a.Args[1]
	}
	n := c.named("domain", "CorruptedFileError")
	i, ok := err.(*Iface)
	if n == nil || !ok {
		return false
	}
	return (types.Identical(i.Dyn, n) || types.Identical(i.Dyn, types.NewPointer(n))) && c.sameErrors(i.Dyn)
}

// sameErrors: two errors of the type are the same for errors.Is.
func (c *Ctx) sameErrors(t types.Type) bool {
	fn := c.w.method(t, "Is")
	if fn == nil || fn.Blocks == nil {
		// equality: values without fields
		st, ok := t.Underlying().(*types.Struct)
		return ok && st.NumFields() == 0
	}
	in := NewInterp(c.w, Config{})
	a, b := in.namedSym("a", t), in.namedSym("b", t)
	ok := true
	for _, q := range c.run(in, fn, []Val{a, mkIface(t, b)}, nil, nil) {
		v, isC := false, false
		if len(q.Rets) == 1 {
			v, isC = constBool(q.Rets[0])
		}
		ok = ok && isC && v
	}
	return ok
}
