package main

// Package-level variables and other objects that requests share without a mutex.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", "Every use of every package-level variable of the module in every function outside of package initialisation is traced, through addresses, slices, conversions, arguments, results and captured variables: none stores to it or to what it refers to, none appends to or copies into it, none hands a reference to code that may keep or change it; functions of libraries are allowed only if they're known just to read. No function changes a field of an endpoint, of a factory of storages, of a file format or of the configuration after it has been made.", globalRules)
}

type tracer struct {
	c       *Ctx
	g       *ssa.Global
	seen    map[ssa.Value]bool
	callers map[*ssa.Function][]ssa.CallInstruction
	n       *int
}

func isInit(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Signature.Recv() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#"))
}

// immutable: values of the type can be shared freely.
func immutable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Signature:
		return true
	case *types.Interface:
		return types.Identical(t, tError)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !immutable(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return immutable(u.Elem())
	case *types.Pointer:
		return t.String() == "*regexp.Regexp" || t.String() == "*time.Location"
	}
	return false
}

// reading are the functions of libraries that only read their arguments.
func reading(name string) bool {
	for _, p := range []string{"bytes.Equal", "bytes.Compare", "bytes.HasPrefix", "bytes.NewReader", "encoding/binary.Write", "reflect.DeepEqual", "reflect.TypeOf", "fmt.", "log.Print",
		"errors.Is", "errors.As", "slices.Equal", "slices.Contains", "slices.Index", "strings.", "strconv.", "(*bytes.Buffer).Write", "(*bufio.Writer).Write", "(*os.File).Write", "unicode/utf8.", "io.WriteString", "encoding/json.Marshal", "hash/crc32.", "sort.Search",
		"(*regexp.Regexp).Match", "(*regexp.Regexp).Find"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (t *tracer) fail(ins ssa.Instruction, format string, args ...any) {
	fn := ins.Parent()
	t.c.ob(false, "globals", fn, ins.Pos(), t.g.Name()+" "+fn.Name()+" "+fmt.Sprintf("%T", ins), "the package-level variable %s %s", t.g.Name(), fmt.Sprintf(format, args...))
}

// addr traces an address inside the variable.
func (t *tracer) addr(v ssa.Value, r ssa.Instruction) {
	*t.n++
	switch x := r.(type) {
	case *ssa.Store:
		if x.Addr == v {
			t.fail(x, "is changed")
		} else {
			t.fail(x, "can be changed through an address that is stored")
		}
	case *ssa.UnOp:
		if x.Op == token.MUL && !immutable(x.Type()) {
			t.uses(x)
		}
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.Phi, *ssa.ChangeType:
		t.uses(x.(ssa.Value))
	case *ssa.DebugRef:
	default:
		t.ref(v, r)
	}
}

// uses traces all the uses of an address or a reference.
func (t *tracer) uses(v ssa.Value) {
	if t.seen[v] {
		return
	}
	t.seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return
	}
	for _, r := range *refs {
		if isInit(r.Parent()) {
			continue
		}
		if _, ok := v.Type().Underlying().(*types.Pointer); ok {
			t.addr(v, r)
		} else {
			*t.n++
			t.ref(v, r)
		}
	}
}

// ref traces a use of a reference.
func (t *tracer) ref(v ssa.Value, r ssa.Instruction) {
	switch x := r.(type) {
	case *ssa.Store:
		if x.Addr == v || !immutable(v.Type()) {
			t.fail(x, "can be changed through a reference that is stored")
		}
	case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice, *ssa.Phi, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.Extract, *ssa.SliceToArrayPointer:
		y := x.(ssa.Value)
		t.uses(y)
	case *ssa.UnOp:
		if x.Op == token.MUL && !immutable(x.Type()) {
			t.uses(x)
		}
	case *ssa.Index, *ssa.Field, *ssa.Lookup:
		if y := x.(ssa.Value); !immutable(y.Type()) {
			t.uses(y)
		}
	case *ssa.Convert, *ssa.BinOp, *ssa.DebugRef, *ssa.If, *ssa.Range, *ssa.Next:
	case *ssa.MapUpdate:
		if x.Map == v {
			t.fail(x, "is changed")
		} else {
			t.fail(x, "can be changed through a reference that is stored")
		}
	case *ssa.Return:
		if immutable(v.Type()) {
			return
		}
		fn := x.Parent()
		if fn.Object() == nil || fn.Object().Exported() || fn.Signature.Results().Len() != 1 {
			t.fail(x, "can be changed through a reference that is returned")
			return
		}
		for _, ci := range t.callers[fn] {
			if y, ok := ci.(ssa.Value); ok {
				t.uses(y)
			}
		}
	case *ssa.MakeClosure:
		for i, b := range x.Bindings {
			if b == v {
				t.uses(x.Fn.(*ssa.Function).FreeVars[i])
			}
		}
	case ssa.CallInstruction:
		t.call(v, x)
	default:
		t.fail(r, "is used in a way that can't be followed")
	}
}

func (t *tracer) call(v ssa.Value, ci ssa.CallInstruction) {
	cm := ci.Common()
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "copy", "delete", "clear", "close":
			if cm.Args[0] == v {
				t.fail(ci, "is changed by %s", b.Name())
			}
		}
		return
	}
	if cm.IsInvoke() {
		if cm.Value == v && (types.Identical(v.Type(), tError) || immutable(v.Type())) {
			return
		}
		if cm.Value != v && strings.HasPrefix(cm.Method.Name(), "Write") {
			return
		}
		t.fail(ci, "may be changed by %s", cm.Method.Name())
		return
	}
	callee := cm.StaticCallee()
	if callee == nil {
		t.fail(ci, "is given to a function that isn't known")
		return
	}
	if callee.Blocks != nil && isModule(fnPkg(callee)) {
		for i, a := range cm.Args {
			if a == v {
				t.uses(callee.Params[i])
			}
		}
		return
	}
	name := fnName(callee)
	if strings.HasPrefix(name, "(*sync.") || reading(name) {
		return
	}
	t.fail(ci, "may be changed by %s", name)
}

func globalRules(c *Ctx) {
	callers := map[*ssa.Function][]ssa.CallInstruction{}
	uses := map[*ssa.Global][][2]any{}
	for _, fn := range c.w.Funcs {
		c.fns[fn.String()] = true
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if callee := ci.Common().StaticCallee(); callee != nil {
						callers[callee] = append(callers[callee], ci)
					}
				}
				if isInit(fn) {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && isModule(g.Pkg.Pkg) {
						uses[g] = append(uses[g], [2]any{ssa.Value(g), ins})
					}
				}
			}
		}
	}
	nvars, n := 0, 0
	for _, pk := range c.w.Packages() {
		for _, m := range sortedMembers(pk) {
			g, ok := m.(*ssa.Global)
			if !ok || g.Name() == "init$guard" {
				continue
			}
			nvars++
			before := len(c.finds)
			t := &tracer{c: c, g: g, seen: map[ssa.Value]bool{}, callers: callers, n: &n}
			for _, u := range uses[g] {
				t.addr(u[0].(ssa.Value), u[1].(ssa.Instruction))
			}
			if len(c.finds) == before {
				c.ob(true, "globals", nil, g.Pos(), g.Pkg.Pkg.Path()+"."+g.Name(), "")
			}
		}
	}
	c.count("package-level variables", nvars, 5)
	c.count("uses of package-level variables", n, 15)
	c.shared()
}

func sortedMembers(pk *ssa.Package) (out []ssa.Member) {
	sc := pk.Pkg.Scope()
	for _, n := range sc.Names() {
		if m := pk.Members[n]; m != nil {
			out = append(out, m)
		}
	}
	return
}

// shared: objects without a mutex that all requests use aren't changed.
func (c *Ctx) shared() {
	var set []types.Type
	var ifaces []*types.Interface
	for _, pk := range c.w.Packages() {
		for _, m := range sortedMembers(pk) {
			if tm, ok := m.(*ssa.Type); ok {
				if it, ok := tm.Type().Underlying().(*types.Interface); ok && (strings.HasSuffix(tm.Name(), "StorageFactory") || strings.HasSuffix(tm.Name(), "Protocol")) {
					ifaces = append(ifaces, it)
				}
			}
		}
	}
	for _, pk := range c.w.Packages() {
		for _, m := range sortedMembers(pk) {
			tm, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			t := tm.Type()
			if _, ok := t.Underlying().(*types.Struct); !ok {
				continue
			}
			shared := strings.HasSuffix(tm.Name(), "Endpoint") || tm.Name() == "Config" || tm.Name() == "Application"
			for _, it := range ifaces {
				shared = shared || types.Implements(types.NewPointer(t), it)
			}
			if shared {
				set = append(set, t)
			}
		}
	}
	c.count("types of shared objects", len(set), 5)
	n := 0
	for _, fn := range c.w.Funcs {
		handler := false
		for _, p := range fn.Params {
			handler = handler || strings.HasSuffix(p.Type().String(), "gin.Context") || p.Type().String() == "*net/http.Request"
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok && handler && fn.Parent() != nil {
					n++
					c.ob(!captured(s.Addr), "shared", fn, s.Pos(), fn.Name()+" captured", "a request handler changes a variable that it shares with other requests")
				}
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				hit := false
				for _, t := range set {
					hit = hit || types.Identical(deptr(fa.X.Type()), t)
				}
				if !hit {
					continue
				}
				n++
				if freshIn(fa.X) {
					continue
				}
				bad := changeable(fa)
				f := deptr(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field)
				c.ob(!bad, "shared", fn, fa.Pos(), fn.Name()+" "+f.Name(), "the field %s of an object that requests share is changed without a mutex", f.Name())
			}
		}
	}
	c.count("accesses to fields of shared objects", n, 10)
}

// changeable: what is at the address may be changed through it.
func changeable(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if changeable(x) {
				return true
			}
		case *ssa.IndexAddr:
			if changeable(x) {
				return true
			}
		case ssa.CallInstruction:
			callee := x.Common().StaticCallee()
			if callee == nil || !strings.HasPrefix(fnName(callee), "(*sync.") {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// captured: the address is that of, or in, a captured variable.
func captured(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.FreeVar:
		return true
	case *ssa.FieldAddr:
		return captured(x.X)
	case *ssa.IndexAddr:
		return captured(x.X)
	case *ssa.UnOp:
		return captured(x.X)
	}
	return false
}

// freshIn: the value has been allocated by the function itself.
func freshIn(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return ok
}
