package main

// Buffers and errors of I/O operations.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C07", "On every successful path of every exported operation of the storage packages and of the registry: each buffered write is followed by a flush of the same writer (on every path, loops included), and the file isn't used directly while a buffer holds data for it or data read ahead of it.", bufferRules)
	register("C08", "On every successful path of every exported operation of the storage packages and of the registry: the error of every I/O operation on the path, in loops too, has been found to be nil, or to be the end of the file while a damaged delta file is being recovered. A buffered write may instead be vouched for by the flush of its writer.", errorRules)
}

// mayIO: the function may do I/O.
func (w *World) mayIO(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function) bool
	visit = func(fn *ssa.Function) bool {
		if fn == nil || seen[fn] {
			return false
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok && visit(mc.Fn.(*ssa.Function)) {
					return true
				}
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				if c.IsInvoke() {
					t := c.Value.Type()
					if isStreamIface(t) {
						return true
					}
					if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && isModule(n.Obj().Pkg()) {
						im := w.implementor(n)
						if im == nil {
							return true
						}
						if visit(w.method(im, c.Method.Name())) {
							return true
						}
					}
					continue
				}
				callee := c.StaticCallee()
				if callee == nil {
					continue
				}
				if callee.Blocks != nil && isModule(fnPkg(callee)) {
					if visit(callee) {
						return true
					}
					continue
				}
				switch pkgOfName(fnName(callee)) {
				case "io", "os", "bufio", "encoding/binary", "encoding/json", "io/ioutil", "io/fs":
					if fnName(callee) != "os.Getenv" && fnName(callee) != "os.Exit" {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(fn)
}

// storages are the interfaces between a namespace and what it's stored in.
func storages(n *types.Named) bool {
	switch n.Obj().Name() {
	case "DeltaStorageFactory", "IndexStorageFactory", "LikeStorageFactory", "DeltaStorage", "IndexStorage", "LikeStorage":
		return true
	}
	return false
}

// operations runs the exported operations of the packages that do I/O.
func (c *Ctx) operations(f func(fn *ssa.Function, q *Path)) {
	n := 0
	for _, fn := range c.w.Funcs {
		pk := fnPkg(fn)
		rel := strings.TrimPrefix(pk.Path(), modulePath+"/internal/")
		switch rel {
		case "infra/delta", "infra/index", "infra/recdb", "domain":
		default:
			continue
		}
		if fn.Synthetic != "" || fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || fn.TypeParams().Len() > 0 || !c.w.mayIO(fn) {
			continue
		}
		cfg := Config{}
		if rel == "domain" {
			cfg.OpaqueIface = func(n *types.Named) bool { return storages(n) || n.Obj().Name() == "Namespace" }
		}
		in := NewInterp(c.w, cfg)
		st := in.NewState()
		args := in.args(fn, "")
		if recv := fn.Signature.Recv(); recv != nil {
			in.adoptReaders(st, args[0], recv.Type())
		}
		n++
		for _, q := range c.run(in, fn, args, nil, st) {
			f(fn, q)
		}
	}
	c.count("operations that do I/O", n, 40)
}

// adoptReaders associates the buffered reader in a field of an object with the
// file in another one.
func (in *Interp) adoptReaders(st *State, obj Val, t types.Type) {
	pt, ok := t.(*types.Pointer)
	if !ok {
		return
	}
	var file, reader Val
	for _, l := range leaves(pt.Elem()) {
		switch {
		case ioParam(l.t):
			file = unwrap(in.loadField(st, obj, l))
		case l.t.String() == "*bufio.Reader":
			reader = in.loadField(st, obj, l)
		}
	}
	if file != nil && reader != nil {
		st.heap["#br:"+reader.Key()] = file
	}
}

// pending lists the buffered writes that may not have been flushed at the end of
// the events.
func pending(evs []*Event, in map[string]*Event) map[string]*Event {
	cur := map[string]*Event{}
	for k, e := range in {
		cur[k] = e
	}
	for _, e := range evs {
		switch {
		case e.Kind == "write" && e.Sub == "buffered":
			cur[e.Args[0].Key()] = e
		case e.Kind == "flush" && len(e.Args) > 0 && e.Args[0] != nil:
			delete(cur, e.Args[0].Key())
		case e.Loop != nil:
			for _, it := range e.Loop.Iters {
				for k, x := range pending(it.Events, nil) {
					cur[k] = x
				}
			}
		}
	}
	return cur
}

func bufferRules(c *Ctx) {
	n := 0
	c.operations(func(fn *ssa.Function, q *Path) {
		if !q.OK() {
			return
		}
		left := pending(q.Ev, nil)
		walk(q.Ev, nil, func(e *Event, up []*IterPath) {
			switch e.Kind {
			case "write":
				if e.Sub == "buffered" {
					n++
					c.obPath(left[e.Args[0].Key()] == nil, "flushed", q, e.Pos, fn.Name()+" "+e.Name, "%s succeeds though what is written here stays in a buffer", fn.Name())
				}
			case "newreader", "newwriter":
				n++
			case "anomaly":
				c.obPath(false, "no-mixing", q, e.Pos, fn.Name()+" "+e.Name, "%s: the file is used (%s) while a buffer holds data of it (%s)", fn.Name(), e.Sub, e.Name)
			}
		})
		c.obPath(true, "no-mixing", q, fn.Pos(), fn.Name(), "")
	})
	c.count("uses of buffers", n, 20)
}

// endOfFile: the facts tell that the error is the end of the file.
func endOfFile(st *State, err Val) bool {
	for _, f := range st.factList() {
		a, ok := f.C.(*App)
		if !ok || !f.Truth || len(a.Args) != 2 || a.Op != "is" && a.Op != "eqv" {
			continue
		}
		for i := range a.Args {
			if a.Args[i].Key() == err.Key() {
				k := a.Args[1-i].Key()
				if strings.HasSuffix(k, "io.EOF") || strings.HasSuffix(k, "io.ErrUnexpectedEOF") {
					return true
				}
			}
		}
	}
	return false
}

// quiet: the error of an operation that isn't I/O of the storage.
func quiet(e *Event) bool {
	return e.Kind == "call" && (strings.HasPrefix(e.Name, "fmt.Print") || strings.HasPrefix(e.Name, "fmt.Fprint") || strings.HasPrefix(e.Name, "log."))
}

func errorRules(c *Ctx) {
	n := 0
	recovery := map[string]bool{"Recover": true, "RecoverTo": true, "OpenMaybeRecover": true}
	c.operations(func(fn *ssa.Function, q *Path) {
		if !q.OK() {
			return
		}
		flushed := map[string]bool{}
		q.each(func(e *Event, st *State, _ int, inner bool) {
			if e.Kind == "flush" && !inner && st.isNil(e.Err) == 1 && len(e.Args) > 0 && e.Args[0] != nil {
				flushed[e.Args[0].Key()] = true
			}
		})
		q.each(func(e *Event, st *State, _ int, _ bool) {
			if e.Err == nil || quiet(e) {
				return
			}
			n++
			ok := st.isNil(e.Err) == 1 || e.Kind == "write" && e.Sub == "buffered" && flushed[e.Args[0].Key()]
			if !ok && e.Kind == "read" && recovery[fn.Name()] && endOfFile(st, e.Err) {
				ok = true
			}
			if !ok && e.Kind == "call" && strings.HasPrefix(e.Name, "os.") && notExist(st, e.Err) {
				ok = true
			}
			if !ok && e.Kind == "call" && strings.HasPrefix(e.Name, "IndexStorageFactory.") && corrupted(st, e.Err) {
				ok = true // it's reset
			}
			c.obPath(ok, "error-checked", q, e.Pos, fn.Name()+" "+e.Name, "%s may succeed though %s fails", fn.Name(), e.Name)
		})
	})
	c.count("I/O errors on successful paths", n, 300)
}

// corrupted: the error is that the file is corrupted.
func corrupted(st *State, err Val) bool {
	for _, f := range st.factList() {
		a, ok := f.C.(*App)
		if ok && f.Truth && len(a.Args) > 0 && a.Args[0].Key() == err.Key() && (a.Op == "is" && strings.HasSuffix(strings.TrimSuffix(a.Args[1].Key(), "()"), "CorruptedFileError") ||
			strings.HasPrefix(a.Op, "errAs:") && strings.HasSuffix(a.Op, "CorruptedFileError")) {
			return true
		}
	}
	return false
}

// notExist: the error is that the file doesn't exist.
func notExist(st *State, err Val) bool {
	for _, f := range st.factList() {
		a, ok := f.C.(*App)
		if !ok || !f.Truth || len(a.Args) == 0 || a.Args[0].Key() != err.Key() {
			continue
		}
		if a.Op == "fn:os.IsNotExist" || a.Op == "is" && strings.HasSuffix(a.Args[1].Key(), "ErrNotExist") {
			return true
		}
	}
	return false
}
