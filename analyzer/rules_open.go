package main

// Opening files: what it may destroy (C34), and who closes them (C35).

import (
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	trust := "files behave as the operating system's do; the storages and factories of other implementations do what their interfaces say"
	register("C34", "Every path of every exported operation that does I/O: a file is emptied, removed, created over or renamed only if it's an index that opening has just reported as corrupted, or one that has just been found not to exist, or the registry's own file; a delta file is cut or rewritten only by recovery, and by opening only if it's locked or shorter than a header. Operations that return a storage write to a file that may have something in it nothing but one byte at the offset of its lock mark; those of the iterator but SetPrevious write nothing. The files given to a storage have been opened with constant flags: for reading and writing, created if absent, not exclusively and not for appending, with permissions for the owner. Every call in the module of a function that destroys files is on such a path.", openRules, trust)
	register("C35", "Typestate of every file opened on every path of every exported operation that does I/O: when the operation fails, the file has been closed, or been given to a storage that has been closed, or to a factory that has failed and closes what it's given on each of its own failing paths (of the same kind); when it succeeds, the file is closed, or it is open and reachable from the result, or owned by a storage that is open and that a goroutine of the operation has. Every path of the Close methods of the storages closes the file.", closeRules, trust)
}

// opens: the event opens a file.
func opensFile(e *Event) bool {
	return e.Kind == "call" && (e.Name == "os.OpenFile" || e.Name == "os.Open" || e.Name == "os.Create" || e.Name == "os.CreateTemp")
}

// makesStorage: the function returns a storage.
func makesStorage(fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if n, ok := types.Unalias(rs.At(i).Type()).(*types.Named); ok && n.Obj().Pkg() != nil && isModule(n.Obj().Pkg()) && strings.HasSuffix(n.Obj().Name(), "Storage") {
			return true
		}
	}
	return false
}

type openCheck struct {
	c        *Ctx
	registry Val
	lockAt   map[string]int64 // by package
	deltaEnd int64
	seen     map[token.Pos]bool
	iterT    types.Type
}

func openRules(c *Ctx) {
	o := &openCheck{c: c, lockAt: map[string]int64{}, seen: map[token.Pos]bool{}, iterT: c.impl("infra/recdb", "Iterator")}
	for name, spec := range map[string]*protoSpec{"infra/delta": &deltaSpec, "infra/index": &indexSpec} {
		p := c.proto(*spec)
		if p == nil {
			return
		}
		L, end, ok := p.offsets()
		if !ok {
			return
		}
		o.lockAt[name] = L
		if name == "infra/delta" {
			o.deltaEnd = end
		}
	}
	r := newRegistry(c)
	if r == nil || r.registryFile() == nil || o.iterT == nil {
		return
	}
	o.registry = r.file
	n, opened, writes := 0, 0, 0
	c.operations(func(fn *ssa.Function, q *Path) {
		n++
		rel := strings.TrimPrefix(fnPkg(fn).Path(), modulePath+"/internal/")
		opening := makesStorage(fn)
		iterating := o.iterates(fn)
		q.each(func(e *Event, st *State, _ int, inner bool) {
			if opensFile(e) {
				o.seen[e.Pos] = true
				opened++
			}
			if destroys(e) {
				o.seen[e.Pos] = true
				c.obPath(o.mayDestroy(fn, rel, q, st, e), "destroys", q, e.Pos, fn.Name()+" "+e.Name, "%s may destroy a file that isn't known to be damaged or new", fn.Name())
			}
			if e.Kind != "write" || !opening && !iterating {
				return
			}
			if p, ok := e.Obj.(*Ptr); ok && p.O.Kind == "alloc" {
				return // in memory
			}
			if p, ok := e.Obj.(*Ptr); ok && strings.Contains(p.Key(), "FileBuffer") {
				return
			}
			writes++
			if iterating {
				c.obPath(false, "iterating", q, e.Pos, fn.Name(), "%s writes to the file it iterates over", fn.Name())
				return
			}
			size := q.In.initialSize(e.Obj)
			switch {
			case st.decide(eqInt(size, Int(0))) == 1, o.mark(rel, e):
			case rel == "infra/delta" && o.damaged(q, e.Obj):
			default:
				c.obPath(false, "overwrites", q, e.Pos, fn.Name(), "%s may write to a file that isn't empty, and not to its lock mark", fn.Name())
				return
			}
			c.obPath(true, "overwrites", q, e.Pos, fn.Name(), "")
		})
		o.flags(fn, q)
	})
	c.count("paths of operations that do I/O", n, 500)
	c.count("files opened", opened, 20)
	c.count("writes of openers", writes, 10)
	o.sweep(r)
}

func (o *openCheck) iterates(fn *ssa.Function) bool {
	recv := fn.Signature.Recv()
	if recv == nil {
		return fn.Name() == "NewIterator"
	}
	if !types.Identical(recv.Type(), o.iterT) {
		return false
	}
	return fn.Name() != "SetPrevious"
}

// mark: one byte at the lock's offset is written.
func (o *openCheck) mark(rel string, e *Event) bool {
	L, ok := o.lockAt[rel]
	if !ok || e.Seq == nil || e.At == nil {
		return false
	}
	at, ok1 := constInt(e.At)
	k, ok2 := constInt(e.Seq.length())
	return ok1 && ok2 && k == 1 && at == L
}

// damaged: the delta file is locked or too short.
func (o *openCheck) damaged(q *Path, file Val) bool {
	size := q.In.initialSize(file)
	empty := q.St.decide(eqInt(size, Int(0)))
	short := q.St.decide(le0(sub(size, Int(o.deltaEnd-1))))
	lock := q.St.decide(eqInt(app("in", file, Int(o.lockAt["infra/delta"])), Int(0)))
	return short == 1 && empty == -1 || short == -1 && lock == -1
}

// ofRegistry: the name of the file is that of the registry's, or begins with it.
func (o *openCheck) ofRegistry(name Val) bool {
	if same(name, o.registry) {
		return true
	}
	a, ok1 := isApp(name, "concat")
	b, ok2 := isApp(o.registry, "concat")
	if !ok1 || !ok2 || len(a.Args) != len(b.Args) {
		return false
	}
	for i := range a.Args {
		if same(a.Args[i], b.Args[i]) {
			continue
		}
		s, isS := constStr(a.Args[i])
		t, isT := constStr(b.Args[i])
		if i != len(a.Args)-1 || !isS || !isT || !strings.HasPrefix(s, t) {
			return false
		}
	}
	return true
}

func (o *openCheck) mayDestroy(fn *ssa.Function, rel string, q *Path, st *State, e *Event) bool {
	if e.Kind == "truncate" {
		if p, ok := e.Obj.(*Ptr); ok && p.O.Kind == "alloc" {
			return true
		}
		return rel == "infra/delta" && (fn.Name() == "Recover" || o.damaged(q, e.Obj))
	}
	if len(e.Args) == 0 {
		return false
	}
	// a new file
	for _, x := range q.Ev {
		if x == e {
			break
		}
		if opensFile(x) && x.Err != nil && same(x.Args[0], e.Args[0]) && notExist(st, x.Err) {
			return true
		}
		if x.Kind == "call" && x.Name == "os.Stat" && x.Err != nil && same(x.Args[0], e.Args[0]) && notExist(st, x.Err) {
			return true
		}
	}
	// a corrupted index
	for _, x := range q.Ev {
		if x == e {
			break
		}
		if x.Kind == "call" && strings.HasPrefix(x.Name, "IndexStorageFactory.") && x.Err != nil && st.isNil(x.Err) == -1 && corrupted(st, x.Err) && o.c.indexPath(q, x, e.Args[0]) {
			return true
		}
	}
	// the registry's
	if rel != "domain" {
		return false
	}
	for i, a := range e.Args {
		if i > 0 && e.Name != "os.Rename" {
			break
		}
		if !o.ofRegistry(a) {
			return false
		}
	}
	return true
}

// flags decides how the files given to storages are opened.
func (o *openCheck) flags(fn *ssa.Function, q *Path) {
	c := o.c
	used := func(e *Event) bool {
		if makesStorage(fn) {
			return true
		}
		for _, x := range q.Ev {
			if x.Kind == "call" && strings.Contains(x.Name, "StorageFactory.") && gives(e, x) {
				return true
			}
		}
		return false
	}
	for i, e := range q.Ev {
		if !opensFile(e) || !used(e) {
			continue
		}
		ok, why := true, ""
		bad := func(s string) { ok, why = false, s }
		switch e.Name {
		case "os.Create":
		case "os.OpenFile":
			k, isConst := constInt(e.Args[1])
			perm, isPerm := constInt(e.Args[2])
			switch {
			case !isConst || !isPerm:
				bad("isn't opened with constant flags")
			case int(k)&(os.O_RDONLY|os.O_WRONLY|os.O_RDWR) != os.O_RDWR:
				bad("isn't opened for reading and writing")
			case int(k)&os.O_APPEND != 0:
				bad("is opened for appending")
			case int(k)&os.O_EXCL != 0:
				bad("is opened only if it doesn't exist")
			case int(k)&os.O_CREATE == 0:
				made := false
				for _, x := range q.Ev[:i] {
					made = made || opensFile(x) && q.St.isNil(x.Err) == 1 && same(x.Args[0], e.Args[0])
				}
				if !made {
					bad("isn't created if it doesn't exist")
				}
			case perm&0600 != 0600:
				bad("can't be opened again by its owner")
			}
		default:
			bad("isn't opened for reading and writing")
		}
		c.obPath(ok, "flags", q, e.Pos, fn.Name()+" "+e.Name, "the file of a storage %s", why)
	}
}

// sweep: there are no other calls that destroy files.
func (o *openCheck) sweep(r *registry) {
	c := o.c
	n := 0
	for _, fn := range c.w.Funcs {
		if !isModule(fnPkg(fn)) || fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := ci.Common().StaticCallee()
				if callee == nil || callee.Pkg == nil {
					continue
				}
				name := callee.String()
				switch {
				case name == "os.OpenFile", name == "os.Create", name == "os.WriteFile", name == "io/ioutil.WriteFile", name == "os.Rename", name == "os.Truncate",
					strings.HasPrefix(name, "os.Remove"), strings.HasPrefix(name, "syscall.") && (strings.HasSuffix(name, "Unlink") || strings.HasSuffix(name, "Truncate") || strings.HasSuffix(name, "Open")):
				default:
					continue
				}
				n++
				c.ob(o.seen[ins.Pos()], "sweep", fn, ins.Pos(), name, "%s is called outside of the operations analysed", name)
			}
		}
	}
	c.count("calls that may destroy files", n, 5)
}

// ---- C35

type closeCheck struct {
	c        *Ctx
	contract map[string][2]bool // whether a factory method closes the file when failing: because of damage, otherwise
}

func closeRules(c *Ctx) {
	k := &closeCheck{c: c, contract: map[string][2]bool{}}
	k.contracts()
	n, opened, failing := 0, 0, 0
	c.operations(func(fn *ssa.Function, q *Path) {
		n++
		if q.End != "" {
			return
		}
		for i, e := range q.Ev {
			if !opensFile(e) || e.Err == nil || len(e.Res) == 0 {
				continue
			}
			if q.St.isNil(e.Err) == -1 {
				continue
			}
			opened++
			if !q.OK() {
				failing++
			}
			k.file(fn, q, i, unwrap(e.Res[0]))
		}
		// opened in loops: not followed
		q.each(func(e *Event, _ *State, _ int, inner bool) {
			if inner && opensFile(e) {
				c.obPath(false, "loop", q, e.Pos, fn.Name(), "a file is opened in a loop")
			}
		})
	})
	c.count("paths of operations that do I/O", n, 500)
	c.count("files opened", opened, 20)
	c.count("files opened by operations that fail", failing, 10)
	k.closing()
	k.reopening()
}

// reopening: OpenMaybeRecover closes a file that can't be opened in the end.
func (k *closeCheck) reopening() {
	c := k.c
	ft := c.impl("domain", "DeltaStorageFactory")
	open, fn := c.meth(ft, "Open"), c.meth(ft, "OpenMaybeRecover")
	if ft == nil || open == nil || fn == nil {
		return
	}
	in := NewInterp(c.w, Config{OpaqueFn: func(f *ssa.Function) bool { return f == open }})
	file := in.namedSym("file", types.NewInterfaceType(nil, nil))
	for _, q := range c.run(in, fn, in.args(fn, "", argFor{ioParam, file}), nil, nil) {
		var at *Event
		closed := false
		for _, e := range q.Ev {
			if strings.HasPrefix(e.Kind, "call") && strings.HasSuffix(e.Name, ").Open") {
				at = e
			}
			closed = closed || at != nil && e.Kind == "close" && e.Obj != nil && e.Obj.Key() == file.Key()
		}
		if at == nil || at.Err == nil || q.End != "" {
			continue
		}
		if q.OK() {
			c.obPath(!closed, "open", q, at.Pos, fn.Name()+" reopened", "the file of a storage that has been opened is closed")
		} else {
			c.obPath(closed, "failed", q, at.Pos, fn.Name()+" reopened", "the file stays open when opening it after the check for damage fails")
		}
	}
}

// contracts finds out which operations of the factories close what they're given
// when they fail.
func (k *closeCheck) contracts() {
	c := k.c
	for _, name := range []string{"DeltaStorageFactory", "IndexStorageFactory"} {
		nt := c.named("domain", name)
		ft := c.impl("domain", name)
		if nt == nil || ft == nil {
			return
		}
		it := nt.Underlying().(*types.Interface)
		for i := 0; i < it.NumMethods(); i++ {
			fn := c.meth(ft, it.Method(i).Name())
			if fn == nil {
				continue
			}
			in := NewInterp(c.w, Config{})
			file := in.namedSym("file", types.NewInterfaceType(nil, nil))
			takes := false
			for _, p := range fn.Params {
				takes = takes || ioParam(p.Type())
			}
			if !takes || !makesStorage(fn) {
				continue
			}
			st := in.NewState()
			st.addFact(app("isnil", file), false)
			all := [2]bool{true, true}
			m, succ := 0, 0
			for _, q := range c.run(in, fn, in.args(fn, "", argFor{ioParam, file}), nil, st) {
				if q.End != "" {
					continue
				}
				closed := false
				for _, e := range q.Ev {
					closed = closed || e.Kind == "close" && e.Obj != nil && e.Obj.Key() == file.Key()
				}
				if q.OK() {
					succ++
					c.obPath(!closed, "open", q, fn.Pos(), fn.Name(), "the file of a storage that has been opened is closed")
					continue
				}
				m++
				if c.isCorrupted(q.Err) {
					all[0] = all[0] && closed
				} else {
					all[1] = all[1] && closed
				}
			}
			c.count("failing paths of "+name+"."+fn.Name(), m, 2)
			c.count("successful paths of "+name+"."+fn.Name(), succ, 1)
			k.contract[name+"."+fn.Name()] = all
			closers := 0
			for _, p := range fn.Params {
				if ioParam(p.Type()) && types.NewMethodSet(p.Type()).Lookup(nil, "Write") == nil {
					closers++
				}
			}
			if closers > 0 {
				c.ob(all[0] && all[1], "takes-over", fn, fn.Pos(), fn.Name(), "the closer given to %s isn't closed on every path that fails", fn.Name())
			}
		}
	}
}

// file decides what becomes of a file opened by an event of a path.
func (k *closeCheck) file(fn *ssa.Function, q *Path, at int, f Val) {
	c := k.c
	st := q.St
	closed := false
	var owner *Event // that has made a storage of it
	sure := false    // that somebody owns or has closed it
	for _, e := range q.Ev[at+1:] {
		switch {
		case e.Kind == "close" && e.Obj != nil && unwrap(e.Obj).Key() == f.Key():
			closed = true
		case e.Kind == "call" && strings.Contains(e.Name, "StorageFactory.") && gives(q.Ev[at], e):
			if e.Err != nil && st.isNil(e.Err) == 1 {
				owner = e
				c.obPath(!closed, "open", q, e.Pos, fn.Name()+" "+e.Name, "a storage is given a file that has been closed")
				c.obPath(k.handsOver(e, f), "owned", q, e.Pos, fn.Name()+" "+e.Name, "a storage is given a file that it can't close")
				continue
			}
			ct := k.contract[e.Name]
			if e.Err != nil && corrupted(st, e.Err) && ct[0] || ct[0] && ct[1] {
				closed = true
			}
		case e.Kind == "call" && (strings.HasSuffix(e.Name, "Storage.Close") || e.Name == "(interface).Close") && owner != nil && len(owner.Res) > 0 && e.Obj != nil && unwrap(e.Obj).Key() == unwrap(owner.Res[0]).Key():
			closed = true
		case e.Kind == "go" && owner != nil && k.given(st, e, unwrap(owner.Res[0])):
			sure = true
		}
	}
	what := "a file that has been opened"
	if !q.OK() && q.Err != nil {
		c.obPath(closed, "failed", q, q.Ev[at].Pos, fn.Name()+" "+q.Ev[at].Name, "%s stays open when %s fails (%s)", what, fn.Name(), ending(q))
		return
	}
	if closed {
		for _, r := range q.Rets {
			c.obPath(!k.holds(st, r, f, 3), "open", q, q.Ev[at].Pos, fn.Name()+" closed", "%s returns a file that has been closed", fn.Name())
		}
		c.obPath(owner == nil || !sure, "open", q, q.Ev[at].Pos, fn.Name()+" storage", "the storage that a goroutine uses has been closed")
		return
	}
	for _, r := range q.Rets {
		sure = sure || k.holds(st, r, f, 3)
	}
	c.obPath(sure, "owned", q, q.Ev[at].Pos, fn.Name()+" "+q.Ev[at].Name, "%s stays open, and nobody owns it when %s returns", what, fn.Name())
}

func closable(t types.Type) bool { return types.NewMethodSet(t).Lookup(nil, "Close") != nil }

// handsOver: a factory is given the file as something that can be closed.
func (k *closeCheck) handsOver(e *Event, f Val) bool {
	name := strings.SplitN(e.Name[strings.LastIndex(e.Name[:strings.LastIndex(e.Name, ".")], ".")+1:], ".", 2)
	nt := k.c.named("domain", strings.Trim(name[0], "()*"))
	if nt == nil {
		return false
	}
	it, ok := nt.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		if m.Name() != name[1] {
			continue
		}
		ps := m.Type().(*types.Signature).Params()
		for j := 0; j < ps.Len() && j < len(e.Args); j++ {
			if closable(ps.At(j).Type()) && unwrap(e.Args[j]).Key() == f.Key() {
				return true
			}
		}
	}
	return false
}

// holds: the value can be reached from a result.
func (k *closeCheck) holds(st *State, v, f Val, depth int) bool {
	if v == nil || depth == 0 {
		return false
	}
	v = unwrap(v)
	if v.Key() == f.Key() {
		return true
	}
	switch x := v.(type) {
	case *Ptr:
		t := x.O.T
		if t == nil {
			return false
		}
		for _, l := range leaves(t) {
			v := st.load(mkPtr(x.O, x.Path+l.path), l.t)
			if _, isIface := l.t.Underlying().(*types.Interface); isIface && unwrap(v).Key() == f.Key() && !closable(l.t) {
				continue // nobody can close it that way
			}
			if k.holds(st, v, f, depth-1) {
				return true
			}
		}
	case *Closure:
		for _, b := range x.Binds {
			if k.holds(st, b, f, depth-1) {
				return true
			}
		}
	}
	return false
}

// given: a goroutine has a value.
func (k *closeCheck) given(st *State, e *Event, f Val) bool {
	for _, a := range append([]Val{e.Obj}, e.Args...) {
		if a != nil && k.holds(st, a, f, 4) {
			return true
		}
	}
	return false
}

// closing: the Close methods of the storages close the file.
func (k *closeCheck) closing() {
	c := k.c
	for _, name := range []string{"DeltaStorage", "IndexStorage"} {
		t := c.impl("domain", name)
		fn := c.meth(t, "Close")
		if t == nil || fn == nil {
			continue
		}
		in := NewInterp(c.w, Config{})
		recv := in.namedSym("s", t)
		st := in.NewState()
		in.adoptReaders(st, recv, t)
		var fs []Val
		for _, l := range leaves(deptr(t)) {
			if ioParam(l.t) && types.NewMethodSet(l.t).Lookup(nil, "Close") != nil {
				fs = append(fs, unwrap(in.loadField(in.NewState(), recv, l)))
			}
		}
		c.count("fields of "+name+" that are closed", len(fs), 1)
		n := 0
		args := in.args(fn, "")
		args[0] = recv
		for _, q := range c.run(in, fn, args, nil, st) {
			n++
			for _, f := range fs {
				if q.St.isNil(f) == 1 {
					continue
				}
				ok := false
				q.each(func(e *Event, _ *State, _ int, inner bool) {
					ok = ok || !inner && e.Kind == "close" && e.Obj != nil && unwrap(e.Obj).Key() == f.Key()
				})
				c.obPath(ok && q.End == "", "closing", q, fn.Pos(), name, "closing a storage may leave its file open (%s)", ending(q))
			}
		}
		c.count("paths closing a "+name, n, 4)
	}
}
