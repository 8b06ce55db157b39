package main

// Damaged files: how they're recognised, and what starting does about them.

import (
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	trust := "files behave as the operating system's do; the storages and factories of other implementations do what their interfaces say"
	register("C30", "Every path of the index factory's operations: the error is (errors.Is, through every wrapping) a CorruptedFileError exactly if reading failed with the end of the file or the lock byte read isn't zero. Every path of the namespace's Start with the factories as interfaces: a corrupted index is replaced by an empty file, given to the factory again, and only then; no path removes or empties a file otherwise. Every path of the delta factory's OpenMaybeRecover: the file is rewritten by recovery exactly if it's locked or shorter than a header, and isn't empty.", damageRules, trust)
}

// destroys: the event removes or empties a file.
func destroys(e *Event) bool {
	switch e.Kind {
	case "truncate":
		return true
	case "call":
	default:
		return false
	}
	if e.Name == "os.OpenFile" && len(e.Args) > 1 {
		n, ok := constInt(e.Args[1])
		return !ok || n&int64(os.O_TRUNC) != 0
	}
	for _, x := range []string{"os.Create", "os.WriteFile", "io/ioutil.WriteFile", "os.Remove", "os.RemoveAll", "os.Rename", "os.Truncate", "syscall.", "os/exec."} {
		if strings.HasPrefix(e.Name, x) {
			return true
		}
	}
	return false
}

func damageRules(c *Ctx) {
	p := c.proto(indexSpec)
	ft := c.impl("domain", "IndexStorageFactory")
	result := c.named("domain", "IndexStorage")
	if p == nil || ft == nil || result == nil {
		return
	}
	L, _, ok := p.offsets()
	if !ok {
		return
	}
	// recognised
	iface := c.named("domain", "IndexStorageFactory").Underlying().(*types.Interface)
	n, damaged := 0, 0
	for i := 0; i < iface.NumMethods(); i++ {
		fn := c.meth(ft, iface.Method(i).Name())
		if fn == nil {
			continue
		}
		in := NewInterp(c.w, Config{})
		for _, q := range c.run(in, fn, in.args(fn, ""), nil, nil) {
			if q.End != "" {
				continue
			}
			if q.OK() {
				c.refusesLocked(q, fn, L)
				continue
			}
			n++
			if c.recognised(q, fn, L) {
				damaged++
			}
		}
	}
	c.count("failures to open an index", n, 10)
	c.count("failures because of damage", damaged, 4)
	c.resets()
	c.recovers()
}

// recognised: the error of a path is that the file is corrupted iff it is.
func (c *Ctx) recognised(q *Path, fn *ssa.Function, L int64) bool {
	var file Val
	ended, unsure := false, false
	q.each(func(e *Event, st *State, _ int, _ bool) {
		if e.Kind != "read" {
			return
		}
		if file == nil {
			file = e.Obj
		}
		if e.Err == nil || st.isNil(e.Err) != -1 {
			return
		}
		if endOfFile(st, e.Err) {
			ended = true
		} else if !notEnd(st, e.Err) {
			unsure = true
		}
	})
	locked := false
	if file != nil && !q.ioFailed() {
		locked = q.St.decide(eqInt(app("in", file, Int(L)), Int(0))) == -1
	}
	is := c.isCorrupted(q.Err)
	name := fn.Name()
	switch {
	case ended:
		c.obPath(is, "recognised", q, fn.Pos(), name+" end", "an index that ends prematurely isn't reported as corrupted (%s)", ending(q))
	case unsure:
		c.obPath(false, "recognised", q, fn.Pos(), name+" any", "whether an index ends prematurely isn't found out when reading it fails (%s)", ending(q))
	case locked:
		c.obPath(is, "recognised", q, fn.Pos(), name+" locked", "a locked index isn't reported as corrupted (%s)", ending(q))
	default:
		c.obPath(!is, "recognised", q, fn.Pos(), name+" intact", "an index is reported as corrupted though it's neither locked nor ends prematurely")
		return false
	}
	return true
}

// refusesLocked: a file that's been opened and isn't empty isn't locked.
func (c *Ctx) refusesLocked(q *Path, fn *ssa.Function, L int64) {
	q.each(func(e *Event, _ *State, _ int, inner bool) {
		if e.Kind != "read" || inner {
			return
		}
		c.obPath(q.St.decide(eqInt(app("in", e.Obj, Int(L)), Int(0))) == 1, "recognised", q, fn.Pos(), fn.Name()+" opened", "an index is opened though it may be locked")
	})
}

// notEnd: the facts tell that the error isn't an end of the file.
func notEnd(st *State, err Val) bool {
	seen := map[string]bool{}
	for _, f := range st.factList() {
		a, ok := f.C.(*App)
		if !ok || f.Truth || len(a.Args) != 2 || a.Op != "is" && a.Op != "eqv" {
			continue
		}
		for i := range a.Args {
			if a.Args[i].Key() == err.Key() {
				k := a.Args[1-i].Key()
				seen[k[strings.LastIndex(k, ".")+1:]] = true
			}
		}
	}
	return seen["EOF"] && seen["ErrUnexpectedEOF"]
}

// resets: Start replaces a corrupted index, and nothing else.
func (c *Ctx) resets() {
	w := c.nsWorker()
	if w == nil {
		return
	}
	in := NewInterp(c.w, Config{OpaqueIface: storages})
	n, m, k := 0, 0, 0
	for _, q := range c.run(in, w.start, in.args(w.start, ""), nil, nil) {
		var first, again *Event    // opening the index
		var emptied, given *Event  // replacing the file, and what's opened then
		opens := map[string]bool{} // delta storages
		failed := false            // something else does
		gone := false              // the index has been removed
		for _, e := range q.Ev {
			if d := destroys(e); d {
				ok := first != nil && q.St.isNil(first.Err) == -1 && corrupted(q.St, first.Err)
				if ok && len(e.Args) > 0 && e.Kind == "call" {
					ok = c.indexPath(q, first, e.Args[0])
				}
				c.obPath(ok, "only-damaged", q, e.Pos, w.start.Name()+" "+e.Name, "starting a namespace may empty or remove a file that hasn't been found to be a corrupted index")
				if ok && c.empties(e) {
					emptied, given = e, nil
				}
			}
			if e.Kind != "call" {
				continue
			}
			if emptied != nil && e.Name == "os.Remove" && (e.Err == nil || q.St.isNil(e.Err) != -1) {
				gone = true
			}
			if emptied != nil && (e.Name == "os.OpenFile" || e.Name == "os.Create") {
				given = e
				c.obPath(reopens(e, gone), "replaced", q, e.Pos, w.start.Name()+" reopen", "the corrupted index is replaced by a file that doesn't exist, or can't be both read and written")
				gone = gone && (e.Err == nil || q.St.isNil(e.Err) == -1)
			}
			if strings.HasPrefix(e.Name, "DeltaStorageFactory.") && q.St.isNil(e.Err) == 1 {
				opens[strings.TrimPrefix(e.Name, "DeltaStorageFactory.")] = true
			}
			switch {
			case strings.HasPrefix(e.Name, "IndexStorageFactory.") && first == nil:
				first = e
			case strings.HasPrefix(e.Name, "IndexStorageFactory."):
				ok := emptied != nil && q.St.isNil(emptied.Err) == 1 && (strings.HasSuffix(e.Name, ".OpenFile") || given != nil && q.St.isNil(given.Err) == 1 && gives(given, e))
				c.obPath(ok, "replaced", q, e.Pos, w.start.Name()+" again", "an index is opened again without an empty file in place of the corrupted one")
				again = e
			}
			if first != nil && e != first && e.Err != nil && !quiet(e) && q.St.isNil(e.Err) == -1 {
				failed = true
			}
		}
		if q.OK() {
			k++
			c.obPath(opens["OpenMaybeRecover"], "recovered", q, w.start.Pos(), w.start.Name()+" delta", "the namespace starts without having its delta storage recovered if it's damaged")
		}
		if first == nil || first.Err == nil {
			c.obPath(!q.OK(), "replaced", q, w.start.Pos(), w.start.Name()+" none", "a namespace starts without an index")
			continue
		}
		if q.St.isNil(first.Err) == 1 {
			continue
		}
		if corrupted(q.St, first.Err) {
			n++
			c.obPath(failed || q.OK() && again != nil && q.St.isNil(again.Err) == 1, "replaced", q, w.start.Pos(), w.start.Name()+" start", "a corrupted index isn't replaced by an empty one that is opened")
		} else {
			m++
			c.obPath(q.End == "" && !q.OK(), "other-failures", q, w.start.Pos(), w.start.Name(), "a namespace starts though its index can't be opened, and isn't known to be corrupted")
		}
	}
	c.count("ways of starting with a corrupted index", n, 2)
	c.count("other failures to open the index", m, 1)
	c.count("ways of starting", k, 2)
}

// empties: after the event there's no data in the file.
func (c *Ctx) empties(e *Event) bool {
	switch e.Kind {
	case "truncate":
		n, ok := constInt(e.Args[len(e.Args)-1])
		return ok && n == 0
	}
	switch e.Name {
	case "os.OpenFile":
		n, ok := constInt(e.Args[1])
		return ok && n&int64(os.O_TRUNC) != 0
	case "os.Create", "os.Remove":
		return true
	case "os.Truncate":
		n, ok := constInt(e.Args[1])
		return ok && n == 0
	}
	return false
}

// reopens: the event opens a file for an index, and creates it if it's gone.
func reopens(e *Event, gone bool) bool {
	if e.Name == "os.Create" {
		return true
	}
	n, ok := constInt(e.Args[1])
	return ok && n&int64(os.O_RDWR) != 0 && n&int64(os.O_APPEND|os.O_EXCL) == 0 && (!gone || n&int64(os.O_CREATE) != 0)
}

// gives: the file that one event opens is an argument of the other.
func gives(from, to *Event) bool {
	for _, a := range to.Args {
		if len(from.Res) > 0 && unwrap(a).Key() == unwrap(from.Res[0]).Key() {
			return true
		}
	}
	return false
}

// indexPath: the name is that of the file that the event has opened.
func (c *Ctx) indexPath(q *Path, first *Event, name Val) bool {
	for _, a := range first.Args {
		if same(a, name) {
			return true
		}
	}
	for _, e := range q.Ev {
		if e == first {
			break
		}
		if e.Kind == "call" && e.Name == "os.OpenFile" && gives(e, first) && same(e.Args[0], name) {
			return true
		}
	}
	return false
}

// recovers: OpenMaybeRecover recovers a delta file iff it's damaged.
func (c *Ctx) recovers() {
	p := c.proto(deltaSpec)
	ft := c.impl("domain", "DeltaStorageFactory")
	if p == nil || ft == nil {
		return
	}
	L, end, ok := p.offsets()
	fn := c.meth(ft, "OpenMaybeRecover")
	if !ok || fn == nil {
		return
	}
	in := NewInterp(c.w, Config{})
	file := in.namedSym("file", types.NewInterfaceType(nil, nil))
	size := in.sizeOf(in.NewState(), file)
	n, kept := 0, 0
	for _, q := range c.run(in, fn, in.args(fn, "", argFor{ioParam, file}), nil, nil) {
		empty := q.St.decide(eqInt(size, Int(0)))
		short := q.St.decide(le0(sub(size, Int(end-1))))
		lock := q.St.decide(eqInt(app("in", file, Int(L)), Int(0)))
		must := short == 1 && empty == -1 || short == -1 && lock == -1
		mustNot := empty == 1 || short == -1 && lock == 1
		copied, cut := false, false
		var from Val
		for i, e := range q.Ev {
			if e.Obj == nil || e.Obj.Key() != file.Key() {
				continue
			}
			switch e.Kind {
			case "truncate":
				c.obPath(must, "untouched", q, e.Pos, fn.Name()+" truncate", "a delta file that isn't known to be damaged is cut")
				cut = cut || from != nil && q.St.decide(eqInt(e.Args[0], q.In.sizeOf(q.St, from))) == 1
			case "write":
				at, ok1 := constInt(e.At)
				k, ok2 := constInt(e.Seq.length())
				mark := ok1 && ok2 && k == 1 && at == L
				if !mark && !must && empty != 1 {
					c.obPath(false, "untouched", q, e.Pos, fn.Name()+" write", "a delta file that isn't known to be damaged is written to")
				}
				if f := copyOf(q.Ev[:i], e); f != nil && ok1 && at == 0 {
					copied = copied || q.St.decide(eqInt(e.Seq.length(), q.In.sizeOf(q.St, f))) == 1
					from = f
				}
			}
		}
		if mustNot {
			kept++
			c.obPath(true, "untouched", q, fn.Pos(), fn.Name(), "")
		}
		if !q.OK() {
			continue
		}
		n++
		c.obPath(must || mustNot, "recovered", q, fn.Pos(), fn.Name()+" known", "a delta file is opened without finding out whether it's damaged")
		if must {
			c.obPath(copied && cut, "recovered", q, fn.Pos(), fn.Name(), "a damaged delta file isn't replaced by the recovered data")
		}
	}
	c.count("successful paths of OpenMaybeRecover", n, 2)
	c.count("files that aren't damaged", kept, 2)
}

// copyOf is the stream that a write copies: all of what's been read from it.
func copyOf(evs []*Event, e *Event) Val {
	if len(e.Seq.Segs) != 1 {
		return nil
	}
	for _, r := range evs {
		if r.Kind == "read" && r.Obj != nil && r.Obj.Key() != e.Obj.Key() && len(r.Seq.Segs) == 1 && r.Seq.Segs[0].Key() == e.Seq.Segs[0].Key() {
			return r.Obj
		}
	}
	return nil
}
