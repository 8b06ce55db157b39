package main

// Models of the functions of other packages and of the two helpers of the
// module (helpers.SkipReading, helpers.WriteZeros, helpers.FileBuffer) whose
// contracts are verified on their own.

import (
	"go/types"
	"strconv"
	"strings"
)

func unwrap(v Val) Val {
	if i, ok := v.(*Iface); ok {
		return unwrap(i.V)
	}
	return v
}

// ---- streams

func (in *Interp) posOf(st *State, s Val) Val {
	k := "#pos:" + s.Key()
	if v, ok := st.heap[k]; ok {
		return v
	}
	var v Val
	if p, ok := s.(*Ptr); ok && p.O.Kind == "alloc" {
		v = Int(0)
	} else if l, ok := in.lazies[k]; ok {
		v = l
	} else {
		v = &Sym{0, "pos(" + s.Key() + ")", tUint64, "pos(" + s.Key() + ")"}
		in.lazies[k] = v
	}
	st.heap[k] = v
	return v
}
func (in *Interp) sizeOf(st *State, s Val) Val {
	k := "#size:" + s.Key()
	if v, ok := st.heap[k]; ok {
		return v
	}
	var v Val
	if p, ok := s.(*Ptr); ok && p.O.Kind == "alloc" {
		v = Int(0)
	} else if l, ok := in.lazies[k]; ok {
		v = l
	} else {
		v = &Sym{0, "size(" + s.Key() + ")", tUint64, "size(" + s.Key() + ")"}
		in.lazies[k] = v
	}
	st.heap[k] = v
	return v
}

func namedType(v Val) string {
	var t types.Type
	switch x := v.(type) {
	case *Sym:
		t = x.T
	case *App:
		t = x.T
	case *Ptr:
		if x.Path == "" && x.O.T != nil {
			return "*" + types.TypeString(x.O.T, nil)
		}
	}
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

// memory returns what a bytes.Buffer or bytes.Reader made here still holds, and
// where it's kept.
func (in *Interp) memory(st *State, s Val) (*Seq, string) {
	p, ok := s.(*Ptr)
	if !ok || p.O.Kind != "alloc" || p.Path != "" {
		return nil, ""
	}
	k := p.loc() + "#mem"
	if q, ok := st.heap[k].(*Seq); ok {
		return q, k
	}
	if namedType(p) == "*bytes.Buffer" {
		return mkSeq(), k
	}
	return nil, ""
}
func unknownSeq(in *Interp) *Seq {
	return mkSeq(Seg{Kind: "unk", Len: in.fresh("size", tUint64), V: in.fresh("memory", nil)})
}

// buffer models the methods that bytes.Buffer and bytes.Reader have besides
// those of streams.
func (ci *callInfo) buffer() ([]outcome, bool) {
	in, st := ci.f.in, ci.st
	recv, m, ok := strings.Cut(ci.name, ").")
	if !ok || recv != "(*bytes.Buffer" && recv != "(*bytes.Reader" {
		return nil, false
	}
	mem, k := in.memory(st, unwrap(ci.recv))
	if mem == nil {
		return nil, false
	}
	switch m {
	case "Bytes":
		ci.direct(unwrap(ci.recv), "read")
		o := in.newObj("arr", "bytes", nil, nil)
		st.heap[mkPtr(o, "").loc()+"#seq"] = mem
		return one(st, mkSlice(mkPtr(o, ""), Int(0), mem.length(), mem.length())), true
	case "Len":
		return one(st, mem.length()), true
	case "Reset":
		st.heap[k] = mkSeq()
		return one(st), true
	case "Truncate":
		if n, ok := constInt(ci.args[0]); ok && n == 0 {
			st.heap[k] = mkSeq()
		} else {
			st.heap[k] = st.window(mem, Int(0), ci.args[0])
		}
		return one(st), true
	case "Grow":
		return one(st), true
	case "Next":
		q, _ := ci.readSeq(ci.recv, ci.args[0], "full")
		o := in.newObj("arr", "bytes", nil, nil)
		st.heap[mkPtr(o, "").loc()+"#seq"] = q
		return one(st, mkSlice(mkPtr(o, ""), Int(0), ci.args[0], ci.args[0])), true
	case "WriteTo":
		n := mem.length()
		st.heap[k] = mkSeq()
		return one(st, n, ci.writeSeq(ci.args[0], mem)), true
	}
	return nil, false
}

// writerOf resolves a writer: the stream and the buffered writer, if any.
func (in *Interp) writerOf(st *State, w Val) (stream, bw Val) {
	w = unwrap(w)
	if u, ok := st.heap["#bw:"+w.Key()]; ok {
		return u, w
	}
	if namedType(w) == "*bufio.Writer" {
		return app("under", w), w
	}
	return w, nil
}
func (in *Interp) readerOf(st *State, r Val) (stream, br Val) {
	r = unwrap(r)
	if u, ok := st.heap["#br:"+r.Key()]; ok {
		return u, r
	}
	if namedType(r) == "*bufio.Reader" {
		return app("under", r), r
	}
	return r, nil
}

// direct records that the file is used directly while there are unflushed data
func (ci *callInfo) direct(s Val, op string) {
	if n, ok := ci.st.heap["#dirty:"+s.Key()]; ok {
		if z, ok := constInt(n); !ok || z != 0 {
			ci.st.emit(&Event{Kind: "anomaly", Name: "unflushed", Sub: op, Pos: ci.pos, Fn: ci.f.fn, Obj: s})
		}
	}
}

func (ci *callInfo) errSym(op string) Val { return ci.f.in.fresh(op+".err", tError) }

func (ci *callInfo) writeSeq(w Val, q *Seq) Val {
	in, st := ci.f.in, ci.st
	s, bw := in.writerOf(st, w)
	if mem, k := in.memory(st, s); mem != nil {
		if bw != nil {
			st.heap["#dirty:"+s.Key()] = Int(1)
			st.heap["#dirtyby:"+s.Key()] = bw
		}
		st.heap[k] = concatSeq(mem, q)
		return Nil
	}
	at := in.posOf(st, s)
	ev := &Event{Kind: "write", Name: ci.name, Pos: ci.pos, Fn: ci.f.fn, Obj: s, At: at, Seq: q}
	ev.Err = ci.errSym("write")
	if bw != nil {
		ev.Sub = "buffered"
		ev.Args = []Val{bw}
		if other, ok := st.heap["#dirtyby:"+s.Key()]; ok && other.Key() != bw.Key() {
			ci.direct(s, "write")
		}
		st.heap["#dirty:"+s.Key()] = Int(1)
		st.heap["#dirtyby:"+s.Key()] = bw
	} else {
		ci.direct(s, "write")
	}
	st.emit(ev)
	n := q.length()
	st.heap["#pos:"+s.Key()] = add(at, n)
	in.grow(st, s, add(at, n))
	return ev.Err
}

// grow updates the size of the stream after a write ending at the position.
func (in *Interp) grow(st *State, s, end Val) {
	sz := in.sizeOf(st, s)
	if st.decide(le0(sub(end, sz))) == 1 {
		return
	}
	if st.decide(le0(sub(sz, end))) == 1 {
		st.heap["#size:"+s.Key()] = end
		return
	}
	st.heap["#size:"+s.Key()] = appT(tUint64, "max", sz, end)
}

// readSeq reads n bytes from the stream. full: exactly n bytes or an error.
func (ci *callInfo) readSeq(r Val, n Val, sub string) (*Seq, Val) {
	in, st := ci.f.in, ci.st
	s, br := in.readerOf(st, r)
	if mem, k := in.memory(st, s); mem != nil {
		size := mem.length()
		if sub != "some" && sub != "toEOF" && br == nil && st.decide(le0(sub2(n, size))) == 1 {
			st.heap[k] = st.window(mem, n, sub2(size, n))
			return st.window(mem, Int(0), n), Nil
		}
		if sub == "toEOF" && br == nil && n == size {
			st.heap[k] = mkSeq()
			return mem, Nil
		}
		st.heap[k] = unknownSeq(in)
		return mkSeq(Seg{Kind: "unk", Len: n, V: in.fresh("memory", nil)}), ci.errSym("read")
	}
	var at Val
	if br != nil {
		k := "#rdpos:" + br.Key()
		v, ok := st.heap[k]
		if !ok {
			v = in.posOf(st, s)
			ci.direct(s, "read")
		} else if tail, ok := st.heap["#rdtail:"+br.Key()]; ok && tail.Key() != in.posOf(st, s).Key() {
			st.emit(&Event{Kind: "anomaly", Name: "readahead", Sub: "the file position was changed under a buffered reader", Pos: ci.pos, Fn: ci.f.fn, Obj: s})
		}
		at = v
	} else {
		at = in.posOf(st, s)
		ci.direct(s, "read")
	}
	q := mkSeq(Seg{Kind: "in", Len: n, V: in.version(st, s, at, n), Off: at, W: 1})
	ev := &Event{Kind: "read", Name: ci.name, Pos: ci.pos, Fn: ci.f.fn, Obj: s, At: at, Seq: q, Sub: sub}
	ev.Err = ci.errSym("read")
	if br != nil {
		ev.Args = []Val{br}
	}
	st.emit(ev)
	end := add(at, n)
	if br != nil {
		st.heap["#rdpos:"+br.Key()] = end
		if _, ok := st.heap["#rdtail:"+br.Key()]; !ok {
			readAhead(st, s, br, at)
		}
	} else {
		st.heap["#pos:"+s.Key()] = end
	}
	return q, ev.Err
}

// readAhead: the reader has read a part of the stream that follows at.
func readAhead(st *State, s, br, at Val) {
	tail := &Sym{0, "readahead(" + br.Key() + ")", tUint64, "readahead(" + br.Key() + "@" + at.Key() + ")"}
	st.heap["#rdtail:"+br.Key()] = tail
	st.heap["#pos:"+s.Key()] = tail
}

// version names the contents of a range of the stream: those the stream had in
// the beginning unless the range may have been written since.
func (in *Interp) version(st *State, s, at, n Val) Val {
	evs := st.events()
	for i := len(evs) - 1; i >= 0; i-- {
		e := evs[i]
		hit := false
		over := func(e *Event, st *State) {
			if e.Obj == nil || e.Obj.Key() != s.Key() {
				return
			}
			switch e.Kind {
			case "write":
				end := add(e.At, e.Seq.length())
				if st.decide(le0(sub(end, at))) == 1 || st.decide(le0(sub(add(at, n), e.At))) == 1 {
					return
				}
				hit = true
			case "truncate":
				if st.decide(le0(sub(add(at, n), e.Args[0]))) == 1 {
					return
				}
				hit = true
			}
		}
		if e.Loop != nil {
			walk([]*Event{e}, nil, func(x *Event, up []*IterPath) {
				y := st
				if len(up) > 0 && up[len(up)-1].End != nil {
					y = up[len(up)-1].End
				}
				over(x, y)
			})
		} else {
			over(e, st)
		}
		if hit {
			return app("after", s, Int(int64(i+1)))
		}
	}
	return s
}

// stream models the methods of files and streams.
func (ci *callInfo) stream(method string) ([]outcome, bool) {
	in, st := ci.f.in, ci.st
	s := unwrap(ci.recv)
	if mem, _ := in.memory(st, s); mem != nil && method != "Write" && method != "WriteString" && method != "WriteByte" && method != "ReadByte" && method != "Read" {
		return nil, false
	}
	switch method {
	case "Write":
		if len(ci.args) != 1 {
			return nil, false
		}
		q, n := in.seqOf(st, ci.args[0])
		err := ci.writeSeq(s, q)
		return one(st, n, err), true
	case "WriteString":
		q, n := in.seqOf(st, ci.args[0])
		err := ci.writeSeq(s, q)
		return one(st, n, err), true
	case "WriteByte":
		err := ci.writeSeq(s, mkSeq(Seg{Kind: "val", Len: Int(1), V: ci.args[0]}))
		return one(st, err), true
	case "ReadByte":
		q, err := ci.readSeq(s, Int(1), "full")
		return one(st, st.seqElem(q, Int(0), types.Typ[types.Uint8]), err), true
	case "Read":
		if len(ci.args) != 1 {
			return nil, false
		}
		sl := in.toSlice(ci.args[0])
		if sl == nil {
			return one(st, Int(0), ci.errSym("read")), true
		}
		n := sl.Len
		if c, ok := constInt(n); !ok || c != 1 {
			nn := in.fresh("nread", tInt)
			st.addFact(le0(mulc(nn, -1)), true)
			st.addFact(le0(sub(nn, sl.Len)), true)
			n = nn
		}
		q, err := ci.readSeq(s, n, "some")
		st.tr.e.Out = []Val{sl.Len}
		in.setWindow(st, sl, q, n)
		return one(st, n, err), true
	case "Seek":
		if len(ci.args) != 2 {
			return nil, false
		}
		ci.direct(s, "seek")
		off, wh := ci.args[0], ci.args[1]
		var np Val
		w, ok := constInt(wh)
		switch {
		case ok && w == 0:
			np = off
		case ok && w == 1:
			np = add(in.posOf(st, s), off)
		case ok && w == 2:
			np = add(in.sizeOf(st, s), off)
		default:
			np = in.fresh("seekpos", tUint64)
		}
		ev := &Event{Kind: "seek", Name: ci.name, Pos: ci.pos, Fn: ci.f.fn, Obj: s, Args: []Val{off, wh}, Res: []Val{np}, At: in.posOf(st, s)}
		ev.Err = ci.errSym("seek")
		st.emit(ev)
		st.heap["#pos:"+s.Key()] = np
		return one(st, np, ev.Err), true
	case "Close":
		if len(ci.args) != 0 {
			return nil, false
		}
		ci.direct(s, "close")
		ev := &Event{Kind: "close", Sub: "file", Name: ci.name, Pos: ci.pos, Fn: ci.f.fn, Obj: s}
		ev.Err = ci.errSym("close")
		st.emit(ev)
		return one(st, ev.Err), true
	case "Truncate":
		if len(ci.args) != 1 {
			return nil, false
		}
		ci.direct(s, "truncate")
		ev := &Event{Kind: "truncate", Name: ci.name, Pos: ci.pos, Fn: ci.f.fn, Obj: s, Args: ci.args}
		ev.Err = ci.errSym("truncate")
		st.emit(ev)
		st.heap["#size:"+s.Key()] = ci.args[0]
		return one(st, ev.Err), true
	case "Sync":
		ev := &Event{Kind: "sync", Name: ci.name, Pos: ci.pos, Fn: ci.f.fn, Obj: s}
		ev.Err = ci.errSym("sync")
		st.emit(ev)
		return one(st, ev.Err), true
	case "WriteAt":
		q, n := in.seqOf(st, ci.args[0])
		ci.direct(s, "write")
		ev := &Event{Kind: "write", Name: ci.name, Pos: ci.pos, Fn: ci.f.fn, Obj: s, At: ci.args[1], Seq: q}
		ev.Err = ci.errSym("write")
		st.emit(ev)
		in.grow(st, s, add(ci.args[1], n))
		return one(st, n, ev.Err), true
	case "ReadAt":
		sl := in.toSlice(ci.args[0])
		if sl == nil {
			return nil, false
		}
		ci.direct(s, "read")
		q := mkSeq(Seg{Kind: "in", Len: sl.Len, V: in.version(st, s, ci.args[1], sl.Len), Off: ci.args[1], W: 1})
		ev := &Event{Kind: "read", Name: ci.name, Pos: ci.pos, Fn: ci.f.fn, Obj: s, At: ci.args[1], Seq: q, Sub: "full"}
		ev.Err = ci.errSym("read")
		st.emit(ev)
		in.setWindow(st, sl, q, sl.Len)
		return one(st, sl.Len, ev.Err), true
	}
	return nil, false
}

// ---- module functions modelled by their contracts

func (ci *callInfo) moduleModel() ([]outcome, bool) {
	in, st := ci.f.in, ci.st
	n := ci.name
	if strings.HasSuffix(n, "helpers.FileBuffer).Bytes") || strings.HasSuffix(n, "helpers.FileBuffer).Len") {
		return nil, false
	}
	if strings.HasPrefix(n, "(*"+modulePath+"/internal/helpers.FileBuffer).") {
		return ci.stream(n[strings.LastIndexByte(n, '.')+1:])
	}
	switch n {
	case modulePath + "/internal/helpers.WriteZeros":
		return ci.sized(func(c *callInfo, size Val) []Val {
			err := c.writeSeq(c.args[1], mkSeq(Seg{Kind: "zero", Len: size}))
			return []Val{size, err}
		}), true
	case modulePath + "/internal/helpers.SkipReading":
		return ci.sized(func(c *callInfo, size Val) []Val {
			_, err := c.readSeq(c.args[1], size, "skip")
			return []Val{size, err}
		}), true
	}
	_, _ = in, st
	return nil, false
}

// sized: the operation is a no-op if its size isn't positive
func (ci *callInfo) sized(do func(c *callInfo, size Val) []Val) []outcome {
	st := ci.st
	size := ci.args[0]
	c := le0(size)
	var out []outcome
	d := st.decide(c)
	if d != -1 && st.decide(le0(mulc(size, -1))) == 1 {
		// size >= 0: zero-sized operation is the same as the no-op
		return one(st, do(ci, size)...)
	}
	if d != 1 {
		s2 := st.clone()
		if d == 0 {
			s2.addFact(c, false)
		}
		c2 := *ci
		c2.st = s2
		out = append(out, outcome{s2, do(&c2, size), ""})
	}
	if d != -1 {
		s3 := st.clone()
		if d == 0 {
			s3.addFact(c, true)
		}
		s3.emit(&Event{Kind: "noop", Name: ci.name, Pos: ci.pos, Fn: ci.f.fn, Args: []Val{size}})
		out = append(out, outcome{s3, []Val{Int(0), Nil}, ""})
	}
	return out
}

// ---- functions of other packages

var purePkgs = map[string]bool{"strings": true, "strconv": true, "path": true, "path/filepath": true,
	"unicode": true, "math": true, "math/bits": true, "unicode/utf8": true}
var pureFns = map[string]bool{"os.Getenv": true, "regexp.MustCompile": true, "(*regexp.Regexp).MatchString": true,
	"regexp.MatchString": true, "(time.Duration).String": true, "(context.Context).Done": true, "(context.Context).Err": false,
	"os.IsNotExist": true, "(reflect.Value).Len": true, "errors.Unwrap": true, "(*os.File).Name": true, "bytes.NewReader": true,
	"net.JoinHostPort": true, "fmt.Sprintf": true, "fmt.Sprint": true, "(time.Time).Add": true, "os.Getpid": true, "os.LookupEnv": true}

// functions that don't write through the pointers they're given
var readOnlyPkgs = map[string]bool{"fmt": true, "log": true, "errors": true, "strings": true, "strconv": true, "os": true,
	"time": true, "context": true, "encoding/json.Marshal": true}

// textOf is the string put together by functions that concatenate strings. The
// directory that a path is joined to is assumed to be empty or to end with a
// slash, so that joining is concatenating; that's checked for the directory the
// module uses.
func (ci *callInfo) textOf() Val {
	in, st := ci.f.in, ci.st
	args := ci.args
	if len(args) == 0 {
		return nil
	}
	var vs []Val
	list := func(v Val) bool {
		q, n := in.seqOf(st, v)
		k, ok := constInt(n)
		sl := in.toSlice(v)
		if !ok || k > 64 || q == nil || sl == nil && k > 0 {
			return ok && k == 0
		}
		for i := int64(0); i < k; i++ {
			t := types.Type(nil)
			if s, ok := ci.sig.Params().At(ci.sig.Params().Len() - 1).Type().Underlying().(*types.Slice); ok {
				t = s.Elem()
			}
			vs = append(vs, st.load(elemPtr(sl.Base, add(sl.Off, Int(i))), t))
		}
		return true
	}
	text := func(v Val) Val {
		if i, ok := v.(*Iface); ok {
			if b, basic := types.Unalias(i.Dyn).(*types.Basic); basic && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0 {
				return decimal(i.V)
			}
			if _, named := types.Unalias(i.Dyn).(*types.Named); named || !isString(i.Dyn) {
				return nil
			}
			v = i.V
		}
		if s, ok := constStr(v); ok {
			return Str(s)
		}
		if isStringVal(v) {
			return v
		}
		return nil
	}
	switch ci.name {
	case "path/filepath.Join", "path.Join":
		if !list(args[0]) || len(vs) == 0 {
			return nil
		}
		var out []Val
		for i, v := range vs {
			if i > 1 {
				out = append(out, Str("/"))
			}
			out = append(out, text(v))
		}
		return concatAll(out)
	case "strings.Join":
		if !list(args[0]) {
			return nil
		}
		var out []Val
		for i, v := range vs {
			if i > 0 {
				out = append(out, args[1])
			}
			out = append(out, text(v))
		}
		return concatAll(out)
	case "fmt.Sprint":
		// spaces are added between operands when neither is a string
		if !list(args[0]) {
			return nil
		}
		for i := range vs {
			vs[i] = text(vs[i])
		}
		return concatAll(vs)
	}
	format, ok := constStr(args[0])
	if !ok || !list(args[1]) {
		return nil
	}
	var out []Val
	for {
		i := strings.IndexByte(format, '%')
		if i < 0 {
			out = append(out, Str(format))
			break
		}
		out = append(out, Str(format[:i]))
		if i+1 == len(format) {
			return nil
		}
		switch format[i+1] {
		case '%':
			out = append(out, Str("%"))
		case 's', 'v':
			if len(vs) == 0 {
				return nil
			}
			out = append(out, text(vs[0]))
			vs = vs[1:]
		case 'd':
			if len(vs) == 0 {
				return nil
			}
			i, ok := vs[0].(*Iface)
			if !ok {
				return nil
			}
			if _, basic := types.Unalias(i.Dyn).(*types.Basic); !basic || isString(i.Dyn) {
				return nil
			}
			out = append(out, text(vs[0]))
			vs = vs[1:]
		default:
			return nil
		}
		format = format[i+2:]
	}
	if len(vs) > 0 {
		return nil
	}
	return concatAll(out)
}

// decimal is the text of an integer.
func decimal(v Val) Val {
	return appT(types.Typ[types.String], "fn:strconv.Itoa", v)
}

func concatAll(vs []Val) Val {
	for _, v := range vs {
		if v == nil {
			return nil
		}
	}
	return concatStr(vs...)
}

func pkgOfName(name string) string {
	n := strings.TrimLeft(name, "(*")
	i := strings.LastIndexByte(n, '/')
	j := strings.IndexByte(n[i+1:], '.')
	if j < 0 {
		return n
	}
	return n[:i+1+j]
}

func (ci *callInfo) external() []outcome {
	in, st := ci.f.in, ci.st
	name := ci.name
	pkg := pkgOfName(name)
	args := ci.args
	switch name {
	case "encoding/binary.Write":
		if b := ci.undecidedFlag(args[2]); b != nil {
			yes, no := *ci, *ci
			yes.st, no.st = st, st.clone()
			yes.st.addFact(b, true)
			no.st.addFact(b, false)
			return append(yes.external(), no.external()...)
		}
		q := ci.encode(args[2], bigEndian(args[1]))
		return one(st, ci.writeSeq(args[0], q))
	case "encoding/binary.Read":
		return ci.binaryRead()
	case "fmt.Sprintf", "fmt.Sprint", "path/filepath.Join", "path.Join", "strings.Join":
		if v := ci.textOf(); v != nil {
			return one(st, v)
		}
	case "strconv.FormatInt":
		if b, ok := constInt(args[1]); ok && b == 10 {
			return one(st, decimal(args[0]))
		}
	case "os.LookupEnv":
		// what Getenv returns, if the variable is set
		st.emit(&Event{Kind: "env", Name: name, Pos: ci.pos, Fn: ci.f.fn, Args: args})
		v := appT(types.Typ[types.String], "fn:os.Getenv", args[0])
		unset := st.clone()
		var out []outcome
		if assume(unset, []Fact{{strEq(v, Str("")), true}}, nil) {
			out = append(out, outcome{unset, []Val{Str(""), False}, ""})
		}
		return append(out, outcome{st, []Val{v, True}, ""})
	case "sort.Search":
		if f, ok := args[1].(*Closure); ok {
			return ci.search(args[0], f)
		}
	case "encoding/binary.Size":
		if i, ok := args[0].(*Iface); ok {
			if n := binSize(i.Dyn); n >= 0 {
				return one(st, Int(int64(n)))
			}
		}
	case "io.ReadFull":
		sl := in.toSlice(args[1])
		if sl == nil {
			return one(st, Int(0), Nil)
		}
		q, err := ci.readSeq(args[0], sl.Len, "full")
		in.setWindow(st, sl, q, sl.Len)
		return one(st, sl.Len, err)
	case "io.ReadAtLeast":
		sl := in.toSlice(args[1])
		if sl != nil && sl.Len.Key() == args[2].Key() {
			q, err := ci.readSeq(args[0], sl.Len, "full")
			in.setWindow(st, sl, q, sl.Len)
			return one(st, sl.Len, err)
		}
	case "io.WriteString":
		q, n := in.seqOf(st, args[1])
		return one(st, n, ci.writeSeq(args[0], q))
	case "io.Copy", "io.CopyN", "io.CopyBuffer":
		return ci.ioCopy(name)
	case "io.ReadAll":
		n := in.fresh("readall", tUint64)
		q, err := ci.readSeq(args[0], n, "toEOF")
		o := in.newObj("arr", "readall", nil, nil)
		st.heap[mkPtr(o, "").loc()+"#seq"] = q
		return one(st, mkSlice(mkPtr(o, ""), Int(0), n, n), err)
	case "bytes.NewReader", "bytes.NewBuffer":
		o := in.newObj("alloc", "bytes", nil, nil)
		p := mkPtr(o, "")
		q, _ := in.seqOf(st, args[0])
		st.heap[p.loc()+"#mem"] = q
		return one(st, p)
	case "bufio.NewWriter", "bufio.NewWriterSize":
		o := in.newObj("alloc", "bufio.Writer", nil, nil)
		p := mkPtr(o, "")
		s, _ := in.writerOf(st, args[0])
		st.heap["#bw:"+p.Key()] = s
		st.emit(&Event{Kind: "newwriter", Pos: ci.pos, Fn: ci.f.fn, Obj: s, Res: []Val{p}})
		return one(st, p)
	case "bufio.NewReader", "bufio.NewReaderSize":
		o := in.newObj("alloc", "bufio.Reader", nil, nil)
		p := mkPtr(o, "")
		s, _ := in.readerOf(st, args[0])
		st.heap["#br:"+p.Key()] = s
		st.emit(&Event{Kind: "newreader", Pos: ci.pos, Fn: ci.f.fn, Obj: s, Res: []Val{p}})
		return one(st, p)
	case "(*bufio.Writer).Flush":
		s, bw := in.writerOf(st, ci.recv)
		ev := &Event{Kind: "flush", Name: name, Pos: ci.pos, Fn: ci.f.fn, Obj: s, Args: []Val{bw}}
		ev.Err = ci.errSym("flush")
		st.emit(ev)
		if by, ok := st.heap["#dirtyby:"+s.Key()]; ok && bw != nil && by.Key() == bw.Key() {
			st.heap["#dirty:"+s.Key()] = Int(0)
			delete(st.heap, "#dirtyby:"+s.Key())
		}
		return one(st, ev.Err)
	case "(*bufio.Reader).Reset":
		s, _ := in.readerOf(st, args[0])
		k := ci.recv.Key()
		st.heap["#br:"+k] = s
		delete(st.heap, "#rdpos:"+k)
		delete(st.heap, "#rdtail:"+k)
		st.heap["#rdpos:"+k] = in.posOf(st, s)
		tail := &Sym{0, "readahead(" + k + ")", tUint64, "readahead(" + k + "@" + in.posOf(st, s).Key() + ")"}
		_ = tail
		st.emit(&Event{Kind: "reset", Pos: ci.pos, Fn: ci.f.fn, Obj: s, Args: []Val{ci.recv}, At: in.posOf(st, s)})
		delete(st.heap, "#rdpos:"+k)
		return one(st)
	case "(*bufio.Reader).Discard":
		_, err := ci.readSeq(ci.recv, args[0], "skip")
		return one(st, args[0], err)
	case "fmt.Errorf":
		return one(st, ci.errorf())
	case "errors.New":
		in.nextID++
		return one(st, app("newerr", args[0], Int(int64(in.nextID))))
	case "errors.Is":
		return ci.errorsIs(args[0], args[1])
	case "errors.As":
		return ci.errorsAs()
	case "reflect.DeepEqual", "bytes.Equal", "slices.Equal":
		a, na := in.seqOf(st, unwrap(args[0]))
		b, nb := in.seqOf(st, unwrap(args[1]))
		_, _ = na, nb
		return one(st, seqEq(a, b))
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "runtime.Goexit", "syscall.Exit":
		ci.event("exit")
		return []outcome{{st, nil, "exit"}}
	case "log.Panic", "log.Panicf", "log.Panicln":
		ci.event("panic")
		return []outcome{{st, nil, "panic"}}
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(sync.Locker).Lock", "(sync.Locker).Unlock":
		st.emit(&Event{Kind: strings.ToLower(name[strings.LastIndexByte(name, '.')+1:]), Pos: ci.pos, Fn: ci.f.fn, Obj: ci.recv, Sub: ci.kind})
		return one(st)
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		ci.event("call")
		return one(st, in.fresh("trylock", tBool))
	case "(*sync.Once).Do":
		st.emit(&Event{Kind: "once", Pos: ci.pos, Fn: ci.f.fn, Obj: ci.recv, Args: args})
		if c, ok := args[0].(*Closure); ok {
			var outs []outcome
			for _, o := range ci.f.callStatic(st, c.Fn, nil, c.Binds, ci.pos, "") {
				if o.end == "" {
					o.st.emit(&Event{Kind: "onceend", Pos: ci.pos, Fn: ci.f.fn, Obj: ci.recv})
					o.rets = nil
				}
				outs = append(outs, o)
			}
			return outs
		}
		return one(st)
	case "context.WithCancel", "context.WithTimeout", "context.WithDeadline":
		outs := ci.opaque("call")
		for i := range outs[0].rets {
			v := outs[0].rets[i].(*Sym)
			nn := &Sym{v.ID, "!" + v.Name, v.T, "!" + v.k}
			outs[0].rets[i] = nn
		}
		return outs
	}
	if strings.HasPrefix(name, "(encoding/binary.bigEndian).") || strings.HasPrefix(name, "(encoding/binary.littleEndian).") {
		if o, ok := ci.endian(); ok {
			return o
		}
	}
	if strings.HasPrefix(name, "(*os.File).") || strings.HasPrefix(name, "(*bufio.Writer).") || strings.HasPrefix(name, "(*bufio.Reader).") ||
		strings.HasPrefix(name, "(*bytes.Buffer).") || strings.HasPrefix(name, "(*bytes.Reader).") ||
		strings.HasPrefix(name, "(io.") {
		if o, ok := ci.buffer(); ok {
			return o
		}
		if o, ok := ci.stream(name[strings.LastIndexByte(name, '.')+1:]); ok {
			return o
		}
	}
	switch name {
	case "(*github.com/gin-gonic/gin.Context).Param", "(*github.com/gin-gonic/gin.Context).Query", "(*github.com/gin-gonic/gin.Context).GetHeader":
		outs := ci.pure()
		ev := ci.event("call")
		ev.Res = outs[0].rets
		return outs
	case "os.OpenFile", "os.Open", "os.Create":
		outs := ci.opaque("call")
		f := outs[0].rets[0]
		st.heap["#pos:"+f.Key()] = Int(0)
		return outs
	}
	if purePkgs[pkg] || pureFns[name] {
		if name == "os.Getenv" {
			st.emit(&Event{Kind: "env", Name: name, Pos: ci.pos, Fn: ci.f.fn, Args: args})
		}
		return ci.pure()
	}
	if m := strings.TrimPrefix(name, ginCtx); m != name && !strings.Contains(m, "Bind") {
		// only binding writes to what it's given
		return ci.opaque("call")
	}
	// unknown function: variables it's given pointers to may be changed
	in.unknown[name] = true
	outs := ci.opaque("call")
	if !readOnlyPkgs[pkg] && !readOnlyPkgs[name] {
		for _, a := range ci.expandArgs() {
			v := unwrap(a)
			if p, ok := v.(*Ptr); ok && (p.O.Kind == "alloc" || p.O.Kind == "sym") {
				t := in.ptrElemType(a, p)
				if t != nil {
					in.havocPtr(st, p, t, shortName(name))
					if e := st.tr.e; e != nil && e.Name == name {
						e.Out = append(e.Out, st.load(p, t))
					}
				}
			}
		}
	}
	return outs
}

func (in *Interp) ptrElemType(a Val, p *Ptr) types.Type {
	if i, ok := a.(*Iface); ok {
		if pt, ok := i.Dyn.Underlying().(*types.Pointer); ok {
			return pt.Elem()
		}
		return nil
	}
	if p.Path == "" && p.O.Kind == "alloc" {
		return p.O.T
	}
	return nil
}

// pure functions: the result is a function of the arguments.
func (ci *callInfo) pure() []outcome {
	var rets []Val
	args := ci.expandArgs()
	if ci.recv != nil {
		args = append([]Val{ci.recv}, args...)
	}
	for i, a := range args {
		args[i] = unwrapPure(a)
	}
	n := ci.sig.Results().Len()
	for i := 0; i < n; i++ {
		op := "fn:" + ci.name
		if i > 0 {
			op = "fn" + string(rune('0'+i)) + ":" + ci.name
		}
		rets = append(rets, appT(ci.sig.Results().At(i).Type(), op, args...))
	}
	return one(ci.st, rets...)
}

func unwrapPure(a Val) Val {
	if i, ok := a.(*Iface); ok {
		return i.V
	}
	return a
}

func seqEq(a, b *Seq) Val {
	fa, fb := mkSeq(flattenBytes(a)...), mkSeq(flattenBytes(b)...)
	if fa.Key() == fb.Key() {
		return True
	}
	if la, ok := constInt(fa.length()); ok {
		if lb, ok := constInt(fb.length()); ok && la != lb {
			return False
		}
	}
	if fa.Key() > fb.Key() {
		fa, fb = fb, fa
	}
	return app("seqeq", fa, fb)
}

func bigEndian(order Val) string {
	n := ""
	if i, ok := order.(*Iface); ok {
		n = i.Dyn.String()
	} else if s, ok := order.(*Sym); ok {
		n = s.Name
		if s.T != nil {
			n += s.T.String()
		}
	}
	switch {
	case strings.Contains(n, "bigEndian") || strings.Contains(n, "BigEndian"):
		return "be"
	case strings.Contains(n, "littleEndian") || strings.Contains(n, "LittleEndian"):
		return "le"
	}
	return "??"
}

// encode returns the bytes encoding/binary writes for the data.
func (ci *callInfo) encode(data Val, order string) *Seq {
	i, ok := data.(*Iface)
	if !ok {
		return mkSeq(Seg{Kind: "unk", Len: ci.f.in.fresh("size", tUint), V: data})
	}
	return ci.encodeT(i.V, i.Dyn, order)
}

// undecidedFlag is a boolean among the data to encode whose value isn't known.
func (ci *callInfo) undecidedFlag(data Val) Val {
	i, ok := data.(*Iface)
	if !ok {
		return nil
	}
	v, t := i.V, i.Dyn
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		p := ci.f.in.deref(v)
		if p == nil {
			return nil
		}
		t = pt.Elem()
		if !isBoolean(t) {
			return nil
		}
		v = ci.st.load(p, t)
	}
	if u, ok := t.Underlying().(*types.Struct); ok {
		for j := 0; j < u.NumFields(); j++ {
			if ft := u.Field(j).Type(); isBoolean(ft) {
				if b := fieldOf(v, j, t, ft); ci.st.decide(b) == 0 {
					return b
				}
			}
		}
		return nil
	}
	if isBoolean(t) && ci.st.decide(v) == 0 {
		return v
	}
	return nil
}

func (ci *callInfo) encodeT(v Val, t types.Type, order string) *Seq {
	in, st := ci.f.in, ci.st
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p := in.deref(v)
		if p != nil {
			return ci.encodeT(st.load(p, u.Elem()), u.Elem(), order)
		}
	case *types.Basic:
		w := binSize(t)
		if isBoolean(t) {
			switch st.decide(v) {
			case 1:
				v = Int(1)
			case -1:
				v = Int(0)
			}
		}
		if w > 0 {
			k := order
			if w == 1 {
				k = "be"
			}
			return mkSeq(Seg{Kind: k, Len: Int(int64(w)), V: v, W: w})
		}
	case *types.Struct:
		q := mkSeq()
		for j := 0; j < u.NumFields(); j++ {
			q = concatSeq(q, ci.encodeT(fieldOf(v, j, t, u.Field(j).Type()), u.Field(j).Type(), order))
		}
		return q
	case *types.Array:
		if sq, ok := v.(*Seq); ok {
			return encodeElems(sq, Int(u.Len()), binSize(u.Elem()), order)
		}
	case *types.Slice:
		sq, n := in.seqOf(st, v)
		return encodeElems(sq, n, binSize(u.Elem()), order)
	}
	return mkSeq(Seg{Kind: "unk", Len: in.fresh("size", tUint), V: v})
}
func encodeElems(sq *Seq, n Val, w int, order string) *Seq {
	if w == 1 {
		return sq
	}
	if w < 0 {
		return mkSeq(Seg{Kind: "unk", Len: n, V: sq})
	}
	// constant number of elements: one by one
	var segs []Seg
	for _, g := range sq.Segs {
		if g.Kind == "val" {
			segs = append(segs, Seg{Kind: order, Len: Int(int64(w)), V: g.V, W: w})
			continue
		}
		if g.Kind == "zero" {
			segs = append(segs, Seg{Kind: "zero", Len: mulc(g.Len, int64(w))})
			continue
		}
		segs = append(segs, Seg{Kind: order, Len: mulc(g.Len, int64(w)), V: mkSeq(g), W: w})
	}
	return mkSeq(segs...)
}

func (ci *callInfo) binaryRead() []outcome {
	in, st := ci.f.in, ci.st
	order := bigEndian(ci.args[1])
	i, ok := ci.args[2].(*Iface)
	if !ok {
		return ci.opaque("call")
	}
	switch u := i.Dyn.Underlying().(type) {
	case *types.Pointer:
		w := binSize(u.Elem())
		p := in.deref(i.V)
		if w < 0 || p == nil {
			break
		}
		q, err := ci.readSeq(ci.args[0], Int(int64(w)), "full")
		v := ci.decodeT(q, 0, u.Elem(), order)
		in.locType[p.loc()] = u.Elem()
		st.store(p, v, u.Elem())
		return one(st, err)
	case *types.Slice:
		w := binSize(u.Elem())
		sl := in.toSlice(i.V)
		if w < 0 {
			break
		}
		if sl == nil {
			_, err := ci.readSeq(ci.args[0], Int(0), "full")
			return one(st, err)
		}
		q, err := ci.readSeq(ci.args[0], mulc(sl.Len, int64(w)), "full")
		var seg Seg
		at := Val(Int(0))
		if len(q.Segs) > 0 {
			at = q.Segs[0].Off
		}
		s, _ := in.readerOf(st, ci.args[0])
		if len(q.Segs) > 0 && q.Segs[0].V != nil {
			s = q.Segs[0].V
		}
		seg = Seg{Kind: "in", Len: sl.Len, V: s, Off: at, W: w}
		if order != "be" && w > 1 {
			seg = Seg{Kind: "unk", Len: sl.Len, V: app("decode:"+order, q)}
		}
		in.setWindow(st, sl, mkSeq(seg), sl.Len)
		return one(st, err)
	}
	in.unknown["encoding/binary.Read of "+i.Dyn.String()] = true
	return ci.opaque("call")
}

func (ci *callInfo) decodeT(q *Seq, off int, t types.Type, order string) Val {
	st := ci.st
	switch u := t.Underlying().(type) {
	case *types.Basic:
		w := binSize(t)
		bs := make([]Val, w)
		for i := range bs {
			j := off + i
			if order == "le" {
				j = off + w - 1 - i
			}
			bs[i] = st.seqElem(q, Int(int64(j)), types.Typ[types.Uint8])
		}
		if order == "??" {
			return app("decode??", q)
		}
		if isBoolean(t) && w == 1 {
			return not(eqInt(bs[0], Int(0)))
		}
		return decode(bs)
	case *types.Struct:
		var fs []Val
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, ci.decodeT(q, off, u.Field(i).Type(), order))
			off += binSize(u.Field(i).Type())
		}
		return mkAgg(t, fs)
	case *types.Array:
		w := binSize(u.Elem())
		if w == 1 {
			return st.window(q, Int(int64(off)), Int(u.Len()))
		}
		var segs []Seg
		for i := int64(0); i < u.Len(); i++ {
			segs = append(segs, Seg{Kind: "val", Len: Int(1), V: ci.decodeT(q, off+int(i)*w, u.Elem(), order)})
		}
		return mkSeq(segs...)
	}
	return app("decode", q)
}

func (ci *callInfo) ioCopy(name string) []outcome {
	in, st := ci.f.in, ci.st
	var n Val
	sub := "toEOF"
	if name == "io.CopyN" {
		n = ci.args[2]
		sub = "full"
	} else {
		src, _ := in.readerOf(st, ci.args[1])
		n = sub2(in.sizeOf(st, src), in.posOf(st, src))
	}
	q, err := ci.readSeq(ci.args[1], n, sub)
	if dst, _ := in.writerOf(st, ci.args[0]); dst != nil && strings.HasSuffix(dst.Key(), "ext:io.Discard") {
		return one(st, n, err) // nothing is written
	}
	werr := ci.writeSeq(ci.args[0], q)
	// one error stands for both
	for node := st.tr; node != nil; node = node.prev {
		if node.e.Kind == "write" && node.e.Err == werr {
			node.e.Err = err
			break
		}
	}
	return one(st, n, err)
}
func sub2(a, b Val) Val { return sub(a, b) }

func (ci *callInfo) endian() ([]outcome, bool) {
	in, st := ci.f.in, ci.st
	order := "be"
	if strings.Contains(ci.name, "littleEndian") {
		order = "le"
	}
	m := ci.name[strings.LastIndexByte(ci.name, '.')+1:]
	w := 0
	switch {
	case strings.HasSuffix(m, "16"):
		w = 2
	case strings.HasSuffix(m, "32"):
		w = 4
	case strings.HasSuffix(m, "64"):
		w = 8
	default:
		return nil, false
	}
	enc := func(v Val) *Seq { return mkSeq(Seg{Kind: order, Len: Int(int64(w)), V: v, W: w}) }
	switch {
	case strings.HasPrefix(m, "PutUint"):
		sl := in.toSlice(ci.args[0])
		if sl == nil {
			return nil, false
		}
		ci.need(sl, w)
		in.setWindow(st, sl, enc(ci.args[1]), Int(int64(w)))
		return one(st), true
	case strings.HasPrefix(m, "AppendUint"):
		o := in.newObj("arr", "tmp", nil, nil)
		p := mkPtr(o, "")
		st.heap[p.loc()+"#seq"] = enc(ci.args[1])
		src := mkSlice(p, Int(0), Int(int64(w)), Int(int64(w)))
		return one(st, ci.f.appendTo(st, ci.args[0], src, types.NewSlice(types.Typ[types.Byte]), ci.pos)), true
	case strings.HasPrefix(m, "Uint"):
		sl := in.toSlice(ci.args[0])
		if sl == nil {
			return nil, false
		}
		ci.need(sl, w)
		q := st.content(sl.Base, sl.Off, Int(int64(w)))
		v := ci.decodeT(q, 0, types.Typ[map[int]types.BasicKind{2: types.Uint16, 4: types.Uint32, 8: types.Uint64}[w]], order)
		return one(st, v), true
	}
	return nil, false
}

func (ci *callInfo) need(sl *Slice, w int) {
	if ci.st.decide(le0(sub(Int(int64(w)), sl.Len))) != 1 {
		ci.st.emit(&Event{Kind: "bound", Pos: ci.pos, Fn: ci.f.fn, Args: []Val{Int(int64(w - 1)), sl.Len}})
	}
}

// ---- errors

func (ci *callInfo) errorf() Val {
	in := ci.f.in
	format, ok := constStr(ci.args[0])
	args := ci.expandArgs()[1:]
	var parts []Val = []Val{ci.args[0]}
	if ok {
		n := 0
		for i := 0; i < len(format); i++ {
			if format[i] != '%' {
				continue
			}
			i++
			for i < len(format) && strings.IndexByte("+-# 0123456789.[]*", format[i]) >= 0 {
				i++
			}
			if i >= len(format) {
				break
			}
			if format[i] == '%' {
				continue
			}
			if format[i] == 'w' && n < len(args) {
				parts = append(parts, args[n])
			}
			n++
		}
	}
	_ = in
	return appT(tError, "errorf", parts...)
}

// isTarget evaluates errors.Is for a known chain; nil if it depends.
func (ci *callInfo) errorsIs(err, target Val) []outcome {
	in, st := ci.f.in, ci.st
	if isNilConst(err) || st.isNil(err) == 1 {
		return one(st, Bool(isNilConst(target)))
	}
	if err.Key() == target.Key() {
		return one(st, True)
	}
	switch x := err.(type) {
	case *App:
		switch x.Op {
		case "errorf":
			if len(x.Args) == 1 {
				return one(st, False)
			}
			if len(x.Args) == 2 {
				return ci.errorsIs(x.Args[1], target)
			}
		case "newerr":
			return one(st, False)
		}
	case *Iface:
		// a method Is of the error's type
		if fn := in.W.method(x.Dyn, "Is"); fn != nil && fn.Blocks != nil {
			return ci.f.callStatic(st, fn, []Val{x.V, target}, nil, ci.pos, "")
		}
		if t, ok := target.(*Iface); ok {
			if !types.Identical(t.Dyn, x.Dyn) {
				return one(st, False)
			}
			if p1, ok := x.V.(*Ptr); ok {
				if p2, ok := t.V.(*Ptr); ok && p1.Key() != p2.Key() {
					// pointers to distinct variables differ (if they aren't of zero size,
					// in which case it's not specified)
					return one(st, app("ptreq", x.V, t.V))
				}
			}
		}
		if _, ok := target.(*Sym); ok {
			return one(st, False)
		}
		if _, ok := isApp(target, "newerr"); ok {
			return one(st, False)
		}
	}
	if ioError(err) {
		if _, ok := isApp(target, "newerr"); ok {
			return one(st, False)
		}
	}
	return one(st, app("is", err, errTarget(target)))
}

// ioError: the error of an I/O operation. It's none of the errors the module
// itself creates.
func ioError(err Val) bool {
	s, ok := err.(*Sym)
	if !ok || !types.Identical(s.T, tError) {
		return false
	}
	switch s.Name {
	case "read.err", "write.err", "seek.err", "flush.err", "close.err", "truncate.err", "sync.err":
		return true
	}
	return false
}

// errTarget names a target of errors.Is.
func errTarget(t Val) Val {
	if i, ok := t.(*Iface); ok {
		return app("type:" + i.Dyn.String())
	}
	return t
}

func (ci *callInfo) errorsAs() []outcome {
	in, st := ci.f.in, ci.st
	i, ok := ci.args[1].(*Iface)
	if !ok {
		return ci.opaque("call")
	}
	pt, ok := i.Dyn.Underlying().(*types.Pointer)
	p := in.deref(i.V)
	if !ok || p == nil {
		return ci.opaque("call")
	}
	err := ci.args[0]
	for {
		if a, ok := isApp(err, "errorf"); ok && len(a.Args) == 2 {
			err = a.Args[1]
			continue
		}
		break
	}
	if x, ok := err.(*Iface); ok && types.Identical(x.Dyn, pt.Elem()) {
		st.store(p, x.V, pt.Elem())
		return one(st, True)
	}
	if _, ok := isApp(err, "newerr"); ok {
		return one(st, False)
	}
	if _, ok := isApp(err, "errorf"); ok {
		return one(st, False)
	}
	c := app("errAs:"+pt.Elem().String(), err)
	yes := st.clone()
	yes.addFact(c, true)
	yes.store(p, appT(pt.Elem(), "as:"+pt.Elem().String(), err), pt.Elem())
	no := st.clone()
	no.addFact(c, false)
	return []outcome{{yes, []Val{True}, ""}, {no, []Val{False}, ""}}
}

// ---- channels that only the path itself knows

func fifoOf(st *State, ch Val) (string, *Tuple) {
	p, ok := unwrap(ch).(*Ptr)
	if !ok || p.O.Kind != "chan" {
		return "", nil
	}
	k := p.loc() + "#fifo"
	t, _ := st.heap[k].(*Tuple)
	return k, t
}

func (in *Interp) sent(st *State, ch, v Val) {
	if k, t := fifoOf(st, ch); t != nil {
		st.heap[k] = mkTuple(append(append([]Val{}, t.Vs...), v)...)
	}
}

// received is the value that is received next, nil if it isn't known.
func (in *Interp) received(st *State, ch Val) Val {
	k, t := fifoOf(st, ch)
	if t == nil {
		return nil
	}
	if len(t.Vs) == 0 || in.shared(st, unwrap(ch).(*Ptr).O) {
		delete(st.heap, k)
		return nil
	}
	st.heap[k] = mkTuple(t.Vs[1:]...)
	return t.Vs[0]
}

// shared: something other than the path itself may use the object.
func (in *Interp) shared(st *State, o *Obj) bool {
	from := map[int][]Val{}
	for k, v := range st.heap {
		if ow := in.ownerOfLoc(k); ow != nil {
			from[ow.ID] = append(from[ow.ID], v)
		}
	}
	seen := map[int]bool{}
	var hit func(v Val) bool
	visit := func(x *Obj) bool {
		if x == o {
			return true
		}
		if seen[x.ID] {
			return false
		}
		seen[x.ID] = true
		for _, v := range from[x.ID] {
			if hit(v) {
				return true
			}
		}
		return false
	}
	hit = func(v Val) bool {
		switch x := v.(type) {
		case *Ptr:
			return visit(x.O)
		case *Slice:
			return visit(x.Base.O)
		case *Iface:
			return x.V != nil && hit(x.V)
		case *Agg:
			for _, y := range x.Fields {
				if hit(y) {
					return true
				}
			}
		case *Tuple:
			for _, y := range x.Vs {
				if hit(y) {
					return true
				}
			}
		case *Closure:
			for _, y := range x.Binds {
				if hit(y) {
					return true
				}
			}
		case *Seq:
			for _, g := range x.Segs {
				if g.V != nil && hit(g.V) {
					return true
				}
			}
		case *MapState:
			for _, u := range x.Upd {
				if u.V != nil && hit(u.V) {
					return true
				}
			}
		case *App:
			for _, y := range x.Args {
				if hit(y) {
					return true
				}
			}
		}
		return false
	}
	for k, v := range st.heap {
		if ow := in.ownerOfLoc(k); (ow == nil || ow.Kind == "sym" || ow.Kind == "global") && hit(v) {
			return true
		}
	}
	bad := false
	walk(st.events(), nil, func(e *Event, _ []*IterPath) {
		switch e.Kind {
		case "go", "send", "call", "callfn":
			if e.Obj != nil && e.Kind != "send" && hit(e.Obj) {
				bad = true
			}
			for _, a := range e.Args {
				bad = bad || hit(a)
			}
		}
	})
	return bad
}

// ownerOfLoc is the object that a location of the heap belongs to.
func (in *Interp) ownerOfLoc(k string) *Obj {
	if !strings.HasPrefix(k, "&o") {
		return nil
	}
	j := 2
	for j < len(k) && k[j] >= '0' && k[j] <= '9' {
		j++
	}
	id, err := strconv.Atoi(k[2:j])
	if err != nil {
		return nil
	}
	return in.byID[id]
}

// search is sort.Search: the predicate holds at the position that is returned,
// and doesn't at the position before, unless these are the end and the beginning.
func (ci *callInfo) search(n Val, pred *Closure) []outcome {
	in := ci.f.in
	var out []outcome
	// ask evaluates the predicate at a position; with a result if it's given
	ask := func(st *State, at Val, want *bool) []*State {
		var sts []*State
		for _, o := range ci.f.callStatic(st.clone(), pred.Fn, []Val{at}, pred.Binds, ci.pos, ci.kind) {
			if o.end != "" {
				out = append(out, o)
				continue
			}
			if want == nil || len(o.rets) == 1 && assume(o.st, []Fact{{o.rets[0], *want}}, nil) {
				sts = append(sts, o.st)
			}
		}
		return sts
	}
	yes, no := true, false
	empty := ci.st.clone()
	if assume(empty, []Fact{{le0(n), true}}, nil) {
		out = append(out, outcome{empty, []Val{Int(0)}, ""})
	}
	some := ci.st
	j := in.fresh("search:asked", tInt)
	i := in.fresh("search", tInt)
	if !assume(some, []Fact{{le0(addc(mulc(n, -1), 1)), true},
		{le0(mulc(j, -1)), true}, {le0(addc(sub(j, n), 1)), true},
		{le0(mulc(i, -1)), true}, {le0(sub(i, n)), true}}, nil) {
		return out
	}
	for _, st := range ask(some, j, nil) { // anywhere
		atEnd, inside := st.clone(), st
		var upper []*State
		if assume(atEnd, []Fact{{eqInt(i, n), true}}, nil) {
			upper = append(upper, atEnd)
		}
		if assume(inside, []Fact{{le0(addc(sub(i, n), 1)), true}}, nil) {
			upper = append(upper, ask(inside, i, &yes)...)
		}
		for _, st := range upper {
			first, later := st.clone(), st
			if assume(first, []Fact{{eqInt(i, Int(0)), true}}, nil) {
				out = append(out, outcome{first, []Val{i}, ""})
			}
			if assume(later, []Fact{{le0(addc(mulc(i, -1), 1)), true}}, nil) {
				for _, st := range ask(later, addc(i, -1), &no) {
					out = append(out, outcome{st, []Val{i}, ""})
				}
			}
		}
	}
	return out
}
