package main

// Abstract values. Every value is immutable and has a canonical key; two values
// are equal iff their keys are equal. Integers are kept as linear forms over
// atoms, byte encodings as bytes of the encoded value, everything else as
// provenance terms (which operation produced it from which values).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{ Key() string }

// ---- constants

type Const struct {
	V constant.Value // nil: nil/zero pointer-like value
	k string
}

func (c *Const) Key() string { return c.k }

var Nil = &Const{nil, "nil"}
var True = mkConst(constant.MakeBool(true))
var False = mkConst(constant.MakeBool(false))

func mkConst(v constant.Value) Val {
	if v == nil {
		return Nil
	}
	switch v.Kind() {
	case constant.Bool:
		return &Const{v, v.String()}
	case constant.String:
		return &Const{v, strconv.Quote(constant.StringVal(v))}
	}
	return &Const{v, v.ExactString()}
}
func Int(n int64) Val  { return mkConst(constant.MakeInt64(n)) }
func Str(s string) Val { return mkConst(constant.MakeString(s)) }
func Bool(b bool) Val {
	if b {
		return True
	}
	return False
}
func constInt(v Val) (int64, bool) {
	c, ok := v.(*Const)
	if !ok || c.V == nil {
		return 0, false
	}
	x := constant.ToInt(c.V)
	if x.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(x)
}
func constStr(v Val) (string, bool) {
	c, ok := v.(*Const)
	if !ok || c.V == nil || c.V.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.V), true
}
func constBool(v Val) (bool, bool) {
	c, ok := v.(*Const)
	if !ok || c.V == nil || c.V.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(c.V), true
}
func isNilConst(v Val) bool { c, ok := v.(*Const); return ok && c.V == nil }

// ---- symbols

type Sym struct {
	ID   int
	Name string
	T    types.Type
	k    string
}

func (s *Sym) Key() string { return s.k }

// ---- linear forms

type Lin struct {
	C     int64
	Coef  map[string]int64
	Atom  map[string]Val
	names []string
	k     string
}

func (l *Lin) Key() string { return l.k }

func linOf(v Val) (c int64, coef map[string]int64, atom map[string]Val) {
	switch x := v.(type) {
	case *Lin:
		return x.C, x.Coef, x.Atom
	case *Const:
		if n, ok := constInt(v); ok {
			return n, nil, nil
		}
	}
	return 0, map[string]int64{v.Key(): 1}, map[string]Val{v.Key(): v}
}

func mkLin(c int64, coef map[string]int64, atom map[string]Val) Val {
	names := []string{}
	for k, n := range coef {
		if n != 0 {
			names = append(names, k)
		}
	}
	if len(names) == 0 {
		return Int(c)
	}
	if len(names) == 1 && c == 0 && coef[names[0]] == 1 {
		return atom[names[0]]
	}
	sort.Strings(names)
	var b strings.Builder
	b.WriteString("(")
	cf, at := map[string]int64{}, map[string]Val{}
	for i, k := range names {
		if i > 0 {
			b.WriteString("+")
		}
		if coef[k] != 1 {
			fmt.Fprintf(&b, "%d*", coef[k])
		}
		b.WriteString(k)
		cf[k], at[k] = coef[k], atom[k]
	}
	if c != 0 {
		fmt.Fprintf(&b, "%+d", c)
	}
	b.WriteString(")")
	return &Lin{c, cf, at, names, b.String()}
}

func lincomb(a Val, ka int64, b Val, kb int64) Val {
	ca, fa, aa := linOf(a)
	cb, fb, ab := linOf(b)
	coef, atom := map[string]int64{}, map[string]Val{}
	for k, n := range fa {
		coef[k] += n * ka
		atom[k] = aa[k]
	}
	for k, n := range fb {
		coef[k] += n * kb
		atom[k] = ab[k]
	}
	return mkLin(ca*ka+cb*kb, coef, atom)
}
func add(a, b Val) Val { return lincomb(a, 1, b, 1) }
func sub(a, b Val) Val { return lincomb(a, 1, b, -1) }
func mulc(a Val, n int64) Val {
	return lincomb(a, n, Int(0), 0)
}
func addc(a Val, n int64) Val { return add(a, Int(n)) }

// diffConst returns a-b if it's constant.
func diffConst(a, b Val) (int64, bool) { return constInt(sub(a, b)) }

// ---- applications

type App struct {
	Op   string
	Args []Val
	T    types.Type
	k    string
}

func (a *App) Key() string { return a.k }

func app(op string, args ...Val) *App {
	ks := make([]string, len(args))
	for i, a := range args {
		if a == nil {
			ks[i] = "?"
			continue
		}
		ks[i] = a.Key()
	}
	return &App{Op: op, Args: args, k: op + "(" + strings.Join(ks, ",") + ")"}
}
func appT(t types.Type, op string, args ...Val) *App {
	a := app(op, args...)
	a.T = t
	return a
}
func isApp(v Val, op string) (*App, bool) {
	a, ok := v.(*App)
	if !ok || a.Op != op {
		return nil, false
	}
	return a, true
}

// ---- references

// Obj is an abstract memory object.
type Obj struct {
	ID   int
	Name string
	T    types.Type // type of the pointed-to value
	Kind string     // "alloc", "sym" (exists before the entry), "global", "map", "chan", "arr"
	Site ssa.Value
	Base Val // for "sym": the pointer value
}

// Ptr points into an object.
type Ptr struct {
	O    *Obj
	Path string
	k    string
}

func (p *Ptr) Key() string { return p.k }
func mkPtr(o *Obj, path string) *Ptr {
	return &Ptr{o, path, "&o" + strconv.Itoa(o.ID) + path}
}
func (p *Ptr) loc() string { return p.k }

// Slice is a window into an array object (or array location).
type Slice struct {
	Base          *Ptr
	Off, Len, Cap Val
	k             string
}

func (s *Slice) Key() string { return s.k }
func mkSlice(base *Ptr, off, ln, cp Val) *Slice {
	return &Slice{base, off, ln, cp, "sl(" + base.k + "," + off.Key() + "," + ln.Key() + ")"}
}

// Iface is an interface value of a known dynamic type.
type Iface struct {
	Dyn types.Type
	V   Val
	k   string
}

func (i *Iface) Key() string { return i.k }
func mkIface(t types.Type, v Val) *Iface {
	return &Iface{t, v, "iface(" + t.String() + "," + v.Key() + ")"}
}

type Closure struct {
	Fn    *ssa.Function
	Binds []Val
	k     string
}

func (c *Closure) Key() string { return c.k }
func mkClosure(fn *ssa.Function, binds []Val) *Closure {
	ks := []string{}
	for _, b := range binds {
		ks = append(ks, b.Key())
	}
	return &Closure{fn, binds, "fn:" + fn.String() + "{" + strings.Join(ks, ",") + "}"}
}

// Agg is a struct value.
type Agg struct {
	T      *types.Struct
	N      types.Type
	Fields []Val
	k      string
}

func (a *Agg) Key() string { return a.k }
func mkAgg(n types.Type, f []Val) *Agg {
	ks := []string{}
	for _, b := range f {
		ks = append(ks, b.Key())
	}
	t, _ := n.Underlying().(*types.Struct)
	return &Agg{t, n, f, "{" + strings.Join(ks, ",") + "}"}
}

type Tuple struct {
	Vs []Val
	k  string
}

func (t *Tuple) Key() string { return t.k }
func mkTuple(vs ...Val) *Tuple {
	ks := []string{}
	for _, b := range vs {
		ks = append(ks, b.Key())
	}
	return &Tuple{vs, "<" + strings.Join(ks, ",") + ">"}
}

// ---- sequences: contents of arrays and slice backing stores

type Seg struct {
	Kind string // "zero","val","be","le","in","sub","str","unk"
	Len  Val    // number of elements
	V    Val    // val: the element; be/le: encoded value (V of width W, or a Seq of values of width W each); in: stream; sub: base sequence value; str: the string
	Off  Val    // in: position in the stream; sub: first index
	W    int
}
type Seq struct {
	Segs []Seg
	k    string
}

func (s *Seq) Key() string { return s.k }
func (s Seg) key() string {
	v, o := "", ""
	if s.V != nil {
		v = s.V.Key()
	}
	if s.Off != nil {
		o = s.Off.Key()
	}
	return fmt.Sprintf("%s%d[%s;%s@%s]", s.Kind, s.W, s.Len.Key(), v, o)
}
func mkSeq(segs ...Seg) *Seq {
	var out []Seg
	for _, s := range segs {
		if n, ok := constInt(s.Len); ok && n <= 0 {
			continue
		}
		if len(out) > 0 {
			p := &out[len(out)-1]
			switch {
			case p.Kind == s.Kind && p.Kind == "zero":
				p.Len = add(p.Len, s.Len)
				continue
			case p.Kind == s.Kind && (p.Kind == "in" || p.Kind == "sub") && p.V.Key() == s.V.Key() && add(p.Off, p.Len).Key() == s.Off.Key():
				p.Len = add(p.Len, s.Len)
				continue
			}
		}
		out = append(out, s)
	}
	ks := []string{}
	for _, s := range out {
		ks = append(ks, s.key())
	}
	return &Seq{out, "seq<" + strings.Join(ks, " ") + ">"}
}
func (s *Seq) length() Val {
	n := Int(0)
	for _, g := range s.Segs {
		n = add(n, g.Len)
	}
	return n
}

func beSeg(w int, v Val) Seg { return Seg{Kind: "be", Len: Int(int64(w)), V: v, W: w} }
func leSeg(w int, v Val) Seg { return Seg{Kind: "le", Len: Int(int64(w)), V: v, W: w} }

// byteOf returns the j-th least significant byte of v.
func byteOf(v Val, j int) Val {
	if n, ok := constInt(v); ok {
		return Int(int64(uint8(uint64(n) >> (8 * uint(j)))))
	}
	if a, ok := isApp(v, "trunc"); ok { // trunc(bits, x)
		if bits, _ := constInt(a.Args[0]); bits == 8 && j == 0 {
			return v
		}
		if bits, _ := constInt(a.Args[0]); int64(8*(j+1)) <= bits {
			return byteOf(a.Args[1], j)
		} else {
			return Int(0)
		}
	}
	if a, ok := isApp(v, "shr"); ok {
		if n, ok := constInt(a.Args[1]); ok && n%8 == 0 {
			return byteOf(a.Args[0], j+int(n/8))
		}
	}
	if a, ok := isApp(v, "decode"); ok { // decode(b0..bn) big endian bytes
		k := len(a.Args) - 1 - j
		if k >= 0 {
			return a.Args[k]
		}
		return Int(0)
	}
	if isByteVal(v) {
		if j == 0 {
			return v
		}
		return Int(0)
	}
	if _, ok := v.(*Lin); ok && j == 0 {
		return truncTo(1, v, types.Typ[types.Uint8])
	}
	return app("byte", v, Int(int64(j)))
}

// isByteVal tells whether the value surely fits in a byte.
func isByteVal(v Val) bool {
	switch x := v.(type) {
	case *Const:
		n, ok := constInt(v)
		return ok && n >= 0 && n < 256
	case *App:
		if x.Op == "byte" || x.Op == "in" {
			return true
		}
		if x.T != nil {
			b, ok := x.T.Underlying().(*types.Basic)
			return ok && b.Kind() == types.Uint8
		}
		if x.Op == "trunc" {
			n, _ := constInt(x.Args[0])
			return n == 8
		}
	case *Sym:
		if x.T != nil {
			b, ok := x.T.Underlying().(*types.Basic)
			return ok && b.Kind() == types.Uint8
		}
	}
	return false
}

// decode combines bytes (most significant first) into an integer.
func decode(bs []Val) Val {
	if len(bs) == 1 {
		return bs[0]
	}
	// constant
	all, n := true, int64(0)
	for _, b := range bs {
		c, ok := constInt(b)
		if !ok {
			all = false
			break
		}
		n = n<<8 | c
	}
	if all {
		return Int(n)
	}
	// bytes of one value
	if a, ok := isApp(bs[0], "byte"); ok {
		same := true
		for i, b := range bs {
			x, ok := isApp(b, "byte")
			if !ok || x.Args[0].Key() != a.Args[0].Key() {
				same = false
				break
			}
			if j, _ := constInt(x.Args[1]); int(j) != len(bs)-1-i {
				same = false
				break
			}
		}
		if same && widthOf(a.Args[0]) == len(bs) {
			return a.Args[0]
		}
		if same {
			return app("trunc", Int(int64(8*len(bs))), a.Args[0])
		}
	}
	return app("decode", bs...)
}

// widthOf returns the byte width of an integer value if its type is known.
func widthOf(v Val) int {
	var t types.Type
	switch x := v.(type) {
	case *Sym:
		t = x.T
	case *App:
		t = x.T
		if x.Op == "decode" {
			return len(x.Args)
		}
		if x.Op == "trunc" {
			n, _ := constInt(x.Args[0])
			return int(n / 8)
		}
	}
	if t == nil {
		return 0
	}
	return intWidth(t)
}

func intWidth(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Uint8, types.Int8, types.Bool:
		return 1
	case types.Uint16, types.Int16:
		return 2
	case types.Uint32, types.Int32, types.Float32, types.UntypedRune:
		return 4
	case types.Uint64, types.Int64, types.Int, types.Uint, types.Float64, types.Uintptr, types.UntypedInt:
		return 8
	}
	return 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolean(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// fixed size of data for encoding/binary; -1 if unknown
func binSize(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Int, types.Uint, types.Uintptr, types.String:
			return -1
		}
		if w := intWidth(t); w > 0 {
			return w
		}
	case *types.Array:
		n := binSize(u.Elem())
		if n < 0 {
			return -1
		}
		return n * int(u.Len())
	case *types.Struct:
		s := 0
		for i := 0; i < u.NumFields(); i++ {
			n := binSize(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			s += n
		}
		return s
	}
	return -1
}

// ---- boolean conditions

func not(c Val) Val {
	if b, ok := constBool(c); ok {
		return Bool(!b)
	}
	if a, ok := isApp(c, "not"); ok {
		return a.Args[0]
	}
	return app("not", c)
}

// le0 is the condition v <= 0 over integers.
func le0(v Val) Val {
	if n, ok := constInt(v); ok {
		return Bool(n <= 0)
	}
	if l, ok := v.(*Lin); ok {
		if g := l.gcd(); g > 1 {
			c := l.C / g // rounds to zero, which is up for negative numbers
			if l.C > 0 && l.C%g != 0 {
				c++
			}
			coef := map[string]int64{}
			for k, n := range l.Coef {
				coef[k] = n / g
			}
			v = mkLin(c, coef, l.Atom)
		}
	}
	return app("le0", v)
}

// gcd of the coefficients
func (l *Lin) gcd() int64 {
	var g int64
	for _, n := range l.Coef {
		if n < 0 {
			n = -n
		}
		for n != 0 {
			g, n = n, g%n
		}
	}
	return g
}

// notAbove is the condition that a number isn't above zero; a byte is never
// below it either.
func notAbove(v Val) Val {
	switch x := v.(type) {
	case *App:
		if isByteVal(x) {
			return eqInt(x, Int(0))
		}
	case *Lin:
		if x.C == 1 && len(x.names) == 1 && x.Coef[x.names[0]] == -1 && isByteVal(x.Atom[x.names[0]]) {
			return not(eqInt(x.Atom[x.names[0]], Int(0)))
		}
	}
	return le0(v)
}

func intCmp(op token.Token, a, b Val) Val {
	switch op {
	case token.LSS:
		return notAbove(addc(sub(a, b), 1))
	case token.LEQ:
		return notAbove(sub(a, b))
	case token.GTR:
		return notAbove(addc(sub(b, a), 1))
	case token.GEQ:
		return notAbove(sub(b, a))
	case token.EQL:
		return eqInt(a, b)
	case token.NEQ:
		return not(eqInt(a, b))
	}
	return nil
}

func eqInt(a, b Val) Val {
	d := sub(a, b)
	if n, ok := constInt(d); ok {
		return Bool(n == 0)
	}
	if l, ok := d.(*Lin); ok {
		if g := l.gcd(); g > 1 {
			if l.C%g != 0 {
				return False
			}
			coef := map[string]int64{}
			for k, n := range l.Coef {
				coef[k] = n / g
			}
			d = mkLin(l.C/g, coef, l.Atom)
		}
	}
	// canonical sign
	if l, ok := d.(*Lin); ok && l.Coef[l.names[0]] < 0 {
		d = mulc(d, -1)
	}
	return app("eq0", d)
}
