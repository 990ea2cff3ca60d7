package main

// Value numbers: hash-consed terms over SSA values. Integers are bit vectors of a given
// width with a linear (polynomial) normal form modulo 2^width.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type mono struct {
	atoms []*Term // sorted by ID, repeated for powers
	coef  uint64
}

type Term struct {
	ID   int
	Op   string
	Aux  string
	Args []*Term
	W    int // width of an integer, 0 otherwise
	Typ  types.Type

	// Op == "int"
	V uint64
	// Op == "poly": sum of monos + V
	Monos []mono
	// Op == "leaf", "obj", ...: definition, if any
	Def *Def
	// Op == "closure"
	Fn *ssa.Function
	G  *ssa.Global
}

// Def says where a leaf comes from.
type Def struct {
	Kind   string // "param", "res" (call result), "phi", "mem", "havoc", "unknown", "freevar"
	Callee string
	Args   []*Term
	Index  int
	Name   string
	Loop   *LoopInfo // for phi, mem
	Key    string
	Instr  ssa.Instruction
}

type termTab struct {
	m map[string]*Term
	n int
}

var tt = &termTab{m: map[string]*Term{}}

func mk(op, aux string, w int, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	sb.WriteByte('|')
	sb.WriteString(strconv.Itoa(w))
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	k := sb.String()
	if t, ok := tt.m[k]; ok {
		return t
	}
	tt.n++
	t := &Term{ID: tt.n, Op: op, Aux: aux, W: w, Args: append([]*Term(nil), args...)}
	tt.m[k] = t
	return t
}

func mkT(op, aux string, typ types.Type, args ...*Term) *Term {
	t := mk(op, aux, widthOf(typ), args...)
	if t.Typ == nil {
		t.Typ = typ
	}
	return t
}

func leaf(name string, typ types.Type, def *Def) *Term {
	t := mkT("leaf", name, typ)
	if def != nil {
		t.Def = def
	}
	if typ != nil {
		t.Typ = typ
	}
	return t
}

var sizes64 = types.SizesFor("gc", "amd64")

func basicOf(t types.Type) *types.Basic {
	if t == nil {
		return nil
	}
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func widthOf(t types.Type) int {
	b := basicOf(t)
	if b == nil || b.Info()&types.IsInteger == 0 {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func isUnsigned(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsUnsigned != 0
}
func isFloat(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsBoolean != 0
}

func maskW(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func mkInt(w int, v uint64) *Term {
	v &= maskW(w)
	t := mk("int", strconv.FormatUint(v, 10), w)
	t.V = v
	return t
}

func (t *Term) isInt() bool { return t.Op == "int" }
func (t *Term) isConstInt(v int64) bool {
	return t.Op == "int" && t.V == uint64(v)&maskW(t.W)
}

// signed value of an integer constant
func (t *Term) sval() int64 {
	if t.W >= 64 {
		return int64(t.V)
	}
	if t.V>>(uint(t.W)-1) != 0 {
		return int64(t.V) - int64(1)<<uint(t.W)
	}
	return int64(t.V)
}

func mkBool(b bool) *Term {
	if b {
		return mk("true", "", 0)
	}
	return mk("false", "", 0)
}
func mkStr(s string) *Term {
	t := mk("str", strconv.Quote(s), 0)
	t.Typ = types.Typ[types.String]
	return t
}
func strVal(t *Term) (string, bool) {
	if t.Op != "str" {
		return "", false
	}
	s, err := strconv.Unquote(t.Aux)
	return s, err == nil
}
func mkFloat(f float64) *Term {
	t := mk("float", strconv.FormatUint(math.Float64bits(f), 16), 0)
	t.Typ = types.Typ[types.Float64]
	return t
}
func floatVal(t *Term) (float64, bool) {
	if t.Op != "float" {
		return 0, false
	}
	u, _ := strconv.ParseUint(t.Aux, 16, 64)
	return math.Float64frombits(u), true
}

var tNil = mk("nil", "", 0)

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroTerm(c.Type())
	}
	return constValTerm(c.Value, c.Type())
}

func constValTerm(v constant.Value, typ types.Type) *Term {
	if w := widthOf(typ); w > 0 {
		v = constant.ToInt(v)
		if i, ok := constant.Int64Val(v); ok {
			return mkInt(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return mkInt(w, u)
	}
	switch {
	case isFloat(typ):
		f, _ := constant.Float64Val(v)
		return mkFloat(f)
	case isString(typ):
		return mkStr(constant.StringVal(v))
	case isBool(typ):
		return mkBool(constant.BoolVal(v))
	}
	return mk("const", v.ExactString(), 0)
}

func zeroTerm(typ types.Type) *Term {
	if w := widthOf(typ); w > 0 {
		return mkInt(w, 0)
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case isFloat(typ):
			return mkFloat(0)
		case isString(typ):
			return mkStr("")
		case isBool(typ):
			return mkBool(false)
		}
		return tNil
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = zeroTerm(u.Field(i).Type())
		}
		return mkAgg(typ, fs)
	case *types.Array:
		return mkT("zeroarr", types.TypeString(typ, nil), typ)
	case *types.Tuple:
		fs := make([]*Term, u.Len())
		for i := range fs {
			fs[i] = zeroTerm(u.At(i).Type())
		}
		return mk("tuple", "", 0, fs...)
	case *types.Slice:
		return mkT("nilslice", "", nil)
	}
	return tNil
}

func mkAgg(typ types.Type, fs []*Term) *Term {
	return mkT("agg", types.TypeString(typ, nil), typ, fs...)
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// mkField is field i of the struct (or tuple) value v.
func mkField(v *Term, i int, typ types.Type) *Term {
	if (v.Op == "agg" || v.Op == "tuple") && i < len(v.Args) {
		return v.Args[i]
	}
	if v.Op == "load" { // field of a loaded struct is the loaded field
		st := v.Typ
		if structOf(st) != nil {
			return mkLoad(mkFA(v.Args[0], i, st), v.Aux, typ)
		}
	}
	return mkT("field", strconv.Itoa(i), typ, v)
}

// mkFA is the address of field i of the struct of type st at address a.
func mkFA(a *Term, i int, st types.Type) *Term {
	t := mk("fa", strconv.Itoa(i), 0, a)
	if t.Typ == nil {
		t.Typ = st // struct type
	}
	return t
}

// mkIA is the address of element idx of the array or slice with base b.
func mkIA(b, idx *Term, elem types.Type) *Term {
	t := mk("ia", "", 0, b, idx)
	if t.Typ == nil {
		t.Typ = elem
	}
	return t
}

func mkLoad(a *Term, epoch string, typ types.Type) *Term {
	t := mkT("load", epoch, typ, a)
	return t
}

// ---- integers

func polyOf(t *Term) (map[string]mono, uint64) {
	ms := map[string]mono{}
	switch t.Op {
	case "int":
		return ms, t.V
	case "poly":
		for _, m := range t.Monos {
			ms[monoKey(m.atoms)] = m
		}
		return ms, t.V
	}
	m := mono{atoms: []*Term{t}, coef: 1}
	ms[monoKey(m.atoms)] = m
	return ms, 0
}

func monoKey(as []*Term) string {
	var sb strings.Builder
	for _, a := range as {
		sb.WriteString(strconv.Itoa(a.ID))
		sb.WriteByte('*')
	}
	return sb.String()
}

func fromPoly(w int, ms map[string]mono, c uint64) *Term {
	c &= maskW(w)
	var l []mono
	for _, m := range ms {
		m.coef &= maskW(w)
		if m.coef != 0 {
			l = append(l, m)
		}
	}
	if len(l) == 0 {
		return mkInt(w, c)
	}
	if len(l) == 1 && c == 0 && l[0].coef == 1 && len(l[0].atoms) == 1 {
		return l[0].atoms[0]
	}
	sort.Slice(l, func(i, j int) bool {
		a, b := l[i].atoms, l[j].atoms
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		for k := range a {
			if a[k].ID != b[k].ID {
				return a[k].ID < b[k].ID
			}
		}
		return false
	})
	var sb strings.Builder
	seen := map[*Term]bool{}
	var args []*Term
	for _, m := range l {
		sb.WriteString(strconv.FormatUint(m.coef, 10))
		sb.WriteByte(':')
		sb.WriteString(monoKey(m.atoms))
		sb.WriteByte('+')
		for _, a := range m.atoms {
			if !seen[a] {
				seen[a] = true
				args = append(args, a)
			}
		}
	}
	sb.WriteString(strconv.FormatUint(c, 10))
	t := mk("poly", sb.String(), w, args...)
	t.Monos = l
	t.V = c
	return t
}

func iadd(a, b *Term) *Term { return ilin(a, b, 1) }
func isub(a, b *Term) *Term { return ilin(a, b, ^uint64(0)) }

func ilin(a, b *Term, k uint64) *Term {
	w := a.W
	if w == 0 {
		w = b.W
	}
	ms, c := polyOf(a)
	mb, cb := polyOf(b)
	for key, m := range mb {
		o := ms[key]
		o.atoms = m.atoms
		o.coef += m.coef * k
		ms[key] = o
	}
	return fromPoly(w, ms, c+cb*k)
}

func imul(a, b *Term) *Term {
	w := a.W
	ma, ca := polyOf(a)
	mb, cb := polyOf(b)
	if (len(ma)+1)*(len(mb)+1) > 64 {
		x, y := a, b
		if x.ID > y.ID {
			x, y = y, x
		}
		return mk("mul", "", w, x, y)
	}
	ms := map[string]mono{}
	acc := func(atoms []*Term, coef uint64) {
		as := append([]*Term(nil), atoms...)
		sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
		k := monoKey(as)
		o := ms[k]
		o.atoms = as
		o.coef += coef
		ms[k] = o
	}
	for _, x := range ma {
		for _, y := range mb {
			acc(append(append([]*Term(nil), x.atoms...), y.atoms...), x.coef*y.coef)
		}
		if cb != 0 {
			acc(x.atoms, x.coef*cb)
		}
	}
	if ca != 0 {
		for _, y := range mb {
			acc(y.atoms, y.coef*ca)
		}
	}
	return fromPoly(w, ms, ca*cb)
}

func log2(v uint64) (int, bool) {
	if v != 0 && v&(v-1) == 0 {
		n := 0
		for v > 1 {
			v >>= 1
			n++
		}
		return n, true
	}
	return 0, false
}

// maxVal is an upper bound of t seen as an unsigned number.
func maxVal(t *Term) uint64 {
	m := maskW(t.W)
	switch t.Op {
	case "int":
		return t.V
	case "and":
		for _, a := range t.Args {
			if v := maxVal(a); v < m {
				m = v
			}
		}
		return m
	case "or", "xor":
		v := uint64(0)
		for _, a := range t.Args {
			v |= maxVal(a)
		}
		if n := bits.Len64(v); n < 64 && 1<<uint(n)-1 < m {
			m = 1<<uint(n) - 1
		}
		return m
	case "trunc":
		if v := maxVal(t.Args[0]); v < m {
			m = v
		}
		return m
	case "zext":
		return maxVal(t.Args[0])
	case "lshr":
		if t.Args[1].isInt() && t.Args[1].V < 64 {
			return maxVal(t.Args[0]) >> t.Args[1].V
		}
		return maxVal(t.Args[0])
	case "urem":
		if t.Args[1].isInt() && t.Args[1].V > 0 {
			return t.Args[1].V - 1
		}
	case "len", "cap":
		return 1<<62 - 1
	case "poly":
		s := t.V
		if s>>62 != 0 {
			return m
		}
		for _, mo := range t.Monos {
			p := mo.coef
			for _, a := range mo.atoms {
				hi, lo := bits.Mul64(p, maxVal(a))
				if hi != 0 || lo>>62 != 0 {
					return m
				}
				p = lo
			}
			if p>>62 != 0 {
				return m
			}
			s += p
			if s>>62 != 0 {
				return m
			}
		}
		if s < m {
			return s
		}
	}
	return m
}

// nonNeg reports whether t, seen as signed, is known not to be negative. Arithmetic on
// lengths is assumed not to overflow.
func nonNeg(t *Term) bool {
	if t.W == 0 {
		return false
	}
	if maxVal(t) <= maskW(t.W)>>1 {
		return true
	}
	if t.Op == "poly" && t.W == 64 {
		if t.V>>(uint(t.W)-1)&1 != 0 {
			return false
		}
		for _, m := range t.Monos {
			if m.coef>>(uint(t.W)-1)&1 != 0 {
				return false
			}
			for _, a := range m.atoms {
				if !nonNeg(a) {
					return false
				}
			}
		}
		return true
	}
	return false
}

func iand(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isInt() && b.isInt() {
		return mkInt(a.W, a.V&b.V)
	}
	if a.isInt() {
		a, b = b, a
	}
	if b.isInt() {
		if b.V == 0 {
			return b
		}
		if _, ok := log2(b.V + 1); (ok || b.V == maskW(b.W)) && maxVal(a) <= b.V {
			return a
		}
		if a.Op == "and" && a.Args[1].isInt() {
			return iand(a.Args[0], mkInt(a.W, a.Args[1].V&b.V))
		}
		// low bits of a polynomial depend on the low bits of the coefficients only
		if n, ok := log2(b.V + 1); ok && a.Op == "poly" {
			ms, c := polyOf(a)
			changed := false
			for k, m := range ms {
				if nc := m.coef & maskW(n); nc != m.coef {
					m.coef = nc
					ms[k] = m
					changed = true
				}
			}
			if nc := c & maskW(n); nc != c {
				c = nc
				changed = true
			}
			if changed {
				return iand(fromPoly(a.W, ms, c), b)
			}
		}
		return mk("and", "", a.W, a, b)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("and", "", a.W, a, b)
}

func ior(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isInt() && b.isInt() {
		return mkInt(a.W, a.V|b.V)
	}
	if a.isConstInt(0) {
		return b
	}
	if b.isConstInt(0) {
		return a
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("or", "", a.W, a, b)
}

func ixor(a, b *Term) *Term {
	if a == b {
		return mkInt(a.W, 0)
	}
	if a.isInt() && b.isInt() {
		return mkInt(a.W, a.V^b.V)
	}
	if a.isConstInt(0) {
		return b
	}
	if b.isConstInt(0) {
		return a
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("xor", "", a.W, a, b)
}

func stripZext(t *Term) *Term {
	for t.Op == "zext" {
		t = t.Args[0]
	}
	return t
}

func ishl(a, n *Term) *Term {
	n = stripZext(n)
	if n.isInt() {
		if n.V >= uint64(a.W) {
			return mkInt(a.W, 0)
		}
		return imul(a, mkInt(a.W, 1<<n.V))
	}
	if a.isConstInt(0) {
		return a
	}
	return mk("shl", "", a.W, a, n)
}

func ilshr(a, n *Term) *Term {
	n = stripZext(n)
	if n.isInt() {
		if n.V == 0 {
			return a
		}
		if n.V >= uint64(a.W) {
			return mkInt(a.W, 0)
		}
		if a.isInt() {
			return mkInt(a.W, a.V>>n.V)
		}
		if a.Op == "lshr" && a.Args[1].isInt() {
			return ilshr(a.Args[0], mkInt(n.W, n.V+a.Args[1].V))
		}
		if maxVal(a)>>n.V == 0 {
			return mkInt(a.W, 0)
		}
		if n.V < 63 {
			if q, ok := exactDiv(a, 1<<n.V); ok {
				return q
			}
		}
		if n.W != 8 {
			n = mkInt(8, n.V)
		}
	}
	if a.isConstInt(0) {
		return a
	}
	return mk("lshr", "", a.W, a, n)
}

func iashr(a, n *Term) *Term {
	if nonNeg(a) {
		return ilshr(a, n)
	}
	n = stripZext(n)
	if a.isInt() && n.isInt() {
		k := n.V
		if k > 63 {
			k = 63
		}
		return mkInt(a.W, uint64(a.sval()>>k))
	}
	return mk("ashr", "", a.W, a, n)
}

// exactDiv divides a sum whose terms have the factor k: (8*x+8*y+9)/8 is x+y+1.
func exactDiv(a *Term, k uint64) (*Term, bool) {
	if a.Op != "poly" || k == 0 {
		return nil, false
	}
	// only when no wrap-around can have happened
	if maxVal(a) == maskW(a.W) && (a.W < 64 || !nonNeg(a)) {
		return nil, false
	}
	ms, c := polyOf(a)
	for key, m := range ms {
		if m.coef%k != 0 {
			return nil, false
		}
		m.coef /= k
		ms[key] = m
	}
	return fromPoly(a.W, ms, c/k), true
}

func iudiv(a, b *Term) *Term {
	if b.isInt() && b.V != 0 {
		if a.isInt() {
			return mkInt(a.W, a.V/b.V)
		}
		if b.V == 1 {
			return a
		}
		if q, ok := exactDiv(a, b.V); ok {
			return q
		}
		if n, ok := log2(b.V); ok {
			return ilshr(a, mkInt(8, uint64(n)))
		}
	}
	return mk("udiv", "", a.W, a, b)
}

func iurem(a, b *Term) *Term {
	if b.isInt() && b.V != 0 {
		if a.isInt() {
			return mkInt(a.W, a.V%b.V)
		}
		if _, ok := log2(b.V); ok {
			return iand(a, mkInt(a.W, b.V-1))
		}
		if maxVal(a) < b.V {
			return a
		}
	}
	if a.isConstInt(0) {
		return a
	}
	// (x%m)%m
	if a.Op == "urem" && a.Args[1] == b {
		return a
	}
	return mk("urem", "", a.W, a, b)
}

func isdiv(a, b *Term) *Term {
	if nonNeg(a) && nonNeg(b) {
		return iudiv(a, b)
	}
	if a.isInt() && b.isInt() && b.V != 0 {
		return mkInt(a.W, uint64(a.sval()/b.sval()))
	}
	// (x - x%k + k*c)/k
	if k := b.sval(); b.isInt() && k > 0 && a.Op == "poly" {
		for _, m := range a.Monos {
			if len(m.atoms) == 1 && m.atoms[0].Op == "srem" && m.coef&maskW(a.W) == maskW(a.W) && m.atoms[0].Args[1] == b {
				x := m.atoms[0].Args[0]
				if c := isub(iadd(a, m.atoms[0]), x); c.isInt() && c.sval()%k == 0 {
					return iadd(isdiv(x, b), mkInt(a.W, uint64(c.sval()/k)))
				}
			}
		}
	}
	return mk("sdiv", "", a.W, a, b)
}

func isrem(a, b *Term) *Term {
	if nonNeg(a) && nonNeg(b) {
		return iurem(a, b)
	}
	if a.isInt() && b.isInt() && b.V != 0 {
		return mkInt(a.W, uint64(a.sval()%b.sval()))
	}
	return mk("srem", "", a.W, a, b)
}

func iconv(a *Term, from, to types.Type) *Term {
	fw, tw := widthOf(from), widthOf(to)
	return resize(a, fw, tw, !isUnsigned(from))
}

func resize(a *Term, fw, tw int, signed bool) *Term {
	if fw == tw {
		return a
	}
	if a.isInt() {
		if signed {
			return mkInt(tw, uint64(a.sval()))
		}
		return mkInt(tw, a.V)
	}
	if tw > fw {
		if signed && !nonNeg(a) {
			return mk("sext", "", tw, a)
		}
		if a.Op == "trunc" {
			return iand(resize(a.Args[0], a.Args[0].W, tw, false), mkInt(tw, maskW(fw)))
		}
		if a.Op == "zext" {
			return mk("zext", "", tw, a.Args[0])
		}
		return mk("zext", "", tw, a)
	}
	// truncation
	switch a.Op {
	case "zext", "sext":
		in := a.Args[0]
		if in.W == tw {
			return in
		}
		if in.W > tw {
			return resize(in, in.W, tw, false)
		}
		return mk(a.Op, "", tw, in)
	case "trunc":
		return resize(a.Args[0], a.Args[0].W, tw, false)
	case "poly":
		r := mkInt(tw, a.V)
		for _, m := range a.Monos {
			p := mkInt(tw, m.coef)
			for _, x := range m.atoms {
				p = imul(p, resize(x, fw, tw, false))
			}
			r = iadd(r, p)
		}
		return r
	case "and":
		if a.Args[1].isInt() && a.Args[1].V&maskW(tw) == maskW(tw) {
			return resize(a.Args[0], fw, tw, false)
		}
		return iand(resize(a.Args[0], fw, tw, false), resize(a.Args[1], fw, tw, false))
	case "or":
		return ior(resize(a.Args[0], fw, tw, false), resize(a.Args[1], fw, tw, false))
	case "xor":
		return ixor(resize(a.Args[0], fw, tw, false), resize(a.Args[1], fw, tw, false))
	}
	return mk("trunc", "", tw, a)
}

// ---- booleans

func bnot(t *Term) *Term {
	switch t.Op {
	case "true":
		return mkBool(false)
	case "false":
		return mkBool(true)
	case "not":
		return t.Args[0]
	}
	return mk("not", "", 0, t)
}

func isNilTerm(t *Term) bool { return t.Op == "nil" || t.Op == "nilslice" }

// nonNilTerm reports whether t is known never to be nil.
func nonNilTerm(t *Term) bool {
	switch t.Op {
	case "iface", "obj", "closure", "fa", "ia", "gaddr", "mapobj", "chanobj", "func":
		return true
	case "slice":
		return true // slices of something; only compared with nil in odd code
	case "call":
		switch t.Aux {
		case "errors.New", "fmt.Errorf":
			return true
		}
		return strings.HasPrefix(t.Aux, "nonnil:")
	case "gval":
		return t.Aux != "" && strings.HasSuffix(t.Aux, "!")
	}
	return false
}

func beq(a, b *Term) *Term {
	if a == b {
		if isFloat(a.Typ) {
			return mk("feq", "", 0, a, b)
		}
		return mkBool(true)
	}
	if a.W > 0 && b.W > 0 {
		d := isub(a, b)
		if d.isInt() {
			return mkBool(d.V == 0)
		}
		// numbers that cannot be equal
		if b.isInt() && maxVal(a) < b.V || a.isInt() && maxVal(b) < a.V {
			return mkBool(false)
		}
		if d.Op == "poly" { // sign normalisation
			if len(d.Monos) > 0 && d.Monos[0].coef>>(uint(d.W)-1)&1 != 0 {
				d = isub(mkInt(d.W, 0), d)
			}
		}
		if d.Op == "zext" {
			return beq(d.Args[0], mkInt(d.Args[0].W, 0))
		}
		return mk("eq0", "", 0, d)
	}
	if isNilTerm(a) && isNilTerm(b) {
		return mkBool(true)
	}
	if isNilTerm(a) && nonNilTerm(b) || isNilTerm(b) && nonNilTerm(a) {
		return mkBool(false)
	}
	if a.Op == "str" && b.Op == "str" || (a.Op == "true" || a.Op == "false") && (b.Op == "true" || b.Op == "false") {
		return mkBool(false)
	}
	if a.Op == "true" {
		return b
	}
	if b.Op == "true" {
		return a
	}
	if a.Op == "false" {
		return bnot(b)
	}
	if b.Op == "false" {
		return bnot(a)
	}
	// comparison of a length of string with empty string
	if a.Op == "str" && a.Aux == `""` {
		a, b = b, a
	}
	if b.Op == "str" && b.Aux == `""` {
		return beq(mkLen(a), mkInt(64, 0))
	}
	if isNilTerm(a) {
		a, b = b, a
	}
	if isNilTerm(b) {
		return mk("isnil", "", 0, a)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("eq", "", 0, a, b)
}

func bslt(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return mkBool(a.sval() < b.sval())
	}
	if a == b {
		return mkBool(false)
	}
	if d := isub(a, b); d.isInt() {
		return mkBool(d.sval() < 0) // assuming no overflow
	}
	if nonNeg(a) && b.isConstInt(0) {
		return mkBool(false)
	}
	return mk("slt", "", 0, a, b)
}

func bult(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return mkBool(a.V < b.V)
	}
	if a == b || b.isConstInt(0) {
		return mkBool(false)
	}
	if b.isInt() && maxVal(a) < b.V {
		return mkBool(true)
	}
	if a.isInt() && maxVal(b) <= a.V {
		return mkBool(false)
	}
	if b.isConstInt(1) {
		return beq(a, mkInt(a.W, 0))
	}
	if nonNeg(a) && nonNeg(b) {
		return bslt(a, b)
	}
	if a.isInt() && a.V != maskW(b.W) {
		// c < b if not b < c+1
		return bnot(bult(b, mkInt(b.W, a.V+1)))
	}
	return mk("ult", "", 0, a, b)
}

// ---- sequences

func mkLen(t *Term) *Term {
	switch t.Op {
	case "str":
		s, _ := strVal(t)
		return mkInt(64, uint64(len(s)))
	case "slice":
		return t.Args[2]
	case "nilslice", "nil":
		return mkInt(64, 0)
	case "append":
		return iadd(mkLen(t.Args[0]), mkInt(64, uint64(len(t.Args)-1)))
	case "appendslice":
		return iadd(mkLen(t.Args[0]), mkLen(t.Args[1]))
	case "bytesof", "strof":
		return mkLen(t.Args[0])
	case "concat":
		return iadd(mkLen(t.Args[0]), mkLen(t.Args[1]))
	}
	return mk("len", "", 64, t)
}

// sliceParts splits a sequence in base and offset.
func sliceParts(s *Term) (base, off, n *Term) {
	if s.Op == "slice" {
		return s.Args[0], s.Args[1], s.Args[2]
	}
	return s, mkInt(64, 0), mkLen(s)
}

func mkSlice(base, off, n *Term, typ types.Type) *Term {
	if off.isConstInt(0) && !isArrayBase(base) && n == mkLen(base) {
		return base
	}
	return mkT("slice", "", typ, base, off, n)
}

// isArrayBase: the base of a slice term is either a slice value itself or the address of an array
func isArrayBase(b *Term) bool {
	switch b.Op {
	case "obj", "fa", "ia", "gaddr":
		return true
	}
	return false
}

// ---- printing

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d == 0 {
		return "…"
	}
	arg := func(i int) string { return t.Args[i].str(d - 1) }
	switch t.Op {
	case "int":
		return strconv.FormatInt(t.sval(), 10)
	case "str":
		return t.Aux
	case "float":
		f, _ := floatVal(t)
		return strconv.FormatFloat(f, 'g', -1, 64)
	case "true", "false", "nil":
		return t.Op
	case "nilslice":
		return "nil"
	case "leaf", "obj", "gaddr":
		if t.Def != nil && t.Def.Name != "" {
			return t.Def.Name
		}
		return shortName(t.Aux)
	case "gval":
		return shortName(t.Aux)
	case "poly":
		var sb strings.Builder
		for i, m := range t.Monos {
			c := mkInt(t.W, m.coef).sval()
			if i > 0 && c >= 0 {
				sb.WriteByte('+')
			}
			if c == -1 {
				sb.WriteByte('-')
			} else if c != 1 {
				fmt.Fprintf(&sb, "%d*", c)
			}
			for j, a := range m.atoms {
				if j > 0 {
					sb.WriteByte('*')
				}
				sb.WriteString(a.str(d - 1))
			}
		}
		if t.V != 0 {
			c := mkInt(t.W, t.V).sval()
			if c >= 0 {
				sb.WriteByte('+')
			}
			fmt.Fprint(&sb, c)
		}
		return "(" + sb.String() + ")"
	case "fa":
		n := t.Aux
		if s := structOf(t.Typ); s != nil {
			i, _ := strconv.Atoi(t.Aux)
			if i < s.NumFields() {
				n = s.Field(i).Name()
			}
		}
		return "&" + strings.TrimPrefix(arg(0), "&") + "." + n
	case "ia":
		return "&" + strings.TrimPrefix(arg(0), "&") + "[" + arg(1) + "]"
	case "load":
		s := strings.TrimPrefix(arg(0), "&")
		return s
	case "slice":
		return strings.TrimPrefix(arg(0), "&") + "[" + arg(1) + ":+" + arg(2) + "]"
	case "closure", "func":
		return t.Aux
	case "isnil":
		return arg(0) + "==nil"
	case "eq0":
		return arg(0) + "==0"
	case "eq":
		return arg(0) + "==" + arg(1)
	case "not":
		return "!(" + arg(0) + ")"
	case "slt", "ult", "flt":
		return arg(0) + "<" + arg(1)
	}
	var sb strings.Builder
	sb.WriteString(t.Op)
	if t.Aux != "" {
		sb.WriteString("<" + shortName(t.Aux) + ">")
	}
	sb.WriteByte('(')
	for i := range t.Args {
		if i > 0 {
			sb.WriteString(", ")
		}
		sb.WriteString(arg(i))
	}
	sb.WriteByte(')')
	return sb.String()
}

func shortName(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}

// subterms calls f on t and everything in it, until f returns false.
func subterms(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
}

func contains(t, x *Term) bool {
	found := false
	subterms(t, func(s *Term) bool {
		if s == x {
			found = true
		}
		return !found
	})
	return found
}

// rebuild applies the constructor of t to new arguments, normalising again.
func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "poly":
		m := map[*Term]*Term{}
		for i, a := range t.Args {
			m[a] = args[i]
		}
		r := mkInt(t.W, t.V)
		for _, mo := range t.Monos {
			p := mkInt(t.W, mo.coef)
			for _, a := range mo.atoms {
				p = imul(p, m[a])
			}
			r = iadd(r, p)
		}
		return r
	case "and":
		return iand(args[0], args[1])
	case "or":
		return ior(args[0], args[1])
	case "xor":
		return ixor(args[0], args[1])
	case "shl":
		return ishl(args[0], args[1])
	case "lshr":
		return ilshr(args[0], args[1])
	case "ashr":
		return iashr(args[0], args[1])
	case "udiv":
		return iudiv(args[0], args[1])
	case "urem":
		return iurem(args[0], args[1])
	case "sdiv":
		return isdiv(args[0], args[1])
	case "srem":
		return isrem(args[0], args[1])
	case "zext":
		return resize(args[0], args[0].W, t.W, false)
	case "sext":
		return resize(args[0], args[0].W, t.W, true)
	case "trunc":
		return resize(args[0], args[0].W, t.W, false)
	case "not":
		return bnot(args[0])
	case "eq0":
		return beq(args[0], mkInt(args[0].W, 0))
	case "eq":
		return beq(args[0], args[1])
	case "isnil":
		return beq(args[0], tNil)
	case "slt":
		return bslt(args[0], args[1])
	case "ult":
		return bult(args[0], args[1])
	case "len":
		return mkLen(args[0])
	case "slice":
		return mkSlice(args[0], args[1], args[2], t.Typ)
	case "field":
		i, _ := strconv.Atoi(t.Aux)
		return mkField(args[0], i, t.Typ)
	case "fadd", "fmul", "fsub", "fdiv", "flt", "fle", "feq", "fneg", "i2f", "u2f", "call":
		if r := refold(t, args); r != nil {
			return r
		}
	}
	r := mk(t.Op, t.Aux, t.W, args...)
	if r.Typ == nil {
		r.Typ = t.Typ
	}
	if r.Fn == nil {
		r.Fn = t.Fn
	}
	return r
}

// subst replaces terms by others, renormalising.
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}
