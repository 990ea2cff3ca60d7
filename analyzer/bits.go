package main

// Bit provenance: where each bit of a term comes from.

// bit is a constant (atom nil) or bit i of an atom, possibly inverted.
type bit struct {
	atom *Term
	i    int
	one  bool // constant one
	bad  bool // unknown
}

var bit0 = bit{}
var bit1 = bit{one: true}

func (b bit) isZero() bool { return b.atom == nil && !b.one && !b.bad }

// bitsOf lists the w bits of t, the least significant first.
func bitsOf(t *Term) []bit { return bitsIn(nil, t) }

// bitsIn is bitsOf where bits that the facts show to be zero are known to be.
func bitsIn(f *fact, t *Term) []bit {
	w := t.W
	r := make([]bit, w)
	unknown := func() []bit {
		m := maxVal(t)
		if f != nil {
			_, m = f.bound(t)
		}
		for i := range r {
			if i < 64 && m>>uint(i) == 0 {
				r[i] = bit0
				continue
			}
			r[i] = bit{atom: t, i: i}
		}
		return r
	}
	arg := func(i int) []bit { return bitsIn(f, t.Args[i]) }
	switch t.Op {
	case "int":
		for i := range r {
			if i < 64 && t.V>>uint(i)&1 == 1 {
				r[i] = bit1
			}
		}
		return r
	case "zext", "trunc", "sext":
		a := arg(0)
		for i := range r {
			switch {
			case i < len(a):
				r[i] = a[i]
			case t.Op == "sext":
				r[i] = a[len(a)-1]
			}
		}
		return r
	case "and", "or", "xor":
		a, b := arg(0), arg(1)
		for i := range r {
			x, y := a[i], b[i]
			if x.atom == nil && !x.bad {
				x, y = y, x
			}
			// y is the constant, if there is one
			if y.atom != nil || y.bad {
				if x == y && !x.bad {
					r[i] = x
					if t.Op == "xor" {
						r[i] = bit0
					}
				} else {
					r[i] = bit{bad: true}
				}
				continue
			}
			switch {
			case t.Op == "and" && y.one, t.Op == "or" && !y.one, t.Op == "xor" && !y.one:
				r[i] = x
			case t.Op == "and":
				r[i] = bit0
			case t.Op == "or":
				r[i] = bit1
			case x.atom == nil && !x.bad:
				r[i] = bit{one: !x.one}
			default:
				r[i] = bit{bad: true}
			}
		}
		return r
	case "shl", "lshr":
		if !t.Args[1].isInt() {
			return unknown()
		}
		a, n := arg(0), int(t.Args[1].V)
		for i := range r {
			j := i - n
			if t.Op == "lshr" {
				j = i + n
			}
			if j >= 0 && j < len(a) {
				r[i] = a[j]
			}
		}
		return r
	case "poly":
		// a common factor is a shift
		if n := commonShift(t); n > 0 {
			ms, c := polyOf(t)
			for key, m := range ms {
				m.coef >>= uint(n)
				ms[key] = m
			}
			x := bitsIn(f, fromPoly(w, ms, c>>uint(n)))
			copy(r[n:], x)
			return r
		}
		// a sum of shifted terms whose bits do not meet
		for i := range r {
			if t.V>>uint(i)&1 == 1 {
				r[i] = bit1
			}
		}
		for _, m := range t.Monos {
			k, ok := log2(m.coef)
			if !ok || len(m.atoms) != 1 {
				return unknown()
			}
			a := bitsIn(f, m.atoms[0])
			for i := range r {
				if i-k < 0 || i-k >= len(a) {
					continue
				}
				x := a[i-k]
				switch {
				case x.isZero():
				case r[i].isZero():
					r[i] = x
				default:
					return unknown()
				}
			}
		}
		return r
	}
	return unknown()
}

// commonShift: the largest power of two that all terms of a sum have as a factor.
func commonShift(t *Term) int {
	n := 0
	for n < t.W-1 {
		bad := t.V>>uint(n)&1 == 1
		for _, m := range t.Monos {
			bad = bad || m.coef>>uint(n)&1 == 1
		}
		if bad {
			break
		}
		n++
	}
	return n
}

// sameBits: do two terms have the same bits?
func sameBits(a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.W != b.W || a.W == 0 {
		return false
	}
	x, y := bitsOf(a), bitsOf(b)
	for i := range x {
		if x[i] != y[i] || x[i].bad {
			return false
		}
	}
	return true
}

// bitRange: the least and the greatest value that a term may have by the bits that are known.
func bitRange(t *Term) (lo, hi uint64) {
	for i, b := range bitsOf(t) {
		switch {
		case b.atom == nil && !b.bad:
			if b.one {
				lo |= 1 << uint(i)
				hi |= 1 << uint(i)
			}
		default:
			hi |= 1 << uint(i)
		}
	}
	return
}

// decideBits decides a comparison by the bits of its operands that are known.
func decideBits(c *Term) (bool, bool) {
	if c == nil {
		return false, false
	}
	if c.Op == "not" {
		v, ok := decideBits(c.Args[0])
		return !v, ok
	}
	if c.Op == "eq0" && c.Args[0].W != 0 {
		a := c.Args[0]
		if a.Op == "poly" && a.V != 0 {
			// x + v is zero: x is -v
			v := mkInt(a.W, a.V)
			return decideBits(mk("eq", "", 0, isub(a, v), isub(mkInt(a.W, 0), v)))
		}
		lo, hi := bitRange(a)
		return hi == 0, hi == 0 || lo > 0
	}
	if len(c.Args) != 2 || c.Args[0].W == 0 || c.Args[0].W != c.Args[1].W {
		return false, false
	}
	a, b := c.Args[0], c.Args[1]
	al, ah := bitRange(a)
	bl, bh := bitRange(b)
	switch c.Op {
	case "eq":
		x, y := bitsOf(a), bitsOf(b)
		same := true
		for i := range x {
			kx, ky := x[i].atom == nil && !x[i].bad, y[i].atom == nil && !y[i].bad
			if kx && ky && x[i].one != y[i].one {
				return false, true
			}
			if x[i].bad || y[i].bad || x[i] != y[i] {
				same = false
			}
		}
		if same {
			return true, true
		}
		if ah < bl || bh < al {
			return false, true
		}
	case "slt":
		// the sign bit the other way round makes it a comparison without sign
		flip := func(t *Term) (lo, hi uint64) {
			s := uint64(1) << uint(t.W-1)
			lo, hi = bitRange(t)
			switch {
			case lo&s != 0:
				return lo &^ s, hi &^ s
			case hi&s == 0:
				return lo | s, hi | s
			}
			return lo &^ s, hi | s
		}
		al, ah = flip(a)
		bl, bh = flip(b)
		fallthrough
	case "ult":
		if ah < bl {
			return true, true
		}
		if al >= bh {
			return false, true
		}
	}
	return false, false
}

// leadingZeros of a term whose highest bits are known as far as the first that is one.
func leadingZeros(t *Term) (int, bool) {
	bs := bitsOf(t)
	for i := len(bs) - 1; i >= 0; i-- {
		if b := bs[i]; b.bad || b.atom != nil {
			return 0, false
		} else if b.one {
			return len(bs) - 1 - i, true
		}
	}
	return len(bs), true
}

func trailingZeros(t *Term) (int, bool) {
	bs := bitsOf(t)
	for i, b := range bs {
		if b.bad || b.atom != nil {
			return 0, false
		} else if b.one {
			return i, true
		}
	}
	return len(bs), true
}
