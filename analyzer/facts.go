package main

// Facts known on a path: truth of boolean terms, and linear bounds.

import (
	"go/types"
	"math/bits"
	"sort"
)

// lin is sum(k*atom) + c <= 0 over mathematical integers.
type lin struct {
	k map[*Term]int64
	c int64
}

type fact struct {
	cond *Term
	val  bool
	lins []lin
	up   *fact
	n    int
}

func toLin(t *Term) (lin, bool) {
	l := lin{k: map[*Term]int64{}}
	strip := func(a *Term) *Term {
		for a.Op == "zext" {
			a = a.Args[0]
		}
		return a
	}
	switch t.Op {
	case "int":
		l.c = t.sval()
		if t.W < 64 {
			l.c = int64(t.V)
		}
		return l, true
	case "zext":
		return toLin(t.Args[0])
	case "poly":
		for _, m := range t.Monos {
			c := mkInt(t.W, m.coef).sval()
			var a *Term
			if len(m.atoms) == 1 {
				a = strip(m.atoms[0])
			} else {
				as := make([]*Term, len(m.atoms))
				for i := range as {
					as[i] = strip(m.atoms[i])
				}
				sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
				a = mk("prod", "", 64, as...)
			}
			if a.Op == "poly" { // zext of a polynomial of smaller width
				return l, false
			}
			l.k[a] += c
		}
		l.c = mkInt(t.W, t.V).sval()
		return l, true
	}
	l.k[strip(t)] = 1
	return l, true
}

// span is the interval that a term is in when computed over mathematical integers.
func (l lin) span() (lo, hi int64, ok bool) {
	lo, hi = l.c, l.c
	for a, k := range l.k {
		if a.Op == "prod" || a.W >= 64 || a.W == 0 {
			return 0, 0, false
		}
		m := int64(maxVal(a))
		if m >= 1<<32 || k > 1<<20 || k < -1<<20 {
			return 0, 0, false
		}
		if k > 0 {
			hi += k * m
		} else {
			lo += k * m
		}
	}
	return lo, hi, true
}

// toULin is toLin for terms of less than 64 bits that are seen as unsigned: it fails if the
// arithmetic may wrap around.
func toULin(t *Term) (lin, bool) {
	l, ok := toLin(t)
	if !ok || t.W >= 64 || t.Op != "poly" {
		return l, ok
	}
	lo, hi, ok := l.span()
	if d := int64(maskW(t.W)) + 1; ok && lo < 0 && lo+d >= 0 && hi+d < d {
		l.c += d // all of it wraps around
		return l, true
	}
	return l, ok && lo >= 0 && hi <= int64(maskW(t.W))
}

// toULin is the same where facts may exclude that the arithmetic wraps around.
func (f *fact) toULin(t *Term) (lin, bool) {
	l, ok := toULin(t)
	if ok || f == nil || t.W >= 64 || t.Op != "poly" {
		return l, ok
	}
	if l, ok = toLin(t); !ok {
		return l, false
	}
	within := func(l lin, w int) bool {
		return f.entails(l.neg()) && f.entails(l.plus(lin{c: int64(maskW(w))}, -1))
	}
	for a, k := range l.k {
		if a.Op == "trunc" {
			if x, ok := toLin(a.Args[0]); ok && within(x, a.W) {
				l = l.plus(lin{k: map[*Term]int64{a: 1}}, -k).plus(x, k)
			}
		}
	}
	return l, within(l, t.W)
}

// toZLin is toLin for a difference that is compared with zero.
func toZLin(t *Term) (lin, bool) {
	l, ok := toLin(t)
	if !ok || t.W >= 64 || t.Op != "poly" {
		return l, ok
	}
	lo, hi, ok := l.span()
	return l, ok && lo > -int64(maskW(t.W))-1 && hi <= int64(maskW(t.W))
}

func (a lin) plus(b lin, s int64) lin {
	r := lin{k: map[*Term]int64{}, c: a.c + s*b.c}
	for x, v := range a.k {
		r.k[x] = v
	}
	for x, v := range b.k {
		r.k[x] += s * v
		if r.k[x] == 0 {
			delete(r.k, x)
		}
	}
	return r
}

func (a lin) neg() lin { return lin{}.plus(a, -1) }

func atomNonNeg(t *Term) bool {
	if t.Op == "prod" {
		for _, a := range t.Args {
			if !atomNonNeg(a) {
				return false
			}
		}
		return true
	}
	if t.W < 64 && t.W > 0 {
		if t.Typ == nil || isUnsigned(t.Typ) {
			return true
		}
	}
	return nonNeg(t)
}

// trivially: is l <= 0 whatever its atoms?
func (l lin) trivial() bool {
	c := l.c
	for a, k := range l.k {
		if k < 0 {
			if !atomNonNeg(a) {
				return false
			}
			continue
		}
		if k > 0 {
			if a.Op == "prod" {
				return false
			}
			m := maxVal(a)
			if m >= 1<<31 || k > 1<<31 {
				return false
			}
			c += k * int64(m)
		}
	}
	return c <= 0
}

func (f *fact) entails(q lin) bool {
	if q.trivial() {
		return true
	}
	var all []lin
	for x := f; x != nil; x = x.up {
		all = append(all, x.lins...)
	}
	for i := range all {
		r := q.plus(all[i], -1)
		if r.trivial() {
			return true
		}
	}
	for i := range all {
		r := q.plus(all[i], -1)
		if len(r.k) > len(q.k)+1 {
			continue
		}
		for j := i; j < len(all); j++ {
			if r.plus(all[j], -1).trivial() {
				return true
			}
		}
	}
	return false
}

func (f *fact) lookup(c *Term) (bool, bool) {
	for x := f; x != nil; x = x.up {
		if x.cond == c {
			return x.val, true
		}
	}
	return false, false
}

// decide returns the truth of c if it is known.
func (f *fact) decide(c *Term) (val, known bool) {
	switch c.Op {
	case "true":
		return true, true
	case "false":
		return false, true
	case "not":
		v, k := f.decide(c.Args[0])
		return !v, k
	}
	if v, k := f.lookup(c); k {
		return v, k
	}
	switch c.Op {
	case "eq0":
		l, ok := toZLin(c.Args[0])
		if !ok {
			return f.decideEq0(c.Args[0])
		}
		le, ge := f.entails(l), f.entails(l.neg())
		if le && ge {
			return true, true
		}
		if v, known := f.decideEq0(c.Args[0]); known {
			return v, known
		}
		// p < 0 or p > 0
		one := lin{c: 1}
		if le && f.entails(l.plus(one, 1)) || ge && f.entails(l.neg().plus(one, 1)) {
			return false, true
		}
	case "slt":
		if v, k := f.lookup(bslt(c.Args[1], c.Args[0])); k && v {
			return false, true
		}
		return f.decideLess(c.Args[0], c.Args[1])
	case "ult":
		a, b := c.Args[0], c.Args[1]
		if v, k := f.lookup(bult(b, a)); k && v {
			return false, true
		}
		if x, ok := f.wide(a); ok && b.isInt() {
			return f.decideLess(x, mkInt(x.W, b.V))
		}
		if x, ok := f.wide(b); ok && a.isInt() {
			return f.decideLess(mkInt(x.W, a.V), x)
		}
		if b.isInt() && !a.isInt() {
			lo, hi := f.urange(a)
			if hi < b.V {
				return true, true
			}
			if lo >= b.V {
				return false, true
			}
		}
		la, ok1 := f.toULin(a)
		lb, ok2 := f.toULin(b)
		if ok1 && ok2 && f.entailsNonNeg(la) && f.entailsNonNeg(lb) {
			return f.decideLin(a, b, la, lb)
		}
	case "typeis":
		return f.decideType(c)
	case "mapok":
		return f.decideKey(c)
	case "isnil":
		x := c.Args[0]
		if nonNilTerm(x) {
			return false, true
		}
		// a value that was found to have a type is not nil
		for y := f; y != nil; y = y.up {
			if y.cond.Op == "typeis" && y.val && y.cond.Args[0] == x {
				return false, true
			}
			// equal to something that is not nil
			if y.cond.Op == "eq" && y.val {
				if y.cond.Args[0] == x && nonNilTerm(y.cond.Args[1]) || y.cond.Args[1] == x && nonNilTerm(y.cond.Args[0]) {
					return false, true
				}
			}
		}
	case "eq":
		// one side nil
		for i := 0; i < 2; i++ {
			if v, k := f.lookup(mk("isnil", "", 0, c.Args[i])); k && v {
				return f.decide(beq(tNil, c.Args[1-i]))
			}
		}
	}
	return false, false
}

// constMaps are the entries of the maps of constants that terms refer to.
var constMaps = map[*Term]map[*Term]*Term{}

// decideKey: is the key one of those of a map of constants?
func (f *fact) decideKey(c *Term) (bool, bool) {
	if c.Op != "mapok" || c.Args[1].W == 0 {
		return false, false
	}
	var ks []uint64
	for k := range constMaps[c.Args[0]] {
		if k.Op != "int" {
			return false, false
		}
		ks = append(ks, k.V)
	}
	x := c.Args[1]
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	none := len(ks) > 0
	for i := 0; i < len(ks); {
		j := i + 1
		for j < len(ks) && ks[j] == ks[j-1]+1 {
			j++
		}
		below, above := bult(x, mkInt(x.W, ks[i])), bult(mkInt(x.W, ks[j-1]), x)
		if isFalse(f, below) && isFalse(f, above) {
			return true, true
		}
		none = none && (isTrue(f, below) || isTrue(f, above))
		i = j
	}
	return false, none
}

// wide is the term that t is a truncation of, if nothing is lost by it.
func (f *fact) wide(t *Term) (*Term, bool) {
	if t.Op != "trunc" || t.W >= 63 {
		return nil, false
	}
	x := t.Args[0]
	if x.W != 64 {
		return nil, false
	}
	l, ok := toLin(x)
	if !ok || !f.entails(l.neg()) || !f.entails(l.plus(lin{c: -int64(maskW(t.W))}, 1)) {
		return nil, false
	}
	return x, true
}

func (f *fact) decideEq0(t *Term) (bool, bool) {
	if x, k, ok := offsetOf(t); ok && !nonNeg(x) {
		lo, hi := f.urange(x)
		if k < lo || k > hi {
			return false, true
		}
		if lo == hi {
			return true, true
		}
	}
	return false, false
}

// offsetOf: p is zero just if x is k.
func offsetOf(p *Term) (x *Term, k uint64, ok bool) {
	if p.Op != "poly" {
		return p, 0, p.W > 0 && !p.isInt()
	}
	if len(p.Monos) != 1 || len(p.Monos[0].atoms) != 1 {
		return nil, 0, false
	}
	m := p.Monos[0]
	switch m.coef & maskW(p.W) {
	case 1:
		return m.atoms[0], -p.V & maskW(p.W), true
	case maskW(p.W):
		return m.atoms[0], p.V, true
	}
	return nil, 0, false
}

// urange is the interval that an unsigned term is known to be in.
func (f *fact) urange(x *Term) (lo, hi uint64) {
	hi = maxVal(x)
	if x.Op == "trunc" {
		if l, h := f.urange(x.Args[0]); h <= maskW(x.W) {
			lo, hi = l, min64(hi, h)
		}
	}
	for again := true; again; {
		again = false
		for y := f; y != nil; y = y.up {
			c := y.cond
			if c == nil {
				continue
			}
			switch c.Op {
			case "ult":
				if c.Args[0] == x && c.Args[1].isInt() {
					if k := c.Args[1].V; y.val && k > 0 && k-1 < hi {
						hi, again = k-1, true
					} else if !y.val && k > lo {
						lo, again = k, true
					}
				}
			case "eq0":
				z, k, ok := offsetOf(c.Args[0])
				if !ok || z != x {
					continue
				}
				if y.val && (lo < k || hi > k) {
					if k < lo || k > hi {
						return lo, hi
					}
					lo, hi, again = k, k, true
				} else if !y.val && k == lo && lo < hi {
					lo, again = lo+1, true
				} else if !y.val && k == hi && lo < hi {
					hi, again = hi-1, true
				}
			}
		}
	}
	return lo, hi
}

func (f *fact) entailsNonNeg(l lin) bool { return f.entails(l.neg()) }

func (f *fact) decideLess(a, b *Term) (bool, bool) {
	la, ok1 := toLin(a)
	lb, ok2 := toLin(b)
	if !ok1 || !ok2 {
		return false, false
	}
	return f.decideLin(a, b, la, lb)
}

func (f *fact) decideLin(a, b *Term, la, lb lin) (bool, bool) {
	d := la.plus(lb, -1) // a-b
	lt := d.plus(lin{c: 1}, 1)
	if f.entails(lt) {
		return true, true
	}
	if f.entails(d.neg()) {
		return false, true
	}
	if v, k := f.lookup(beq(a, b)); k && !v && f.entails(d) {
		return true, true
	}
	return false, false
}

var typeReg = map[string]types.Type{}

func regType(t types.Type) string {
	s := types.TypeString(t, nil)
	typeReg[s] = t
	return s
}

// decideType decides typeis<T>(x) from what is known of the dynamic type of x.
func (f *fact) decideType(c *Term) (bool, bool) {
	x := c.Args[0]
	want := typeReg[c.Aux]
	for y := f; y != nil; y = y.up {
		if y.cond.Op == "isnil" && y.val && y.cond.Args[0] == x {
			return false, true
		}
		if y.cond.Op == "typeis" && y.cond.Args[0] == x {
			have := typeReg[y.cond.Aux]
			if have == nil || want == nil {
				continue
			}
			if y.val {
				if !types.IsInterface(have) {
					if types.IsInterface(want) {
						return types.Implements(have, want.Underlying().(*types.Interface)), true
					}
					return types.Identical(have, want), true
				}
				if types.IsInterface(want) && types.Implements(have, want.Underlying().(*types.Interface)) {
					return true, true
				}
			}
		}
	}
	return false, false
}

// assume adds c == val. It returns nil, false if that contradicts what is known.
func (f *fact) assume(c *Term, val bool) (*fact, bool) {
	for c.Op == "not" {
		c = c.Args[0]
		val = !val
	}
	if v, k := f.decide(c); k {
		return f, v == val
	}
	n := &fact{cond: c, val: val, up: f}
	switch c.Op {
	case "eq0":
		if l, ok := toZLin(c.Args[0]); ok && val {
			n.lins = append(n.lins, l, l.neg())
		} else if ok {
			// p != 0 and p <= 0 gives p <= -1
			if f.entails(l) {
				n.lins = append(n.lins, l.plus(lin{c: 1}, 1))
			} else if f.entails(l.neg()) {
				n.lins = append(n.lins, l.neg().plus(lin{c: 1}, 1))
			}
		}
	case "slt", "ult":
		la, ok1 := toLin(c.Args[0])
		lb, ok2 := toLin(c.Args[1])
		if c.Op == "ult" {
			la, ok1 = f.toULin(c.Args[0])
			lb, ok2 = f.toULin(c.Args[1])
		}
		if ok1 && ok2 {
			d := la.plus(lb, -1)
			if c.Op == "slt" {
				if val {
					n.lins = append(n.lins, d.plus(lin{c: 1}, 1))
				} else {
					n.lins = append(n.lins, d.neg())
				}
			} else if c.Args[0].W < 64 {
				if val {
					n.lins = append(n.lins, d.plus(lin{c: 1}, 1))
				} else {
					n.lins = append(n.lins, d.neg())
				}
			} else if val && f.entailsNonNeg(lb) {
				n.lins = append(n.lins, d.plus(lin{c: 1}, 1), la.neg())
			} else if !val && f.entailsNonNeg(la) {
				// b <= a unsigned and a >= 0 signed: b is in [0,a]
				n.lins = append(n.lins, lb.plus(la, -1), lb.neg())
			}
		}
	}
	return n, true
}

// upper is an upper bound of a term computed without wrapping around, as an unsigned number.
func (f *fact) upper(t *Term) (uint64, bool) {
	switch t.Op {
	case "int":
		return t.V, true
	case "zext":
		return f.upper(t.Args[0])
	case "sdiv", "udiv":
		if k := t.Args[1]; k.isInt() && k.sval() > 0 {
			if m, ok := f.upper(t.Args[0]); ok && m <= maskW(t.W)>>1 {
				return m / k.V, true
			}
		}
	case "ashr", "lshr":
		if k := t.Args[1]; k.isInt() && k.V < 64 {
			if m, ok := f.upper(t.Args[0]); ok && m <= maskW(t.W)>>1 {
				return m >> k.V, true
			}
		}
	case "poly":
		if t.W != 64 {
			break
		}
		s := t.V
		for _, mo := range t.Monos {
			p := mo.coef
			for _, a := range mo.atoms {
				m, ok := f.upper(a)
				if !ok {
					return 0, false
				}
				hi, lo := bits.Mul64(p, m)
				if hi != 0 {
					return 0, false
				}
				p = lo
			}
			var c uint64
			if s, c = bits.Add64(s, p, 0); c != 0 {
				return 0, false
			}
		}
		return s, true
	}
	if t.W == 0 {
		return 0, false
	}
	_, hi := f.urange(t)
	return hi, true
}

// nonNegIn: is t, seen as signed, not negative on this path?
func (f *fact) nonNegIn(t *Term) bool {
	if nonNeg(t) || isFalse(f, bslt(t, mkInt(t.W, 0))) {
		return true
	}
	m, ok := f.upper(t)
	return ok && m <= maskW(t.W)>>1
}

func min64(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}
