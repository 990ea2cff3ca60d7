package main

// C24: buckets are independent and saturate. The index of a bucket is taken as 8q+r: the width and
// r range over all their values, q stays symbolic, and every bit of what is read or written is
// followed to where it comes from.

import (
	"go/token"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// bbCell is one width and alignment.
type bbCell struct {
	w, r    int
	b, i    *Term
	q       *Term // zero extended
	data, n *Term
	cfg     *Config
}

func (c *Check) bbFields() (data, n, w int, st types.Type, ok bool) {
	fn := c.fn(bbPkg, "BitBucket.Get")
	if fn == nil {
		return
	}
	st = deref(fn.Params[0].Type())
	s := structOf(st)
	data, n, w = -1, -1, -1
	for i := 0; s != nil && i < s.NumFields(); i++ {
		switch s.Field(i).Name() {
		case "data":
			data = i
		case "n":
			n = i
		case "w":
			w = i
		}
	}
	ok = c.must(data >= 0 && n >= 0 && w >= 0, "layout", "fields", fn.Pos(), "the fields of a bit bucket are not known")
	return
}

func (c *Check) cell(fn *ssa.Function, w, r int) *bbCell {
	fd, fnn, fw, st, _ := c.bbFields()
	s := structOf(st)
	x := &bbCell{w: w, r: r}
	x.b = leaf("bits", fn.Params[0].Type(), &Def{Kind: "param", Index: 0, Name: "b"})
	q := leaf("q", types.Typ[types.Uint32], &Def{Kind: "param", Index: 1, Name: "q"})
	x.q = resize(q, 32, 64, false)
	x.i = iadd(imul(mkInt(64, 8), x.q), mkInt(64, uint64(r)))
	x.data = leaf("bits.data", s.Field(fd).Type(), &Def{Kind: "param", Index: 0, Name: "data"})
	x.n = leaf("bits.n", s.Field(fnn).Type(), &Def{Kind: "param", Index: 0, Name: "n"})
	m := newMemory()
	m.put(mkFA(x.b, fd, st), x.data, s.Field(fd).Type())
	m.put(mkFA(x.b, fnn, st), x.n, s.Field(fnn).Type())
	m.put(mkFA(x.b, fw, st), mkInt(8, uint64(w)), s.Field(fw).Type())
	x.cfg = &Config{Start: m, Bounds: true, Unroll: 8, Params: []*Term{x.b, x.i}}
	x.cfg.Assume = func(it *Interp, st *State, ps []*Term) {
		// the bits of bucket i end within the data
		last := iadd(imul(mkInt(64, uint64(w)), x.q), mkInt(64, uint64((r*w+w-1)/8)))
		for _, t := range []*Term{bslt(last, mkLen(x.data)), bslt(x.i, x.n)} {
			if f, ok := st.facts.assume(t, true); ok {
				st.facts = f
			}
		}
	}
	return x
}

// pos is a bit of the data: bit k of byte w*q+c.
type pos struct{ c, k int }

// elemAt: the offset c of an address of byte w*q+c of the data.
func (x *bbCell) elemAt(a *Term) (int, bool) {
	if a.Op != "ia" || a.Args[0] != x.data {
		return 0, false
	}
	d := isub(a.Args[1], imul(mkInt(64, uint64(x.w)), x.q))
	if !d.isInt() || d.sval() < -8 || d.sval() > 64 {
		return 0, false
	}
	return int(d.sval()), true
}

func (x *bbCell) bit(b bit) (pos, bool) {
	if b.bad || b.atom == nil || b.atom.Op != "load" {
		return pos{}, false
	}
	c, ok := x.elemAt(b.atom.Args[0])
	return pos{c, b.i}, ok
}

// inBounds checks the indexes used on a path.
func (c *Check) bbBounds(who string, x *bbCell, p *Path) bool {
	for _, e := range p.Events {
		if e.Kind != EvIndex {
			continue
		}
		n := e.Args[1]
		for j, i := range e.Args[2:] {
			lo := bslt(i, mkInt(64, 0))
			if v, k := e.Facts.decide(lo); !(k && !v) && !nonNeg(i) {
				c.fail("bounds:"+who, e.Pos, "width %d, bucket 8q+%d: index %s may be negative", x.w, x.r, i)
				return false
			}
			hi := bslt(i, n)
			want := true
			if e.Aux == "slice" {
				hi, want = bslt(n, i), false
				if j == 0 && len(e.Args) == 4 {
					hi = bslt(e.Args[3], i)
				}
			}
			if v, k := e.Facts.decide(hi); !k || v != want {
				c.fail("bounds:"+who, e.Pos, "width %d, bucket 8q+%d: index %s may be beyond the end of the data", x.w, x.r, i)
				return false
			}
		}
		c.ok("within the data")
	}
	return true
}

func (x *bbCell) String() string {
	return "width " + strconv.Itoa(x.w) + ", bucket 8q+" + strconv.Itoa(x.r)
}

// bound is the range of an unsigned term, from comparisons with constants and what follows from
// linear facts.
func (f *fact) bound(t *Term) (lo, hi uint64) {
	lo, hi = f.urange(t)
	if t.W >= 64 {
		return
	}
	l, ok := f.toULin(t)
	if !ok {
		return
	}
	for k := uint(0); k < 9; k++ {
		m := uint64(1)<<k - 1
		if m < hi && f.entails(l.plus(lin{c: -int64(m)}, 1)) {
			hi = m
		}
		if m > lo && f.entails(lin{c: int64(m)}.plus(l, -1)) {
			lo = m
		}
	}
	return
}

// valueMap finds where the bits of bucket 8q+r are, from Get.
func (c *Check) valueMap(fn *ssa.Function, w, r int) ([]pos, bool) {
	x := c.cell(fn, w, r)
	it := c.run(fn, x.cfg)
	who := relName(c.P, fn)
	var m []pos
	for _, p := range it.Paths {
		if p.Out == OutBack {
			continue
		}
		if !c.must(p.Out == OutReturn && len(p.Ret) == 1, "returns", who, p.Pos, "%s: it ends with %s", x, p.Out) || !c.bbBounds(who, x, p) {
			return nil, false
		}
		bs := bitsIn(p.Facts, p.Ret[0])
		var l []pos
		for j, b := range bs {
			if j >= w {
				if !c.must(b.isZero(), "no more than the bucket", who, p.Pos, "%s: bit %d of the value read is not zero", x, j) {
					return nil, false
				}
				continue
			}
			ps, ok := x.bit(b)
			if !c.must(ok, "a bucket is bits of the data", who, p.Pos, "%s: it is unclear where bit %d of the value comes from: %s", x, j, p.Ret[0]) {
				return nil, false
			}
			l = append(l, ps)
		}
		for _, e := range p.Events {
			if e.Kind == EvStore && !it.local(e.Addr) {
				c.fail("reads:"+who, e.Pos, "reading a bucket writes to %s", e.Addr)
			}
		}
		if m != nil {
			for j := range m {
				if !c.must(m[j] == l[j], "one place", who, p.Pos, "%s: the bits of the bucket are not always in the same place", x) {
					return nil, false
				}
			}
		}
		m = l
	}
	return m, c.must(m != nil, "readable", who, fn.Pos(), "%s: a bucket can never be read", x)
}

func c24(c *Check) {
	for w := 1; w <= 8; w++ {
		if !c.separate(w, true) {
			return
		}
	}
	c.bbOther()
	c.bbNew()
	c.mutators(bbPkg, "BitBucket", map[string]bool{"Set": true, "IncN": true, "Reset": true, "ReadFrom": true})
}

// separate: buckets of width w keep what is stored in them, and only they.
func (c *Check) separate(w int, incs bool) bool {
	get := c.fn(bbPkg, "BitBucket.Get")
	set := c.fn(bbPkg, "BitBucket.Set")
	inc := c.fn(bbPkg, "BitBucket.IncN")
	if get == nil || set == nil || inc == nil {
		return false
	}
	if _, _, _, _, ok := c.bbFields(); !ok {
		return false
	}
	maps := [8][]pos{}
	owner := map[int]int{}
	for r := 0; r < 8; r++ {
		m, ok := c.valueMap(get, w, r)
		if !ok {
			return false
		}
		maps[r] = m
		for _, p := range m {
			// position of the bit, modulo the bits that eight buckets take
			k := ((8*p.c+p.k)%(8*w) + 8*w) % (8 * w)
			if o, dup := owner[k]; !c.must(!dup, "buckets are apart", relName(c.P, get), get.Pos(), "width %d: buckets 8q+%d and 8q+%d share a bit", w, o, r) {
				return false
			}
			owner[k] = r
		}
	}
	for r := 0; r < 8; r++ {
		if !c.changes(set, w, r, maps[r], false) || incs && !c.changes(inc, w, r, maps[r], true) {
			return false
		}
	}
	return true
}

// changes checks that fn stores the capped value (or sum) in the bits of bucket 8q+r and leaves
// everything else alone.
func (c *Check) changes(fn *ssa.Function, w, r int, m []pos, inc bool) bool {
	x := c.cell(fn, w, r)
	it := c.run(fn, x.cfg)
	who := relName(c.P, fn)
	v := it.Params[2]
	max := uint64(1)<<uint(w) - 1
	n := 0
	for _, p := range it.Paths {
		if p.Out == OutBack {
			continue
		}
		if !c.must(p.Out == OutReturn, "returns", who, p.Pos, "%s: it ends with %s", x, p.Out) || !c.bbBounds(who, x, p) {
			return false
		}
		n++
		bytes := map[int]bool{}
		for _, ps := range m {
			bytes[ps.c] = true
		}
		for _, e := range p.Events {
			switch e.Kind {
			case EvStore:
				if it.local(e.Addr) {
					continue
				}
				k, ok := x.elemAt(e.Addr)
				if !c.must(ok, "stores to the data only", who, e.Pos, "%s: it writes to %s", x, e.Addr) {
					return false
				}
				bytes[k] = true
			case EvCopy, EvCall:
				c.fail("stores:"+who, e.Pos, "%s: %s", x, "it is unclear what this changes")
				return false
			}
		}
		at := map[pos]int{}
		for j, ps := range m {
			at[ps] = j
		}
		var old = make([]bit, w)
		var got = make([]bit, w)
		for k := range bytes {
			a := mkIA(x.data, iadd(imul(mkInt(64, uint64(w)), x.q), mkInt(64, uint64(k))), nil)
			before := bitsOf(x.cfg.Start.clone().load(it, p.St, it.Root.Blocks[0].Instrs[0], a, types.Typ[types.Uint8]))
			after := bitsIn(p.Facts, p.St.mem.load(it, p.St, it.Root.Blocks[0].Instrs[0], a, types.Typ[types.Uint8]))
			for i := 0; i < 8; i++ {
				if j, mine := at[pos{k, i}]; mine {
					old[j], got[j] = before[i], after[i]
					continue
				}
				if !c.must(after[i] == before[i], "other buckets keep their value", who, p.Pos, "%s: bit %d of byte wq%+d is not part of the bucket, and may change", x, i, k) {
					return false
				}
			}
		}
		ok, why := false, ""
		if inc {
			ok, why = incremented(p.Facts, v, max, old, got)
		} else {
			ok, why = stored(p.Facts, v, max, got)
		}
		if !c.must(ok, "the capped value is stored", who, p.Pos, "%s: %s", x, why) {
			return false
		}
	}
	return c.must(n > 0, "returns", who, fn.Pos(), "%s: it never returns", x)
}

func ones(l []bit) bool {
	for _, b := range l {
		if b != bit1 {
			return false
		}
	}
	return true
}

// eqBits finds bits that are equal on a path, and gives each a representative.
func eqBits(f *fact) func(bit) bit {
	m := map[bit]bit{}
	var rep func(b bit) bit
	rep = func(b bit) bit {
		if r, ok := m[b]; ok {
			return rep(r)
		}
		return b
	}
	for y := f; y != nil; y = y.up {
		if y.cond == nil || y.cond.Op != "eq0" || !y.val {
			continue
		}
		// a term on the one side, the rest on the other
		ms, k := polyOf(y.cond.Args[0])
		w := y.cond.Args[0].W
		for key, x := range ms {
			if len(x.atoms) != 1 || x.coef&maskW(w) != 1 && x.coef&maskW(w) != maskW(w) {
				continue
			}
			rest := map[string]mono{}
			for k2, z := range ms {
				if k2 != key {
					rest[k2] = z
				}
			}
			r := fromPoly(w, rest, k)
			if x.coef&maskW(w) == 1 {
				r = isub(mkInt(w, 0), r)
			}
			p, q := bitsIn(f, x.atoms[0]), bitsIn(f, r)
			for i := range p {
				a, b := rep(p[i]), rep(q[i])
				if a != b && !a.bad && !b.bad {
					if a.atom == nil {
						a, b = b, a
					}
					if a.atom != nil {
						m[a] = b
					}
				}
			}
			break
		}
	}
	return rep
}

// stored: got is min(v, max).
func stored(f *fact, v *Term, max uint64, got []bit) (bool, string) {
	rep := eqBits(f)
	g := make([]bit, len(got))
	for j := range got {
		g[j] = rep(got[j])
	}
	got = g
	lo, hi := f.bound(v)
	switch {
	case lo >= max:
		if ones(got) {
			return true, ""
		}
	}
	if hi <= max {
		for j := range got {
			want := bit{atom: v, i: j}
			if v.isInt() {
				want = bitsOf(v)[j]
			}
			if got[j] != rep(want) {
				return false, "bit " + strconv.Itoa(j) + " of the value is not stored as it is"
			}
		}
		return true, ""
	}
	if lo >= max {
		return false, "a value that does not fit is not stored as the largest one that does"
	}
	return false, "a value that is too large may be stored without being capped"
}

// incremented: got is min(old+v, max).
func incremented(f *fact, v *Term, max uint64, old, got []bit) (bool, string) {
	vlo, vhi := f.bound(v)
	// no increment, or a value that is known
	if ones(got) {
		if vlo >= max {
			return true, ""
		}
		// some sum is known to be at least max
		found := false
		sums(f, func(t *Term) {
			if isSum(f, t, v, vlo, max, old) {
				if lo, _ := f.bound(t); lo >= max {
					found = true
				}
				l, ok := toLin(t)
				if ok && f.entails(lin{c: int64(max)}.plus(l, -1)) {
					found = true
				}
			}
		})
		if !found {
			// the sum itself need not have been computed
			atoms(f, func(a *Term) {
				bs := bitsIn(f, a)
				for j := range bs {
					if j < len(old) && bs[j] != old[j] || j >= len(old) && !bs[j].isZero() {
						return
					}
				}
				la, ok1 := toLin(a)
				lv, ok2 := toLin(v)
				if ok1 && ok2 && f.entails(lin{c: int64(max)}.plus(la, -1).plus(lv, -1)) {
					found = true
				}
			})
		}
		if found {
			return true, ""
		}
		return false, "the largest value is stored where the sum may be less"
	}
	if vhi == 0 {
		for j := range got {
			if got[j] != old[j] {
				return false, "an increment by zero changes the bucket"
			}
		}
		return true, ""
	}
	for j := range got {
		if !lowSum(f, got[j], j, v, vlo, max, old) {
			return false, "bit " + strconv.Itoa(j) + " of what is stored is not that of the sum of the old value and the increment"
		}
	}
	fits := false
	atoms(f, func(a *Term) {
		bs := bitsIn(f, a)
		for j := range bs {
			if j < len(old) && bs[j] != old[j] || j >= len(old) && !bs[j].isZero() {
				return
			}
		}
		la, ok1 := toLin(a)
		lv, ok2 := toLin(v)
		if ok1 && ok2 && f.entails(la.plus(lv, 1).plus(lin{c: int64(max)}, -1)) {
			fits = true
		}
	})
	fit := func(t *Term) {
		if isSum(f, t, v, vlo, max, old) {
			if _, hi := f.bound(t); hi <= max {
				fits = true
			}
		}
	}
	sums(f, fit)
	fit(got[len(got)-1].atom)
	if fits {
		return true, ""
	}
	return false, "a sum that is too large may be stored without being capped"
}

// lowSum: b is bit j of the old value plus v. That depends on their lower bits only.
func lowSum(f *fact, b bit, j int, v *Term, vlo, max uint64, old []bit) bool {
	t := b.atom
	if b.bad || t == nil || b.i != j || t.Op != "poly" {
		return false
	}
	rest := t
	if contains(t, v) {
		rest = isub(t, resize(v, 8, t.W, false))
	} else if vlo >= max {
		rest = isub(t, mkInt(t.W, max))
	} else {
		return false
	}
	m := maskW(j + 1)
	ms, k := polyOf(rest)
	for key, x := range ms {
		x.coef &= m
		ms[key] = x
	}
	bs := bitsIn(f, fromPoly(t.W, ms, k&m))
	for i := 0; i <= j; i++ {
		if bs[i] != old[i] {
			return false
		}
	}
	return true
}

// atoms are the terms, other than sums, that the conditions of a path compare.
func atoms(f *fact, do func(*Term)) {
	for y := f; y != nil; y = y.up {
		if y.cond == nil {
			continue
		}
		subterms(y.cond, func(t *Term) bool {
			if t.Op != "poly" && t.W > 0 && t.W < 64 && !t.isInt() {
				do(t)
			}
			return true
		})
	}
}

// sums are the terms that the conditions of a path compare.
func sums(f *fact, do func(*Term)) {
	for y := f; y != nil; y = y.up {
		if y.cond == nil {
			continue
		}
		subterms(y.cond, func(t *Term) bool {
			if t.Op == "poly" {
				do(t)
			}
			return true
		})
	}
}

// isSum: t is the old value plus v, computed without overflow. v may have been capped.
func isSum(f *fact, t, v *Term, vlo, max uint64, old []bit) bool {
	if t == nil || t.Op != "poly" || t.W == 0 {
		return false
	}
	limit := max
	rest := t
	k := uint64(0)
	switch {
	case contains(t, v):
		rest = isub(t, resize(v, 8, t.W, false))
		_, k = f.bound(v)
	case vlo >= max:
		rest = isub(t, mkInt(t.W, max))
		k = max
	default:
		return false
	}
	if limit+k > maskW(t.W) {
		return false
	}
	bs := bitsOf(rest)
	for j := range bs {
		if j < len(old) {
			if bs[j] != old[j] {
				return false
			}
		} else if !bs[j].isZero() {
			return false
		}
	}
	return true
}

// bbOther: the largest value, counting and clearing.
func (c *Check) bbOther() {
	if fn := c.fn(bbPkg, "BitBucket.Max"); fn != nil {
		for w := 1; w <= 8; w++ {
			x := c.cell(fn, w, 0)
			x.cfg.Params = x.cfg.Params[:1]
			it := c.run(fn, x.cfg)
			for _, p := range it.Paths {
				c.must(p.Out == OutReturn && p.Ret[0].isInt() && p.Ret[0].V == 1<<uint(w)-1, "largest value", relName(c.P, fn), p.Pos, "the largest value of width %d is given as %v", w, p.Ret)
			}
		}
	}
	for _, a := range []struct {
		name string
		want func(x *bbCell) *Term
	}{{"Count", func(x *bbCell) *Term { return x.n }}, {"Width", func(x *bbCell) *Term { return mkInt(8, uint64(x.w)) }}} {
		fn := c.fn(bbPkg, "BitBucket."+a.name)
		if fn == nil {
			continue
		}
		for w := 1; w <= 8; w++ {
			x := c.cell(fn, w, 0)
			x.cfg.Params = x.cfg.Params[:1]
			it := c.run(fn, x.cfg)
			for _, p := range it.Paths {
				c.must(p.Out == OutReturn && p.Ret[0] == a.want(x), "says what it is", relName(c.P, fn), p.Pos, "%s returns %v", a.name, p.Ret)
			}
		}
	}
	if fn := c.fn(bbPkg, "BitBucket.Reset"); fn != nil {
		x := c.cell(fn, 6, 0)
		x.cfg.Params = x.cfg.Params[:1]
		x.cfg.Unroll = 0
		it := c.run(fn, x.cfg)
		for _, p := range it.Paths {
			if p.Out == OutBack {
				continue
			}
			done := false
			for _, z := range zeroFills(c.P, p.Events) {
				_, _, n := sliceParts(x.data)
				if z.base == x.data && z.off.isConstInt(0) && z.n == n {
					done = true
				}
			}
			c.must(p.Out == OutReturn && done, "reset clears every bucket", relName(c.P, fn), p.Pos, "it does not set all of the data to zero")
			for _, e := range p.flat() {
				if e.Kind == EvStore && !it.local(e.Addr) {
					c.must(e.Addr.Op == "ia" && e.Addr.Args[0] == x.data, "reset keeps the shape", relName(c.P, fn), e.Pos, "it writes to %s", e.Addr)
				}
			}
		}
	}
	c.countN()
}

// countN: the number of buckets with a value, over all buckets.
func (c *Check) countN() {
	fn := c.fn(bbPkg, "BitBucket.CountN")
	get := c.fn(bbPkg, "BitBucket.Get")
	if fn == nil || get == nil {
		return
	}
	who := relName(c.P, fn)
	plain := func() *bbCell {
		x := c.cell(fn, 6, 0)
		x.cfg.Params = x.cfg.Params[:1]
		x.cfg.Bounds = false
		x.cfg.Assume = nil
		return x
	}
	x := plain()
	gt := c.run(get, x.cfg)
	gi := gt.Params[1]
	it := c.run(fn, plain().cfg)
	v := it.Params[1]
	// value is what Get gives for bucket i under the conditions of path p
	value := func(p *Path, i *Term) *Term {
		var r *Term
		sg := map[*Term]*Term{gi: i}
		for _, g := range gt.Paths {
			if g.Out != OutReturn {
				continue
			}
			ok := true
			for y := g.Facts; y != nil; y = y.up {
				if y.cond == nil {
					continue
				}
				have, k := p.Facts.decide(subst(y.cond, sg))
				ok = ok && k && have == y.val
			}
			if ok {
				r = subst(g.Ret[0], sg)
			}
		}
		return r
	}
	for _, p := range it.Paths {
		if p.Out == OutBack {
			continue
		}
		if !c.must(p.Out == OutReturn, "returns", who, p.Pos, "it ends with %s", p.Out) {
			continue
		}
		var loop *Event
		for _, e := range p.Events {
			if e.Kind == EvLoop && len(backsOf(e)) > 0 {
				loop = e
			}
		}
		if loop == nil {
			z, _ := p.Facts.decide(beq(x.n, mkInt(64, 0)))
			c.must(z && p.Ret[0].isConstInt(0), "counts every bucket", who, p.Pos, "it returns %s without looking at the buckets", p.Ret[0])
			continue
		}
		idx, _, why := boundLoop(loop, after(p.Events, loop), func(n *Term) bool { return n == x.n })
		if !c.must(why == "", "counts every bucket", who, p.Pos, "not every bucket is counted: %s", why) {
			continue
		}
		cnt := p.Ret[0]
		z := loop.Init[cnt]
		if !c.must(z != nil && z.isConstInt(0), "counts every bucket", who, p.Pos, "it is unclear how %s counts the buckets", cnt) {
			continue
		}
		for _, b := range backsOf(loop) {
			r := value(b, idx)
			if !c.must(r != nil, "counts every bucket", who, b.Pos, "a bucket may be passed over") {
				continue
			}
			eq, k := b.Facts.decide(beq(r, v))
			d := isub(b.Next[cnt], cnt)
			c.must(k && (eq && d.isConstInt(1) || !eq && d.isConstInt(0)), "counts those with the value", who, b.Pos, "for a bucket with value %s the count changes by %s", r, d)
		}
	}
}

// bbNew: a new bit bucket has room for its buckets, all zero.
func (c *Check) bbNew() {
	fn := c.fn(bbPkg, "New")
	if fn == nil {
		return
	}
	who := relName(c.P, fn)
	fd, fnn, fw, st, _ := c.bbFields()
	s := structOf(st)
	it := c.run(fn, &Config{})
	n, w := it.Params[0], it.Params[1]
	ret := 0
	for _, p := range it.Paths {
		if p.Out != OutReturn {
			// refusing is right for widths that cannot be used
			good := p.Out == OutPanic
			for k := uint64(1); k <= 8; k++ {
				good = good && !sat(p.Facts, w, mkInt(8, k))
			}
			c.must(good, "every width can be used", who, p.Pos, "a width from 1 to 8 may be refused")
			continue
		}
		ret++
		d, nn, ww := mkField(p.Ret[0], fd, s.Field(fd).Type()), mkField(p.Ret[0], fnn, s.Field(fnn).Type()), mkField(p.Ret[0], fw, s.Field(fw).Type())
		c.must(nn == n && ww == w, "has the shape asked for", who, p.Pos, "the new bit bucket has %s buckets of width %s", nn, ww)
		base, _, _ := sliceParts(d)
		o := p.St.mem.objs[base]
		dirty := false
		for a := range p.St.mem.cells {
			if baseRoot(a) == base {
				dirty = true
			}
		}
		c.must(o != nil && o.zero && !dirty, "starts empty", who, p.Pos, "the data of a new bit bucket is not known to be zero")
		c.roomy(who, p.Pos, p.Facts, d, n, w)
	}
	c.must(ret > 0, "returns", who, fn.Pos(), "it never returns")
}

// sat: may x be v on this path?
func sat(f *fact, x, v *Term) bool {
	_, ok := f.assume(beq(x, v), true)
	if !ok {
		return false
	}
	for y := f; y != nil; y = y.up {
		if y.cond == nil {
			continue
		}
		t := subst(y.cond, map[*Term]*Term{x: v})
		if t.Op == "true" && !y.val || t.Op == "false" && y.val {
			return false
		}
	}
	return true
}

// roomy: the data is long enough for n buckets of width w, for every width.
func (c *Check) roomy(who string, at token.Pos, f *fact, d, n, w *Term) bool {
	_, _, ln := sliceParts(d)
	var cands []*Term
	cands = append(cands, ln)
	ll, ok := toLin(ln)
	if ok {
		for y := f; y != nil; y = y.up {
			if y.cond == nil {
				continue
			}
			subterms(y.cond, func(t *Term) bool {
				if t.W == 64 && !t.isInt() {
					if l, ok := toLin(t); ok && f.entails(l.plus(ll, -1)) {
						cands = append(cands, t)
					}
				}
				return true
			})
		}
	}
	for k := 1; k <= 8; k++ {
		if w.W == 8 && !sat(f, w, mkInt(8, uint64(k))) {
			continue
		}
		for r := 0; r < 8; r++ {
			q := resize(leaf("q", types.Typ[types.Uint32], &Def{Kind: "param", Index: 1, Name: "q"}), 32, 64, false)
			i := iadd(imul(mkInt(64, 8), q), mkInt(64, uint64(r)))
			good := false
			sg := map[*Term]*Term{n: i, w: mkInt(8, uint64(k))}
			for y := f; y != nil && !good; y = y.up {
				if y.cond != nil {
					t := subst(y.cond, sg)
					good = t.Op == "true" && !y.val || t.Op == "false" && y.val // not on this path
				}
			}
			for _, t := range cands {
				got := subst(t, sg)
				need := iadd(imul(mkInt(64, uint64(k)), q), mkInt(64, uint64((r*k+7)/8)))
				x := isub(got, need)
				if x.isInt() && x.sval() >= 0 {
					good = true
					break
				}
			}
			if !c.must(good, "room for every bucket", who, at, "for 8q+%d buckets of width %d the data has length %s, which is not known to be enough", r, k, ln) {
				return false
			}
		}
	}
	return true
}

func init() {
	register(&checkDef{
		id:   "C24",
		run:  c24,
		rule: "for every width (1 to 8) and alignment (bucket 8q+r for r from 0 to 7, q symbolic), every bit of the result of Get is traced to one bit of the data; no two buckets share a bit; every path of Set and IncN leaves in those bits the capped value or sum, as the path's conditions say which applies, and every other bit of every byte written as it was; indexes are within the data; new, counted, cleared and described buckets agree with that",
		floor: map[string]int{
			"a bucket is bits of the data": 8 * 36, "buckets are apart": 8 * 36, "other buckets keep their value": 100, "the capped value is stored": 128, "largest value": 8, "room for every bucket": 64,
		},
		assume: []string{"indexes are from 0 to one less than the number of buckets; arithmetic on indexes does not overflow (the number of buckets is limited accordingly)"},
	})
}
