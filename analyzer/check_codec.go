package main

// C22, C23, C26: what is written can be read back, what cannot have been written is rejected, and
// a structure made on a buffer works on that buffer.
//
// C22 is decided by composition: the state that a constructor leaves is given to WriteTo, the
// bytes that it hands to the writer are laid out one after the other, and these are given to the
// two readers. The number of buckets is taken as 8q+r with q symbolic, their width and the
// precision range over all values, and the data itself is one symbolic array.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type codec struct {
	pkg, typ string
	what     string
	shapes   func(c *Check) []*shape
}

// shape is a state to be written.
type shape struct {
	name string
	typ  types.Type
	val  *Term // the structure
	data *Term // its data: an array given by its base
	size *Term // length of the data
	args []*Term
	lenf string

	assume []*Term
}

func (sh *shape) given(it *Interp, st *State, ps []*Term) {
	for _, t := range sh.assume {
		if f, ok := st.facts.assume(t, true); ok {
			st.facts = f
		}
	}
}

// slicesOf lists the slices in a structure.
func slicesOf(v *Term, typ types.Type, do func(*Term)) {
	if s := structOf(typ); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			slicesOf(mkField(v, i, s.Field(i).Type()), s.Field(i).Type(), do)
		}
		return
	}
	if _, ok := typ.Underlying().(*types.Slice); ok {
		do(v)
	}
}

// mapLeaves rebuilds a structure with other values in its fields.
func mapLeaves(v *Term, typ types.Type, f func(v *Term, typ types.Type) *Term) *Term {
	if s := structOf(typ); s != nil {
		fs := make([]*Term, s.NumFields())
		for i := range fs {
			fs[i] = mapLeaves(mkField(v, i, s.Field(i).Type()), s.Field(i).Type(), f)
		}
		return mkAgg(typ, fs)
	}
	return f(v, typ)
}

// built runs a constructor and returns the states it leaves.
func (c *Check) built(name, pkg, ctor string, lenf string, args ...*Term) []*shape {
	fn := c.fn(pkg, ctor)
	if fn == nil {
		return nil
	}
	it := c.run(fn, &Config{Params: args, Unroll: 16})
	var l []*shape
	seen := map[*Term]bool{}
	for _, p := range it.Paths {
		if p.Out != OutReturn || len(p.Ret) != 1 || seen[p.Ret[0]] {
			continue
		}
		seen[p.Ret[0]] = true
		typ := fn.Signature.Results().At(0).Type()
		sh := &shape{name: name, typ: typ, args: args, lenf: lenf}
		n := 0
		slicesOf(p.Ret[0], typ, func(t *Term) {
			n++
			_, _, sh.size = sliceParts(t)
			sh.data = leaf("codec.data", t.Typ, &Def{Kind: "param", Index: 0, Name: "data"})
		})
		if !c.must(n == 1, "one array of data", pkg, fn.Pos(), "the structure has %d slices", n) {
			continue
		}
		sh.val = mapLeaves(p.Ret[0], typ, func(v *Term, t types.Type) *Term {
			if _, ok := t.Underlying().(*types.Slice); ok {
				return mkSlice(sh.data, mkInt(64, 0), sh.size, t)
			}
			return v
		})
		l = append(l, sh)
	}
	c.must(len(l) > 0, "can be made", pkg+name, fn.Pos(), "%s cannot be made", name)
	return l
}

func codecs() []*codec {
	q := func() *Term {
		return resize(leaf("q", types.Typ[types.Uint32], &Def{Kind: "param", Index: 1, Name: "q"}), 32, 64, false)
	}
	buckets := func(r int) *Term { return iadd(imul(mkInt(64, 8), q()), mkInt(64, uint64(r))) }
	return []*codec{
		{pkg: bbPkg, typ: "BitBucket", what: "bit bucket", shapes: func(c *Check) (l []*shape) {
			l = c.built("no buckets", bbPkg, "New", "Len", mkInt(64, 0), mkInt(8, 0))
			for w := 1; w <= 8; w++ {
				for r := 0; r < 8; r++ {
					l = append(l, c.built(fmt.Sprintf("8q+%d buckets of width %d", r, w), bbPkg, "New", "Len", buckets(r), mkInt(8, uint64(w)))...)
				}
			}
			return
		}},
		{pkg: bloomPkg, typ: "Bloom", what: "bloom filter", shapes: func(c *Check) (l []*shape) {
			for r := 0; r < 8; r++ {
				n := buckets(r)
				k := leaf("k", types.Typ[types.Uint8], &Def{Kind: "param", Index: 1, Name: "k"})
				for _, sh := range c.built(fmt.Sprintf("8q+%d bits", r), bloomPkg, "NewBits", "", n, k) {
					sh.assume = append(sh.assume, bslt(mkInt(64, 0), n)) // there is no filter without bits
					l = append(l, sh)
				}
			}
			return
		}},
		{pkg: hllPkg, typ: "Counter", what: "cardinality counter", shapes: func(c *Check) (l []*shape) {
			for p := 4; p <= 18; p++ {
				l = append(l, c.built(fmt.Sprintf("precision %d", p), hllPkg, "New", "Len", mkInt(8, uint64(p)))...)
			}
			return
		}},
	}
}

// ---- what is written

// wseg is a part of what was written: a value of w bytes, little-endian, or n bytes of an array.
type wseg struct {
	at  *Term
	w   int
	val *Term
	src *Term // array
	off *Term
	n   *Term
}

// content lists what a slice holds. The memory is that at the time.
func content(st *State, m *memory, s *Term, at *Term, depth int) ([]wseg, *Term, bool) {
	if s.Op == "append" && depth < 8 {
		l, at, ok := content(st, m, s.Args[0], at, depth+1)
		for _, v := range s.Args[1:] {
			l = append(l, wseg{at: at, w: 1, val: v})
			at = iadd(at, mkInt(64, 1))
		}
		return l, at, ok
	}
	if s.Op == "appendslice" && depth < 8 {
		l, at, ok := content(st, m, s.Args[0], at, depth+1)
		if !ok {
			return nil, at, false
		}
		l2, at, ok := content(st, m, s.Args[1], at, depth+1)
		return append(l, l2...), at, ok
	}
	base, off, n := sliceParts(s)
	end := iadd(at, n)
	if isNilTerm(s) || n.isConstInt(0) {
		return nil, at, true
	}
	if st.mem.objs[base] == nil && m.objs[base] == nil {
		if m.epochOf(base) != "" {
			return nil, at, false
		}
		return []wseg{{at: at, src: base, off: off, n: n}}, end, true
	}
	// a local array: copies to it, and its cells
	var l []wseg
	ep := m.epochOf(base)
	pos, last := off, iadd(off, n)
	var rec *copyRec
	if ep != "" {
		r, ok := st.copies[ep]
		if !ok {
			return nil, at, false
		}
		b, _, _ := sliceParts(r.dst)
		if b != base {
			return nil, at, false
		}
		rec = &r
	}
	for step := 0; step < 256 && pos != last; step++ {
		var hit *Term
		for a := range m.cells {
			if (a.Op == "ia" || a.Op == "w64" || a.Op == "w32" || a.Op == "w16") && a.Args[0] == base && a.Args[1] == pos {
				hit = a
			}
		}
		if agg := m.cells[base]; agg != nil && agg.Op == "arragg" && pos.isInt() && pos.V < uint64(len(agg.Args)) {
			l = append(l, wseg{at: iadd(at, isub(pos, off)), w: 1, val: agg.Args[pos.V]})
			pos = iadd(pos, mkInt(64, 1))
			continue
		}
		switch {
		case hit != nil:
			w := int(accWidth(hit))
			l = append(l, wseg{at: iadd(at, isub(pos, off)), w: w, val: m.cells[hit]})
			pos = iadd(pos, mkInt(64, uint64(w)))
			continue
		case rec != nil:
			_, do, _ := sliceParts(rec.dst)
			if pos == do {
				b, so, _ := sliceParts(rec.src)
				in, _, ok := content(st, &memory{objs: m.objs, cells: map[*Term]*Term{}}, mkSliceAt(b, so, rec.n), iadd(at, isub(pos, off)), depth+1)
				if !ok || rec.srcEpoch != "" {
					return nil, at, false
				}
				l = append(l, in...)
				pos = iadd(pos, rec.n)
				continue
			}
		}
		if o := m.objs[base]; o != nil && o.zero && ep == "" {
			l = append(l, wseg{at: iadd(at, isub(pos, off)), w: 1, val: mkInt(8, 0)})
			pos = iadd(pos, mkInt(64, 1))
			continue
		}
		return nil, at, false
	}
	return l, end, pos == last
}

func mkSliceAt(b, off, n *Term) *Term { return mkT("slice", "", b.Typ, b, off, n) }

// place lays a structure out in memory.
func place(m *memory, a, v *Term, typ types.Type) {
	s := structOf(typ)
	if s == nil {
		m.put(a, v, typ)
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		place(m, mkFA(a, i, typ), mkField(v, i, s.Field(i).Type()), s.Field(i).Type())
	}
}

func (it *Interp) stdGlobal(pkg, name string) *Term {
	if p := it.P.SSA.ImportedPackage(pkg); p != nil {
		if g := p.Var(name); g != nil {
			return it.globalValue(nil, globalAddr(g), deref(g.Type()))
		}
	}
	return nil
}

// written gives the bytes that WriteTo writes.
func (c *Check) written(k *codec, sh *shape) ([]wseg, *Term, bool) {
	fn := c.fn(k.pkg, k.typ+".WriteTo")
	if fn == nil {
		return nil, nil, false
	}
	who := relName(c.P, fn)
	recv := leaf("codec.recv", fn.Params[0].Type(), &Def{Kind: "param", Index: 0, Name: "recv"})
	m := newMemory()
	place(m, recv, sh.val, sh.typ)
	cfg := &Config{Start: m, Params: []*Term{recv, nil}, Unroll: 16, Assume: sh.given}
	cfg.Model = func(it *Interp, st *State, x *CallCtx) bool {
		if x.Name != "io.Writer.Write" || x.Args[0] != it.Params[1] {
			return false
		}
		snap := st.mem.clone()
		ev := &Event{Kind: EvCall, Instr: x.Instr, Name: x.Name, Args: x.Args, snap: snap, Aux: "written"}
		n := mkLen(x.Args[1])
		ev.Res = []*Term{n, mk("nil", "", 0)}
		if st.looping() {
			it.undecided("writes in a loop")
		}
		st.emit(ev)
		x.Res(st, packRes(ev.Res))
		return true
	}
	it := c.run(fn, cfg)
	var segs []wseg
	var total *Term
	done := 0
	for _, p := range it.Paths {
		if !c.must(p.Out == OutReturn && len(p.Ret) == 2, "can be written", who, p.Pos, "%s: writing may end in a %s", sh.name, p.Out) {
			return nil, nil, false
		}
		if !c.must(isNilTerm(p.Ret[1]), "can be written", who, p.Pos, "%s: writing may fail with %s", sh.name, p.Ret[1]) {
			return nil, nil, false
		}
		var l []wseg
		at := mkInt(64, 0)
		for _, e := range p.flat() {
			switch {
			case e.Kind == EvStore && (rootOf(e.Addr) == recv || rootOf(e.Addr) == sh.data):
				c.fail("unchanged:"+who, e.Pos, "writing a %s changes it", k.what)
			case e.Kind == EvCopy && rootOf(first3(sliceParts(e.Args[0]))) == sh.data:
				c.fail("unchanged:"+who, e.Pos, "writing a %s changes it", k.what)
			case e.Kind == EvCall && e.Aux == "written":
				in, end, ok := content(p.St, e.snap, e.Args[1], at, 0)
				if !c.must(ok, "known what is written", who, e.Pos, "%s: it cannot be told what is written in %s", sh.name, e.Args[1]) {
					return nil, nil, false
				}
				l = append(l, in...)
				at = end
			}
		}
		n := p.Ret[0]
		c.must(n == at, "count written", who, p.Pos, "%s: %s bytes are written and %s reported", sh.name, at, n)
		if done > 0 && !c.must(sameSegs(l, segs), "known what is written", who, p.Pos, "%s: what is written differs from one path to another", sh.name) {
			return nil, nil, false
		}
		segs, total = l, at
		done++
	}
	return segs, total, done > 0
}

func first3(a, b, c *Term) *Term { return a }

func sameSegs(a, b []wseg) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---- reading it back

// source models a reader of the bytes of S, which are L in number (unknown if nil).
type source struct {
	c        *Check
	r, s, l  *Term
	known    bool // L is known: the reads are decided
	unclear  *bool
	maxAsked func(at token.Pos, n *Term, f *fact)
}

// limited finds out what is read from: all that is left of r, or part of it.
func (x *source) limited(it *Interp, st *State, in ssa.Instruction, r *Term) (lim *Term, set func(*State, *Term), ok bool) {
	for r.Op == "iface" && len(r.Args) == 1 && r != x.r {
		r = r.Args[0]
	}
	if r == x.r {
		return nil, func(*State, *Term) {}, true
	}
	if r.Op == "limitreader" {
		if in, _, ok := x.limited(it, st, nil, r.Args[0]); ok && in == nil {
			return r.Args[1], func(*State, *Term) {}, true
		}
	}
	if o := st.mem.objs[r]; o != nil && o.typ != nil && types.TypeString(o.typ, nil) == "io.LimitedReader" {
		s := structOf(o.typ)
		src := st.mem.load(it, st, in, mkFA(r, 0, o.typ), s.Field(0).Type())
		n := st.mem.load(it, st, in, mkFA(r, 1, o.typ), s.Field(1).Type())
		if q, _, ok := x.limited(it, st, in, src); ok && q == nil {
			return n, func(st *State, d *Term) {
				st.mem.store(it, st, in, mkFA(r, 1, o.typ), isub(n, d), s.Field(1).Type())
			}, true
		}
	}
	return nil, nil, false
}

// pos is the number of bytes read so far.
func (x *source) pos(st *State) *Term {
	at := mkInt(64, 0)
	for e := st.events; e != nil; e = e.up {
		if e.ev.Kind == EvCall && e.ev.Aux == "consumed" {
			at = iadd(at, e.ev.Val)
		}
	}
	return at
}

func (x *source) model(it *Interp, st *State, c *CallCtx) bool {
	errNil := mk("nil", "", 0)
	name := c.Name
	switch name {
	case "io.LimitReader":
		t := mkT("limitreader", "", c.Common.Signature().Results().At(0).Type(), c.Args...)
		c.Res(st, t)
		return true
	case "io.ReadFull", "io.ReadAtLeast", "io.ReadAll", "io/ioutil.ReadAll", "io.Copy", "io.CopyN":
	default:
		return false
	}
	src := c.Args[0]
	if strings.HasPrefix(name, "io.Copy") {
		return false
	}
	lim, use, ok := x.limited(it, st, c.Instr, src)
	if !ok {
		return false
	}
	if st.looping() {
		it.undecided("reads in a loop")
	}
	at := x.pos(st)
	eat := func(n *Term, res ...*Term) bool {
		ev := &Event{Kind: EvCall, Instr: c.Instr, Name: name, Args: c.Args, Aux: "consumed", Val: n, Res: res}
		st.emit(ev)
		use(st, n)
		c.Res(st, packRes(res))
		return true
	}
	if name == "io.ReadFull" || name == "io.ReadAtLeast" {
		p := c.Args[1]
		k := mkLen(p)
		if lim != nil || name == "io.ReadAtLeast" && c.Args[2] != k {
			return false
		}
		full := func() {
			it.copyMem(st, c.Instr, p, mkSliceAt(x.s, at, k), k)
		}
		if !x.known {
			n := it.fresh(st, c.Instr, "n", types.Typ[types.Int], &Def{Kind: "res", Callee: name, Index: 0})
			err := it.fresh(st, c.Instr, "err", types.Universe.Lookup("error").Type(), &Def{Kind: "res", Callee: name, Index: 1})
			for _, b := range []*Term{bslt(n, mkInt(64, 0)), bslt(k, n)} {
				if f, ok := st.facts.assume(b, false); ok {
					st.facts = f
				}
			}
			full()
			return eat(k, n, err) // as far as what follows depends on it
		}
		if v, known := st.facts.decide(bslt(x.l, iadd(at, k))); known && !v {
			full()
			return eat(k, k, errNil)
		}
		if at == x.l {
			if v, known := st.facts.decide(bslt(mkInt(64, 0), k)); known && v {
				return eat(mkInt(64, 0), mkInt(64, 0), it.stdGlobal("io", "EOF"))
			}
		}
		if v, known := st.facts.decide(bslt(x.l, iadd(at, k))); known && v {
			return eat(isub(x.l, at), isub(x.l, at), it.stdGlobal("io", "ErrUnexpectedEOF"))
		}
		it.undecided("%s bytes are read at %s of %s", k, at, x.l)
		return eat(k, k, errNil)
	}
	// everything that is left, or as much as is allowed
	styp := c.Common.Signature().Results().At(0).Type()
	o := mk("obj", "readall:"+st.site(c.Instr), 0)
	o.Typ = styp
	if o.Def == nil {
		o.Def = &Def{Kind: "alloc", Name: "what is read", Instr: c.Instr}
	}
	st.mem.newObj(o, nil, false)
	if !x.known {
		n := it.fresh(st, c.Instr, "n", types.Typ[types.Int], &Def{Kind: "res", Callee: name, Index: 0})
		err := it.fresh(st, c.Instr, "err", types.Universe.Lookup("error").Type(), &Def{Kind: "res", Callee: name, Index: 1})
		bs := []*Term{bslt(n, mkInt(64, 0))}
		if lim != nil {
			// nothing is read if the limit is negative
			if v, known := st.facts.decide(bslt(lim, mkInt(64, 0))); known && !v {
				bs = append(bs, bslt(lim, n))
			}
		}
		for _, b := range bs {
			if f, ok := st.facts.assume(b, false); ok {
				st.facts = f
			}
		}
		data := mkSlice(o, mkInt(64, 0), n, styp)
		it.copyMem(st, c.Instr, data, mkSliceAt(x.s, at, n), n)
		return eat(n, data, err)
	}
	n := isub(x.l, at)
	if lim != nil {
		lim = resize(lim, lim.W, 64, true)
		if v, known := st.facts.decide(bslt(n, lim)); known && !v {
			n = lim
		} else if !known {
			it.undecided("at most %s bytes are read of %s", lim, n)
		}
	}
	data := mkSlice(o, mkInt(64, 0), n, styp)
	it.copyMem(st, c.Instr, data, mkSliceAt(x.s, at, n), n)
	return eat(n, data, errNil)
}

// stream puts what was written in memory as the content of S.
func stream(m *memory, s *Term, segs []wseg) {
	for _, g := range segs {
		if g.w == 0 {
			continue
		}
		a := mkIA(s, g.at, types.Typ[types.Uint8])
		t := types.Type(types.Typ[types.Uint8])
		if g.w > 1 {
			a = mkW(s, g.at, g.w)
			t = types.Typ[types.Uint64]
		}
		m.put(a, g.val, t)
	}
}

// dataIn: where in what was written is the data?
func dataIn(sh *shape, segs []wseg) (*Term, bool) {
	var at *Term
	for _, g := range segs {
		if g.src != nil {
			if at != nil || g.src != sh.data || !g.off.isConstInt(0) || g.n != sh.size {
				return nil, false
			}
			at = g.at
		}
	}
	return at, at != nil || sh.size.isConstInt(0)
}

// origin follows copies: the slice holds n bytes of src from off.
func origin(st *State, s *Term) (src, off, n *Term) {
	src, off, n = sliceParts(s)
	for i := 0; i < 8; i++ {
		if st.mem.objs[src] == nil {
			return
		}
		for a := range st.mem.cells {
			if rootOf(a) == src {
				return nil, nil, nil
			}
		}
		rec, ok := st.copies[st.mem.epochOf(src)]
		if !ok {
			return nil, nil, nil
		}
		b, do, _ := sliceParts(rec.dst)
		sb, so, _ := sliceParts(rec.src)
		d := isub(off, do)
		if b != src {
			return nil, nil, nil
		}
		// within what was copied
		if v, known := st.facts.decide(bslt(d, mkInt(64, 0))); !known || v {
			return nil, nil, nil
		}
		if v, known := st.facts.decide(bslt(rec.n, iadd(d, n))); !known || v {
			return nil, nil, nil
		}
		src, off = sb, iadd(so, d)
	}
	return nil, nil, nil
}

// sameState compares what was read with what was written.
func (c *Check) sameState(who string, pos token.Pos, k *codec, sh *shape, st *State, s *Term, dataAt *Term, got *Term) {
	var cmp func(a, b *Term, typ types.Type, path string)
	cmp = func(a, b *Term, typ types.Type, path string) {
		if x := structOf(typ); x != nil {
			for i := 0; i < x.NumFields(); i++ {
				f := x.Field(i)
				cmp(mkField(a, i, f.Type()), mkField(b, i, f.Type()), f.Type(), path+"."+f.Name())
			}
			return
		}
		if _, ok := typ.Underlying().(*types.Slice); ok {
			if sh.size.isConstInt(0) && mkLen(b).isConstInt(0) {
				c.ok("data restored")
				return
			}
			src, off, n := origin(st, b)
			c.must(src == s && off == dataAt && n == sh.size, "data restored", who+path, pos, "%s: %s is read from another place than it is written to: it becomes %s", sh.name, path[1:], b)
			return
		}
		same := a == b || a.W > 0 && isTrue(st.facts, beq(a, b)) || a.W > 0 && sameBits(a, b)
		c.must(same, "field restored", who+path, pos, "%s: field %s is %s when written and %s when read back", sh.name, path[1:], a, b)
	}
	cmp(sh.val, got, sh.typ, "")
}

func c22(c *Check) {
	c.bloomLen()
	c.roundTrip("")
}

// roundTrip: what is written by the summaries of the package (of all packages, if there is none) is
// read back.
func (c *Check) roundTrip(pkg string) {
	for _, k := range codecs() {
		if pkg != "" && k.pkg != pkg {
			continue
		}
		for _, sh := range k.shapes(c) {
			segs, total, ok := c.written(k, sh)
			if !ok {
				continue
			}
			c.lengths(k, sh, total)
			at, ok := dataIn(sh, segs)
			if !c.must(ok, "the data is written", k.pkg, c.fn(k.pkg, k.typ+".WriteTo").Pos(), "%s: the data is not written once and whole", sh.name) {
				continue
			}
			c.readBack(k, sh, segs, total, at)
		}
	}
}

// lengths: what Len says is what is written.
func (c *Check) lengths(k *codec, sh *shape, total *Term) {
	if fn := c.fn(k.pkg, k.typ+".Len"); fn != nil {
		recv := leaf("codec.recv", fn.Params[0].Type(), &Def{Kind: "param", Index: 0, Name: "recv"})
		m := newMemory()
		place(m, recv, sh.val, sh.typ)
		for _, p := range c.run(fn, &Config{Start: m, Params: []*Term{recv}}).Paths {
			ok := p.Out == OutReturn && len(p.Ret) == 1
			c.must(ok && p.Ret[0] == total, "advertised length", relName(c.P, fn), p.Pos, "%s: %s bytes are written but Len says %v", sh.name, total, p.Ret)
		}
	}
	if sh.lenf == "" {
		return
	}
	if fn := c.fn(k.pkg, sh.lenf); fn != nil {
		for _, p := range c.run(fn, &Config{Params: sh.args}).Paths {
			ok := p.Out == OutReturn && len(p.Ret) == 1
			c.must(ok && p.Ret[0] == total, "advertised length", relName(c.P, fn), p.Pos, "%s: %s bytes are written but Len says %v", sh.name, total, p.Ret)
		}
	}
}

func (c *Check) readBack(k *codec, sh *shape, segs []wseg, total, at *Term) {
	if fn := c.fn(k.pkg, "WithBytes"); fn != nil {
		who := relName(c.P, fn)
		s := leaf("codec.stream", fn.Params[0].Type(), &Def{Kind: "param", Index: 0, Name: "buf"})
		m := newMemory()
		stream(m, s, segs)
		cfg := &Config{Start: m, Params: []*Term{s}, Unroll: 16}
		cfg.Assume = func(it *Interp, st *State, ps []*Term) {
			sh.given(it, st, ps)
			if f, ok := st.facts.assume(bslt(mkLen(s), total), false); ok {
				st.facts = f
			}
		}
		n := 0
		for _, p := range c.run(fn, cfg).Paths {
			if !c.must(p.Out == OutReturn && len(p.Ret) == 2 && isNilTerm(p.Ret[1]), "what was written is accepted", who, p.Pos, "%s: what was written is rejected (%s %v)", sh.name, p.Out, last(p.Ret)) {
				continue
			}
			n++
			c.sameState(who, p.Pos, k, sh, p.St, s, at, p.Ret[0])
		}
		c.must(n > 0, "what was written is accepted", who, fn.Pos(), "%s: never accepted", sh.name)
	}
	if fn := c.fn(k.pkg, k.typ+".ReadFrom"); fn != nil {
		who := relName(c.P, fn)
		recv := leaf("codec.recv", fn.Params[0].Type(), &Def{Kind: "param", Index: 0, Name: "recv"})
		s := leaf("codec.stream", types.NewSlice(types.Typ[types.Uint8]), &Def{Kind: "param", Index: 0, Name: "stream"})
		r := leaf("codec.reader", fn.Params[1].Type(), &Def{Kind: "param", Index: 1, Name: "r"})
		m := newMemory()
		stream(m, s, segs)
		x := &source{c: c, r: r, s: s, l: total, known: true}
		cfg := &Config{Start: m, Params: []*Term{recv, r}, Unroll: 16, Model: x.model, Assume: sh.given}
		n := 0
		it := c.run(fn, cfg)
		for _, p := range it.Paths {
			if !c.must(p.Out == OutReturn && len(p.Ret) == 2 && isNilTerm(p.Ret[1]), "what was written is accepted", who, p.Pos, "%s: what was written is rejected (%s %v)", sh.name, p.Out, last(p.Ret)) {
				continue
			}
			n++
			c.must(p.Ret[0] == total, "count read", who, p.Pos, "%s: %s bytes are read and %s reported", sh.name, total, p.Ret[0])
			got := p.St.mem.load(it, p.St, nil, recv, sh.typ)
			c.sameState(who, p.Pos, k, sh, p.St, s, at, got)
		}
		c.must(n > 0, "what was written is accepted", who, fn.Pos(), "%s: never accepted", sh.name)
	}
}

func last(l []*Term) *Term {
	if len(l) == 0 {
		return nil
	}
	return l[len(l)-1]
}

func init() {
	register(&checkDef{
		id:   "C22",
		run:  c22,
		rule: "the state left by a constructor is given to WriteTo and the bytes handed to the writer to WithBytes and ReadFrom: every path of these accepts them and leaves every field, stored or derived, as it was and the data where it was written; the lengths reported are those written and read",
		floor: map[string]int{
			"data restored": 2 * (65 + 8 + 15), "field restored": 400, "advertised length": 65*2 + 8 + 15*2, "count written": 88, "count read": 88,
		},
		assume: []string{"the reader and writer given behave as io.Reader and io.Writer prescribe"},
	})
}

// bloomLen: the length advertised for a filter of given capacity and error rate is that of the
// filter made for them.
func (c *Check) bloomLen() {
	mk, ln := c.fn(bloomPkg, "New"), c.fn(bloomPkg, "Len")
	if mk == nil || ln == nil {
		return
	}
	who := relName(c.P, ln)
	if !c.must(types.Identical(mk.Signature.Params(), ln.Signature.Params()) || mk.Signature.Params().Len() == ln.Signature.Params().Len(), "advertised length", who, ln.Pos(), "New and Len have different parameters") {
		return
	}
	m := c.run(mk, &Config{})
	var sizes []*Path
	hdr := int64(-1)
	for _, p := range m.Paths {
		if p.Out == OutReturn {
			sizes = append(sizes, p)
		}
	}
	// what a filter with the data of that size takes when written
	for _, k := range codecs() {
		if k.pkg == bloomPkg {
			for _, sh := range k.shapes(c)[:1] {
				if _, total, ok := c.written(k, sh); ok {
					if d := isub(total, sh.size); d.isInt() {
						hdr = d.sval()
					}
				}
			}
		}
	}
	l := c.run(ln, &Config{Params: m.Params})
	for _, p := range l.Paths {
		if !c.must(p.Out == OutReturn && len(p.Ret) == 1, "advertised length", who, p.Pos, "Len may not return") {
			continue
		}
		for _, q := range sizes {
			if disagree(p.Facts, q.Facts) {
				continue
			}
			size := mkInt(64, 0)
			slicesOf(q.Ret[0], mk.Signature.Results().At(0).Type(), func(t *Term) { size = iadd(size, mkLen(t)) })
			c.must(hdr >= 0 && iadd(size, mkInt(64, uint64(hdr))) == p.Ret[0], "advertised length", who, p.Pos, "the length advertised is %s, that of the filter %s + %d", p.Ret[0], size, hdr)
		}
	}
}

// disagree: no input takes both paths.
func disagree(a, b *fact) bool {
	for y := b; y != nil; y = y.up {
		if y.cond == nil {
			continue
		}
		if v, known := a.decide(y.cond); known && v != y.val {
			return true
		}
	}
	return false
}

// ---- C23

// instance binds the parameters of a constructor so that it makes a given structure.
func (c *Check) instance(who string, pos token.Pos, f *fact, sh *shape, got *Term) (map[*Term]*Term, bool) {
	b := map[*Term]*Term{}
	good := true
	var walk func(want, have *Term, typ types.Type, path string, bind bool)
	walk = func(want, have *Term, typ types.Type, path string, bind bool) {
		if x := structOf(typ); x != nil {
			for i := 0; i < x.NumFields(); i++ {
				t := x.Field(i).Type()
				walk(mkField(want, i, t), mkField(have, i, t), t, path+"."+x.Field(i).Name(), bind)
			}
			return
		}
		if _, ok := typ.Underlying().(*types.Slice); ok {
			return
		}
		if bind {
			if want.Op == "leaf" && b[want] == nil && want.Def != nil && want.Def.Kind == "param" {
				b[want] = have
			}
			return
		}
		w := subst(want, b)
		eq := w == have || isTrue(f, beq(w, have)) || have.W > 0 && sameBits(w, have)
		if !c.must(eq, "consistent parameters", who+path, pos, "field %s is %s where a %s as made by its constructor has %s", path[1:], have, sh.name, w) {
			good = false
		}
	}
	walk(sh.val, got, sh.typ, "", true)
	walk(sh.val, got, sh.typ, "", false)
	return b, good
}

// fieldsOf finds the buckets in a structure: count, width and data.
func (c *Check) buckets(v *Term, typ types.Type) (d, n, w *Term) {
	fd, fnn, fw, st, ok := c.bbFields()
	if !ok {
		return
	}
	s := structOf(typ)
	if s == nil {
		return
	}
	if types.Identical(typ, st) {
		return mkField(v, fd, s.Field(fd).Type()), mkField(v, fnn, s.Field(fnn).Type()), mkField(v, fw, s.Field(fw).Type())
	}
	for i := 0; i < s.NumFields(); i++ {
		if d, n, w = c.buckets(mkField(v, i, s.Field(i).Type()), s.Field(i).Type()); d != nil {
			return
		}
	}
	return
}

// leafParam is a parameter of a constructor, to be bound.
func leafParam(name string, t types.Type, i int) *Term {
	return leaf("codec.par:"+name, t, &Def{Kind: "param", Index: i, Name: name})
}

// accepted checks a structure that was loaded from arbitrary bytes.
func (c *Check) accepted(k *codec, who string, pos token.Pos, p *Path, pats []*shape, got *Term) {
	d, n, w := c.buckets(got, pats[0].typ)
	if !c.must(d != nil, "has buckets", who, pos, "no buckets in a %s", k.what) {
		return
	}
	f := p.Facts
	// the number of buckets is in range
	c.must(isFalse(f, bslt(n, mkInt(64, 0))) && isFalse(f, bslt(mkInt(64, (1<<63-8)/8), n)), "count in range", who, pos, "the number of buckets, %s, may be negative or more than can be addressed", n)
	for v := uint64(9); v < 256; v++ {
		if !c.must(!sat(f, w, mkInt(8, v)), "width in range", who, pos, "buckets of width %d are accepted", v) {
			break
		}
	}
	if sat(f, w, mkInt(8, 0)) {
		g, ok := f.assume(beq(w, mkInt(8, 0)), true)
		c.must(!ok || isTrue(g, beq(n, mkInt(64, 0))) || isFalse(g, bslt(mkInt(64, 0), n)) && isFalse(g, bslt(n, mkInt(64, 0))), "width in range", who, pos, "buckets without any width are accepted")
	}
	c.roomy(who, pos, f, d, n, w)
	if k.typ == "Bloom" {
		c.must(isTrue(f, bslt(mkInt(64, 0), n)), "count in range", who, pos, "a filter without bits is accepted, to which nothing can be added")
	}
	for _, sh := range pats {
		if k.typ != "BitBucket" {
			c.instance(who, pos, f, sh, got)
		}
	}
}

func c23(c *Check) {
	for _, k := range codecs() {
		type cs struct {
			name string
			b1   *Term
			pats []*shape
		}
		var cases []cs
		switch k.typ {
		case "BitBucket":
			cases = []cs{{pats: c.built("bit bucket", bbPkg, "New", "", leafParam("n", types.Typ[types.Int], 0), mkInt(8, 3))}}
		case "Bloom":
			cases = []cs{{pats: c.built("bloom filter", bloomPkg, "NewBits", "", leafParam("m", types.Typ[types.Int], 0), leafParam("k", types.Typ[types.Uint8], 1))}}
		case "Counter":
			// the precision is where it is written
			fnb := c.hllPrecisionAt(k)
			for p := uint64(0); p < 256; p++ {
				x := cs{name: fmt.Sprintf("precision %d", p)}
				if p >= 4 && p <= 18 {
					x.pats = c.built(x.name, hllPkg, "New", "", mkInt(8, p))
				}
				x.b1 = mk("pair", "", 0, fnb, mkInt(8, p))
				cases = append(cases, x)
			}
		}
		for _, x := range cases {
			if x.b1 != nil && x.b1.Args[0] == nil {
				continue
			}
			c.arbitrary(k, x.name, x.b1, x.pats)
		}
	}
}

// hllPrecisionAt finds the position of the precision in what is written.
func (c *Check) hllPrecisionAt(k *codec) *Term {
	sh := c.built("precision 11", hllPkg, "New", "", mkInt(8, 11))
	sh2 := c.built("precision 12", hllPkg, "New", "", mkInt(8, 12))
	if len(sh) == 0 || len(sh2) == 0 {
		return nil
	}
	a, _, ok1 := c.written(k, sh[0])
	b, _, ok2 := c.written(k, sh2[0])
	if ok1 && ok2 && len(a) == len(b) {
		for i := range a {
			if a[i].w == 1 && a[i].val.isConstInt(11) && b[i].val.isConstInt(12) {
				return a[i].at
			}
		}
	}
	c.fail("precision:"+k.pkg, token.NoPos, "it cannot be told where the precision is written")
	return nil
}

// arbitrary loads bytes of which at most one is known.
func (c *Check) arbitrary(k *codec, name string, pin *Term, pats []*shape) {
	start := func(s *Term) *memory {
		m := newMemory()
		for _, g := range c.versionsAt(k) {
			m.put(mkIA(s, g.at, types.Typ[types.Uint8]), constByte(g), types.Typ[types.Uint8])
		}
		if pin != nil {
			m.put(mkIA(s, pin.Args[0], types.Typ[types.Uint8]), pin.Args[1], types.Typ[types.Uint8])
		}
		return m
	}
	if fn := c.fn(k.pkg, "WithBytes"); fn != nil {
		who := relName(c.P, fn)
		s := leaf("codec.stream", fn.Params[0].Type(), &Def{Kind: "param", Index: 0, Name: "buf"})
		for _, p := range c.run(fn, &Config{Start: start(s), Params: []*Term{s}, Unroll: 16, Bounds: true}).Paths {
			if !c.must(p.Out == OutReturn && len(p.Ret) == 2, "no panic", who, p.Pos, "loading %s may end in a %s", name, p.Out) {
				continue
			}
			c.inside(who, p)
			if !mayBeNil(p.Facts, p.Ret[1]) {
				c.ok("rejected")
				continue
			}
			c.versions(who, k, p)
			c.loaded(k, who, p, name, pats, p.Ret[0])
		}
	}
	if fn := c.fn(k.pkg, k.typ+".ReadFrom"); fn != nil {
		who := relName(c.P, fn)
		recv := leaf("codec.recv", fn.Params[0].Type(), &Def{Kind: "param", Index: 0, Name: "recv"})
		s := leaf("codec.stream", types.NewSlice(types.Typ[types.Uint8]), &Def{Kind: "param", Index: 0, Name: "stream"})
		r := leaf("codec.reader", fn.Params[1].Type(), &Def{Kind: "param", Index: 1, Name: "r"})
		x := &source{c: c, r: r, s: s}
		cfg := &Config{Start: start(s), Params: []*Term{recv, r}, Unroll: 16, Bounds: true, Model: x.model}
		it := c.run(fn, cfg)
		c.allocations(it, who)
		for _, p := range it.Paths {
			if !c.must(p.Out == OutReturn && len(p.Ret) == 2, "no panic", who, p.Pos, "loading %s may end in a %s", name, p.Out) {
				continue
			}
			c.inside(who, p)
			if !mayBeNil(p.Facts, p.Ret[1]) {
				c.ok("rejected")
				for _, e := range p.flat() {
					if e.Kind == EvStore && rootOf(e.Addr) == recv {
						c.fail("unchanged:"+who, e.Pos, "the receiver is changed although loading fails at %s", c.P.posStr(p.Pos))
					}
				}
				continue
			}
			c.versions(who, k, p)
			c.loaded(k, who, p, name, pats, p.St.mem.load(it, p.St, nil, recv, deref(recv.Typ)))
		}
	}
}

// versionsAt finds the bytes that are the same in everything that is written: those that tell the
// version of the format, and parameters that are not free.
func (c *Check) versionsAt(k *codec) []wseg {
	if l, ok := c.constant[k.typ]; ok {
		return l
	}
	shapes := k.shapes(c)
	var l []wseg
	for n, sh := range []*shape{shapes[0], shapes[len(shapes)-1]} {
		segs, _, ok := c.written(k, sh)
		if !ok {
			return nil
		}
		same := map[wseg]bool{}
		for _, g := range segs {
			if g.w == 1 && g.val.isInt() && g.val.V > 0 && g.at.isInt() {
				same[g] = true
			}
		}
		if n == 0 {
			for _, g := range segs {
				if same[g] {
					l = append(l, g)
				}
			}
			continue
		}
		var both []wseg
		for _, g := range l {
			if same[g] {
				both = append(both, g)
			}
		}
		l = both
	}
	if c.constant == nil {
		c.constant = map[string][]wseg{}
	}
	c.constant[k.typ] = l
	return l
}

// constByte stands for what is found in its place.
func constByte(g wseg) *Term {
	return leaf(fmt.Sprintf("codec.byte:%d", g.at.V), types.Typ[types.Uint8], &Def{Kind: "param", Index: 0, Name: fmt.Sprintf("byte %d", g.at.V)})
}

// versions: what bears a version that was never written is not accepted.
func (c *Check) versions(who string, k *codec, p *Path) {
	for _, g := range c.versionsAt(k) {
		b := constByte(g)
		for v := uint64(0); v < 256; v++ {
			if v == 0 || v > g.val.V {
				if !c.must(!sat(p.Facts, b, mkInt(8, v)), "version known", who, p.Pos, "what is written has %d at byte %d; what has %d there is accepted", g.val.V, g.at.V, v) {
					break
				}
			}
		}
	}
}

func mayBeNil(f *fact, err *Term) bool {
	return !nonNilTerm(err) && !isFalse(f, beq(err, mk("nil", "", 0)))
}

func (c *Check) loaded(k *codec, who string, p *Path, name string, pats []*shape, got *Term) {
	if len(pats) == 0 {
		c.fail("range:"+who, p.Pos, "%s is accepted", name)
		return
	}
	c.accepted(k, who, p.Pos, p, pats, got)
}

// inside: every index used on the path is within bounds.
func (c *Check) inside(who string, p *Path) {
	for _, e := range p.Events {
		if e.Kind != EvIndex {
			continue
		}
		n := e.Args[1]
		good := true
		for j, i := range e.Args[2:] {
			good = good && e.Facts.nonNegIn(i)
			if e.Aux == "slice" {
				hi := n
				if j == 0 && len(e.Args) == 4 {
					hi = e.Args[3]
				}
				good = good && (isFalse(e.Facts, bslt(hi, i)) || e.Facts.nonNegIn(isub(hi, i)))
			} else {
				good = good && isTrue(e.Facts, bslt(i, n))
			}
		}
		c.must(good, "within bounds", who, e.Pos, "an index may be out of range: %s of %s", e.Args[2:], n)
	}
}

// allocations: no more is allocated than a constant or the length of something that exists.
func (c *Check) allocations(it *Interp, who string) {
	for fn := range it.Funcs {
		if !it.P.inModule(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				m, ok := in.(*ssa.MakeSlice)
				if !ok {
					continue
				}
				c.must(boundedSize(m.Len, 0) && boundedSize(m.Cap, 0), "allocation bounded", who, m.Pos(), "%s allocates as much as the bytes being loaded call for", relName(c.P, fn))
			}
		}
	}
	c.ok("allocation bounded")
}

func boundedSize(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return true
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.SUB, token.MUL:
			return boundedSize(x.X, d+1) && boundedSize(x.Y, d+1)
		case token.QUO, token.REM, token.SHR, token.AND:
			return boundedSize(x.X, d+1)
		}
	case *ssa.Convert:
		return boundedSize(x.X, d+1)
	}
	return false
}

// ---- C26

func c26(c *Check) {
	for _, k := range codecs() {
		if fn := c.fn(k.pkg, "WithBytes"); fn != nil {
			c.inPlace(fn, k.what)
		}
		c.keepsBuffer(k)
	}
	if fn := c.fn(statPkg, "WithBytes"); fn != nil {
		c.inPlace(fn, "statistical summary")
	}
}

func (c *Check) inPlace(fn *ssa.Function, what string) {
	who := relName(c.P, fn)
	it := c.run(fn, &Config{})
	buf := it.Params[0]
	n := 0
	for _, p := range it.Paths {
		for _, e := range p.flat() {
			switch e.Kind {
			case EvStore:
				c.must(rootOf(e.Addr) != buf, "leaves the buffer as it is", who, e.Pos, "making a %s on a buffer changes the buffer", what)
			case EvCopy:
				b, _, _ := sliceParts(e.Args[0])
				c.must(rootOf(b) != buf, "leaves the buffer as it is", who, e.Pos, "making a %s on a buffer changes the buffer", what)
			case EvCall:
				for _, a := range e.Args {
					if a.Typ != nil && contains(a, buf) && refType(a.Typ) {
						c.fail("leaves the buffer as it is:"+who, e.Pos, "the buffer is handed to %s", e.Name)
					}
				}
			case EvAppend:
				b, _, _ := sliceParts(e.Args[0])
				c.must(rootOf(b) != buf, "leaves the buffer as it is", who, e.Pos, "making a %s on a buffer appends to it", what)
			}
		}
		if p.Out != OutReturn || len(p.Ret) == 0 {
			continue
		}
		if len(p.Ret) == 2 && !mayBeNil(p.Facts, p.Ret[1]) {
			continue
		}
		n++
		k := 0
		slicesOf(p.Ret[0], fn.Signature.Results().At(0).Type(), func(t *Term) {
			k++
			b, _, _ := sliceParts(t)
			c.must(b == buf, "state kept in the buffer", who, p.Pos, "the state of the %s is kept in %s, not in the buffer given", what, t)
		})
		c.must(k > 0, "state kept in the buffer", who, p.Pos, "the %s does not refer to the buffer", what)
	}
	c.must(n > 0, "state kept in the buffer", who, fn.Pos(), "never succeeds")
	c.ok("leaves the buffer as it is")
}

// keepsBuffer: nothing but loading makes a structure use other memory.
func (c *Check) keepsBuffer(k *codec) {
	for _, fn := range c.P.exported(k.pkg) {
		r := fn.Signature.Recv()
		if r == nil || namedOf(r.Type()) == nil || namedOf(r.Type()).Obj().Name() != k.typ || fn.Name() == "ReadFrom" {
			continue
		}
		if _, ok := r.Type().(*types.Pointer); !ok {
			continue
		}
		who := relName(c.P, fn)
		it := c.run(fn, &Config{})
		for _, p := range it.Paths {
			for _, e := range p.flat() {
				if e.Kind != EvStore || e.Val == nil || e.Val.Typ == nil {
					continue
				}
				a := e.Addr
				for a.Op == "fa" {
					a = a.Args[0]
				}
				if a != it.Params[0] {
					continue
				}
				n := 0
				slicesOf(e.Val, e.Val.Typ, func(t *Term) { n++ })
				c.must(n == 0, "stays on the buffer", who, e.Pos, "the data is replaced by %s", e.Val)
			}
		}
		c.ok("stays on the buffer")
	}
}

func init() {
	register(&checkDef{
		id:   "C23",
		run:  c23,
		rule: "for bytes of which nothing is known (the precision of a counter ranges over all 256 values) every path of WithBytes and ReadFrom stays within bounds, allocates no more than was read, and either returns an error, with the receiver as it was, or a structure whose width and count are in range, whose data has room for every bucket and whose derived fields are those its constructor would give it",
		floor: map[string]int{
			"rejected": 400, "within bounds": 40, "version known": 1000, "count in range": 32, "width in range": 32, "room for every bucket": 64, "consistent parameters": 100, "allocation bounded": 3,
		},
		assume: []string{"io.ReadFull, io.LimitReader and io.ReadAll behave as documented"},
	})
	register(&checkDef{
		id:   "C26",
		run:  c26,
		rule: "no path of a WithBytes function stores to, copies to or hands on the buffer; on every path that succeeds each slice in the result is part of the buffer given; no method but ReadFrom replaces the slice",
		floor: map[string]int{
			"stays on the buffer": 12, "state kept in the buffer": 4, "leaves the buffer as it is": 4,
		},
	})
}
