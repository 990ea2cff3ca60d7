package main

// C25: hashes are FNV-1 and FNV-1a for every input.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	fnvOffset = 14695981039346656037
	fnvPrime  = 1099511628211
)

var fnvInv = func() uint64 {
	x := uint64(1)
	for i := 0; i < 6; i++ {
		x *= 2 - fnvPrime*x
	}
	return x
}()

// seg is something that was added to a hash: a byte or all the bytes of a sequence.
type seg struct {
	b   *Term
	seq *Term
}

// tracer explains the value of a hash by the bytes that went into it.
type tracer struct {
	p     *Path
	a1    bool // FNV-1a
	why   string
	start *Term
}

// byteElem: t is byte idx of a sequence.
func byteElem(t *Term) (seq, idx *Term) {
	for t.Op == "zext" {
		t = t.Args[0]
	}
	if t.Op == "elem" && len(t.Args) == 2 {
		return stripConv(t.Args[0]), t.Args[1]
	}
	if a := loadAddr(t); a != nil && a.Op == "ia" {
		return stripConv(a.Args[0]), a.Args[1]
	}
	return nil, nil
}

// step undoes one step: t = step(y, b).
func (tr *tracer) step(t *Term) (y, b *Term) {
	inv := mkInt(64, fnvInv)
	if tr.a1 {
		t = imul(t, inv)
	}
	if t.Op != "xor" || len(t.Args) != 2 {
		return nil, nil
	}
	for i := 0; i < 2; i++ {
		if maxVal(t.Args[i]) <= 255 {
			y, b = t.Args[1-i], t.Args[i]
		}
	}
	if b == nil {
		return nil, nil
	}
	if !tr.a1 {
		y = imul(y, inv)
	}
	return y, b
}

// trace lists what was added since start, in order.
func (tr *tracer) trace(t *Term) ([]seg, bool) {
	if t == tr.start {
		return nil, true
	}
	if y, b := tr.step(t); b != nil {
		l, ok := tr.trace(y)
		return append(l, seg{b: b}), ok
	}
	// the value at the end of a loop
	for i, e := range tr.p.Events {
		if e.Kind != EvLoop || e.Init[t] == nil {
			continue
		}
		var seq *Term
		idx, _, why := rangeLoop(e, tr.p.Events[i:], func(s *Term) bool {
			seq = stripConv(s)
			return true
		})
		part := seq
		if why != "" {
			if rest := eatLoop(e, tr.p.Events[i:]); rest != nil {
				seq, part, idx, why = stripConv(e.Init[rest]), rest, mkInt(64, 0), ""
			}
		}
		if why != "" {
			tr.why = "the loop does not take every byte once, in order: " + why
			return nil, false
		}
		for _, b := range backsOf(e) {
			in := &tracer{p: b, a1: tr.a1, start: t}
			l, ok := in.trace(b.Next[t])
			if !ok {
				tr.why = "an iteration does not add to the hash by the rule: " + in.why + " " + b.Next[t].String()
				return nil, false
			}
			if len(l) != 1 || l[0].b == nil {
				tr.why = "an iteration does not add exactly one byte"
				return nil, false
			}
			s, x := byteElem(l[0].b)
			if s != part || x != idx {
				tr.why = "an iteration adds something other than its byte: " + l[0].b.String()
				return nil, false
			}
		}
		l, ok := tr.trace(e.Init[t])
		return append(l, seg{seq: seq}), ok
	}
	if tr.why == "" {
		tr.why = "this is not the hash of the bytes given: " + t.String()
	}
	return nil, false
}

func c25(c *Check) {
	rel := "internal/hash/fnv"
	fns := c.P.exported(rel)
	if len(fns) == 0 {
		c.fail("anchor:"+rel, token.NoPos, "the hash package is not found")
	}
	for _, fn := range fns {
		c25fn(c, fn)
	}
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && widthOf(s.Elem()) == 8
}

func c25fn(c *Check, fn *ssa.Function) {
	who := relName(c.P, fn)
	it := c.run(fn, &Config{Unroll: 16})
	sig := fn.Signature
	off := mkInt(64, fnvOffset)
	hashType := func(t types.Type) *types.Named {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return nil
		}
		n := namedOf(p.Elem())
		if n == nil || n.Obj().Pkg() != fnPkg(fn) || widthOf(n) != 64 {
			return nil
		}
		return n
	}
	res := sig.Results()
	name := fn.Name()
	var self *Term
	var typ types.Type
	params := it.Params
	if sig.Recv() != nil {
		n := hashType(sig.Recv().Type())
		if n == nil {
			return
		}
		name = n.Obj().Name()
		self, typ = it.Params[0], n
		params = params[1:]
	}
	a1 := strings.HasSuffix(name, "a")
	if len(it.Paths) == 0 {
		c.fail("none:"+who, fn.Pos(), "it has no path")
	}
	for _, p := range it.Paths {
		if p.Out == OutBack {
			continue
		}
		if !c.must(p.Out == OutReturn, "returns", who, p.Pos, "it ends with %s", p.Out) {
			continue
		}
		var before, after *Term
		if self != nil {
			in := fn.Blocks[0].Instrs[0]
			before = newMemory().load(it, p.St, in, self, typ)
			after = p.St.mem.load(it, p.St, in, self, typ)
		}
		unchanged := func() bool {
			return self == nil || c.must(after == before, "state unchanged", who, p.Pos, "reading the hash changes it")
		}
		absorbed := func(v, start *Term) {
			tr := &tracer{p: p, a1: a1, start: start}
			l, ok := tr.trace(v)
			if !ok {
				c.fail("fold:"+who, p.Pos, "%s", tr.why)
				return
			}
			d := params[0]
			if d.W > 0 {
				// the bytes of a number, the most significant first
				n := d.W / 8
				good := len(l) == n
				for i := 0; good && i < n; i++ {
					w := resize(resize(ilshr(d, mkInt(d.W, uint64(8*(n-1-i)))), d.W, 8, false), 8, 64, false)
					good = l[i].b != nil && sameBits(l[i].b, w)
				}
				c.must(good, "bytes of a number", who, p.Pos, "what is added to the hash is not the bytes of the number, most significant first")
				return
			}
			if len(l) == 0 {
				z, known := p.Facts.decide(beq(mkLen(d), mkInt(64, 0)))
				c.must(known && z, "all bytes", who, p.Pos, "nothing is added to the hash")
				return
			}
			c.must(len(l) == 1 && l[0].seq == stripConv(d), "all bytes", who, p.Pos, "what is added to the hash is not just the bytes given")
		}
		switch {
		case self == nil && len(params) == 0 && res.Len() == 1 && hashType(res.At(0).Type()) != nil:
			v := p.St.mem.peek(it, p.St, p.Ret[0], hashType(res.At(0).Type()))
			c.must(v == off, "starts from the offset basis", who, p.Pos, "a new hash starts from %s", v)
		case self == nil && len(params) == 1 && res.Len() == 1 && widthOf(res.At(0).Type()) == 64:
			absorbed(p.Ret[0], off)
		case self != nil && len(params) == 0 && res.Len() == 0:
			c.must(after == off, "starts from the offset basis", who, p.Pos, "a hash that was reset starts from %s", after)
		case self != nil && len(params) == 0 && res.Len() == 1 && isUnsigned(res.At(0).Type()):
			unchanged()
			c.must(p.Ret[0] == before, "sum is the state", who, p.Pos, "the sum is %s", p.Ret[0])
		case self != nil && len(params) == 0 && res.Len() == 1:
			unchanged()
			want := uint64(8)
			if fn.Name() == "BlockSize" {
				want = 1
			}
			c.must(p.Ret[0].isConstInt(int64(want)), "sizes", who, p.Pos, "it returns %s", p.Ret[0])
		case self != nil && len(params) == 1 && res.Len() == 1 && isByteSlice(res.At(0).Type()):
			unchanged()
			c25sum(c, who, it, p, params[0], before)
		case self != nil && len(params) == 1:
			absorbed(after, before)
			for i, r := range p.Ret {
				if widthOf(res.At(i).Type()) > 0 {
					n := mkLen(params[0])
					same, known := p.Facts.decide(beq(r, n))
					c.must(stripLen(r) == mkLen(stripConv(params[0])) || r == n || known && same, "returns the number of bytes", who, p.Pos, "it returns %s as the number of bytes written", r)
				} else {
					c.must(errNil(p.Facts, r), "never fails", who, p.Pos, "it may return an error")
				}
			}
		}
	}
}

func stripLen(t *Term) *Term {
	if t.Op == "len" {
		return mkLen(stripConv(t.Args[0]))
	}
	return t
}

// c25sum: the eight bytes of the state, most significant first, are appended.
func c25sum(c *Check, who string, it *Interp, p *Path, buf, state *Term) {
	var bytes []*Term
	base := p.Ret[0]
	for base.Op == "append" || base.Op == "appendslice" {
		var l []*Term
		if base.Op == "append" {
			l = base.Args[1:]
		} else {
			b, off, n := sliceParts(base.Args[1])
			if !n.isInt() || n.V > 8 || !off.isInt() {
				break
			}
			for i := uint64(0); i < n.V; i++ {
				l = append(l, p.St.mem.peek(it, p.St, mkIA(b, mkInt(64, off.V+i), nil), types.Typ[types.Uint8]))
			}
		}
		bytes = append(append([]*Term{}, l...), bytes...)
		base = base.Args[0]
	}
	good := base == buf && len(bytes) == 8
	for i := 0; good && i < 8; i++ {
		good = sameBits(bytes[i], resize(ilshr(state, mkInt(64, uint64(56-8*i))), 64, 8, false))
	}
	c.must(good, "sum appended", who, p.Pos, "it does not append the eight bytes of the hash, most significant first: %s", p.Ret[0])
}

func init() {
	register(&checkDef{
		id:   "C25",
		run:  c25,
		rule: "The value that every exported function of the hash package leaves or returns is decomposed, by inverting the FNV step in arithmetic modulo 2^64, into the bytes that went into it: exactly all the bytes given, in order, starting from the state before (or the offset basis), each added by the step of the variant; loops visit every byte once",
		floor: map[string]int{
			"all bytes":                    8,
			"bytes of a number":            4,
			"starts from the offset basis": 4,
			"sum is the state":             2,
			"sum appended":                 2,
		},
	})
}
