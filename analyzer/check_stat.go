package main

// C19: count, sum, mean and variance follow their definitions.

import (
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const statPkg = "internal/summary/stat64"

// The quantities of a summary of n values: in exact arithmetic sum = n*mean, and ss is the sum
// of the squared differences from the mean.
const (
	qCount = iota
	qSum
	qMean
	qSS
)

var qName = [4]string{"count", "sum", "mean", "sum of squared differences"}

// statLayout says where in a summary each quantity is.
type statLayout struct {
	off [4]uint64
	ok  bool
}

func frombits(t *Term) *Term { return pureCall("math.Float64frombits", types.Typ[types.Float64], t) }

// word at offset off of buffer b in the memory of a state
func wordAt(it *Interp, p *Path, m *memory, b *Term, off uint64) *Term {
	base, o, _ := sliceParts(b)
	return m.load(it, p.St, it.Root.Blocks[0].Instrs[0], mkW(base, iadd(o, mkInt(64, off)), 8), types.Typ[types.Uint64])
}

// view is the state of the summary in buffer b at the end of a path.
func (l *statLayout) view(it *Interp, p *Path, m *memory, b *Term) (v [4]*Term) {
	for i := range v {
		v[i] = wordAt(it, p, m, b, l.off[i])
		if i != qCount {
			v[i] = frombits(v[i])
		}
	}
	return
}

// pre is the state of the summary when the function starts.
func (l *statLayout) pre(it *Interp, p *Path, b *Term) [4]*Term {
	m := newMemory()
	if it.Cfg.Start != nil {
		m = it.Cfg.Start
	}
	return l.view(it, p, m.clone(), b)
}

func mulAll(x ratio, ys ...ratio) ratio {
	for _, y := range ys {
		x = x.mul(y)
	}
	return x
}

// env gives the quantities their meaning. If it is known that there are none, all are zero.
func statEnv(pre [4]*Term, v *Term, none bool) func(*Term) (ratio, bool) {
	n, m, s := rAtom("N"), rAtom("M"), rAtom("S")
	if none {
		n, m, s = rInt(0), rInt(0), rInt(0)
	}
	return func(t *Term) (ratio, bool) {
		switch {
		case t == nil:
			return ratio{}, false
		case t == pre[qCount]:
			return n, true
		case t == pre[qSum]:
			return n.mul(m), true
		case t == pre[qMean]:
			return m, true
		case t == pre[qSS]:
			return s, true
		case t == v:
			return rAtom("v"), true
		}
		return ratio{}, false
	}
}

// countFacts: what is known of the number of observations: it is in [lo,hi].
func noneKnown(f *fact, n *Term) bool {
	return isTrue(f, beq(n, mkInt(n.W, 0)))
}

// advance checks that post is the state after one more observation v of state pre.
func (c *Check) advance(who string, pos token.Pos, f *fact, pre, post [4]*Term, v *Term) bool {
	none := noneKnown(f, pre[qCount])
	env := statEnv(pre, v, none)
	n, m, s, x := rAtom("N"), rAtom("M"), rAtom("S"), rAtom("v")
	if none {
		n, m, s = rInt(0), rInt(0), rInt(0)
	}
	n1 := n.add(rInt(1))
	d := x.sub(m)
	want := [4]ratio{
		n1,
		n.mul(m).add(x),
		n.mul(m).add(x).div(n1),
		s.add(mulAll(n, d, d).div(n1)),
	}
	good := true
	for i := range post {
		r, ok := ratOf(post[i], env)
		if !c.must(ok && r.eq(want[i]), "recurrence of the "+qName[i], who, pos, "after one more observation the %s is not what it is defined to be: %s", qName[i], post[i]) {
			good = false
		}
	}
	return good
}

// measured checks that a value read from a summary is the quantity named.
func (c *Check) measured(who, what string, pos token.Pos, f *fact, pre [4]*Term, r *Term) bool {
	n, m, s := rAtom("N"), rAtom("M"), rAtom("S")
	none := noneKnown(f, pre[qCount])
	env := statEnv(pre, nil, none)
	if none {
		n, m, s = rInt(0), rInt(0), rInt(0)
	}
	var want ratio
	switch what {
	case "count":
		want = n
	case "sum":
		want = n.mul(m)
	case "mean":
		want = m
		if none {
			if x, isF := floatVal(r); isF && math.IsNaN(x) {
				c.ok("reads the " + what)
				return true
			}
		}
	case "variance":
		few := isTrue(f, bult(pre[qCount], mkInt(pre[qCount].W, 2))) || none || isTrue(f, beq(pre[qCount], mkInt(pre[qCount].W, 1)))
		many := isFalse(f, bult(pre[qCount], mkInt(pre[qCount].W, 2)))
		if few {
			x, isF := floatVal(r)
			return c.must(isF && math.IsNaN(x), "no variance of fewer than two", who, pos, "the variance of fewer than two observations is %s", r)
		}
		if !c.must(many, "variance of at least two", who, pos, "the variance may be calculated for fewer than two observations, or refused for two or more") {
			return false
		}
		want = s.div(n.sub(rInt(1)))
	}
	x, ok := ratOf(r, env)
	return c.must(ok && x.eq(want), "reads the "+what, who, pos, "this is not the %s: %s", what, r)
}

func (c *Check) statLayout() *statLayout {
	l := &statLayout{}
	// where the accessors read from
	words := func(name string) (map[uint64]bool, *Term) {
		fn := c.fn(statPkg, "Summary."+name)
		if fn == nil {
			return nil, nil
		}
		it := c.run(fn, &Config{Loads: true})
		offs := map[uint64]bool{}
		var ret *Term
		for _, p := range it.Paths {
			if p.Out != OutReturn {
				c.fail("accessor:"+name, p.Pos, "it ends with %s", p.Out)
				return nil, nil
			}
			for _, r := range p.Ret {
				ret = r
				subterms(r, func(t *Term) bool {
					if a := loadAddr(t); a != nil && a.Op == "w64" && a.Args[0] == it.Params[0] && a.Args[1].isInt() {
						offs[a.Args[1].V] = true
					}
					return true
				})
			}
		}
		return offs, ret
	}
	used := map[uint64]bool{}
	for i, n := range []string{"Count", "Sum", "Mean", "Variance"} {
		o, _ := words(n)
		if o == nil {
			return nil
		}
		for k := range used {
			delete(o, k)
		}
		if len(o) != 1 {
			c.fail("layout:"+n, token.NoPos, "%s does not read a quantity of its own from the summary", n)
			return nil
		}
		for k := range o {
			l.off[i] = k
			used[k] = true
		}
	}
	for i, a := range l.off {
		for j, b := range l.off {
			if i != j && a < b+8 && b < a+8 {
				c.fail("layout", token.NoPos, "the %s and the %s overlap", qName[i], qName[j])
				return nil
			}
		}
	}
	return l
}

// zeroFill is a range of memory set to zero.
type zeroFill struct{ base, off, n *Term }

// zeroFills are the ranges set to zero on a path.
func zeroFills(p *Prog, evs []*Event) []zeroFill {
	var l []zeroFill
	for i, e := range evs {
		switch e.Kind {
		case EvCopy:
			if n := zeroLen(p, e.Args[1]); n != nil {
				b, o, ln := sliceParts(e.Args[0])
				k := e.Args[2]
				if n.isInt() {
					k = minTerm(ln, n)
					if ln.isInt() {
						k = ln
						if n.V < ln.V {
							k = n
						}
					}
				}
				l = append(l, zeroFill{b, o, k})
			}
		case EvStore:
			if e.Val != nil && e.Val.isConstInt(0) {
				switch e.Addr.Op {
				case "w64", "w32", "w16":
					l = append(l, zeroFill{e.Addr.Args[0], e.Addr.Args[1], mkInt(64, accWidth(e.Addr))})
				case "ia":
					l = append(l, zeroFill{e.Addr.Args[0], e.Addr.Args[1], mkInt(64, 1)})
				}
			}
		case EvLoop:
			var seq *Term
			idx, why := everyLoop(e, evs[i:], func(t *Term) bool { seq = t; return true })
			if why != "" || seq == nil {
				l = append(l, zeroedUpTo(e, evs[i:])...)
				continue
			}
			b, o, n := sliceParts(seq)
			good := true
			for _, bk := range backsOf(e) {
				hit := false
				for _, x := range bk.flat() {
					if inBody(bk, e, x) && x.Kind == EvStore && x.Val != nil && x.Val.isConstInt(0) && x.Addr == mkIA(b, iadd(o, idx), nil) {
						hit = true
					}
				}
				good = good && hit
			}
			if good {
				l = append(l, zeroFill{b, o, n})
			}
		}
	}
	return l
}

// zeroedUpTo: a loop that stores zero at one index after the other, and the limit it stops at.
func zeroedUpTo(e *Event, after []*Event) []zeroFill {
	bs := backsOf(e)
	for l, init := range e.Init {
		if l.W != 64 || len(bs) == 0 || !init.isConstInt(0) {
			continue
		}
		var base, off *Term
		good := true
		for _, bk := range bs {
			hit := false
			for _, x := range bk.flat() {
				if !inBody(bk, e, x) || x.Kind != EvStore || x.Val == nil || !x.Val.isConstInt(0) || x.Addr.Op != "ia" {
					continue
				}
				o := isub(x.Addr.Args[1], l)
				if contains(o, l) || base != nil && (base != x.Addr.Args[0] || off != o) {
					continue
				}
				base, off, hit = x.Addr.Args[0], o, true
			}
			good = good && hit && bk.Next[l] == iadd(l, mkInt(64, 1))
		}
		if !good {
			continue
		}
		for i, ev := range after {
			if ev.Kind != EvLoopEnd || ev.Loop != e.Loop {
				continue
			}
			if i == 0 || after[i-1].Kind != EvBranch {
				break
			}
			c, v := after[i-1].Cond, after[i-1].Taken
			for c.Op == "not" {
				c, v = c.Args[0], !v
			}
			if c.Op == "slt" && !v && c.Args[0] == l && !contains(c.Args[1], l) {
				return []zeroFill{{base, off, c.Args[1]}}
			}
			break
		}
	}
	return nil
}

// zeroLen: s is known to hold only zeroes, and how many.
func zeroLen(p *Prog, s *Term) *Term {
	b, _, n := sliceParts(s)
	if b.Op == "gval" && b.G != nil {
		_, o, _ := sliceParts(s)
		k := p.zeroGlobal(b.G)
		if k == 0 || !o.isInt() || int64(o.V) > k {
			return nil
		}
		if n.isInt() && int64(n.V) < k-int64(o.V) {
			return n
		}
		if n.isInt() || n == mkLen(b) {
			return mkInt(64, uint64(k)-o.V)
		}
		return nil
	}
	if b.Op == "gaddr" && b.G != nil && p.zeroArray(b.G) {
		return n
	}
	if b.Op == "call" && strings.HasSuffix(b.Aux, "bytes.Repeat") && n.isInt() {
		return nil
	}
	if b.Op == "obj" && b.Def != nil {
		switch x := b.Def.Instr.(type) {
		case *ssa.MakeSlice, *ssa.Alloc:
			// fresh and never written
			if onlyRead(x.(ssa.Value), 0) {
				return n
			}
		}
	}
	return nil
}

// onlyRead: nothing is ever written through v.
func onlyRead(v ssa.Value, depth int) bool {
	if depth > 6 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if _, ok := x.Type().Underlying().(*types.Slice); ok && !onlyRead(x, depth+1) {
				return false
			}
		case *ssa.Slice:
			if !onlyRead(x, depth+1) {
				return false
			}
		case *ssa.IndexAddr:
			if !onlyRead(x, depth+1) {
				return false
			}
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok {
				return false
			}
			switch b.Name() {
			case "len", "cap":
			case "copy":
				if x.Call.Args[0] == v {
					return false
				}
			case "append":
				if x.Call.Args[0] == v {
					return false
				}
			default:
				return false
			}
		default:
			return false
		}
	}
	return true
}

// usesOf a global in the module, apart from its initialisation.
func (p *Prog) globalUses(g *ssa.Global) []ssa.Instruction {
	var l []ssa.Instruction
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if *o == ssa.Value(g) {
						l = append(l, in)
					}
				}
			}
		}
	}
	return l
}

// zeroGlobal: the length of a global slice that holds only zeroes for ever, or 0.
func (p *Prog) zeroGlobal(g *ssa.Global) int64 {
	if g.Pkg == nil || !p.inModulePkg(g.Pkg.Pkg) || !p.gconst[g] {
		return 0
	}
	for _, in := range p.globalUses(g) {
		switch x := in.(type) {
		case *ssa.UnOp:
			if !onlyRead(x, 0) {
				return 0
			}
		case *ssa.Store:
			if x.Addr != ssa.Value(g) {
				return 0
			}
		default:
			return 0
		}
	}
	switch v := p.ginit[g].(type) {
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil || f.String() != "bytes.Repeat" {
			return 0
		}
		n, ok := v.Call.Args[1].(*ssa.Const)
		if !ok || n.Value == nil {
			return 0
		}
		sl, ok := v.Call.Args[0].(*ssa.Slice)
		if !ok {
			return 0
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			return 0
		}
		at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok || !zeroAlloc(al) {
			return 0
		}
		return at.Len() * n.Int64()
	case *ssa.Slice:
		if al, ok := v.X.(*ssa.Alloc); ok && zeroAlloc(al) {
			if at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok && v.Low == nil && v.High == nil {
				return at.Len()
			}
		}
	case *ssa.MakeSlice:
		if n, ok := v.Len.(*ssa.Const); ok {
			return n.Int64()
		}
	}
	return 0
}

// zeroAlloc: only zeroes are stored in a new array.
func zeroAlloc(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr:
			for _, q := range *x.Referrers() {
				s, ok := q.(*ssa.Store)
				if !ok {
					return false
				}
				k, ok := s.Val.(*ssa.Const)
				if !ok || k.Value == nil || k.Uint64() != 0 {
					return false
				}
			}
		case *ssa.Slice, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// zeroArray: a global array that is never written.
func (p *Prog) zeroArray(g *ssa.Global) bool {
	if g.Pkg == nil || !p.inModulePkg(g.Pkg.Pkg) || p.ginit[g] != nil {
		return false
	}
	for _, in := range p.globalUses(g) {
		switch x := in.(type) {
		case *ssa.Slice:
			if !onlyRead(x, 0) {
				return false
			}
		case *ssa.IndexAddr:
			if !onlyRead(x, 0) {
				return false
			}
		case *ssa.UnOp:
		default:
			return false
		}
	}
	return true
}

// zeroTo: the first n bytes (or all there are) of buffer b are set to zero on the path.
func zeroTo(p *Prog, pa *Path, b *Term, n uint64) bool {
	base, off, ln := sliceParts(b)
	var cov [64]bool
	for _, z := range zeroFills(p, pa.Events) {
		if z.base != base {
			continue
		}
		o := isub(z.off, off)
		if !o.isInt() || o.V >= 64 {
			continue
		}
		k := uint64(0)
		switch {
		case z.n.isInt():
			k = z.n.V
		case o.V == 0 && z.n == ln:
			k = 64
		case o.V == 0 && z.n.Op == "min":
			for i := 0; i < 2; i++ {
				if z.n.Args[i] == ln && z.n.Args[1-i].isInt() {
					k = z.n.Args[1-i].V
				}
			}
		}
		for i := o.V; i < o.V+k && i < 64; i++ {
			cov[i] = true
		}
	}
	for i := uint64(0); i < n; i++ {
		if !cov[i] {
			return false
		}
	}
	return true
}

// closureOf is the function that a method of a measure returns.
func (c *Check) closureOf(fn *ssa.Function) (*ssa.Function, *Config) {
	it := c.run(fn, &Config{})
	var f *Term
	var cfg *Config
	for _, p := range it.Paths {
		if p.Out != OutReturn || len(p.Ret) != 1 || f != nil && f != p.Ret[0] {
			c.fail("closure:"+relName(c.P, fn), p.Pos, "the function it returns is unclear")
			return nil, nil
		}
		f = p.Ret[0]
		cfg = &Config{Free: f.Args, Start: p.St.mem}
	}
	if f == nil || f.Fn == nil || f.Op != "closure" && f.Op != "func" {
		c.fail("closure:"+relName(c.P, fn), fn.Pos(), "the function it returns is unclear: %s", f)
		return nil, nil
	}
	return f.Fn, cfg
}

func c19(c *Check) {
	l := c.statLayout()
	if l == nil {
		return
	}
	c.note("layout of a summary: count at %d, sum at %d, mean at %d, sum of squared differences at %d", l.off[0], l.off[1], l.off[2], l.off[3])
	for _, a := range []struct{ fn, what string }{{"Count", "count"}, {"Sum", "sum"}, {"Mean", "mean"}, {"Variance", "variance"}} {
		fn := c.fn(statPkg, "Summary."+a.fn)
		it := c.run(fn, &Config{})
		for _, p := range it.Paths {
			c.measured(relName(c.P, fn), a.what, p.Pos, p.Facts, l.pre(it, p, it.Params[0]), p.Ret[0])
			c.must(l.pre(it, p, it.Params[0]) == l.view(it, p, p.St.mem, it.Params[0]), "reading changes nothing", relName(c.P, fn), p.Pos, "reading a quantity changes the summary")
		}
	}
	if fn := c.fn(statPkg, "Summary.Update"); fn != nil {
		c.statUpdates(l, fn, &Config{Unroll: 4}, 1)
	}
	if fn := c.fn(statPkg, "Summary.UpdateMulti"); fn != nil {
		c.statMulti(l, fn)
	}
	end := uint64(0)
	for _, o := range l.off {
		if o+8 > end {
			end = o + 8
		}
	}
	// reset, by function and by method
	for _, n := range []string{"Reset", "Summary.Reset"} {
		fn := c.fn(statPkg, n)
		if fn == nil {
			continue
		}
		it := c.run(fn, &Config{Unroll: 8})
		for _, p := range it.Paths {
			if p.Out == OutBack {
				continue
			}
			if c.must(p.Out == OutReturn, "returns", relName(c.P, fn), p.Pos, "it ends with %s", p.Out) && (len(p.Ret) == 0 || !errNonNil(p.Facts, p.Ret[0])) {
				c.must(zeroTo(c.P, p, it.Params[0], end), "reset clears everything", relName(c.P, fn), p.Pos, "it does not set all of the summary to zero")
			}
		}
	}
	if fn := c.fn(statPkg, "New"); fn != nil {
		it := c.run(fn, &Config{})
		for _, p := range it.Paths {
			if !c.must(p.Out == OutReturn, "returns", relName(c.P, fn), p.Pos, "it ends with %s", p.Out) {
				continue
			}
			_, _, n := sliceParts(p.Ret[0])
			c.must(n.isInt() && n.V >= end, "new holds everything", relName(c.P, fn), p.Pos, "a new summary is too short")
			for i, w := range l.view(it, p, p.St.mem, p.Ret[0]) {
				x, isF := floatVal(w)
				c.must(w.isConstInt(0) || isF && x == 0, "new starts from zero", relName(c.P, fn), p.Pos, "the %s of a new summary is %s", qName[i], w)
			}
		}
	}
	for _, n := range []string{"Len", "Summary.Len"} {
		if fn := c.fn(statPkg, n); fn != nil {
			it := c.run(fn, &Config{})
			for _, p := range it.Paths {
				c.must(p.Out == OutReturn && p.Ret[0].isInt() && p.Ret[0].V >= end, "length holds everything", relName(c.P, fn), p.Pos, "the length does not cover the quantities")
			}
		}
	}
	// the measures of a collation
	const coll = "internal/collation"
	for _, m := range []struct{ typ, what string }{{"Count", "count"}, {"Sum", "sum"}, {"Mean", "mean"}, {"Variance", "variance"}} {
		if fn := c.fn(coll, m.typ+".ContReader"); fn != nil {
			if f, cfg := c.closureOf(fn); f != nil {
				it := c.run(f, cfg)
				for _, p := range it.Paths {
					if p.Out == OutReturn && len(p.Ret) == 2 && !errNonNil(p.Facts, p.Ret[1]) {
						pre := l.pre(it, p, it.Params[0])
						c.measured(relName(c.P, fn), m.what, p.Pos, p.Facts, pre, p.Ret[0])
						c.must(pre == l.view(it, p, p.St.mem, it.Params[0]), "reading changes nothing", relName(c.P, fn), p.Pos, "reading a measure changes it")
					} else if p.Out != OutReturn {
						c.fail("end:"+relName(c.P, fn), p.Pos, "it ends with %s", p.Out)
					} else {
						c.fail("fails:"+relName(c.P, fn), p.Pos, "the measure may not be readable")
					}
				}
			}
		}
	}
	c.statWriters(l)
	c.statsPkg()
}

// statWriters: the measures that keep such a summary add every observation to it.
func (c *Check) statWriters(l *statLayout) {
	for _, m := range []string{"Count", "Sum", "Mean", "Variance"} {
		if fn := c.fn(collPkg, m+".ContWriter"); fn != nil {
			if f, cfg := c.closureOf(fn); f != nil {
				c.statUpdates(l, f, cfg, 2)
			}
		}
	}
	if fn := c.fn(collPkg, "Count.RowWriter"); fn != nil {
		if f, cfg := c.closureOf(fn); f != nil {
			it := c.run(f, cfg)
			for _, p := range it.Paths {
				who := relName(c.P, fn)
				if !c.must(p.Out == OutReturn && errNil(p.Facts, p.Ret[0]), "returns", who, p.Pos, "counting may fail") {
					continue
				}
				if isTrue(p.Facts, it.Params[1]) {
					continue
				}
				pre := l.pre(it, p, it.Params[0])
				post := l.view(it, p, p.St.mem, it.Params[0])
				c.must(post[qCount] == iadd(pre[qCount], mkInt(64, 1)), "counts by one", who, p.Pos, "an observation changes the count to %s", post[qCount])
			}
		}
	}
}

// neverAfresh: an observation is added to the state of every measure as it is.
func neverAfresh(c *Check) {
	if l := c.statLayout(); l != nil {
		c.statWriters(l)
	}
	c.extreme("Max", true)
	c.extreme("Min", false)
	cardinalityWriter(c)
}

// statUpdates: every path through fn adds the observation in parameter v to the summary in
// parameter 0.
func (c *Check) statUpdates(l *statLayout, fn *ssa.Function, cfg *Config, v int) {
	cfg.Unroll = 4
	it := c.run(fn, cfg)
	who := relName(c.P, fn)
	n := 0
	for _, p := range it.Paths {
		if p.Out == OutBack {
			continue
		}
		if !c.must(p.Out == OutReturn, "returns", who, p.Pos, "it ends with %s", p.Out) {
			continue
		}
		if len(it.Params) > 2 && isBool(it.Params[1].Typ) && isTrue(p.Facts, it.Params[1]) {
			continue // the collator initialises records itself: see C17
		}
		if len(p.Ret) > 0 && !errNil(p.Facts, p.Ret[0]) {
			c.fail("fails:"+who, p.Pos, "an observation may be refused")
			continue
		}
		n++
		c.advance(who, p.Pos, p.Facts, l.pre(it, p, it.Params[0]), l.view(it, p, p.St.mem, it.Params[0]), it.Params[v])
	}
	c.must(n > 0, "updates", who, fn.Pos(), "it never updates the summary")
}

// statMulti: the list is added element by element.
func (c *Check) statMulti(l *statLayout, fn *ssa.Function) {
	it := c.run(fn, &Config{Unroll: 8})
	who := relName(c.P, fn)
	vs := it.Params[1]
	word := func(t *Term) *Term {
		if t.Op == "call" && t.Aux == "math.Float64frombits" {
			return t.Args[0]
		}
		return nil
	}
	for _, p := range it.Paths {
		if p.Out == OutBack {
			continue
		}
		if !c.must(p.Out == OutReturn, "returns", who, p.Pos, "it ends with %s", p.Out) {
			continue
		}
		pre := l.pre(it, p, it.Params[0])
		post := l.view(it, p, p.St.mem, it.Params[0])
		var loop *Event
		at := 0
		for i, e := range p.Events {
			if e.Kind != EvLoop {
				continue
			}
			for _, q := range post {
				if e.Init[q] != nil || word(q) != nil && e.Init[word(q)] != nil {
					loop, at = e, i
				}
			}
		}
		if loop == nil {
			c.must(pre == post && isTrue(p.Facts, beq(mkLen(vs), mkInt(64, 0))), "every element is added", who, p.Pos, "elements are not added")
			continue
		}
		idx, _, why := rangeLoop(loop, p.Events[at:], func(t *Term) bool { return t == vs })
		if !c.must(why == "", "every element is added", who, loop.Pos, "not every element of the list is added: %s", why) {
			continue
		}
		// the value of a quantity in terms of a mapping of loop variables
		through := func(q *Term, m map[*Term]*Term) *Term {
			if x := m[q]; x != nil {
				return x
			}
			if w := word(q); w != nil && m[w] != nil {
				return frombits(m[w])
			}
			return nil
		}
		good := true
		for i, q := range post {
			in := through(q, loop.Init)
			good = good && c.must(in == pre[i], "starts from the present state", who, loop.Pos, "the %s does not start from that of the summary", qName[i])
		}
		if !good {
			continue
		}
		for _, b := range backsOf(loop) {
			var next [4]*Term
			for i, q := range post {
				next[i] = through(q, b.Next)
				if next[i] == nil {
					next[i] = q
				}
			}
			base, off, _ := sliceParts(vs)
			elem := mkIA(base, iadd(off, idx), types.Typ[types.Float64])
			var v *Term
			for _, q := range next {
				subterms(q, func(t *Term) bool {
					if loadAddr(t) == elem {
						v = t
					}
					return v == nil
				})
			}
			if v == nil {
				c.fail("multi:"+who, b.Pos, "an iteration does not add its element")
				continue
			}
			c.advance(who, b.Pos, b.Facts, post, next, v)
		}
	}
}

// statsPkg: the functions of the stats package that calculate sums, means and variances.
func (c *Check) statsPkg() {
	fn := c.fn("internal/stats", "Meanvar")
	if fn != nil {
		it := c.run(fn, &Config{})
		vs := it.Params[0]
		for _, p := range it.Paths {
			if p.Out != OutReturn {
				continue
			}
			who := relName(c.P, fn)
			n := mkLen(vs)
			known := func(k uint64) bool {
				return isTrue(p.Facts, beq(n, mkInt(64, k))) || isTrue(p.Facts, fcmp("feq", i2f(n, false), mkFloat(float64(k)))) || isTrue(p.Facts, fcmp("feq", i2f(n, true), mkFloat(float64(k))))
			}
			if known(0) {
				continue
			}
			if known(1) {
				if !sameElem(p.Ret[0], vs, 0) {
					r, ok := c.powerSum(p, p.Ret[0], vs)
					c.must(ok && r.eq(rAtom("S1").div(rAtom("n"))), "mean of a list", who, p.Pos, "the mean of one value is %s", p.Ret[0])
				}
				continue
			}
			n1 := rAtom("n")
			r, ok := c.powerSum(p, p.Ret[0], vs)
			c.must(ok && r.eq(rAtom("S1").div(n1)), "mean of a list", who, p.Pos, "this is not the mean: %s", p.Ret[0])
			r, ok = c.powerSum(p, p.Ret[1], vs)
			want := rAtom("S2").sub(mulAll(rAtom("S1"), rAtom("S1")).div(n1)).div(n1.sub(rInt(1)))
			c.must(ok && r.eq(want), "variance of a list", who, p.Pos, "this is not the sample variance: %s", p.Ret[1])
		}
	}
	fn = c.fn("internal/stats", "Sum")
	if fn != nil {
		it := c.run(fn, &Config{})
		for _, p := range it.Paths {
			if p.Out != OutReturn {
				continue
			}
			r, ok := c.powerSum(p, p.Ret[0], it.Params[0])
			if isTrue(p.Facts, beq(mkLen(it.Params[0]), mkInt(64, 0))) {
				continue
			}
			c.must(ok && r.eq(rAtom("S1")), "sum of a list", relName(c.P, fn), p.Pos, "this is not the sum: %s", p.Ret[0])
		}
	}
}

func sameElem(t, vs *Term, i uint64) bool {
	b, o, _ := sliceParts(vs)
	return loadAddr(t) == mkIA(b, iadd(o, mkInt(64, i)), types.Typ[types.Float64])
}

// powerSum reads a term as a rational function of the sums of the powers of the values in vs.
func (c *Check) powerSum(p *Path, t, vs *Term) (ratio, bool) {
	base, off, _ := sliceParts(vs)
	fail := false
	var env func(t *Term) (ratio, bool)
	env = func(t *Term) (ratio, bool) {
		if t == mkLen(vs) {
			return rAtom("n"), true
		}
		for i, e := range p.Events {
			if e.Kind != EvLoop || e.Init[t] == nil {
				continue
			}
			idx, _, why := rangeLoop(e, p.Events[i:], func(s *Term) bool { return s == vs })
			init, ok := ratOf(e.Init[t], env)
			bs := backsOf(e)
			if why != "" || !ok || len(bs) != 1 {
				fail = true
				return ratio{}, false
			}
			b := bs[0]
			elem := mkIA(base, iadd(off, idx), types.Typ[types.Float64])
			r, ok := ratOf(b.Next[t], func(x *Term) (ratio, bool) {
				if loadAddr(x) == elem {
					return rAtom("e"), true
				}
				if x == t {
					return rAtom("acc"), true
				}
				return env(x)
			})
			r = r.sub(rAtom("acc"))
			sum := rpoly{}
			if !ok {
				fail = true
			}
			for m, k := range r.den {
				_ = k
				if strings.Contains("*"+m+"*", "*e*") || strings.Contains("*"+m+"*", "*acc*") {
					fail = true
				}
			}
			for m, k := range r.num {
				var rest []string
				pow := 0
				for _, a := range strings.Split(m, "*") {
					switch a {
					case "e":
						pow++
					case "acc":
						// cancels if the accumulator occurs in no other way
						rest = append(rest, a)
					case "":
					default:
						rest = append(rest, a)
					}
				}
				s := "n"
				if pow > 0 {
					s = "S" + string(rune('0'+pow))
				}
				sum = sum.add(rpoly{joinMono(strings.Join(rest, "*"), s): k}, 1)
				for _, a := range rest {
					if a == "acc" {
						fail = true
					}
				}
			}
			return init.add(ratio{sum, r.den}), true
		}
		return ratio{}, false
	}
	r, ok := ratOf(t, env)
	return r, ok && !fail
}

func init() {
	register(&checkDef{
		id: "C19",
		run: func(c *Check) {
			c19(c)
			c.updates(false)
		},
		rule: "The words that every update leaves are read as rational functions of the previous count n, mean m, sum of squared differences s and the value v, with sum = n*m: they equal n+1, n*m+v, (n*m+v)/(n+1) and s+n(v-m)^2/(n+1); every accessor and reader returns the quantity of its name (the variance only for n>=2); a list is added by one loop over all elements each of which advances the state so; reset zeroes and new starts from zero; Collator.Update clears and initialises the record just if it is new and gives every writer its range and the value of its field",
		floor: map[string]int{
			"recurrence of the count": 6,
			"reads the count":         2, "reads the sum": 2, "reads the mean": 2, "reads the variance": 2,
			"every element is added":  1,
			"reset clears everything": 2,
			"new starts from zero":    4,
			"counts by one":           1,
			"variance of a list":      1,
		},
		assume: []string{"real arithmetic: rounding and overflow are set aside (C37)", "64-bit counters do not wrap"},
	})
}
