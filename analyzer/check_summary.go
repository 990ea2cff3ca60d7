package main

// C18: maximum and minimum. C20: cardinality registers. C21: no false negatives.

import (
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	collPkg  = "internal/collation"
	hllPkg   = "internal/summary/hll"
	bloomPkg = "internal/summary/bloom"
	bbPkg    = "internal/bitbucket"
)

// ---- C18

// feval evaluates conditions and floating point values that only compare. env gives the value of
// the variables.
type feval struct {
	env map[*Term]float64
	bad *Term // cannot be decided by order alone
}

func (e *feval) num(t *Term) float64 {
	if x, ok := e.env[t]; ok {
		return x
	}
	if x, ok := floatVal(t); ok {
		return x
	}
	if t.Op == "call" {
		switch {
		case t.Aux == "math.Max" && len(t.Args) == 2:
			return math.Max(e.num(t.Args[0]), e.num(t.Args[1]))
		case t.Aux == "math.Min" && len(t.Args) == 2:
			return math.Min(e.num(t.Args[0]), e.num(t.Args[1]))
		}
	}
	if t.Op == "fneg" {
		return -e.num(t.Args[0])
	}
	e.bad = t
	return 0
}

func (e *feval) cond(t *Term) bool {
	switch t.Op {
	case "true":
		return true
	case "false":
		return false
	case "not":
		return !e.cond(t.Args[0])
	case "flt":
		return e.num(t.Args[0]) < e.num(t.Args[1])
	case "fle":
		return e.num(t.Args[0]) <= e.num(t.Args[1])
	case "feq":
		return e.num(t.Args[0]) == e.num(t.Args[1])
	case "call":
		switch {
		case t.Aux == "math.IsNaN":
			return math.IsNaN(e.num(t.Args[0]))
		case t.Aux == "math.IsInf" && t.Args[1].isInt():
			return math.IsInf(e.num(t.Args[0]), int(t.Args[1].sval()))
		}
	case "eq0":
		// the same bits
		x := t.Args[0]
		if x.Op == "call" && x.Aux == "math.Float64bits" {
			return math.Float64bits(e.num(x.Args[0])) == 0
		}
		if x.Op == "poly" && len(x.Monos) == 1 {
			if a, k, ok := offsetOf(x); ok {
				if a.Op == "call" && a.Aux == "math.Float64bits" {
					return math.Float64bits(e.num(a.Args[0])) == k
				}
				if f, ok := e.env[frombits(a)]; ok {
					return math.Float64bits(f) == k
				}
			}
		}
		if f, ok := e.env[frombits(x)]; ok {
			return math.Float64bits(f) == 0
		}
	}
	e.bad = t
	return false
}

// points are values such that any set of comparisons between two of them and the given constants
// comes out in every way that it can.
func points(consts []float64) []float64 {
	m := map[float64]bool{math.Inf(-1): true, math.Inf(1): true, 0: true, math.MaxFloat64: true, -math.MaxFloat64: true}
	for _, k := range consts {
		if !math.IsNaN(k) {
			m[k] = true
			m[-k] = true
		}
	}
	var l []float64
	for k := range m {
		l = append(l, k)
	}
	sort.Float64s(l)
	var r []float64
	for i, k := range l {
		r = append(r, k)
		if i+1 < len(l) {
			a := math.Nextafter(k, math.Inf(1))
			for j := 0; j < 2 && a < l[i+1]; j++ {
				r = append(r, a)
				a = math.Nextafter(a, math.Inf(1))
			}
		}
	}
	return append(r, math.NaN())
}

func constsOf(ts []*Term, l []float64) []float64 {
	for _, t := range ts {
		if t == nil {
			continue
		}
		subterms(t, func(x *Term) bool {
			if f, ok := floatVal(x); ok {
				l = append(l, f)
			}
			return true
		})
	}
	return l
}

func pathConds(p *Path) (conds []*Term, vals []bool) {
	for x := p.Facts; x != nil; x = x.up {
		if x.cond != nil {
			conds = append(conds, x.cond)
			vals = append(vals, x.val)
		}
	}
	return
}

func c18(c *Check) {
	for _, m := range []struct {
		typ  string
		max  bool
		unit float64
	}{{"Max", true, math.Inf(-1)}, {"Min", false, math.Inf(1)}} {
		c.extreme(m.typ, m.max)
	}
	c.updates(true)
}

func (c *Check) extreme(typ string, max bool) {
	worst := math.Inf(1)
	if max {
		worst = math.Inf(-1)
	}
	// the state of no observations
	start := math.NaN()
	if fn := c.fn(collPkg, typ+".Init"); fn != nil {
		it := c.run(fn, &Config{Unroll: 8})
		n := 0
		for _, p := range it.Paths {
			if p.Out == OutBack {
				continue
			}
			who := relName(c.P, fn)
			if !c.must(p.Out == OutReturn, "returns", who, p.Pos, "it ends with %s", p.Out) {
				continue
			}
			if errNonNil(p.Facts, p.Ret[0]) {
				c.fail("fails:"+who, p.Pos, "a record may not be initialised")
				continue
			}
			w := wordAt(it, p, p.St.mem, it.Params[len(it.Params)-1], 0)
			v := frombits(w)
			x, isF := floatVal(v)
			if !c.must(isF, "empty state", who, p.Pos, "the state of no observations is unclear: %s", v) {
				continue
			}
			if n > 0 && math.Float64bits(x) != math.Float64bits(start) {
				c.fail("empty:"+who, p.Pos, "there is more than one state of no observations")
			}
			start = x
			n++
			c.must(x == worst || math.IsNaN(x), "starts below every value", who, p.Pos, "the first value observed does not count if it is beyond %g", x)
		}
		if n == 0 {
			return
		}
	} else {
		return
	}
	fn := c.fn(collPkg, typ+".ContWriter")
	if fn == nil {
		return
	}
	f, cfg := c.closureOf(fn)
	if f == nil {
		return
	}
	who := relName(c.P, fn)
	it := c.run(f, cfg)
	buf, initp, v := it.Params[0], it.Params[1], it.Params[2]
	var paths []*Path
	var consts []float64
	var cur *Term
	for _, p := range it.Paths {
		if p.Out == OutBack || isTrue(p.Facts, initp) {
			continue // the collator initialises records itself: see C17
		}
		if !c.must(p.Out == OutReturn, "returns", who, p.Pos, "it ends with %s", p.Out) {
			continue
		}
		if !errNil(p.Facts, p.Ret[0]) {
			c.fail("fails:"+who, p.Pos, "an observation may be refused")
			continue
		}
		paths = append(paths, p)
		m := newMemory()
		if cfg.Start != nil {
			m = cfg.Start.clone()
		}
		cur = frombits(wordAt(it, p, m, buf, 0))
		cs, _ := pathConds(p)
		consts = constsOf(cs, consts)
		consts = constsOf([]*Term{wordAt(it, p, p.St.mem, buf, 0)}, consts)
	}
	if !c.must(len(paths) > 0, "updates", who, fn.Pos(), "it never updates the measure") {
		return
	}
	pts := points(consts)
	for _, x := range pts {
		if math.IsNaN(x) && !math.IsNaN(start) {
			continue // NaN is never stored
		}
		for _, y := range pts {
			want := x
			switch {
			case math.IsNaN(y):
			case math.IsNaN(x), max && y > x, !max && y < x:
				want = y
			}
			hit := 0
			for _, p := range paths {
				e := &feval{env: map[*Term]float64{cur: x, v: y}}
				cs, vs := pathConds(p)
				take := true
				for i := range cs {
					if cs[i] == initp {
						take = take && !vs[i]
						continue
					}
					if e.cond(cs[i]) != vs[i] {
						take = false
					}
				}
				if e.bad != nil {
					c.fail("undecided:"+who, p.Pos, "whether the value is stored depends on more than how it compares: %s", e.bad)
					return
				}
				if !take {
					continue
				}
				hit++
				got := e.num(frombits(wordAt(it, p, p.St.mem, buf, 0)))
				if e.bad != nil {
					c.fail("undecided:"+who, p.Pos, "what is stored is unclear: %s", e.bad)
					return
				}
				same := got == want || math.IsNaN(got) && math.IsNaN(want)
				if !c.must(same, "keeps the extreme", who, p.Pos, "a value of %s after %s gives %s", fname(y, consts), fname(x, consts), fname(got, consts)) {
					return
				}
			}
			if !c.must(hit > 0, "every value is handled", who, fn.Pos(), "no path handles a value of %g after %g", y, x) {
				return
			}
		}
	}
	if fn := c.fn(collPkg, typ+".ContReader"); fn != nil {
		f, cfg := c.closureOf(fn)
		if f == nil {
			return
		}
		it := c.run(f, cfg)
		who := relName(c.P, fn)
		for _, p := range it.Paths {
			if p.Out == OutBack {
				continue
			}
			if !c.must(p.Out == OutReturn && len(p.Ret) == 2 && errNil(p.Facts, p.Ret[1]), "readable", who, p.Pos, "the measure may not be readable") {
				continue
			}
			m := newMemory()
			if cfg.Start != nil {
				m = cfg.Start.clone()
			}
			w := wordAt(it, p, m, it.Params[0], 0)
			c.must(p.Ret[0] == frombits(w), "reads the extreme", who, p.Pos, "it returns %s instead of the value kept", p.Ret[0])
			c.must(wordAt(it, p, p.St.mem, it.Params[0], 0) == w, "reading changes nothing", who, p.Pos, "reading the measure changes it")
		}
	}
}

func fname(x float64, consts []float64) string {
	if math.IsNaN(x) {
		return "NaN"
	}
	return mkFloat(x).String()
}

// ---- bit buckets as seen from the summaries

// isBB says that an event is a call of a method of a bit bucket.
func isBB(e *Event, names ...string) bool {
	if e.Kind != EvCall || e.Call == nil {
		return false
	}
	for _, n := range names {
		if e.Call.Name() == n && strings.HasSuffix(fnPkg(e.Call).Path(), bbPkg) {
			return true
		}
	}
	return false
}

func bbMethod(p *Prog, fn *ssa.Function) bool {
	return fn.Signature.Recv() != nil && fnPkg(fn) != nil && fnPkg(fn).Path() == p.path(bbPkg) && namedOf(fn.Signature.Recv().Type()) != nil && fn.Object() != nil && fn.Object().Exported()
}

// bbPure are the methods that do not change a bit bucket.
var bbReaders = map[string]bool{"Get": true, "CountN": true, "Count": true, "Width": true, "Max": true, "Len": true, "WriteTo": true}

// summaryCfg treats the bit bucket as a black box.
func (c *Check) summaryCfg() *Config {
	return &Config{
		Opaque: func(fn *ssa.Function) bool { return bbMethod(c.P, fn) },
		// a call of a method of the bit bucket leaves the other fields alone; nothing else
		// writes them (see mutators)
		Frozen: func(st types.Type, i int) bool {
			n := namedOf(st)
			if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != c.P.path(hllPkg) && n.Obj().Pkg().Path() != c.P.path(bloomPkg) {
				return false
			}
			if n.Obj().Name() != "Counter" && n.Obj().Name() != "Bloom" {
				return false
			}
			f := namedOf(structOf(st).Field(i).Type())
			return f == nil || f.Obj().Pkg() == nil || f.Obj().Pkg().Path() != c.P.path(bbPkg)
		},
	}
}

// mutators checks that no function of the package but those named changes the bits of a
// summary or the fields that say how they are used.
func (c *Check) mutators(rel, typ string, may map[string]bool) {
	for _, fn := range c.P.funcsOf(rel) {
		if fn.Parent() != nil || len(fn.Blocks) == 0 || fn.Name() == "init" {
			continue
		}
		if c.P.isInitFunc(fn) {
			continue
		}
		// only those reachable from outside
		if fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		who := relName(c.P, fn)
		name := fn.Name()
		recv := ""
		if fn.Signature.Recv() != nil {
			if n := namedOf(fn.Signature.Recv().Type()); n != nil {
				recv = n.Obj().Name()
			}
		}
		if recv == typ && may[name] {
			continue
		}
		it := c.run(fn, c.summaryCfg())
		for _, p := range it.Paths {
			for _, e := range p.Events {
				switch {
				case e.Kind == EvCall && e.Call != nil && bbMethod(c.P, e.Call) && !bbReaders[e.Call.Name()]:
					if it.local(e.Args[0]) {
						continue
					}
					c.fail("mutator:"+who, e.Pos, "%s changes the bits of a summary by %s", who, e.Call.Name())
				case e.Kind == EvStore && !it.local(e.Addr):
					c.fail("store:"+who, e.Pos, "%s writes to %s", who, e.Addr)
				case (e.Kind == EvCopy) && !it.local(e.Args[0]):
					c.fail("store:"+who, e.Pos, "%s writes to %s", who, e.Args[0])
				}
			}
		}
		c.ok("changes no summary")
	}
}

// local: memory that was allocated by the function itself.
func (it *Interp) local(a *Term) bool {
	r := baseRoot(a)
	return r.Op == "obj" || r.Op == "mapobj" || r.Op == "nilslice" || r.Op == "nil"
}

func (p *Prog) isInitFunc(fn *ssa.Function) bool {
	return fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
}

// fieldOf: the address of the named field of the struct at a.
func fieldOfAddr(a *Term) (*Term, string) {
	if a.Op != "fa" {
		return nil, ""
	}
	return a.Args[0], aggFieldName(a.Typ, a.Aux)
}

// ---- C20

func c20(c *Check) {
	fn := c.fn(hllPkg, "Counter.Add")
	if fn == nil {
		return
	}
	who := relName(c.P, fn)
	it := c.run(fn, c.summaryCfg())
	recv, item := it.Params[0], it.Params[1]
	// what a register and its value may depend on: the item, and the parameters of the counter
	memo := map[*Term]*Term{}
	var clean func(t *Term) *Term
	clean = func(t *Term) *Term {
		var bad *Term
		subterms(t, func(x *Term) bool {
			if bad != nil {
				return false
			}
			switch x.Op {
			case "load":
				if rootOf(x.Args[0]) == recv && mentionsBits(c.P, x.Args[0]) {
					bad = x
					return false
				}
				return true
			case "leaf":
				if x.Def == nil {
					bad = x
					return false
				}
				switch x.Def.Kind {
				case "param":
				case "phi", "mem":
					// what it is computed from
					if b, ok := memo[x]; ok {
						bad = b
						return bad == nil
					}
					memo[x] = nil // by induction
					l := x.Def.Loop
					from := l.Alts[x]
					if init := l.Init[x]; init != nil && init.Op != "multi" {
						from = append(from[:len(from):len(from)], init)
					}
					for _, b := range l.Backs {
						if nx := b.Next[x]; nx != nil {
							from = append(from[:len(from):len(from)], nx)
						}
						evs, _ := iteration(b, l)
						for _, e := range evs {
							if e.Kind == EvBranch {
								from = append(from[:len(from):len(from)], e.Cond)
							}
						}
					}
					for _, v := range from {
						if bad = clean(v); bad != nil {
							memo[x] = bad
							return false
						}
					}
				default:
					bad = x
				}
			case "multi":
				bad = x
			case "gval", "gaddr":
			}
			return true
		})
		return bad
	}
	type outcome struct {
		p        *Path
		conds    []*Event // branches that do not depend on the register
		get, set *Event
	}
	var outs []*outcome
	for _, p := range it.Paths {
		var gets, sets []*Event
		for _, e := range p.Events {
			if e.Kind == EvCall && e.Call != nil && bbMethod(c.P, e.Call) {
				switch e.Call.Name() {
				case "Get":
					gets = append(gets, e)
				case "Set":
					sets = append(sets, e)
				default:
					if !bbReaders[e.Call.Name()] {
						c.fail("mutator:"+who, e.Pos, "adding an item changes the registers by %s", e.Call.Name())
					}
				}
			} else if e.Kind == EvStore && !it.local(e.Addr) {
				c.fail("store:"+who, e.Pos, "adding an item writes to %s", e.Addr)
			} else if e.Kind == EvCall && (e.Call == nil || c.P.inModule(e.Call)) {
				c.fail("call:"+who, e.Pos, "cannot be decided: call of %s", e.Name)
			}
		}
		if p.Out == OutBack {
			for _, e := range p.Events {
				if (isBB(e, "Get") || isBB(e, "Set")) && inLoopBody(p.Events, indexOf(p.Events, e), p) {
					c.fail("loop:"+who, e.Pos, "registers are changed in a loop")
				}
			}
			continue
		}
		if !c.must(p.Out == OutReturn, "returns", who, p.Pos, "it ends with %s", p.Out) {
			continue
		}
		o := &outcome{p: p}
		if len(sets) > 1 {
			c.fail("sets:"+who, sets[1].Pos, "adding an item changes more than one register")
			continue
		}
		if len(gets) > 0 {
			o.get = gets[len(gets)-1]
			for _, g := range gets {
				if !sameBits(g.Args[1], o.get.Args[1]) || g.Args[0] != o.get.Args[0] {
					c.fail("gets:"+who, g.Pos, "what is stored may depend on other registers")
				}
			}
		}
		if len(sets) == 1 {
			o.set = sets[0]
			if o.get != nil && o.set.Args[0] == o.get.Args[0] && sameBits(o.set.Args[1], o.get.Args[1]) && o.set.Args[2] == o.get.Res[0] {
				o.set = nil // stores what is there
			}
		}
		isReg := func(t *Term) bool {
			r := false
			for _, g := range gets {
				if contains(t, g.Res[0]) {
					r = true
				}
			}
			return r
		}
		for _, e := range p.Events {
			if e.Kind == EvBranch && !isReg(e.Cond) {
				if bad := clean(e.Cond); bad != nil {
					c.fail("depends:"+who, e.Pos, "whether a register changes depends on %s", bad)
				} else {
					c.ok("decided by item and register")
				}
				o.conds = append(o.conds, e)
			}
		}
		outs = append(outs, o)
	}
	sets := 0
	same := func(a, b *outcome) bool { // the same item
		if len(a.conds) != len(b.conds) {
			return false
		}
		for i := range a.conds {
			if a.conds[i].Cond != b.conds[i].Cond || a.conds[i].Taken != b.conds[i].Taken {
				return false
			}
		}
		return true
	}
	for _, o := range outs {
		if o.set == nil {
			continue
		}
		sets++
		idx, val := o.set.Args[1], o.set.Args[2]
		if !c.must(o.get != nil && o.get.Args[0] == o.set.Args[0] && sameBits(o.get.Args[1], idx), "the register compared is the one stored", who, o.set.Pos, "the register stored is not the one that was looked at") {
			continue
		}
		if bad := clean(idx); bad != nil {
			c.fail("index:"+who, o.set.Pos, "which register is changed depends on %s", bad)
			continue
		}
		dependsOn(c, who, o.set.Pos, idx, item, "the register")
		if bad := clean(val); bad != nil {
			c.fail("value:"+who, o.set.Pos, "the value stored depends on %s", bad)
			continue
		}
		// what it is does not hang on what the registers hold
		early := false
		for _, e := range o.p.Events {
			if e == o.set {
				break
			}
			if e.Kind == EvBranch && clean(e.Cond) != nil {
				early = true
			}
			if e.Kind == EvLoop && early {
				for x := range e.Loop.Alts {
					if contains(val, x) || contains(idx, x) {
						c.fail("value:"+who, o.set.Pos, "the value stored depends on what the registers hold")
					}
				}
			}
		}
		g := o.get.Res[0]
		c.must(isFalse(o.set.Facts, bult(val, g)), "a register is only raised", who, o.set.Pos, "a register is set to %s although that may be lower than its value", val)
		c.indexRange(who, o.set.Pos, recv, idx)
	}
	c.must(sets > 0, "items are added", who, fn.Pos(), "adding an item never changes a register")
	for _, o := range outs {
		if o.set != nil {
			continue
		}
		// the same item may have been added where the register was lower
		n := 0
		for _, q := range outs {
			if q.set == nil || !same(o, q) {
				continue
			}
			n++
			if !c.must(o.get != nil && sameBits(o.get.Args[1], q.set.Args[1]), "same register", who, o.p.Pos, "whether the item is added depends on another register") {
				continue
			}
			g, val := o.get.Res[0], q.set.Args[2]
			c.must(isFalse(o.p.Facts, bult(g, val)), "left alone only if as high", who, o.p.Pos, "a register may be left alone although it is lower than the value of the item")
		}
		if n == 0 && o.get != nil {
			c.fail("never:"+who, o.p.Pos, "whether the item is added depends on a register, but it is never stored")
		}
	}
	// items with the same conditions have one value and register
	for i, o := range outs {
		for _, q := range outs[:i] {
			if o.set != nil && q.set != nil && same(o, q) {
				c.must(o.set.Args[2] == q.set.Args[2] && sameBits(o.set.Args[1], q.set.Args[1]), "one value per item", who, o.set.Pos, "the value stored for an item depends on the register")
			}
		}
	}
	c.mutators(hllPkg, "Counter", map[string]bool{"Add": true, "Reset": true, "ReadFrom": true})
	cardinalityWriter(c)
}

// cardinalityWriter: the measure adds every value to the counter in its buffer.
func cardinalityWriter(c *Check) {
	wf := c.fn(collPkg, "Cardinality.DiscWriter")
	if wf == nil {
		return
	}
	f, cfg := c.closureOf(wf)
	if f == nil {
		return
	}
	cfg.Opaque = func(fn *ssa.Function) bool {
		return fnPkg(fn) != nil && fnPkg(fn).Path() == c.P.path(hllPkg)
	}
	wit := c.run(f, cfg)
	who := relName(c.P, wf)
	for _, p := range wit.Paths {
		if p.Out == OutBack {
			c.fail("loop:"+who, p.Pos, "cannot be decided: a loop")
			continue
		}
		if !c.must(p.Out == OutReturn, "returns", who, p.Pos, "it ends with %s", p.Out) {
			continue
		}
		if isTrue(p.Facts, wit.Params[1]) {
			continue
		}
		var with *Event
		adds := 0
		for _, e := range p.Events {
			if e.Kind == EvStore && !wit.local(e.Addr) || e.Kind == EvCopy && !wit.local(e.Args[0]) {
				c.fail("store:"+who, e.Pos, "the counter is changed by other means than adding the value")
			}
			if e.Kind != EvCall || e.Call == nil || fnPkg(e.Call) == nil || fnPkg(e.Call).Path() != c.P.path(hllPkg) {
				continue
			}
			switch e.Call.Name() {
			case "WithBytes":
				with = e
				c.must(e.Args[0] == wit.Params[0], "counter in the buffer", who, e.Pos, "the counter is not the one in the buffer")
			case "Add":
				adds++
				ctr := e.Args[0]
				val := (*Term)(nil)
				if with != nil {
					val = e.Mem(ctr, with.Sig.Results().At(0).Type())
				}
				c.must(with != nil && val == with.Res[0], "counter in the buffer", who, e.Pos, "the value is not added to the counter in the buffer")
				c.must(e.Args[1] == wit.Params[2], "adds the value", who, e.Pos, "what is added is not the value observed")
			case "Len", "Count", "LinearCount", "HarmonicCount", "PoissonCount", "WriteTo":
			default:
				c.fail("changes:"+who, e.Pos, "the counter is changed by %s", e.Call.Name())
			}
		}
		if errNonNil(p.Facts, p.Ret[0]) {
			c.must(adds == 0 && with != nil && errNonNil(p.Facts, with.Res[1]), "refused only if unreadable", who, p.Pos, "an observation may be refused")
			continue
		}
		c.must(adds > 0, "adds the value", who, p.Pos, "the value is not added")
	}
}

// mentionsBits: the address lies in the bit bucket of a summary.
func mentionsBits(p *Prog, a *Term) bool {
	found := false
	subterms(a, func(x *Term) bool {
		if x.Op == "fa" {
			if st := structOf(x.Typ); st != nil {
				for i := 0; i < st.NumFields(); i++ {
					if x.Aux == strconv.Itoa(i) {
						if n := namedOf(st.Field(i).Type()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == p.path(bbPkg) {
							found = true
						}
					}
				}
			}
		}
		return !found
	})
	return found
}

// dependsOn: the term is determined by the item (through loops over it).
func dependsOn(c *Check, who string, pos token.Pos, t, item *Term, what string) {
	seen := map[*LoopInfo]bool{}
	found := false
	var rec func(t *Term)
	rec = func(t *Term) {
		subterms(t, func(x *Term) bool {
			if x == item {
				found = true
			}
			if x.Op == "leaf" && x.Def != nil && x.Def.Loop != nil && !seen[x.Def.Loop] {
				seen[x.Def.Loop] = true
				for _, i := range x.Def.Loop.Init {
					rec(i)
				}
				for _, b := range x.Def.Loop.Backs {
					for _, n := range b.Next {
						rec(n)
					}
				}
			}
			return !found
		})
	}
	rec(t)
	c.must(found, "selected by the item", who, pos, "%s does not depend on the item", what)
}

// indexRange: for every precision the register exists.
func (c *Check) indexRange(who string, pos token.Pos, recv, idx *Term) {
	mk := c.fn(hllPkg, "New")
	if mk == nil {
		return
	}
	for p := uint64(4); p <= 18; p++ {
		it := c.run(mk, &Config{Params: []*Term{mkInt(8, p)}})
		n := 0
		for _, pa := range it.Paths {
			if pa.Out != OutReturn {
				continue
			}
			m := map[*Term]*Term{}
			for _, t := range allLoads(idx) {
				a, name := fieldOfAddr(t.Args[0])
				if a == recv {
					for i := 0; i < structOf(t.Args[0].Typ).NumFields(); i++ {
						if structOf(t.Args[0].Typ).Field(i).Name() == name {
							m[t] = mkField(pa.Ret[0], i, structOf(t.Args[0].Typ).Field(i).Type())
						}
					}
				}
			}
			n++
			x := subst(idx, m)
			c.must(maxVal(x) < 1<<p, "register exists", who, pos, "with precision %d the register %s may be out of range", p, x)
		}
		c.must(n > 0, "precisions", who, pos, "a counter of precision %d cannot be made", p)
	}
}

func allLoads(t *Term) []*Term {
	var l []*Term
	subterms(t, func(x *Term) bool {
		if x.Op == "load" {
			l = append(l, x)
		}
		return true
	})
	return l
}

// ---- C21

// aligner relates the states of two computations.
type aligner struct {
	depth int
}

// related: loops of a and b are matched in order; the result is false if the branches taken
// exclude each other.
func alignPaths(a, b []*Event, sigma map[*Term]*Term, depth int) (excl bool) {
	if depth > 6 {
		return false
	}
	la, lb := loopEvents(a), loopEvents(b)
	for i := range la {
		if i < len(lb) {
			alignLoop(la[i], lb[i], sigma, depth)
		}
	}
	return contradict(a, b, sigma)
}

// loopEvents are the loops entered, those nested in an iteration that was completed excluded.
func loopEvents(evs []*Event) []*Event {
	var l []*Event
	for _, e := range evs {
		if e.Kind == EvLoop {
			l = append(l, e)
		}
	}
	return l
}

func contradict(a, b []*Event, sigma map[*Term]*Term) bool {
	var bf *fact
	for _, e := range b {
		if e.Kind == EvBranch {
			if f, ok := bf.assumeAny(e.Cond, e.Taken); ok {
				bf = f
			}
		}
		for _, c := range e.Known {
			if f, ok := bf.assumeAny(c, false); ok {
				bf = f
			}
		}
	}
	for _, e := range a {
		if e.Kind != EvBranch {
			continue
		}
		x := subst(e.Cond, sigma)
		if v, k := bf.decide(x); k && v != e.Taken {
			return true
		}
	}
	return false
}

func (f *fact) assumeAny(c *Term, v bool) (*fact, bool) { return f.assume(c, v) }

// alike: a variable of one loop has the value t, given by y, a variable of another.
type alike struct{ y, t *Term }

// alignLoop extends sigma by the variables of loop a that always have the value of a variable of
// loop b.
func alignLoop(a, b *Event, sigma map[*Term]*Term, depth int) {
	var as, bs []*Term
	for l := range a.Init {
		as = append(as, l)
	}
	for l := range b.Init {
		bs = append(bs, l)
	}
	byID := func(l []*Term) { sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID }) }
	byID(as)
	byID(bs)
	cand := map[*Term][]alike{}
	for _, x := range as {
		for _, y := range bs {
			ix, iy := subst(a.Init[x], sigma), b.Init[y]
			if x.W == y.W && ix == iy {
				cand[x] = append(cand[x], alike{y, y})
				continue
			}
			if x.W == 0 || y.W == 0 || x.Typ == nil || y.Typ == nil || isFloat(x.Typ) || isFloat(y.Typ) {
				continue
			}
			// up or down in step
			z, iz := resize(y, y.W, x.W, false), resize(iy, y.W, x.W, false)
			cand[x] = append(cand[x], alike{y, iadd(z, isub(ix, iz))}, alike{y, isub(iadd(ix, iz), z)})
		}
	}
	best := map[*Term]alike{}
	tries := 0
	var search func(i int, m map[*Term]alike)
	search = func(i int, m map[*Term]alike) {
		if len(best) == len(as) || tries > 2000 {
			return
		}
		if i == len(as) {
			tries++
			g := consistent(a, b, sigma, m, depth)
			if len(g) > len(best) {
				best = g
			}
			return
		}
		for _, y := range cand[as[i]] {
			used := false
			for _, z := range m {
				used = used || z.y == y.y
			}
			if used {
				continue
			}
			n := map[*Term]alike{}
			for k, v := range m {
				n[k] = v
			}
			n[as[i]] = y
			search(i+1, n)
		}
		search(i+1, m)
	}
	search(0, map[*Term]alike{})
	for k, v := range best {
		sigma[k] = v.t
	}
}

// consistent is the greatest part of m that iterations preserve.
func consistent(a, b *Event, sigma map[*Term]*Term, m map[*Term]alike, depth int) map[*Term]alike {
	cur := map[*Term]alike{}
	for k, v := range m {
		cur[k] = v
	}
	for again := true; again; {
		again = false
		for _, p := range backsOf(a) {
			for _, q := range backsOf(b) {
				s := map[*Term]*Term{}
				for k, v := range sigma {
					s[k] = v
				}
				for k, v := range cur {
					s[k] = v.t
				}
				if alignPaths(after(p.Events, a), after(q.Events, b), s, depth+1) || contradict(p.Events, q.Events, s) {
					continue
				}
				for k, v := range cur {
					if subst(p.Next[k], s) != subst(v.t, map[*Term]*Term{v.y: q.Next[v.y]}) {
						delete(cur, k)
						again = true
					}
				}
			}
		}
	}
	return cur
}

func after(evs []*Event, e *Event) []*Event {
	for i, x := range evs {
		if x == e {
			return evs[i+1:]
		}
	}
	return nil
}

func c21(c *Check) {
	add, has := c.fn(bloomPkg, "Bloom.Add"), c.fn(bloomPkg, "Bloom.Has")
	if add == nil || has == nil {
		return
	}
	ai, hi := c.run(add, c.summaryCfg()), c.run(has, c.summaryCfg())
	who := relName(c.P, add)
	one := func(t *Term) bool { return t.isConstInt(1) }
	for _, p := range ai.Paths {
		for _, e := range p.Events {
			switch {
			case isBB(e, "Set"):
				c.must(one(e.Args[2]), "adding sets bits", who, e.Pos, "adding an item stores %s", e.Args[2])
				c.must(rootOf(e.Args[0]) == ai.Params[0], "bits of the filter", who, e.Pos, "the bit set is not one of the filter")
				c.inRange(who, e, ai.Params[0])
			case e.Kind == EvCall && e.Call != nil && bbMethod(c.P, e.Call) && !bbReaders[e.Call.Name()]:
				c.fail("mutator:"+who, e.Pos, "adding an item changes the bits by %s", e.Call.Name())
			case e.Kind == EvStore && !ai.local(e.Addr):
				c.fail("store:"+who, e.Pos, "adding an item writes to %s", e.Addr)
			}
		}
		if p.Out != OutReturn && p.Out != OutBack {
			c.fail("end:"+who, p.Pos, "it ends with %s", p.Out)
		}
	}
	hw := relName(c.P, has)
	type refusal struct {
		p *Path
		f *fact
	}
	var refs []refusal
	for _, p := range hi.Paths {
		for _, e := range p.Events {
			if isBB(e, "Get") {
				c.inRange(hw, e, hi.Params[0])
				c.must(rootOf(e.Args[0]) == hi.Params[0], "bits of the filter", hw, e.Pos, "the bit looked at is not one of the filter")
			}
		}
		if p.Out == OutBack {
			continue
		}
		if !c.must(p.Out == OutReturn, "returns", hw, p.Pos, "it ends with %s", p.Out) {
			continue
		}
		r := p.Ret[0]
		if isTrue(p.Facts, r) {
			continue
		}
		if r.Op == "leaf" && r.Def != nil && r.Def.Kind == "phi" {
			// a flag carried through a loop
			var loop *Event
			for _, e := range p.Events {
				if e.Kind == EvLoop && e.Init[r] != nil {
					loop = e
				}
			}
			if loop != nil && loop.Init[r].Op == "true" {
				for _, b := range backsOf(loop) {
					n := b.Next[r]
					if n == r || isTrue(b.Facts, n) {
						continue
					}
					f := b.Facts
					if g, ok := f.assume(n, false); ok {
						refs = append(refs, refusal{b, g})
					}
				}
				continue
			}
		}
		if f, ok := p.Facts.assume(r, false); ok {
			refs = append(refs, refusal{p, f})
		}
	}
	c.must(len(refs) > 0, "absent items", hw, has.Pos(), "no item is ever reported as absent")
	main := map[*LoopInfo]bool{} // loops that set bits
	for _, p := range ai.Paths {
		if p.Out == OutBack && setsIn(p) {
			main[p.Loop] = true
		}
	}
	for _, r := range refs {
		// the bit that is not set
		var get *Event
		for _, e := range r.p.Events {
			if isBB(e, "Get") && isFalse(r.f, beq(e.Res[0], mkInt(8, 1))) {
				get = e
			}
		}
		if !c.must(get != nil, "absent only if a bit is clear", hw, r.p.Pos, "an item may be reported as absent although no bit was found clear") {
			continue
		}
		for _, p := range ai.Paths {
			if p.Out == OutBack && !main[p.Loop] {
				continue // part of another loop
			}
			sigma := map[*Term]*Term{ai.Params[0]: hi.Params[0], ai.Params[1]: hi.Params[1]}
			if alignPaths(p.Events, r.p.Events, sigma, 0) {
				continue
			}
			found := false
			for _, e := range p.Events {
				there := isBB(e, "Get") && isTrue(p.Facts, beq(e.Res[0], mkInt(8, 1)))
				if (isBB(e, "Set") || there) && subst(e.Args[1], sigma) == get.Args[1] && subst(e.Args[0], sigma) == get.Args[0] {
					found = true
				}
			}
			c.must(found, "every bit looked at was set", hw, get.Pos, "the bit that is looked at (%s) may not be one that adding the item sets (path ending at %s)", get.Args[1], c.P.posStr(p.Pos))
		}
	}
	// adding does not stop before looking does
	for _, q := range hi.Paths {
		looks := false
		if q.Out == OutBack {
			for _, e := range backLoop(q) {
				looks = looks || isBB(e, "Get")
			}
		}
		if !looks {
			continue
		}
		for _, p := range ai.Paths {
			if p.Out == OutBack {
				continue
			}
			sigma := map[*Term]*Term{ai.Params[0]: hi.Params[0], ai.Params[1]: hi.Params[1]}
			c.must(alignPaths(p.Events, q.Events, sigma, 0), "adding goes on as long as looking", who, p.Pos, "adding an item may stop before all the bits that are looked at are set")
		}
	}
	c.mutators(bloomPkg, "Bloom", map[string]bool{"Add": true, "Reset": true, "ReadFrom": true})
}

func setsIn(p *Path) bool {
	for _, e := range backLoop(p) {
		if isBB(e, "Set") {
			return true
		}
	}
	return false
}

// backLoop are the events of the iteration that a back path completes.
func backLoop(p *Path) []*Event {
	for i := len(p.Events) - 1; i >= 0; i-- {
		if p.Events[i].Kind == EvLoop && p.Events[i].Loop == p.Loop {
			return p.Events[i+1:]
		}
	}
	return nil
}

// bitCounts lists the fields of a filter, as they are when an operation starts, in which its
// constructor leaves the number of bits.
func (c *Check) bitCounts(recv *Term) []*Term {
	var l []*Term
	typ := deref(recv.Typ)
	fn := c.fn(bloomPkg, "NewBits")
	if fn == nil || structOf(typ) == nil {
		return nil
	}
	for n, p := range c.run(fn, &Config{}).Paths {
		if p.Out != OutReturn || len(p.Ret) != 1 || !types.Identical(p.Ret[0].Typ, typ) {
			continue
		}
		_, count, _ := c.buckets(p.Ret[0], typ)
		var here []*Term
		var walk func(a, v *Term, t types.Type)
		walk = func(a, v *Term, t types.Type) {
			if s := structOf(t); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					walk(mkFA(a, i, t), mkField(v, i, s.Field(i).Type()), s.Field(i).Type())
				}
				return
			}
			if v == count && count != nil {
				here = append(here, mkLoad(a, "", t))
			}
		}
		walk(recv, p.Ret[0], typ)
		if n == 0 || l == nil {
			l = here
			continue
		}
		var both []*Term
		for _, a := range l {
			for _, b := range here {
				if a == b {
					both = append(both, a)
				}
			}
		}
		l = both
	}
	return l
}

// inRange: the bit is less than the number of bits of the filter.
func (c *Check) inRange(who string, e *Event, recv *Term) {
	x := e.Args[1]
	good := x.isConstInt(0)
	y := x
	if y.Op == "zext" || y.Op == "sext" {
		y = y.Args[0]
	}
	for _, m := range c.bitCounts(recv) {
		ms := []*Term{m}
		subterms(x, func(t *Term) bool {
			if t.Op == "load" && t.Args[0] == m.Args[0] {
				ms = append(ms, t)
			}
			return true
		})
		for _, m := range ms {
			good = good || y.Op == "urem" && atMost(e.Facts, y.Args[1], m) || isTrue(e.Facts, bult(y, m))
		}
	}
	c.must(good, "bit exists", who, e.Pos, "the bit %s may be out of range", x)
	// a filter has bits
	f := e.Facts
	for _, m := range c.bitCounts(recv) {
		if g, ok := f.assume(bslt(mkInt(m.W, 0), m), true); ok {
			f = g
		}
	}
	subterms(x, func(t *Term) bool {
		if (t.Op == "urem" || t.Op == "udiv") && t.Args[1].Op != "int" {
			c.must(positive(f, t.Args[1]), "divisor is not zero", who, e.Pos, "%s may be zero", t.Args[1])
		}
		return true
	})
}

// positive: d is not zero.
func positive(f *fact, d *Term) bool {
	if isFalse(f, beq(d, mkInt(d.W, 0))) || isTrue(f, bslt(mkInt(d.W, 0), d)) {
		return true
	}
	if d.Op == "and" { // the top bits of something that has one of them
		for i, k := range d.Args {
			x := d.Args[1-i]
			if n := -k.V & maskW(d.W); k.isInt() && n&(n-1) == 0 && isFalse(f, bslt(x, mkInt(d.W, 0))) && isFalse(f, bslt(x, mkInt(d.W, n))) {
				return true
			}
		}
	}
	return false
}

// atMost: d, which is not negative, is no more than m.
func atMost(f *fact, d, m *Term) bool {
	if d == m || isFalse(f, bslt(m, d)) {
		return true
	}
	switch d.Op {
	case "and":
		return atMost(f, d.Args[0], m) || atMost(f, d.Args[1], m)
	case "lshr":
		return atMost(f, d.Args[0], m)
	}
	return false
}

func deref(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func init() {
	register(&checkDef{
		id:   "C18",
		run:  c18,
		rule: "The conditions and results of every path of the writer compare only the kept and the observed value with each other and with constants; for every way in which these can compare (infinities, NaN and neighbours of every constant included) the word left is the greater (smaller) of the two and NaN is ignored; the empty state is the least (greatest) value; the reader returns the word; Schema.Compile registers the initialiser of both, and Collator.Update calls it just for new records and gives every writer its range and the value of its field",
		floor: map[string]int{
			"starts below every value": 2, "keeps the extreme": 60, "reads the extreme": 2,
		},
	})
	register(&checkDef{
		id: "C20",
		run: func(c *Check) {
			c20(c)
			c.separate(6, false)
		},
		rule: "On every path of Add at most one register is stored, the one read and compared; its index and value are functions of the item and the parameters of the counter only; it is stored just if the value is not lower and left just if not higher, so that the update is a maximum; the index is in range for every precision; nothing else in the package changes registers except reset and load; the measure adds each value to the counter in its buffer and changes it in no other way; the registers are kept apart: for every width and position, storing an element of the array of bits leaves all others as they were",
		floor: map[string]int{
			"a register is only raised": 1, "left alone only if as high": 1, "register exists": 15, "adds the value": 2, "changes no summary": 8,
		},
	})
	register(&checkDef{
		id: "C21",
		run: func(c *Check) {
			c21(c)
			c.separate(1, false)
			c.roundTrip(bloomPkg)
		},
		rule: "The computations of Add and Has are related variable by variable (a bisimulation of their loops); for every path of Has that reports absence because of a clear bit, every compatible path of Add sets that same bit to one; bits are below the number of bits; nothing else in the package changes bits or parameters except reset and load; setting one bit leaves all others; what is written out is read back as the same parameters and bits",
		floor: map[string]int{
			"adding sets bits": 1, "absent only if a bit is clear": 1, "every bit looked at was set": 1, "bit exists": 2, "changes no summary": 6,
		},
	})
}
