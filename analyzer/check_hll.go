package main

// C44: the register of an item and its rank are those of HyperLogLog. The 64-bit hash is taken apart
// into the p bits that select the register, the zeros that follow and the rest: for every precision
// and every number of zeros, Add is followed with the bits that this makes known.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// hashModel replaces what hashing of a byte slice results in.
func (c *Check) hashModel(h *Term, fed *[]*Term) func(it *Interp, st *State, x *CallCtx) bool {
	return func(it *Interp, st *State, x *CallCtx) bool {
		pkg, name := "", ""
		switch {
		case x.Callee != nil && fnPkg(x.Callee) != nil:
			pkg, name = fnPkg(x.Callee).Path(), x.Callee.Name()
		case x.Method != nil && x.Method.Pkg() != nil:
			pkg, name = x.Method.Pkg().Path(), x.Method.Name()
		}
		if pkg == "math/bits" {
			return bitsModel(x, name)
		}
		if pkg != c.P.path("internal/hash/fnv") && pkg != "hash/fnv" && pkg != "hash" && pkg != "io" {
			return false
		}
		if res := x.Common.Signature().Results(); res.Len() == 1 {
			if b, ok := res.At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint64 {
				for _, a := range x.Args {
					if _, ok := typUnder(a).(*types.Slice); ok {
						*fed = append(*fed, a)
					}
				}
				x.Res(st, h)
				return true
			}
		}
		if name == "Write" && len(x.Args) == 2 {
			*fed = append(*fed, x.Args[1])
			x.Res(st, mk("tuple", "", 0, mkLen(x.Args[1]), tNil))
			return true
		}
		return false
	}
}

func typUnder(t *Term) types.Type {
	if t == nil || t.Typ == nil {
		return nil
	}
	return t.Typ.Underlying()
}

// bitsModel: the functions of math/bits that count zeros, of values with known bits.
func bitsModel(x *CallCtx, name string) bool {
	if len(x.Args) != 1 || x.Args[0].W == 0 {
		return false
	}
	w := x.Args[0].W
	switch {
	case strings.HasPrefix(name, "LeadingZeros"):
		if n, ok := leadingZeros(x.Args[0]); ok {
			x.Res(nil, mkInt(64, uint64(n)))
			return true
		}
	case strings.HasPrefix(name, "Len"):
		if n, ok := leadingZeros(x.Args[0]); ok {
			x.Res(nil, mkInt(64, uint64(w-n)))
			return true
		}
	case strings.HasPrefix(name, "TrailingZeros"):
		if n, ok := trailingZeros(x.Args[0]); ok {
			x.Res(nil, mkInt(64, uint64(n)))
			return true
		}
	}
	return false
}

// counters are the states that New leaves, by precision.
func (c *Check) counters() map[int]*shape {
	m := map[int]*shape{}
	for _, k := range codecs() {
		if k.pkg != hllPkg {
			continue
		}
		for _, sh := range k.shapes(c) {
			if len(sh.args) == 1 && sh.args[0].isInt() {
				m[int(sh.args[0].V)] = sh
			}
		}
	}
	return m
}

// ofCounter prepares a run of a method on a counter in the given state.
func (c *Check) ofCounter(fn *ssa.Function, sh *shape, cfg *Config) *Term {
	recv := leaf("hll.recv", fn.Params[0].Type(), &Def{Kind: "param", Index: 0, Name: "c"})
	m := newMemory()
	m.put(recv, sh.val, sh.typ)
	cfg.Start = m
	cfg.Params = append([]*Term{recv}, cfg.Params...)
	return recv
}

func c44(c *Check) {
	fn := c.fn(hllPkg, "Counter.Add")
	if fn == nil {
		return
	}
	who := relName(c.P, fn)
	shapes := c.counters()
	for p := 4; p <= 18; p++ {
		sh := shapes[p]
		if !c.must(sh != nil, "precisions", who, fn.Pos(), "a counter of precision %d cannot be made", p) {
			continue
		}
		for zeros := 0; zeros <= 64-p; zeros++ {
			if c.rank(fn, who, sh, p, zeros); len(c.viols) > 20 {
				return
			}
		}
	}
}

func (c *Check) rank(fn *ssa.Function, who string, sh *shape, p, zeros int) {
	u64 := types.Typ[types.Uint64]
	top := ilshr(leaf("hll.top", u64, &Def{Kind: "param", Index: 1, Name: "top"}), mkInt(64, uint64(64-p)))
	h := ishl(top, mkInt(64, uint64(64-p)))
	if zeros < 64-p {
		h = ior(h, mkInt(64, 1<<uint(63-p-zeros)))
		if k := 63 - p - zeros; k > 0 {
			h = ior(h, ilshr(leaf("hll.low", u64, &Def{Kind: "param", Index: 1, Name: "low"}), mkInt(64, uint64(64-k))))
		}
	}
	item := leaf("hll.item", fn.Params[1].Type(), &Def{Kind: "param", Index: 1, Name: "v"})
	cfg := c.summaryCfg()
	var fed []*Term
	cfg.Model = c.hashModel(h, &fed)
	cfg.Concrete = true
	cfg.Unroll = 80
	cfg.MaxPaths = 300
	cfg.Params = []*Term{item}
	recv := c.ofCounter(fn, sh, cfg)
	it := c.run(fn, cfg)
	is := fmt.Sprintf("precision %d, %d zeros after the first bits of the hash", p, zeros)
	n := 0
	for _, pa := range it.Paths {
		if !c.must(pa.Out == OutReturn, "returns", who, pa.Pos, "%s: it ends with %s", is, pa.Out) {
			return
		}
		for _, e := range pa.Events {
			if !isBB(e, "Set") || rootOf(e.Args[0]) != recv {
				continue
			}
			n++
			c.must(sameBits(e.Args[1], top), "register of the first bits", who, e.Pos, "%s: the register is %s, not the one that the first %d bits of the hash say", is, e.Args[1], p)
			c.must(e.Args[2].isInt() && e.Args[2].V == uint64(zeros+1), "rank", who, e.Pos, "%s: the register is raised to %s, not %d", is, e.Args[2], zeros+1)
		}
	}
	c.must(n > 0, "items are added", who, fn.Pos(), "%s: no register is raised", is)
	for _, a := range fed {
		c.must(a == item, "the item is hashed", who, fn.Pos(), "what is hashed is %s, not the item", a)
	}
	c.must(len(fed) > 0, "the item is hashed", who, fn.Pos(), "the item is not hashed by the hash package")
}

func init() {
	register(&checkDef{
		id:   "C44",
		run:  c44,
		rule: "For every precision p and every number z of zeros after the first p bits of the hash (the other bits are arbitrary) each path of Add that changes a register sets the one whose number the first p bits are, to z+1; what is hashed is exactly the item",
	})
}
