"""The register and rank of an item, and the estimates."""
from edits_fresh2 import F, P, src
EDITS = []
def e(name, kind, props, *eds, **kw):
    EDITS.append(dict(name="hyper-" + name, kind=kind, props=props, edits=list(eds), **kw))
def same(name, *eds): e(name, "same", [], *eds)
def bug(name, props, *eds): e(name, "bug", props.split(), *eds)
H = "internal/summary/hll/hll.go"
ADD = "(c *Counter) Add(v []byte)"
FIN = """	if rho > c.bits.Get(idx) {
		c.bits.Set(idx, rho)
	}
}
"""
def add(body): return F(H, ADD, "func " + ADD + " {\n" + body + FIN)

same("rank-lz", (H, '\t"math"\n', '\t"math"\n\tmbits "math/bits"\n'), add("""	h := fnv.Sum64(v)
	idx := int(h >> (64 - c.p))
	rho := uint8(mbits.LeadingZeros64(h<<c.p|1<<(c.p-1))) + 1
"""))
same("rank-lz-cap", (H, '\t"math"\n', '\t"math"\n\tmbits "math/bits"\n'), add("""	h := fnv.Sum64(v)
	idx := int(h >> (64 - c.p))
	n := mbits.LeadingZeros64(h << c.p)
	if n > 64-int(c.p) {
		n = 64 - int(c.p)
	}
	rho := uint8(n + 1)
"""))
same("rank-len", (H, '\t"math"\n', '\t"math"\n\tmbits "math/bits"\n'), add("""	h := fnv.Sum64(v)
	idx := int((h & c.mask) >> (64 - c.p))
	rho := 64 - c.p - uint8(mbits.Len64(h&^c.mask)) + 1
"""))
same("rank-while", add("""	h := fnv.Sum64(v)
	idx := int((h & c.mask) >> (64 - c.p))
	rho := uint8(1)
	for t := uint64(1) << (63 - c.p); t != 0 && h&t == 0; t >>= 1 {
		rho++
	}
"""))
same("rank-shift", add("""	h := fnv.Sum64(v)
	idx := int(h >> (64 - c.p))
	rest := h << c.p
	rho := uint8(1)
	for rho <= 64-c.p && rest>>63 != 1 {
		rest <<= 1
		rho++
	}
"""))
same("rank-top", add("""	h := fnv.Sum64(v)
	idx := int(h >> (64 - c.p))
	rho := uint8(1)
	for rest := h << c.p; rho <= 64-c.p && int64(rest) >= 0; rest <<= 1 {
		rho++
	}
"""))
same("rank-helper", add("""	idx, rho := place(fnv.Sum64(v), c.p)
"""), (H, "// Count returns an estimate", """func place(h uint64, p uint8) (int, uint8) {
	limit := 64 - p
	for i := uint8(0); i < limit; i++ {
		if h&(1<<(limit-1-i)) != 0 {
			return int(h >> limit), i + 1
		}
	}
	return int(h >> limit), limit + 1
}

// Count returns an estimate"""))
bug("no-break", "C44", P(H, ADD, ("			break\n", "			_ = t\n")))
bug("rank-zero", "C44", P(H, ADD, ("rho := uint8(1)", "rho := uint8(0)")))
bug("rank-twice", "C44", P(H, ADD, ("rho++", "rho += 2")))
bug("rank-bit", "C44", P(H, ADD, ("1 << (63 - c.p)", "1 << (64 - c.p)")))
bug("rank-tail", "C44", P(H, ADD, ("t := uint64(1 << (63 - c.p))", "t := uint64(1)"), ("t >>= 1", "t <<= 1")))
bug("rank-capped", "C44", P(H, ADD, ("i < 64-int(c.p)", "i < 63-int(c.p)")))
bug("rank-32", "C44", P(H, ADD, ("i < 64-int(c.p)", "i < 32")))
bug("index-low", "C44", P(H, ADD, ("int((h & c.mask) >> (64 - c.p))", "int(h & (1<<c.p - 1))")))
bug("index-short", "C44", P(H, ADD, ("int((h & c.mask) >> (64 - c.p))", "int((h & c.mask) >> (65 - c.p))")))
bug("index-mask", "C44", P(H, "(c *Counter) initParams", ("((1 << c.p) - 1) << (64 - c.p)", "((1 << c.p) - 2) << (64 - c.p)")))
bug("hash-part", "C44", P(H, ADD, ("fnv.Sum64(v)", "fnv.Sum64(v[:len(v)/2])")))
