EDITS = []
M = "internal/collation/measure.go"
H = "internal/summary/hll/hll.go"
B = "internal/summary/bloom/bloom.go"
def e(name, kind, props, *eds, **kw):
    EDITS.append(dict(name="sum-" + name, kind=kind, props=props, edits=list(eds), **kw))
MAXW = '''		// NaN is unordered so is never the maximum
		if v > c {
			binary.LittleEndian.PutUint64(buf, math.Float64bits(v))
		}
		return nil
'''
MINW = MAXW.replace("maximum", "minimum").replace("v > c", "v < c")
def mx(name, kind, new): e(name, kind, ["C18"] if kind == "bug" else [], (M, MAXW, new))
def mn(name, kind, new): e(name, kind, ["C18"] if kind == "bug" else [], (M, MINW, new))
mx("max-early", "same", '''		if math.IsNaN(v) || v <= c {
			return nil
		}
		binary.LittleEndian.PutUint64(buf, math.Float64bits(v))
		return nil
''')
mx("max-ge", "same", MAXW.replace("v > c", "v >= c"))
mx("max-swap", "same", MAXW.replace("v > c", "c < v"))
mx("max-always", "same", '''		if c < v {
			c = v
		}
		binary.LittleEndian.PutUint64(buf, math.Float64bits(c))
		return nil
''')
mx("max-math", "same", '''		if v == v {
			binary.LittleEndian.PutUint64(buf, math.Float64bits(math.Max(c, v)))
		}
		return nil
''')
mx("max-mathnan", "bug", '''		binary.LittleEndian.PutUint64(buf, math.Float64bits(math.Max(c, v)))
		return nil
''')
mx("max-notle", "bug", MAXW.replace("v > c", "!(v <= c)"))
mx("max-zero", "bug", MAXW.replace("v > c", "v > c || c == 0"))
mx("max-abs", "bug", MAXW.replace("v > c", "v > c && v != math.MaxFloat64"))
mx("max-inf", "bug", MAXW.replace("v > c", "v > c && !math.IsInf(v, 0)"))
mx("max-1000", "bug", MAXW.replace("v > c", "v > c && v < 1e300"))
mn("min-gt", "bug", MINW.replace("v < c", "v > c"))
mn("min-nan", "bug", MINW.replace("v < c", "!(v > c)"))
mn("min-pos", "bug", MINW.replace("v < c", "v < c && v != 0"))
e("min-init0", "bug", ["C18"], (M, "math.Float64bits(math.Inf(1)))", "math.Float64bits(math.MaxFloat64))"))
e("max-init", "bug", ["C18"], (M, "math.Float64bits(math.Inf(-1)))", "math.Float64bits(math.SmallestNonzeroFloat64))"))
e("max-initnan", "bug", ["C18"], (M, "math.Float64bits(math.Inf(-1)))", "math.Float64bits(math.NaN()))"))
e("max-nan-ok", "same", [], (M, "math.Float64bits(math.Inf(-1)))", "math.Float64bits(math.NaN()))"), (M, MAXW, MAXW.replace("v > c", "v > c || c != c")))
e("min-helper", "same", [], (M, MINW, '''		if less(v, c) {
			storeFloat(buf, v)
		}
		return nil
'''), (M, "// Approximate measures", '''func less(a, b float64) bool { return a < b }

func storeFloat(buf []byte, v float64) {
	binary.LittleEndian.PutUint64(buf[:8], math.Float64bits(v))
}

// Approximate measures'''))
e("max-read32", "bug", ["C18"], (M, '''		c := math.Float64frombits(binary.LittleEndian.Uint64(buf))
		return c, nil
	}
}

// Min is''', '''		c := math.Float64frombits(binary.LittleEndian.Uint64(buf))
		return float64(float32(c)), nil
	}
}

// Min is'''))

# hll
ADD = '''	if rho > c.bits.Get(idx) {
		c.bits.Set(idx, rho)
	}
'''
def h(name, kind, *eds): e("hll-" + name, kind, ["C20"] if kind == "bug" else [], *[(H,) + x for x in eds])
h("swap", "same", (ADD, "	if old := c.bits.Get(idx); old < rho {\n		c.bits.Set(idx, rho)\n	}\n"))
h("ret", "same", (ADD, "	old := c.bits.Get(idx)\n	if rho <= old {\n		return\n	}\n	c.bits.Set(idx, rho)\n"))
h("ge", "same", (ADD, ADD.replace("rho >", "rho >=")))
h("max", "same", (ADD, "	r := c.bits.Get(idx)\n	if r < rho {\n		r = rho\n	}\n	c.bits.Set(idx, r)\n"))
h("helper", "same", (ADD, "	c.raise(idx, rho)\n"), ("// Count returns an estimate", "func (c *Counter) raise(i int, v uint8) {\n	if v > c.bits.Get(i) {\n		c.bits.Set(i, v)\n	}\n}\n\n// Count returns an estimate"))
h("idx", "same", ("	idx := int((h & c.mask) >> (64 - c.p))\n", "	idx := int(h >> (64 - c.p))\n"))
LZ = '''	rho := uint8(1)
	t := uint64(1 << (63 - c.p))
	for i := 0; i < 64-int(c.p); i++ {
		if h&t != 0 {
			break
		}
		rho++
		t >>= 1
	}
'''
h("lz", "same", (LZ, '''	rho := uint8(1)
	for t := uint64(1 << (63 - c.p)); t != 0 && h&t == 0; t >>= 1 {
		rho++
	}
'''))
h("bits", "same", (LZ, '''	rho := uint8(bits.LeadingZeros64(h<<c.p|1<<(c.p-1))) + 1
'''), ('	"math"\n', '	"math"\n	"math/bits"\n'))
h("ne", "bug", (ADD, ADD.replace("rho > c", "rho != c")))
h("lt", "bug", (ADD, ADD.replace("rho > c", "rho < c")))
h("always", "bug", (ADD, "	c.bits.Set(idx, rho)\n"))
h("first", "bug", (ADD, "	if c.bits.Get(idx) == 0 {\n		c.bits.Set(idx, rho)\n	}\n"))
h("other", "bug", (ADD, ADD.replace("Get(idx)", "Get(idx^1)")))
h("inc", "bug", (ADD, "	if r := c.bits.Get(idx); rho > r {\n		c.bits.Set(idx, r+1)\n	}\n"))
h("incn", "bug", (ADD, "	if r := c.bits.Get(idx); rho > r {\n		c.bits.IncN(idx, rho)\n	}\n"))
h("thr", "bug", (ADD, ADD.replace("rho > c.bits.Get(idx)", "rho > c.bits.Get(idx)+1")))
h("cap", "bug", (ADD, ADD.replace("rho > c.bits.Get(idx)", "rho > c.bits.Get(idx) && c.bits.CountN(0) > 0")))
h("idxoff", "bug", ("	idx := int((h & c.mask) >> (64 - c.p))\n", "	idx := int((h & c.mask) >> (63 - c.p))\n"))
h("countreset", "bug", ("	v := c.bits.CountN(0)\n	if v > 0 {\n		// Count", "	v := c.bits.CountN(0)\n	if v == c.bits.Count() {\n		c.bits.Reset()\n	}\n	if v > 0 {\n		// Count"))
h("seen", "bug", (ADD, "	if c.bits.Get(idx) > 60 {\n		idx = 0\n	}\n" + ADD))
h("state", "bug", ("	h := fnv.Sum64(v)\n	idx", "	h := fnv.Sum64(v) + uint64(c.bits.CountN(0))\n	idx"))
h("state2", "bug", ("	h := fnv.Sum64(v)\n	idx", "	c.threshold++\n	h := fnv.Sum64(v)\n	idx"))
h("const", "bug", ("	h := fnv.Sum64(v)\n	idx", "	h := fnv.Sum64(nil)\n	idx"))
WR = '''		s.Add(v)
		return nil
'''
e("card-skip", "bug", ["C20"], (M, WR, "		if len(v) > 0 && s.Count() < 1000 {\n			s.Add(v)\n		}\n		return nil\n"))
e("card-trunc", "bug", ["C20"], (M, WR, "		s.Add(v[:0])\n		return nil\n"))
e("card-reset", "bug", ["C20"], (M, WR, "		if s.Count() == 0 {\n			s.Reset()\n		}\n" + WR))
e("card-buf", "bug", ["C20"], (M, '''		s, err := hll.WithBytes(buf)
		if err != nil {
			return err
		}
		s.Add(v)''', '''		s, err := hll.WithBytes(append([]byte(nil), buf...))
		if err != nil {
			return err
		}
		s.Add(v)'''))

# bloom
def b(name, kind, *eds): e("bloom-" + name, kind, ["C21"] if kind == "bug" else [], *[(B,) + x for x in eds])
ADDL = '''	for i := uint8(0); i < b.k; i++ {
		x := int(h.next())
		b.bits.Set(x, 1)
	}
'''
HASL = '''	for i := uint8(0); i < b.k; i++ {
		if b.bits.Get(int(h.next())) != 1 {
			return false
		}
	}
	return true
'''
b("down", "same", (HASL, HASL.replace("i := uint8(0); i < b.k; i++", "n := b.k; n > 0; n--")), (ADDL, ADDL.replace("i := uint8(0); i < b.k; i++", "n := b.k; n > 0; n--")))
b("int", "same", (HASL, HASL.replace("i := uint8(0); i < b.k; i++", "i := 0; i < int(b.k); i++")), (ADDL, ADDL.replace("i := uint8(0); i < b.k; i++", "i := 0; i < int(b.k); i++")))
b("flag", "same", (HASL, '''	found := true
	for i := uint8(0); i < b.k; i++ {
		if b.bits.Get(int(h.next())) != 1 {
			found = false
		}
	}
	return found
'''))
b("flag2", "same", (HASL, '''	found := true
	for i := uint8(0); found && i < b.k; i++ {
		found = b.bits.Get(int(h.next())) == 1
	}
	return found
'''))
b("zero", "same", (HASL, HASL.replace("!= 1", "== 0")))
b("inlinehash", "same", ("		x := int(h.next())\n		b.bits.Set(x, 1)\n", "		b.bits.Set(int(h.a%uint64(h.m)), 1)\n		h.a = (h.a + h.b) % uint64(h.m)\n"))
b("each", "same", (ADDL, "	h.each(b.k, func(x int) bool {\n		b.bits.Set(x, 1)\n		return true\n	})\n"), (HASL, "	return h.each(b.k, func(x int) bool { return b.bits.Get(x) == 1 })\n"),
  ("// next returns the next", '''func (h *hasher) each(k uint8, f func(x int) bool) bool {
	for i := uint8(0); i < k; i++ {
		if !f(int(h.next())) {
			return false
		}
	}
	return true
}

// next returns the next'''))
b("triple", "same", ("	h.a = (h.a + h.b) % uint64(h.m)\n	return v", "	h.a = (h.a + h.b) % uint64(h.m)\n	h.b = h.b + uint64(h.n)\n	h.n++\n	return v"))
b("hasmore", "bug", (HASL, HASL.replace("i < b.k", "i <= b.k")))
b("addfewer", "bug", (ADDL, ADDL.replace("i := uint8(0)", "i := uint8(1)")))
b("addbreak", "bug", (ADDL, ADDL.replace("		b.bits.Set(x, 1)\n", "		if b.bits.Get(x) == 1 {\n			break\n		}\n		b.bits.Set(x, 1)\n")))
b("addskip", "bug", (ADDL, ADDL.replace("		b.bits.Set(x, 1)\n", "		if b.bits.Get(x) == 1 {\n			h.next()\n		}\n		b.bits.Set(x, 1)\n")))
b("addcont", "same", (ADDL, ADDL.replace("		b.bits.Set(x, 1)\n", "		if b.bits.Get(x) == 1 {\n			continue\n		}\n		b.bits.Set(x, 1)\n")))
b("toggle", "bug", (ADDL, ADDL.replace("b.bits.Set(x, 1)", "b.bits.Set(x, 1-b.bits.Get(x))")))
b("order", "bug", ("	h := newHasher(v, b.m)\n	for i := uint8(0); i < b.k; i++ {\n		if", "	h := newHasher(v, b.m)\n	h.a, h.b = h.b, h.a\n	for i := uint8(0); i < b.k; i++ {\n		if"))
b("m", "bug", ("	h := newHasher(v, b.m)\n	for i := uint8(0); i < b.k; i++ {\n		if", "	h := newHasher(v, b.bits.Count())\n	for i := uint8(0); i < b.k; i++ {\n		if"))
b("range", "bug", ("	v := h.a % uint64(h.m)\n", "	v := h.a % uint64(h.m+1)\n"))
b("empty", "bug", (HASL, "	if len(v) == 0 {\n		return false\n	}\n" + HASL))
b("full", "bug", (ADDL, "	if b.bits.CountN(1) > b.m/2 {\n		return\n	}\n" + ADDL))
b("countgrow", "bug", ("	x := b.bits.CountN(1)\n	return int64(", "	x := b.bits.CountN(1)\n	b.k++\n	return int64("))
b("statehash", "bug", ("	v := h.a % uint64(h.m)\n", "	v := (h.a + calls) % uint64(h.m)\n	calls++\n"), ("// next returns the next", "var calls uint64\n\n// next returns the next"))
b("addodd", "bug", (ADDL, ADDL.replace("		b.bits.Set(x, 1)\n", "		if i&1 == 1 && v == nil {\n			continue\n		}\n		b.bits.Set(x, 1)\n")))
b("addother", "bug", (ADDL, ADDL.replace("		b.bits.Set(x, 1)\n", "		if b.bits.Get(0) == 1 {\n			continue\n		}\n		b.bits.Set(x, 1)\n")))
