"""Refactorings (and bugs) of whole functions: summaries, hashes, queries and the server."""
EDITS = []
SRC = {}
def src(f):
    if f not in SRC:
        SRC[f] = open("/repo/" + f).read()
    return SRC[f]
def F(f, sig, new):
    """replace the function whose declaration starts with sig"""
    s = src(f)
    i = s.index("func " + sig)
    j = s.index("\n}\n", i) + 3
    return (f, s[i:j], new.strip("\n") + "\n")
def P(f, sig, *reps):
    """the function whose declaration starts with sig, changed"""
    s = src(f)
    i = s.index("func " + sig)
    j = s.index("\n}\n", i) + 3
    t = s[i:j]
    for o, n in reps:
        assert o in t, o
        t = t.replace(o, n, 1)
    return (f, s[i:j], t)
def e(name, kind, props, *eds, **kw):
    EDITS.append(dict(name="fresh2-" + name, kind=kind, props=props, edits=list(eds), **kw))
def same(name, *eds): e(name, "same", [], *eds)
def bug(name, props, *eds): e(name, "bug", props.split(), *eds)

BB = "internal/bitbucket/bitbucket.go"
BL = "internal/summary/bloom/bloom.go"
H = "internal/summary/hll/hll.go"
X = "internal/summary/stat64/stats.go"
N = "internal/hash/fnv/fnv.go"
V = "internal/server/server.go"
Q = "internal/query/rough.go"
M = "internal/collation/measure.go"
T = "internal/storage/storage.go"

# ---------------------------------------------------------------- bitbucket
HDR = '''
// header makes sense of the leading bytes of a serialized bit bucket
func header(buf []byte) (n int, w uint8, err error) {
	if buf[0] != Version {
		return 0, 0, ErrIncompatibleVersion
	}
	w = buf[1]
	count := binary.LittleEndian.Uint64(buf[2:])
	switch {
	case w > 8, w == 0 && count != 0:
		return 0, 0, ErrUnsupportedWidth
	case count > uint64(maxBuckets):
		return 0, 0, ErrUnsupportedCount
	}
	return int(count), w, nil
}
'''
WB = '''
func WithBytes(buf []byte) (BitBucket, error) {
	if len(buf) < hdrLen {
		return BitBucket{}, io.ErrShortBuffer
	}
	n, w, err := header(buf[:hdrLen])
	if err != nil {
		return BitBucket{}, err
	}
	data := buf[hdrLen:]
	size := length(n, w)
	if len(data) < size {
		return BitBucket{}, io.ErrShortBuffer
	}
	return BitBucket{data: data[:size], n: n, w: w}, nil
}
''' + HDR
RF = '''
func (b *BitBucket) ReadFrom(r io.Reader) (int64, error) {
	var buf [hdrLen]byte
	read, err := io.ReadFull(r, buf[:])
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	if err != nil {
		return int64(read), err
	}
	n, w, err := header(buf[:])
	if err != nil {
		return int64(read), err
	}

	size := length(n, w)
	data, err := ioutil.ReadAll(io.LimitReader(r, int64(size)))
	read += len(data)
	if err == nil && len(data) != size {
		err = io.ErrUnexpectedEOF
	}
	if err != nil {
		return int64(read), err
	}

	extra, err := io.ReadFull(r, buf[:1])
	read += extra
	switch err {
	case nil:
		return int64(read), io.ErrShortBuffer
	case io.EOF:
		*b = BitBucket{data: data, n: n, w: w}
		return int64(read), nil
	}
	return int64(read), err
}
'''
def bbhdr(o, n): return (F(BB, "WithBytes", WB.replace(o, n)), F(BB, "(b *BitBucket) ReadFrom", RF))
def bbrf(o, n):
    assert o in RF
    return (F(BB, "WithBytes", WB), F(BB, "(b *BitBucket) ReadFrom", RF.replace(o, n, 1)))
same("bb-header", F(BB, "WithBytes", WB), F(BB, "(b *BitBucket) ReadFrom", RF))
bug("bb-header-width", "C23", *bbhdr("case w > 8, w == 0 && count != 0:", "case w > 16, w == 0 && count != 0:"))
bug("bb-header-zero", "C23", *bbhdr("case w > 8, w == 0 && count != 0:", "case w > 8:"))
bug("bb-header-count", "C23", *bbhdr("case count > uint64(maxBuckets):", "case int(count) > maxBuckets:"))
bug("bb-header-version", "C23", *bbhdr("	if buf[0] != Version {", "	if buf[0] > Version {"))
bug("bb-header-big", "C22", *bbhdr("binary.LittleEndian.Uint64(buf[2:])", "uint64(binary.LittleEndian.Uint32(buf[2:]))"))
bug("bb-rf-early", "C23", *bbrf("	size := length(n, w)\n", "	b.n, b.w = n, w\n	size := length(n, w)\n"))
bug("bb-rf-trunc", "C23", *bbrf("len(data) != size", "len(data) == 0"))
bug("bb-rf-alloc", "C23", *bbrf("	data, err := ioutil.ReadAll(io.LimitReader(r, int64(size)))\n	read += len(data)\n", "	data := make([]byte, size)\n	nd, err := io.ReadFull(r, data)\n	read += nd\n"), (BB, '	"io/ioutil"\n', ''))
bug("bb-rf-trailing", "C23", *bbrf("		return int64(read), io.ErrShortBuffer\n	case io.EOF:", "		return int64(read), nil\n	case io.EOF:"))
bug("bb-rf-count", "C22", *bbrf("	read += len(data)\n	if err == nil", "	if err == nil"))
STORE = '''
// put stores data in the two bytes starting at index
func (b *BitBucket) put(index int, data uint16) {
	b.data[index] = uint8(data >> 8)
	if index+1 < len(b.data) {
		b.data[index+1] = uint8(data)
	}
}

func (b *BitBucket) extract('''
ST = (BB, "func (b *BitBucket) extract(", STORE.lstrip("\n"))
SETL = "	b.data[index] = uint8((data & 0xff00) >> 8)\n	if index < len(b.data)-1 {\n		b.data[index+1] = uint8(data & 0x00ff)\n	}\n"
same("bb-put", P(BB, "(b *BitBucket) set", (SETL, "	b.put(index, data)\n")), P(BB, "(b *BitBucket) incn", (SETL, "	b.put(index, data)\n")), ST)
bug("bb-put-lost", "C24", P(BB, "(b *BitBucket) set", (SETL, "	b.put(index, data)\n")), P(BB, "(b *BitBucket) incn", (SETL, "	b.put(index, data)\n")), (ST[0], ST[1], ST[2].replace("index+1 < len", "index+2 < len")))
CAP = '''
// limit caps v at the maximum value of a bucket
func (b *BitBucket) limit(v uint8) uint8 {
	if max := b.Max(); v > max {
		return max
	}
	return v
}

func (b *BitBucket) set('''
CP = (BB, "func (b *BitBucket) set(", CAP.lstrip("\n"))
CAPL = "	max := uint8(1<<b.w - 1)\n	if v > max {\n		v = max\n	}\n"
same("bb-limit", P(BB, "(b *BitBucket) IncN", (CAPL, "	v = b.limit(v)\n")), (BB, "v uint8) {\n" + CAPL + "\n", "v uint8) {\n	v = b.limit(v)\n\n"), CP)
bug("bb-limit-bug", "C24", P(BB, "(b *BitBucket) IncN", (CAPL, "	v = b.limit(v)\n")), (BB, "v uint8) {\n" + CAPL + "\n", "v uint8) {\n	v = b.limit(v)\n\n"), (CP[0], CP[1], CP[2].replace("		return max\n", "		return v & max\n")))
same("bb-incn-set", P(BB, "(b *BitBucket) IncN", ("	max := uint8(1<<b.w - 1)\n	if v > max {\n		v = max\n	}\n	b.incn(i*int(b.w), b.w, v)\n", "	cur, max := b.Get(i), b.Max()\n	if v > max-cur {\n		b.Set(i, max)\n		return\n	}\n	b.Set(i, cur+v)\n")), F(BB, "(b *BitBucket) incn", ""))
bug("bb-incn-set-wrap", "C24", P(BB, "(b *BitBucket) IncN", ("	max := uint8(1<<b.w - 1)\n	if v > max {\n		v = max\n	}\n	b.incn(i*int(b.w), b.w, v)\n", "	b.Set(i, b.Get(i)+v)\n")), F(BB, "(b *BitBucket) incn", ""))
same("bb-get-bits", F(BB, "(b *BitBucket) get", '''
func (b *BitBucket) get(o int, l uint8) uint8 {
	var v uint8
	for i := 0; i < int(l); i++ {
		bit := o + i
		v = v<<1 | b.data[bit/8]>>(7-uint(bit%8))&1
	}
	return v
}
'''))
same("bb-countn-range", F(BB, "(b *BitBucket) CountN", '''
func (b *BitBucket) CountN(v uint8) (count int) {
	for i, n := 0, b.Count(); i < n; i++ {
		if b.Get(i) == v {
			count++
		}
	}
	return count
}
'''))
same("bb-writeto-one", F(BB, "(b *BitBucket) WriteTo", '''
func (b *BitBucket) WriteTo(w io.Writer) (int64, error) {
	buf := make([]byte, hdrLen+len(b.data))
	buf[0], buf[1] = Version, b.w
	binary.LittleEndian.PutUint64(buf[2:], uint64(b.n))
	copy(buf[hdrLen:], b.data)
	n, err := w.Write(buf)
	return int64(n), err
}
'''))
bug("bb-writeto-one-short", "C22", F(BB, "(b *BitBucket) WriteTo", '''
func (b *BitBucket) WriteTo(w io.Writer) (int64, error) {
	buf := make([]byte, hdrLen+len(b.data))
	buf[0], buf[1] = Version, b.w
	binary.LittleEndian.PutUint64(buf[2:], uint64(b.n))
	copy(buf[hdrLen:], b.data[1:])
	n, err := w.Write(buf)
	return int64(n), err
}
'''))
same("bb-writeto-defer", F(BB, "(b *BitBucket) WriteTo", '''
func (b *BitBucket) WriteTo(w io.Writer) (written int64, err error) {
	var hdr [hdrLen]byte
	hdr[0] = Version
	hdr[1] = b.w
	binary.LittleEndian.PutUint64(hdr[2:], uint64(b.n))
	for _, part := range [][]byte{hdr[:], b.data} {
		n, err := w.Write(part)
		written += int64(n)
		if err != nil {
			return written, err
		}
	}
	return written, nil
}
'''))
same("bb-length", F(BB, "length", '''
func length(n int, w uint8) int {
	bits := n * int(w)
	size := bits / 8
	if bits%8 != 0 {
		size++
	}
	return size
}
'''))
bug("bb-length-floor", "C24 C23", F(BB, "length", '''
func length(n int, w uint8) int {
	return n * int(w) / 8
}
'''))
same("bb-reset-fresh", F(BB, "(b *BitBucket) Reset", '''
func (b *BitBucket) Reset() {
	for i := 0; i < len(b.data); i++ {
		b.data[i] = 0x00
	}
}
'''))
bug("bb-reset-copy", "C26", F(BB, "(b *BitBucket) Reset", '''
func (b *BitBucket) Reset() {
	b.data = make([]byte, len(b.data))
}
'''))

# ---------------------------------------------------------------- bloom
same("bl-hasher-odd", P(BL, "newHasher", ('''	if m&1 == 0 {
		// m is even, so ensure b is odd
		if b&1 == 0 {
			b++
		}
	} else {
		// m is not even; make it so
		if m > 2 {
			m--
		}
		// Ensure b is not even too
		if b&1 == 0 {
			b++
		}
	}
''', '''	b |= 1
	if m > 2 {
		m &^= 1
	}
''')))
bug("bl-hasher-round", "C21", P(BL, "newHasher", ("		if m > 2 {\n			m--\n		}\n", "		m++\n")))
same("bl-hashers", P(BL, "newHasher", ("	h1 := fnv.New64()\n	h1.Write(data)\n	a := h1.Sum64()\n\n	h2 := fnv.New64a()\n	h2.Write(data)\n	b := h2.Sum64()\n", "	a, b := fnv.Sum64(data), fnv.Sum64a(data)\n")))
same("bl-add-down", P(BL, "(b *Bloom) Add", ("i := uint8(0); i < b.k; i++", "i := b.k; i > 0; i--")))
same("bl-has-down", P(BL, "(b *Bloom) Has", ("i := uint8(0); i < b.k; i++", "i := b.k; i > 0; i--")))
same("bl-has-missing", F(BL, "(b *Bloom) Has", '''
func (b *Bloom) Has(v []byte) bool {
	return !b.lacks(v)
}

// lacks reports whether v is certainly not in the filter
func (b *Bloom) lacks(v []byte) bool {
	h := newHasher(v, b.m)
	for n := int(b.k); n > 0; n-- {
		if x := int(h.next()); b.bits.Get(x) == 0 {
			return true
		}
	}
	return false
}
'''))
bug("bl-has-extra", "C21", P(BL, "(b *Bloom) Has", ("i := uint8(0); i < b.k; i++", "i := uint8(0); i <= b.k && i < 255; i++")))
bug("bl-has-skew", "C21", P(BL, "(b *Bloom) Has", ("	h := newHasher(v, b.m)\n", "	h := newHasher(v, b.m)\n	h.next()\n")))
bug("bl-add-capped", "C21", P(BL, "(b *Bloom) Add", ("i < b.k; i++", "i < b.k && i < 16; i++")))
same("bl-both-capped", P(BL, "(b *Bloom) Add", ("i < b.k; i++", "i < b.k && i < 16; i++")), P(BL, "(b *Bloom) Has", ("i < b.k; i++", "i < b.k && i < 16; i++")))
bug("bl-next-state", "C21", F(BL, "(h *hasher) next", '''
var calls uint64

func (h *hasher) next() uint64 {
	calls++
	v := (h.a + calls) % uint64(h.m)
	h.a = (h.a + h.b) % uint64(h.m)
	return v
}
'''))
same("bl-next-closed", F(BL, "(h *hasher) next", '''
func (h *hasher) next() uint64 {
	m := uint64(h.m)
	v := h.a % m
	h.a = (v + h.b%m) % m
	return v
}
'''))
same("bl-next-order", F(BL, "(h *hasher) next", '''
func (h *hasher) next() (v uint64) {
	m := uint64(h.m)
	v, h.a = h.a%m, (h.a+h.b)%m
	return
}
'''))
BHDR = '''
// header checks the leading bytes of a serialized filter and returns its number of hash functions
func header(hdr []byte) (uint8, error) {
	if hdr[0] != Version {
		return 0, ErrIncompatibleVersion
	}
	return hdr[1], nil
}

// make creates a filter on top of bits
func fromBits(bits bitbucket.BitBucket, k uint8) (Bloom, error) {
	if !validBits(&bits) {
		return Bloom{}, ErrInvalidBits
	}
	return Bloom{bits: bits, m: bits.Count(), k: k}, nil
}
'''
BWB = '''
func WithBytes(buf []byte) (Bloom, error) {
	if len(buf) < hdrLen {
		return Bloom{}, io.ErrShortBuffer
	}
	k, err := header(buf[:hdrLen])
	if err != nil {
		return Bloom{}, err
	}
	bits, err := bitbucket.WithBytes(buf[hdrLen:])
	if err != nil {
		return Bloom{}, err
	}
	return fromBits(bits, k)
}
''' + BHDR
BRF = '''
func (b *Bloom) ReadFrom(r io.Reader) (int64, error) {
	var hdr [hdrLen]byte
	n, err := io.ReadFull(r, hdr[:])
	total := int64(n)
	if err == io.EOF {
		return total, io.ErrUnexpectedEOF
	} else if err != nil {
		return total, err
	}
	k, err := header(hdr[:])
	if err != nil {
		return total, err
	}

	var bits bitbucket.BitBucket
	nb, err := bits.ReadFrom(r)
	total += nb
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	if err != nil {
		return total, err
	}
	f, err := fromBits(bits, k)
	if err != nil {
		return total, err
	}

	nx, err := io.ReadFull(r, hdr[:1])
	total += int64(nx)
	if err == io.EOF {
		*b = f
		return total, nil
	}
	if err == nil {
		err = io.ErrShortBuffer
	}
	return total, err
}
'''
same("bl-header", F(BL, "WithBytes", BWB), F(BL, "(b *Bloom) ReadFrom", BRF))
bug("bl-header-m", "C22", F(BL, "WithBytes", BWB.replace("m: bits.Count(), k", "m: bits.Count() - 1, k")), F(BL, "(b *Bloom) ReadFrom", BRF))
bug("bl-header-k", "C22", F(BL, "WithBytes", BWB.replace("return hdr[1], nil", "return hdr[1] & 0x0f, nil")), F(BL, "(b *Bloom) ReadFrom", BRF))
bug("bl-header-valid", "C23", F(BL, "WithBytes", BWB.replace("	if !validBits(&bits) {", "	if bits.Width() != 1 {")), F(BL, "(b *Bloom) ReadFrom", BRF))
bug("bl-rf-order", "C23", F(BL, "WithBytes", BWB), F(BL, "(b *Bloom) ReadFrom", BRF.replace("	k, err := header(hdr[:])\n", "	k, err := header(hdr[:])\n	b.k = k\n")))
same("bl-reset-bits", F(BL, "(b *Bloom) Reset", '''
func (b *Bloom) Reset() {
	for i := 0; i < b.bits.Count(); i++ {
		b.bits.Set(i, 0)
	}
}
'''))

# ---------------------------------------------------------------- hll
same("hll-lz", F(H, "(c *Counter) Add", '''
func (c *Counter) Add(v []byte) {
	h := fnv.Sum64(v)
	idx := int(h >> (64 - c.p))
	rho := uint8(64 - int(c.p) + 1)
	if rest := h << c.p; rest != 0 {
		rho = uint8(bits.LeadingZeros64(rest)) + 1
	}
	if rho > c.bits.Get(idx) {
		c.bits.Set(idx, rho)
	}
}
'''), (H, '	"math"\n', '	"math"\n	"math/bits"\n'), (H, "	bits, err := bitbucket.WithBytes(buf[2:])", "	regs, err := bitbucket.WithBytes(buf[2:])"), (H, "	if !validRegisters(p, &bits) {\n		return Counter{}, ErrInvalidRegisters\n	}\n\n	c := Counter{\n		p:    p,\n		bits: bits,", "	if !validRegisters(p, &regs) {\n		return Counter{}, ErrInvalidRegisters\n	}\n\n	c := Counter{\n		p:    p,\n		bits: regs,"))
same("hll-rho", F(H, "(c *Counter) Add", '''
func (c *Counter) Add(v []byte) {
	h := fnv.Sum64(v)
	c.raise(int((h&c.mask)>>(64-c.p)), rank(h<<c.p, 64-c.p))
}

// raise records rho in register idx if it is the highest seen there
func (c *Counter) raise(idx int, rho uint8) {
	if c.bits.Get(idx) >= rho {
		return
	}
	c.bits.Set(idx, rho)
}

// rank is one more than the number of leading zeroes in the n high bits of x
func rank(x uint64, n uint8) uint8 {
	rho := uint8(1)
	for ; rho <= n && x>>63 == 0; rho++ {
		x <<= 1
	}
	return rho
}
'''))
bug("hll-rho-last", "C20", F(H, "(c *Counter) Add", '''
func (c *Counter) Add(v []byte) {
	h := fnv.Sum64(v)
	c.bits.Set(int((h&c.mask)>>(64-c.p)), rank(h<<c.p, 64-c.p))
}

func rank(x uint64, n uint8) uint8 {
	rho := uint8(1)
	for ; rho <= n && x>>63 == 0; rho++ {
		x <<= 1
	}
	return rho
}
'''))
bug("hll-rho-inc", "C20", F(H, "(c *Counter) Add", '''
func (c *Counter) Add(v []byte) {
	h := fnv.Sum64(v)
	idx := int((h & c.mask) >> (64 - c.p))
	rho := uint8(1)
	for x := h << c.p; rho <= 64-c.p && x>>63 == 0; x <<= 1 {
		rho++
	}
	if cur := c.bits.Get(idx); rho > cur {
		c.bits.IncN(idx, rho)
	}
}
'''))
bug("hll-rho-slot", "C20", F(H, "(c *Counter) Add", '''
func (c *Counter) Add(v []byte) {
	h := fnv.Sum64(v)
	idx := int((h & c.mask) >> (64 - c.p))
	rho := uint8(1)
	for x := h << c.p; rho <= 64-c.p && x>>63 == 0; x <<= 1 {
		rho++
	}
	if c.bits.Get(idx) != 0 {
		idx = (idx + 1) % c.bits.Count()
	}
	if rho > c.bits.Get(idx) {
		c.bits.Set(idx, rho)
	}
}
'''))
same("hll-params", F(H, "(c *Counter) initParams", '''
func (c *Counter) initParams() {
	c.mask = ^uint64(0) << (64 - c.p)
	c.threshold = thresholds[c.p]
	switch m := c.registers(); {
	case m <= 16:
		c.alpha = 0.673
	case m <= 32:
		c.alpha = 0.697
	case m <= 64:
		c.alpha = 0.709
	case m <= 256:
		c.alpha = 0.7213 / (1 + 1.079/float64(m))
	default:
		c.alpha = 0.7213475 // 1/(2log2)
	}
}

func (c *Counter) registers() int {
	return 1 << c.p
}
'''))
same("hll-count-helper", F(H, "(c *Counter) HarmonicCount", '''
func (c *Counter) HarmonicCount() int64 {
	return c.estimate(c.harmonic(c.bits.Count()))
}

func (c *Counter) estimate(z float64) int64 {
	m := float64(c.bits.Count())
	return int64(math.Ceil(c.alpha * m * m / z))
}
'''), F(H, "(c *Counter) PoissonCount", '''
func (c *Counter) PoissonCount() int64 {
	return c.estimate(c.poisson())
}
'''))
bug("hll-valid-ge", "C23", F(H, "validRegisters", '''
func validRegisters(p uint8, bits *bitbucket.BitBucket) bool {
	return bits.Width() >= 6 && bits.Count() == 1<<p
}
'''))
bug("hll-valid-more", "C23", F(H, "validRegisters", '''
func validRegisters(p uint8, bits *bitbucket.BitBucket) bool {
	return bits.Width() == 6 && bits.Count()>>p > 0
}
'''))
same("hll-precision-helper", (H, "	if p < 4 || p > 18 {\n		return Counter{}, ErrInvalidPrecision\n	}\n", "	if !validPrecision(p) {\n		return Counter{}, ErrInvalidPrecision\n	}\n"), (H, "	if p < 4 || p > 18 {\n		panic", "	if !validPrecision(p) {\n		panic"), P(H, "(c *Counter) ReadFrom", ("	if p < 4 || p > 18 {\n		return int64(n), ErrInvalidPrecision\n	}\n", "	if !validPrecision(p) {\n		return int64(n), ErrInvalidPrecision\n	}\n")), (H, "// validRegisters reports", "func validPrecision(p uint8) bool {\n	_, ok := thresholds[p]\n	return ok\n}\n\n// validRegisters reports"))
bug("hll-precision-loose", "C23", (H, "	if p < 4 || p > 18 {\n		return Counter{}, ErrInvalidPrecision\n	}\n", "	if p-4 > 18 {\n		return Counter{}, ErrInvalidPrecision\n	}\n"))
same("hll-precision-sub", (H, "	if p < 4 || p > 18 {\n		return Counter{}, ErrInvalidPrecision\n	}\n", "	if p-4 > 14 {\n		return Counter{}, ErrInvalidPrecision\n	}\n"))

# ---------------------------------------------------------------- stat64
LOADSAVE = '''
type fields struct {
	count         uint64
	sum, mean, ss float64
}

func (s Summary) load() fields {
	return fields{
		count: binary.LittleEndian.Uint64(s[:8]),
		sum:   s.float(8),
		mean:  s.float(16),
		ss:    s.float(24),
	}
}

func (s Summary) float(at int) float64 {
	return math.Float64frombits(binary.LittleEndian.Uint64(s[at : at+8]))
}

func (s Summary) save(f fields) {
	binary.LittleEndian.PutUint64(s, f.count)
	for i, v := range []float64{f.sum, f.mean, f.ss} {
		binary.LittleEndian.PutUint64(s[8*(i+1):], math.Float64bits(v))
	}
}

func (f *fields) add(v float64) {
	f.count++
	f.sum += v
	delta := v - f.mean
	f.mean += delta / float64(f.count)
	f.ss += delta * (v - f.mean)
}
'''
UP = '''
func (s Summary) Update(v float64) {
	f := s.load()
	f.add(v)
	s.save(f)
}
''' + LOADSAVE
UM = '''
func (s Summary) UpdateMulti(vs []float64) {
	f := s.load()
	for i := range vs {
		f.add(vs[i])
	}
	s.save(f)
}
'''
def st(o, n, um=UM):
    assert o in UP, o
    return F(X, "(s Summary) Update(", UP.replace(o, n, 1)), F(X, "(s Summary) UpdateMulti", um)
same("stat-struct", F(X, "(s Summary) Update(", UP), F(X, "(s Summary) UpdateMulti", UM))
bug("stat-struct-old", "C19", *st("	f.ss += delta * (v - f.mean)\n", "	f.ss += delta * delta\n"))
bug("stat-struct-swap", "C19", *st("[]float64{f.sum, f.mean, f.ss}", "[]float64{f.mean, f.sum, f.ss}"))
bug("stat-struct-count", "C19", *st("	f.mean += delta / float64(f.count)\n", "	f.mean += delta / float64(f.count+1)\n"))
bug("stat-struct-zero", "C19", *st("	f.count++\n", "	if v == 0 {\n		return\n	}\n	f.count++\n"))
bug("stat-struct-value", "C19", *st("func (f *fields) add", "func (f fields) add"))
same("stat-multi-update", F(X, "(s Summary) UpdateMulti", '''
func (s Summary) UpdateMulti(vs []float64) {
	for _, v := range vs {
		s.Update(v)
	}
}
'''))
same("stat-update-multi", F(X, "(s Summary) Update(", '''
func (s Summary) Update(v float64) {
	s.UpdateMulti([]float64{v})
}
'''))
bug("stat-multi-skip", "C19", F(X, "(s Summary) UpdateMulti", '''
func (s Summary) UpdateMulti(vs []float64) {
	for i := 0; i+1 < len(vs); i++ {
		s.Update(vs[i])
	}
}
'''))
same("stat-variance-helper", F(X, "(s Summary) Variance", '''
func (s Summary) Variance() float64 {
	n := s.Count()
	if n <= 1 {
		return math.NaN()
	}
	return math.Float64frombits(binary.LittleEndian.Uint64(s[24:])) / float64(n-1)
}
'''))
bug("stat-variance-n", "C19", F(X, "(s Summary) Variance", '''
func (s Summary) Variance() float64 {
	n := s.Count()
	if n == 0 {
		return math.NaN()
	}
	return math.Float64frombits(binary.LittleEndian.Uint64(s[24:])) / float64(n)
}
'''))
same("stat-mean-sum", F(X, "(s Summary) Reset", '''
func (s Summary) Reset() error {
	return Reset(s)
}
'''))

# ---------------------------------------------------------------- fnv
same("fnv-write-byte", F(N, "(s *Fnv64) Write(", '''
func (s *Fnv64) Write(data []byte) (int, error) {
	for i := range data {
		if err := s.WriteByte(data[i]); err != nil {
			return i, err
		}
	}
	return len(data), nil
}
'''))
same("fnv-helper", F(N, "(s *Fnv64) Write(", '''
func (s *Fnv64) Write(data []byte) (int, error) {
	*s = Fnv64(update(uint64(*s), data))
	return len(data), nil
}

func update(h uint64, data []byte) uint64 {
	for _, c := range data {
		h = h*prime64 ^ uint64(c)
	}
	return h
}
'''), F(N, "Sum64(", '''
func Sum64(buf []byte) uint64 {
	return update(offset64, buf)
}
'''))
bug("fnv-helper-order", "C25", F(N, "(s *Fnv64) Write(", '''
func (s *Fnv64) Write(data []byte) (int, error) {
	*s = Fnv64(update(uint64(*s), data))
	return len(data), nil
}

func update(h uint64, data []byte) uint64 {
	for _, c := range data {
		h = (h ^ uint64(c)) * prime64
	}
	return h
}
'''))
bug("fnv-helper-sign", "C25", F(N, "(s *Fnv64a) WriteString(", '''
func (s *Fnv64a) WriteString(str string) (int, error) {
	for _, c := range str {
		*s ^= Fnv64a(c)
		*s *= prime64
	}
	return len(str), nil
}
'''))
same("fnv-uint64-loop", F(N, "(s *Fnv64) WriteUint64", '''
func (s *Fnv64) WriteUint64(n uint64) {
	for shift := uint(64); shift > 0; {
		shift -= 8
		s.WriteByte(byte(n >> shift))
	}
}
'''))
bug("fnv-uint64-little", "C25", F(N, "(s *Fnv64) WriteUint64", '''
func (s *Fnv64) WriteUint64(n uint64) {
	for shift := uint(0); shift < 64; shift += 8 {
		s.WriteByte(byte(n >> shift))
	}
}
'''))
same("fnv-string-conv", F(N, "String64(", '''
func String64(str string) uint64 {
	return Sum64([]byte(str))
}
'''))
same("fnv-string-hash", F(N, "String64a(", '''
func String64a(str string) uint64 {
	h := New64a()
	h.WriteString(str)
	return h.Sum64()
}
'''))
same("fnv-sum-loop", F(N, "sum(", '''
func sum(n uint64, buf []byte) []byte {
	for i := 56; i >= 0; i -= 8 {
		buf = append(buf, byte(n>>uint(i)))
	}
	return buf
}
'''))
same("fnv-sum-binary", F(N, "sum(", '''
func sum(n uint64, buf []byte) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], n)
	return append(buf, b[:]...)
}
'''), (N, "package fnv\n", 'package fnv\n\nimport "encoding/binary"\n'))
bug("fnv-sum-fresh", "C25", F(N, "sum(", '''
func sum(n uint64, buf []byte) []byte {
	return append(buf[:0], byte(n>>56), byte(n>>48), byte(n>>40), byte(n>>32), byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
}
'''))

# ---------------------------------------------------------------- measures
same("m-shared-writer", F(M, "(Sum) ContWriter", '''
func (Sum) ContWriter() ContWriterFunc { return updateStat64 }

// updateStat64 adds an observation to a stat64 summary
func updateStat64(buf []byte, init bool, v float64) error {
	stat64.WithBytes(buf).Update(v)
	return nil
}
'''), F(M, "(Mean) ContWriter", '''
func (Mean) ContWriter() ContWriterFunc { return updateStat64 }
'''), F(M, "(Count) ContWriter", '''
func (Count) ContWriter() ContWriterFunc { return updateStat64 }
'''))
same("m-float-helpers", F(M, "(Max) ContReader", '''
func (Max) ContReader() ContReaderFunc {
	return func(buf []byte) (float64, error) { return getFloat(buf), nil }
}

func getFloat(buf []byte) float64 {
	return math.Float64frombits(binary.LittleEndian.Uint64(buf))
}

func putFloat(buf []byte, v float64) {
	binary.LittleEndian.PutUint64(buf, math.Float64bits(v))
}
'''), F(M, "(m Max) ContWriter", '''
func (m Max) ContWriter() ContWriterFunc {
	return func(buf []byte, init bool, v float64) error {
		c := getFloat(buf)
		if init {
			c = math.Inf(-1)
		}
		if v > c {
			c = v
		}
		putFloat(buf, c)
		return nil
	}
}
'''))
bug("m-max-math", "C18", F(M, "(m Max) ContWriter", '''
func (m Max) ContWriter() ContWriterFunc {
	return func(buf []byte, init bool, v float64) error {
		c := math.Float64frombits(binary.LittleEndian.Uint64(buf))
		if init {
			c = math.Inf(-1)
		}
		binary.LittleEndian.PutUint64(buf, math.Float64bits(math.Max(c, v)))
		return nil
	}
}
'''))
bug("m-min-notge", "C18", P(M, "(m Min) ContWriter", ("		if v < c {\n", "		if !(v >= c) {\n")))
bug("m-min-abs", "C18", P(M, "(m Min) ContWriter", ("		if v < c {\n", "		if math.Abs(v) < c {\n")))
same("m-card-helper", F(M, "(c Cardinality) DiscWriter", '''
func (c Cardinality) DiscWriter() DiscWriterFunc {
	return func(buf []byte, init bool, v []byte) error {
		counter, err := c.counter(buf, init)
		if err == nil {
			counter.Add(v)
		}
		return err
	}
}

// counter returns the counter stored in buf
func (c Cardinality) counter(buf []byte, init bool) (hll.Counter, error) {
	if init {
		if err := c.Init(buf); err != nil {
			return hll.Counter{}, err
		}
	}
	return hll.WithBytes(buf)
}
'''))
bug("m-card-copy", "C20", F(M, "(c Cardinality) DiscWriter", '''
func (c Cardinality) DiscWriter() DiscWriterFunc {
	return func(buf []byte, init bool, v []byte) error {
		if init {
			if err := c.Init(buf); err != nil {
				return err
			}
		}
		counter, err := hll.WithBytes(append([]byte{}, buf...))
		if err == nil {
			counter.Add(v)
		}
		return err
	}
}
'''))

# ---------------------------------------------------------------- query
QP = '''
func RoughParse(in string) (collation.Query, error) {
	parts := queryRe.FindStringSubmatch(in)
	if len(parts) != 3 {
		return collation.Query{}, errSyntax
	}
	return collation.Query{
		FieldMeasures: parseSelect(parts[1]),
		Criteria:      parseWhere(parts[2]),
	}, nil
}

var errSyntax = errors.New("query: syntax error; expected query to have format 'select xxx where yyy'")

// parseSelect finds the measures to be selected, grouped by field in the order of the query
func parseSelect(in string) []collation.FM {
	var fms []collation.FM
	position := make(map[string]int)
	for _, s := range selectRe.FindAllStringSubmatch(in, -1) {
		measure, field := s[1], s[2]
		i, known := position[field]
		if !known {
			i = len(fms)
			position[field] = i
			fms = append(fms, collation.FM{F: []byte(field)})
		}
		fms[i].M = append(fms[i].M, []byte(measure))
	}
	return fms
}

func parseWhere(in string) []collation.FV {
	var fvs []collation.FV
	for _, w := range whereRe.FindAllStringSubmatch(in, -1) {
		fvs = append(fvs, collation.FV{F: []byte(w[1]), V: []byte(w[2])})
	}
	return fvs
}
'''
QI = (Q, '	"fmt"\n', '	"errors"\n')
def qp(*reps):
    s = QP
    for o, n in reps:
        assert o in s, o
        s = s.replace(o, n, 1)
    return F(Q, "RoughParse", s), QI
same("q-split", *qp())
same("q-split-make", *qp(("	var fvs []collation.FV\n	for _, w := range whereRe.FindAllStringSubmatch(in, -1) {\n		fvs = append(fvs, collation.FV{F: []byte(w[1]), V: []byte(w[2])})\n", "	matches := whereRe.FindAllStringSubmatch(in, -1)\n	fvs := make([]collation.FV, 0, len(matches))\n	for i := range matches {\n		w := matches[i]\n		fvs = append(fvs, collation.FV{F: []byte(w[1]), V: []byte(w[2])})\n")))
same("q-split-index", *qp(("	var fvs []collation.FV\n	for _, w := range whereRe.FindAllStringSubmatch(in, -1) {\n		fvs = append(fvs, collation.FV{F: []byte(w[1]), V: []byte(w[2])})\n", "	matches := whereRe.FindAllStringSubmatch(in, -1)\n	fvs := make([]collation.FV, len(matches))\n	for i, w := range matches {\n		fvs[i] = collation.FV{F: []byte(w[1]), V: []byte(w[2])}\n")))
bug("q-split-swap", "C34", *qp(("measure, field := s[1], s[2]", "field, measure := s[1], s[2]")))
bug("q-split-limit", "C34", *qp(("whereRe.FindAllStringSubmatch(in, -1)", "whereRe.FindAllStringSubmatch(in, 8)")))
bug("q-split-first", "C34", *qp(("		fms[i].M = append(fms[i].M, []byte(measure))\n", "		if !known {\n			fms[i].M = append(fms[i].M, []byte(measure))\n		}\n")))
bug("q-split-last", "C34", *qp(("		fms[i].M = append(fms[i].M, []byte(measure))\n", "		fms[len(fms)-1].M = append(fms[len(fms)-1].M, []byte(measure))\n")))
bug("q-split-trim", "C34", *qp(("V: []byte(w[2])", "V: []byte(strings.TrimSpace(w[2]))")), (Q, '	"regexp"\n', '	"regexp"\n	"strings"\n'))
bug("q-split-nonempty", "C34", *qp(("		fvs = append", "		if w[2] == \"\" {\n			continue\n		}\n		fvs = append")))

# ---------------------------------------------------------------- server: rows
PR = '''
func parseRow(data []byte) (collation.Row, error) {
	row := collation.Row{}
	n := leadingDigits(data)
	if n == 0 {
		return row, fmt.Errorf("row missing leading timestamp")
	}
	t, err := parseTime(data[:n])
	if err != nil {
		return row, err
	}
	row.DataTime = t

	if rest := data[n:]; len(rest) > 0 {
		row.Data = parseFields(rest[1:], rest[0])
	}
	return row, nil
}

// leadingDigits counts the digits at the start of data
func leadingDigits(data []byte) int {
	for i, c := range data {
		if c < '0' || c > '9' {
			return i
		}
	}
	return len(data)
}

// parseTime parses a timestamp in microseconds
func parseTime(digits []byte) (time.Time, error) {
	us, err := strconv.ParseInt(string(digits), 10, 64)
	if err != nil {
		return time.Time{}, err
	}
	const perSecond = 1000000
	return time.Unix(us/perSecond, (us%perSecond)*1000), nil
}

func parseFields(data []byte, delim byte) collation.FVList {
	var l collation.FVList
	for {
		i := bytes.IndexByte(data, delim)
		if i < 0 {
			return append(l, parseFV(data))
		}
		l = append(l, parseFV(data[:i]))
		data = data[i+1:]
	}
}
'''
def pr(*reps):
    s = PR
    for o, n in reps:
        assert o in s, o
        s = s.replace(o, n, 1)
    return F(V, "parseRow", s)
same("row-split", pr())
same("row-split-bytes", pr(('''	var l collation.FVList
	for {
		i := bytes.IndexByte(data, delim)
		if i < 0 {
			return append(l, parseFV(data))
		}
		l = append(l, parseFV(data[:i]))
		data = data[i+1:]
	}
''', '''	var l collation.FVList
	for _, f := range bytes.Split(data, []byte{delim}) {
		l = append(l, parseFV(f))
	}
	return l
''')))
same("row-split-nano", pr(("	return time.Unix(us/perSecond, (us%perSecond)*1000), nil\n", "	s := us / perSecond\n	return time.Unix(s, (us-s*perSecond)*int64(time.Microsecond)), nil\n")))
bug("row-split-nano-float", "C31", pr(("	return time.Unix(us/perSecond, (us%perSecond)*1000), nil\n", "	s := float64(us) / perSecond\n	return time.Unix(int64(s), int64((s-float64(int64(s)))*1e9)), nil\n")))
bug("row-split-trunc", "C42", pr(("		if i < 0 {\n			return append(l, parseFV(data))\n", "		if i < 0 {\n			if len(data) == 0 {\n				return l\n			}\n			return append(l, parseFV(data))\n")))
bug("row-split-delim", "C42", pr(("parseFields(rest[1:], rest[0])", "parseFields(rest[1:], '\\t')")))
bug("row-split-short", "C42", pr(("len(rest) > 0 {", "len(rest) > 1 {")))
bug("row-split-digits", "C31", pr(("c < '0' || c > '9'", "c < '0' || c >= '9'")))
bug("row-split-panic", "C43", pr(("if rest := data[n:]; len(rest) > 0 {", "if rest := data[n:]; rest != nil {")))
same("fv-split", F(V, "parseFV", '''
func parseFV(data []byte) collation.FV {
	fv := collation.FV{F: data, V: []byte{}}
	if i := bytes.IndexByte(data, '='); i >= 0 {
		fv.F, fv.V = data[:i], data[i+1:]
	}
	return fv
}
'''))
same("fv-splitn", F(V, "parseFV", '''
func parseFV(data []byte) collation.FV {
	parts := bytes.SplitN(data, []byte("="), 2)
	if len(parts) == 1 {
		return collation.FV{F: data, V: []byte{}}
	}
	return collation.FV{F: parts[0], V: parts[1]}
}
'''))
bug("fv-split-all", "C42", F(V, "parseFV", '''
func parseFV(data []byte) collation.FV {
	parts := bytes.Split(data, []byte("="))
	if len(parts) == 1 {
		return collation.FV{F: data, V: []byte{}}
	}
	return collation.FV{F: parts[0], V: parts[1]}
}
'''))
bug("fv-lastindex", "C42", F(V, "parseFV", '''
func parseFV(data []byte) collation.FV {
	fv := collation.FV{F: data, V: []byte{}}
	if i := bytes.LastIndexByte(data, '='); i >= 0 {
		fv.F, fv.V = data[:i], data[i+1:]
	}
	return fv
}
'''))

# ---------------------------------------------------------------- server: observations
RO = '''
func (s *Server) recvObservation(ctx context.Context, w http.ResponseWriter, req *http.Request) {
	r, status, err := observations(req)
	if err != nil {
		http.Error(w, err.Error(), status)
		return
	}
	defer req.Body.Close()

	if status, err := s.ingest(ctx, r, time.Now()); err != nil {
		http.Error(w, err.Error(), status)
	}
}

// observations finds the observations in a request
func observations(req *http.Request) (io.Reader, int, error) {
	ct, err := contentType(req)
	if err != nil {
		return nil, http.StatusBadRequest, err
	}
	switch ct {
	case "application/x-www-form-urlencoded":
		if err := req.ParseForm(); err != nil {
			return nil, http.StatusBadRequest, err
		}
		data := req.FormValue("data")
		if data == "" {
			return nil, http.StatusBadRequest, errors.New("no data supplied")
		}
		return strings.NewReader(data), http.StatusOK, nil
	case "text/plain", "application/octet-stream":
		return req.Body, http.StatusOK, nil
	}
	return nil, http.StatusUnsupportedMediaType, errors.New("unknown media type")
}

// ingest stores the observations read from r
func (s *Server) ingest(ctx context.Context, r io.Reader, now time.Time) (int, error) {
	sc := bufio.NewScanner(r)
	for sc.Scan() {
		if err := ctx.Err(); err != nil {
			return http.StatusServiceUnavailable, err
		}
		row, err := parseRow(sc.Bytes())
		if err != nil {
			return http.StatusInternalServerError, err
		}
		row.ReceiveTime = now
		if err := s.store(ctx, row); err != nil {
			return http.StatusInternalServerError, err
		}
	}
	if err := sc.Err(); err != nil {
		return http.StatusInternalServerError, err
	}
	return http.StatusOK, nil
}

// store passes a row on to every collation
func (s *Server) store(ctx context.Context, row collation.Row) error {
	for i := range s.Stores {
		if err := s.Stores[i].Write(ctx, row); err != nil {
			return err
		}
	}
	return nil
}
'''
RI = (V, '	"context"\n', '	"context"\n	"errors"\n')
def ro(*reps):
    s = RO
    for o, n in reps:
        assert o in s, o
        s = s.replace(o, n, 1)
    return F(V, "(s *Server) recvObservation", s), RI
same("obs-split", *ro())
bug("obs-split-scan", "C09", *ro(("	if err := sc.Err(); err != nil {\n		return http.StatusInternalServerError, err\n	}\n", "")))
bug("obs-split-store", "C09 C10", *ro(("			return err\n		}\n	}\n	return nil\n", "			continue\n		}\n	}\n	return nil\n")))
bug("obs-split-last", "C09 C10", *ro(("	for i := range s.Stores {\n		if err := s.Stores[i].Write(ctx, row); err != nil {\n			return err\n		}\n	}\n	return nil\n", "	var err error\n	for i := range s.Stores {\n		err = s.Stores[i].Write(ctx, row)\n	}\n	return err\n")))
bug("obs-split-status", "C09", *ro(("			return http.StatusServiceUnavailable, err\n", "			return http.StatusOK, err\n")))
bug("obs-split-nil", "C09", *ro(("			return http.StatusServiceUnavailable, err\n", "			return http.StatusServiceUnavailable, nil\n")))
bug("obs-split-ctxonce", "C32", *ro(("	for sc.Scan() {\n		if err := ctx.Err(); err != nil {\n			return http.StatusServiceUnavailable, err\n		}\n", "	if err := ctx.Err(); err != nil {\n		return http.StatusServiceUnavailable, err\n	}\n	for sc.Scan() {\n")), F(T, "(s *Store) Write", '''
func (s *Store) Write(ctx context.Context, r collation.Row) error {
	key, found := r.KeyValue(s.Collator.Keys())
	if !found {
		return nil
	}
	t := Transaction{Row: r, Fn: s.Collator.Update}
	return s.Backend.Update(key, t.Do)
}
'''))
bug("obs-split-skip", "C09", *ro(("		if err != nil {\n			return http.StatusInternalServerError, err\n		}\n		row.ReceiveTime", "		if err != nil {\n			continue\n		}\n		row.ReceiveTime")))
bug("obs-split-go", "C09 C10", *ro(("		if err := s.store(ctx, row); err != nil {\n			return http.StatusInternalServerError, err\n		}\n", "		go s.store(ctx, row)\n")))
same("obs-batch", *ro(('''	sc := bufio.NewScanner(r)
	for sc.Scan() {
		if err := ctx.Err(); err != nil {
			return http.StatusServiceUnavailable, err
		}
		row, err := parseRow(sc.Bytes())
''', '''	sc := bufio.NewScanner(r)
	for more := sc.Scan(); more; more = sc.Scan() {
		if err := ctx.Err(); err != nil {
			return http.StatusServiceUnavailable, err
		}
		line := sc.Bytes()
		row, err := parseRow(line)
''')))

# ---------------------------------------------------------------- server: queries
QC = '''
func (s *Server) queryCollation(ctx context.Context, cname string, w http.ResponseWriter, req *http.Request) {
	q, err := query.RoughParse(req.FormValue("q"))
	if err != nil {
		http.Error(w, err.Error(), http.StatusBadRequest)
		return
	}
	st, ok := s.collation(cname)
	if !ok {
		http.NotFound(w, req)
		return
	}
	res, err := st.Read(ctx, q)
	if err != nil {
		http.Error(w, err.Error(), http.StatusInternalServerError)
		return
	}
	writeResult(w, q, res)
}

// collation finds the store of the named collation
func (s *Server) collation(name string) (*storage.Store, bool) {
	for i := range s.Stores {
		if st := &s.Stores[i]; st.Collator.Name() == name {
			return st, true
		}
	}
	return nil, false
}

func writeResult(w io.Writer, q collation.Query, res collation.Result) {
	var buf bytes.Buffer
	for _, c := range q.Criteria {
		buf.Write(c.F)
		buf.WriteByte('=')
		buf.Write(c.V)
		buf.WriteByte('\\n')
	}
	for _, f := range res.FieldMeasureValues {
		buf.WriteString(f.String())
		buf.WriteByte('\\n')
	}
	w.Write(buf.Bytes())
}
'''
def qc(*reps):
    s = QC
    for o, n in reps:
        assert o in s, o
        s = s.replace(o, n, 1)
    return F(V, "(s *Server) queryCollation", s)
same("query-split", qc())
same("query-split-fmt", qc(('''	var buf bytes.Buffer
	for _, c := range q.Criteria {
		buf.Write(c.F)
		buf.WriteByte('=')
		buf.Write(c.V)
		buf.WriteByte('\\n')
	}
	for _, f := range res.FieldMeasureValues {
		buf.WriteString(f.String())
		buf.WriteByte('\\n')
	}
	w.Write(buf.Bytes())
''', '''	for _, c := range q.Criteria {
		fmt.Fprintf(w, "%s=%s\\n", c.F, c.V)
	}
	for _, f := range res.FieldMeasureValues {
		fmt.Fprintln(w, f)
	}
''')))
bug("query-split-first", "C29", qc(("st.Collator.Name() == name {", "st.Collator.Name() == name || len(s.Stores) == 1 {")))
bug("query-split-prefix", "C29", qc(("st.Collator.Name() == name {", "strings.HasPrefix(st.Collator.Name(), name) {")))
bug("query-split-order", "C43", qc(("	w.Write(buf.Bytes())\n", "	w.Write(buf.Bytes()[:buf.Len()-1])\n")))
bug("query-split-drop", "C29", qc(("	for _, f := range res.FieldMeasureValues {\n", "	for _, f := range res.FieldMeasureValues {\n		if f.V == nil {\n			break\n		}\n")))
bug("query-split-one", "C29", qc(("	for _, f := range res.FieldMeasureValues {\n		buf.WriteString", "	for _, f := range res.FieldMeasureValues[:1] {\n		buf.WriteString")))
bug("query-split-err", "C10", qc(("	if err != nil {\n		http.Error(w, err.Error(), http.StatusInternalServerError)\n		return\n	}\n	writeResult", "	if err != nil {\n		w.Write([]byte(err.Error()))\n		return\n	}\n	writeResult")))

# ---------------------------------------------------------------- server: handlers
same("handlers-methods", P(V, "(s *Server) registerHandlers", ('''	s.mux.HandleFunc("/obs", func(w http.ResponseWriter, req *http.Request) {
		if req.Method == http.MethodPost {
			baseCtx := req.Context()
			s.recvObservation(baseCtx, w, req)
			return
		}
		http.Error(w, "method not allowed", http.StatusMethodNotAllowed)
	})
''', '''	s.mux.HandleFunc("/obs", s.handleObs)
''')), (V, "// recvObservation receives", '''// handleObs handles requests with observations
func (s *Server) handleObs(w http.ResponseWriter, req *http.Request) {
	if req.Method != http.MethodPost {
		http.Error(w, "method not allowed", http.StatusMethodNotAllowed)
		return
	}
	s.recvObservation(req.Context(), w, req)
}

// recvObservation receives'''))
bug("handlers-bg", "C32", P(V, "(s *Server) registerHandlers", ("			baseCtx := req.Context()\n			s.recvObservation(baseCtx", "			baseCtx := context.Background()\n			s.recvObservation(baseCtx")))
bug("handlers-get", "C11", P(V, "(s *Server) registerHandlers", ("		if req.Method == http.MethodPost {", "		if req.Method == http.MethodPost || req.Method == http.MethodPut {")))
same("handlers-switch", P(V, "(s *Server) registerHandlers", ('''		if req.Method != http.MethodPost && req.Method != http.MethodGet {
			http.Error(w, "method not allowed", http.StatusMethodNotAllowed)
			return
		}

		baseCtx := req.Context()
		s.queryCollation(baseCtx, path, w, req)
''', '''		switch req.Method {
		case http.MethodGet, http.MethodPost:
			s.queryCollation(req.Context(), path, w, req)
		default:
			http.Error(w, "method not allowed", http.StatusMethodNotAllowed)
		}
''')))
same("handlers-local-mux", P(V, "(s *Server) registerHandlers", ("	s.mux = http.NewServeMux()\n", "	mux := http.NewServeMux()\n"), ('s.mux.HandleFunc("/obs"', 'mux.HandleFunc("/obs"'), ("s.mux.Handle(\"/collation/\"", "mux.Handle(\"/collation/\""), ("	return nil\n", "	s.mux = mux\n	return nil\n")))
bug("bl-hasher-zero", "C21", P(BL, "newHasher", ("		if m > 2 {\n			m--\n		}\n", "		m--\n")))
bug("fv-splitn-all", "C42", F(V, "parseFV", '''
func parseFV(data []byte) collation.FV {
	parts := bytes.SplitN(data, []byte("="), 3)
	if len(parts) < 2 {
		return collation.FV{F: parts[0]}
	}
	return collation.FV{F: parts[0], V: parts[1]}
}
'''))
bug("fv-splitn-none", "C42", F(V, "parseFV", '''
func parseFV(data []byte) collation.FV {
	parts := bytes.SplitN(data, []byte("="), 2)
	if len(parts) < 2 {
		return collation.FV{F: parts[0], V: parts[0]}
	}
	return collation.FV{F: parts[0], V: parts[1]}
}
'''))
