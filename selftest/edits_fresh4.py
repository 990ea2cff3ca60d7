# More refactorings, written without looking at what is supported.
from edits_fresh2 import F, P, src
EDITS = []
BB = "internal/bitbucket/bitbucket.go"
BL = "internal/summary/bloom/bloom.go"
H = "internal/summary/hll/hll.go"
X = "internal/summary/stat64/stats.go"
N = "internal/hash/fnv/fnv.go"
V = "internal/server/server.go"
L = "internal/collation/schema.go"
C = "internal/collation/compile.go"
M = "internal/collation/measure.go"
Z = "internal/storage/storage.go"
B = "internal/bufmap/bufmap.go"
I = "internal/incmap/incmap.go"
S = "internal/seqlock/seqlock.go"
Q = "internal/query/rough.go"
D = "demo.go"
A = "internal/stats/stats.go"
def same(name, *eds): EDITS.append(dict(name="fresh4-" + name, kind="same", props=[], edits=list(eds)))

same("keyvalue-find", F(L, "(fv FVList) KeyValue(", '''
func (fv FVList) KeyValue(keys [][]byte) (uint64, bool) {
	h := fnv.New64()
	for _, key := range keys {
		match := fv.find(key)
		if match == nil {
			return 0, false
		}
		match.hash(h)
	}
	return h.Sum64(), true
}

// find returns the first field with a name
func (fv FVList) find(name []byte) *FV {
	for i := range fv {
		if bytes.Equal(name, fv[i].F) {
			return &fv[i]
		}
	}
	return nil
}

func (f *FV) hash(h *fnv.Fnv64) {
	h.Write(f.F)
	h.Write(f.V)
}
'''))

same("collator-read-one", F(L, "(c Collator) Read(", '''
func (c Collator) Read(fml []FM, buf []byte) (Result, error) {
	var res Result
	for _, fm := range fml {
		if err := c.readCont(&res, fm, buf); err != nil {
			return res, err
		}
		if err := c.readDisc(&res, fm, buf); err != nil {
			return res, err
		}
	}
	return res, nil
}

func (c *Collator) readCont(res *Result, fm FM, buf []byte) error {
	rs := c.contReaders[string(fm.F)]
	if rs == nil {
		return nil
	}
	for _, measure := range fm.M {
		r, exists := rs[string(measure)]
		if !exists {
			continue
		}
		v, err := r.ReadFloat64(buf)
		if err != nil {
			return err
		}
		res.add(fm.F, measure, v)
	}
	return nil
}

func (c *Collator) readDisc(res *Result, fm FM, buf []byte) error {
	rs := c.discReaders[string(fm.F)]
	for i := 0; i < len(fm.M); i++ {
		if r, exists := rs[string(fm.M[i])]; exists {
			v, err := r.ReadItem(buf)
			if err != nil {
				return err
			}
			res.add(fm.F, fm.M[i], v)
		}
	}
	return nil
}

func (r *Result) add(f, m []byte, v interface{}) {
	r.FieldMeasureValues = append(r.FieldMeasureValues, FMV{f, m, v})
}
'''))

same("collator-update-closure", F(L, "(c Collator) Update(", '''
func (c Collator) Update(r Row, buf []byte, init bool) (err error) {
	if init {
		if err = c.clear(buf); err != nil {
			return
		}
	}
	for i := 0; i < len(c.writers) && err == nil; i++ {
		err = c.writers[i].Update(buf, false)
	}
	if err != nil {
		return
	}
	for _, fv := range r.Data {
		if err = c.updateField(buf, string(fv.F), fv.V); err != nil {
			return
		}
	}
	return
}

func (c *Collator) clear(buf []byte) error {
	for i := range buf {
		buf[i] = 0
	}
	for _, in := range c.inits {
		if err := in.Init(buf); err != nil {
			return err
		}
	}
	return nil
}

func (c *Collator) updateField(buf []byte, name string, value []byte) error {
	if cws := c.contWriters[name]; len(cws) > 0 {
		v, err := strconv.ParseFloat(string(value), 64)
		if err != nil {
			return err
		}
		for i := range cws {
			if err := cws[i].UpdateFloat64(buf, false, v); err != nil {
				return err
			}
		}
	}
	for _, w := range c.discWriters[name] {
		if err := w.UpdateItem(buf, false, value); err != nil {
			return err
		}
	}
	return nil
}
'''))

same("store-lookup", F(Z, "(s *Store) Read(", '''
func (s *Store) Read(ctx context.Context, q collation.Query) (collation.Result, error) {
	buf := s.fetch(q)
	if buf == nil {
		return collation.Result{}, nil
	}
	return s.Collator.Read(q.FieldMeasures, buf)
}

// fetch returns a copy of the record a query is about, or nil if there is none
func (s *Store) fetch(q collation.Query) []byte {
	key, found := q.KeyValue(s.Collator.Keys())
	if !found {
		return nil
	}
	buf := make([]byte, s.Collator.Size())
	if ok := s.Backend.Get(key, buf); !ok {
		return nil
	}
	return buf
}
'''))

same("store-write-ctx", F(Z, "(s *Store) Write(", '''
func (s *Store) Write(ctx context.Context, r collation.Row) error {
	if key, found := r.KeyValue(s.Collator.Keys()); found {
		if err := ctx.Err(); err != nil {
			return err
		}
		tx := &Transaction{Row: r, Fn: s.Collator.Update}
		return s.Backend.Update(key, tx.Do)
	}
	return nil
}
'''))

same("bufmap-probe-fn", F(B, "(m *Map) Get(", '''
func (m *Map) Get(k uint64, buf []byte) bool {
	if k == 0 {
		return false
	}
	for i := 0; i <= maxReprobe; i++ {
		x := m.pos(k, i)
		s := &m.keys[x]
		if atomic.LoadUint64(&s.key) != k {
			continue
		}
		if atomic.LoadUint32(&s.live) == 0 {
			return false
		}
		s.snapshot(buf, m.values[x*m.s:][:m.s])
		return true
	}
	return false
}

// snapshot copies the data of the slot as it is between two updates
func (s *slot) snapshot(dst, src []byte) {
	for {
		seq := atomic.LoadUint32(&s.seq)
		if seq&1 == 0 {
			copy(dst, src)
			if atomic.LoadUint32(&s.seq) == seq {
				return
			}
		}
	}
}
'''))

same("bufmap-update-locked", P(B, "(m *Map) Update(", ('''	s := &m.keys[x]

	// Writers need to take a lock
	s.mu.Lock()
	// Allow access by other writers, even if fn panics
	defer s.mu.Unlock()

	// The data needs initialising until an update has succeeded
	init := atomic.LoadUint32(&s.live) == 0

	// Work on a copy so that an update that fails leaves the data untouched
	data := m.values[x*m.s : (x+1)*m.s]
	buf := make([]byte, m.s)
	copy(buf, data)
	if err := fn(buf, init); err != nil {
		return err
	}

	// Notify readers that we are writing
	atomic.AddUint32(&s.seq, 1)

	copy(data, buf)
	if init {
		atomic.StoreUint32(&s.live, 1)
	}

	// Notify readers that we are done
	atomic.AddUint32(&s.seq, 1)

	return nil
}
''', '''	lo, hi := x*m.s, x*m.s+m.s
	return m.keys[x].update(m.values[lo:hi:hi], fn)
}

// update replaces data by what fn makes of it
func (s *slot) update(data []byte, fn func(data []byte, init bool) error) error {
	s.mu.Lock()
	defer s.mu.Unlock()

	first := atomic.LoadUint32(&s.live) == 0
	buf := make([]byte, len(data))
	copy(buf, data)
	err := fn(buf, first)
	if err == nil {
		s.publish(data, buf, first)
	}
	return err
}

// publish stores buf for readers
func (s *slot) publish(data, buf []byte, first bool) {
	atomic.AddUint32(&s.seq, 1)
	defer atomic.AddUint32(&s.seq, 1)
	copy(data, buf)
	if first {
		atomic.StoreUint32(&s.live, 1)
	}
}
''')))

same("bufmap-claim", P(B, "(m *Map) Update(", ('''	x := -1
	i := 0
	for {
		x = m.pos(k, i)

		// Is our key here?
		kexist := atomic.LoadUint64(&m.keys[x].key)
		if kexist == k {
			break
		}

		// Is it an empty slot?
		if kexist == 0 {
			// Try and store key into slot
			if atomic.CompareAndSwapUint64(&m.keys[x].key, 0, k) {
				// Stored key successfully
				break
			}
		}

		// Did another writer set the key while we were checking?
		kexist = atomic.LoadUint64(&m.keys[x].key)
		if kexist == k {
			break
		}

		// Try next slot
		i++
		if i > maxReprobe {
			// too many attempts to find an empty slot
			return ErrOutOfSlots
		}
	}
''', '''	x := m.claim(k)
	if x == -1 {
		return ErrOutOfSlots
	}
''')), F(B, "(m *Map) pos(", '''
func (m *Map) pos(k uint64, i int) int {
	l := uint64(m.l)
	home := k % l
	return int((home + uint64(i)) % l)
}

// claim finds the slot for k, taking an empty one if needed
func (m *Map) claim(k uint64) int {
	for hop := 0; hop <= maxReprobe; hop++ {
		x := m.pos(k, hop)
		key := &m.keys[x].key
		switch atomic.LoadUint64(key) {
		case k:
			return x
		case 0:
			if atomic.CompareAndSwapUint64(key, 0, k) {
				return x
			}
			if atomic.LoadUint64(key) == k {
				return x
			}
		}
	}
	return -1
}
'''))

same("seqlock-locked", F(S, "(s *Seqlock) Update(", '''
func (s *Seqlock) Update(fn func(data []byte) error) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	d := s.data
	err := fn(d[:])
	if err == nil {
		s.replace(&d)
	}
	return err
}

// replace stores new data. The lock must be held.
func (s *Seqlock) replace(d *[1024]byte) {
	atomic.AddUint32(&s.seq, 1)
	s.data = *d
	atomic.AddUint32(&s.seq, 1)
}
'''), F(S, "(s *Seqlock) Put(", '''
func (s *Seqlock) Put(v [1024]byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.replace(&v)
}
'''))

same("seqlock-attempt", F(S, "(s *Seqlock) Get(", '''
func (s *Seqlock) Get() [1024]byte {
	for {
		if v, ok := s.attempt(); ok {
			return v
		}
	}
}

// attempt reads the data and reports whether it was not changed meanwhile
func (s *Seqlock) attempt() (v [1024]byte, ok bool) {
	before := atomic.LoadUint32(&s.seq)
	if before%2 == 1 {
		return v, false
	}
	v = s.data
	return v, before == atomic.LoadUint32(&s.seq)
}
'''))

same("incmap-slot", F(I, "(m *Map) Inc(", '''
func (m *Map) Inc(k uint64, d uint64) bool {
	v := m.value(k, true)
	if v != nil {
		atomic.AddUint64(v, d)
	}
	return v != nil
}

// value returns the counter of a key, or nil
func (m *Map) value(k uint64, add bool) *uint64 {
	if k == 0 {
		return nil
	}
	for i := 0; i <= maxReprobe; i++ {
		x := m.pos(k, i)
		if atomic.LoadUint64(&m.keys[x]) == k {
			return &m.values[x]
		}
		if !add {
			continue
		}
		if atomic.CompareAndSwapUint64(&m.keys[x], 0, k) || atomic.LoadUint64(&m.keys[x]) == k {
			return &m.values[x]
		}
	}
	return nil
}
'''), F(I, "(m *Map) Get(", '''
func (m *Map) Get(k uint64) (uint64, bool) {
	v := m.value(k, false)
	if v == nil {
		return 0, false
	}
	return atomic.LoadUint64(v), true
}
'''))

same("bb-word", F(BB, "(b *BitBucket) extract(", '''
func (b *BitBucket) extract(o int, l uint8) (data uint16, shift uint16, mask uint16, index int) {
	index = o >> 3
	data = b.word(index)
	shift = 16 - uint16(o&7) - uint16(l)
	mask = (1<<l - 1) << shift
	return data, shift, mask, index
}

// word returns the two bytes at index, the second of which may be missing
func (b *BitBucket) word(index int) uint16 {
	hi, lo := b.data[index], byte(0)
	if next := index + 1; next < len(b.data) {
		lo = b.data[next]
	}
	return uint16(hi)<<8 | uint16(lo)
}

// setWord stores the two bytes at index
func (b *BitBucket) setWord(index int, w uint16) {
	b.data[index] = byte(w >> 8)
	if index+1 < len(b.data) {
		b.data[index+1] = byte(w)
	}
}
'''), F(BB, "(b *BitBucket) set(", '''
func (b *BitBucket) set(o int, l uint8, v uint8) {
	if max := b.Max(); v > max {
		v = max
	}
	data, shift, mask, index := b.extract(o, l)
	b.setWord(index, data&^mask|uint16(v)<<shift)
}
'''), F(BB, "(b *BitBucket) incn(", '''
func (b *BitBucket) incn(o int, l uint8, v uint8) {
	data, shift, mask, index := b.extract(o, l)
	sum := (data&mask)>>shift + uint16(v)
	if max := uint16(b.Max()); sum > max {
		sum = max
	}
	b.setWord(index, data&^mask|sum<<shift)
}
'''))

same("bb-header", F(BB, "WithBytes(", '''
func WithBytes(buf []byte) (BitBucket, error) {
	if len(buf) < hdrLen {
		return BitBucket{}, io.ErrShortBuffer
	}
	n, w, err := parseHeader(buf)
	if err != nil {
		return BitBucket{}, err
	}
	rest, need := buf[hdrLen:], length(n, w)
	if len(rest) < need {
		return BitBucket{}, io.ErrShortBuffer
	}
	return BitBucket{data: rest[:need], n: n, w: w}, nil
}

// parseHeader returns the number and width of the buckets that follow a header
func parseHeader(hdr []byte) (n int, w uint8, err error) {
	if hdr[0] != Version {
		return 0, 0, ErrIncompatibleVersion
	}
	w = hdr[1]
	if w > 8 {
		return 0, 0, ErrUnsupportedWidth
	}
	count := binary.LittleEndian.Uint64(hdr[2:hdrLen])
	switch {
	case count > uint64(maxBuckets):
		return 0, 0, ErrUnsupportedCount
	case count > 0 && w == 0:
		return 0, 0, ErrUnsupportedWidth
	}
	return int(count), w, nil
}
'''), F(BB, "(b *BitBucket) ReadFrom(", '''
func (b *BitBucket) ReadFrom(r io.Reader) (total int64, err error) {
	var hdr [hdrLen]byte
	n, err := io.ReadFull(r, hdr[:])
	total = int64(n)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	if err != nil {
		return total, err
	}

	count, width, err := parseHeader(hdr[:])
	if err != nil {
		return total, err
	}

	need := length(count, width)
	data, err := ioutil.ReadAll(io.LimitReader(r, int64(need)))
	total += int64(len(data))
	if err == nil && len(data) < need {
		err = io.ErrUnexpectedEOF
	}
	if err != nil {
		return total, err
	}

	n, err = io.ReadFull(r, hdr[:1])
	total += int64(n)
	switch err {
	case io.EOF:
		*b = BitBucket{data: data, n: count, w: width}
		return total, nil
	case nil:
		return total, io.ErrShortBuffer
	default:
		return total, err
	}
}
'''))

same("bb-writeto-once", F(BB, "(b *BitBucket) WriteTo(", '''
func (b *BitBucket) WriteTo(w io.Writer) (int64, error) {
	var total int64
	for _, part := range [][]byte{b.header(), b.data} {
		n, err := w.Write(part)
		total += int64(n)
		if err != nil {
			return total, err
		}
	}
	return total, nil
}

func (b *BitBucket) header() []byte {
	hdr := make([]byte, hdrLen)
	hdr[0], hdr[1] = Version, b.w
	binary.LittleEndian.PutUint64(hdr[2:], uint64(b.n))
	return hdr
}
'''))

same("bloom-each", F(BL, "(b *Bloom) Add(", '''
func (b *Bloom) Add(v []byte) {
	b.each(v, func(i int) bool {
		b.bits.Set(i, 1)
		return true
	})
}

// each calls fn with the bits that stand for v until it returns false
func (b *Bloom) each(v []byte, fn func(i int) bool) bool {
	h := newHasher(v, b.m)
	for n := b.k; n > 0; n-- {
		if !fn(int(h.next())) {
			return false
		}
	}
	return true
}
'''), F(BL, "(b *Bloom) Has(", '''
func (b *Bloom) Has(v []byte) bool {
	return b.each(v, func(i int) bool { return b.bits.Get(i) == 1 })
}
'''))

same("bloom-hasher", F(BL, "newHasher(", '''
func newHasher(data []byte, m int) hasher {
	// an odd step visits every bit if m is a power of two
	return hasher{
		a: fnv.Sum64(data),
		b: fnv.Sum64a(data) | 1,
		m: m,
	}
}
'''), F(BL, "(h *hasher) next(", '''
func (h *hasher) next() uint64 {
	m := uint64(h.m)
	x := h.a % m
	h.a = (h.a + h.b) % m
	return x
}
'''))

same("bloom-decode", F(BL, "WithBytes(", '''
func WithBytes(buf []byte) (b Bloom, err error) {
	if len(buf) < hdrLen {
		return b, io.ErrShortBuffer
	}
	if buf[0] != Version {
		return b, ErrIncompatibleVersion
	}
	bits, err := bitbucket.WithBytes(buf[hdrLen:])
	if err != nil {
		return b, err
	}
	if !validBits(&bits) {
		return b, ErrInvalidBits
	}
	b.use(bits, buf[1])
	return b, nil
}

func (b *Bloom) use(bits bitbucket.BitBucket, k uint8) {
	b.bits, b.k = bits, k
	b.m = bits.Count()
}
'''), P(BL, "(b *Bloom) ReadFrom(", ('''	b.k = k
	b.bits = bits
	b.m = bits.Count()
''', '''	b.use(bits, k)
''')))

same("hll-rank", F(H, "(c *Counter) Add(", '''
func (c *Counter) Add(v []byte) {
	idx, rho := c.locate(fnv.Sum64(v))
	if cur := c.bits.Get(idx); cur < rho {
		c.bits.Set(idx, rho)
	}
}

// locate splits a hash in the index of a register and a rank
func (c *Counter) locate(h uint64) (idx int, rho uint8) {
	idx = int(h >> (64 - c.p))
	h <<= c.p
	for rho = 1; rho <= 64-c.p; rho++ {
		if h&(1<<63) != 0 {
			break
		}
		h <<= 1
	}
	return idx, rho
}
'''))

same("hll-count-split", F(H, "(c *Counter) Count(", '''
func (c *Counter) Count() int64 {
	m := float64(c.registers())
	if v := c.bits.CountN(0); v > 0 {
		est := math.Ceil(m * math.Log(m/float64(v)))
		if est <= c.threshold {
			return int64(est)
		}
	}
	z := c.harmonic(c.registers())
	if z >= c.alpha*m/7.0 {
		z = c.poisson()
	}
	return c.normalize(z)
}

func (c *Counter) registers() int { return 1 << uint(c.p) }

func (c *Counter) normalize(z float64) int64 {
	m := float64(c.registers())
	return int64(math.Ceil(c.alpha * m * m / z))
}
'''))

same("hll-alpha-switch", F(H, "(c *Counter) initParams(", '''
func (c *Counter) initParams() {
	c.mask = ^uint64(0) << (64 - c.p)
	c.threshold = thresholds[c.p]
	switch m := 1 << uint(c.p); {
	case m <= 16:
		c.alpha = 0.673
	case m <= 32:
		c.alpha = 0.697
	case m <= 64:
		c.alpha = 0.709
	case m <= 256:
		c.alpha = 0.7213 / (1 + 1.079/float64(m))
	default:
		c.alpha = 0.7213475
	}
}
'''))

same("stat-accessors", F(X, "(s Summary) Update(", '''
func (s Summary) Update(v float64) {
	n := s.Count() + 1
	mean := s.Mean()
	delta := v - mean
	mean += delta / float64(n)
	s.setFloat(24, s.float(24)+delta*(v-mean))
	s.setFloat(16, mean)
	s.setFloat(8, s.Sum()+v)
	binary.LittleEndian.PutUint64(s, n)
}

func (s Summary) float(at int) float64 {
	return math.Float64frombits(binary.LittleEndian.Uint64(s[at : at+8]))
}

func (s Summary) setFloat(at int, v float64) {
	binary.LittleEndian.PutUint64(s[at:at+8], math.Float64bits(v))
}
'''), F(X, "(s Summary) UpdateMulti(", '''
func (s Summary) UpdateMulti(vs []float64) {
	for i := range vs {
		s.Update(vs[i])
	}
}
'''))

same("measure-writer-shared", F(M, "(Count) ContWriter(", '''
func (Count) ContWriter() ContWriterFunc { return updateStat }

// updateStat adds an observation to a stat64 summary
func updateStat(buf []byte, init bool, v float64) error {
	stat64.WithBytes(buf).Update(v)
	return nil
}
'''), F(M, "(Sum) ContWriter(", '''
func (Sum) ContWriter() ContWriterFunc { return updateStat }
'''), F(M, "(Mean) ContWriter(", '''
func (Mean) ContWriter() ContWriterFunc { return updateStat }
'''), F(M, "(Variance) ContWriter(", '''
func (Variance) ContWriter() ContWriterFunc { return ContWriterFunc(updateStat) }
'''), F(M, "(Mean) ContReader(", '''
func (Mean) ContReader() ContReaderFunc { return readStat(stat64.Summary.Mean) }

// readStat reads a number of a summary
func readStat(fn func(stat64.Summary) float64) ContReaderFunc {
	return func(buf []byte) (float64, error) {
		return fn(stat64.WithBytes(buf)), nil
	}
}
'''), F(M, "(Variance) ContReader(", '''
func (Variance) ContReader() ContReaderFunc { return readStat(stat64.Summary.Variance) }
'''))

same("measure-extremes", F(M, "(m Max) ContWriter(", '''
func (m Max) ContWriter() ContWriterFunc {
	return extremeWriter(m, func(v, c float64) bool { return v > c })
}

// extremeWriter keeps the value that is better than all others
func extremeWriter(start Initializer, better func(v, c float64) bool) ContWriterFunc {
	return func(buf []byte, init bool, v float64) error {
		if init {
			if err := start.Init(buf); err != nil {
				return err
			}
		}
		if better(v, getFloat(buf)) {
			putFloat(buf, v)
		}
		return nil
	}
}

func getFloat(buf []byte) float64 {
	return math.Float64frombits(binary.LittleEndian.Uint64(buf))
}

func putFloat(buf []byte, v float64) {
	binary.LittleEndian.PutUint64(buf, math.Float64bits(v))
}
'''), F(M, "(m Min) ContWriter(", '''
func (m Min) ContWriter() ContWriterFunc {
	return extremeWriter(m, func(v, c float64) bool { return v < c })
}
'''), F(M, "(Max) Init(", '''
func (Max) Init(buf []byte) error {
	putFloat(buf, math.Inf(-1))
	return nil
}
'''))

same("cardinality-open", F(M, "(c Cardinality) DiscWriter(", '''
func (c Cardinality) DiscWriter() DiscWriterFunc {
	return func(buf []byte, init bool, v []byte) error {
		s, err := c.open(buf, init)
		if err == nil {
			s.Add(v)
		}
		return err
	}
}

func (c Cardinality) open(buf []byte, init bool) (*hll.Counter, error) {
	if init {
		if err := c.Init(buf); err != nil {
			return nil, err
		}
	}
	s, err := hll.WithBytes(buf)
	if err != nil {
		return nil, err
	}
	return &s, nil
}
'''), F(M, "(c Cardinality) ContReader(", '''
func (c Cardinality) ContReader() ContReaderFunc {
	return func(buf []byte) (float64, error) {
		s, err := c.open(buf, false)
		if err != nil {
			return 0, err
		}
		return float64(s.Count()), nil
	}
}
'''))

same("server-respond", P(V, "(s *Server) queryCollation(", ('''	for _, store := range s.Stores {
		if store.Collator.Name() == cname {
			res, err := store.Read(ctx, q)
			if err != nil {
				http.Error(w, err.Error(), http.StatusInternalServerError)
				return
			}

			for _, c := range q.Criteria {
				w.Write(c.F)
				w.Write([]byte{'='})
				w.Write(c.V)
				w.Write([]byte{'\\n'})
			}

			for _, f := range res.FieldMeasureValues {
				w.Write([]byte(f.String()))
				w.Write([]byte{'\\n'})
			}
			return
		}
	}

	http.NotFound(w, req)
}
''', '''	store := s.store(cname)
	if store == nil {
		http.NotFound(w, req)
		return
	}
	res, err := store.Read(ctx, q)
	if err != nil {
		http.Error(w, err.Error(), http.StatusInternalServerError)
		return
	}
	writeResult(w, q.Criteria, res.FieldMeasureValues)
}

// store finds a store by the name of its collation
func (s *Server) store(name string) *storage.Store {
	for i := range s.Stores {
		if st := &s.Stores[i]; st.Collator.Name() == name {
			return st
		}
	}
	return nil
}

func writeResult(w io.Writer, criteria collation.FVList, values []collation.FMV) {
	for _, c := range criteria {
		fmt.Fprintf(w, "%s=%s\\n", c.F, c.V)
	}
	for _, v := range values {
		fmt.Fprintln(w, v.String())
	}
}
''')))

same("server-payload", P(V, "(s *Server) recvObservation(", ('''	ct, err := contentType(req)
	if err != nil {
		http.Error(w, err.Error(), http.StatusBadRequest)
		return
	}

	var r io.Reader
	switch ct {
	case "application/x-www-form-urlencoded":
		if err := req.ParseForm(); err != nil {
			http.Error(w, err.Error(), http.StatusBadRequest)
			return
		}
		data := req.FormValue("data")
		if data == "" {
			http.Error(w, "no data supplied", http.StatusBadRequest)
			return
		}
		r = strings.NewReader(data)
	case "text/plain", "application/octet-stream":
		r = req.Body
		defer req.Body.Close()
	default:
		http.Error(w, "unknown media type", http.StatusUnsupportedMediaType)
		return
	}
''', '''	r, status, err := payload(req)
	if err != nil {
		http.Error(w, err.Error(), status)
		return
	}
	defer req.Body.Close()
''')), F(V, "contentType(", '''
func contentType(req *http.Request) (string, error) {
	ct := req.Header.Get("Content-Type")
	if ct == "" {
		return "application/octet-stream", nil
	}
	mt, _, err := mime.ParseMediaType(ct)
	return mt, err
}

// payload returns the observations of a request, or the status and reason for refusing it.
func payload(req *http.Request) (io.Reader, int, error) {
	ct, err := contentType(req)
	if err != nil {
		return nil, http.StatusBadRequest, err
	}
	switch ct {
	case "application/x-www-form-urlencoded":
		if err := req.ParseForm(); err != nil {
			return nil, http.StatusBadRequest, err
		}
		data := req.FormValue("data")
		if data == "" {
			return nil, http.StatusBadRequest, fmt.Errorf("no data supplied")
		}
		return strings.NewReader(data), 0, nil
	case "text/plain", "application/octet-stream":
		return req.Body, 0, nil
	}
	return nil, http.StatusUnsupportedMediaType, fmt.Errorf("unknown media type")
}
'''))

same("server-dispatch", P(V, "(s *Server) recvObservation(", ('''		row, err := parseRow(sc.Bytes())
		if err != nil {
			http.Error(w, err.Error(), http.StatusInternalServerError)
			return
		}

		row.ReceiveTime = now
		for _, st := range s.Stores {
			if err := st.Write(ctx, row); err != nil {
				http.Error(w, err.Error(), http.StatusInternalServerError)
				return
			}
		}
	}
''', '''		if err := s.observe(ctx, sc.Bytes(), now); err != nil {
			http.Error(w, err.Error(), http.StatusInternalServerError)
			return
		}
	}
'''), ('''	if sc.Err() != nil {
		http.Error(w, sc.Err().Error(), http.StatusInternalServerError)
		return
	}
''', '''	if err := sc.Err(); err != nil {
		http.Error(w, err.Error(), http.StatusInternalServerError)
	}
''')), F(V, "parseFV(", '''
func parseFV(data []byte) collation.FV {
	fv := collation.FV{F: data, V: []byte{}}
	if eq := bytes.IndexByte(data, '='); eq >= 0 {
		fv.F, fv.V = data[:eq], data[eq+1:]
	}
	return fv
}

// observe sends an observation to all stores
func (s *Server) observe(ctx context.Context, line []byte, now time.Time) error {
	row, err := parseRow(line)
	if err != nil {
		return err
	}
	row.ReceiveTime = now
	for i := 0; i < len(s.Stores); i++ {
		err = s.Stores[i].Write(ctx, row)
		if err != nil {
			break
		}
	}
	return err
}
'''))

same("server-mux-methods", F(V, "(s *Server) registerHandlers(", '''
func (s *Server) registerHandlers() error {
	mux := http.NewServeMux()
	mux.HandleFunc("/obs", s.handleObs)
	mux.Handle("/collation/", http.StripPrefix("/collation/", http.HandlerFunc(s.handleCollation)))
	s.mux = mux
	return nil
}

func (s *Server) handleObs(w http.ResponseWriter, req *http.Request) {
	if req.Method != http.MethodPost {
		http.Error(w, "method not allowed", http.StatusMethodNotAllowed)
		return
	}
	s.recvObservation(req.Context(), w, req)
}

func (s *Server) handleCollation(w http.ResponseWriter, req *http.Request) {
	name := req.URL.Path
	switch {
	case name == "", strings.IndexByte(name, '/') >= 0:
		http.NotFound(w, req)
	case req.Method == http.MethodPost || req.Method == http.MethodGet:
		s.queryCollation(req.Context(), name, w, req)
	default:
		http.Error(w, "method not allowed", http.StatusMethodNotAllowed)
	}
}
'''))

same("server-parse-split", P(V, "parseRow(", ('''	for {
		offset := bytes.IndexByte(data[p:], delim)
		if offset == -1 {
			row.Data = append(row.Data, parseFV(data[p:]))
			break
		}

		row.Data = append(row.Data, parseFV(data[p:p+offset]))
		p += offset + 1
	}

	return row, nil
''', '''	for _, part := range bytes.Split(data[p:], []byte{delim}) {
		row.Data = append(row.Data, parseFV(part))
	}
	return row, nil
''')))

same("server-wait", F(V, "(s *Server) waitSignal(", '''
func (s *Server) waitSignal(ch <-chan os.Signal, errs <-chan error) error {
	select {
	case err := <-errs:
		return fmt.Errorf("fatal error serving on %s: %v", s.Addr, err)
	case <-ch:
		return nil
	}
}
'''))

same("compile-helpers", P(C, "(s *Schema) Compile(", ('''	for i := range s.Keys {
		coll.keys[i] = []byte(s.Keys[i].Field.Pattern)
	}
''', '''	for i, k := range s.Keys {
		coll.keys[i] = k.pattern()
	}
'''), ('''		size := m.Size()
		addInit(m, pos, pos+size)
		coll.writers = append(coll.writers, anyWriter{
			Low:  pos,
			High: pos + size,
			Fn:   m.RowWriter(),
		})

		if cm, ok := m.(ContinuousOutput); ok {
			crs, found := coll.contReaders[RowPseudoField]
			if !found {
				crs = make(map[string]contReader)
			}
			crs[m.Name()] = contReader{
				Low:  pos,
				High: pos + size,
				Fn:   cm.ContReader(),
			}
			coll.contReaders[RowPseudoField] = crs
		}
''', '''		size := m.Size()
		end := pos + size
		addInit(m, pos, end)
		coll.writers = append(coll.writers, anyWriter{pos, end, m.RowWriter()})

		if cm, ok := m.(ContinuousOutput); ok {
			coll.addContReader(RowPseudoField, m.Name(), contReader{pos, end, cm.ContReader()})
		}
''')), F(L, "(c Collator) Keys(", '''
func (c Collator) Keys() [][]byte {
	return c.keys
}

func (k KeySpec) pattern() []byte { return []byte(k.Field.Pattern) }

func (c *Collator) addContReader(field, measure string, r contReader) {
	readers := c.contReaders[field]
	if readers == nil {
		readers = map[string]contReader{}
		c.contReaders[field] = readers
	}
	readers[measure] = r
}
'''))

same("query-collect", F(Q, "RoughParse(", '''
func RoughParse(in string) (q collation.Query, err error) {
	m := queryRe.FindStringSubmatch(in)
	if m == nil {
		err = fmt.Errorf("query: syntax error; expected query to have format 'select xxx where yyy'")
		return
	}
	index := make(map[string]int)
	for _, sel := range selectRe.FindAllStringSubmatch(m[1], -1) {
		field := sel[2]
		if _, seen := index[field]; !seen {
			index[field] = len(q.FieldMeasures)
			q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(field)})
		}
		fm := &q.FieldMeasures[index[field]]
		fm.M = append(fm.M, []byte(sel[1]))
	}
	for _, w := range whereRe.FindAllStringSubmatch(m[2], -1) {
		fv := collation.FV{}
		fv.F, fv.V = []byte(w[1]), []byte(w[2])
		q.Criteria = append(q.Criteria, fv)
	}
	return
}
'''))

same("fnv-words", F(N, "(s *Fnv64) Write(", '''
func (s *Fnv64) Write(data []byte) (int, error) {
	h := uint64(*s)
	for i := 0; i < len(data); i++ {
		h = step(h, data[i])
	}
	*s = Fnv64(h)
	return len(data), nil
}

func step(h uint64, c byte) uint64 {
	return h*prime64 ^ uint64(c)
}
'''))

same("stats-see", F(A, "Meanvar(", '''
func Meanvar(vals []float64) (mean, variance float64) {
	n := float64(len(vals))
	switch len(vals) {
	case 0:
		return math.NaN(), math.NaN()
	case 1:
		return vals[0], math.NaN()
	}
	mean = Sum(vals) / n
	return mean, squares(vals, mean) / (n - 1)
}

// squares sums the squares of the distances from e
func squares(vals []float64, e float64) (sum float64) {
	for _, v := range vals {
		d := v - e
		sum += d * d
	}
	return
}
'''), F(A, "See(", '''
func See(vals []float64, e float64) float64 {
	return math.Sqrt(squares(vals, e) / float64(len(vals)-2))
}
'''))

same("demo-table", F(D, "setupDemo(", '''
func setupDemo(s *server.Server) error {
	schemas := []collation.Schema{
		demoSchema("country",
			fieldMeasures("height", collation.Mean{}, collation.Sum{}, collation.Variance{}, collation.Max{}, collation.Min{}),
			fieldMeasures("iata", collation.Cardinality{Precision: 10})),
		demoSchema("tz",
			fieldMeasures("country", collation.Cardinality{Precision: 8}),
			fieldMeasures("height", collation.Cardinality{Precision: 8})),
	}
	for _, sch := range schemas {
		if err := addDemoCollation(s, sch); err != nil {
			return err
		}
	}
	return nil
}

func demoSchema(name string, measures ...collation.MeasureSpec) collation.Schema {
	return collation.Schema{
		Name:           name,
		Keys:           []collation.KeySpec{{Field: collation.FieldSpec{Pattern: name}}},
		RecordMeasures: []collation.RowMeasure{collation.Count{}},
		Measures:       measures,
	}
}

func fieldMeasures(field string, ms ...collation.Measure) collation.MeasureSpec {
	return collation.MeasureSpec{Field: collation.FieldSpec{Pattern: field}, Measures: ms}
}
'''))
