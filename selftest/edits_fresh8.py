# Small refactorings of nearby code.
from edits_fresh2 import F, P, src
EDITS = []
BB = "internal/bitbucket/bitbucket.go"
BL = "internal/summary/bloom/bloom.go"
H = "internal/summary/hll/hll.go"
X = "internal/summary/stat64/stats.go"
N = "internal/hash/fnv/fnv.go"
V = "internal/server/server.go"
L = "internal/collation/schema.go"
C = "internal/collation/compile.go"
M = "internal/collation/measure.go"
Z = "internal/storage/storage.go"
B = "internal/bufmap/bufmap.go"
I = "internal/incmap/incmap.go"
S = "internal/seqlock/seqlock.go"
Q = "internal/query/rough.go"
D = "demo.go"
W = "starbow.go"
def same(name, *eds): EDITS.append(dict(name="fresh8-" + name, kind="same", props=[], edits=list(eds)))

same("get-goto", P(B, "(m *Map) Get(", ('''	for {
		seq1 := atomic.LoadUint32(&s.seq)
		// Is a writer currently writing?
		if seq1%2 != 0 {
			continue
		}

		// Get a copy of the data
		copy(buf, m.values[x*m.s:(x+1)*m.s])

		// Check that the data was not updated during the copy
		seq2 := atomic.LoadUint32(&s.seq)

		if seq1 == seq2 {
			// No update was made
			break
		}
	}

	return true
''', '''	data := m.values[x*m.s : (x+1)*m.s]
	for stable := false; !stable; {
		before := atomic.LoadUint32(&s.seq)
		if before%2 == 0 {
			copy(buf, data)
			stable = atomic.LoadUint32(&s.seq) == before
		}
	}
	return true
''')))
same("get-version", P(S, "(s *Seqlock) Get(", ('''		seq1 := atomic.LoadUint32(&s.seq)
		// Is a writer currently writing?
		if seq1%2 != 0 {
			continue
		}

		// Get a copy of the data
		copy(ret[:], s.data[:])

		// Check that the data was not updated during the copy
		seq2 := atomic.LoadUint32(&s.seq)

		if seq1 == seq2 {
			// No update was made
			return
		}
''', '''		if seq1 := atomic.LoadUint32(&s.seq); seq1&1 == 0 {
			ret = s.data
			if atomic.LoadUint32(&s.seq) == seq1 {
				return ret
			}
		}
''')))
same("incmap-get-find", F(I, "(m *Map) Get(", '''
func (m *Map) Get(k uint64) (v uint64, found bool) {
	if x := m.find(k); x >= 0 {
		v, found = atomic.LoadUint64(&m.values[x]), true
	}
	return
}

// find returns the slot of a key, or -1
func (m *Map) find(k uint64) int {
	if k != 0 {
		for i := 0; i <= maxReprobe; i++ {
			if x := m.pos(k, i); atomic.LoadUint64(&m.keys[x]) == k {
				return x
			}
		}
	}
	return -1
}
'''))
same("pos-steps", F(I, "(m *Map) pos(", '''
func (m *Map) pos(k uint64, i int) int {
	l := uint64(m.l)
	home := k % l
	return int((home + uint64(i)) % l)
}
'''))
same("pos-order", F(B, "(m *Map) pos(", '''
func (m *Map) pos(k uint64, i int) int {
	n := uint64(m.l)
	p := k%n + uint64(i)
	return int(p % n)
}
'''))
same("update-order", P(B, "(m *Map) Update(", ('''	// The data needs initialising until an update has succeeded
	init := atomic.LoadUint32(&s.live) == 0

	// Work on a copy so that an update that fails leaves the data untouched
	data := m.values[x*m.s : (x+1)*m.s]
	buf := make([]byte, m.s)
	copy(buf, data)
	if err := fn(buf, init); err != nil {
		return err
	}
''', '''	// Work on a copy so that an update that fails leaves the data untouched
	low, high := x*m.s, x*m.s+m.s
	data := m.values[low:high:high]
	buf := append(make([]byte, 0, m.s), data...)

	// The data needs initialising until an update has succeeded
	init := atomic.LoadUint32(&s.live) == 0
	err := fn(buf, init)
	if err != nil {
		return err
	}
''')))
same("update-window", P(B, "(m *Map) Update(", ('''	// Notify readers that we are writing
	atomic.AddUint32(&s.seq, 1)

	copy(data, buf)
	if init {
		atomic.StoreUint32(&s.live, 1)
	}

	// Notify readers that we are done
	atomic.AddUint32(&s.seq, 1)

	return nil
''', '''	// Readers wait while we are writing
	seq := atomic.LoadUint32(&s.seq)
	atomic.StoreUint32(&s.seq, seq+1)
	copy(data, buf)
	atomic.StoreUint32(&s.live, 1)
	atomic.StoreUint32(&s.seq, seq+2)
	return nil
''')))
same("keyvalue-inner", F(L, "(fv FVList) KeyValue(", '''
func (fv FVList) KeyValue(keys [][]byte) (uint64, bool) {
	h := fnv.New64()
	for _, key := range keys {
		found := false
		for _, f := range fv {
			if found = bytes.Equal(f.F, key); found {
				h.Write(key)
				h.Write(f.V)
				break
			}
		}
		if !found {
			return 0, false
		}
	}
	return h.Sum64(), true
}
'''))
same("keyvalue-get", F(L, "(fv FVList) KeyValue(", '''
func (fv FVList) KeyValue(keys [][]byte) (uint64, bool) {
	h := fnv.New64()
	for i := range keys {
		j := fv.index(keys[i])
		if j == -1 {
			return 0, false
		}
		h.Write(fv[j].F)
		h.Write(fv[j].V)
	}
	return h.Sum64(), true
}

// index is the position of the first field with a name, or -1
func (fv FVList) index(name []byte) int {
	for j := range fv {
		if bytes.Equal(fv[j].F, name) {
			return j
		}
	}
	return -1
}
'''))
same("string-parts", F(L, "(f FMV) String(", '''
func (f FMV) String() string {
	return string(f.M) + "(" + string(f.F) + ")=" + fmt.Sprint(f.V)
}
'''))
same("update-continue", P(L, "(c Collator) Update(", ('''		if ws, exists := c.discWriters[string(fv.F)]; exists {
			for _, w := range ws {
				if err := w.UpdateItem(buf, init, fv.V); err != nil {
					return err
				}
			}
		}
''', '''		ws, exists := c.discWriters[string(fv.F)]
		if !exists {
			continue
		}
		for i := 0; i < len(ws); i++ {
			err := ws[i].UpdateItem(buf, init, fv.V)
			if err != nil {
				return err
			}
		}
''')))
same("bits-extract-wide", F(BB, "(b *BitBucket) extract(", '''
func (b *BitBucket) extract(o int, l uint8) (data uint16, shift uint16, mask uint16, index int) {
	index = o >> 3         // which byte in the slice
	offset := uint8(o & 7) // which bit in the byte

	hi, lo := b.data[index], byte(0)
	if index+1 < len(b.data) {
		lo = b.data[index+1]
	}
	data = uint16(hi)<<8 | uint16(lo)

	shift = 16 - uint16(offset) - uint16(l)
	mask = (1<<l - 1) << shift
	return data, shift, mask, index
}
'''))
same("bits-incn-sat", F(BB, "(b *BitBucket) IncN(", '''
func (b *BitBucket) IncN(i int, v uint8) {
	if max := b.Max(); v > max {
		v = max
	}
	b.incn(i*int(b.w), b.w, v)
}
'''))
same("bits-setinc", P(BB, "(b *BitBucket) incn(", ('''	// Cap the value
	value += uint16(v)
	if value > max {
		value = max
	}
''', '''	// Cap the value
	if room := max - value; uint16(v) < room {
		value += uint16(v)
	} else {
		value = max
	}
''')))
same("hll-init-table", F(H, "(c *Counter) initParams(", '''
func (c *Counter) initParams() {
	m := uint64(1) << c.p
	c.mask = (m - 1) << (64 - c.p)
	c.threshold = thresholds[c.p]
	switch {
	case m <= 16:
		c.alpha = 0.673
	case m <= 32:
		c.alpha = 0.697
	case m <= 64:
		c.alpha = 0.709
	case m <= 256:
		c.alpha = 0.7213 / (1 + 1.079/float64(m))
	default:
		c.alpha = 0.7213475 // 1/(2log2)
	}
}
'''))
same("hll-histogram", P(H, "(c *Counter) poisson(", ('''	var cn [64]int

	m := int(uint(1) << uint(c.p))
	q := 64 - int(c.p)
	for i := 0; i < m; i++ {
		reg := c.bits.Get(i)
		cn[int(reg)]++
	}
''', '''	m := int(uint(1) << uint(c.p))
	q := 64 - int(c.p)
	cn := c.histogram(m)
''')), (H, "func (c *Counter) PoissonCount(", '''// histogram counts the registers with each value
func (c *Counter) histogram(m int) (cn [64]int) {
	for i := 0; i < m; i++ {
		cn[c.bits.Get(i)]++
	}
	return cn
}

func (c *Counter) PoissonCount('''))
same("hll-write-all", F(H, "(c *Counter) WriteTo(", '''
func (c *Counter) WriteTo(w io.Writer) (int64, error) {
	n, err := w.Write([]byte{Version, c.p})
	if err != nil {
		return int64(n), err
	}
	n0, err := c.bits.WriteTo(w)
	return int64(n) + n0, err
}
'''))
same("bloom-hash-loop", F(BL, "(b *Bloom) Has(", '''
func (b *Bloom) Has(v []byte) bool {
	h := newHasher(v, b.m)
	found := true
	for n := b.k; found && n > 0; n-- {
		found = b.bits.Get(int(h.next())) == 1
	}
	return found
}
'''))
same("bloom-odd", P(BL, "newHasher(", ('''	// b should be non-zero and relatively prime to m
	if m&1 == 0 {
		// m is even, so ensure b is odd
		if b&1 == 0 {
			b++
		}
	} else {
		// m is not even; make it so
		if m > 2 {
			m--
		}
		// Ensure b is not even too
		if b&1 == 0 {
			b++
		}
	}
''', '''	// b should be non-zero and relatively prime to m, so make m even and b odd
	if m%2 == 1 && m > 2 {
		m--
	}
	b |= 1
''')))
same("bloom-sums", P(BL, "newHasher(", ('''	h1 := fnv.New64()
	h1.Write(data)
	a := h1.Sum64()

	h2 := fnv.New64a()
	h2.Write(data)
	b := h2.Sum64()
''', '''	a, b := fnv.Sum64(data), fnv.Sum64a(data)
''')))
same("stat-offsets", F(X, "(s Summary) Variance(", '''
func (s Summary) Variance() float64 {
	if n := s.Count(); n > 1 {
		ss := binary.LittleEndian.Uint64(s[24:])
		return math.Float64frombits(ss) / float64(n-1)
	}
	return math.NaN()
}
'''))
same("stat-reset-loop", F(X, "Reset(", '''
func Reset(buf []byte) error {
	return Summary(buf).Reset()
}
'''), F(X, "(s Summary) Reset(", '''
func (s Summary) Reset() error {
	for i := 0; i < len(s) && i < size; i++ {
		s[i] = 0
	}
	return nil
}
'''), (X, 'var zeroStats64 = bytes.Repeat([]byte{0}, size)\n', ''), (X, '	"bytes"\n', ''))
same("fv-cut", F(V, "parseFV(", '''
func parseFV(data []byte) collation.FV {
	fv := collation.FV{F: data, V: []byte{}}
	for i, b := range data {
		if b == '=' {
			fv.F, fv.V = data[:i], data[i+1:]
			break
		}
	}
	return fv
}
'''))
same("fv-splitn", F(V, "parseFV(", '''
func parseFV(data []byte) collation.FV {
	parts := bytes.SplitN(data, []byte("="), 2)
	if len(parts) == 1 {
		return collation.FV{F: data, V: []byte{}}
	}
	return collation.FV{F: parts[0], V: parts[1]}
}
'''))
same("ctype-early", F(V, "contentType(", '''
func contentType(req *http.Request) (string, error) {
	if ct := req.Header.Get("Content-Type"); ct != "" {
		mt, _, err := mime.ParseMediaType(ct)
		return mt, err
	}
	return "application/octet-stream", nil
}
'''))
same("row-unix", P(V, "parseRow(", ("	row.DataTime = time.Unix(ts/1000000, ts%1000000*1000)\n", "	sec, usec := ts/1e6, ts%1e6\n	row.DataTime = time.Unix(sec, usec*1e3)\n")))
same("row-delim", P(V, "parseRow(", ('''	// First byte after the timestamp is the delimiter for the rest of the row
	var delim = byte('\\t')
	delim = data[p]
	p++

	for {
		offset := bytes.IndexByte(data[p:], delim)
		if offset == -1 {
			row.Data = append(row.Data, parseFV(data[p:]))
			break
		}

		row.Data = append(row.Data, parseFV(data[p:p+offset]))
		p += offset + 1
	}

	return row, nil
''', '''	// First byte after the timestamp is the delimiter for the rest of the row
	delim, rest := data[p:p+1], data[p+1:]
	for _, field := range bytes.Split(rest, delim) {
		row.Data = append(row.Data, parseFV(field))
	}
	return row, nil
''')))
same("method-switch", P(V, "(s *Server) registerHandlers(", ('''		if req.Method == http.MethodPost {
			baseCtx := req.Context()
			s.recvObservation(baseCtx, w, req)
			return
		}
		http.Error(w, "method not allowed", http.StatusMethodNotAllowed)
''', '''		switch req.Method {
		case "POST":
			s.recvObservation(req.Context(), w, req)
		default:
			http.Error(w, "method not allowed", http.StatusMethodNotAllowed)
		}
''')))
same("serve-cleanup", P(V, "(s *Server) Serve(", ('''	errs := make(chan error, 1)
	go func() {
		errs <- hs.Serve(listener)
	}()

	return s.waitSignal(ch, errs)
''', '''	return s.waitSignal(ch, start(hs, listener))
''')), (V, "// waitSignal", '''// start serves in the background. What ends it is sent.
func start(hs *http.Server, l net.Listener) <-chan error {
	done := make(chan error, 1)
	go func() { done <- hs.Serve(l) }()
	return done
}

// waitSignal'''))
same("query-write-one", P(V, "(s *Server) queryCollation(", ('''				w.Write(c.F)
				w.Write([]byte{'='})
				w.Write(c.V)
				w.Write([]byte{'\\n'})
''', '''				line := append([]byte{}, c.F...)
				line = append(line, '=')
				line = append(line, c.V...)
				w.Write(append(line, '\\n'))
''')))
same("compile-init-if", P(C, "(s *Schema) Compile(", ('''		if im, ok := m.(Initializer); ok {
			coll.inits = append(coll.inits, initializer{
				Low:  low,
				High: high,
				Fn:   im.Init,
			})
		}
''', '''		im, ok := m.(Initializer)
		if !ok {
			return
		}
		coll.inits = append(coll.inits, initializer{low, high, im.Init})
''')))
same("compile-keys", P(C, "(s *Schema) Compile(", ("		keys:        make([][]byte, len(s.Keys)),\n", ""), ("	for i := range s.Keys {\n		coll.keys[i] = []byte(s.Keys[i].Field.Pattern)\n	}\n", "	for _, key := range s.Keys {\n		coll.keys = append(coll.keys, []byte(key.Field.Pattern))\n	}\n")))
same("validate-switch", F(C, "validateMeasure(", '''
func validateMeasure(m Measure) error {
	switch m.(type) {
	case ContinuousInput, DiscreteInput:
	default:
		return fmt.Errorf("measure %q cannot measure a field", m.Name())
	}

	c, ok := m.(Cardinality)
	if !ok {
		return nil
	}
	if c.Precision >= 4 && c.Precision <= 18 {
		return nil
	}
	return fmt.Errorf("measure %q: precision %d is not in the range [4,18]", m.Name(), c.Precision)
}
'''))
same("card-init-copy", F(M, "(c Cardinality) Init(", '''
func (c Cardinality) Init(buf []byte) error {
	var b bytes.Buffer
	s := hll.New(uint8(c.Precision))
	if _, err := s.WriteTo(&b); err != nil {
		return err
	}
	copy(buf, b.Bytes())
	return nil
}
'''))
same("count-inc", F(M, "(Count) RowWriter(", '''
func (Count) RowWriter() RowWriterFunc {
	return func(buf []byte, _ bool) error {
		n := buf[:8]
		binary.LittleEndian.PutUint64(n, binary.LittleEndian.Uint64(n)+1)
		return nil
	}
}
'''))
