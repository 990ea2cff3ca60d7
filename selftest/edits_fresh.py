"""Refactorings (and bugs) of whole functions."""
import re
EDITS = []
SRC = {}
def src(f):
    if f not in SRC:
        SRC[f] = open("/repo/" + f).read()
    return SRC[f]
def F(f, sig, new):
    """replace the function whose declaration starts with sig"""
    s = src(f)
    i = s.index("func " + sig)
    j = s.index("\n}\n", i) + 3
    return (f, s[i:j], new.strip("\n") + "\n")
def e(name, kind, props, *eds, **kw):
    EDITS.append(dict(name="fresh-" + name, kind=kind, props=props, edits=list(eds), **kw))

B = "internal/bufmap/bufmap.go"
I = "internal/incmap/incmap.go"
L = "internal/seqlock/seqlock.go"
T = "internal/storage/storage.go"
K = "internal/collation/compile.go"
S = "internal/collation/schema.go"
M = "internal/collation/measure.go"
Q = "internal/query/rough.go"
BB = "internal/bitbucket/bitbucket.go"
BL = "internal/summary/bloom/bloom.go"
H = "internal/summary/hll/hll.go"
X = "internal/summary/stat64/stats.go"
N = "internal/hash/fnv/fnv.go"
V = "internal/server/server.go"

# ---------------------------------------------------------------- bufmap
GET = '''
func (m *Map) Get(k uint64, buf []byte) bool {
	if k == 0 {
		return false
	}
	x, ok := m.find(k)
	if !ok {
		return false
	}
	s := &m.keys[x]
	if atomic.LoadUint32(&s.live) == 0 {
		return false
	}
	s.read(buf, m.record(x))
	return true
}

// record is the data of slot x
func (m *Map) record(x int) []byte {
	lo := x * m.s
	return m.values[lo : lo+m.s : lo+m.s]
}

// find locates the slot holding k
func (m *Map) find(k uint64) (int, bool) {
	for i := 0; i <= maxReprobe; i++ {
		x := m.pos(k, i)
		if atomic.LoadUint64(&m.keys[x].key) == k {
			return x, true
		}
	}
	return 0, false
}

// read copies src into dst, retrying for as long as a writer interferes
func (s *slot) read(dst, src []byte) {
	for {
		before := atomic.LoadUint32(&s.seq)
		if before&1 == 1 {
			continue
		}
		copy(dst, src)
		if after := atomic.LoadUint32(&s.seq); after == before {
			return
		}
	}
}
'''
UPD = '''
func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
	if k == 0 {
		return ErrInvalidKey
	}
	x, ok := m.claim(k)
	if !ok {
		return ErrOutOfSlots
	}
	return m.keys[x].update(m.record(x), fn)
}

// claim finds the slot of k, taking an empty one if there is none
func (m *Map) claim(k uint64) (int, bool) {
	for i := 0; i <= maxReprobe; i++ {
		x := m.pos(k, i)
		p := &m.keys[x].key
		cur := atomic.LoadUint64(p)
		if cur == 0 && atomic.CompareAndSwapUint64(p, 0, k) {
			return x, true
		}
		if cur == k || atomic.LoadUint64(p) == k {
			return x, true
		}
	}
	return -1, false
}

func (s *slot) update(data []byte, fn func(data []byte, init bool) error) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	tmp := append([]byte(nil), data...)
	first := s.live == 0
	if err := fn(tmp, first); err != nil {
		return err
	}
	s.publish(data, tmp)
	return nil
}

func (s *slot) publish(data, tmp []byte) {
	atomic.AddUint32(&s.seq, 1)
	copy(data, tmp)
	atomic.StoreUint32(&s.live, 1)
	atomic.AddUint32(&s.seq, 1)
}
'''.replace("first := s.live == 0", "first := atomic.LoadUint32(&s.live) == 0")
e("bufmap-split", "same", [], F(B, "(m *Map) Get", GET), F(B, "(m *Map) Update", UPD))
e("bufmap-split-claimlt", "bug", ["C06"], F(B, "(m *Map) Get", GET.replace("i <= maxReprobe", "i < maxReprobe")), F(B, "(m *Map) Update", UPD))
e("bufmap-split-aliased", "bug", ["C03"], F(B, "(m *Map) Get", GET), F(B, "(m *Map) Update", UPD.replace("append([]byte(nil), data...)", "append(data[:0], data...)")))
e("bufmap-split-claim", "bug", ["C06"], F(B, "(m *Map) Get", GET), F(B, "(m *Map) Update", UPD.replace("if cur == k || atomic.LoadUint64(p) == k {", "if cur == k || cur == 0 {")))
e("bufmap-split-three", "bug", ["C05"], F(B, "(m *Map) Get", GET.replace("lo := x * m.s", "lo := x * (m.s &^ 7)")), F(B, "(m *Map) Update", UPD))
e("bufmap-seq-store", "same", [], F(B, "(m *Map) Update", UPD.replace('''	atomic.AddUint32(&s.seq, 1)
	copy(data, tmp)
	atomic.StoreUint32(&s.live, 1)
	atomic.AddUint32(&s.seq, 1)
''', '''	seq := atomic.LoadUint32(&s.seq)
	atomic.StoreUint32(&s.seq, seq+1)
	copy(data, tmp)
	atomic.StoreUint32(&s.live, 1)
	atomic.StoreUint32(&s.seq, seq+2)
''')), F(B, "(m *Map) Get", GET))
e("bufmap-seq-store-bug", "bug", ["C01"], F(B, "(m *Map) Update", UPD.replace('''	atomic.AddUint32(&s.seq, 1)
	copy(data, tmp)
	atomic.StoreUint32(&s.live, 1)
	atomic.AddUint32(&s.seq, 1)
''', '''	seq := atomic.LoadUint32(&s.seq)
	atomic.StoreUint32(&s.seq, seq+1)
	copy(data, tmp)
	atomic.StoreUint32(&s.live, 1)
	atomic.StoreUint32(&s.seq, seq)
''')), F(B, "(m *Map) Get", GET))
e("bufmap-gosched", "same", [], F(B, "(m *Map) Get", GET.replace("			continue\n", "			runtime.Gosched()\n			continue\n")), F(B, "(m *Map) Update", UPD), (B, '	"errors"\n', '	"errors"\n	"runtime"\n'))
e("bufmap-oneshot", "bug", ["C01"], F(B, "(m *Map) Get", GET.replace('''		if after := atomic.LoadUint32(&s.seq); after == before {
			return
		}
''', '''		if after := atomic.LoadUint32(&s.seq); after-before < 2 {
			return
		}
''')), F(B, "(m *Map) Update", UPD))

# ---------------------------------------------------------------- incmap
INC = '''
func (m *Map) Inc(k uint64, d uint64) bool {
	if k == 0 {
		return false
	}
	for i := 0; i <= maxReprobe; i++ {
		x := m.pos(k, i)
		switch atomic.LoadUint64(&m.keys[x]) {
		case k:
		case 0:
			if !atomic.CompareAndSwapUint64(&m.keys[x], 0, k) && atomic.LoadUint64(&m.keys[x]) != k {
				continue
			}
		default:
			continue
		}
		atomic.AddUint64(&m.values[x], d)
		return true
	}
	return false
}
'''
e("incmap-switch", "same", [], F(I, "(m *Map) Inc", INC))
e("incmap-switch-lost", "bug", ["C06"], F(I, "(m *Map) Inc", INC.replace(" && atomic.LoadUint64(&m.keys[x]) != k", "")))
e("incmap-switch-twice", "bug", ["C07"], F(I, "(m *Map) Inc", INC.replace("		case 0:\n", "		case 0:\n			atomic.AddUint64(&m.values[x], d)\n")))
e("incmap-load-store", "bug", ["C07"], F(I, "(m *Map) Inc", INC.replace("atomic.AddUint64(&m.values[x], d)", "atomic.StoreUint64(&m.values[x], atomic.LoadUint64(&m.values[x])+d)")))

# ---------------------------------------------------------------- seqlock
e("seqlock-put-update", "same", [], F(L, "(s *Seqlock) Put", '''
func (s *Seqlock) Put(v [1024]byte) {
	s.Update(func(data []byte) error {
		copy(data, v[:])
		return nil
	})
}
'''))
e("seqlock-try", "same", [], F(L, "(s *Seqlock) Get", '''
func (s *Seqlock) Get() [1024]byte {
	var v [1024]byte
	for !s.try(&v) {
	}
	return v
}

func (s *Seqlock) try(v *[1024]byte) bool {
	seq := atomic.LoadUint32(&s.seq)
	if seq%2 == 1 {
		return false
	}
	*v = s.data
	return seq == atomic.LoadUint32(&s.seq)
}
'''))
e("seqlock-try-bug", "bug", ["C01"], F(L, "(s *Seqlock) Get", '''
func (s *Seqlock) Get() [1024]byte {
	var v [1024]byte
	for !s.try(&v) {
	}
	return v
}

func (s *Seqlock) try(v *[1024]byte) bool {
	*v = s.data
	seq := atomic.LoadUint32(&s.seq)
	if seq%2 == 1 {
		return false
	}
	return seq == atomic.LoadUint32(&s.seq)
}
'''))
e("seqlock-unlock", "bug", ["C02"], F(L, "(s *Seqlock) Update", '''
func (s *Seqlock) Update(fn func(data []byte) error) error {
	s.mu.Lock()
	d := s.data
	if err := fn(d[:]); err != nil {
		s.mu.Unlock()
		return err
	}
	atomic.AddUint32(&s.seq, 1)
	s.data = d
	atomic.AddUint32(&s.seq, 1)
	s.mu.Unlock()
	return nil
}
'''))
e("seqlock-whole", "same", [], F(L, "(s *Seqlock) Update", '''
func (s *Seqlock) Update(fn func(data []byte) error) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	d := s.data
	err := fn(d[:])
	if err == nil {
		s.write(&d)
	}
	return err
}

func (s *Seqlock) write(d *[1024]byte) {
	atomic.AddUint32(&s.seq, 1)
	s.data = *d
	atomic.AddUint32(&s.seq, 1)
}
'''), F(L, "(s *Seqlock) Put", '''
func (s *Seqlock) Put(v [1024]byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.write(&v)
}
'''))

# ---------------------------------------------------------------- keys
KV = '''
func (fv FVList) KeyValue(keys [][]byte) (uint64, bool) {
	h := fnv.New64()
	for _, k := range keys {
		f := fv.find(k)
		if f == nil {
			return 0, false
		}
		h.Write(f.F)
		h.Write(f.V)
	}
	return h.Sum64(), true
}

func (fv FVList) find(name []byte) *FV {
	for i := range fv {
		if bytes.Equal(fv[i].F, name) {
			return &fv[i]
		}
	}
	return nil
}
'''
C13 = []
def k(name, kind, *a, **kw):
    e("key-" + name, kind, ["C13"] if kind == "bug" else [], *a, **kw)
k("find", "same", F(S, "(fv FVList) KeyValue", KV))
k("find-string", "same", F(S, "(fv FVList) KeyValue", KV.replace("bytes.Equal(fv[i].F, name)", "string(fv[i].F) == string(name)")), (S, '	"bytes"\n', ''))
k("find-compare", "same", F(S, "(fv FVList) KeyValue", KV.replace("bytes.Equal(fv[i].F, name)", "bytes.Compare(name, fv[i].F) == 0")))
k("find-index", "same", F(S, "(fv FVList) KeyValue", '''
func (fv FVList) KeyValue(keys [][]byte) (uint64, bool) {
	h := fnv.New64()
	for i := 0; i < len(keys); i++ {
		j := fv.index(keys[i])
		if j < 0 {
			return 0, false
		}
		h.Write(fv[j].F)
		h.Write(fv[j].V)
	}
	return h.Sum64(), true
}

func (fv FVList) index(name []byte) int {
	for j := 0; j < len(fv); j++ {
		if bytes.Equal(fv[j].F, name) {
			return j
		}
	}
	return -1
}
'''))
k("find-ok", "same", F(S, "(fv FVList) KeyValue", '''
func (fv FVList) KeyValue(keys [][]byte) (uint64, bool) {
	h := fnv.New64()
	for _, key := range keys {
		v, ok := fv.value(key)
		if !ok {
			return 0, false
		}
		h.Write(key)
		h.Write(v)
	}
	return h.Sum64(), true
}

func (fv FVList) value(name []byte) ([]byte, bool) {
	for _, x := range fv {
		if bytes.Equal(x.F, name) {
			return x.V, true
		}
	}
	return nil, false
}
'''))
k("found-flag", "same", F(S, "(fv FVList) KeyValue", '''
func (fv FVList) KeyValue(keys [][]byte) (uint64, bool) {
	h := fnv.New64()
	for _, key := range keys {
		found := false
		for _, x := range fv {
			if !bytes.Equal(key, x.F) {
				continue
			}
			found = true
			h.Write(x.F)
			h.Write(x.V)
			break
		}
		if !found {
			return 0, false
		}
	}
	return h.Sum64(), true
}
'''))
BUFKV = '''
func (fv FVList) KeyValue(keys [][]byte) (uint64, bool) {
	var buf []byte
outer:
	for i := range keys {
		for j := range fv {
			if bytes.Equal(keys[i], fv[j].F) {
				buf = append(buf, fv[j].F...)
				buf = append(buf, fv[j].V...)
				continue outer
			}
		}
		return 0, false
	}
	return fnv.Sum64(buf), true
}
'''
k("buffer", "same", F(S, "(fv FVList) KeyValue", BUFKV))
k("buffer-reset", "bug", F(S, "(fv FVList) KeyValue", BUFKV.replace("append(buf, fv[j].F...)", "append(buf[:0], fv[j].F...)")))
k("buffer-novalue", "bug", F(S, "(fv FVList) KeyValue", BUFKV.replace("				buf = append(buf, fv[j].V...)\n", "")))
k("buffer-swap", "bug", F(S, "(r *Row) KeyValue", BUFKV.replace("(fv FVList) KeyValue(keys [][]byte) (uint64, bool) {", "(r *Row) KeyValue(keys [][]byte) (uint64, bool) {\n	fv := r.Data")))
k("write-helper", "same", F(S, "(fv FVList) KeyValue", KV.replace("		h.Write(f.F)\n		h.Write(f.V)\n", "		f.hash(h)\n") + '''
func (f *FV) hash(h *fnv.Fnv64) {
	h.Write(f.F)
	h.Write(f.V)
}
'''))
k("io-writer", "same", F(S, "(fv FVList) KeyValue", KV.replace("		h.Write(f.F)\n		h.Write(f.V)\n", "		f.writeTo(h)\n") + '''
func (f *FV) writeTo(w io.Writer) {
	w.Write(f.F)
	w.Write(f.V)
}
'''), (S, '	"fmt"\n', '	"fmt"\n	"io"\n'))
k("row-value", "same", F(S, "(r *Row) KeyValue", '''
func (r Row) KeyValue(keys [][]byte) (uint64, bool) {
	fvs := r.Data
	return fvs.KeyValue(keys)
}
'''))
k("store-helper", "same", F(T, "(s *Store) Write", '''
func (s *Store) Write(ctx context.Context, r collation.Row) error {
	key, ok := s.key(r.Data)
	if !ok {
		return nil
	}
	if err := ctx.Err(); err != nil {
		return err
	}
	return s.Backend.Update(key, Transaction{Row: r, Fn: s.Collator.Update}.Do)
}

func (s *Store) key(fv collation.FVList) (uint64, bool) {
	return fv.KeyValue(s.Collator.Keys())
}
'''), F(T, "(s *Store) Read", '''
func (s *Store) Read(ctx context.Context, q collation.Query) (res collation.Result, err error) {
	key, ok := s.key(q.Criteria)
	if !ok {
		return res, nil
	}
	buf := make([]byte, s.Collator.Size())
	if s.Backend.Get(key, buf) {
		res, err = s.Collator.Read(q.FieldMeasures, buf)
	}
	return res, err
}
'''))
k("missing-break", "bug", F(S, "(fv FVList) KeyValue", KV.replace("			return 0, false\n", "			break\n", 1)))
k("missing-skip", "bug", F(S, "(fv FVList) KeyValue", KV.replace("			return 0, false\n", "			continue\n", 1)))
k("prefix", "bug", F(S, "(fv FVList) KeyValue", KV.replace("bytes.Equal(fv[i].F, name)", "bytes.HasPrefix(fv[i].F, name)")))
k("fold", "bug", F(S, "(fv FVList) KeyValue", KV.replace("bytes.Equal(fv[i].F, name)", "bytes.EqualFold(fv[i].F, name)")))
k("last", "bug", F(S, "(r *Row) KeyValue", '''
func (r *Row) KeyValue(keys [][]byte) (uint64, bool) {
	rev := make(FVList, len(r.Data))
	for i := range r.Data {
		rev[len(rev)-1-i] = r.Data[i]
	}
	return rev.KeyValue(keys)
}
'''))
k("reset", "bug", F(S, "(fv FVList) KeyValue", KV.replace("		h.Write(f.F)\n", "		h.Reset()\n		h.Write(f.F)\n")))
k("value-only-last", "bug", F(S, "(fv FVList) KeyValue", KV.replace("		h.Write(f.V)\n", "		if len(f.V) < 64 {\n			h.Write(f.V)\n		} else {\n			h.Write(f.V[:64])\n		}\n")))
k("order", "bug", F(S, "(fv FVList) KeyValue", '''
func (fv FVList) KeyValue(keys [][]byte) (uint64, bool) {
	h := fnv.New64()
	n := 0
	for j := range fv {
		for i := range keys {
			if bytes.Equal(keys[i], fv[j].F) {
				h.Write(fv[j].F)
				h.Write(fv[j].V)
				n++
				break
			}
		}
	}
	return h.Sum64(), n == len(keys)
}
'''))
k("trim", "bug", F(S, "(q *Query) KeyValue", '''
func (q *Query) KeyValue(keys [][]byte) (uint64, bool) {
	c := make(FVList, len(q.Criteria))
	for i, fv := range q.Criteria {
		c[i] = FV{F: fv.F, V: bytes.TrimSpace(fv.V)}
	}
	return c.KeyValue(keys)
}
'''))
k("xor", "bug", F(S, "(fv FVList) KeyValue", '''
func (fv FVList) KeyValue(keys [][]byte) (uint64, bool) {
	var sum uint64
outer:
	for i := range keys {
		for j := range fv {
			if bytes.Equal(keys[i], fv[j].F) {
				h := fnv.New64()
				h.Write(fv[j].F)
				h.Write(fv[j].V)
				sum ^= h.Sum64()
				continue outer
			}
		}
		return 0, false
	}
	return sum, true
}
'''), exact=True)
k("read-first-key", "bug", F(T, "(s *Store) Read", '''
func (s *Store) Read(ctx context.Context, q collation.Query) (collation.Result, error) {
	key, found := q.KeyValue(s.Collator.Keys()[:1])
	if !found {
		return collation.Result{}, nil
	}
	buf := make([]byte, s.Collator.Size())
	if !s.Backend.Get(key, buf) {
		return collation.Result{}, nil
	}
	return s.Collator.Read(q.FieldMeasures, buf)
}
'''))

# ---------------------------------------------------------------- compile
COMPILE = '''
func (s *Schema) Compile() (Collator, error) {
	coll := Collator{
		name:        s.Name,
		writers:     make([]anyWriter, 0, len(s.RecordMeasures)),
		contWriters: make(map[string][]contWriter),
		discWriters: make(map[string][]discWriter),
		contReaders: make(map[string]map[string]contReader),
		discReaders: make(map[string]map[string]discReader),
	}
	for _, k := range s.Keys {
		coll.keys = append(coll.keys, []byte(k.Field.Pattern))
	}

	for _, m := range s.RecordMeasures {
		low, high := coll.reserve(m.Size())
		coll.addInit(m, low, high)
		coll.writers = append(coll.writers, anyWriter{Low: low, High: high, Fn: m.RowWriter()})
		coll.addReaders(RowPseudoField, m, low, high)
	}

	for _, ms := range s.Measures {
		if err := coll.addField(ms.Field.Pattern, ms.Measures); err != nil {
			return Collator{}, err
		}
	}

	return coll, nil
}

// reserve sets aside n bytes of the record.
func (c *Collator) reserve(n int) (low, high int) {
	low = c.size
	c.size += n
	return low, c.size
}

// addInit registers the initialisation needed by m for its range of data
func (c *Collator) addInit(m Measure, low, high int) {
	im, ok := m.(Initializer)
	if !ok {
		return
	}
	c.inits = append(c.inits, initializer{Low: low, High: high, Fn: im.Init})
}

func (c *Collator) addReaders(field string, m Measure, low, high int) {
	if o, ok := m.(ContinuousOutput); ok {
		if c.contReaders[field] == nil {
			c.contReaders[field] = make(map[string]contReader)
		}
		c.contReaders[field][m.Name()] = contReader{Low: low, High: high, Fn: o.ContReader()}
	}
	if o, ok := m.(DiscreteOutput); ok {
		if c.discReaders[field] == nil {
			c.discReaders[field] = make(map[string]discReader)
		}
		c.discReaders[field][m.Name()] = discReader{Low: low, High: high, Fn: o.DiscReader()}
	}
}

func (c *Collator) addField(field string, measures []Measure) error {
	shared := false
	sharedLow, sharedHigh := 0, 0
	for _, m := range measures {
		if err := validateMeasure(m); err != nil {
			return fmt.Errorf("field %q: %v", field, err)
		}

		if in, ok := m.(ContinuousInput); ok {
			if isStat64(m) {
				if !shared {
					shared = true
					sharedLow, sharedHigh = c.reserve(Sum{}.Size())
					c.contWriters[field] = append(c.contWriters[field], contWriter{Low: sharedLow, High: sharedHigh, Fn: in.ContWriter()})
				}
				c.addReaders(field, m, sharedLow, sharedHigh)
			} else {
				low, high := c.reserve(m.Size())
				c.addInit(m, low, high)
				c.contWriters[field] = append(c.contWriters[field], contWriter{Low: low, High: high, Fn: in.ContWriter()})
				c.addReaders(field, m, low, high)
			}
		}

		if in, ok := m.(DiscreteInput); ok {
			low, high := c.reserve(m.Size())
			c.addInit(m, low, high)
			c.discWriters[field] = append(c.discWriters[field], discWriter{Low: low, High: high, Fn: in.DiscWriter()})
			c.addReaders(field, m, low, high)
		}
	}
	return nil
}

// isStat64 reports whether m is calculated from a stat64 summary
func isStat64(m Measure) bool {
	switch m.(type) {
	case Count, Sum, Mean, Variance:
		return true
	}
	return false
}
'''
def cp(name, kind, props, *a, **kw):
    e("compile-" + name, kind, props, *a, **kw)
def C(*reps):
    s = COMPILE
    for o, n in reps:
        assert o in s, o
        s = s.replace(o, n, 1)
    return F(K, "(s *Schema) Compile", s)
cp("split", "same", [], C())
cp("split-shared-size", "bug", ["C15"], C(("c.reserve(Sum{}.Size())", "c.reserve(m.Size())")))
cp("split-no-init", "bug", ["C17"], C(("				c.addInit(m, low, high)\n				c.contWriters", "				c.contWriters")))
cp("split-init-first", "bug", ["C17"], C(("				c.addInit(m, low, high)\n				c.contWriters", "				if !shared {\n					c.addInit(m, low, high)\n				}\n				c.contWriters")))
cp("split-shared-all", "bug", ["C15"], C(("	case Count, Sum, Mean, Variance:", "	case Count, Sum, Mean, Variance, Max:")), exact=False)
cp("split-shared-scope", "bug", ["C16"], C(("	shared := false\n", "	shared := len(c.contWriters) > 0\n")))
cp("split-reader-map", "bug", ["C16"], C(("		if c.contReaders[field] == nil {\n			c.contReaders[field] = make(map[string]contReader)\n		}\n", "		c.contReaders[field] = make(map[string]contReader)\n")))
cp("split-writer-reset", "bug", ["C16"], C(("c.discWriters[field] = append(c.discWriters[field], discWriter{", "c.discWriters[field] = append([]discWriter(nil), discWriter{")))
cp("split-reserve", "bug", ["C15"], C(("	low = c.size\n	c.size += n\n", "	low = c.size\n	if n > 8 {\n		c.size += n\n	} else {\n		c.size += 8 - n%8\n	}\n")))
cp("split-unvalidated", "bug", ["C16"], C(("		if err := validateMeasure(m); err != nil {", "		if err := validateMeasure(m); err != nil && !shared {")))
cp("size-end", "same", [], (K, "		pos += size\n		coll.size += size\n\n	}", "		pos += size\n	}"), (K, "				pos += size\n				coll.size += size\n			}\n\n			if dm", "				pos += size\n			}\n\n			if dm"), (K, "				pos += size\n				coll.size += size\n			}\n\n		}", "				pos += size\n			}\n\n		}"), (K, "	return coll, nil\n", "	coll.size = pos\n	return coll, nil\n"))
cp("map-struct", "same", [], (K, '''						crs = make(map[string]contReader)
					}
					crs[m.Name()] = contReader{
						Low:  low,
						High: hi,
						Fn:   cm.ContReader(),
					}
					coll.contReaders[ms.Field.Pattern] = crs
''', '''						crs = make(map[string]contReader)
						coll.contReaders[ms.Field.Pattern] = crs
					}
					r := contReader{Fn: cm.ContReader()}
					r.Low, r.High = low, hi
					crs[m.Name()] = r
'''))
cp("duplicate-field", "bug", ["C15"], (K, "		stat64Low, stat64Hi := 0, 0\n", "		stat64Low, stat64Hi := 0, 0\n		pos = 0\n"))
cp("pos-aligned", "same", [], (K, "	for _, ms := range s.Measures {\n", "	for _, ms := range s.Measures {\n		if n := len(ms.Measures); n == 0 {\n			continue\n		}\n"))
cp("row-guard", "same", [], (K, "	for _, m := range s.RecordMeasures {\n", "	if len(s.RecordMeasures) > 0 {\n	for _, m := range s.RecordMeasures {\n"), (K, "		pos += size\n		coll.size += size\n\n	}", "		pos += size\n		coll.size += size\n\n	}\n	}"))
cp("nomeasures", "bug", ["C16"], (K, "	for _, ms := range s.Measures {\n", "	for _, ms := range s.Measures {\n		if n := len(ms.Measures); n <= 1 {\n			continue\n		}\n"))
cp("by-index", "same", [], (K, "	for _, ms := range s.Measures {\n", "	for i := range s.Measures {\n		ms := &s.Measures[i]\n"), (K, "	for _, m := range s.RecordMeasures {\n", "	for i := 0; i < len(s.RecordMeasures); i++ {\n		m := s.RecordMeasures[i]\n"))

# ---------------------------------------------------------------- collator
UPDATE = '''
func (c Collator) Update(r Row, buf []byte, init bool) error {
	if init {
		if err := c.reset(buf); err != nil {
			return err
		}
	}
	for _, w := range c.writers {
		if err := w.Update(buf, false); err != nil {
			return err
		}
	}
	for i := range r.Data {
		if err := c.updateField(&r.Data[i], buf); err != nil {
			return err
		}
	}
	return nil
}

// reset puts every measure in its initial state
func (c Collator) reset(buf []byte) error {
	for i := range buf {
		buf[i] = 0
	}
	for i := range c.inits {
		if err := c.inits[i].Init(buf); err != nil {
			return err
		}
	}
	return nil
}

func (c Collator) updateField(fv *FV, buf []byte) error {
	field := string(fv.F)
	if ws := c.contWriters[field]; len(ws) > 0 {
		v, err := strconv.ParseFloat(string(fv.V), 64)
		if err != nil {
			return err
		}
		for i := range ws {
			if err := ws[i].UpdateFloat64(buf, false, v); err != nil {
				return err
			}
		}
	}
	for _, w := range c.discWriters[field] {
		if err := w.UpdateItem(buf, false, fv.V); err != nil {
			return err
		}
	}
	return nil
}
'''
READ = '''
func (c Collator) Read(fml []FM, buf []byte) (Result, error) {
	var res Result
	for _, fm := range fml {
		if err := c.readField(&res, fm, buf); err != nil {
			return res, err
		}
	}
	return res, nil
}

func (c Collator) readField(res *Result, fm FM, buf []byte) error {
	rs := c.contReaders[string(fm.F)]
	ds := c.discReaders[string(fm.F)]
	for _, m := range fm.M {
		if r, ok := rs[string(m)]; ok {
			v, err := r.ReadFloat64(buf)
			if err != nil {
				return err
			}
			res.add(fm.F, m, v)
		}
	}
	for _, m := range fm.M {
		if r, ok := ds[string(m)]; ok {
			v, err := r.ReadItem(buf)
			if err != nil {
				return err
			}
			res.add(fm.F, m, v)
		}
	}
	return nil
}

func (r *Result) add(f, m []byte, v interface{}) {
	r.FieldMeasureValues = append(r.FieldMeasureValues, FMV{F: f, M: m, V: v})
}
'''
def U(*reps):
    s = UPDATE
    for o, n in reps:
        assert o in s, o
        s = s.replace(o, n, 1)
    return F(S, "(c Collator) Update", s)
def R(*reps):
    s = READ
    for o, n in reps:
        assert o in s, o
        s = s.replace(o, n, 1)
    return F(S, "(c Collator) Read", s)
e("coll-update-split", "same", [], U())
e("coll-read-split", "same", [], R())
e("coll-both-split", "same", [], R(), U(), C())
e("coll-update-break", "bug", ["C16"], U(("		for i := range ws {", "		for i := range ws[:1] {")))
e("coll-update-quiet", "bug", ["C10"], U(("		if err != nil {\n			return err\n		}\n		for i", "		if err != nil {\n			v = 0\n		}\n		for i")))
e("coll-update-else", "bug", ["C16"], U(("	for _, w := range c.discWriters[field] {", "	if len(c.contWriters[field]) > 0 {\n		return nil\n	}\n	for _, w := range c.discWriters[field] {")))
e("coll-update-initlen", "bug", ["C17"], U(("	for i := range buf {\n		buf[i] = 0\n	}\n", "")))
e("coll-update-initrow", "bug", ["C17"], U(("	if init {\n", "	if init && len(r.Data) > 0 {\n")))
e("coll-read-break", "bug", ["C29"], R(("			res.add(fm.F, m, v)\n		}\n	}\n	for _", "			res.add(fm.F, m, v)\n		} else {\n			break\n		}\n	}\n	for _")))
e("coll-read-label", "bug", ["C29"], R(("res.add(fm.F, m, v)", "res.add(fm.F, fm.M[0], v)")))
e("coll-read-nan", "bug", ["C29"], R(("			res.add(fm.F, m, v)\n", "			if v == v {\n				res.add(fm.F, m, v)\n			}\n")))
e("coll-read-row", "bug", ["C29"], R(("	rs := c.contReaders[string(fm.F)]\n", "	rs := c.contReaders[string(fm.F)]\n	if rs == nil {\n		rs = c.contReaders[RowPseudoField]\n	}\n")))

# ---------------------------------------------------------------- measures
e("measure-floats", "same", [], F(M, "(m Max) ContWriter", '''
func (m Max) ContWriter() ContWriterFunc {
	return func(buf []byte, init bool, v float64) error {
		if init {
			m.Init(buf)
		}
		if v > getFloat(buf) {
			putFloat(buf, v)
		}
		return nil
	}
}

func getFloat(buf []byte) float64 {
	return math.Float64frombits(binary.LittleEndian.Uint64(buf))
}

func putFloat(buf []byte, v float64) {
	binary.LittleEndian.PutUint64(buf, math.Float64bits(v))
}
'''), F(M, "(m Min) ContWriter", '''
func (m Min) ContWriter() ContWriterFunc {
	return func(buf []byte, init bool, v float64) error {
		if init {
			putFloat(buf, math.Inf(1))
		}
		if !(v < getFloat(buf)) {
			return nil
		}
		putFloat(buf, v)
		return nil
	}
}
'''))
e("measure-stat", "same", [], F(M, "(Sum) ContWriter", '''
func (Sum) ContWriter() ContWriterFunc { return updateStat64 }

func updateStat64(buf []byte, init bool, v float64) error {
	stat64.WithBytes(buf).Update(v)
	return nil
}
'''), F(M, "(Mean) ContWriter", "func (Mean) ContWriter() ContWriterFunc { return updateStat64 }"), F(M, "(Variance) ContWriter", "func (Variance) ContWriter() ContWriterFunc { return updateStat64 }"), F(M, "(Count) ContWriter", "func (Count) ContWriter() ContWriterFunc { return updateStat64 }"))
e("measure-max-ge", "bug", ["C18"], F(M, "(m Max) ContWriter", '''
func (m Max) ContWriter() ContWriterFunc {
	return func(buf []byte, init bool, v float64) error {
		if init {
			m.Init(buf)
		}
		c := math.Float64frombits(binary.LittleEndian.Uint64(buf))
		binary.LittleEndian.PutUint64(buf, math.Float64bits(math.Max(c, v)))
		return nil
	}
}
'''))
e("measure-min-zero", "bug", ["C18"], F(M, "(m Min) ContWriter", '''
func (m Min) ContWriter() ContWriterFunc {
	return func(buf []byte, init bool, v float64) error {
		c := math.Float64frombits(binary.LittleEndian.Uint64(buf))
		if init || v < c || c == 0 {
			binary.LittleEndian.PutUint64(buf, math.Float64bits(v))
		}
		return nil
	}
}
'''))
e("measure-card-init", "same", [], F(M, "(c Cardinality) Init", '''
func (c Cardinality) Init(buf []byte) error {
	b := bytes.NewBuffer(make([]byte, 0, len(buf)))
	s := hll.New(uint8(c.Precision))
	if _, err := s.WriteTo(b); err != nil {
		return err
	}
	copy(buf, b.Bytes())
	return nil
}
'''))
