# Refactorings once more, larger ones.
from edits_fresh2 import F, P, src
EDITS = []
BB = "internal/bitbucket/bitbucket.go"
BL = "internal/summary/bloom/bloom.go"
H = "internal/summary/hll/hll.go"
X = "internal/summary/stat64/stats.go"
N = "internal/hash/fnv/fnv.go"
V = "internal/server/server.go"
L = "internal/collation/schema.go"
C = "internal/collation/compile.go"
M = "internal/collation/measure.go"
Z = "internal/storage/storage.go"
B = "internal/bufmap/bufmap.go"
I = "internal/incmap/incmap.go"
S = "internal/seqlock/seqlock.go"
Q = "internal/query/rough.go"
D = "demo.go"
W = "starbow.go"
def same(name, *eds): EDITS.append(dict(name="fresh7-" + name, kind="same", props=[], edits=list(eds)))

same("bufmap-slot-methods", F(B, "(m *Map) Get(", '''
func (m *Map) Get(k uint64, buf []byte) bool {
	if k == 0 {
		return false
	}
	for i := 0; i <= maxReprobe; i++ {
		x := m.pos(k, i)
		s := &m.keys[x]
		if !s.holds(k) {
			continue
		}
		if !s.ready() {
			return false
		}
		for !s.tryRead(buf, m.record(x)) {
		}
		return true
	}
	return false
}

// record is the memory of the record of a slot
func (m *Map) record(x int) []byte {
	low := x * m.s
	return m.values[low : low+m.s]
}

// holds reports whether the slot is that of k
func (s *slot) holds(k uint64) bool {
	return atomic.LoadUint64(&s.key) == k
}

// ready reports whether the slot has been initialised
func (s *slot) ready() bool {
	return atomic.LoadUint32(&s.live) == 1
}

// tryRead copies the record unless it changes meanwhile
func (s *slot) tryRead(dst, src []byte) bool {
	before := atomic.LoadUint32(&s.seq)
	if before&1 == 1 {
		return false
	}
	copy(dst, src)
	return atomic.LoadUint32(&s.seq) == before
}
'''), P(B, "(m *Map) Update(", ("	data := m.values[x*m.s : (x+1)*m.s]\n", "	data := m.record(x)\n"), ("atomic.LoadUint32(&s.live) == 0", "!s.ready()")))
same("bufmap-claim", P(B, "(m *Map) Update(", ('''	x := -1
	i := 0
	for {
		x = m.pos(k, i)

		// Is our key here?
		kexist := atomic.LoadUint64(&m.keys[x].key)
		if kexist == k {
			break
		}

		// Is it an empty slot?
		if kexist == 0 {
			// Try and store key into slot
			if atomic.CompareAndSwapUint64(&m.keys[x].key, 0, k) {
				// Stored key successfully
				break
			}
		}

		// Did another writer set the key while we were checking?
		kexist = atomic.LoadUint64(&m.keys[x].key)
		if kexist == k {
			break
		}

		// Try next slot
		i++
		if i > maxReprobe {
			// too many attempts to find an empty slot
			return ErrOutOfSlots
		}
	}
''', '''	x, ok := m.claim(k)
	if !ok {
		return ErrOutOfSlots
	}
''')), (B, "// pos maps the key", '''// claim finds the slot of the key, or gives it one
func (m *Map) claim(k uint64) (x int, ok bool) {
	for i := 0; i < maxReprobe+1; i++ {
		x = m.pos(k, i)
		p := &m.keys[x].key
		if atomic.LoadUint64(p) == k || atomic.CompareAndSwapUint64(p, 0, k) || atomic.LoadUint64(p) == k {
			return x, true
		}
	}
	return -1, false
}

// pos maps the key'''))
same("incmap-switch", P(I, "(m *Map) Inc(", ('''		// Is our key here?
		kexist := atomic.LoadUint64(&m.keys[x])
		if kexist == k {
			break
		}

		// Is it an empty slot?
		if kexist == 0 {
			// Try and store key into slot
			if atomic.CompareAndSwapUint64(&m.keys[x], 0, k) {
				// Stored key successfully
				break
			}
		}

		// Did another updater set the key while we were checking?
		kexist = atomic.LoadUint64(&m.keys[x])
		if kexist == k {
			break
		}

		i++
		if i > maxReprobe {
			// too many attempts to find an empty slot
			return false
		}
	}

	atomic.AddUint64(&m.values[x], d)
	return true
''', '''		switch kexist := atomic.LoadUint64(&m.keys[x]); kexist {
		case k:
			atomic.AddUint64(&m.values[x], d)
			return true
		case 0:
			if atomic.CompareAndSwapUint64(&m.keys[x], 0, k) || atomic.LoadUint64(&m.keys[x]) == k {
				atomic.AddUint64(&m.values[x], d)
				return true
			}
		}

		if i == maxReprobe {
			// too many attempts to find an empty slot
			return false
		}
		i++
	}
''')))
same("seqlock-shared", F(S, "(s *Seqlock) Put(", '''
func (s *Seqlock) Put(v [1024]byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.publish(&v)
}

// publish replaces the data. The lock must be held.
func (s *Seqlock) publish(v *[1024]byte) {
	atomic.AddUint32(&s.seq, 1)
	s.data = *v
	atomic.AddUint32(&s.seq, 1)
}
'''), F(S, "(s *Seqlock) Update(", '''
func (s *Seqlock) Update(fn func(data []byte) error) error {
	s.mu.Lock()
	defer s.mu.Unlock()

	d := s.data
	err := fn(d[:])
	if err == nil {
		s.publish(&d)
	}
	return err
}
'''))
same("update-parts", F(L, "(c Collator) Update(", '''
func (c Collator) Update(r Row, buf []byte, init bool) error {
	if init {
		if err := c.initialise(buf); err != nil {
			return err
		}
	}
	if err := c.updateRow(buf); err != nil {
		return err
	}
	for i := range r.Data {
		if err := c.updateField(buf, &r.Data[i]); err != nil {
			return err
		}
	}
	return nil
}

func (c *Collator) initialise(buf []byte) error {
	for i := range buf {
		buf[i] = 0
	}
	for i := 0; i < len(c.inits); i++ {
		if err := c.inits[i].Init(buf); err != nil {
			return err
		}
	}
	return nil
}

func (c *Collator) updateRow(buf []byte) error {
	for _, w := range c.writers {
		if err := w.Update(buf, false); err != nil {
			return err
		}
	}
	return nil
}

func (c *Collator) updateField(buf []byte, fv *FV) error {
	field := string(fv.F)
	if ws := c.contWriters[field]; len(ws) > 0 {
		v, err := strconv.ParseFloat(string(fv.V), 64)
		if err != nil {
			return err
		}
		for _, w := range ws {
			if err := w.UpdateFloat64(buf, false, v); err != nil {
				return err
			}
		}
	}
	for _, w := range c.discWriters[field] {
		if err := w.UpdateItem(buf, false, fv.V); err != nil {
			return err
		}
	}
	return nil
}
'''))
same("read-preset", F(L, "(c Collator) Read(", '''
func (c Collator) Read(fml []FM, buf []byte) (Result, error) {
	res := Result{}
	for i := range fml {
		fm := &fml[i]
		conts, discs := c.contReaders[string(fm.F)], c.discReaders[string(fm.F)]
		for _, m := range fm.M {
			r, ok := conts[string(m)]
			if !ok {
				continue
			}
			v, err := r.ReadFloat64(buf)
			if err != nil {
				return res, err
			}
			res.add(fm.F, m, v)
		}
		for _, m := range fm.M {
			r, ok := discs[string(m)]
			if !ok {
				continue
			}
			v, err := r.ReadItem(buf)
			if err != nil {
				return res, err
			}
			res.add(fm.F, m, v)
		}
	}
	return res, nil
}

// add appends a value to the result
func (r *Result) add(field, measure []byte, v interface{}) {
	r.FieldMeasureValues = append(r.FieldMeasureValues, FMV{F: field, M: measure, V: v})
}
'''))
same("store-closure", P(Z, "(s *Store) Write(", ('''	t := Transaction{
		Row: r,
		Fn:  s.Collator.Update,
	}

	select {
	case <-ctx.Done():
		return ctx.Err()
	default:
	}

	return s.Backend.Update(key, t.Do)
''', '''	if err := ctx.Err(); err != nil {
		return err
	}

	return s.Backend.Update(key, func(data []byte, init bool) error {
		return s.Collator.Update(r, data, init)
	})
''')))
same("store-named", P(Z, "(s *Store) Read(", ("(collation.Result, error) {\n", "(res collation.Result, err error) {\n"), ("		return collation.Result{}, nil\n	}\n\n	// TODO: reuse", "		return\n	}\n\n	// TODO: reuse"),
    ("	if !s.Backend.Get(key, buf) {\n		// TODO: report not found?\n		return collation.Result{}, nil\n	}\n\n	return s.Collator.Read(q.FieldMeasures, buf)", "	if s.Backend.Get(key, buf) {\n		res, err = s.Collator.Read(q.FieldMeasures, buf)\n	}\n	return")))
same("hll-add-bits", F(H, "(c *Counter) Add(", '''
func (c *Counter) Add(v []byte) {
	idx, rho := c.place(fnv.Sum64(v))
	if cur := c.bits.Get(idx); cur >= rho {
		return
	}
	c.bits.Set(idx, rho)
}

// place is the register of a hash and its rank
func (c *Counter) place(h uint64) (int, uint8) {
	rest := h << c.p
	limit := 64 - c.p
	rank := uint8(1)
	for rank <= limit && rest&(1<<63) == 0 {
		rest <<= 1
		rank++
	}
	return int(h >> limit), rank
}
'''))
same("hll-lz", P(H, "(c *Counter) Add(", ('''	rho := uint8(1)
	t := uint64(1 << (63 - c.p))
	for i := 0; i < 64-int(c.p); i++ {
		if h&t != 0 {
			break
		}
		rho++
		t >>= 1
	}
''', '''	rho := uint8(bits.LeadingZeros64(h<<c.p|1<<(c.p-1))) + 1
''')), (H, '	"math"\n', '	"math"\n	"math/bits"\n'))
same("bloom-visit", F(BL, "(b *Bloom) Add(", '''
func (b *Bloom) Add(v []byte) {
	for _, x := range b.places(v) {
		b.bits.Set(x, 1)
	}
}

// places are the bits that stand for an item
func (b *Bloom) places(v []byte) []int {
	h := newHasher(v, b.m)
	l := make([]int, b.k)
	for i := range l {
		l[i] = int(h.next())
	}
	return l
}
'''), F(BL, "(b *Bloom) Has(", '''
func (b *Bloom) Has(v []byte) bool {
	for _, x := range b.places(v) {
		if b.bits.Get(x) == 0 {
			return false
		}
	}
	return true
}
'''))
same("bits-store", P(BB, "(b *BitBucket) set(", ('''	b.data[index] = uint8((data & 0xff00) >> 8)
	if index < len(b.data)-1 {
		b.data[index+1] = uint8(data & 0x00ff)
	}
''', '''	b.store(index, data)
''')), P(BB, "(b *BitBucket) incn(", ('''	b.data[index] = uint8((data & 0xff00) >> 8)
	if index < len(b.data)-1 {
		b.data[index+1] = uint8(data & 0x00ff)
	}
''', '''	b.store(index, data)
''')), (BB, "func (b *BitBucket) extract(", '''// store writes two bytes, the second one if there is one
func (b *BitBucket) store(index int, data uint16) {
	b.data[index] = byte(data >> 8)
	if next := index + 1; next < len(b.data) {
		b.data[next] = byte(data)
	}
}

func (b *BitBucket) extract('''))
same("bits-write-loop", F(BB, "(b *BitBucket) WriteTo(", '''
func (b *BitBucket) WriteTo(w io.Writer) (total int64, err error) {
	hdr := make([]byte, hdrLen)
	hdr[0], hdr[1] = Version, b.w
	binary.LittleEndian.PutUint64(hdr[2:], uint64(b.n))

	for _, part := range [][]byte{hdr, b.data} {
		var n int
		n, err = w.Write(part)
		total += int64(n)
		if err != nil {
			break
		}
	}
	return total, err
}
'''))
same("stat-load", F(X, "(s Summary) Update(", '''
func (s Summary) Update(v float64) {
	s.UpdateMulti([]float64{v})
}
'''))
same("stat-state", F(X, "(s Summary) UpdateMulti(", '''
func (s Summary) UpdateMulti(vs []float64) {
	var st state
	st.load(s)
	for i := range vs {
		st.add(vs[i])
	}
	st.store(s)
}

type state struct {
	count         uint64
	sum, mean, ss float64
}

func (t *state) load(s Summary) {
	t.count = s.Count()
	t.sum = s.Sum()
	t.mean = s.Mean()
	t.ss = math.Float64frombits(binary.LittleEndian.Uint64(s[24:32]))
}

func (t *state) add(v float64) {
	t.count++
	t.sum += v
	delta := v - t.mean
	t.mean += delta / float64(t.count)
	t.ss += delta * (v - t.mean)
}

func (t *state) store(s Summary) {
	binary.LittleEndian.PutUint64(s[0:], t.count)
	binary.LittleEndian.PutUint64(s[8:], math.Float64bits(t.sum))
	binary.LittleEndian.PutUint64(s[16:], math.Float64bits(t.mean))
	binary.LittleEndian.PutUint64(s[24:], math.Float64bits(t.ss))
}
'''))
same("fnv-uint-bytes", F(N, "(s *Fnv64) WriteUint64(", '''
func (s *Fnv64) WriteUint64(n uint64) {
	for shift := 56; shift >= 0; shift -= 8 {
		s.WriteByte(byte(n >> uint(shift)))
	}
}
'''))
same("fnv-step", F(N, "(s *Fnv64) Write(", '''
func (s *Fnv64) Write(data []byte) (int, error) {
	hash := *s
	for i := range data {
		hash = hash.with(data[i])
	}
	*s = hash
	return len(data), nil
}

// with is the hash after one more byte
func (s Fnv64) with(b byte) Fnv64 {
	return s*prime64 ^ Fnv64(b)
}
'''), F(N, "(s *Fnv64) WriteByte(", '''
func (s *Fnv64) WriteByte(b byte) error {
	*s = s.with(b)
	return nil
}
'''))
same("obs-reader", P(V, "(s *Server) recvObservation(", ('''	ct, err := contentType(req)
	if err != nil {
		http.Error(w, err.Error(), http.StatusBadRequest)
		return
	}

	var r io.Reader
	switch ct {
	case "application/x-www-form-urlencoded":
		if err := req.ParseForm(); err != nil {
			http.Error(w, err.Error(), http.StatusBadRequest)
			return
		}
		data := req.FormValue("data")
		if data == "" {
			http.Error(w, "no data supplied", http.StatusBadRequest)
			return
		}
		r = strings.NewReader(data)
	case "text/plain", "application/octet-stream":
		r = req.Body
		defer req.Body.Close()
	default:
		http.Error(w, "unknown media type", http.StatusUnsupportedMediaType)
		return
	}
''', '''	r, status, err := observations(req)
	if err != nil {
		http.Error(w, err.Error(), status)
		return
	}
	defer r.Close()
''')), (V, "func contentType(", '''// observations is where the observations of a request are read from
func observations(req *http.Request) (io.ReadCloser, int, error) {
	ct, err := contentType(req)
	if err != nil {
		return nil, http.StatusBadRequest, err
	}

	switch ct {
	case "application/x-www-form-urlencoded":
		if err := req.ParseForm(); err != nil {
			return nil, http.StatusBadRequest, err
		}
		data := req.FormValue("data")
		if data == "" {
			return nil, http.StatusBadRequest, errors.New("no data supplied")
		}
		return ioutil.NopCloser(strings.NewReader(data)), 0, nil
	case "text/plain", "application/octet-stream":
		return req.Body, 0, nil
	}
	return nil, http.StatusUnsupportedMediaType, errors.New("unknown media type")
}

func contentType('''), (V, '	"context"\n	"fmt"\n	"io"\n', '	"context"\n	"errors"\n	"fmt"\n	"io"\n	"io/ioutil"\n'))
same("obs-status", P(V, "(s *Server) recvObservation(", ('''		// Check whether context has been cancelled
		select {
		case <-ctx.Done():
			http.Error(w, ctx.Err().Error(), http.StatusServiceUnavailable)
			return
		default:
		}

		row, err := parseRow(sc.Bytes())
		if err != nil {
			http.Error(w, err.Error(), http.StatusInternalServerError)
			return
		}

		row.ReceiveTime = now
		for _, st := range s.Stores {
			if err := st.Write(ctx, row); err != nil {
				http.Error(w, err.Error(), http.StatusInternalServerError)
				return
			}
		}
	}
	if sc.Err() != nil {
		http.Error(w, sc.Err().Error(), http.StatusInternalServerError)
		return
	}
''', '''		if err := ctx.Err(); err != nil {
			fail(w, err, http.StatusServiceUnavailable)
			return
		}

		if err := s.observe(ctx, sc.Bytes(), now); err != nil {
			fail(w, err, http.StatusInternalServerError)
			return
		}
	}
	if err := sc.Err(); err != nil {
		fail(w, err, http.StatusInternalServerError)
	}
''')), (V, "func contentType(", '''func fail(w http.ResponseWriter, err error, status int) {
	http.Error(w, err.Error(), status)
}

// observe offers an observation to every collation
func (s *Server) observe(ctx context.Context, line []byte, now time.Time) (err error) {
	var row collation.Row
	if row, err = parseRow(line); err != nil {
		return err
	}
	row.ReceiveTime = now
	for i := 0; i < len(s.Stores) && err == nil; i++ {
		err = s.Stores[i].Write(ctx, row)
	}
	return err
}

func contentType('''))
same("query-found", P(V, "(s *Server) queryCollation(", ('''	for _, store := range s.Stores {
		if store.Collator.Name() == cname {
			res, err := store.Read(ctx, q)
			if err != nil {
				http.Error(w, err.Error(), http.StatusInternalServerError)
				return
			}

			for _, c := range q.Criteria {
				w.Write(c.F)
				w.Write([]byte{'='})
				w.Write(c.V)
				w.Write([]byte{'\\n'})
			}

			for _, f := range res.FieldMeasureValues {
				w.Write([]byte(f.String()))
				w.Write([]byte{'\\n'})
			}
			return
		}
	}

	http.NotFound(w, req)
''', '''	store := s.store(cname)
	if store == nil {
		http.NotFound(w, req)
		return
	}

	res, err := store.Read(ctx, q)
	if err != nil {
		http.Error(w, err.Error(), http.StatusInternalServerError)
		return
	}

	out := bufio.NewWriter(w)
	defer out.Flush()
	for _, c := range q.Criteria {
		out.Write(c.F)
		out.WriteByte('=')
		out.Write(c.V)
		out.WriteByte('\\n')
	}
	for i := range res.FieldMeasureValues {
		fmt.Fprintln(out, res.FieldMeasureValues[i])
	}
''')), (V, "func contentType(", '''// store finds the store of a collation
func (s *Server) store(name string) *storage.Store {
	for i := range s.Stores {
		if s.Stores[i].Collator.Name() == name {
			return &s.Stores[i]
		}
	}
	return nil
}

func contentType('''))
same("handlers-named", F(V, "(s *Server) registerHandlers(", '''
func (s *Server) registerHandlers() error {
	mux := http.NewServeMux()
	mux.HandleFunc("/obs", s.handleObs)
	mux.Handle("/collation/", http.StripPrefix("/collation/", http.HandlerFunc(s.handleCollation)))
	s.mux = mux
	return nil
}

func (s *Server) handleObs(w http.ResponseWriter, req *http.Request) {
	if req.Method != http.MethodPost {
		http.Error(w, "method not allowed", http.StatusMethodNotAllowed)
		return
	}
	s.recvObservation(req.Context(), w, req)
}

func (s *Server) handleCollation(w http.ResponseWriter, req *http.Request) {
	name := req.URL.Path
	if name == "" || strings.Contains(name, "/") {
		// TODO: list collations
		http.NotFound(w, req)
		return
	}

	switch req.Method {
	case http.MethodGet, http.MethodPost:
		s.queryCollation(req.Context(), name, w, req)
	default:
		http.Error(w, "method not allowed", http.StatusMethodNotAllowed)
	}
}
'''))
same("serve-defaults", P(V, "(s *Server) Serve(", ('''	if s.Addr == "" {
		s.Addr = ":2525"
	}

	if s.Net == "" {
		s.Net = "tcp"
	}

	if s.Logger == nil {
		s.Logger = log.New(os.Stderr, "", log.LstdFlags)
	}
''', '''	s.setDefaults()
''')), (V, "// waitSignal", '''func orDefault(s *string, d string) {
	if len(*s) == 0 {
		*s = d
	}
}

func (s *Server) setDefaults() {
	orDefault(&s.Addr, ":2525")
	orDefault(&s.Net, "tcp")
	if s.Logger == nil {
		s.Logger = New().Logger
	}
}

// waitSignal'''))
same("wait-simple", F(V, "(s *Server) waitSignal(", '''
func (s *Server) waitSignal(ch <-chan os.Signal, errs <-chan error) error {
	select {
	case <-ch:
		// only signals to terminate are asked for
		return nil
	case err := <-errs:
		return fmt.Errorf("fatal error serving on %s: %v", s.Addr, err)
	}
}
'''))
same("row-cursor", F(V, "parseRow(", '''
func parseRow(data []byte) (collation.Row, error) {
	n := 0
	for n < len(data) && '0' <= data[n] && data[n] <= '9' {
		n++
	}
	if n == 0 {
		// No timestamp
		return collation.Row{}, fmt.Errorf("row missing leading timestamp")
	}

	us, err := strconv.ParseInt(string(data[:n]), 10, 64)
	if err != nil {
		return collation.Row{}, err
	}

	const second = int64(time.Second / time.Microsecond)
	row := collation.Row{DataTime: time.Unix(us/second, us%second*int64(time.Microsecond))}
	if rest := data[n:]; len(rest) > 0 {
		row.Data = parseFields(rest[1:], rest[0])
	}
	return row, nil
}

// parseFields splits the fields of a row
func parseFields(data []byte, delim byte) collation.FVList {
	var fields collation.FVList
	for {
		end := bytes.IndexByte(data, delim)
		if end < 0 {
			return append(fields, parseFV(data))
		}
		fields = append(fields, parseFV(data[:end]))
		data = data[end+1:]
	}
}
'''))
same("rough-find", P(Q, "RoughParse(", ('''		i, found := fields[s[2]]
		if !found {
			i = len(q.FieldMeasures)
			fields[s[2]] = i
			q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(s[2])})
		}
		q.FieldMeasures[i].M = append(q.FieldMeasures[i].M, []byte(s[1]))
''', '''		measure, field := []byte(s[1]), s[2]
		if i, found := fields[field]; found {
			q.FieldMeasures[i].M = append(q.FieldMeasures[i].M, measure)
		} else {
			fields[field] = len(q.FieldMeasures)
			q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(field), M: [][]byte{measure}})
		}
''')))
same("rough-split", F(Q, "RoughParse(", '''
func RoughParse(in string) (collation.Query, error) {
	parts := queryRe.FindStringSubmatch(in)
	if parts == nil {
		return collation.Query{}, fmt.Errorf("query: syntax error; expected query to have format 'select xxx where yyy'")
	}
	return collation.Query{
		FieldMeasures: parseSelections(parts[1]),
		Criteria:      parseCriteria(parts[2]),
	}, nil
}

func parseSelections(in string) []collation.FM {
	var fms []collation.FM
	fields := map[string]int{}
	for _, s := range selectRe.FindAllStringSubmatch(in, -1) {
		i, found := fields[s[2]]
		if !found {
			i = len(fms)
			fields[s[2]] = i
			fms = append(fms, collation.FM{F: []byte(s[2])})
		}
		fms[i].M = append(fms[i].M, []byte(s[1]))
	}
	return fms
}

func parseCriteria(in string) collation.FVList {
	var l collation.FVList
	for _, w := range whereRe.FindAllStringSubmatch(in, -1) {
		l = append(l, collation.FV{F: []byte(w[1]), V: []byte(w[2])})
	}
	return l
}
'''))
same("compile-stat-helper", P(C, "(s *Schema) Compile(", ('''				switch m.(type) {
				case Count, Sum, Mean, Variance:
					if stat64 {
						// We already have a stat64 measure, so reuse it for writing
						low, hi = stat64Low, stat64Hi
						skipWriter = true
						break
					}
					stat64 = true
					stat64Low = pos
					stat64Hi = pos + size
				}
''', '''				if usesStat64(m) {
					if stat64 {
						// We already have a stat64 measure, so reuse it for writing
						low, hi, skipWriter = stat64Low, stat64Hi, true
					} else {
						stat64, stat64Low, stat64Hi = true, low, hi
					}
				}
''')), (C, "func validateMeasure(", '''// usesStat64 reports whether a measure is part of a stat64 summary
func usesStat64(m Measure) bool {
	switch m.(type) {
	case Count, Sum, Mean, Variance:
		return true
	}
	return false
}

func validateMeasure('''))
same("compile-row-helper", P(C, "(s *Schema) Compile(", ('''		if cm, ok := m.(ContinuousOutput); ok {
			crs, found := coll.contReaders[RowPseudoField]
			if !found {
				crs = make(map[string]contReader)
			}
			crs[m.Name()] = contReader{
				Low:  pos,
				High: pos + size,
				Fn:   cm.ContReader(),
			}
			coll.contReaders[RowPseudoField] = crs
		}

		if cm, ok := m.(DiscreteOutput); ok {
			crs, found := coll.discReaders[RowPseudoField]
			if !found {
				crs = make(map[string]discReader)
			}
			crs[m.Name()] = discReader{
				Low:  pos,
				High: pos + size,
				Fn:   cm.DiscReader(),
			}
			coll.discReaders[RowPseudoField] = crs
		}

''', '''		coll.addReaders(RowPseudoField, m, pos, pos+size)
''')), (C, "func validateMeasure(", '''// addReaders makes the output of a measure available to queries
func (c *Collator) addReaders(field string, m Measure, low, high int) {
	if out, ok := m.(ContinuousOutput); ok {
		if c.contReaders[field] == nil {
			c.contReaders[field] = map[string]contReader{}
		}
		c.contReaders[field][m.Name()] = contReader{low, high, out.ContReader()}
	}
	if out, ok := m.(DiscreteOutput); ok {
		if c.discReaders[field] == nil {
			c.discReaders[field] = map[string]discReader{}
		}
		c.discReaders[field][m.Name()] = discReader{low, high, out.DiscReader()}
	}
}

func validateMeasure('''))
same("measure-extreme", F(M, "(m Max) ContWriter(", '''
func (m Max) ContWriter() ContWriterFunc {
	return extreme(m.Init, func(v, c float64) bool { return v > c })
}

// extreme keeps the value that is better than all the others
func extreme(start func([]byte) error, better func(v, c float64) bool) ContWriterFunc {
	return func(buf []byte, init bool, v float64) error {
		if init {
			if err := start(buf); err != nil {
				return err
			}
		}
		if better(v, getFloat(buf)) {
			putFloat(buf, v)
		}
		return nil
	}
}

func getFloat(buf []byte) float64 {
	return math.Float64frombits(binary.LittleEndian.Uint64(buf))
}

func putFloat(buf []byte, v float64) {
	binary.LittleEndian.PutUint64(buf, math.Float64bits(v))
}
'''), F(M, "(m Min) ContWriter(", '''
func (m Min) ContWriter() ContWriterFunc {
	return extreme(m.Init, func(v, c float64) bool { return v < c })
}
'''))
same("measure-stat-fns", F(M, "(Sum) ContWriter(", '''
func (Sum) ContWriter() ContWriterFunc { return updateStat64 }

func updateStat64(buf []byte, init bool, v float64) error {
	stat64.WithBytes(buf).Update(v)
	return nil
}
'''), F(M, "(Mean) ContWriter(", '''
func (Mean) ContWriter() ContWriterFunc { return updateStat64 }
'''), F(M, "(Variance) ContWriter(", '''
func (Variance) ContWriter() ContWriterFunc { return updateStat64 }
'''), F(M, "(Sum) ContReader(", '''
func (Sum) ContReader() ContReaderFunc { return readStat64(stat64.Summary.Sum) }

func readStat64(get func(stat64.Summary) float64) ContReaderFunc {
	return func(buf []byte) (float64, error) {
		return get(stat64.WithBytes(buf)), nil
	}
}
'''), F(M, "(Mean) ContReader(", '''
func (Mean) ContReader() ContReaderFunc { return readStat64(stat64.Summary.Mean) }
'''))
same("demo-table", F(D, "setupDemo(", '''
func setupDemo(s *server.Server) error {
	for _, sch := range demoSchemas() {
		if err := addDemoCollation(s, sch); err != nil {
			return err
		}
	}
	return nil
}

func demoSchemas() []collation.Schema {
	return []collation.Schema{
		{
			Name:           "country",
			Keys:           []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "country"}}},
			RecordMeasures: []collation.RowMeasure{collation.Count{}},
			Measures: []collation.MeasureSpec{
				{Field: collation.FieldSpec{Pattern: "height"}, Measures: []collation.Measure{collation.Mean{}, collation.Sum{}, collation.Variance{}, collation.Max{}, collation.Min{}}},
				{Field: collation.FieldSpec{Pattern: "iata"}, Measures: []collation.Measure{collation.Cardinality{Precision: 10}}},
			},
		},
		{
			Name:           "tz",
			Keys:           []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "tz"}}},
			RecordMeasures: []collation.RowMeasure{collation.Count{}},
			Measures: []collation.MeasureSpec{
				{Field: collation.FieldSpec{Pattern: "country"}, Measures: []collation.Measure{collation.Cardinality{Precision: 8}}},
				{Field: collation.FieldSpec{Pattern: "height"}, Measures: []collation.Measure{collation.Cardinality{Precision: 8}}},
			},
		},
	}
}
'''))
same("main-run", F(W, "main(", '''
func main() {
	if err := run(); err != nil {
		log.Println(err)
		os.Exit(1)
	}
}

func run() error {
	s := server.New()
	if err := setupDemo(s); err != nil {
		return err
	}
	return s.Serve()
}
'''), (W, '	"log"\n', '	"log"\n	"os"\n'))
same("hll-count-split", F(H, "(c *Counter) Count(", '''
func (c *Counter) Count() int64 {
	if n, ok := c.small(); ok {
		return n
	}

	m := float64(uint64(1) << c.p)
	z := c.harmonic(int(m))
	if z*7.0 >= c.alpha*m {
		z = c.poisson()
	}
	return int64(math.Ceil(c.alpha * m * m / z))
}

// small is the count if it is in the low region
func (c *Counter) small() (int64, bool) {
	v := c.bits.CountN(0)
	if v == 0 {
		return 0, false
	}
	m := float64(uint64(1) << c.p)
	h := math.Ceil(m * math.Log(m/float64(v)))
	return int64(h), h <= c.threshold
}
'''))
same("hll-header", P(H, "(c *Counter) ReadFrom(", ('''	version := buf[0]
	if version != Version {
		return int64(n), ErrIncompatibleVersion
	}

	p := buf[1]
	if p < 4 || p > 18 {
		return int64(n), ErrInvalidPrecision
	}
''', '''	p, err := precision(buf[:])
	if err != nil {
		return int64(n), err
	}
''')), P(H, "WithBytes(", ('''	version := buf[0]
	if version != Version {
		return Counter{}, ErrIncompatibleVersion
	}

	p := buf[1]
	if p < 4 || p > 18 {
		return Counter{}, ErrInvalidPrecision
	}
''', '''	p, err := precision(buf)
	if err != nil {
		return Counter{}, err
	}
''')), (H, "func validRegisters(", '''// precision reads the header
func precision(hdr []byte) (uint8, error) {
	if hdr[0] != Version {
		return 0, ErrIncompatibleVersion
	}
	if p := hdr[1]; p >= 4 && p <= 18 {
		return p, nil
	}
	return 0, ErrInvalidPrecision
}

func validRegisters('''))
