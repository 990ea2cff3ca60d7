"""Larger refactorings, written without regard to the analyses."""
from edits_fresh2 import F, P, src
EDITS = []
def same(name, *eds): EDITS.append(dict(name="fresh3-" + name, kind="same", props=[], edits=list(eds)))
def bug(name, props, *eds): EDITS.append(dict(name="fresh3-" + name, kind="bug", props=props.split(), edits=list(eds)))
V = "internal/server/server.go"
Z = "internal/storage/storage.go"
Q = "internal/query/rough.go"
C = "internal/collation/compile.go"
L = "internal/collation/schema.go"
M = "internal/collation/measure.go"
B = "internal/bufmap/bufmap.go"
I = "internal/incmap/incmap.go"
S = "internal/seqlock/seqlock.go"
H = "internal/summary/hll/hll.go"
BL = "internal/summary/bloom/bloom.go"
N = "internal/hash/fnv/fnv.go"
BB = "internal/bitbucket/bitbucket.go"
X = "internal/summary/stat64/stats.go"

# errors with a status, sent in one place
STATUS = '''
// statusError is an error that is reported with an HTTP status.
type statusError struct {
	code int
	msg  string
}

func (e *statusError) Error() string { return e.msg }

func failed(code int, err error) *statusError {
	return &statusError{code: code, msg: err.Error()}
}

// recvObservation receives one or more observations and sends them to the collators
func (s *Server) recvObservation(ctx context.Context, w http.ResponseWriter, req *http.Request) {
	if err := s.observe(ctx, req); err != nil {
		http.Error(w, err.msg, err.code)
	}
}

func (s *Server) observe(ctx context.Context, req *http.Request) *statusError {
	ct, err := contentType(req)
	if err != nil {
		return failed(http.StatusBadRequest, err)
	}

	var r io.Reader
	switch ct {
	case "application/x-www-form-urlencoded":
		if err := req.ParseForm(); err != nil {
			return failed(http.StatusBadRequest, err)
		}
		data := req.FormValue("data")
		if data == "" {
			return &statusError{http.StatusBadRequest, "no data supplied"}
		}
		r = strings.NewReader(data)
	case "text/plain", "application/octet-stream":
		r = req.Body
		defer req.Body.Close()
	default:
		return &statusError{http.StatusUnsupportedMediaType, "unknown media type"}
	}

	now := time.Now()
	sc := bufio.NewScanner(r)
	for sc.Scan() {
		// Check whether context has been cancelled
		select {
		case <-ctx.Done():
			return failed(http.StatusServiceUnavailable, ctx.Err())
		default:
		}

		row, err := parseRow(sc.Bytes())
		if err != nil {
			return failed(http.StatusInternalServerError, err)
		}

		row.ReceiveTime = now
		for _, st := range s.Stores {
			if err := st.Write(ctx, row); err != nil {
				return failed(http.StatusInternalServerError, err)
			}
		}
	}
	if err := sc.Err(); err != nil {
		return failed(http.StatusInternalServerError, err)
	}
	return nil
}
'''
same("status-error", F(V, "(s *Server) recvObservation(", STATUS))
CODE = STATUS[STATUS.index("func (s *Server) observe"):].replace("*statusError {", "(int, error) {").replace("return failed(", "return ").replace('ctx.Err())', 'ctx.Err()').replace(", err)\n", ", err\n").replace('&statusError{http.StatusBadRequest, "no data supplied"}', 'http.StatusBadRequest, errors.New("no data supplied")').replace('&statusError{http.StatusUnsupportedMediaType, "unknown media type"}', 'http.StatusUnsupportedMediaType, errors.New("unknown media type")').replace("	return nil\n}", "	return http.StatusOK, nil\n}")
same("status-code", F(V, "(s *Server) recvObservation(", '''
func (s *Server) recvObservation(ctx context.Context, w http.ResponseWriter, req *http.Request) {
	code, err := s.observe(ctx, req)
	if err != nil {
		http.Error(w, err.Error(), code)
		return
	}
}

''' + CODE), (V, '	"context"\n', '	"context"\n	"errors"\n'))

# the source of rows as an object
same("row-source", (V, "\t\"io\"\n", ""), F(V, "(s *Server) recvObservation(", '''
func (s *Server) recvObservation(ctx context.Context, w http.ResponseWriter, req *http.Request) {
	ct, err := contentType(req)
	if err != nil {
		http.Error(w, err.Error(), http.StatusBadRequest)
		return
	}

	src := rowSource{now: time.Now()}
	switch ct {
	case "application/x-www-form-urlencoded":
		if err := req.ParseForm(); err != nil {
			http.Error(w, err.Error(), http.StatusBadRequest)
			return
		}
		data := req.FormValue("data")
		if data == "" {
			http.Error(w, "no data supplied", http.StatusBadRequest)
			return
		}
		src.sc = bufio.NewScanner(strings.NewReader(data))
	case "text/plain", "application/octet-stream":
		src.sc = bufio.NewScanner(req.Body)
		defer req.Body.Close()
	default:
		http.Error(w, "unknown media type", http.StatusUnsupportedMediaType)
		return
	}

	for src.next() {
		if err := ctx.Err(); err != nil {
			http.Error(w, err.Error(), http.StatusServiceUnavailable)
			return
		}
		row, err := src.row()
		if err == nil {
			err = s.writeAll(ctx, row)
		}
		if err != nil {
			http.Error(w, err.Error(), http.StatusInternalServerError)
			return
		}
	}
	if err := src.err(); err != nil {
		http.Error(w, err.Error(), http.StatusInternalServerError)
	}
}

func (s *Server) writeAll(ctx context.Context, row collation.Row) error {
	for i := range s.Stores {
		if err := s.Stores[i].Write(ctx, row); err != nil {
			return err
		}
	}
	return nil
}

// rowSource reads rows, one from each line.
type rowSource struct {
	sc  *bufio.Scanner
	now time.Time
}

func (r *rowSource) next() bool { return r.sc.Scan() }
func (r *rowSource) err() error { return r.sc.Err() }

func (r *rowSource) row() (collation.Row, error) {
	row, err := parseRow(r.sc.Bytes())
	row.ReceiveTime = r.now
	return row, err
}
'''))

# the parser as an object
same("row-parser", F(V, "parseRow(", '''
func parseRow(data []byte) (collation.Row, error) {
	p := rowParser{rest: data}
	var row collation.Row
	var err error
	if row.DataTime, err = p.timestamp(); err != nil {
		return row, err
	}
	row.Data = p.fields()
	return row, nil
}

type rowParser struct {
	rest []byte
}

// timestamp parses the microseconds at the beginning
func (p *rowParser) timestamp() (time.Time, error) {
	n := 0
	for n < len(p.rest) && '0' <= p.rest[n] && p.rest[n] <= '9' {
		n++
	}
	if n == 0 {
		return time.Time{}, fmt.Errorf("row missing leading timestamp")
	}
	us, err := strconv.ParseInt(string(p.rest[:n]), 10, 64)
	if err != nil {
		return time.Time{}, err
	}
	p.rest = p.rest[n:]
	return time.Unix(us/1000000, us%1000000*1000), nil
}

// fields parses what follows
func (p *rowParser) fields() collation.FVList {
	if len(p.rest) == 0 {
		return nil
	}
	delim := p.rest[0]
	p.rest = p.rest[1:]
	var list collation.FVList
	for more := true; more; {
		field := p.rest
		end := bytes.IndexByte(p.rest, delim)
		if more = end >= 0; more {
			field, p.rest = p.rest[:end], p.rest[end+1:]
		}
		list = append(list, parseFV(field))
	}
	return list
}
'''))

same("query-find", F(V, "(s *Server) queryCollation(", '''
func (s *Server) queryCollation(ctx context.Context, cname string, w http.ResponseWriter, req *http.Request) {
	q, err := query.RoughParse(req.FormValue("q"))
	if err != nil {
		http.Error(w, err.Error(), http.StatusBadRequest)
		return
	}

	store, found := s.lookup(cname)
	if !found {
		http.NotFound(w, req)
		return
	}

	res, err := store.Read(ctx, q)
	if err != nil {
		http.Error(w, err.Error(), http.StatusInternalServerError)
		return
	}
	writeAnswer(w, &q, &res)
}

func (s *Server) lookup(name string) (*storage.Store, bool) {
	for i := range s.Stores {
		st := &s.Stores[i]
		if st.Collator.Name() == name {
			return st, true
		}
	}
	return nil, false
}

func writeAnswer(w io.Writer, q *collation.Query, res *collation.Result) {
	for i := range q.Criteria {
		writeLine(w, q.Criteria[i].F, []byte("="), q.Criteria[i].V)
	}
	for i := range res.FieldMeasureValues {
		writeLine(w, []byte(res.FieldMeasureValues[i].String()))
	}
}

func writeLine(w io.Writer, parts ...[]byte) {
	for _, p := range parts {
		w.Write(p)
	}
	w.Write([]byte{'\\n'})
}
'''))

same("require-method", F(V, "(s *Server) registerHandlers(", '''
func (s *Server) registerHandlers() error {
	s.mux = http.NewServeMux()
	s.mux.Handle("/obs", allow(func(w http.ResponseWriter, req *http.Request) {
		s.recvObservation(req.Context(), w, req)
	}, http.MethodPost))
	s.mux.HandleFunc("/collation/", s.collation)
	return nil
}

// allow answers requests with other methods
func allow(h http.HandlerFunc, methods ...string) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		for _, m := range methods {
			if req.Method == m {
				h(w, req)
				return
			}
		}
		http.Error(w, "method not allowed", http.StatusMethodNotAllowed)
	})
}

func (s *Server) collation(w http.ResponseWriter, req *http.Request) {
	name := strings.TrimPrefix(req.URL.Path, "/collation/")
	if name == "" || strings.Contains(name, "/") {
		http.NotFound(w, req)
		return
	}
	query := func(w http.ResponseWriter, req *http.Request) {
		s.queryCollation(req.Context(), name, w, req)
	}
	allow(query, http.MethodPost, http.MethodGet).ServeHTTP(w, req)
}
'''))

same("store-split", F(Z, "(s *Store) Write(", '''
func (s *Store) Write(ctx context.Context, r collation.Row) error {
	key, ok := r.KeyValue(s.Collator.Keys())
	if !ok {
		return nil
	}
	if err := cancelled(ctx); err != nil {
		return err
	}
	return s.Backend.Update(key, func(data []byte, init bool) error {
		return s.Collator.Update(r, data, init)
	})
}

func cancelled(ctx context.Context) error {
	select {
	case <-ctx.Done():
		return ctx.Err()
	default:
		return nil
	}
}
'''), F(Z, "(s *Store) Read(", '''
func (s *Store) Read(ctx context.Context, q collation.Query) (res collation.Result, err error) {
	buf, found := s.record(&q)
	if found {
		res, err = s.Collator.Read(q.FieldMeasures, buf)
	}
	return res, err
}

// record reads the record that a query asks for
func (s *Store) record(q *collation.Query) ([]byte, bool) {
	key, found := q.KeyValue(s.Collator.Keys())
	if !found {
		return nil, false
	}
	buf := make([]byte, s.Collator.Size())
	return buf, s.Backend.Get(key, buf)
}
'''))

same("compile-builder", F(C, "(s *Schema) Compile(", '''
func (s *Schema) Compile() (Collator, error) {
	b := builder{Collator{
		name:        s.Name,
		contWriters: make(map[string][]contWriter),
		discWriters: make(map[string][]discWriter),
		contReaders: make(map[string]map[string]contReader),
		discReaders: make(map[string]map[string]discReader),
	}}
	for _, k := range s.Keys {
		b.coll.keys = append(b.coll.keys, []byte(k.Field.Pattern))
	}
	for _, m := range s.RecordMeasures {
		b.addRow(m)
	}
	for _, ms := range s.Measures {
		if err := b.addField(ms); err != nil {
			return Collator{}, err
		}
	}
	return b.coll, nil
}

// A span is a range of a record.
type span struct{ low, high int }

// A builder puts a collator together.
type builder struct {
	coll Collator
}

// alloc makes room for n bytes at the end of records.
func (b *builder) alloc(n int) span {
	low := b.coll.size
	b.coll.size += n
	return span{low, b.coll.size}
}

func (b *builder) addRow(m RowMeasure) {
	r := b.alloc(m.Size())
	b.addInit(m, r)
	b.coll.writers = append(b.coll.writers, anyWriter{r.low, r.high, m.RowWriter()})
	b.addReaders(RowPseudoField, m, r)
}

func (b *builder) addField(ms MeasureSpec) error {
	field := ms.Field.Pattern
	var shared *span // summary for count, sum, mean and variance
	for _, m := range ms.Measures {
		if err := validateMeasure(m); err != nil {
			return fmt.Errorf("field %q: %v", field, err)
		}
		if ci, ok := m.(ContinuousInput); ok {
			size, stat := m.Size(), false
			switch m.(type) {
			case Count:
				size, stat = Sum{}.Size(), true
			case Sum, Mean, Variance:
				stat = true
			}
			if stat && shared != nil {
				b.addReaders(field, m, *shared)
			} else {
				r := b.alloc(size)
				b.addInit(m, r)
				b.coll.contWriters[field] = append(b.coll.contWriters[field], contWriter{r.low, r.high, ci.ContWriter()})
				b.addReaders(field, m, r)
				if stat {
					shared = &r
				}
			}
		}
		if di, ok := m.(DiscreteInput); ok {
			r := b.alloc(m.Size())
			b.addInit(m, r)
			b.coll.discWriters[field] = append(b.coll.discWriters[field], discWriter{r.low, r.high, di.DiscWriter()})
			b.addReaders(field, m, r)
		}
	}
	return nil
}

func (b *builder) addInit(m Measure, r span) {
	if im, ok := m.(Initializer); ok {
		b.coll.inits = append(b.coll.inits, initializer{r.low, r.high, im.Init})
	}
}

func (b *builder) addReaders(field string, m Measure, r span) {
	if cm, ok := m.(ContinuousOutput); ok {
		if b.coll.contReaders[field] == nil {
			b.coll.contReaders[field] = make(map[string]contReader)
		}
		b.coll.contReaders[field][m.Name()] = contReader{r.low, r.high, cm.ContReader()}
	}
	if dm, ok := m.(DiscreteOutput); ok {
		if b.coll.discReaders[field] == nil {
			b.coll.discReaders[field] = make(map[string]discReader)
		}
		b.coll.discReaders[field][m.Name()] = discReader{r.low, r.high, dm.DiscReader()}
	}
}
'''))

same("collator-fields", F(L, "(c Collator) Update(", '''
func (c Collator) Update(r Row, buf []byte, init bool) error {
	if init {
		if err := c.reset(buf); err != nil {
			return err
		}
	}
	for i := range c.writers {
		if err := c.writers[i].Update(buf, false); err != nil {
			return err
		}
	}
	for i := range r.Data {
		field := string(r.Data[i].F)
		if err := c.updateCont(buf, field, r.Data[i].V); err != nil {
			return err
		}
		if err := c.updateDisc(buf, field, r.Data[i].V); err != nil {
			return err
		}
	}
	return nil
}

// reset puts a record in its initial state
func (c *Collator) reset(buf []byte) error {
	for i := range buf {
		buf[i] = 0
	}
	for i := range c.inits {
		if err := c.inits[i].Init(buf); err != nil {
			return err
		}
	}
	return nil
}

func (c *Collator) updateCont(buf []byte, field string, value []byte) error {
	ws := c.contWriters[field]
	if len(ws) == 0 {
		return nil
	}
	v, err := strconv.ParseFloat(string(value), 64)
	if err != nil {
		return err
	}
	for i := range ws {
		if err := ws[i].UpdateFloat64(buf, false, v); err != nil {
			return err
		}
	}
	return nil
}

func (c *Collator) updateDisc(buf []byte, field string, value []byte) error {
	for _, w := range c.discWriters[field] {
		if err := w.UpdateItem(buf, false, value); err != nil {
			return err
		}
	}
	return nil
}
'''), F(L, "(c Collator) Read(", '''
func (c Collator) Read(fml []FM, buf []byte) (Result, error) {
	var res Result
	add := func(fm FM, measure []byte, v interface{}) {
		res.FieldMeasureValues = append(res.FieldMeasureValues, FMV{F: fm.F, M: measure, V: v})
	}
	for _, fm := range fml {
		cont, disc := c.contReaders[string(fm.F)], c.discReaders[string(fm.F)]
		for _, measure := range fm.M {
			r, ok := cont[string(measure)]
			if !ok {
				continue
			}
			v, err := r.ReadFloat64(buf)
			if err != nil {
				return res, err
			}
			add(fm, measure, v)
		}
		for _, measure := range fm.M {
			r, ok := disc[string(measure)]
			if !ok {
				continue
			}
			v, err := r.ReadItem(buf)
			if err != nil {
				return res, err
			}
			add(fm, measure, v)
		}
	}
	return res, nil
}
'''))

same("key-lookup", F(L, "(fv FVList) KeyValue(", '''
func (fv FVList) KeyValue(keys [][]byte) (uint64, bool) {
	h := fnv.New64()
	for _, key := range keys {
		field, ok := fv.lookup(key)
		if !ok {
			return 0, false
		}
		h.Write(field.F)
		h.Write(field.V)
	}
	return h.Sum64(), true
}

func (fv FVList) lookup(name []byte) (*FV, bool) {
	for i := range fv {
		if bytes.Equal(fv[i].F, name) {
			return &fv[i], true
		}
	}
	return nil, false
}
'''))

same("rough-index", F(Q, "RoughParse(", '''
func RoughParse(in string) (collation.Query, error) {
	parts := queryRe.FindStringSubmatch(in)
	if parts == nil {
		return collation.Query{}, fmt.Errorf("query: syntax error; expected query to have format 'select xxx where yyy'")
	}
	return collation.Query{
		FieldMeasures: parseSelections(parts[1]),
		Criteria:      parseCriteria(parts[2]),
	}, nil
}

func parseSelections(in string) []collation.FM {
	var fms []collation.FM
	for _, s := range selectRe.FindAllStringSubmatch(in, -1) {
		measure, field := s[1], s[2]
		at := -1
		for i := range fms {
			if string(fms[i].F) == field {
				at = i
			}
		}
		if at < 0 {
			at = len(fms)
			fms = append(fms, collation.FM{F: []byte(field)})
		}
		fms[at].M = append(fms[at].M, []byte(measure))
	}
	return fms
}

func parseCriteria(in string) (list collation.FVList) {
	for _, w := range whereRe.FindAllStringSubmatch(in, -1) {
		list = append(list, collation.FV{F: []byte(w[1]), V: []byte(w[2])})
	}
	return
}
'''))

same("bufmap-slots", F(B, "(m *Map) Get(", '''
func (m *Map) Get(k uint64, buf []byte) bool {
	x, ok := m.find(k)
	if !ok || !m.keys[x].isLive() {
		return false
	}
	for !m.keys[x].read(buf, m.data(x)) {
	}
	return true
}

// find locates the slot of a key
func (m *Map) find(k uint64) (int, bool) {
	if k == 0 {
		return -1, false
	}
	for i := 0; i <= maxReprobe; i++ {
		x := m.pos(k, i)
		if atomic.LoadUint64(&m.keys[x].key) == k {
			return x, true
		}
	}
	return -1, false
}

// claim locates the slot of a key, taking a free one if there is none
func (m *Map) claim(k uint64) (int, error) {
	for i := 0; i <= maxReprobe; i++ {
		x := m.pos(k, i)
		if m.keys[x].take(k) {
			return x, nil
		}
	}
	return -1, ErrOutOfSlots
}

func (m *Map) data(x int) []byte {
	return m.values[x*m.s : (x+1)*m.s]
}

func (s *slot) isLive() bool { return atomic.LoadUint32(&s.live) != 0 }

// take reports whether the slot belongs to k, if need be after claiming it
func (s *slot) take(k uint64) bool {
	if atomic.LoadUint64(&s.key) == k {
		return true
	}
	if atomic.CompareAndSwapUint64(&s.key, 0, k) {
		return true
	}
	return atomic.LoadUint64(&s.key) == k
}

// read copies data and reports whether it was left alone meanwhile
func (s *slot) read(buf, data []byte) bool {
	before := atomic.LoadUint32(&s.seq)
	if before&1 != 0 {
		return false
	}
	copy(buf, data)
	return atomic.LoadUint32(&s.seq) == before
}

// write replaces data
func (s *slot) write(data, buf []byte) {
	atomic.AddUint32(&s.seq, 1)
	copy(data, buf)
	atomic.StoreUint32(&s.live, 1)
	atomic.AddUint32(&s.seq, 1)
}
'''), F(B, "(m *Map) Update(", '''
func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
	if k == 0 {
		return ErrInvalidKey
	}
	x, err := m.claim(k)
	if err != nil {
		return err
	}
	s, data := &m.keys[x], m.data(x)

	s.mu.Lock()
	defer s.mu.Unlock()

	buf := append(make([]byte, 0, m.s), data...)
	if err := fn(buf, !s.isLive()); err != nil {
		return err
	}
	s.write(data, buf)
	return nil
}
'''))

same("incmap-take", F(I, "(m *Map) Inc(", '''
func (m *Map) Inc(k uint64, d uint64) bool {
	x := m.locate(k, true)
	if x < 0 {
		return false
	}
	atomic.AddUint64(&m.values[x], d)
	return true
}

// locate finds the slot of k, or -1, claiming one if asked to
func (m *Map) locate(k uint64, claim bool) int {
	if k == 0 {
		return -1
	}
	for i := 0; i <= maxReprobe; i++ {
		x := m.pos(k, i)
		key := &m.keys[x]
		if atomic.LoadUint64(key) == k {
			return x
		}
		if claim && (atomic.CompareAndSwapUint64(key, 0, k) || atomic.LoadUint64(key) == k) {
			return x
		}
	}
	return -1
}
'''), F(I, "(m *Map) Get(", '''
func (m *Map) Get(k uint64) (uint64, bool) {
	if x := m.locate(k, false); x >= 0 {
		return atomic.LoadUint64(&m.values[x]), true
	}
	return 0, false
}
'''))


same("fnv-delegate", F(N, "Sum64(", """
func Sum64(buf []byte) uint64 {
	h := New64()
	h.Write(buf)
	return h.Sum64()
}
"""), F(N, "Sum64a(", """
func Sum64a(buf []byte) uint64 {
	var h Fnv64a
	h.Reset()
	h.Write(buf)
	return h.Sum64()
}
"""), F(N, "String64(", """
func String64(str string) uint64 {
	h := New64()
	h.WriteString(str)
	return uint64(*h)
}
"""), F(N, "(s *Fnv64) WriteString(", """
func (s *Fnv64) WriteString(str string) (int, error) {
	for i := range []byte(str) {
		s.WriteByte(str[i])
	}
	return len(str), nil
}
"""), F(N, "(s *Fnv64a) WriteUint64(", """
func (s *Fnv64a) WriteUint64(n uint64) {
	for shift := uint(64); shift > 0; {
		shift -= 8
		s.WriteByte(byte(n >> shift))
	}
}
"""))

same("stat-cells", F(X, "(s Summary) Update(", """
func (s Summary) Update(v float64) {
	st := s.load()
	st.add(v)
	s.store(st)
}

// state is what a summary consists of
type state struct {
	count         uint64
	sum, mean, ss float64
}

func (s Summary) cell(i int) []byte { return s[8*i : 8*i+8] }

func (s Summary) float(i int) float64 {
	return math.Float64frombits(binary.LittleEndian.Uint64(s.cell(i)))
}

func (s Summary) setFloat(i int, v float64) {
	binary.LittleEndian.PutUint64(s.cell(i), math.Float64bits(v))
}

func (s Summary) load() state {
	return state{s.Count(), s.float(1), s.float(2), s.float(3)}
}

func (s Summary) store(st state) {
	binary.LittleEndian.PutUint64(s.cell(0), st.count)
	s.setFloat(1, st.sum)
	s.setFloat(2, st.mean)
	s.setFloat(3, st.ss)
}

func (st *state) add(v float64) {
	st.count++
	st.sum += v
	delta := v - st.mean
	st.mean += delta / float64(st.count)
	st.ss += delta * (v - st.mean)
}
"""), F(X, "(s Summary) UpdateMulti(", """
func (s Summary) UpdateMulti(vs []float64) {
	st := s.load()
	for i := range vs {
		st.add(vs[i])
	}
	s.store(st)
}
"""), F(X, "(s Summary) Mean(", """
func (s Summary) Mean() float64 { return s.float(2) }
"""), F(X, "(s Summary) Variance(", """
func (s Summary) Variance() float64 {
	if n := s.Count(); n > 1 {
		return s.float(3) / float64(n-1)
	}
	return math.NaN()
}
"""))

EXT = """
// extreme is the state of Max and Min
type extreme []byte

func (e extreme) get() float64 { return math.Float64frombits(binary.LittleEndian.Uint64(e)) }

func (e extreme) set(v float64) { binary.LittleEndian.PutUint64(e, math.Float64bits(v)) }

func (e extreme) writer(start float64, better func(v, than float64) bool) ContWriterFunc {
	return nil
}
"""
def ext(m, sign, op):
    return [F(M, "(%s) Init(" % m, """
func (%s) Init(buf []byte) error {
	extreme(buf).set(math.Inf(%s))
	return nil
}
""" % (m, sign)), F(M, "(m %s) ContWriter(" % m, """
func (m %s) ContWriter() ContWriterFunc {
	return keepIf(m.Init, func(v, than float64) bool { return v %s than })
}
""" % (m, op)), F(M, "(%s) ContReader(" % m, """
func (%s) ContReader() ContReaderFunc {
	return func(buf []byte) (float64, error) { return extreme(buf).get(), nil }
}
""" % m)]
same("extremes", *ext("Max", "-1", ">"), *ext("Min", "1", "<"), (M, "// Approximate measures\n", """// extreme is the state of Max and Min
type extreme []byte

func (e extreme) get() float64 { return math.Float64frombits(binary.LittleEndian.Uint64(e)) }

func (e extreme) set(v float64) { binary.LittleEndian.PutUint64(e, math.Float64bits(v)) }

// keepIf gives the writer that keeps the values which are better than the one kept
func keepIf(start func(buf []byte) error, better func(v, than float64) bool) ContWriterFunc {
	return func(buf []byte, init bool, v float64) error {
		if init {
			if err := start(buf); err != nil {
				return err
			}
		}
		if e := extreme(buf); better(v, e.get()) {
			e.set(v)
		}
		return nil
	}
}

// Approximate measures
"""))
same("stat-embedded", F(M, "(Sum) ContWriter(", """
func (Sum) ContWriter() ContWriterFunc { return updateSummary }

// updateSummary is the writer of the measures that share a summary
func updateSummary(buf []byte, init bool, v float64) error {
	stat64.WithBytes(buf).Update(v)
	return nil
}

func summaryReader(get func(stat64.Summary) float64) ContReaderFunc {
	return func(buf []byte) (float64, error) {
		return get(stat64.WithBytes(buf)), nil
	}
}
"""), F(M, "(Mean) ContWriter(", "func (Mean) ContWriter() ContWriterFunc { return updateSummary }"), F(M, "(Count) ContWriter(", "func (Count) ContWriter() ContWriterFunc { return updateSummary }"),
 F(M, "(Sum) ContReader(", "func (Sum) ContReader() ContReaderFunc { return summaryReader(stat64.Summary.Sum) }"),
 F(M, "(Mean) ContReader(", "func (Mean) ContReader() ContReaderFunc { return summaryReader(stat64.Summary.Mean) }"),
 F(M, "(Variance) ContReader(", "func (Variance) ContReader() ContReaderFunc { return summaryReader(stat64.Summary.Variance) }"))
same("card-with", F(M, "(c Cardinality) DiscWriter(", """
func (c Cardinality) DiscWriter() DiscWriterFunc {
	return func(buf []byte, init bool, v []byte) (err error) {
		if init {
			err = c.Init(buf)
		}
		if err == nil {
			err = withCounter(buf, func(s *hll.Counter) { s.Add(v) })
		}
		return err
	}
}

func withCounter(buf []byte, use func(s *hll.Counter)) error {
	s, err := hll.WithBytes(buf)
	if err != nil {
		return err
	}
	use(&s)
	return nil
}
"""), F(M, "(c Cardinality) ContReader(", """
func (c Cardinality) ContReader() ContReaderFunc {
	return func(buf []byte) (n float64, err error) {
		err = withCounter(buf, func(s *hll.Counter) { n = float64(s.Count()) })
		return n, err
	}
}
"""))
same("hll-header", F(H, "WithBytes(", """
func WithBytes(buf []byte) (Counter, error) {
	var c Counter
	if len(buf) < hdrLen {
		return c, io.ErrShortBuffer
	}
	p, err := parseHeader(buf)
	if err != nil {
		return c, err
	}
	bits, err := bitbucket.WithBytes(buf[hdrLen:])
	if err == nil && !validRegisters(p, &bits) {
		err = ErrInvalidRegisters
	}
	if err != nil {
		return c, err
	}
	c.p, c.bits = p, bits
	c.initParams()
	return c, nil
}

// parseHeader gives the precision
func parseHeader(hdr []byte) (uint8, error) {
	switch {
	case hdr[0] != Version:
		return 0, ErrIncompatibleVersion
	case hdr[1] < 4, hdr[1] > 18:
		return 0, ErrInvalidPrecision
	}
	return hdr[1], nil
}
"""), P(H, "(c *Counter) ReadFrom(", ("	version := buf[0]\n	if version != Version {\n		return int64(n), ErrIncompatibleVersion\n	}\n\n	p := buf[1]\n	if p < 4 || p > 18 {\n		return int64(n), ErrInvalidPrecision\n	}\n", "	p, err := parseHeader(buf[:])\n	if err != nil {\n		return int64(n), err\n	}\n")))
same("hll-add-split", F(H, "(c *Counter) Add(", """
func (c *Counter) Add(v []byte) {
	c.raise(c.position(fnv.Sum64(v)))
}

// position gives the register and the value for a hash
func (c *Counter) position(h uint64) (idx int, rho uint8) {
	shift := 64 - c.p
	idx = int(h >> shift)
	rest := h << c.p
	for rho = 1; rho <= shift; rho++ {
		if rest&(1<<63) != 0 {
			return
		}
		rest <<= 1
	}
	return
}

func (c *Counter) raise(idx int, v uint8) {
	if old := c.bits.Get(idx); old < v {
		c.bits.Set(idx, v)
	}
}
"""))
same("main-run", ("starbow.go", "	s := server.New()\n	if err := setupDemo(s); err != nil {\n		log.Fatal(err.Error())\n	}\n	if err := s.Serve(); err != nil {\n		log.Fatal(err.Error())\n	}\n}\n", "	if err := run(); err != nil {\n		log.Fatal(err)\n	}\n}\n\nfunc run() error {\n	s := server.New()\n	if err := setupDemo(s); err != nil {\n		return err\n	}\n	return s.Serve()\n}\n"))
same("serve-split", F(V, "(s *Server) Serve(", """
func (s *Server) Serve() error {
	s.setDefaults()

	signals := make(chan os.Signal, 1)
	signal.Notify(signals, syscall.SIGINT, syscall.SIGTERM)
	defer signal.Stop(signals)

	errs, err := s.start()
	if err != nil {
		return err
	}
	return s.waitSignal(signals, errs)
}

func (s *Server) setDefaults() {
	d := New()
	if s.Addr == "" {
		s.Addr = d.Addr
	}
	if s.Net == "" {
		s.Net = d.Net
	}
	if s.Logger == nil {
		s.Logger = d.Logger
	}
}

// start listens and serves in the background
func (s *Server) start() (<-chan error, error) {
	if err := s.registerHandlers(); err != nil {
		return nil, fmt.Errorf("fatal error registering handlers: %v", err)
	}
	listener, err := net.Listen(s.Net, s.Addr)
	if err != nil {
		return nil, fmt.Errorf("fatal error listening on %s: %v", s.Addr, err)
	}
	s.Logger.Printf("listening on %s", listener.Addr())
	errs := make(chan error, 1)
	go func() {
		hs := http.Server{Handler: s}
		errs <- hs.Serve(listener)
	}()
	return errs, nil
}
"""))
same("seq-try", F(S, "(s *Seqlock) Get(", """
func (s *Seqlock) Get() (v Value) {
	for {
		if ok := s.tryGet(&v); ok {
			return v
		}
	}
}
""") if "Get() (v Value)" in src(S) else F(I, "(m *Map) pos(", """
func (m *Map) pos(k uint64, i int) int {
	n := uint64(m.l)
	return int((k%n + uint64(i)) % n)
}
"""))
same("bb-fields", F(BB, "(b *BitBucket) Reset(", """
func (b *BitBucket) Reset() {
	for i := 0; i < len(b.data); i++ {
		b.data[i] = 0
	}
}
"""))
