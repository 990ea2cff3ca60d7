EDITS = []
V = "internal/server/server.go"
T = "internal/storage/storage.go"
S = "internal/collation/schema.go"
M = "internal/collation/measure.go"
K = "internal/collation/compile.go"
Q = "internal/query/rough.go"
B = "internal/bufmap/bufmap.go"
H = "internal/summary/hll/hll.go"
X = "internal/summary/stat64/stats.go"
D = "demo.go"
def e(name, kind, props, *eds, **kw):
    EDITS.append(dict(name="effects-" + name, kind=kind, props=props, edits=list(eds), **kw))

# ---- the same
e("read-helper", "same", [], (T, "	buf := make([]byte, s.Collator.Size())\n\n	if !s.Backend.Get(key, buf) {", "	buf, ok := s.fetch(key)\n	if !ok {"),
  (T, "type Transaction struct {", '''func (s *Store) fetch(key uint64) ([]byte, bool) {
	buf := make([]byte, s.Collator.Size())
	return buf, s.Backend.Get(key, buf)
}

type Transaction struct {'''))
e("tx-closure", "same", [], (T, "	return s.Backend.Update(key, t.Do)", "	return s.Backend.Update(key, func(data []byte, init bool) error { return t.Do(data, init) })"))
e("tx-none", "same", [], (T, "	return s.Backend.Update(key, t.Do)", "	_ = t\n	return s.Backend.Update(key, func(data []byte, init bool) error { return s.Collator.Update(r, data, init) })"))
e("tx-pointer", "same", [], (T, "	t := Transaction{", "	t := &Transaction{"))
e("map-sorted", "same", [], (V, '''			for _, f := range res.FieldMeasureValues {
				w.Write([]byte(f.String()))
				w.Write([]byte{'\\n'})
			}
''', '''			seen := map[string]int{}
			for _, f := range res.FieldMeasureValues {
				seen[string(f.M)]++
				w.Write([]byte(f.String()))
				w.Write([]byte{'\\n'})
			}
			n := 0
			for _, k := range seen {
				n += k
			}
			names := make([]string, 0, len(seen))
			for k := range seen {
				names = append(names, k)
			}
			sort.Strings(names)
			s.Logger.Printf("%d %v", n, names)
'''), (V, '	"os/signal"\n', '	"os/signal"\n	"sort"\n'))
e("log-duration", "same", [], (V, "	qstr := req.FormValue(\"q\")\n", "	begin := time.Now()\n	defer func() { s.Logger.Printf(\"query took %s\", time.Since(begin)) }()\n	qstr := req.FormValue(\"q\")\n"))
e("row-buffer", "same", [], (V, "	now := time.Now()\n	sc := bufio.NewScanner(r)\n", "	now := time.Now()\n	sc := bufio.NewScanner(r)\n	var last []byte\n"), (V, "		row, err := parseRow(sc.Bytes())", "		last = append(last[:0], sc.Bytes()...)\n		row, err := parseRow(last)"))
e("stores-index", "same", [], (V, "	for _, store := range s.Stores {\n", "	for i := range s.Stores {\n		store := &s.Stores[i]\n"))
e("update-split", "same", [], (S, '''		for i := range buf {
			buf[i] = 0
		}
		for _, in := range c.inits {
			if err := in.Init(buf); err != nil {
				return err
			}
		}
		init = false
''', '''		if err := c.start(buf); err != nil {
			return err
		}
		init = false
'''), (S, "func (c Collator) Read(", '''func (c Collator) start(buf []byte) error {
	for i := range buf {
		buf[i] = 0
	}
	for _, in := range c.inits {
		if err := in.Init(buf); err != nil {
			return err
		}
	}
	return nil
}

func (c Collator) Read('''))
e("collator-ptr", "same", [], (S, "func (c Collator) Read(fml []FM, buf []byte) (Result, error) {\n	var res Result\n", "func (c Collator) Read(fml []FM, buf []byte) (Result, error) {\n	return (&c).read(fml, buf)\n}\n\nfunc (c *Collator) read(fml []FM, buf []byte) (Result, error) {\n	var res Result\n"))
e("named-measures", "same", [], (M, '''	return func(buf []byte, init bool, v float64) error {
		s := stat64.WithBytes(buf)
		s.Update(v)
		return nil
	}
}
''', '''	return updateStat64
}
'''), (M, "// Precise measures\n", '''func updateStat64(buf []byte, init bool, v float64) error {
	s := stat64.WithBytes(buf)
	s.Update(v)
	return nil
}

// Precise measures
'''), all=True)
e("validate-switch", "same", [], (K, '''	if c, ok := m.(Cardinality); ok && (c.Precision < 4 || c.Precision > 18) {
		return fmt.Errorf("measure %q: precision %d is not in the range [4,18]", m.Name(), c.Precision)
	}
''', '''	switch c := m.(type) {
	case Cardinality:
		if 4 <= c.Precision && c.Precision <= 18 {
			return nil
		}
		return fmt.Errorf("measure %q: precision %d is not in the range [4,18]", m.Name(), c.Precision)
	}
'''))
e("validate-method", "same", [], (K, '''	if c, ok := m.(Cardinality); ok && (c.Precision < 4 || c.Precision > 18) {
		return fmt.Errorf("measure %q: precision %d is not in the range [4,18]", m.Name(), c.Precision)
	}

	return nil
''', '''	if c, ok := m.(Cardinality); ok {
		return c.validate()
	}

	return nil
'''), (M, "func (Cardinality) Name()", '''func (c Cardinality) validate() error {
	const lo, hi = 4, 18
	if p := c.Precision; p < lo || p > hi {
		return fmt.Errorf("measure %q: precision %d is not in the range [%d,%d]", c.Name(), p, lo, hi)
	}
	return nil
}

func (Cardinality) Name()'''), (M, '	"encoding/binary"\n', '	"encoding/binary"\n	"fmt"\n'))
e("validate-earlier", "same", [], (K, '''		for _, m := range ms.Measures {
			if err := validateMeasure(m); err != nil {
				return Collator{}, fmt.Errorf("field %q: %v", ms.Field.Pattern, err)
			}

''', '''		for _, m := range ms.Measures {
'''), (K, "	pos := 0\n	for _, m := range s.RecordMeasures {", '''	for _, ms := range s.Measures {
		for _, m := range ms.Measures {
			if err := validateMeasure(m); err != nil {
				return Collator{}, fmt.Errorf("field %q: %v", ms.Field.Pattern, err)
			}
		}
	}

	pos := 0
	for _, m := range s.RecordMeasures {'''), known=True)
e("serve-named", "same", [], (V, '''	go func() {
		errs <- hs.Serve(listener)
	}()
''', '''	go serve(hs, listener, errs)
'''), (V, "// waitSignal blocks", '''func serve(hs *http.Server, l net.Listener, errs chan<- error) {
	errs <- hs.Serve(l)
}

// waitSignal blocks'''))
e("handlers-first", "same", [], (V, '''	if err := s.registerHandlers(); err != nil {
		return fmt.Errorf("fatal error registering handlers: %v", err)
	}

''', ""), (V, '''	listener, err := net.Listen(s.Net, s.Addr)
''', '''	if err := s.registerHandlers(); err != nil {
		return fmt.Errorf("fatal error registering handlers: %v", err)
	}

	listener, err := net.Listen(s.Net, s.Addr)
'''))
e("regexp-local", "same", [], (Q, "	parts := queryRe.", "	queryRe := regexp.MustCompile(`(?i)^\\s*select\\s+(.+?)\\s+where\\s+(.+)\\s*$`)\n	parts := queryRe."))
e("done-helper", "same", [], (T, '''	select {
	case <-ctx.Done():
		return ctx.Err()
	default:
	}
''', '''	if err := ctx.Err(); err != nil {
		return err
	}
'''))
e("response-buffer", "same", [], (V, '''			for _, f := range res.FieldMeasureValues {
				w.Write([]byte(f.String()))
				w.Write([]byte{'\\n'})
			}
			return
''', '''			var b bytes.Buffer
			for _, f := range res.FieldMeasureValues {
				b.WriteString(f.String())
				b.WriteByte('\\n')
			}
			w.Write(b.Bytes())
			return
'''))
e("expvar-atomic", "same", [], (V, "	mux *http.ServeMux\n", "	mux *http.ServeMux\n	nobs uint64\n"), (V, "	ct, err := contentType(req)\n", "	atomic.AddUint64(&s.nobs, 1)\n	ct, err := contentType(req)\n"), (V, '	"strings"\n', '	"strings"\n	"sync/atomic"\n'))

# ---- C12: queries have effects
e("query-inits", "bug", ["C12"], (T, "	if !s.Backend.Get(key, buf) {\n		// TODO: report not found?\n		return collation.Result{}, nil\n	}\n", "	if !s.Backend.Get(key, buf) {\n		s.Backend.Update(key, func(d []byte, init bool) error { copy(buf, d); return nil })\n	}\n"))
e("query-cache", "bug", ["C12", "C33"], (T, "type Store struct {\n", "var lastQuery collation.Query\n\ntype Store struct {\n"), (T, "	// TODO: reuse buffer\n", "	lastQuery = q\n"))
e("query-cache-map", "bug", ["C12", "C33", "C27"], (S, "	size        int // Size", "	cache map[string]Result\n	size        int // Size"), (S, "	return res, nil\n}", "	if c.cache != nil && len(fml) > 0 {\n		c.cache[string(fml[0].F)] = res\n	}\n	return res, nil\n}"), (K, "		name:        s.Name,\n", "		name:        s.Name,\n		cache: map[string]Result{},\n"))
e("query-shared-buf", "bug", ["C12", "C33"], (T, "	Collator collation.Collator\n", "	Collator collation.Collator\n	Buf []byte\n"), (T, "	buf := make([]byte, s.Collator.Size())\n", "	buf := s.Buf\n"), (D, "		Collator: coll,\n", "		Collator: coll,\n		Buf: make([]byte, coll.Size()),\n"))
e("query-counter", "bug", ["C12", "C33"], (V, "	mux *http.ServeMux\n", "	mux *http.ServeMux\n	queries int\n"), (V, "	qstr := req.FormValue(\"q\")\n", "	s.queries++\n	qstr := req.FormValue(\"q\")\n"))
e("query-sorts-keys", "bug", ["C12", "C33"], (S, "func (q *Query) KeyValue(keys [][]byte) (uint64, bool) {\n", "func (q *Query) KeyValue(keys [][]byte) (uint64, bool) {\n	if len(keys) > 1 && bytes.Compare(keys[0], keys[1]) > 0 {\n		keys[0], keys[1] = keys[1], keys[0]\n	}\n"))
e("query-deletes-reader", "bug", ["C12", "C33"], (S, "					v, err := r.ReadItem(buf)\n					if err != nil {\n", "					v, err := r.ReadItem(buf)\n					if err != nil {\n						delete(rs, string(measure))\n"))
e("get-counts", "bug", ["C12"], (B, "	live uint32 // 1", "	reads uint32\n	live uint32 // 1"), (B, "	for {\n		seq1 :=", "	atomic.AddUint32(&s.reads, 1)\n	for {\n		seq1 :="))
e("get-claims", "bug", ["C12"], (B, "		if atomic.LoadUint64(&m.keys[x].key) == k {\n			break\n		}\n", "		if atomic.LoadUint64(&m.keys[x].key) == k {\n			break\n		}\n		if atomic.CompareAndSwapUint64(&m.keys[x].key, 0, k) {\n			break\n		}\n"))
e("append-keys", "bug", ["C12", "C33"], (T, "	key, found := q.KeyValue(s.Collator.Keys())\n", "	ks := append(s.Collator.Keys()[:0], s.Collator.Keys()...)\n	key, found := q.KeyValue(ks)\n"))

# ---- C14
e("range-measures", "bug", ["C14"], (Q, "	wheres := whereRe", "	q.FieldMeasures = q.FieldMeasures[:0]\n	for f := range fields {\n		q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(f)})\n	}\n\n	wheres := whereRe"))
e("range-readers", "bug", ["C14"], (S, "			for _, measure := range fm.M {\n				if r, exists := rs[string(measure)]; exists {\n					v, err := r.ReadFloat64(buf)", "			for name, r := range rs {\n				measure := []byte(name)\n				if wants(fm.M, measure) {\n					v, err := r.ReadFloat64(buf)"),
  (S, "func (c Collator) Keys()", "func wants(l [][]byte, m []byte) bool {\n	for _, x := range l {\n		if bytes.Equal(x, m) {\n			return true\n		}\n	}\n	return false\n}\n\nfunc (c Collator) Keys()"))
e("range-first", "bug", ["C14"], (S, "	var res Result\n	for _, fm := range fml {", "	var res Result\n	for k := range c.contReaders {\n		if len(fml) == 1 && len(fml[0].F) == 0 {\n			fml[0].F = []byte(k)\n			break\n		}\n	}\n	for _, fm := range fml {"))
e("time-in-response", "bug", ["C14"], (V, "			for _, c := range q.Criteria {", "			fmt.Fprintf(w, \"# %s\\n\", time.Now())\n			for _, c := range q.Criteria {"))
e("header-time", "bug", ["C14"], (V, "	qstr := req.FormValue(\"q\")\n", "	w.Header().Set(\"X-Time\", time.Now().String())\n	qstr := req.FormValue(\"q\")\n"))
e("rand-sample", "bug", ["C14"], (X, "func (s Summary) Mean() float64 {\n", "func (s Summary) Mean() float64 {\n	if rand.Intn(1<<30) == 0 {\n		return 0\n	}\n"), (X, '	"math"\n', '	"math"\n	"math/rand"\n'))
e("parallel-stores", "bug", ["C14"], (V, "	for _, store := range s.Stores {\n		if store.Collator.Name() == cname {", '''	found := make(chan *storage.Store, len(s.Stores))
	for i := range s.Stores {
		st := &s.Stores[i]
		go func() {
			if st.Collator.Name() == cname {
				found <- st
				return
			}
			found <- nil
		}()
	}
	for range s.Stores {
		store := <-found
		if store != nil {'''))
e("print-pointer", "bug", ["C14"], (V, "			http.Error(w, err.Error(), http.StatusBadRequest)\n		return\n	}\n\n	for _, store", "XX"), skip=True)

# ---- C27
e("keep-row", "bug", ["C27", "C33"], (T, "type Store struct {\n", "var lastRow collation.Row\n\ntype Store struct {\n"), (T, "	t := Transaction{", "	lastRow = r\n	t := Transaction{"))
e("keep-key", "bug", ["C27", "C33"], (S, "	discReaders map[string]map[string]discReader\n	size", "	discReaders map[string]map[string]discReader\n	last *[]byte\n	size"), (S, "	// Update measures that operate on the row\n", "	if c.last != nil && len(r.Data) > 0 {\n		*c.last = r.Data[0].V\n	}\n"), (K, "		name:        s.Name,\n", "		name:        s.Name,\n		last: new([]byte),\n"))
e("keep-in-measure", "bug", ["C27"], (M, "	return func(buf []byte, init bool, v []byte) error {\n", "	var last []byte\n	return func(buf []byte, init bool, v []byte) error {\n		if !init && bytes.Equal(last, v) {\n			return nil\n		}\n		last = v\n"))
e("keep-lent", "bug", ["C27"], (M, "	return func(buf []byte, init bool) error {\n		c := ", "	var last []byte\n	return func(buf []byte, init bool) error {\n		last = buf\n		_ = last\n		c := "))
e("keep-lent-tx", "bug", ["C27"], (T, "	return s.Backend.Update(key, t.Do)", "	var kept []byte\n	err := s.Backend.Update(key, func(data []byte, init bool) error { kept = data; return t.Do(data, init) })\n	if err != nil && len(kept) > 0 {\n		kept[0] = 0\n	}\n	return err"))
e("keep-goroutine", "bug", ["C27"], (V, "			if err := st.Write(ctx, row); err != nil {\n				http.Error(w, err.Error(), http.StatusInternalServerError)\n				return\n			}\n", "			st := st\n			go st.Write(ctx, row)\n"))
e("keep-channel", "bug", ["C27"], (V, "	mux *http.ServeMux\n", "	mux *http.ServeMux\n	rows chan collation.Row\n"), (V, "		row.ReceiveTime = now\n", "		row.ReceiveTime = now\n		select {\n		case s.rows <- row:\n		default:\n		}\n"), (V, "		Net:    \"tcp\",\n		Logger", "		Net:    \"tcp\",\n		rows: make(chan collation.Row, 16),\n		Logger"))
e("keep-summary", "bug", ["C27"], (M, "func (c Cardinality) DiscWriter() DiscWriterFunc {\n	return func", "func (c Cardinality) DiscWriter() DiscWriterFunc {\n	var s hll.Counter\n	var err error\n	return func"), (M, "		s, err := hll.WithBytes(buf)\n		if err != nil {\n			return err\n		}\n		s.Add(v)", "		if s, err = hll.WithBytes(buf); err != nil {\n			return err\n		}\n		s.Add(v)"))

# ---- C30
e("must-parse", "bug", ["C30"], (V, "	if err != nil {\n		return row, err\n	}\n\n	row.DataTime", "	if err != nil {\n		panic(err)\n	}\n\n	row.DataTime"))
e("fatal-write", "bug", ["C30"], (V, "			if err := st.Write(ctx, row); err != nil {\n", "			if err := st.Write(ctx, row); err != nil {\n				log.Fatalf(\"write: %v\", err)\n"))
e("no-precision", "bug", ["C30"], (K, "(c.Precision < 4 || c.Precision > 18)", "c.Precision > 18"))
e("precision-19", "bug", ["C30"], (K, "c.Precision > 18)", "c.Precision > 19)"))
e("no-validate", "bug", ["C30"], (K, "			if err := validateMeasure(m); err != nil {", "			if err := validateMeasure(m); err != nil && m == nil {"))
e("validate-only-first", "bug", ["C30"], (K, "		for _, m := range ms.Measures {\n			if err := validateMeasure(m); err != nil {", "		for i, m := range ms.Measures {\n			if err := validateMeasure(m); err != nil && i == 0 {"))
e("exit-signal", "bug", ["C30"], (V, "	if sc.Err() != nil {\n", "	if sc.Err() == bufio.ErrTooLong {\n		os.Exit(3)\n	}\n	if sc.Err() != nil {\n"))
e("panic-in-measure", "bug", ["C30"], (M, "		if v < c {\n", "		if v != v {\n			panic(\"min: NaN\")\n		}\n		if v < c {\n"))
e("panic-in-stat", "bug", ["C30"], (X, "func (s Summary) Update(v float64) {\n", "func (s Summary) Update(v float64) {\n	if v == 0 && s.Count() > 1<<40 {\n		panic(\"too many\")\n	}\n"))
e("must-regexp", "bug", ["C30"], (V, "	q, err := query.RoughParse(qstr)\n", "	if pat := req.FormValue(\"filter\"); pat != \"\" && !regexp.MustCompile(pat).MatchString(cname) {\n		http.NotFound(w, req)\n		return\n	}\n	q, err := query.RoughParse(qstr)\n"), (V, '	"os/signal"\n', '	"os/signal"\n	"regexp"\n'))
e("panic-bufmap", "bug", ["C30"], (B, "			return ErrOutOfSlots", "			panic(ErrOutOfSlots)"), tests=False)
e("panic-hll", "bug", ["C30"], (H, "func (c *Counter) Add(v []byte) {\n", "func (c *Counter) Add(v []byte) {\n	if v == nil {\n		panic(\"hll: nil\")\n	}\n"))
e("listener-closed", "bug", ["C30"], (V, "	hs := &http.Server{\n", "	s.ln = listener\n	hs := &http.Server{\n"), (V, "	mux *http.ServeMux\n", "	mux *http.ServeMux\n	ln  net.Listener\n"), (V, "	if sc.Err() != nil {\n", "	if sc.Err() != nil {\n		s.ln.Close()\n"))

e("validate-tail", "bug", ["C30"], (K, '''		for _, m := range ms.Measures {
			if err := validateMeasure(m); err != nil {
				return Collator{}, fmt.Errorf("field %q: %v", ms.Field.Pattern, err)
			}

''', '''		for _, m := range ms.Measures {
'''), (K, "	pos := 0\n	for _, m := range s.RecordMeasures {", '''	for _, ms := range s.Measures {
		if len(ms.Measures) < 2 {
			continue
		}
		for _, m := range ms.Measures[1:] {
			if err := validateMeasure(m); err != nil {
				return Collator{}, fmt.Errorf("field %q: %v", ms.Field.Pattern, err)
			}
		}
	}

	pos := 0
	for _, m := range s.RecordMeasures {'''))
e("validate-some", "bug", ["C30"], (K, '''		for _, m := range ms.Measures {
			if err := validateMeasure(m); err != nil {
				return Collator{}, fmt.Errorf("field %q: %v", ms.Field.Pattern, err)
			}

''', '''		for _, m := range ms.Measures {
'''), (K, "	pos := 0\n	for _, m := range s.RecordMeasures {", '''	for i, ms := range s.Measures {
		if i > 3 {
			break
		}
		for _, m := range ms.Measures {
			if err := validateMeasure(m); err != nil {
				return Collator{}, fmt.Errorf("field %q: %v", ms.Field.Pattern, err)
			}
		}
	}

	pos := 0
	for _, m := range s.RecordMeasures {'''))

# ---- C33
e("handlers-late", "bug", ["C33"], (V, '''	if err := s.registerHandlers(); err != nil {
		return fmt.Errorf("fatal error registering handlers: %v", err)
	}

''', ""), (V, "	return s.waitSignal(ch, errs)\n", '''	if err := s.registerHandlers(); err != nil {
		return fmt.Errorf("fatal error registering handlers: %v", err)
	}
	return s.waitSignal(ch, errs)
'''))
e("stores-late", "bug", ["C33"], (V, "	return s.waitSignal(ch, errs)\n", "	s.Stores = append([]storage.Store(nil), s.Stores...)\n	return s.waitSignal(ch, errs)\n"))
e("addr-late", "bug", ["C33"], (V, "	return s.waitSignal(ch, errs)\n", "	s.Logger = log.New(os.Stderr, \"starbow \", log.LstdFlags)\n	return s.waitSignal(ch, errs)\n"), (V, "	qstr := req.FormValue(\"q\")\n", "	qstr := req.FormValue(\"q\")\n	s.Logger.Printf(\"query\")\n"))
e("lazy-init", "bug", ["C33"], (V, "	s.mux.ServeHTTP(w, r)\n", "	if s.mux == nil {\n		s.registerHandlers()\n	}\n	s.mux.ServeHTTP(w, r)\n"))
e("shared-scratch", "bug", ["C33"], (M, "	return func(buf []byte) (float64, error) {\n		c := math.Float64frombits(binary.LittleEndian.Uint64(buf))", "	var scratch [8]byte\n	return func(buf []byte) (float64, error) {\n		copy(scratch[:], buf)\n		c := math.Float64frombits(binary.LittleEndian.Uint64(scratch[:]))"))
e("shared-hash", "bug", ["C33"], (S, "func (fv FVList) KeyValue(keys [][]byte) (uint64, bool) {\n	h := fnv.New64()\n", "var h = fnv.New64()\n\nfunc (fv FVList) KeyValue(keys [][]byte) (uint64, bool) {\n	h.Reset()\n"), tests=False)
e("shared-row", "bug", ["C33"], (V, "	mux *http.ServeMux\n", "	mux *http.ServeMux\n	row collation.Row\n"), (V, "		row.ReceiveTime = now\n", "		row.ReceiveTime = now\n		s.row = row\n"), (V, "st.Write(ctx, row)", "st.Write(ctx, s.row)"))
e("writers-grow", "bug", ["C33"], (S, "	for _, fv := range r.Data {\n", "	for _, fv := range r.Data {\n		if _, ok := c.contWriters[string(fv.F)]; !ok {\n			c.contWriters[string(fv.F)] = nil\n		}\n"))
e("unlocked-count", "bug", ["C33"], (T, "	Collator collation.Collator\n", "	Collator collation.Collator\n	n *int\n"), (T, "	t := Transaction{", "	if s.n != nil {\n		*s.n++\n	}\n	t := Transaction{"), (D, "	s.Stores = append", "	store.Count()\n	s.Stores = append"), (T, "type Transaction struct {", "// Count counts writes.\nfunc (s *Store) Count() { s.n = new(int) }\n\ntype Transaction struct {"))
EDITS = [x for x in EDITS if not x.pop("skip", False)]
