# Bugs, written from the text of the properties without looking at the rules.
from edits_fresh2 import F, P, src
EDITS = []
BB = "internal/bitbucket/bitbucket.go"
BL = "internal/summary/bloom/bloom.go"
H = "internal/summary/hll/hll.go"
X = "internal/summary/stat64/stats.go"
N = "internal/hash/fnv/fnv.go"
V = "internal/server/server.go"
L = "internal/collation/schema.go"
C = "internal/collation/compile.go"
M = "internal/collation/measure.go"
Z = "internal/storage/storage.go"
B = "internal/bufmap/bufmap.go"
I = "internal/incmap/incmap.go"
S = "internal/seqlock/seqlock.go"
Q = "internal/query/rough.go"
D = "demo.go"
W = "starbow.go"
def same(name, *eds): EDITS.append(dict(name="fresh5-" + name, kind="same", props=[], edits=list(eds)))
def bug(name, props, *eds): EDITS.append(dict(name="fresh5-" + name, kind="bug", props=props.split(), edits=list(eds)))

UNLOCK = "	s.mu.Lock()\n	// Allow access by other writers, even if fn panics\n	defer s.mu.Unlock()\n"
bug("copy-before-lock", "C02", P(B, "(m *Map) Update(", (UNLOCK, ""),
    ("	// Writers need to take a lock\n", ""),
    ("	// The data needs init", "	data := m.values[x*m.s : (x+1)*m.s]\n	buf := make([]byte, m.s)\n	copy(buf, data)\n\n" + UNLOCK + "	// The data needs init"),
    ("	data := m.values[x*m.s : (x+1)*m.s]\n	buf := make([]byte, m.s)\n	copy(buf, data)\n	if err", "	if err")))
bug("unlock-early", "C02", P(B, "(m *Map) Update(", ("	// Allow access by other writers, even if fn panics\n	defer s.mu.Unlock()\n", ""),
    ("	if err := fn(buf, init); err != nil {\n		return err\n	}\n", "	err := func() error {\n		defer s.mu.Unlock()\n		return fn(buf, init)\n	}()\n	if err != nil {\n		return err\n	}\n")))
bug("live-first", "C04", P(B, "(m *Map) Update(", ("	if init {\n		atomic.StoreUint32(&s.live, 1)\n	}\n", ""),
    ("	// Notify readers that we are writing\n", "	if init {\n		atomic.StoreUint32(&s.live, 1)\n	}\n\n	// Notify readers that we are writing\n")))
bug("seq-open", "C02 C01", P(S, "(s *Seqlock) Update(", ("	var d [1024]byte\n	copy(d[:], s.data[:])\n	if err := fn(d[:]); err != nil {\n		return err\n	}\n\n	// Notify readers that we are writing\n	atomic.AddUint32(&s.seq, 1)\n", "	// Notify readers that we are writing\n	atomic.AddUint32(&s.seq, 1)\n\n	var d [1024]byte\n	copy(d[:], s.data[:])\n	if err := fn(d[:]); err != nil {\n		return err\n	}\n")))
bug("get-once", "C01", P(S, "(s *Seqlock) Get(", ("		// Is a writer currently writing?\n		if seq1%2 != 0 {\n			continue\n		}\n", "		for seq1%2 != 0 {\n			seq1 = atomic.LoadUint32(&s.seq)\n		}\n"),
    ("seq1 == seq2", "seq2%2 == 0")))
bug("skip-after-cas", "C06 C07", P(I, "(m *Map) Inc(", ("			// Try and store key into slot\n			if atomic.CompareAndSwapUint64(&m.keys[x], 0, k) {\n				// Stored key successfully\n				break\n			}\n		}\n\n		// Did another updater set the key while we were checking?\n		kexist = atomic.LoadUint64(&m.keys[x])\n		if kexist == k {\n			break\n		}\n", "			// Try and store key into slot\n			if atomic.CompareAndSwapUint64(&m.keys[x], 0, k) {\n				// Stored key successfully\n				break\n			}\n		}\n")))
bug("hash-of-tail", "C06", P(I, "(m *Map) Get(", ("i > maxReprobe", "i >= maxReprobe")))
bug("blank-line", "C09", P(V, "(s *Server) recvObservation(", ("		row, err := parseRow(sc.Bytes())\n		if err != nil {\n", "		row, err := parseRow(sc.Bytes())\n		if err != nil && row.DataTime.IsZero() {\n			continue\n		}\n		if err != nil {\n")))
bug("demo-partial", "C10 C28", P(W, "main(", ("err != nil {\n		log.Fatal(err.Error())\n	}\n	if err := s.Serve", "err != nil && len(s.Stores) == 0 {\n		log.Fatal(err.Error())\n	}\n	if err := s.Serve")))
bug("header-on-hit", "C11", P(V, "(s *Server) ServeHTTP(", ("	w.Header().Set(\"Cache-control\", \"no-cache\")\n\n	s.mux.ServeHTTP(w, r)", "	if _, pattern := s.mux.Handler(r); pattern != \"\" {\n		w.Header().Set(\"Cache-control\", \"no-cache\")\n	}\n\n	s.mux.ServeHTTP(w, r)")))
bug("read-by-update", "C12", P(Z, "(s *Store) Read(", ("	if !s.Backend.Get(key, buf) {\n		// TODO: report not found?\n		return collation.Result{}, nil\n	}\n", "	err := s.Backend.Update(key, func(data []byte, init bool) error {\n		copy(buf, data)\n		return nil\n	})\n	if err != nil {\n		return collation.Result{}, err\n	}\n")))
bug("criteria-lower", "C13", P(L, "(q *Query) KeyValue(", ("	return q.Criteria.KeyValue(keys)", "	last := make(FVList, 0, len(q.Criteria))\n	for i := len(q.Criteria) - 1; i >= 0; i-- {\n		last = append(last, q.Criteria[i])\n	}\n	return last.KeyValue(keys)")))
bug("fields-ranged", "C14 C34", P(Q, "RoughParse(", ("		i, found := fields[s[2]]\n		if !found {\n			i = len(q.FieldMeasures)\n			fields[s[2]] = i\n			q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(s[2])})\n		}\n		q.FieldMeasures[i].M = append(q.FieldMeasures[i].M, []byte(s[1]))\n	}\n", "		if _, found := fields[s[2]]; !found {\n			fields[s[2]] = len(fields)\n		}\n	}\n	for f := range fields {\n		fm := collation.FM{F: []byte(f)}\n		for _, s := range selections {\n			if s[2] == f {\n				fm.M = append(fm.M, []byte(s[1]))\n			}\n		}\n		q.FieldMeasures = append(q.FieldMeasures, fm)\n	}\n")))
bug("count-size", "C15", P(C, "(s *Schema) Compile(", ("			size := m.Size()\n			if _, ok := m.(Count); ok {\n				// A count of a field is written as part of a stat64 summary\n				size = Sum{}.Size()\n			}\n", "			size := m.Size()\n			if _, ok := m.(Count); ok && len(ms.Measures) > 1 {\n				// A count of a field is written as part of a stat64 summary\n				size = Sum{}.Size()\n			}\n")))
bug("stat-once", "C15 C16", P(C, "(s *Schema) Compile(", ("		// Special handling for count, mean, sum, variance - one summary can write them all at once\n		stat64 := false\n		stat64Low, stat64Hi := 0, 0\n\n", ""),
    ("	for _, ms := range s.Measures {\n", "	// Special handling for count, mean, sum, variance - one summary can write them all at once\n	stat64 := false\n	stat64Low, stat64Hi := 0, 0\n	for _, ms := range s.Measures {\n")))
bug("precision-byte", "C16", P(C, "validateMeasure(", ("c, ok := m.(Cardinality); ok && (c.Precision < 4 || c.Precision > 18)", "c, ok := m.(Cardinality); ok && (uint8(c.Precision) < 4 || uint8(c.Precision) > 18)")))
bug("same-field-twice", "C16", P(C, "(s *Schema) Compile(", ("					ws := coll.contWriters[ms.Field.Pattern]\n					ws = append(ws, contWriter{\n						Low:  low,\n						High: hi,\n						Fn:   cm.ContWriter(),\n					})\n					coll.contWriters[ms.Field.Pattern] = ws\n", "					var ws []contWriter\n					if stat64 {\n						ws = coll.contWriters[ms.Field.Pattern]\n					}\n					ws = append(ws, contWriter{\n						Low:  low,\n						High: hi,\n						Fn:   cm.ContWriter(),\n					})\n					coll.contWriters[ms.Field.Pattern] = ws\n")))
bug("init-present", "C17", P(L, "(c Collator) Update(", ("		for _, in := range c.inits {\n			if err", "		for _, in := range c.inits {\n			if len(r.Data) == 0 {\n				break\n			}\n			if err")))
bug("init-kept", "C17", P(L, "(c Collator) Update(", ("		init = false\n", "")))
bug("max-zero", "C18", P(M, "(m Max) ContWriter(", ("		if v > c {", "		if v > c || c == math.Inf(-1) {")))
bug("min-abs", "C18", P(M, "(Min) Init(", ("math.Inf(1)", "math.MaxFloat64")))
bug("batch-mean", "C19", P(X, "(s Summary) UpdateMulti(", ("		mean += delta / float64(count)\n		ss += delta * (v - mean)\n	}\n", "		ss += delta * delta * float64(count-1) / float64(count)\n	}\n	if count > 0 {\n		mean = sum / float64(count)\n	}\n")))
bug("hll-touch", "C20 C44", P(H, "(c *Counter) Add(", ("	if rho > c.bits.Get(idx) {\n		c.bits.Set(idx, rho)\n	}", "	if cur := c.bits.Get(idx); cur < rho {\n		c.bits.IncN(idx, rho)\n	}")))
bug("bloom-odd", "C21", P(BL, "(b *Bloom) Has(", ("newHasher(v, b.m)", "newHasher(v, b.m&^1)")))
bug("hll-params", "C22", P(H, "(c *Counter) ReadFrom(", ("	c.initParams()\n", "	if c.mask == 0 {\n		c.initParams()\n	}\n")))
same("hll-early", P(H, "(c *Counter) ReadFrom(", ("	var bits bitbucket.BitBucket\n	n0, err := bits.ReadFrom(r)", "	bits := c.bits\n	n0, err := bits.ReadFrom(r)")))
bug("bits-early", "C23", P(H, "(c *Counter) ReadFrom(", ("	var bits bitbucket.BitBucket\n	n0, err := bits.ReadFrom(r)", "	n0, err := c.bits.ReadFrom(r)"), ("validRegisters(p, &bits)", "validRegisters(p, &c.bits)"), ("	c.bits = bits\n", "")))
bug("bucket-byte", "C24", P(BB, "(b *BitBucket) incn(", ("	// Cap the value\n	value += uint16(v)\n", "	// Cap the value\n	value = uint16(uint8(value) + v)\n")))
bug("bucket-last", "C24", P(BB, "(b *BitBucket) extract(", ("	if index < len(b.data)-1 {", "	if offset+l > 8 && index+2 < len(b.data) {")))
bug("fnv-short", "C25", P(N, "(s *Fnv64) WriteUint64(", ("	hash := *s\n", "	hash := *s\n	if n>>32 == 0 {\n		for sh := uint(32); sh > 0; {\n			sh -= 8\n			hash *= prime64\n			hash ^= Fnv64((n >> sh) & 0xff)\n		}\n		*s = hash\n		return\n	}\n")))
bug("kept-row", "C27", P(Z, "(s *Store) Write(", ("	return s.Backend.Update(key, t.Do)", "	if err := s.Backend.Update(key, t.Do); err != nil {\n		failed = append(failed, t)\n		return err\n	}\n	return nil")), (Z, "type Transaction struct", "// failed are the transactions that could not be applied\nvar failed []Transaction\n\ntype Transaction struct"))
bug("unbuffered", "C28", P(V, "(s *Server) Serve(", ("make(chan os.Signal, 1)", "make(chan os.Signal)")))
bug("errs-nil", "C28 C10", P(V, "(s *Server) waitSignal(", ("		case err := <-errs:\n			return fmt", "		case err := <-errs:\n			if err == http.ErrServerClosed || strings.Contains(err.Error(), \"closed\") {\n				return nil\n			}\n			return fmt")))
bug("other-field", "C29", P(L, "(c Collator) Read(", ("		if rs, exists := c.discReaders[field]; exists {", "		if rs, exists := c.discReaders[RowPseudoField]; exists {")))
bug("unix-nano", "C31", P(V, "parseRow(", ("time.Unix(ts/1000000, ts%1000000*1000)", "time.Unix(0, ts*1000)")))
bug("unix-int", "C31", P(V, "parseRow(", ("time.Unix(ts/1000000, ts%1000000*1000)", "time.Unix(int64(int(ts)/1000000), int64(int(ts)%1000000*1000))")))
bug("digits-trim", "C31", P(V, "parseRow(", ("strconv.ParseInt(string(data[:p]), 10, 64)", "strconv.ParseInt(string(data[:p]), 0, 64)")))
bug("ctx-hundred", "C32", P(V, "(s *Server) recvObservation(", ("	for sc.Scan() {\n", "	for lines := 0; sc.Scan(); lines++ {\n"), ("		case <-ctx.Done():\n			http.Error(w, ctx.Err().Error(), http.StatusServiceUnavailable)\n			return\n", "		case <-ctx.Done():\n			if lines%100 == 0 {\n				http.Error(w, ctx.Err().Error(), http.StatusServiceUnavailable)\n				return\n			}\n")), P(Z, "(s *Store) Write(", ("	case <-ctx.Done():\n		return ctx.Err()\n", "	case <-ctx.Done():\n")))
bug("count-queries", "C33", P(V, "(s *Server) queryCollation(", ("	for _, store := range s.Stores {\n", "	for i, store := range s.Stores {\n"), ("			res, err := store.Read(ctx, q)\n", "			s.Stores[0], s.Stores[i] = s.Stores[i], s.Stores[0]\n			res, err := store.Read(ctx, q)\n")))
bug("criteria-once", "C34", P(Q, "RoughParse(", ("	for _, w := range wheres {\n", "	for i, w := range wheres {\n		if i > 0 && w[1] == wheres[i-1][1] {\n			continue\n		}\n")))
bug("eq-trim", "C42", P(V, "parseFV(", ("V: data[eq+1:]", "V: bytes.TrimRight(data[eq+1:], \"\\r\")")))
bug("delim-run", "C42", P(V, "parseRow(", ("		p += offset + 1\n", "		p += offset + 1\n		for p < len(data)-1 && data[p] == delim {\n			p++\n		}\n")))
bug("last-newline", "C45", P(V, "(s *Server) queryCollation(", ("			for _, f := range res.FieldMeasureValues {\n				w.Write([]byte(f.String()))\n				w.Write([]byte{'\\n'})\n			}\n", "			for i, f := range res.FieldMeasureValues {\n				if i > 0 {\n					w.Write([]byte{'\\n'})\n				}\n				w.Write([]byte(f.String()))\n			}\n")))
bug("no-values-404", "C46", P(V, "(s *Server) queryCollation(", ("			for _, c := range q.Criteria {\n", "			if len(res.FieldMeasureValues) == 0 {\n				http.NotFound(w, req)\n				return\n			}\n			for _, c := range q.Criteria {\n")))
bug("wait-claim", "C47", P(I, "(m *Map) Inc(", ("		i++\n		if i > maxReprobe {", "		if kexist != 0 {\n			i++\n		}\n		if i > maxReprobe {"), ("		// Did another updater set the key while we were checking?\n		kexist = atomic.LoadUint64(&m.keys[x])\n		if kexist == k {\n			break\n		}\n", "		if atomic.LoadUint64(&m.keys[x]) == k {\n			break\n		}\n"), ("atomic.CompareAndSwapUint64(&m.keys[x], 0, k)", "m.values[x] == 0 && atomic.CompareAndSwapUint64(&m.keys[x], 0, k)")))
bug("count-success", "C48", P(BB, "(b *BitBucket) WriteTo(", ("	n0, err := w.Write(b.data)\n	n += n0\n	if err != nil {\n		return int64(n), err\n	}\n", "	n0, err := w.Write(b.data)\n	if err != nil {\n		return int64(n), err\n	}\n	n += n0\n")))
bug("copied-view", "C26", P(BB, "WithBytes(", ("		data: buf[hdrLen : hdrLen+buflen],\n", "		data: append(buf[hdrLen:hdrLen:hdrLen], buf[hdrLen:hdrLen+buflen]...),\n")))
bug("key-index", "C43", P(L, "(fv FVList) KeyValue(", ("			if bytes.Equal(keys[i], fv[j].F) {", "			if keys[i][0] == fv[j].F[0] && bytes.Equal(keys[i], fv[j].F) {")))
bug("nil-sum", "C30", P(M, "(c Cardinality) ContReader(", ("			return 0, err\n", "			panic(err)\n")))
bug("stride", "C05", P(B, "(m *Map) Get(", ("m.values[x*m.s:(x+1)*m.s]", "m.values[x*len(buf):(x+1)*m.s]")))
bug("plain-live", "C08", P(B, "(m *Map) Update(", ("atomic.LoadUint32(&s.live) == 0", "s.live == 0"), ("		atomic.StoreUint32(&s.live, 1)\n", "		s.live = 1\n")))
bug("key-32", "C08", (B, "	key  uint64 // key occupying this slot\n	seq  uint32 // monotonically increasing write counter\n", "	seq  uint32 // monotonically increasing write counter\n	key  uint64 // key occupying this slot\n"))
bug("partial-store", "C03", P(B, "(m *Map) Update(", ("	copy(data, buf)\n", "	copy(data[:len(data)&^7], buf)\n")))
