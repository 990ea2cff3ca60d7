"""Bugs written from the text of the properties alone."""
from edits_fresh2 import F, P, src
EDITS = []
def e(name, kind, props, *eds, **kw):
    EDITS.append(dict(name="blind-" + name, kind=kind, props=props, edits=list(eds), **kw))
def same(name, *eds): e(name, "same", [], *eds)
def bug(name, props, *eds): e(name, "bug", props.split(), *eds)
def A(f, *reps):
    """all of these replacements anywhere in the file"""
    s = src(f)
    out = []
    for o, n in reps:
        assert s.count(o) == 1, (f, o, s.count(o))
        out.append((f, o, n))
    return out

B = "internal/bufmap/bufmap.go"
I = "internal/incmap/incmap.go"
L = "internal/seqlock/seqlock.go"
BB = "internal/bitbucket/bitbucket.go"
BL = "internal/summary/bloom/bloom.go"
H = "internal/summary/hll/hll.go"
X = "internal/summary/stat64/stats.go"
N = "internal/hash/fnv/fnv.go"
V = "internal/server/server.go"
Q = "internal/query/rough.go"
M = "internal/collation/measure.go"
C = "internal/collation/compile.go"
S = "internal/collation/schema.go"
T = "internal/storage/storage.go"
D = "demo.go"

bug("c01-low-bits", "C01", P(B, "(m *Map) Get", ("		if seq1 == seq2 {", "		if uint16(seq1) == uint16(seq2) {")))
bug("c01-retries", "C01", P(B, "(m *Map) Get", ("	for {\n		seq1", "	for try := 0; try < 1000; try++ {\n		seq1")))
bug("c01-half", "C01", P(L, "(s *Seqlock) Get", ("	for {\n", "	copy(ret[512:], s.data[512:])\n	for {\n"), ("copy(ret[:], s.data[:])", "copy(ret[:512], s.data[:512])")))
bug("c01-order", "C01", P(L, "(s *Seqlock) Get", ("		copy(ret[:], s.data[:])\n", ""), ("		seq2 := atomic.LoadUint32(&s.seq)\n", "		seq2 := atomic.LoadUint32(&s.seq)\n		copy(ret[:], s.data[:])\n")))
bug("c01-greater", "C01", P(B, "(m *Map) Get", ("		if seq1 == seq2 {", "		if seq2 <= seq1+1 {")))
bug("c02-nodefer", "C02", P(L, "(s *Seqlock) Update", ("	defer s.mu.Unlock()\n", ""), ("		return err\n", "		s.mu.Unlock()\n		return err\n"), ("	return nil\n", "	s.mu.Unlock()\n	return nil\n")))
bug("c02-copy-before", "C02", P(B, "(m *Map) Update", ("	// Writers need to take a lock\n	s.mu.Lock()\n", ""), ("	// Allow access by other writers, even if fn panics\n	defer s.mu.Unlock()\n", ""), ("	copy(buf, data)\n", "	copy(buf, data)\n	s.mu.Lock()\n	defer s.mu.Unlock()\n")))
bug("c02-fn-outside", "C02", P(L, "(s *Seqlock) Update", ("	if err := fn(d[:]); err != nil {\n		return err\n	}\n", "	s.mu.Unlock()\n	err := fn(d[:])\n	s.mu.Lock()\n	if err != nil {\n		return err\n	}\n")))
bug("c03-init-direct", "C03", P(B, "(m *Map) Update", ("	copy(buf, data)\n", "	if init {\n		buf = data\n	}\n	copy(buf, data)\n")))
bug("c03-trim", "C03", P(B, "(m *Map) Update", ("	copy(data, buf)\n", "	copy(data, bytes.TrimRight(buf, \"\\x00\"))\n")), *A(B, ('import (\n', 'import (\n	"bytes"\n')))
bug("c03-forget", "C03", P(B, "(m *Map) Update", ("		return err\n	}\n\n	// Notify", "		if init {\n			return nil\n		}\n		return err\n	}\n\n	// Notify")))
bug("c04-live-first", "C04", P(B, "(m *Map) Update", ("	// Work on a copy", "	atomic.StoreUint32(&s.live, 1)\n\n	// Work on a copy"), ("	if init {\n		atomic.StoreUint32(&s.live, 1)\n	}\n", "")))
bug("c04-early-init", "C04", P(B, "(m *Map) Update", ("	init := atomic.LoadUint32(&s.live) == 0\n", ""), ("	// Writers need to take a lock\n", "	init := atomic.LoadUint32(&s.live) == 0\n	// Writers need to take a lock\n")))
bug("c04-seq", "C04", P(B, "(m *Map) Update", ("	init := atomic.LoadUint32(&s.live) == 0\n", "	init := atomic.LoadUint32(&s.seq) == 0\n")))
bug("c04-claimed", "C04", P(B, "(m *Map) Update", ("	x := -1\n", "	x := -1\n	claimed := false\n"), ("				// Stored key successfully\n				break\n", "				// Stored key successfully\n				claimed = true\n				break\n"), ("	init := atomic.LoadUint32(&s.live) == 0\n", "	init := claimed\n")))
bug("c05-len-buf", "C05", P(B, "(m *Map) Get", ("m.values[x*m.s:(x+1)*m.s]", "m.values[x*m.s:x*m.s+len(buf)]")))
bug("c05-round", "C05", P(B, "New(", ("		s:      s,\n", "		s:      (s + 7) &^ 7,\n")))
same("c05-round-all", P(B, "New(", ("	return &Map{", "	s = (s + 7) &^ 7\n	return &Map{")))
bug("c05-shift", "C05", P(B, "(m *Map) Update", ("	data := m.values[x*m.s : (x+1)*m.s]\n", "	data := m.values[x*m.s:]\n")))
same("c06-get-empty", P(B, "(m *Map) Get", ("		if atomic.LoadUint64(&m.keys[x].key) == k {\n			break\n		}\n", "		kexist := atomic.LoadUint64(&m.keys[x].key)\n		if kexist == k {\n			break\n		}\n		if kexist == 0 {\n			return false\n		}\n")))
bug("c06-cas-lost", "C06", P(I, "(m *Map) Inc", ("		// Did another updater set the key while we were checking?\n		kexist = atomic.LoadUint64(&m.keys[x])\n		if kexist == k {\n			break\n		}\n\n", "")))
bug("c06-swap", "C06", P(B, "(m *Map) Update", ("			if atomic.CompareAndSwapUint64(&m.keys[x].key, 0, k) {", "			if atomic.SwapUint64(&m.keys[x].key, k) == 0 {")))
bug("c06-int", "C06", P(I, "(m *Map) pos", ("	return int((k%uint64(m.l) + uint64(i)) % uint64(m.l))", "	return (int(k%uint64(m.l)) + i*int(k&3)) % (m.l - 1)")))
bug("c06-neg", "C06 C05", P(B, "(m *Map) pos", ("	return int((k%uint64(m.l) + uint64(i)) % uint64(m.l))", "	return (int(k) + i) % m.l")))
bug("c06-inc-limit", "C06", P(I, "(m *Map) Get", ("		if i > maxReprobe {", "		if i > maxReprobe/2 {")))
bug("c07-store", "C07", P(I, "(m *Map) Inc", ("				// Stored key successfully\n				break\n", "				// Stored key successfully\n				atomic.StoreUint64(&m.values[x], d)\n				return true\n")))
bug("c07-cas-once", "C07", P(I, "(m *Map) Inc", ("	atomic.AddUint64(&m.values[x], d)\n", "	v := atomic.LoadUint64(&m.values[x])\n	if !atomic.CompareAndSwapUint64(&m.values[x], v, v+d) {\n		atomic.CompareAndSwapUint64(&m.values[x], v+1, v+1+d)\n	}\n")))
bug("c07-full", "C07", P(I, "(m *Map) Inc", ("			return false\n		}\n	}\n", "			atomic.AddUint64(&m.values[x], d)\n			return false\n		}\n	}\n")))
bug("c08-layout", "C08", *A(B, ("	key  uint64 // key occupying this slot\n	seq  uint32 // monotonically increasing write counter\n", "	seq  uint32 // monotonically increasing write counter\n	key  uint64 // key occupying this slot\n")))
bug("c08-plain", "C08", P(B, "(m *Map) Get", ("	if atomic.LoadUint32(&s.live) == 0 {", "	if s.live == 0 {")))
bug("c08-pack", "C08", *A(B, ("	live uint32 // 1 once the slot's data has been initialised by a successful update\n", "	live uint32 // 1 once the slot's data has been initialised by a successful update\n	hits uint32\n")), )
bug("c09-toolong", "C09 C10", P(V, "(s *Server) recvObservation", ("	if sc.Err() != nil {", "	if sc.Err() != nil && sc.Err() != bufio.ErrTooLong {")))
bug("c09-first-store", "C09 C10", P(V, "(s *Server) recvObservation", ("		for _, st := range s.Stores {\n			if err := st.Write(ctx, row); err != nil {", "		for i, st := range s.Stores {\n			if err := st.Write(ctx, row); err != nil && i == 0 {")))
bug("c09-break", "C09 C32", P(V, "(s *Server) recvObservation", ("			http.Error(w, ctx.Err().Error(), http.StatusServiceUnavailable)\n			return\n", "			http.Error(w, ctx.Err().Error(), http.StatusServiceUnavailable)\n			break\n")))
bug("c09-limit", "C09", P(V, "(s *Server) recvObservation", ("		r = req.Body\n", "		r = io.LimitReader(req.Body, 1<<20)\n")))
bug("c09-comment", "C09", P(V, "(s *Server) recvObservation", ("		row, err := parseRow(sc.Bytes())\n", "		if bytes.HasPrefix(sc.Bytes(), []byte{'#'}) {\n			continue\n		}\n		row, err := parseRow(sc.Bytes())\n")))
bug("c10-init", "C10", P(M, "(c Cardinality) Init", ("	return err\n", "	_ = err\n	return nil\n")))
bug("c10-shadow", "C10", P(H, "(c *Counter) WriteTo", ("	n0, err := c.bits.WriteTo(w)\n	n += int(n0)\n	if err != nil {\n		return int64(n), err\n	}\n", "	if n0, err := c.bits.WriteTo(w); err == nil {\n		n += int(n0)\n	}\n")))
bug("c10-compile", "C10 C16", P(C, "(s *Schema) Compile", ("				return Collator{}, fmt.Errorf(\"field %q: %v\", ms.Field.Pattern, err)\n", "				continue\n")))
bug("c10-float", "C10", P(S, "(c Collator) Update", ("			if err != nil {\n				return err\n			}\n			for _, w := range ws {\n				if err := w.UpdateFloat64", "			if err != nil && v == 0 {\n				return err\n			}\n			for _, w := range ws {\n				if err := w.UpdateFloat64")))
bug("c11-put", "C11", P(V, "(s *Server) registerHandlers", ("		if req.Method == http.MethodPost {", "		if req.Method == http.MethodPost || req.Method == http.MethodPut {")))
bug("c11-prefix", "C11", P(V, "contentType", ("	return ct, err\n", "	if strings.HasPrefix(ct, \"text/\") {\n		ct = \"text/plain\"\n	}\n	return ct, err\n")))
bug("c11-header", "C11", P(V, "(s *Server) ServeHTTP", ('	w.Header().Set("Cache-control", "no-cache")\n', '	if r.Method == http.MethodGet {\n		w.Header().Set("Cache-control", "no-cache")\n	}\n')))
bug("c11-head", "C11", P(V, "(s *Server) registerHandlers", ("req.Method != http.MethodPost && req.Method != http.MethodGet {", "req.Method != http.MethodPost && req.Method != http.MethodGet && req.Method != http.MethodHead {")))
bug("c11-no-return", "C11", P(V, "(s *Server) queryCollation", ("				http.Error(w, err.Error(), http.StatusInternalServerError)\n				return\n", "				http.Error(w, err.Error(), http.StatusInternalServerError)\n				break\n")))
bug("c12-claim", "C12", P(T, "(s *Store) Read", ("	if !s.Backend.Get(key, buf) {", "	s.Backend.Update(key, func([]byte, bool) error { return nil })\n	if !s.Backend.Get(key, buf) {")))
bug("c12-miss", "C12 C33", P(T, "(s *Store) Read", ("		// TODO: report not found?\n", "		misses++\n")), *A(T, ("type Transaction struct", "var misses int\n\ntype Transaction struct")))
bug("c13-fold", "C13", P(S, "(q *Query) KeyValue", ("	return q.Criteria.KeyValue(keys)", "	for i := range q.Criteria {\n		q.Criteria[i].V = bytes.TrimSpace(q.Criteria[i].V)\n	}\n	return q.Criteria.KeyValue(keys)")))
bug("c13-empty", "C13", P(S, "(fv FVList) KeyValue", ("		return 0, false\n", "		if len(keys) > 1 {\n			continue\n		}\n		return 0, false\n")))
bug("c13-last", "C13", P(S, "(r *Row) KeyValue", ("	return r.Data.KeyValue(keys)", "	n := len(r.Data)\n	rev := make(FVList, n)\n	for i := range r.Data {\n		rev[n-1-i] = r.Data[i]\n	}\n	return rev.KeyValue(keys)")))
bug("c13-prefix", "C13", P(S, "(fv FVList) KeyValue", ("bytes.Equal(keys[i], fv[j].F)", "bytes.HasPrefix(fv[j].F, keys[i])")))
bug("c13-store", "C13", P(T, "(s *Store) Write", ("	if !found {", "	if !found && key != 0 {")))
bug("c14-map", "C14 C34", P(Q, "RoughParse", ("	return q, nil\n", "	seen := map[string]collation.FV{}\n	for _, c := range q.Criteria {\n		seen[string(c.F)] = c\n	}\n	q.Criteria = q.Criteria[:0]\n	for _, c := range seen {\n		q.Criteria = append(q.Criteria, c)\n	}\n	return q, nil\n")))
bug("c14-time", "C14", P(V, "(s *Server) queryCollation", ("			for _, f := range res.FieldMeasureValues {\n", "			w.Header().Set(\"X-Time\", time.Now().String())\n			for _, f := range res.FieldMeasureValues {\n")))
bug("c14-ptr", "C14", P(S, "(f FMV) String", ('fmt.Sprintf("%s(%s)=%v", f.M, f.F, f.V)', 'fmt.Sprintf("%s(%s)=%v", f.M, f.F, &f.V)')))
bug("c15-stat-scope", "C15", P(C, "(s *Schema) Compile", ("	for _, ms := range s.Measures {\n", "	stat64 := false\n	stat64Low, stat64Hi := 0, 0\n	for _, ms := range s.Measures {\n"), ("		stat64 := false\n		stat64Low, stat64Hi := 0, 0\n", "")))
bug("c15-hi", "C15", P(C, "(s *Schema) Compile", ("					stat64Hi = pos + size\n", "					stat64Hi = pos + m.Size()\n")))
bug("c15-size", "C15", P(C, "(s *Schema) Compile", ("				pos += size\n				coll.size += size\n			}\n\n			if dm", "				pos += size\n				if !skipWriter {\n					coll.size += size\n				}\n			}\n\n			if dm")))
bug("c15-both", "C15", P(M, "(Variance) Size", ("stat64.Len()", "stat64.Len() - 8")))
bug("c16-readers", "C16", P(C, "(s *Schema) Compile", ("				if cm, ok := m.(ContinuousOutput); ok {\n					crs, found := coll.contReaders[ms.Field.Pattern]\n					if !found {", "				if cm, ok := m.(ContinuousOutput); ok && !skipWriter {\n					crs, found := coll.contReaders[ms.Field.Pattern]\n					if !found {")))
bug("c16-replace", "C16", P(C, "(s *Schema) Compile", ("				coll.discWriters[ms.Field.Pattern] = ws\n", "				if _, dup := coll.discWriters[ms.Field.Pattern]; !dup {\n					coll.discWriters[ms.Field.Pattern] = ws\n				}\n")))
bug("c16-precision", "C16", P(C, "validateMeasure", ("c.Precision > 18", "uint8(c.Precision) > 18"), ("c.Precision < 4", "uint8(c.Precision) < 4")))
bug("c16-continue", "C16", P(C, "(s *Schema) Compile", ("			if dm, ok := m.(DiscreteInput); ok {\n", "			if dm, ok := m.(DiscreteInput); ok && size > 64 {\n")))
bug("c17-init-keep", "C17", P(S, "(c Collator) Update", ("		init = false\n", "")))
bug("c17-zero-late", "C17", P(S, "(c Collator) Update", ("		for i := range buf {\n			buf[i] = 0\n		}\n		for _, in := range c.inits {\n			if err := in.Init(buf); err != nil {\n				return err\n			}\n		}\n", "		for _, in := range c.inits {\n			if err := in.Init(buf); err != nil {\n				return err\n			}\n		}\n		for i := range buf {\n			if buf[i] == 0xff {\n				buf[i] = 0\n			}\n		}\n")))
bug("c17-some", "C17", P(S, "(c Collator) Update", ("		for _, in := range c.inits {\n", "		for _, in := range c.inits[:len(r.Data)] {\n")))
bug("c18-maxfloat", "C18", P(M, "(Min) Init", ("math.Inf(1)", "math.MaxFloat64")))
bug("c18-bits", "C18", P(M, "(m Max) ContWriter", ("		if v > c {", "		if int64(math.Float64bits(v)) > int64(math.Float64bits(c)) {")))
bug("c18-not-less", "C18", P(M, "(m Min) ContWriter", ("		if v < c {", "		if !(v >= c) {")))
bug("c19-multi", "C19", P(X, "(s Summary) UpdateMulti", ("		count++\n", ""), ("	for _, v := range vs {\n", "	count += uint64(len(vs))\n	for _, v := range vs {\n")))
bug("c19-ss", "C19", P(X, "(s Summary) Update", ("	ss += delta * (v - mean)\n", "	ss += delta * delta\n")))
bug("c19-var", "C19", P(X, "(s Summary) Variance", ("	if count < 2 {", "	if count == 0 {")))
bug("c20-inc", "C20", P(H, "(c *Counter) Add", ("	if rho > c.bits.Get(idx) {\n		c.bits.Set(idx, rho)", "	if r := c.bits.Get(idx); rho > r {\n		c.bits.IncN(idx, rho-r+1)")))
bug("c20-early", "C20", P(H, "(c *Counter) Add", ("	if rho > c.bits.Get(idx) {", "	if rho > c.bits.Get(idx)+1 {")))
bug("c20-state", "C20", P(H, "(c *Counter) Add", ("	rho := uint8(1)\n", "	rho := uint8(1)\n	if c.bits.Get(idx) > 0 {\n		rho = c.bits.Get(idx)\n	}\n")))
bug("c21-stop", "C21", P(BL, "(b *Bloom) Add", ("		b.bits.Set(x, 1)\n", "		if b.bits.Get(x) == 1 {\n			break\n		}\n		b.bits.Set(x, 1)\n")))
bug("c21-len", "C21", P(BL, "(b *Bloom) Has", ("newHasher(v, b.m)", "newHasher(v, b.bits.Len()*8)")))
bug("c21-k", "C21 C22", P(BL, "(b *Bloom) ReadFrom", ("	b.k = k\n", "	if b.k == 0 {\n		b.k = k\n	}\n")))
bug("c21-m", "C21 C22", P(BL, "(b *Bloom) ReadFrom", ("	b.m = bits.Count()\n", "	b.m = (bits.Count() + 7) &^ 7\n")))
bug("c22-u32", "C22", P(BB, "(b *BitBucket) WriteTo", ("	binary.LittleEndian.PutUint64(buf[2:hdrLen], uint64(b.n))\n", "	binary.LittleEndian.PutUint32(buf[2:hdrLen], uint32(b.n))\n")))
bug("c22-alpha", "C22", P(H, "(c *Counter) ReadFrom", ("	c.initParams()\n", "	if c.alpha == 0 {\n		c.initParams()\n	}\n")))
bug("c22-len", "C22", P(BB, "Len(n int", ("	return 1 + 1 + 8 + length(n, w)\n", "	return 1 + 1 + 8 + n*int(w)/8\n")))
bug("c23-count", "C23", P(H, "validRegisters", ("bits.Count() == int(1<<uint(p))", "bits.Count() <= int(1<<uint(p))")))
bug("c23-early", "C23", P(BB, "(b *BitBucket) ReadFrom", ("	buflen := length(int(count), w)\n", "	b.w = w\n	buflen := length(int(count), w)\n")))
bug("c23-version", "C23", P(BL, "WithBytes", ("	if version != Version {", "	if version > Version {")))
bug("c23-short", "C23", P(BB, "WithBytes", ("	if len(buf) < hdrLen+buflen {", "	if len(buf) < buflen {")))
bug("c24-cap", "C24", P(BB, "(b *BitBucket) incn", ("	value += uint16(v)\n", "	value = uint16(uint8(value) + v)\n")))
bug("c24-last", "C24", P(BB, "(b *BitBucket) set(", ("	if index < len(b.data)-1 {", "	if index < len(b.data)-2 {")))
bug("c24-mask", "C24", P(BB, "(b *BitBucket) incn", ("	data = data&^mask | value<<shift\n", "	data |= value << shift\n")))
bug("c25-runes", "C25", P(N, "(s *Fnv64) WriteString", ("	for i := 0; i < len(str); i++ {\n		hash *= prime64\n		hash ^= Fnv64(str[i])\n", "	for _, c := range str {\n		hash *= prime64\n		hash ^= Fnv64(c)\n")))
bug("c25-sign", "C25", P(N, "(s *Fnv64a) WriteByte", ("	*s ^= Fnv64a(b)\n", "	*s ^= Fnv64a(int8(b))\n")))
bug("c25-u64", "C25", P(N, "(s *Fnv64a) WriteUint64", ("	hash ^= Fnv64a((n >> 16) & 0xff)", "	hash ^= Fnv64a((n >> 16) & 0x7f)")))
bug("c26-copy", "C26", P(BB, "WithBytes", ("		data: buf[hdrLen : hdrLen+buflen],\n", "		data: append(buf[hdrLen:hdrLen:hdrLen], buf[hdrLen:hdrLen+buflen]...),\n")))
bug("c26-reset", "C26", P(X, "WithBytes", ("	return Summary(buf)\n", "	if len(buf) > size {\n		buf = append([]byte(nil), buf[:size]...)\n	}\n	return Summary(buf)\n")))
bug("c27-last", "C27 C33", P(T, "(s *Store) Write", ("	t := Transaction{", "	lastRow = r\n	t := Transaction{")), *A(T, ("type Transaction struct", "var lastRow collation.Row\n\ntype Transaction struct")))
bug("c28-unbuf", "C28", *A(V, ("	ch := make(chan os.Signal, 1)\n", "	ch := make(chan os.Signal)\n")))
bug("c28-print", "C28", *A("starbow.go", ("	if err := s.Serve(); err != nil {\n		log.Fatal(", "	if err := s.Serve(); err != nil {\n		log.Print(")))
bug("c28-int", "C28", *A(V, ("			case syscall.SIGINT, syscall.SIGTERM:\n", "			case syscall.SIGTERM:\n")))
bug("c29-label", "C29", P(S, "(c Collator) Read", ("						M: measure,\n", "						M: fm.M[0],\n")))
bug("c29-break", "C29", P(S, "(c Collator) Read", ("						V: v,\n					})\n				}\n			}\n		}\n\n		if rs, exists := c.disc", "						V: v,\n					})\n				} else {\n					break\n				}\n			}\n		}\n\n		if rs, exists := c.disc")))

bug("c30-must", "C30", P(M, "(c Cardinality) DiscWriter", ("		if err != nil {\n			return err\n		}\n		s.Add", "		if err != nil {\n			panic(err)\n		}\n		s.Add")))
bug("c30-fatal", "C30", P(V, "(s *Server) recvObservation", ("	if sc.Err() != nil {\n", "	if sc.Err() != nil {\n		if l, ok := s.Logger.(*log.Logger); ok && sc.Err() == bufio.ErrTooLong {\n			l.Panicf(\"%v\", sc.Err())\n		}\n")))
bug("c31-nano", "C31", P(V, "parseRow", ("time.Unix(ts/1000000, ts%1000000*1000)", "time.Unix(0, ts*1000)")))
bug("c31-float", "C31", P(V, "parseRow", ("	row.DataTime = time.Unix(ts/1000000, ts%1000000*1000)\n", "	sec := float64(ts) / 1e6\n	row.DataTime = time.Unix(int64(sec), ts%1000000*1000)\n")))
bug("c31-range", "C31 C10", P(V, "parseRow", ("	if err != nil {\n		return row, err\n	}\n", "	if err != nil && ts == 0 {\n		return row, err\n	}\n")))
bug("c32-bg", "C32", P(V, "(s *Server) registerHandlers", ("			baseCtx := req.Context()\n			s.recv", "			baseCtx := context.Background()\n			s.recv")))
bug("c32-write", "C32", P(T, "(s *Store) Write", ("	select {\n	case <-ctx.Done():\n		return ctx.Err()\n	default:\n	}\n", "")))
bug("c33-count", "C33", P(V, "(s *Server) ServeHTTP", ("	s.mux.ServeHTTP(w, r)\n", "	s.served++\n	s.mux.ServeHTTP(w, r)\n")), *A(V, ("	mux *http.ServeMux\n", "	mux    *http.ServeMux\n	served int\n")))
bug("c33-net", "C33", P(S, "(c Collator) Read", ("		field := string(fm.F)\n", "		field := string(fm.F)\n		if c.contReaders[field] == nil {\n			c.contReaders[field] = map[string]contReader{}\n		}\n")))
bug("c34-dup", "C34", P(Q, "RoughParse", ("		q.FieldMeasures[i].M = append(q.FieldMeasures[i].M, []byte(s[1]))\n", "		if n := len(q.FieldMeasures[i].M); n > 0 && string(q.FieldMeasures[i].M[n-1]) == s[1] {\n			continue\n		}\n		q.FieldMeasures[i].M = append(q.FieldMeasures[i].M, []byte(s[1]))\n")))
bug("c34-lower", "C34", P(Q, "RoughParse", ("queryRe.FindStringSubmatch(in)", "queryRe.FindStringSubmatch(strings.ToLower(in))")), *A(Q, ('	"regexp"\n', '	"regexp"\n	"strings"\n')))
bug("c34-limit", "C34", P(Q, "RoughParse", ("whereRe.FindAllStringSubmatch(parts[2], -1)", "whereRe.FindAllStringSubmatch(parts[2], 16)")))
bug("c42-trim", "C42", P(V, "parseFV", ("		V: data[eq+1:],\n", "		V: bytes.TrimSpace(data[eq+1:]),\n")))
bug("c42-last", "C42", P(V, "parseFV", ("bytes.IndexByte(data, '=')", "bytes.LastIndexByte(data, '=')")))
bug("c42-empty", "C42", P(V, "parseRow", ("		row.Data = append(row.Data, parseFV(data[p:p+offset]))\n", "		if offset > 0 {\n			row.Data = append(row.Data, parseFV(data[p:p+offset]))\n		}\n")))
bug("c42-max", "C42", P(V, "parseRow", ("	for {\n		offset", "	for len(row.Data) < 1024 {\n		offset")))
bug("c43-head", "C43", P(V, "(s *Server) registerHandlers", ("		if len(path) == 0 {", "		if path[0] == '.' || len(path) == 0 {")))
bug("c43-ct", "C43", P(V, "contentType", ("	var err error\n", "	if v := strings.Split(ct, \"/\"); v[1] == \"*\" {\n		ct = \"text/plain\"\n	}\n	var err error\n")))
