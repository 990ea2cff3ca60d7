# More bugs, written from the text of the properties without looking at the rules.
from edits_fresh2 import F, P, src
EDITS = []
BB = "internal/bitbucket/bitbucket.go"
BL = "internal/summary/bloom/bloom.go"
H = "internal/summary/hll/hll.go"
X = "internal/summary/stat64/stats.go"
N = "internal/hash/fnv/fnv.go"
V = "internal/server/server.go"
L = "internal/collation/schema.go"
C = "internal/collation/compile.go"
M = "internal/collation/measure.go"
Z = "internal/storage/storage.go"
B = "internal/bufmap/bufmap.go"
I = "internal/incmap/incmap.go"
S = "internal/seqlock/seqlock.go"
Q = "internal/query/rough.go"
D = "demo.go"
W = "starbow.go"
def bug(name, props, *eds): EDITS.append(dict(name="fresh6-" + name, kind="bug", props=props.split(), edits=list(eds)))

bug("chunked-read", "C01", P(B, "(m *Map) Get(", ("	for {\n		seq1 := atomic.LoadUint32(&s.seq)\n", "	n := len(buf)\n	if n > m.s {\n		n = m.s\n	}\n	for o := 0; o < n; {\n		seq1 := atomic.LoadUint32(&s.seq)\n"),
    ("		copy(buf, m.values[x*m.s:(x+1)*m.s])\n", "		c := copy(buf[o:n], m.values[x*m.s+o:(x+1)*m.s])\n		if c > 64 {\n			c = 64\n		}\n"), ("			break\n		}\n	}\n\n	return true", "			o += c\n		}\n	}\n\n	return true")))
bug("seq-close", "C01", P(B, "(m *Map) Get(", ("seq1 == seq2", "seq2-seq1 < 2")))
bug("put-two", "C01", P(S, "(s *Seqlock) Put(", ("	// Notify readers that we are writing\n	atomic.AddUint32(&s.seq, 1)\n\n", ""), ("	atomic.AddUint32(&s.seq, 1)\n	s.mu", "	atomic.AddUint32(&s.seq, 2)\n	s.mu")))
bug("slot-copied", "C02", P(B, "(m *Map) Update(", ("	s := &m.keys[x]\n", "	sl := m.keys[x]\n	s := &sl\n")))
bug("init-by-claim", "C04", P(B, "(m *Map) Update(", ("	i := 0\n	for {\n		x = m.pos", "	i := 0\n	claimed := false\n	for {\n		x = m.pos"), ("				// Stored key successfully\n", "				// Stored key successfully\n				claimed = true\n"),
    ("	init := atomic.LoadUint32(&s.live) == 0\n", "	init := claimed && atomic.LoadUint32(&s.live) == 0\n")))
bug("zero-key", "C06", P(B, "(m *Map) Update(", ("		return ErrInvalidKey\n", "		k = 1\n")), )
bug("one-try", "C07", P(I, "(m *Map) Inc(", ("	atomic.AddUint64(&m.values[x], d)\n	return true", "	v := atomic.LoadUint64(&m.values[x])\n	if v+d < v {\n		return false\n	}\n	atomic.CompareAndSwapUint64(&m.values[x], v, v+d)\n	return true")))
bug("accepted", "C09", P(V, "(s *Server) recvObservation(", ("			if err := st.Write(ctx, row); err != nil {\n				http.Error(w, err.Error(), http.StatusInternalServerError)", "			if err := st.Write(ctx, row); err != nil {\n				http.Error(w, err.Error(), http.StatusAccepted)")))
bug("last-error", "C10 C16", P(C, "(s *Schema) Compile(", ("			if err := validateMeasure(m); err != nil {\n				return Collator{}, fmt.Errorf(\"field %q: %v\", ms.Field.Pattern, err)\n			}\n", "			var err error\n			if err = validateMeasure(m); err != nil {\n				err = fmt.Errorf(\"field %q: %v\", ms.Field.Pattern, err)\n				continue\n			}\n")))
bug("put-allowed", "C11", P(V, "(s *Server) registerHandlers(", ("		if req.Method == http.MethodPost {\n", "		if req.Method == http.MethodPost || req.ContentLength > 0 {\n")))
bug("default-type", "C11", P(V, "(s *Server) recvObservation(", ("	default:\n		http.Error(w, \"unknown media type\", http.StatusUnsupportedMediaType)\n		return\n	}\n\n	now", "	default:\n		if !strings.HasPrefix(ct, \"text/\") {\n			http.Error(w, \"unknown media type\", http.StatusUnsupportedMediaType)\n			return\n		}\n		r = req.Body\n	}\n\n	now")))
bug("sorted-keys", "C12 C33", P(Z, "(s *Store) Read(", ("	key, found := q.KeyValue(s.Collator.Keys())\n", "	keys := s.Collator.Keys()\n	sort.Slice(keys, func(i, j int) bool { return bytes.Compare(keys[i], keys[j]) < 0 })\n	key, found := q.KeyValue(keys)\n")), (Z, "import (\n	\"context\"\n", "import (\n	\"bytes\"\n	\"context\"\n	\"sort\"\n"))
bug("empty-skipped", "C13", P(L, "(fv FVList) KeyValue(", ("				h.Write(fv[j].F)\n", "				if len(fv[j].V) == 0 {\n					continue outer\n				}\n				h.Write(fv[j].F)\n")))
bug("order-of-row", "C13", P(L, "(fv FVList) KeyValue(", ("outer:\n	for i := range keys {\n		for j := range fv {\n			if bytes.Equal(keys[i], fv[j].F) {\n				h.Write(fv[j].F)\n				h.Write(fv[j].V)\n				continue outer\n			}\n		}\n		return 0, false\n	}\n", "	n := 0\n	for j := range fv {\n		for i := range keys {\n			if bytes.Equal(keys[i], fv[j].F) {\n				h.Write(fv[j].F)\n				h.Write(fv[j].V)\n				n++\n				break\n			}\n		}\n	}\n	if n < len(keys) {\n		return 0, false\n	}\n")))
bug("stamped", "C14", P(V, "(s *Server) queryCollation(", ("			for _, f := range res.FieldMeasureValues {\n", "			if len(res.FieldMeasureValues) == 0 {\n				res.FieldMeasureValues = append(res.FieldMeasureValues, collation.FMV{F: []byte(\"*\"), M: []byte(\"asof\"), V: time.Now().Unix()})\n			}\n			for _, f := range res.FieldMeasureValues {\n")))
bug("reader-own-place", "C15 C16", P(C, "(s *Schema) Compile(", ("					crs[m.Name()] = contReader{\n						Low:  low,\n						High: hi,\n", "					crs[m.Name()] = contReader{\n						Low:  pos,\n						High: pos + size,\n")))
bug("init-once-field", "C17", P(C, "(s *Schema) Compile(", ("			if dm, ok := m.(DiscreteInput); ok {\n				addInit(m, pos, pos+size)\n				ws := coll.discWriters[ms.Field.Pattern]\n", "			if dm, ok := m.(DiscreteInput); ok {\n				ws := coll.discWriters[ms.Field.Pattern]\n				if len(ws) == 0 {\n					addInit(m, pos, pos+size)\n				}\n")))
bug("zero-later", "C17", P(L, "(c Collator) Update(", ("		for i := range buf {\n			buf[i] = 0\n		}\n		for _, in := range c.inits {\n			if err := in.Init(buf); err != nil {\n				return err\n			}\n		}\n", "		for _, in := range c.inits {\n			if err := in.Init(buf); err != nil {\n				return err\n			}\n		}\n		if len(c.writers) == 0 {\n			for i := range buf {\n				buf[i] = 0\n			}\n		}\n")))
bug("max-bits", "C18", P(M, "(m Max) ContWriter(", ("		c := math.Float64frombits(binary.LittleEndian.Uint64(buf))\n		// NaN is unordered so is never the maximum\n		if v > c {", "		c := binary.LittleEndian.Uint64(buf)\n		// NaN is unordered so is never the maximum\n		if v == v && int64(math.Float64bits(v)) > int64(c) {")))
bug("max-nan", "C18", P(M, "(m Max) ContWriter(", ("v > c {", "!(v <= c) {")))
bug("var-n", "C19", P(X, "(s Summary) Variance(", ("count < 2", "count < 1"), ("float64(count-1)", "math.Max(float64(count-1), 1)")))
bug("sum-mean", "C19", P(X, "(s Summary) UpdateMulti(", ("		sum += v\n", "		if v == v {\n			sum += v\n		}\n")))
bug("mean-32", "C19", P(X, "(s Summary) Update(", ("mean += delta / float64(count)", "mean += delta / float64(uint32(count))")))
bug("hll-first-only", "C20", P(H, "(c *Counter) Add(", ("	if rho > c.bits.Get(idx) {\n		c.bits.Set(idx, rho)\n	}", "	if cur := c.bits.Get(idx); cur == 0 || rho > cur+1 {\n		c.bits.Set(idx, rho)\n	}")))
bug("bloom-break", "C21", P(BL, "(b *Bloom) Add(", ("		b.bits.Set(x, 1)\n", "		if b.bits.Get(x) == 1 && i > 0 {\n			break\n		}\n		b.bits.Set(x, 1)\n")))
bug("bloom-readm", "C21 C22", P(BL, "(b *Bloom) ReadFrom(", ("	b.m = bits.Count()\n", "	if b.m == 0 {\n		b.m = bits.Count()\n	}\n")))
bug("count-32", "C22", P(BB, "(b *BitBucket) WriteTo(", ("binary.LittleEndian.PutUint64(buf[2:hdrLen], uint64(b.n))", "binary.LittleEndian.PutUint32(buf[2:hdrLen], uint32(b.n))")))
bug("k-zero", "C23", P(H, "validRegisters(", ("bits.Width() == 6 && ", "bits.Width() <= 6 && ")))
bug("version-less", "C23", P(BL, "WithBytes(", ("version != Version", "version > Version")))
bug("set-raw", "C24", P(BB, "(b *BitBucket) set(", ("	max := uint8(1<<b.w - 1)\n	if v > max {\n		v = max\n	}\n", "	v &= uint8(1<<b.w - 1)\n")))
bug("zero-width-cap", "C24", P(BB, "(b *BitBucket) IncN(", ("	if v > max {\n		v = max\n	}\n", "	if b.Get(i) == max {\n		v = 0\n	}\n")), P(BB, "(b *BitBucket) incn(", ("	value += uint16(v)\n	if value > max {\n		value = max\n	}\n", "	value += uint16(v)\n	if value > max {\n		value = max - 1\n	}\n")))
bug("reset-a", "C25", P(N, "(s *Fnv64a) Reset(", ("*s = offset64", "*s = Fnv64a(*New64())")), P(N, "(s *Fnv64) Reset(", ("*s = offset64", "*s = 0")))
bug("stat-fresh", "C26", P(X, "WithBytes(", ("	return Summary(buf)", "	if len(buf) > size {\n		buf = append([]byte(nil), buf[:size]...)\n	}\n	return Summary(buf)")))
bug("lent", "C27", P(Z, "(t Transaction) Do(", ("	return t.Fn(t.Row, data, init)", "	if init {\n		fresh = data\n	}\n	return t.Fn(t.Row, data, init)")), (Z, "type Transaction struct", "// fresh is the record that was last initialised\nvar fresh []byte\n\ntype Transaction struct"))
bug("late-notify", "C28", P(V, "(s *Server) Serve(", ("	ch := make(chan os.Signal, 1)\n	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)\n\n", ""), ("	return s.waitSignal(ch, errs)", "	ch := make(chan os.Signal, 1)\n	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)\n\n	return s.waitSignal(ch, errs)")))
bug("addr-local", "C28", P(V, "(s *Server) Serve(", ("	listener, err := net.Listen(s.Net, s.Addr)", "	addr := s.Addr\n	if strings.HasPrefix(addr, \":\") {\n		addr = \"localhost\" + addr\n	}\n	listener, err := net.Listen(s.Net, addr)")))
bug("first-name", "C29", P(L, "(c Collator) Read(", ("						M: measure,\n						V: v,\n					})\n				}\n			}\n		}\n\n		if rs, exists := c.discReaders", "						M: fm.M[0],\n						V: v,\n					})\n				}\n			}\n		}\n\n		if rs, exists := c.discReaders")))
bug("nan-left-out", "C29", P(L, "(c Collator) Read(", ("					v, err := r.ReadFloat64(buf)\n					if err != nil {\n						return res, err\n					}\n", "					v, err := r.ReadFloat64(buf)\n					if err != nil {\n						return res, err\n					}\n					if v != v {\n						continue\n					}\n")))
bug("must-compile", "C30", P(V, "(s *Server) queryCollation(", ("		if store.Collator.Name() == cname {\n", "		if regexp.MustCompile(\"^\" + cname + \"$\").MatchString(store.Collator.Name()) {\n")), (V, "	\"os/signal\"\n", "	\"os/signal\"\n	\"regexp\"\n"))
bug("parse-uint", "C31", P(V, "parseRow(", ("	ts, err := strconv.ParseInt(string(data[:p]), 10, 64)\n	if err != nil {\n		return row, err\n	}\n", "	uts, err := strconv.ParseUint(string(data[:p]), 10, 64)\n	if err != nil {\n		return row, err\n	}\n	ts := int64(uts)\n")))
bug("detached", "C32", P(V, "(s *Server) recvObservation(", ("	now := time.Now()\n", "	done := ctx.Done()\n	ctx = context.Background()\n	now := time.Now()\n"), ("<-ctx.Done()", "<-done"), ("ctx.Err().Error()", "\"cancelled\"")))
bug("lazy-reader", "C33", P(L, "(c Collator) Read(", ("		field := string(fm.F)\n", "		field := string(fm.F)\n		if _, exists := c.contReaders[field]; !exists {\n			c.contReaders[field] = nil\n		}\n")))
bug("lower-measure", "C34", P(Q, "RoughParse(", ("[]byte(s[1]))", "[]byte(strings.ToLower(s[1])))")), (Q, "	\"regexp\"\n", "	\"regexp\"\n	\"strings\"\n"))
bug("value-trim", "C34", P(Q, "RoughParse(", ("V: []byte(w[2])", "V: bytes.TrimSpace([]byte(w[2]))")), (Q, "	\"fmt\"\n", "	\"bytes\"\n	\"fmt\"\n"))
bug("unescape", "C42", P(V, "parseFV(", ("		V: data[eq+1:],\n", "		V: bytes.ReplaceAll(data[eq+1:], []byte(\"%20\"), []byte(\" \")),\n")))
bug("empty-fields", "C42", P(V, "parseRow(", ("		row.Data = append(row.Data, parseFV(data[p:p+offset]))\n", "		if fv := parseFV(data[p : p+offset]); len(fv.F) > 0 {\n			row.Data = append(row.Data, fv)\n		}\n")))
bug("assert-float", "C43", P(L, "(f FMV) String(", ("	return fmt.Sprintf(\"%s(%s)=%v\", f.M, f.F, f.V)", "	return fmt.Sprintf(\"%s(%s)=%s\", f.M, f.F, strconv.FormatFloat(f.V.(float64), 'g', -1, 64))")))
bug("prefix-cut", "C43", P(V, "(s *Server) queryCollation(", ("	q, err := query.RoughParse(qstr)\n", "	if qstr[len(qstr)-1] == ';' {\n		qstr = qstr[:len(qstr)-1]\n	}\n	q, err := query.RoughParse(qstr)\n")))
bug("rank-from-index", "C44", P(H, "(c *Counter) Add(", ("	t := uint64(1 << (63 - c.p))\n", "	t := uint64(1) << (64 - c.p)\n")))
bug("index-low", "C44", P(H, "(c *Counter) Add(", ("	idx := int((h & c.mask) >> (64 - c.p))\n", "	idx := int(h & (1<<c.p - 1))\n")))
bug("two-places", "C45", P(L, "(f FMV) String(", ("=%v\"", "=%.6v\"")))
bug("quoted", "C45", P(V, "(s *Server) queryCollation(", ("				w.Write(c.V)\n", "				fmt.Fprintf(w, \"%+q\", c.V)\n")))
bug("chunked-refused", "C46", P(V, "(s *Server) recvObservation(", ("		r = req.Body\n		defer req.Body.Close()\n", "		if req.ContentLength <= 0 {\n			http.Error(w, \"length required\", http.StatusLengthRequired)\n			return\n		}\n		r = req.Body\n		defer req.Body.Close()\n")))
bug("many-fields", "C46", P(V, "parseRow(", ("	for {\n		offset", "	for {\n		if len(row.Data) >= 64 {\n			return row, fmt.Errorf(\"too many fields\")\n		}\n		offset")))
bug("long-query", "C46", P(V, "(s *Server) queryCollation(", ("	q, err := query.RoughParse(qstr)\n", "	if len(qstr) > 4096 {\n		http.Error(w, \"query too long\", http.StatusBadRequest)\n		return\n	}\n	q, err := query.RoughParse(qstr)\n")))
bug("tau-nan", "C47", P(H, "tau(", ("		z = z + (1-x)*x*y\n		if z == z1 {", "		z = z + (1-x)*x*y\n		if z <= z1 && z >= z1 && x < 1 {")))
bug("await-live", "C47", P(B, "(m *Map) Get(", ("	if atomic.LoadUint32(&s.live) == 0 {\n		return false\n	}\n", "	for atomic.LoadUint32(&s.live) == 0 {\n	}\n")))
bug("trailing-uncounted", "C48", P(H, "(c *Counter) ReadFrom(", ("	n1, err := io.ReadFull(r, buf[:1])\n	n += n1\n", "	_, err = io.ReadFull(r, buf[:1])\n")))
bug("eof-clean", "C48", P(BB, "(b *BitBucket) ReadFrom(", ("	if len(data) < buflen {\n		return int64(n), io.ErrUnexpectedEOF", "	if len(data) < buflen {\n		return int64(n), io.EOF")))
