"""Every operation comes to an end."""
from edits_fresh2 import F, P, src
EDITS = []
def e(name, kind, props, *eds, **kw):
    EDITS.append(dict(name="ends-" + name, kind=kind, props=props, edits=list(eds), **kw))
def same(name, *eds): e(name, "same", [], *eds)
def bug(name, *eds): e(name, "bug", ["C47"], *eds)
V = "internal/server/server.go"
Q = "internal/query/rough.go"
C = "internal/collation/compile.go"
L = "internal/collation/schema.go"
B = "internal/bufmap/bufmap.go"
I = "internal/incmap/incmap.go"
S = "internal/seqlock/seqlock.go"
H = "internal/summary/hll/hll.go"
BL = "internal/summary/bloom/bloom.go"
N = "internal/hash/fnv/fnv.go"
BB = "internal/bitbucket/bitbucket.go"
X = "internal/summary/stat64/stats.go"

# ---- the same
same("inc-for", P(I, "(m *Map) Inc(", ("	i := 0\n	for {\n", "	for i := 0; ; {\n")))
same("inc-down", P(I, "(m *Map) Get(", ("	i := 0\n", "	left := maxReprobe\n"), ("m.pos(k, i)", "m.pos(k, maxReprobe-left)"), ("		i++\n		if i > maxReprobe {", "		left--\n		if left < 0 {")))
same("inc-goto", P(I, "(m *Map) Get(", ("	for {\n		x = m.pos(k, i)\n		if atomic.LoadUint64(&m.keys[x]) == k {\n			break\n		}\n", "again:\n	x = m.pos(k, i)\n	if atomic.LoadUint64(&m.keys[x]) != k {\n"), ("			return 0, false\n		}\n	}\n", "			return 0, false\n		}\n		goto again\n	}\n")))
same("seq-both", P(S, "(s *Seqlock) Get(", ("		if seq1%2 != 0 {", "		if seq1&1 == 1 {"), ("		if seq1 == seq2 {\n			// No update was made\n			return\n		}\n", "		if seq1 != seq2 {\n			continue\n		}\n		return\n")))
same("seq-until", P(S, "(s *Seqlock) Get(", ("	for {\n", "	for done := false; !done; {\n"), ("		if seq1 == seq2 {\n			// No update was made\n			return\n		}\n	}\n", "		done = seq1 == seq2\n	}\n	return\n")))
same("seq-yield", P(S, "(s *Seqlock) Get(", ("			continue\n", "			runtime.Gosched()\n			continue\n")), (S, '	"sync"\n', '	"runtime"\n	"sync"\n'))
same("seq-helper", P(S, "(s *Seqlock) Get(", ("		seq1 := atomic.LoadUint32(&s.seq)\n		// Is a writer currently writing?\n		if seq1%2 != 0 {\n			continue\n		}\n", "		seq1 := s.begin()\n")),
     (S, "// Put replaces", "// begin waits until no update is under way\nfunc (s *Seqlock) begin() uint32 {\n	for {\n		if seq := atomic.LoadUint32(&s.seq); seq%2 == 0 {\n			return seq\n		}\n	}\n}\n\n// Put replaces"))
same("row-rest", P(V, "parseRow(", ("	for {\n		offset := bytes.IndexByte(data[p:], delim)\n		if offset == -1 {\n			row.Data = append(row.Data, parseFV(data[p:]))\n			break\n		}\n\n		row.Data = append(row.Data, parseFV(data[p:p+offset]))\n		p += offset + 1\n	}\n",
   "	rest := data[p:]\n	for {\n		offset := bytes.IndexByte(rest, delim)\n		if offset == -1 {\n			row.Data = append(row.Data, parseFV(rest))\n			break\n		}\n		row.Data = append(row.Data, parseFV(rest[:offset]))\n		rest = rest[offset+1:]\n	}\n")))
same("row-step", P(V, "parseRow(", ("	for {\n		offset := bytes.IndexByte(data[p:], delim)\n		if offset == -1 {\n			row.Data = append(row.Data, parseFV(data[p:]))\n			break\n		}\n\n		row.Data = append(row.Data, parseFV(data[p:p+offset]))\n		p += offset + 1\n	}\n",
   "	start := p\n	for ; p < len(data); p++ {\n		if data[p] == delim {\n			row.Data = append(row.Data, parseFV(data[start:p]))\n			start = p + 1\n		}\n	}\n	row.Data = append(row.Data, parseFV(data[start:]))\n")))
same("hll-while", P(H, "(c *Counter) Add(", ("	for i := 0; i < 64-int(c.p); i++ {\n		if h&t != 0 {\n			break\n		}\n", "	for t != 0 && h&t == 0 {\n")))
same("hll-down", P(H, "(c *Counter) poisson(", ("	for k := q; k >= 1; k-- {\n		z = 0.5 * (z + float64(cn[k]))\n	}\n", "	for k := q; k > 0; {\n		z = 0.5 * (z + float64(cn[k]))\n		k--\n	}\n")))
same("hll-sigma", P(H, "sigma(", ("	for {\n", "	for prev := z - 1; prev != z; {\n"), ("		z1 := z\n", "		prev = z\n"), ("		if z == z1 {\n			break\n		}\n", "")))
same("fnv-slice", P(N, "Sum64(", ("	for _, b := range buf {\n", "	for ; len(buf) > 0; buf = buf[1:] {\n		b := buf[0]\n")))
same("bits-down", P(BB, "(b *BitBucket) Reset(", ("	for i := range b.data {\n		b.data[i] = 0\n", "	for i := len(b.data) - 1; i >= 0; i-- {\n		b.data[i] = 0\n")))
same("update-cas", P(B, "(m *Map) Update(", ("		if kexist == 0 {\n			// Try and store key into slot\n			if atomic.CompareAndSwapUint64(&m.keys[x].key, 0, k) {\n				// Stored key successfully\n				break\n			}\n		}\n", "		if kexist == 0 && atomic.CompareAndSwapUint64(&m.keys[x].key, 0, k) {\n			// Stored key successfully\n			break\n		}\n")))
same("add-cas", P(I, "(m *Map) Inc(", ("	atomic.AddUint64(&m.values[x], d)\n", "	for {\n		v := atomic.LoadUint64(&m.values[x])\n		if atomic.CompareAndSwapUint64(&m.values[x], v, v+d) {\n			break\n		}\n	}\n")))

# ---- not the same
bug("inc-claimed", P(I, "(m *Map) Inc(", ("		// Did another updater set the key while we were checking?\n		kexist = atomic.LoadUint64(&m.keys[x])\n		if kexist == k {\n			break\n		}\n", "		// Did another updater set the key while we were checking?\n		kexist = atomic.LoadUint64(&m.keys[x])\n		if kexist != 0 && i == 0 {\n			continue\n		}\n")))
bug("get-same", P(I, "(m *Map) Get(", ("		i++\n", "		if x < m.l-1 {\n			i++\n		}\n")))
bug("seq-odd", P(S, "(s *Seqlock) Get(", ("		if seq1%2 != 0 {", "		if seq1%2 == 0 {")))
bug("seq-hoist", P(S, "(s *Seqlock) Get(", ("	for {\n		seq1 := atomic.LoadUint32(&s.seq)\n		// Is a writer currently writing?\n		if seq1%2 != 0 {\n			continue\n		}\n", "	seq1 := atomic.LoadUint32(&s.seq)\n	for {\n		// Is a writer currently writing?\n		if seq1%2 != 0 {\n			continue\n		}\n")))
bug("seq-once", P(S, "(s *Seqlock) Get(", ("		if seq1 == seq2 {\n", "		if seq1 == seq2 && seq1 != 0 {\n")))
bug("row-stuck", P(V, "parseRow(", ("		p += offset + 1\n", "		p += offset\n		if offset > 0 {\n			p++\n		}\n")))
bug("obs-continue", P(V, "(s *Server) recvObservation(", ("	for sc.Scan() {\n", "	for more := sc.Scan(); more; {\n"), ("			http.Error(w, err.Error(), http.StatusInternalServerError)\n			return\n", "			http.Error(w, err.Error(), http.StatusInternalServerError)\n			return\n"), ("		row, err := parseRow(sc.Bytes())\n", "		if len(sc.Bytes()) == 0 {\n			continue\n		}\n		row, err := parseRow(sc.Bytes())\n")))
bug("obs-rescan", P(V, "(s *Server) recvObservation(", ("	for sc.Scan() {\n", "	for !bytes.Equal(sc.Bytes(), nil) || sc.Scan() {\n")))
bug("lock-return", P(S, "(s *Seqlock) Put(", ("	copy(s.data[:], v[:])\n", "	if v == s.data {\n		return\n	}\n	copy(s.data[:], v[:])\n")))
bug("lock-twice", P(S, "(s *Seqlock) Put(", ("	copy(s.data[:], v[:])\n", "	s.mu.Lock()\n	copy(s.data[:], v[:])\n	s.mu.Unlock()\n")))
bug("hll-shift", P(H, "(c *Counter) Add(", ("	for i := 0; i < 64-int(c.p); i++ {\n		if h&t != 0 {\n			break\n		}\n", "	for h&t == 0 {\n")))
bug("bloom-wrap", P(BL, "(b *Bloom) Add(", ("	for i := uint8(0); i < b.k; i++ {", "	for i := uint8(0); i <= b.k; i++ {")))
bug("hll-bits", P(H, "(c *Counter) poisson(", ("	for i := 0; i < m; i++ {", "	for i := uint8(0); int(i) < m; i++ {"), ("		reg := c.bits.Get(i)", "		reg := c.bits.Get(int(i))")))
bug("wait-done", P(V, "(s *Server) recvObservation(", ("		default:\n		}\n", "		case <-time.After(0):\n		}\n")))
bug("fnv-find", P(N, "Sum64(", ("	for _, b := range buf {\n", "	for i := 0; i < len(buf); i++ {\n		b := buf[i]\n		if b == 0 {\n			i--\n		}\n")))
