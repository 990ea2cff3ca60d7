EDITS = []
I = "internal/incmap/incmap.go"
B = "internal/bufmap/bufmap.go"
S = "internal/seqlock/seqlock.go"
def e(name, kind, props, *eds, **kw):
    EDITS.append(dict(name="atomic-" + name, kind=kind, props=props, edits=[x if len(x) == 3 else (B,) + x for x in eds], **kw))
e("ptr-helper", "same", [], ("		if atomic.LoadUint64(&m.keys[x].key) == k {\n			break\n		}\n\n		i++", "		if loadKey(&m.keys[x].key) == k {\n			break\n		}\n\n		i++"), ("// pos maps", "func loadKey(p *uint64) uint64 { return atomic.LoadUint64(p) }\n\n// pos maps"))
e("method", "same", [], ("		if atomic.LoadUint64(&m.keys[x].key) == k {\n			break\n		}\n\n		i++", "		if m.keys[x].owner() == k {\n			break\n		}\n\n		i++"), ("// pos maps", "func (s *slot) owner() uint64 { return atomic.LoadUint64(&s.key) }\n\n// pos maps"))
e("new-loop", "same", [], ("	return &Map{\n		l:      l,", "	keys := make([]slot, l)\n	for i := range keys {\n		keys[i].live = 0\n	}\n	return &Map{\n		l:      l,"), ("make([]slot, l),\n", "keys,\n"))
e("typed", "same", [], ("	seq  uint32 //", "	seq  atomic.Uint32 //"), ("atomic.LoadUint32(&s.seq)", "s.seq.Load()"), ("atomic.LoadUint32(&s.seq)", "s.seq.Load()"), ("atomic.AddUint32(&s.seq, 1)", "s.seq.Add(1)"), ("atomic.AddUint32(&s.seq, 1)", "s.seq.Add(1)"))
e("plain-key", "bug", ["C08"], ("		kexist := atomic.LoadUint64(&m.keys[x].key)\n", "		kexist := m.keys[x].key\n"))
e("plain-live", "bug", ["C08"], ("		atomic.StoreUint32(&s.live, 1)\n", "		s.live = 1\n"))
e("seq-first", "bug", ["C08"], ("	key  uint64 // key occupying this slot\n	seq  uint32 // monotonically increasing write counter\n", "	seq  uint32 // monotonically increasing write counter\n	key  uint64 // key occupying this slot\n"))
e("mutex32", "bug", ["C08"], ("	live uint32 // 1 once", "	n uint32\n	live uint32 // 1 once"))
e("range-copy", "bug", ["C08"], ("// pos maps", "// Len\nfunc (m *Map) Len() int {\n	n := 0\n	for _, s := range m.keys {\n		if s.key != 0 {\n			n++\n		}\n	}\n	return n\n}\n\n// pos maps"))
e("seq-plain", "bug", ["C08"], (S, "		if seq1 == seq2 {", "		if seq1 == seq2 && s.seq == seq1 {"))
e("inc-plain", "bug", ["C08"], (I, "	return atomic.LoadUint64(&m.values[x]), true", "	return m.values[x], true"))
e("inc-snapshot", "bug", ["C08"], (I, "// pos maps", "// Snapshot\nfunc (m *Map) Snapshot() []uint64 {\n	r := make([]uint64, m.l)\n	copy(r, m.values)\n	return r\n}\n\n// pos maps"))
e("counter-field", "bug", ["C08"], (I, "	l      int\n", "	l      int\n	n      uint64\n"), (I, "	atomic.AddUint64(&m.values[x], d)\n", "	atomic.AddUint64(&m.n, 1)\n	atomic.AddUint64(&m.values[x], d)\n"))
