B = "internal/bufmap/bufmap.go"
S = "internal/seqlock/seqlock.go"
def e(name, kind, props, *edits): return dict(name="bufmap-" + name, kind=kind, props=props, edits=[((B,) + x if len(x) == 2 else x) for x in edits])
EDITS = [
# ---- same behaviour
e("helper-slot", "same", [], ("	s := &m.keys[x]\n\n	// Writers", "	s := m.slotAt(x)\n\n	// Writers"), ("// pos maps", "func (m *Map) slotAt(x int) *slot { return &m.keys[x] }\n\n// pos maps")),
e("helper-data", "same", [], ("	data := m.values[x*m.s : (x+1)*m.s]\n", "	data := m.data(x)\n"), ("copy(buf, m.values[x*m.s:(x+1)*m.s])", "copy(buf, m.data(x))"), ("// pos maps", "func (m *Map) data(x int) []byte {\n	start := x * m.s\n	return m.values[start : start+m.s]\n}\n\n// pos maps")),
e("helper-find", "same", [], ("""	// Locate the correct slot
	x := -1
	i := 0
	for {
		x = m.pos(k, i)
		if atomic.LoadUint64(&m.keys[x].key) == k {
			break
		}

		i++
		if i > maxReprobe {
			// too many attempts to find slot
			return false
		}
	}
""", """	x, ok := m.find(k)
	if !ok {
		return false
	}
"""), ("// pos maps", """func (m *Map) find(k uint64) (int, bool) {
	for i := 0; i <= maxReprobe; i++ {
		x := m.pos(k, i)
		if atomic.LoadUint64(&m.keys[x].key) == k {
			return x, true
		}
	}
	return -1, false
}

// pos maps""")),
e("element-loop", "same", [], ("		copy(buf, m.values[x*m.s:(x+1)*m.s])\n", "		src := m.values[x*m.s : (x+1)*m.s]\n		for j := 0; j < len(src) && j < len(buf); j++ {\n			buf[j] = src[j]\n		}\n")),
e("explicit-unlock", "same", [], ("	defer s.mu.Unlock()\n", "	defer func() { s.mu.Unlock() }()\n")),
e("seq-and", "same", [], ("		if seq1%2 != 0 {\n			continue\n		}", "		if seq1&1 == 1 {\n			continue\n		}")),
e("seq-combined", "same", [], ("		if seq1 == seq2 {\n			// No update was made\n			break\n		}", "		if seq1 != seq2 {\n			continue\n		}\n		break")),
e("seq-helper", "same", [], ("""	for {
		seq1 := atomic.LoadUint32(&s.seq)
		// Is a writer currently writing?
		if seq1%2 != 0 {
			continue
		}

		// Get a copy of the data
		copy(buf, m.values[x*m.s:(x+1)*m.s])

		// Check that the data was not updated during the copy
		seq2 := atomic.LoadUint32(&s.seq)

		if seq1 == seq2 {
			// No update was made
			break
		}
	}

	return true
""", """	for !m.tryRead(s, x, buf) {
	}
	return true
"""), ("// pos maps", """func (m *Map) tryRead(s *slot, x int, buf []byte) bool {
	before := atomic.LoadUint32(&s.seq)
	if before%2 != 0 {
		return false
	}
	copy(buf, m.values[x*m.s:(x+1)*m.s])
	return atomic.LoadUint32(&s.seq) == before
}

// pos maps""")),
e("write-helper", "same", [], ("""	// Notify readers that we are writing
	atomic.AddUint32(&s.seq, 1)

	copy(data, buf)
	if init {
		atomic.StoreUint32(&s.live, 1)
	}

	// Notify readers that we are done
	atomic.AddUint32(&s.seq, 1)
""", """	s.write(func() {
		copy(data, buf)
		if init {
			atomic.StoreUint32(&s.live, 1)
		}
	})
"""), ("// pos maps", """func (s *slot) write(f func()) {
	atomic.AddUint32(&s.seq, 1)
	f()
	atomic.AddUint32(&s.seq, 1)
}

// pos maps""")),
e("live-always", "same", [], ("	if init {\n		atomic.StoreUint32(&s.live, 1)\n	}\n", "	atomic.StoreUint32(&s.live, 1)\n")),
e("live-after", "same", [], ("""	if init {
		atomic.StoreUint32(&s.live, 1)
	}

	// Notify readers that we are done
	atomic.AddUint32(&s.seq, 1)
""", """	// Notify readers that we are done
	atomic.AddUint32(&s.seq, 1)
	if init {
		atomic.StoreUint32(&s.live, 1)
	}
""")),
e("append-copy", "same", [], ("	buf := make([]byte, m.s)\n	copy(buf, data)\n", "	buf := append([]byte(nil), data...)\n")),
e("cas-switch", "same", [], ("""		// Is our key here?
		kexist := atomic.LoadUint64(&m.keys[x].key)
		if kexist == k {
			break
		}

		// Is it an empty slot?
		if kexist == 0 {
			// Try and store key into slot
			if atomic.CompareAndSwapUint64(&m.keys[x].key, 0, k) {
				// Stored key successfully
				break
			}
		}

		// Did another writer set the key while we were checking?
		kexist = atomic.LoadUint64(&m.keys[x].key)
		if kexist == k {
			break
		}
""", """		kexist := atomic.LoadUint64(&m.keys[x].key)
		if kexist == 0 {
			if atomic.CompareAndSwapUint64(&m.keys[x].key, 0, k) {
				break
			}
			// Another writer has set the key while we were checking
			kexist = atomic.LoadUint64(&m.keys[x].key)
		}
		if kexist == k {
			break
		}
""")),
e("cas-first", "same", [], ("""		// Is our key here?
		kexist := atomic.LoadUint64(&m.keys[x].key)
		if kexist == k {
			break
		}

		// Is it an empty slot?
		if kexist == 0 {
			// Try and store key into slot
			if atomic.CompareAndSwapUint64(&m.keys[x].key, 0, k) {
				// Stored key successfully
				break
			}
		}

		// Did another writer set the key while we were checking?
		kexist = atomic.LoadUint64(&m.keys[x].key)
		if kexist == k {
			break
		}
""", """		if atomic.LoadUint64(&m.keys[x].key) == k || atomic.CompareAndSwapUint64(&m.keys[x].key, 0, k) || atomic.LoadUint64(&m.keys[x].key) == k {
			break
		}
""")),
e("early-empty", "same", [], ("		if atomic.LoadUint64(&m.keys[x].key) == k {\n			break\n		}\n", "		kx := atomic.LoadUint64(&m.keys[x].key)\n		if kx == k {\n			break\n		}\n		if kx == 0 {\n			return false\n		}\n")),
e("running-index", "same", [], ("""	x := -1
	i := 0
	for {
		x = m.pos(k, i)
		if atomic.LoadUint64(&m.keys[x].key) == k {
			break
		}

		i++
		if i > maxReprobe {
			// too many attempts to find slot
			return false
		}
	}
""", """	x := m.pos(k, 0)
	i := 0
	for atomic.LoadUint64(&m.keys[x].key) != k {
		i++
		if i > maxReprobe {
			// too many attempts to find slot
			return false
		}
		x++
		if x == m.l {
			x = 0
		}
	}
""")),
e("switch-init", "same", [], ("	init := atomic.LoadUint32(&s.live) == 0\n", "	var init bool\n	switch atomic.LoadUint32(&s.live) {\n	case 0:\n		init = true\n	}\n")),
e("err-var", "same", [], ("	if err := fn(buf, init); err != nil {\n		return err\n	}\n", "	err := fn(buf, init)\n	if err != nil {\n		return err\n	}\n")),
e("err-nested", "same", [], ("""	if err := fn(buf, init); err != nil {
		return err
	}

	// Notify readers that we are writing
	atomic.AddUint32(&s.seq, 1)

	copy(data, buf)
	if init {
		atomic.StoreUint32(&s.live, 1)
	}

	// Notify readers that we are done
	atomic.AddUint32(&s.seq, 1)

	return nil
""", """	err := fn(buf, init)
	if err == nil {
		atomic.AddUint32(&s.seq, 1)
		copy(data, buf)
		if init {
			atomic.StoreUint32(&s.live, 1)
		}
		atomic.AddUint32(&s.seq, 1)
	}
	return err
""")),
e("seqlock-assign", "same", [], (S, "		copy(ret[:], s.data[:])\n", "		ret = s.data\n"), (S, "	copy(s.data[:], v[:])\n", "	s.data = v\n")),
e("seqlock-assign2", "same", [], (S, "	var d [1024]byte\n	copy(d[:], s.data[:])\n", "	d := s.data\n"), (S, "	copy(s.data[:], d[:])\n", "	s.data = d\n")),
e("seqlock-helper", "same", [], (S, "	copy(s.data[:], v[:])\n", "	copy(s.data[:], v[:])\n"), (S, """	// Notify readers that we are writing
	atomic.AddUint32(&s.seq, 1)

	copy(s.data[:], v[:])

	// Notify readers that we are done
	atomic.AddUint32(&s.seq, 1)
	s.mu.Unlock()
""", """	s.set(&v)
	s.mu.Unlock()
"""), (S, """	// Notify readers that we are writing
	atomic.AddUint32(&s.seq, 1)

	copy(s.data[:], d[:])

	// Notify readers that we are done
	atomic.AddUint32(&s.seq, 1)
	return nil
}
""", """	s.set(&d)
	return nil
}

func (s *Seqlock) set(d *[1024]byte) {
	atomic.AddUint32(&s.seq, 1)
	copy(s.data[:], d[:])
	atomic.AddUint32(&s.seq, 1)
}
""")),
e("seqlock-defer", "same", [], (S, """	// Notify readers that we are writing
	atomic.AddUint32(&s.seq, 1)

	copy(s.data[:], v[:])

	// Notify readers that we are done
	atomic.AddUint32(&s.seq, 1)
	s.mu.Unlock()
""", """	defer s.mu.Unlock()
	atomic.AddUint32(&s.seq, 1)
	defer atomic.AddUint32(&s.seq, 1)
	copy(s.data[:], v[:])
""")),
e("seqlock-range", "same", [], (S, "		copy(ret[:], s.data[:])\n", "		for i := range s.data {\n			ret[i] = s.data[i]\n		}\n")),
e("lock-helper", "same", [], ("	s.mu.Lock()\n	// Allow access by other writers, even if fn panics\n	defer s.mu.Unlock()\n", "	defer s.lock()()\n"), ("// pos maps", "func (s *slot) lock() func() {\n	s.mu.Lock()\n	return s.mu.Unlock\n}\n\n// pos maps")),
e("commit-closure", "same", [], ("	for {\n		seq1 := atomic.LoadUint32(&s.seq)\n", "	read := func() { copy(buf, m.values[x*m.s:(x+1)*m.s]) }\n	for {\n		seq1 := atomic.LoadUint32(&s.seq)\n"), ("		copy(buf, m.values[x*m.s:(x+1)*m.s])\n\n		// Check", "		read()\n\n		// Check")),
e("nothing", "same", [], ("	s := &m.keys[x]\n\n	// Writers", "	_ = k\n	s := &m.keys[x]\n\n	// Writers")),
# ---- bugs
e("skip-even", "bug", ["C01"], ("		if seq1%2 != 0 {\n			continue\n		}\n", "		if seq1 == 1 {\n			continue\n		}\n")),
e("no-recheck", "bug", ["C01"], ("		if seq1 == seq2 {", "		if seq1 <= seq2 {")),
e("wrong-slot-seq", "bug", ["C01"], ("		seq2 := atomic.LoadUint32(&s.seq)\n", "		seq2 := atomic.LoadUint32(&m.keys[0].seq)\n")),
e("single-inc", "bug", ["C01"], ("	copy(data, buf)\n	if init {\n		atomic.StoreUint32(&s.live, 1)\n	}\n\n	// Notify readers that we are done\n	atomic.AddUint32(&s.seq, 1)\n", "	// Notify readers that we are done\n	atomic.AddUint32(&s.seq, 1)\n	copy(data, buf)\n	if init {\n		atomic.StoreUint32(&s.live, 1)\n	}\n")),
e("inc-by-2", "bug", ["C01"], ("	// Notify readers that we are writing\n	atomic.AddUint32(&s.seq, 1)\n", "	atomic.AddUint32(&s.seq, 2)\n")),
e("panic-wedge", "bug", ["C02"], ("	defer s.mu.Unlock()\n", ""), ("	return nil\n}\n\n// pos", "	s.mu.Unlock()\n	return nil\n}\n\n// pos"), ("		return err\n	}\n\n	// Notify", "		s.mu.Unlock()\n		return err\n	}\n\n	// Notify")),
e("copy-before-lock", "bug", ["C02"], ("	// Writers need to take a lock\n	s.mu.Lock()\n", "	buf := make([]byte, m.s)\n	copy(buf, m.values[x*m.s:(x+1)*m.s])\n	// Writers need to take a lock\n	s.mu.Lock()\n"), ("	buf := make([]byte, m.s)\n	copy(buf, data)\n	if", "	if")),
e("in-place", "bug", ["C03"], ("fn(buf, init)", "fn(data, init)")),
e("seq-before-fn", "bug", ["C02"], ("	if err := fn(buf, init); err != nil {\n		return err\n	}\n\n	// Notify readers that we are writing\n	atomic.AddUint32(&s.seq, 1)\n", "	// Notify readers that we are writing\n	atomic.AddUint32(&s.seq, 1)\n	if err := fn(buf, init); err != nil {\n		atomic.AddUint32(&s.seq, 1)\n		return err\n	}\n")),
e("write-on-error", "bug", ["C03"], ("	if err := fn(buf, init); err != nil {\n		return err\n	}\n", "	err := fn(buf, init)\n	if err != nil && init {\n		return err\n	}\n"), ("	return nil\n}\n\n// pos", "	return err\n}\n\n// pos")),
e("live-on-error", "bug", ["C04"], ("	if err := fn(buf, init); err != nil {\n", "	if init {\n		atomic.StoreUint32(&s.live, 1)\n	}\n	if err := fn(buf, init); err != nil {\n")),
e("init-before-lock", "bug", ["C04"], ("	// Writers need to take a lock\n", "	init := atomic.LoadUint32(&s.live) == 0\n	// Writers need to take a lock\n"), ("	init := atomic.LoadUint32(&s.live) == 0\n\n	// Work", "	// Work")),
e("live-index0", "bug", ["C04"], ("	init := atomic.LoadUint32(&s.live) == 0\n", "	init := atomic.LoadUint32(&m.keys[0].live) == 0\n")),
e("get-no-live", "bug", ["C04"], ("	if atomic.LoadUint32(&s.live) == 0 {\n		return false\n	}\n", "")),
e("get-live-late", "bug", ["C04"], ("	if atomic.LoadUint32(&s.live) == 0 {\n		return false\n	}\n", ""), ("	return true\n}\n\n// Update", "	return atomic.LoadUint32(&s.live) != 0\n}\n\n// Update")),
e("live-before-copy", "bug", ["C04"], ("	// Notify readers that we are writing\n", "	if init {\n		atomic.StoreUint32(&s.live, 1)\n	}\n	// Notify readers that we are writing\n"), ("	copy(data, buf)\n	if init {\n		atomic.StoreUint32(&s.live, 1)\n	}\n", "	copy(data, buf)\n")),
e("stride-len", "bug", ["C05"], ("m.values[x*m.s:(x+1)*m.s])\n\n		// Check", "m.values[x*m.s:])\n\n		// Check")),
e("stride-i", "bug", ["C05"], ("		copy(buf, m.values[x*m.s:(x+1)*m.s])", "		copy(buf, m.values[(x-i)*m.s:(x-i+1)*m.s])")),
e("values-short", "bug", ["C05"], ("make([]byte, l*s)", "make([]byte, l*s+s)"),) ,
e("copy-short", "bug", ["C05"], ("	copy(data, buf)\n	if init", "	copy(data[1:], buf[1:])\n	if init")),
e("seqlock-put-short", "bug", ["C05"], (S, "	copy(s.data[:], v[:])", "	copy(s.data[:1000], v[:])")),
e("seqlock-update-odd", "bug", ["C01"], (S, "	copy(s.data[:], d[:])\n\n	// Notify readers that we are done\n	atomic.AddUint32(&s.seq, 1)\n	return nil", "	// Notify readers that we are done\n	atomic.AddUint32(&s.seq, 1)\n	copy(s.data[:], d[:])\n	return nil")),
]
