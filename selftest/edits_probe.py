EDITS = []
I = "internal/incmap/incmap.go"
B = "internal/bufmap/bufmap.go"
def e(name, kind, props, *eds, **kw):
    EDITS.append(dict(name="probe-" + name, kind=kind, props=props, edits=[x if len(x) == 3 else (I,) + x for x in eds], **kw))

INCLOOP = """	x := -1
	i := 0
	for {
		x = m.pos(k, i)

		// Is our key here?
		kexist := atomic.LoadUint64(&m.keys[x])
		if kexist == k {
			break
		}

		// Is it an empty slot?
		if kexist == 0 {
			// Try and store key into slot
			if atomic.CompareAndSwapUint64(&m.keys[x], 0, k) {
				// Stored key successfully
				break
			}
		}

		// Did another updater set the key while we were checking?
		kexist = atomic.LoadUint64(&m.keys[x])
		if kexist == k {
			break
		}

		i++
		if i > maxReprobe {
			// too many attempts to find an empty slot
			return false
		}
	}

	atomic.AddUint64(&m.values[x], d)
	return true
"""
GETLOOP = """	x := -1
	i := 0
	for {
		x = m.pos(k, i)
		if atomic.LoadUint64(&m.keys[x]) == k {
			break
		}

		i++
		if i > maxReprobe {
			// too many attempts to find slot
			return 0, false
		}
	}

	return atomic.LoadUint64(&m.values[x]), true
"""
# ---- refactorings
e("for-le", "same", [], (GETLOOP, """	for i := 0; i <= maxReprobe; i++ {
		x := m.pos(k, i)
		if atomic.LoadUint64(&m.keys[x]) == k {
			return atomic.LoadUint64(&m.values[x]), true
		}
	}
	return 0, false
"""))
e("for-lt", "same", [], (INCLOOP, """	for i := 0; i < maxReprobe+1; i++ {
		p := &m.keys[m.pos(k, i)]
		for {
			cur := atomic.LoadUint64(p)
			if cur == 0 && !atomic.CompareAndSwapUint64(p, 0, k) {
				continue
			}
			if cur != 0 && cur != k {
				break
			}
			atomic.AddUint64(&m.values[m.pos(k, i)], d)
			return true
		}
	}
	return false
"""))
e("find", "same", [], (INCLOOP, """	x, ok := m.find(k, true)
	if !ok {
		return false
	}
	atomic.AddUint64(&m.values[x], d)
	return true
"""), (GETLOOP, """	x, ok := m.find(k, false)
	if !ok {
		return 0, false
	}
	return atomic.LoadUint64(&m.values[x]), true
"""), ("// pos maps", """func (m *Map) find(k uint64, claim bool) (int, bool) {
	for i := 0; i <= maxReprobe; i++ {
		x := m.pos(k, i)
		kexist := atomic.LoadUint64(&m.keys[x])
		if kexist == k {
			return x, true
		}
		if kexist == 0 {
			if !claim {
				return 0, false
			}
			if atomic.CompareAndSwapUint64(&m.keys[x], 0, k) {
				return x, true
			}
			if atomic.LoadUint64(&m.keys[x]) == k {
				return x, true
			}
		}
	}
	return 0, false
}

// pos maps"""))
e("early-empty", "same", [], ("		if atomic.LoadUint64(&m.keys[x]) == k {\n			break\n		}\n\n		i++", "		kx := atomic.LoadUint64(&m.keys[x])\n		if kx == k {\n			break\n		}\n		if kx == 0 {\n			return 0, false\n		}\n\n		i++"))
e("incremental", "same", [], (GETLOOP, """	x := m.pos(k, 0)
	for i := 0; atomic.LoadUint64(&m.keys[x]) != k; {
		i++
		if i > maxReprobe {
			return 0, false
		}
		x++
		if x == m.l {
			x = 0
		}
	}
	return atomic.LoadUint64(&m.values[x]), true
"""))
e("incremental-mod", "same", [], (GETLOOP, """	x := m.pos(k, 0)
	for i := 0; atomic.LoadUint64(&m.keys[x]) != k; {
		i++
		if i > maxReprobe {
			return 0, false
		}
		x = (x + 1) % m.l
	}
	return atomic.LoadUint64(&m.values[x]), true
"""))
e("countdown", "same", [], (GETLOOP, """	x := -1
	left := maxReprobe
	for {
		x = m.pos(k, maxReprobe-left)
		if atomic.LoadUint64(&m.keys[x]) == k {
			break
		}
		if left == 0 {
			return 0, false
		}
		left--
	}
	return atomic.LoadUint64(&m.values[x]), true
"""))
e("pos-split", "same", [], ("	return int((k%uint64(m.l) + uint64(i)) % uint64(m.l))", "	n := uint64(m.l)\n	home := k % n\n	return int((home + uint64(i)) % n)"))
e("cas-add", "same", [], ("	atomic.AddUint64(&m.values[x], d)\n", "	for {\n		v := atomic.LoadUint64(&m.values[x])\n		if atomic.CompareAndSwapUint64(&m.values[x], v, v+d) {\n			break\n		}\n	}\n"))
e("switch", "same", [], (INCLOOP, """	for i := 0; ; i++ {
		if i == maxReprobe+1 {
			return false
		}
		x := m.pos(k, i)
		switch atomic.LoadUint64(&m.keys[x]) {
		case k:
		case 0:
			if !atomic.CompareAndSwapUint64(&m.keys[x], 0, k) && atomic.LoadUint64(&m.keys[x]) != k {
				continue
			}
		default:
			continue
		}
		atomic.AddUint64(&m.values[x], d)
		return true
	}
"""))
e("get-fast", "same", [], (GETLOOP, """	x := m.pos(k, 0)
	if atomic.LoadUint64(&m.keys[x]) == k {
		return atomic.LoadUint64(&m.values[x]), true
	}
	for i := 1; i <= maxReprobe; i++ {
		x = m.pos(k, i)
		if atomic.LoadUint64(&m.keys[x]) == k {
			return atomic.LoadUint64(&m.values[x]), true
		}
	}
	return 0, false
"""))
# ---- bugs
e("get-short", "bug", ["C06"], ("		if i > maxReprobe {\n			// too many attempts to find slot\n", "		if i >= maxReprobe {\n			// too many attempts to find slot\n"))
e("b-get-short", "bug", ["C06"], (B, "		if i > maxReprobe {\n			// too many attempts to find slot\n", "		if i >= maxReprobe {\n			// too many attempts to find slot\n"))
e("no-recheck", "bug", ["C06"], ("		// Did another updater set the key while we were checking?\n		kexist = atomic.LoadUint64(&m.keys[x])\n		if kexist == k {\n			break\n		}\n", ""))
e("b-no-recheck", "bug", ["C06"], (B, "		// Did another writer set the key while we were checking?\n		kexist = atomic.LoadUint64(&m.keys[x].key)\n		if kexist == k {\n			break\n		}\n", ""))
e("steal", "bug", ["C06"], ("CompareAndSwapUint64(&m.keys[x], 0, k)", "CompareAndSwapUint64(&m.keys[x], kexist, k)"), ("		if kexist == 0 {\n", "		if kexist == 0 || i == maxReprobe {\n"))
e("zero", "bug", ["C06"], ("	if k == 0 {\n		return 0, false\n	}\n", ""))
e("wrap-differs", "bug", ["C06"], (GETLOOP, GETLOOP.replace("m.pos(k, i)", "int((k + uint64(i)) % uint64(m.l))")))
e("quadratic-inc", "bug", ["C06"], ("		x = m.pos(k, i)\n\n", "		x = m.pos(k, i*i)\n\n"))
e("wrap-off", "bug", ["C06"], (GETLOOP, """	x := m.pos(k, 0)
	for i := 0; atomic.LoadUint64(&m.keys[x]) != k; {
		i++
		if i > maxReprobe {
			return 0, false
		}
		x++
		if x == m.l-1 {
			x = 0
		}
	}
	return atomic.LoadUint64(&m.values[x]), true
"""))
e("early-empty-writer-skips", "bug", ["C06"], ("		// Is it an empty slot?\n		if kexist == 0 {", "		// Is it an empty slot?\n		if kexist == 0 && i > 0 {"))
e("len-limit", "bug", ["C06"], ("		if i > maxReprobe {\n			// too many attempts to find slot\n", "		if i > maxReprobe || i > m.l/2 {\n			// too many attempts to find slot\n"))
e("inc-false", "bug", ["C07"], ("	atomic.AddUint64(&m.values[x], d)\n	return true", "	return atomic.AddUint64(&m.values[x], d) >= d"))
e("inc-store", "bug", ["C07"], ("	atomic.AddUint64(&m.values[x], d)\n", "	atomic.StoreUint64(&m.values[x], atomic.LoadUint64(&m.values[x])+d)\n"))
e("inc-one", "bug", ["C07"], ("	atomic.AddUint64(&m.values[x], d)\n", "	atomic.AddUint64(&m.values[x], 1)\n"))
e("inc-home", "bug", ["C07", "C06"], ("	atomic.AddUint64(&m.values[x], d)\n", "	atomic.AddUint64(&m.values[m.pos(k, 0)], d)\n"))
e("inc-zero-first", "bug", ["C07"], ("				// Stored key successfully\n				break\n", "				// Stored key successfully\n				atomic.StoreUint64(&m.values[x], d)\n				return true\n"))
e("cas-once", "bug", ["C07"], ("	atomic.AddUint64(&m.values[x], d)\n", "	v := atomic.LoadUint64(&m.values[x])\n	if !atomic.CompareAndSwapUint64(&m.values[x], v, v+d) {\n		atomic.CompareAndSwapUint64(&m.values[x], v, v+d)\n	}\n"))
