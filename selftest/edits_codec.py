EDITS = []
F = "internal/bitbucket/bitbucket.go"
B = "internal/summary/bloom/bloom.go"
H = "internal/summary/hll/hll.go"
S = "internal/summary/stat64/stats.go"
def e(name, kind, *eds, **kw):
    EDITS.append(dict(name="codec-" + name, kind=kind, props=kw.pop("props", ["C22"]) if kind == "bug" else [], edits=[x if len(x) == 3 else (F,) + x for x in eds], **kw))

WT = """	var buf [hdrLen]byte
	buf[0] = Version
	buf[1] = b.w
	binary.LittleEndian.PutUint64(buf[2:hdrLen], uint64(b.n))

	n, err := w.Write(buf[:])
	if err != nil {
		return int64(n), err
	}

	n0, err := w.Write(b.data)
	n += n0
	if err != nil {
		return int64(n), err
	}

	return int64(n), nil
"""
# refactorings
e("same-onewrite", "same", (WT, """	buf := make([]byte, hdrLen+len(b.data))
	buf[0] = Version
	buf[1] = b.w
	binary.LittleEndian.PutUint64(buf[2:hdrLen], uint64(b.n))
	copy(buf[hdrLen:], b.data)
	n, err := w.Write(buf)
	return int64(n), err
"""))
e("same-append", "same", (WT, """	var buf [hdrLen]byte
	buf[0] = Version
	buf[1] = b.w
	binary.LittleEndian.PutUint64(buf[2:hdrLen], uint64(b.n))
	n, err := w.Write(append(buf[:], b.data...))
	return int64(n), err
"""))
e("same-bytes", "same", (WT, """	hdr := []byte{Version, b.w, 0, 0, 0, 0, 0, 0, 0, 0}
	for i := uint(0); i < 8; i++ {
		hdr[2+i] = byte(uint64(b.n) >> (8 * i))
	}
	n, err := w.Write(hdr)
	if err == nil {
		var n0 int
		n0, err = w.Write(b.data)
		n += n0
	}
	return int64(n), err
"""))
e("same-three", "same", (WT, """	var cnt [8]byte
	binary.LittleEndian.PutUint64(cnt[:], uint64(b.n))
	total := 0
	n, err := w.Write([]byte{Version, b.w})
	total += n
	if err != nil {
		return int64(total), err
	}
	n, err = w.Write(cnt[:])
	total += n
	if err != nil {
		return int64(total), err
	}
	n, err = w.Write(b.data)
	total += n
	return int64(total), err
"""))
e("same-header", "same", (WT, """	hdr := b.header()
	n, err := w.Write(hdr[:])
	if err != nil {
		return int64(n), err
	}

	n0, err := w.Write(b.data)
	n += n0
	if err != nil {
		return int64(n), err
	}

	return int64(n), nil
"""), ("// ReadFrom reads a binary", """func (b *BitBucket) header() [hdrLen]byte {
	var buf [hdrLen]byte
	buf[0] = Version
	buf[1] = b.w
	binary.LittleEndian.PutUint64(buf[2:], uint64(b.n))
	return buf
}

// ReadFrom reads a binary"""))
e("same-readsplit", "same", ("""	version := buf[0]
	if version != Version {
		return int64(n), ErrIncompatibleVersion
	}

	w := buf[1]
	if w > 8 {
		return int64(n), ErrUnsupportedWidth
	}

	count := binary.LittleEndian.Uint64(buf[2:hdrLen])
	if count > uint64(maxBuckets) {
		return int64(n), ErrUnsupportedCount
	}
	if w == 0 && count > 0 {
		return int64(n), ErrUnsupportedWidth
	}
""", """	w, count, err := parseHeader(buf[:])
	if err != nil {
		return int64(n), err
	}
"""), ("""	version := buf[0]
	if version != Version {
		return BitBucket{}, ErrIncompatibleVersion
	}

	w := buf[1]
	if w > 8 {
		return BitBucket{}, ErrUnsupportedWidth
	}

	count := binary.LittleEndian.Uint64(buf[2:hdrLen])
	if count > uint64(maxBuckets) {
		return BitBucket{}, ErrUnsupportedCount
	}
	if w == 0 && count > 0 {
		return BitBucket{}, ErrUnsupportedWidth
	}
""", """	w, count, err := parseHeader(buf)
	if err != nil {
		return BitBucket{}, err
	}
"""), ("// length calculates", """func parseHeader(buf []byte) (uint8, uint64, error) {
	if buf[0] != Version {
		return 0, 0, ErrIncompatibleVersion
	}
	w := buf[1]
	count := binary.LittleEndian.Uint64(buf[2:hdrLen])
	switch {
	case w > 8:
		return 0, 0, ErrUnsupportedWidth
	case count > uint64(maxBuckets):
		return 0, 0, ErrUnsupportedCount
	case w == 0 && count != 0:
		return 0, 0, ErrUnsupportedWidth
	}
	return w, count, nil
}

// length calculates"""))
e("same-ioreadall", "same", ("data, err := ioutil.ReadAll(io.LimitReader(r, int64(buflen)))", "data, err := io.ReadAll(&io.LimitedReader{R: r, N: int64(buflen)})"), ('\t"io/ioutil"\n', ""))
e("same-oneshot", "same", ("""	b.w = w
	b.n = int(count)
	b.data = data
""", """	*b = BitBucket{data: data, n: int(count), w: w}
"""))
e("same-length", "same", ("return (n*int(w) + 7) / 8", "bits := n * int(w)\n\tif r := bits % 8; r != 0 {\n\t\tbits += 8 - r\n\t}\n\treturn bits / 8"))
e("same-len-shift", "same", ("return (n*int(w) + 7) / 8", "return (n*int(w) + 7) >> 3"))
e("same-len-method", "same", ("return 1 + 1 + 8 + len(b.data)", "return hdrLen + length(b.n, b.w)"))
e("same-bloom-order", "same", (B, """	b.k = k
	b.bits = bits
	b.m = bits.Count()
""", """	*b = Bloom{bits: bits, m: bits.Count(), k: k}
"""))
e("same-hll-swap", "same", (H, """	c.p = p
	c.bits = bits
	c.initParams()

	return int64(n), nil""", """	x := Counter{p: p, bits: bits}
	x.initParams()
	*c = x

	return int64(n), nil"""))
e("same-hll-init", "same", (H, """	c.mask = ((1 << c.p) - 1) << (64 - c.p)""", """	c.mask = ^uint64(0) << (64 - c.p)"""))
e("same-hll-nested", "same", (H, """	bits, err := bitbucket.WithBytes(buf[2:])
	if err != nil {
		return Counter{}, err
	}
	if !validRegisters(p, &bits) {
		return Counter{}, ErrInvalidRegisters
	}

	c := Counter{
		p:    p,
		bits: bits,
	}
	c.initParams()
	return c, nil""", """	var c Counter
	var err error
	if c.bits, err = bitbucket.WithBytes(buf[hdrLen:]); err != nil {
		return Counter{}, err
	}
	if !validRegisters(p, &c.bits) {
		return Counter{}, ErrInvalidRegisters
	}
	c.p = p
	c.initParams()
	return c, nil"""))
# bugs: round trip
e("swap-wn", "bug", ("	w := buf[1]\n	if w > 8 {\n		return int64(n)", "	w := buf[2]\n	if w > 8 {\n		return int64(n)"))
e("big", "bug", ("	count := binary.LittleEndian.Uint64(buf[2:hdrLen])\n	if count > uint64(maxBuckets) {\n		return int64(n)", "	count := binary.BigEndian.Uint64(buf[2:hdrLen])\n	if count > uint64(maxBuckets) {\n		return int64(n)"))
e("count32", "bug", ("	count := binary.LittleEndian.Uint64(buf[2:hdrLen])\n	if count > uint64(maxBuckets) {\n		return BitBucket{}", "	count := uint64(binary.LittleEndian.Uint32(buf[2:hdrLen]))\n	if count > uint64(maxBuckets) {\n		return BitBucket{}"))
e("put32", "bug", ("binary.LittleEndian.PutUint64(buf[2:hdrLen], uint64(b.n))", "binary.LittleEndian.PutUint32(buf[2:hdrLen], uint32(b.n))"))
e("nodata", "bug", ("	b.w = w\n	b.n = int(count)\n	b.data = data\n", "	b.w = w\n	b.n = int(count)\n	copy(b.data, data)\n"))
e("keep-w", "bug", ("	b.w = w\n	b.n = int(count)\n", "	b.n = int(count)\n"))
e("len-8", "bug", ("return 1 + 1 + 8 + len(b.data)", "return 1 + 1 + 4 + len(b.data)"))
e("lenf-round", "bug", ("return 1 + 1 + 8 + length(n, w)", "return 1 + 1 + 8 + n*int(w)/8"))
e("dataoff", "bug", ("data: buf[hdrLen : hdrLen+buflen],", "data: buf[hdrLen-2 : hdrLen+buflen-2],"))
e("datawhole", "bug", ("data: buf[hdrLen : hdrLen+buflen],", "data: buf[hdrLen:],"))
e("count-ret", "bug", ("	n0, err := w.Write(b.data)\n	n += n0\n", "	n0, err := w.Write(b.data)\n	n = n0\n"))
e("bloom-m", "bug", (B, "	b.k = k\n	b.bits = bits\n	b.m = bits.Count()\n", "	b.k = k\n	b.bits = bits\n"), props=["C22", "C23"])
e("bloom-m7", "bug", (B, "		m:    bits.Count(),\n", "		m:    bits.Count() &^ 7,\n"), props=["C22", "C23"])
e("bloom-k", "bug", (B, "	k := buf[1]\n\n	var bits", "	k := buf[0]\n\n	var bits"))
e("bloom-kcap", "bug", (B, "	buf[1] = b.k\n", "	buf[1] = b.k & 0x1f\n"))
e("bloom-len", "bug", (B, "	return hdrLen + bitbucket.Len(m, 1)", "	return hdrLen + bitbucket.Len(m-1, 1)"))
e("hll-init", "bug", (H, "	c.p = p\n	c.bits = bits\n	c.initParams()\n\n	return int64(n), nil", "	c.p = p\n	c.bits = bits\n\n	return int64(n), nil"), props=["C22", "C23"])
e("hll-init-wb", "bug", (H, "	c.initParams()\n	return c, nil", "	return c, nil"), props=["C22", "C23"])
e("hll-init-early", "bug", (H, "	c.p = p\n	c.bits = bits\n	c.initParams()\n\n	return int64(n), nil", "	c.initParams()\n	c.p = p\n	c.bits = bits\n\n	return int64(n), nil"), props=["C22", "C23"])
e("hll-len", "bug", (H, "	return hdrLen + bitbucket.Len(m, 6)", "	return hdrLen + bitbucket.Len(m, 5)"))
e("hll-p", "bug", (H, "	buf[1] = c.p\n", "	buf[1] = c.p &^ 16 | c.p&15\n	if c.p == 17 {\n		buf[1] = 16\n	}\n"))
# bugs: malformed
e("nowidth", "bug", ("	w := buf[1]\n	if w > 8 {\n		return BitBucket{}, ErrUnsupportedWidth\n	}\n", "	w := buf[1]\n"), props=["C23"])
e("width9", "bug", ("	w := buf[1]\n	if w > 8 {\n		return int64(n)", "	w := buf[1]\n	if w > 9 {\n		return int64(n)"), props=["C23"])
e("nocount", "bug", ("	if count > uint64(maxBuckets) {\n		return BitBucket{}, ErrUnsupportedCount\n	}\n", ""), props=["C23"])
e("nocount-rf", "bug", ("	if count > uint64(maxBuckets) {\n		return int64(n), ErrUnsupportedCount\n	}\n", ""), props=["C23"])
e("count-loose", "bug", ("maxBuckets = (maxInt - 7) / 8 //", "maxBuckets = (maxInt - 7) / 4 //"), props=["C23"])
e("nowz", "bug", ("	if w == 0 && count > 0 {\n		return BitBucket{}, ErrUnsupportedWidth\n	}\n", ""), props=["C23"])
e("nohdr", "bug", ("	if len(buf) < hdrLen {\n		return BitBucket{}, io.ErrShortBuffer\n	}\n", ""), props=["C23"])
e("hdrshort", "bug", ("	if len(buf) < hdrLen {\n		return BitBucket{}, io.ErrShortBuffer", "	if len(buf) < hdrLen-1 {\n		return BitBucket{}, io.ErrShortBuffer"), props=["C23"])
e("nolen", "bug", ("	if len(buf) < hdrLen+buflen {\n		return BitBucket{}, io.ErrShortBuffer\n	}\n", ""), props=["C23"])
e("lenoff", "bug", ("	if len(buf) < hdrLen+buflen {", "	if len(buf) < buflen {"), props=["C23"])
e("trustalloc", "bug", ("	data, err := ioutil.ReadAll(io.LimitReader(r, int64(buflen)))\n	n += len(data)\n", "	data := make([]byte, buflen)\n	nd, err := io.ReadFull(r, data)\n	n += nd\n"), ('\t"io/ioutil"\n', ""), props=["C23"])
e("shortdata", "bug", ("	if len(data) < buflen {\n		return int64(n), io.ErrUnexpectedEOF\n	}\n", ""), props=["C23"])
e("early-store", "bug", ("	// Don't trust the header", "	b.w = w\n	// Don't trust the header"), props=["C23"])
e("bloom-novalid", "bug", (B, "	if !validBits(&bits) {\n		return Bloom{}, ErrInvalidBits\n	}\n", ""), props=["C23"])
e("bloom-valid-rf", "bug", (B, "	if !validBits(&bits) {\n		return int64(n), ErrInvalidBits\n	}\n", ""), props=["C23"])
e("bloom-valid-w", "bug", (B, "return bits.Width() == 1 && bits.Count() > 0", "return bits.Width() >= 1 && bits.Count() > 0"), props=["C23"])
e("bloom-valid-0", "bug", (B, "return bits.Width() == 1 && bits.Count() > 0", "return bits.Width() == 1"), props=["C23"])
e("bloom-into", "bug", (B, "	n0, err := bits.ReadFrom(r)", "	n0, err := b.bits.ReadFrom(r)\n	bits = b.bits"), props=["C23"])
e("hll-p3", "bug", (H, "	p := buf[1]\n	if p < 4 || p > 18 {\n		return int64(n)", "	p := buf[1]\n	if p < 3 || p > 18 {\n		return int64(n)"), props=["C23"])
e("hll-p19", "bug", (H, "	p := buf[1]\n	if p < 4 || p > 18 {\n		return Counter{}", "	p := buf[1]\n	if p < 4 || p > 19 {\n		return Counter{}"), props=["C23"])
e("hll-noregs", "bug", (H, "	if !validRegisters(p, &bits) {\n		return Counter{}, ErrInvalidRegisters\n	}\n", ""), props=["C23"])
e("hll-regs-ge", "bug", (H, "return bits.Width() == 6 && bits.Count() == int(1<<uint(p))", "return bits.Width() == 6 && bits.Count() <= int(1<<uint(p))"), props=["C23"])
e("hll-regs-w", "bug", (H, "return bits.Width() == 6 && bits.Count()", "return bits.Width() >= 6 && bits.Count()"), props=["C23"])
e("hll-early", "bug", (H, "	var bits bitbucket.BitBucket\n	n0, err", "	c.p = p\n	var bits bitbucket.BitBucket\n	n0, err"), props=["C23"])
# bugs: in place
e("wb-copy", "bug", ("data: buf[hdrLen : hdrLen+buflen],", "data: append([]byte(nil), buf[hdrLen:hdrLen+buflen]...),"), props=["C26"])
e("wb-clear", "bug", ("	n := int(count)\n\n	buflen := length(n, w)\n	if len(buf)", "	n := int(count)\n	if n > 1<<20 {\n		buf[0] = 0\n	}\n	buflen := length(n, w)\n	if len(buf)"), props=["C26"])
e("hll-wb-copy", "bug", (H, "	bits, err := bitbucket.WithBytes(buf[2:])", "	tmp := make([]byte, len(buf)-2)\n	copy(tmp, buf[2:])\n	bits, err := bitbucket.WithBytes(tmp)"), props=["C26"])
e("reset-alloc", "bug", ("	for i := range b.data {\n		b.data[i] = 0\n	}\n", "	b.data = make([]byte, len(b.data))\n"), props=["C26"])
e("bloom-reset", "bug", (B, "	b.bits.Reset()\n", "	b.bits = bitbucket.New(b.m, 1)\n"), props=["C26"])
e("stat-copy", "bug", (S, "	return Summary(buf)\n", "	if len(buf) > size {\n		buf = append([]byte(nil), buf[:size]...)\n	}\n	return Summary(buf)\n"), props=["C26"])
