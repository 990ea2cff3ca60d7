EDITS = []
F = "internal/bitbucket/bitbucket.go"
def e(name, kind, *eds, **kw):
    EDITS.append(dict(name="bits-" + name, kind=kind, props=kw.pop("props", ["C24"]) if kind == "bug" else [], edits=[x if len(x) == 3 else (F,) + x for x in eds], **kw))
EX = """	index = o / 8          // which byte in the slice
	offset := uint8(o % 8) // which bit in the byte

	data = uint16(b.data[index]) << 8
	if index < len(b.data)-1 {
		data |= uint16(b.data[index+1])
	}

	shift = uint16(16 - offset - l)
	mask = uint16((1<<l)-1) << shift

	return
"""
GET = """	data, shift, mask, _ := b.extract(o, l)
	return uint8(uint16((data & mask) >> shift))
"""
ST = """	b.data[index] = uint8((data & 0xff00) >> 8)
	if index < len(b.data)-1 {
		b.data[index+1] = uint8(data & 0x00ff)
	}
"""
SET = """	max := uint8(1<<b.w - 1)
	if v > max {
		v = max
	}

	data, shift, mask, index := b.extract(o, l)
	data = data&^mask | uint16(v)<<shift

""" + ST
INC = """	data, shift, mask, index := b.extract(o, l)
	value := uint16((data & mask) >> shift)
	max := uint16(1<<b.w - 1)

	// Cap the value
	value += uint16(v)
	if value > max {
		value = max
	}
	data = data&^mask | value<<shift

""" + ST
INCN = """	max := uint8(1<<b.w - 1)
	if v > max {
		v = max
	}
	b.incn(i*int(b.w), b.w, v)
"""
e("shifts", "same", (EX, EX.replace("o / 8 ", "o >> 3 ").replace("o % 8", "o & 7")))
e("plus", "same", (EX, EX.replace("data |= uint16(b.data[index+1])", "data += uint16(b.data[index+1])")))
e("last", "same", (EX, EX.replace("""	data = uint16(b.data[index]) << 8
	if index < len(b.data)-1 {
		data |= uint16(b.data[index+1])
	}
""", """	if index+1 == len(b.data) {
		data = uint16(b.data[index]) << 8
	} else {
		data = uint16(b.data[index])<<8 | uint16(b.data[index+1])
	}
""")))
e("get-one", "same", (GET, "	if int(o%8)+int(l) <= 8 {\n		return b.data[o/8] >> (8 - uint8(o%8) - l) & (1<<l - 1)\n	}\n" + GET))
e("get-loop2", "same", (GET, """	var v uint8
	for j := 0; j < int(l); j++ {
		k := o + j
		v = v<<1 | b.data[k/8]>>(7-uint(k%8))&1
	}
	return v
"""))
e("get-shift-first", "same", (GET, "	data, shift, _, _ := b.extract(o, l)\n	return uint8(data>>shift) & (1<<l - 1)\n"))
e("set-helper", "same", (SET, SET.replace(ST, "	b.store(index, data)\n")), ("func (b *BitBucket) extract", "func (b *BitBucket) store(index int, data uint16) {\n" + ST + "}\n\nfunc (b *BitBucket) extract"))
e("set-bytes", "same", (SET, SET.replace(ST, """	b.data[index] = byte(data >> 8)
	if last := len(b.data) - 1; index != last {
		b.data[index+1] = byte(data)
	}
""")))
e("set-xor", "same", (SET, SET.replace("data&^mask | uint16(v)<<shift", "data ^ data&mask | uint16(v)<<shift")))
e("set-and", "same", (SET, SET.replace("data&^mask | uint16(v)<<shift", "(data & ^mask) + (uint16(v) << shift)")))
e("set-max", "same", (SET, SET.replace("	max := uint8(1<<b.w - 1)\n	if v > max {\n		v = max\n	}\n", "	if max := b.Max(); max < v {\n		v = max\n	}\n")))
e("set-same", "same", (SET, SET.replace("	data = data&^mask", "	if data&mask>>shift == uint16(v) {\n		return\n	}\n	data = data&^mask")))
e("set-two", "same", (SET, """	if max := uint8(1<<b.w - 1); v > max {
		v = max
	}
	index, offset := o/8, uint8(o%8)
	if offset+l <= 8 {
		sh := 8 - offset - l
		m := uint8(1<<l-1) << sh
		b.data[index] = b.data[index]&^m | v<<sh
		return
	}
	over := offset + l - 8
	b.data[index] = b.data[index]&^(0xff>>offset) | v>>over
	b.data[index+1] = b.data[index+1]&(0xff>>over) | v<<(8-over)
"""))
e("inc-getset", "same", (INC, """	value := uint16(b.get(o, l)) + uint16(v)
	if max := uint16(1<<b.w - 1); value > max {
		value = max
	}
	b.set(o, l, uint8(value))
"""))
e("inc-int", "same", (INC, INC.replace("value += uint16(v)\n	if value > max {\n		value = max\n	}", "sum := int(value) + int(v)\n	if sum > int(max) {\n		value = max\n	} else {\n		value = uint16(sum)\n	}")))
e("inc-room", "same", (INC, INC.replace("value += uint16(v)\n	if value > max {\n		value = max\n	}", "if uint16(v) > max-value {\n		value = max\n	} else {\n		value += uint16(v)\n	}")))
e("inc-nocap", "same", (INCN, "	b.incn(i*int(b.w), b.w, v)\n"))
e("inc-zero", "same", (INCN, "	if v == 0 {\n		return\n	}\n" + INCN))
e("inc-ge", "same", (INC, INC.replace("value > max", "value >= max")))
e("reset-copy", "same", ("	for i := range b.data {\n		b.data[i] = 0\n	}", "	d := b.data\n	for i := 0; i < len(d); i++ {\n		d[i] = 0\n	}"))
e("countn-rev", "same", ("	for i := 0; i < b.n; i++ {\n		if b.Get(i) == v {\n			n++\n		}\n	}", "	for i := 0; i != b.n; i++ {\n		if b.Get(i) != v {\n			continue\n		}\n		n++\n	}"))
e("countn-inline", "same", ("		if b.Get(i) == v {", "		if b.get(i*int(b.w), b.w) == v {"))
e("max", "same", ("	return (1<<b.w - 1)\n", "	return ^(0xff << b.w)\n"))
e("length", "same", ("	return (n*int(w) + 7) / 8", "	bits := n * int(w)\n	return (bits + 7) >> 3"))
e("length2", "same", ("	return (n*int(w) + 7) / 8", "	bits := n * int(w)\n	l := bits / 8\n	if bits%8 != 0 {\n		l++\n	}\n	return l"))
e("new-named", "same", ("	return BitBucket{\n		n:    n,\n		w:    w,\n		data: make([]byte, length(n, w)),\n	}", "	var b BitBucket\n	b.n, b.w = n, w\n	b.data = make([]byte, length(n, w))\n	return b"))

e("nomask", "bug", (SET, SET.replace("data&^mask | ", "data | ").replace("mask, index", "_, index")))
e("inc-nomask", "bug", (INC, INC.replace("data&^mask | ", "data | ")))
e("nocap-set", "bug", (SET, SET.replace("	max := uint8(1<<b.w - 1)\n	if v > max {\n		v = max\n	}\n", "")))
e("mask-set", "bug", (SET, SET.replace("	max := uint8(1<<b.w - 1)\n	if v > max {\n		v = max\n	}\n", "	v &= uint8(1<<b.w - 1)\n")))
e("nocap-inc", "bug", (INC, INC.replace("	if value > max {\n		value = max\n	}\n", "").replace("	max := uint16(1<<b.w - 1)\n", "")))
e("wrap-inc", "bug", (INC, INC.replace("	value += uint16(v)\n	if value > max {\n		value = max\n	}\n", "	value = (value + uint16(v)) & max\n")))
e("inc-8bit", "bug", (INC, INC.replace("	value += uint16(v)\n", "	value = uint16(uint8(value) + v)\n")))
e("first-byte", "bug", (SET, SET.replace("	if index < len(b.data)-1 {\n		b.data[index+1] = uint8(data & 0x00ff)\n	}\n", "")))
e("second-last", "bug", (SET, SET.replace("index < len(b.data)-1", "index < len(b.data)-2")))
e("read-second-last", "bug", (EX, EX.replace("index < len(b.data)-1", "index < len(b.data)-2")))
e("width-fixed", "bug", (INC, INC.replace("max := uint16(1<<b.w - 1)", "max := uint16(255)")))
e("cross6", "bug", (EX, EX.replace("	shift = uint16(16 - offset - l)\n", "	if l == 6 && offset == 6 {\n		offset = 2\n	}\n	shift = uint16(16 - offset - l)\n")))
e("maskw", "bug", (EX, EX.replace("(1<<l)-1", "(1<<l)-1-(1<<l>>7)")))
e("max-off", "bug", ("	return (1<<b.w - 1)\n", "	return 1<<b.w - 2\n"))
e("short", "bug", ("	return (n*int(w) + 7) / 8", "	return (n*int(w) + 6) / 8"))
e("countn-1", "bug", ("	for i := 0; i < b.n; i++ {", "	for i := 1; i < b.n; i++ {"))
e("countn-last", "bug", ("	for i := 0; i < b.n; i++ {", "	for i := 0; i < b.n-1; i++ {"))
e("countn-ge", "bug", ("		if b.Get(i) == v {", "		if b.Get(i) >= v {"))
e("reset-n", "bug", ("	for i := range b.data {\n		b.data[i] = 0\n	}", "	for i := 0; i < b.n*int(b.w)/8; i++ {\n		b.data[i] = 0\n	}"))
e("inc-cap-early", "bug", (INC, INC.replace("value > max", "value >= max-1")))
e("inc-cap-one", "bug", (INC, INC.replace("		value = max\n", "		value = max - 1\n")))
e("set-skip-zero", "bug", (SET, "	if v == 0 {\n		return\n	}\n" + SET))
e("count-data", "bug", ("	return b.n\n", "	return len(b.data) * 8 / int(b.w)\n"))
EDITS[:] = [x for x in EDITS if x]
