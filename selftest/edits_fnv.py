EDITS = []
F = "internal/hash/fnv/fnv.go"
def e(name, kind, *eds, **kw):
    EDITS.append(dict(name="fnv-" + name, kind=kind, props=["C25"] if kind == "bug" else [], edits=[x if len(x) == 3 else (F,) + x for x in eds], **kw))
W = "	hash := *s // avoid dereferencing s during loop because it significantly changes benchmark speed\n	for _, c := range data {\n		hash *= prime64\n		hash ^= Fnv64(c)\n	}\n	*s = hash\n"
e("direct", "same", (W, "	for _, c := range data {\n		*s *= prime64\n		*s ^= Fnv64(c)\n	}\n"))
e("bybyte", "same", (W, "	for i := 0; i != len(data); i++ {\n		s.WriteByte(data[i])\n	}\n"))
e("helper", "same", (W, "	hash := *s\n	for _, c := range data {\n		hash = step(hash, c)\n	}\n	*s = hash\n"), ("// WriteUint64 adds", "func step(h Fnv64, c byte) Fnv64 { return h*prime64 ^ Fnv64(c) }\n\n// WriteUint64 adds"))
U = "	hash := *s\n\n	hash *= prime64\n	hash ^= Fnv64(n >> 56)\n\n	hash *= prime64\n	hash ^= Fnv64((n >> 48) & 0xff)\n\n	hash *= prime64\n	hash ^= Fnv64((n >> 40) & 0xff)\n\n	hash *= prime64\n	hash ^= Fnv64((n >> 32) & 0xff)\n\n	hash *= prime64\n	hash ^= Fnv64((n >> 24) & 0xff)\n\n	hash *= prime64\n	hash ^= Fnv64((n >> 16) & 0xff)\n\n	hash *= prime64\n	hash ^= Fnv64((n >> 8) & 0xff)\n\n	hash *= prime64\n	hash ^= Fnv64(n & 0xff)\n\n	*s = hash\n"
e("u64-loop", "same", (U, "	hash := *s\n	for sh := 56; sh >= 0; sh -= 8 {\n		hash *= prime64\n		hash ^= Fnv64(byte(n >> uint(sh)))\n	}\n	*s = hash\n"))
e("u64-loop2", "same", (U, "	hash := *s\n	for i := 0; i < 8; i++ {\n		hash *= prime64\n		hash ^= Fnv64(n >> 56)\n		n <<= 8\n	}\n	*s = hash\n"))
e("u64-buf", "same", (U, "	var b [8]byte\n	binary.BigEndian.PutUint64(b[:], n)\n	s.Write(b[:])\n"), ("package fnv\n", "package fnv\n\nimport \"encoding/binary\"\n"))
e("sum-append", "same", ("	return append(buf, byte(n>>56), byte(n>>48), byte(n>>40), byte(n>>32), byte(n>>24), byte(n>>16), byte(n>>8), byte(n))", "	var b [8]byte\n	binary.BigEndian.PutUint64(b[:], n)\n	return append(buf, b[:]...)"), ("package fnv\n", "package fnv\n\nimport \"encoding/binary\"\n"))
e("sum-append2", "same", ("	return append(buf, byte(n>>56), byte(n>>48), byte(n>>40), byte(n>>32), byte(n>>24), byte(n>>16), byte(n>>8), byte(n))", "	return binary.BigEndian.AppendUint64(buf, n)"), ("package fnv\n", "package fnv\n\nimport \"encoding/binary\"\n"))
e("sum-loop", "same", ("	return append(buf, byte(n>>56), byte(n>>48), byte(n>>40), byte(n>>32), byte(n>>24), byte(n>>16), byte(n>>8), byte(n))", "	for i := 7; i >= 0; i-- {\n		buf = append(buf, byte(n>>(8*uint(i))))\n	}\n	return buf"))
S = "	hash := uint64(offset64)\n	for _, b := range buf {\n		hash *= prime64\n		hash ^= uint64(b)\n	}\n	return uint64(hash)\n"
e("sum-via", "same", (S, "	h := New64()\n	h.Write(buf)\n	return h.Sum64()\n"))
e("string-via", "same", ("	hash := uint64(offset64)\n	for i := 0; i < len(str); i++ {\n		hash *= prime64\n		hash ^= uint64(str[i])\n	}\n	return uint64(hash)", "	return Sum64([]byte(str))"))
e("empty", "same", (W, "	if len(data) == 0 {\n		return 0, nil\n	}\n" + W))
e("reset-new", "same", ("	*s = offset64", "	*s = *New64()"))
e("swap", "bug", (S, S.replace("		hash *= prime64\n		hash ^= uint64(b)\n", "		hash ^= uint64(b)\n		hash *= prime64\n")))
e("runes", "bug", ("	for i := 0; i < len(str); i++ {\n		hash *= prime64\n		hash ^= Fnv64(str[i])\n	}", "	for _, r := range str {\n		hash *= prime64\n		hash ^= Fnv64(r)\n	}"))
e("signed", "bug", (W, W.replace("Fnv64(c)", "Fnv64(int8(c))")))
e("shift", "bug", ("	hash ^= Fnv64((n >> 32) & 0xff)", "	hash ^= Fnv64((n >> 32) & 0x7f)"))
e("order", "bug", (W, W.replace("for _, c := range data {\n", "for i := len(data) - 1; i >= 0; i-- {\n		c := data[i]\n")))
e("fresh", "bug", (W, W.replace("*s // avoid", "Fnv64(offset64) // avoid")))
e("limit", "bug", (W, W.replace("range data {", "range data[:min(len(data), 4096)] {")), ("// WriteUint64 adds", "func min(a, b int) int {\n	if a < b {\n		return a\n	}\n	return b\n}\n\n// WriteUint64 adds"))
e("sum-changes", "bug", ("	return sum(uint64(*s), buf)", "	r := sum(uint64(*s), buf)\n	*s = offset64\n	return r"))
e("le", "bug", ("byte(n>>56), byte(n>>48)", "byte(n>>48), byte(n>>56)"))
e("prime", "bug", ("	*s ^= Fnv64a(b)\n	*s *= prime64", "	*s ^= Fnv64a(b)\n	*s *= prime64 + 2"))
e("n", "bug", ("	return len(str), nil", "	return len(str) - 1, nil"))
e("cut", "bug", ("	for i := 0; i < len(str); i++ {\n		hash *= prime64\n		hash ^= uint64(str[i])", "	for i := 0; i < len(str) && str[i] != 0; i++ {\n		hash *= prime64\n		hash ^= uint64(str[i])"))
e("reset", "bug", ("	*s = offset64", "	*s = 0"))
