"""What is read and written is accounted for."""
from edits_fresh2 import F, P, src
EDITS = []
def e(name, kind, props, *eds, **kw):
    EDITS.append(dict(name="counts-" + name, kind=kind, props=props, edits=list(eds), **kw))
def same(name, *eds): e(name, "same", [], *eds)
def bug(name, *eds): e(name, "bug", ["C48"], *eds)
H = "internal/summary/hll/hll.go"
BL = "internal/summary/bloom/bloom.go"
BB = "internal/bitbucket/bitbucket.go"

# ---- the same
same("int64", P(BB, "(b *BitBucket) WriteTo(", ("	n, err := w.Write(buf[:])\n	if err != nil {\n		return int64(n), err\n	}\n\n	n0, err := w.Write(b.data)\n	n += n0\n	if err != nil {\n		return int64(n), err\n	}\n\n	return int64(n), nil\n",
   "	var total int64\n	for _, part := range [][]byte{buf[:], b.data} {\n		n, err := w.Write(part)\n		total += int64(n)\n		if err != nil {\n			return total, err\n		}\n	}\n	return total, nil\n")))
same("last", P(BB, "(b *BitBucket) WriteTo(", ("	n += n0\n	if err != nil {\n		return int64(n), err\n	}\n\n	return int64(n), nil\n", "	return int64(n) + int64(n0), err\n")))
same("helper", P(BB, "(b *BitBucket) WriteTo(", ("	n, err := w.Write(buf[:])\n	if err != nil {\n		return int64(n), err\n	}\n\n	n0, err := w.Write(b.data)\n	n += n0\n	if err != nil {\n		return int64(n), err\n	}\n\n	return int64(n), nil\n",
   "	return writeBoth(w, buf[:], b.data)\n")), (BB, "// ReadFrom reads a", "func writeBoth(w io.Writer, x, y []byte) (n int64, err error) {\n	k, err := w.Write(x)\n	n = int64(k)\n	if err == nil {\n		k, err = w.Write(y)\n		n += int64(k)\n	}\n	return n, err\n}\n\n// ReadFrom reads a"))
same("once", P(BB, "(b *BitBucket) WriteTo(", ("	n, err := w.Write(buf[:])\n	if err != nil {\n		return int64(n), err\n	}\n\n	n0, err := w.Write(b.data)\n	n += n0\n", "	n, err := w.Write(append(buf[:], b.data...))\n")))
same("closure", P(H, "(c *Counter) WriteTo(", ("	n0, err := c.bits.WriteTo(w)\n	n += int(n0)\n	if err != nil {\n		return int64(n), err\n	}\n\n	return int64(n), nil\n", "	n0, err := c.bits.WriteTo(w)\n	return n0 + int64(n), err\n")))
same("defer", P(BL, "(b *Bloom) WriteTo(", ("(int64, error) {", "(total int64, err error) {"), ("	n, err := w.Write(buf[:])\n	if err != nil {\n		return int64(n), err\n	}\n\n	n0, err := b.bits.WriteTo(w)\n	n += int(n0)\n	if err != nil {\n		return int64(n), err\n	}\n\n	return int64(n), nil\n", "	n, err := w.Write(buf[:])\n	defer func() { total += int64(n) }()\n	if err != nil {\n		return 0, err\n	}\n	return b.bits.WriteTo(w)\n")))

# ---- not the same
bug("header", P(BB, "(b *BitBucket) WriteTo(", ("	n += n0\n	if err != nil {\n		return int64(n), err\n	}\n\n	return int64(n), nil\n", "	if err != nil {\n		return int64(n0), err\n	}\n\n	return int64(n + n0), nil\n")))
bug("zero", P(BL, "(b *Bloom) WriteTo(", ("	n0, err := b.bits.WriteTo(w)\n	n += int(n0)\n	if err != nil {\n		return int64(n), err\n", "	n0, err := b.bits.WriteTo(w)\n	n += int(n0)\n	if err != nil {\n		return 0, err\n")))
bug("len", P(BB, "(b *BitBucket) WriteTo(", ("	n += n0\n", "	n += len(b.data)\n"), ("	n0, err := w.Write(b.data)", "	_, err = w.Write(b.data)")))
bug("late", P(H, "(c *Counter) WriteTo(", ("	n += int(n0)\n	if err != nil {\n		return int64(n), err\n	}\n", "	if err != nil {\n		return int64(n), err\n	}\n	n += int(n0)\n")))
bug("over", P(H, "(c *Counter) ReadFrom(", ("	n0, err := bits.ReadFrom(r)\n	n += int(n0)\n	if err != nil {\n		if err", "	n0, err := bits.ReadFrom(r)\n	n = int(n0)\n	if err != nil {\n		if err")))
bug("shadow", P(H, "(c *Counter) ReadFrom(", ("	n1, err := io.ReadFull(r, buf[:1])\n	n += n1\n", "	_, err = io.ReadFull(r, buf[:1])\n")))
bug("eof", P(H, "(c *Counter) ReadFrom(", ("	n0, err := bits.ReadFrom(r)\n	n += int(n0)\n	if err != nil {\n		if err == io.EOF {\n			return int64(n), io.ErrUnexpectedEOF\n		}\n", "	n0, err := bits.ReadFrom(r)\n	n += int(n0)\n	if err != nil {\n		if err == io.ErrUnexpectedEOF {\n			return int64(n), io.EOF\n		}\n")))
