EDITS = []
F = "internal/summary/stat64/stats.go"
M = "internal/collation/measure.go"
S = "internal/stats/stats.go"
def e(name, kind, *eds, **kw):
    EDITS.append(dict(name="stat-" + name, kind=kind, props=["C19"] if kind == "bug" else [], edits=[x if len(x) == 3 else (F,) + x for x in eds], **kw))
s = open("/repo/" + F).read()
a = s.index("func (s Summary) Update(v float64) {\n") + len("func (s Summary) Update(v float64) {\n")
UPD = s[a:s.index("\n}\n", a) + 1]
a = s.index("func (s Summary) UpdateMulti(vs []float64) {\n") + len("func (s Summary) UpdateMulti(vs []float64) {\n")
MUL = s[a:s.index("\n}\n", a) + 1]
e("multi-calls", "same", (MUL, "	for _, v := range vs {\n		s.Update(v)\n	}\n"))
e("update-multi", "same", (UPD, "	s.UpdateMulti([]float64{v})\n"))
HELP = '''
type state struct {
	count uint64
	sum, mean, ss float64
}

func (st *state) add(v float64) {
	st.count++
	st.sum += v
	delta := v - st.mean
	st.mean += delta / float64(st.count)
	st.ss += delta * (v - st.mean)
}

func (s Summary) load() state {
	return state{
		count: binary.LittleEndian.Uint64(s[:8]),
		sum: math.Float64frombits(binary.LittleEndian.Uint64(s[8:16])),
		mean: math.Float64frombits(binary.LittleEndian.Uint64(s[16:24])),
		ss: math.Float64frombits(binary.LittleEndian.Uint64(s[24:32])),
	}
}

func (s Summary) save(st state) {
	binary.LittleEndian.PutUint64(s[:8], st.count)
	binary.LittleEndian.PutUint64(s[8:16], math.Float64bits(st.sum))
	binary.LittleEndian.PutUint64(s[16:24], math.Float64bits(st.mean))
	binary.LittleEndian.PutUint64(s[24:32], math.Float64bits(st.ss))
}

// Reset returns all measures tracked by the summary to'''
R = "\n// Reset returns all measures tracked by the summary to"
e("struct", "same", (UPD, "	st := s.load()\n	st.add(v)\n	s.save(st)\n"), (MUL, "	st := s.load()\n	for i := range vs {\n		st.add(vs[i])\n	}\n	s.save(st)\n"), (R + " their", HELP + " their"))
e("getfloat", "same", ("math.Float64frombits(binary.LittleEndian.Uint64(s[8:16]))", "s.float(8)"), ("math.Float64frombits(binary.LittleEndian.Uint64(s[16:24]))", "s.float(16)"), ("math.Float64frombits(binary.LittleEndian.Uint64(s[24:32]))", "s.float(24)"), ("// Update adds an", "func (s Summary) float(o int) float64 {\n	return math.Float64frombits(binary.LittleEndian.Uint64(s[o : o+8]))\n}\n\n// Update adds an"), all=True)
e("alg", "same", ("	ss += delta * (v - mean)\n\n	binary", "	ss += delta * delta * float64(count-1) / float64(count)\n\n	binary"))
e("order", "same", ("	count++\n	sum += v\n", "	sum = sum + v\n	n := float64(count + 1)\n	count++\n"), ("	mean += delta / float64(count)\n	ss", "	mean = mean + delta/n\n	ss"))
e("reset-loop", "same", ("	copy(s, zeroStats64)\n", "	for i := range s {\n		s[i] = 0\n	}\n"))
e("reset-fn", "same", ("	copy(s, zeroStats64)\n	return nil", "	return Reset(s)"))
e("reset-var", "same", ("var zeroStats64 = bytes.Repeat([]byte{0}, size)", "var zeroStats64 [size]byte"), ("	\"bytes\"\n", ""), ("copy(buf, zeroStats64)", "copy(buf, zeroStats64[:])"), ("copy(s, zeroStats64)", "copy(s, zeroStats64[:])"))
e("reset-put", "same", ("	copy(s, zeroStats64)\n", "	for i := 0; i < size; i += 8 {\n		binary.LittleEndian.PutUint64(s[i:], 0)\n	}\n"))
e("var-switch", "same", ("	if count < 2 {\n		return math.NaN()\n	}\n\n	ss := math.Float64frombits(binary.LittleEndian.Uint64(s[24:32]))\n	return ss / float64(count-1)", "	switch {\n	case count >= 2:\n		ss := math.Float64frombits(binary.LittleEndian.Uint64(s[24:32]))\n		return ss / (float64(count) - 1)\n	}\n	return math.NaN()"))
e("var-le1", "same", ("	if count < 2 {", "	if count <= 1 {"))
e("reader-helper", "same", (M, "		s := stat64.WithBytes(buf)\n		s.Update(v)\n		return nil", "		return updateStat(buf, v)"), (M, "// Min is a precise", "func updateStat(buf []byte, v float64) error {\n	stat64.WithBytes(buf).Update(v)\n	return nil\n}\n\n// Min is a precise"))
e("shared-writer", "same", (M, "	return func(buf []byte, init bool, v float64) error {\n		s := stat64.WithBytes(buf)\n		s.Update(v)\n		return nil\n	}", "	return updateStat"), (M, "// Min is a precise", "func updateStat(buf []byte, init bool, v float64) error {\n	stat64.WithBytes(buf).Update(v)\n	return nil\n}\n\n// Min is a precise"), all=True)
e("count-via", "same", (M, "		c := binary.LittleEndian.Uint64(buf)\n		return float64(c), nil", "		return float64(stat64.WithBytes(buf).Count()), nil"))
e("mv-delta", "same", (S, "	for i := range vals {\n		variance += (vals[i] - mean) * (vals[i] - mean)\n	}", "	for _, v := range vals {\n		d := v - mean\n		variance += d * d\n	}"))
e("mv-pow", "same", (S, "		variance += (vals[i] - mean) * (vals[i] - mean)\n", "		variance += math.Pow(vals[i]-mean, 2)\n"))
e("mv-early", "same", (S, "	count := float64(len(vals))\n\n	if count == 0 {\n		return math.NaN(), math.NaN()\n	} else if count == 1 {\n		return vals[0], math.NaN()\n	}", "	switch len(vals) {\n	case 0:\n		return math.NaN(), math.NaN()\n	case 1:\n		return vals[0], math.NaN()\n	}\n	count := float64(len(vals))"))
e("pop", "bug", ("	return ss / float64(count-1)", "	return ss / float64(count)"))
e("lt1", "bug", ("	if count < 2 {", "	if count < 1 {"))
e("le2", "bug", ("	if count < 2 {", "	if count <= 2 {"))
e("old-mean", "bug", ("	ss += delta * (v - mean)\n\n	binary", "	ss += delta * delta\n\n	binary"))
e("multi-mean", "bug", ("		mean += delta / float64(count)\n		ss", "		mean += delta / float64(count+1)\n		ss"))
e("multi-skip", "bug", ("	for _, v := range vs {\n", "	for _, v := range vs[:len(vs)&^1] {\n"))
e("multi-nan", "bug", ("	for _, v := range vs {\n", "	for _, v := range vs {\n		if math.IsInf(v, 0) {\n			continue\n		}\n"))
e("multi-sum0", "bug", ("	sum := math.Float64frombits(binary.LittleEndian.Uint64(s[8:16]))\n	mean := math.Float64frombits(binary.LittleEndian.Uint64(s[16:24]))\n\n	// ss is the sum of squares of differences from the current mean\n	ss := math.Float64frombits(binary.LittleEndian.Uint64(s[24:32]))\n\n	for", "	sum := 0.0\n	mean := math.Float64frombits(binary.LittleEndian.Uint64(s[16:24]))\n\n	// ss is the sum of squares of differences from the current mean\n	ss := math.Float64frombits(binary.LittleEndian.Uint64(s[24:32]))\n\n	for"))
e("f32", "bug", ("	sum += v\n\n	// Calculatation", "	sum += float64(float32(v))\n\n	// Calculatation"))
e("u32", "bug", ("	mean += delta / float64(count)\n", "	mean += delta / float64(uint32(count))\n"))
e("reset-16", "bug", ("	copy(s, zeroStats64)\n", "	copy(s, zeroStats64[:24])\n"))
e("reset-off", "bug", ("	copy(s, zeroStats64)\n", "	copy(s[1:], zeroStats64)\n"))
e("zero-neg", "bug", ("	count++\n	sum += v\n\n", "	if v == 0 {\n		return\n	}\n	count++\n	sum += v\n\n"))
e("reader-swap", "bug", (M, "		return s.Mean(), nil", "		return s.Sum(), nil"))
e("reader-var", "bug", (M, "		return s.Variance(), nil", "		return math.Sqrt(s.Variance()), nil"))
e("writer-abs", "bug", (M, "		s.Update(v)\n", "		s.Update(math.Abs(v))\n"))
e("writer-twice", "bug", (M, "		s.Update(v)\n		return nil\n	}\n}\n\nfunc (Mean) ContReader", "		s.Update(v)\n		s.Update(v)\n		return nil\n	}\n}\n\nfunc (Mean) ContReader"))
e("row-count", "bug", (M, "		c++\n", "		if init {\n			c = 1\n		}\n"))
e("count-word", "bug", (M, "		c := binary.LittleEndian.Uint64(buf)\n		return float64(c), nil", "		c := binary.LittleEndian.Uint32(buf)\n		return float64(c), nil"))
e("mv-n", "bug", (S, "	variance /= count - 1\n", "	variance /= count\n"))
e("mv-sq", "bug", (S, "(vals[i] - mean) * (vals[i] - mean)", "(vals[i] - mean) * vals[i] * 1.0000001"))
e("swap-words", "bug", ("	binary.LittleEndian.PutUint64(s[16:24], math.Float64bits(mean))\n	binary.LittleEndian.PutUint64(s[24:32], math.Float64bits(ss))\n}\n\n// Reset", "	binary.LittleEndian.PutUint64(s[24:32], math.Float64bits(mean))\n	binary.LittleEndian.PutUint64(s[16:24], math.Float64bits(ss))\n}\n\n// Reset"))
