EDITS = []
V = "internal/server/server.go"
R = "internal/query/rough.go"
def e(name, kind, props, *eds, **kw):
    EDITS.append(dict(name="parse-" + name, kind=kind, props=props, edits=[x if len(x) == 3 else (V,) + x for x in eds], **kw))
TS = "	row.DataTime = time.Unix(ts/1000000, ts%1000000*1000)\n"
PI = "	ts, err := strconv.ParseInt(string(data[:p]), 10, 64)\n"
DIG = """	for p = 0; p < len(data); p++ {
		if data[p] < '0' || data[p] > '9' {
			break
		}
	}
"""
NOTS = """	if p == 0 {
		// No timestamp
		return row, fmt.Errorf("row missing leading timestamp")
	}
"""
END = """	if p == len(data) {
		// No fields or values
		return row, nil
	}
"""
LOOP = """	for {
		offset := bytes.IndexByte(data[p:], delim)
		if offset == -1 {
			row.Data = append(row.Data, parseFV(data[p:]))
			break
		}

		row.Data = append(row.Data, parseFV(data[p:p+offset]))
		p += offset + 1
	}
"""
DELIM = """	var delim = byte('\\t')
	delim = data[p]
	p++
"""
FV = """	eq := bytes.IndexByte(data, '=')
	if eq == -1 {
		return collation.FV{
			F: data,
			V: []byte{},
		}
	}
	return collation.FV{
		F: data[:eq],
		V: data[eq+1:],
	}
"""
e("unixmicro", "same", [], (TS, "	row.DataTime = time.UnixMicro(ts)\n"))
e("secs", "same", [], (TS, "	secs := ts / 1000000\n	micros := ts - secs*1000000\n	row.DataTime = time.Unix(secs, micros*1000)\n"))
e("secs-ns", "same", [], (TS, "	const us = int64(time.Second / time.Microsecond)\n	row.DataTime = time.Unix(ts/us, (ts%us)*int64(time.Microsecond))\n"))
e("utc", "same", [], (TS, "	row.DataTime = time.Unix(ts/1000000, ts%1000000*1000).UTC()\n"))
e("digit-fn", "same", [], (DIG, "	for p < len(data) && isDigit(data[p]) {\n		p++\n	}\n"), ("func parseFV(", "func isDigit(b byte) bool { return '0' <= b && b <= '9' }\n\nfunc parseFV("))
e("digit-range", "same", [], (DIG, "	p = len(data)\n	for i, b := range data {\n		if b < '0' || b > '9' {\n			p = i\n			break\n		}\n	}\n"))
e("digit-sub", "same", [], ("		if data[p] < '0' || data[p] > '9' {\n			break\n		}\n", "		if data[p]-'0' > 9 {\n			break\n		}\n"))
e("ts-helper", "same", [], (PI, "	ts, err := parseTimestamp(data[:p])\n"), ("func parseFV(", "func parseTimestamp(b []byte) (int64, error) {\n	return strconv.ParseInt(string(b), 10, 64)\n}\n\nfunc parseFV("))
e("ts-wrap", "same", [], (PI + "	if err != nil {\n		return row, err\n", PI + "	if err != nil {\n		return row, fmt.Errorf(\"bad timestamp: %v\", err)\n"))
e("delim-var", "same", [], (DELIM, "	delim := data[p]\n	p++\n"))
e("rest", "same", [], (DELIM + "\n" + LOOP, """	delim := data[p]
	rest := data[p+1:]
	for {
		i := bytes.IndexByte(rest, delim)
		if i < 0 {
			row.Data = append(row.Data, parseFV(rest))
			return row, nil
		}
		row.Data = append(row.Data, parseFV(rest[:i]))
		rest = rest[i+1:]
	}
"""), ("	}\n\n	return row, nil\n}\n\nfunc parseFV", "	}\n}\n\nfunc parseFV"))
e("rest-cond", "same", [], (DELIM + "\n" + LOOP, """	delim := data[p]
	rest := data[p+1:]
	for i := bytes.IndexByte(rest, delim); i >= 0; i = bytes.IndexByte(rest, delim) {
		row.Data = append(row.Data, parseFV(rest[:i]))
		rest = rest[i+1:]
	}
	row.Data = append(row.Data, parseFV(rest))
"""))
e("split", "same", [], (DELIM + "\n" + LOOP, """	for _, f := range bytes.Split(data[p+1:], data[p:p+1]) {
		row.Data = append(row.Data, parseFV(f))
	}
"""))
e("split-lit", "same", [], (DELIM + "\n" + LOOP, """	for _, f := range bytes.Split(data[p+1:], []byte{data[p]}) {
		row.Data = append(row.Data, parseFV(f))
	}
"""))
e("split-fill", "same", [], (DELIM + "\n" + LOOP, """	parts := bytes.Split(data[p+1:], []byte{data[p]})
	row.Data = make(collation.FVList, len(parts))
	for i := range parts {
		row.Data[i] = parseFV(parts[i])
	}
"""))
e("cut", "same", [], (FV, """	f, v, _ := bytes.Cut(data, []byte{'='})
	return collation.FV{F: f, V: v}
"""))
e("cut-str", "same", [], (FV, """	f, v, _ := bytes.Cut(data, []byte("="))
	return collation.FV{F: f, V: v}
"""))
e("fv-inv", "same", [], (FV, """	if eq := bytes.IndexByte(data, '='); eq >= 0 {
		return collation.FV{F: data[:eq], V: data[eq+1:]}
	}
	return collation.FV{F: data, V: []byte{}}
"""))
e("fv-nil", "same", [], ("			V: []byte{},\n", ""))
e("fv-index", "same", [], ("	eq := bytes.IndexByte(data, '=')\n", "	eq := bytes.Index(data, []byte(\"=\"))\n"))
e("list-var", "same", [], (LOOP, """	var list collation.FVList
	for {
		offset := bytes.IndexByte(data[p:], delim)
		if offset == -1 {
			list = append(list, parseFV(data[p:]))
			break
		}

		list = append(list, parseFV(data[p:p+offset]))
		p += offset + 1
	}
	row.Data = list
"""))
e("prealloc", "same", [], (LOOP, "	row.Data = make(collation.FVList, 0, 1+bytes.Count(data[p:], []byte{delim}))\n" + LOOP))

b = lambda name, props, *eds, **kw: e(name, "bug", props, *eds, **kw)
b("atoi", ["C31"], (PI, "	tsi, err := strconv.Atoi(string(data[:p]))\n	ts := int64(tsi)\n"))
b("int", ["C31"], (TS, "	us := int(ts)\n	row.DataTime = time.Unix(int64(us/1000000), int64(us%1000000*1000))\n"))
b("bits32", ["C31"], (PI, "	ts, err := strconv.ParseInt(string(data[:p]), 10, 32)\n"))
b("base0", ["C31"], (PI, "	ts, err := strconv.ParseInt(string(data[:p]), 0, 64)\n"))
b("base16", ["C31"], (PI, "	ts, err := strconv.ParseInt(string(data[:p]), 16, 64)\n"))
b("ns", ["C31"], (TS, "	row.DataTime = time.Unix(0, ts*1000)\n"))
b("ms", ["C31"], (TS, "	row.DataTime = time.Unix(ts/1000, ts%1000*1000000)\n"))
b("rem", ["C31"], (TS, "	row.DataTime = time.Unix(ts/1000000, ts%1000000)\n"))
b("norem", ["C31"], (TS, "	row.DataTime = time.Unix(ts/1000000, 0)\n"))
b("float", ["C31"], (TS, "	row.DataTime = time.Unix(0, int64(float64(ts)*1000))\n"))
b("uint", ["C31"], (PI, "	u, err := strconv.ParseUint(string(data[:p]), 10, 64)\n	ts := int64(u)\n"))
b("ignore", ["C31"], (PI + "	if err != nil {\n		return row, err\n	}\n", "	ts, _ := strconv.ParseInt(string(data[:p]), 10, 64)\n"))
b("clamp", ["C31"], (TS, "	if ts > 4102444800000000 {\n		ts = 4102444800000000\n	}\n" + TS))
b("limit", ["C31"], (TS, "	if ts > 4102444800000000 {\n		return row, fmt.Errorf(\"in the future\")\n	}\n" + TS))
b("trunc", ["C31"], (TS, "	row.DataTime = time.Unix(ts/1000000, ts%1000000*1000).Truncate(time.Millisecond)\n"))
b("sign", ["C31"], ("		if data[p] < '0' || data[p] > '9' {\n", "		if (data[p] < '0' || data[p] > '9') && data[p] != '-' {\n"))
b("maxlen", ["C31"], ("	for p = 0; p < len(data); p++ {\n", "	for p = 0; p < len(data) && p < 18; p++ {\n"))
b("skip", ["C31"], (DIG, DIG + "	if p > 16 {\n		data, p = data[p-16:], 16\n	}\n"))
b("eq-last", ["C42"], ("bytes.IndexByte(data, '=')", "bytes.LastIndexByte(data, '=')"))
b("eq-colon", ["C42"], ("bytes.IndexByte(data, '=')", "bytes.IndexByte(data, ':')"))
b("eq-any", ["C42"], ("bytes.IndexByte(data, '=')", "bytes.IndexAny(data, \"=:\")"))
b("eq-v", ["C42"], ("		V: data[eq+1:],\n", "		V: data[eq:],\n"))
b("eq-trim", ["C42"], ("		V: data[eq+1:],\n", "		V: bytes.TrimSpace(data[eq+1:]),\n"))
b("eq-swap", ["C42"], ("		F: data[:eq],\n		V: data[eq+1:],\n", "		V: data[:eq],\n		F: data[eq+1:],\n"))
b("eq-none", ["C42"], ("			F: data,\n			V: []byte{},\n", "			V: data,\n"))
b("eq-zero", ["C42"], ("	if eq == -1 {\n", "	if eq <= 0 {\n"))
b("lower", ["C42"], ("		F: data[:eq],\n", "		F: bytes.ToLower(data[:eq]),\n"))
b("delim-tab", ["C42"], (DELIM, "	var delim = byte('\\t')\n	p++\n"))
b("delim-in", ["C42"], (DELIM, "	delim := data[p]\n"))
b("drop-empty", ["C42"], ("		row.Data = append(row.Data, parseFV(data[p:p+offset]))\n", "		if offset > 0 {\n			row.Data = append(row.Data, parseFV(data[p:p+offset]))\n		}\n"))
b("drop-last", ["C42"], ("			row.Data = append(row.Data, parseFV(data[p:]))\n			break\n", "			break\n"))
b("drop-last-empty", ["C42"], ("			row.Data = append(row.Data, parseFV(data[p:]))\n			break\n", "			if p < len(data) {\n				row.Data = append(row.Data, parseFV(data[p:]))\n			}\n			break\n"))
b("step", ["C42"], ("		p += offset + 1\n", "		p += offset\n		for p < len(data) && data[p] == delim {\n			p++\n		}\n"))
b("whole", ["C42"], ("			row.Data = append(row.Data, parseFV(data[p:]))\n			break\n", "			row.Data = append(row.Data, parseFV(data))\n			break\n"))
b("noval", ["C42"], ("		row.Data = append(row.Data, parseFV(data[p:p+offset]))\n", "		fv := parseFV(data[p:p+offset])\n		if len(fv.V) == 0 {\n			p += offset + 1\n			continue\n		}\n		row.Data = append(row.Data, fv)\n"))
b("limit-fields", ["C42"], (LOOP, LOOP.replace("		if offset == -1 {", "		if offset == -1 || len(row.Data) == 64 {")))
b("dedupe", ["C42"], (LOOP, LOOP.replace("		row.Data = append(row.Data, parseFV(data[p:p+offset]))\n", """		fv := parseFV(data[p:p+offset])
		if n := len(row.Data); n == 0 || !bytes.Equal(row.Data[n-1].F, fv.F) {
			row.Data = append(row.Data, fv)
		}
""")))
b("split-n", ["C42"], (DELIM + "\n" + LOOP, """	for _, f := range bytes.SplitN(data[p+1:], data[p:p+1], 100) {
		row.Data = append(row.Data, parseFV(f))
	}
"""))
b("fields", ["C42"], (DELIM + "\n" + LOOP, """	for _, f := range bytes.Fields(data[p+1:]) {
		row.Data = append(row.Data, parseFV(f))
	}
"""))
b("split-skip", ["C42"], (DELIM + "\n" + LOOP, """	for _, f := range bytes.Split(data[p+1:], data[p:p+1]) {
		if len(f) == 0 {
			continue
		}
		row.Data = append(row.Data, parseFV(f))
	}
"""))
b("noend", ["C42"], (END, END.replace("p == len(data)", "p+1 >= len(data)")))

# ---- queries
SEL = "	selections := selectRe.FindAllStringSubmatch(parts[1], -1)\n"
SELB = """		i, found := fields[s[2]]
		if !found {
			i = len(q.FieldMeasures)
			fields[s[2]] = i
			q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(s[2])})
		}
		q.FieldMeasures[i].M = append(q.FieldMeasures[i].M, []byte(s[1]))
"""
WH = "		q.Criteria = append(q.Criteria, collation.FV{F: []byte(w[1]), V: []byte(w[2])})\n"
q = lambda name, kind, props, *eds, **kw: e("q-" + name, kind, props, *[(R,) + x for x in eds], **kw)
q("trim", "same", [], ("FindStringSubmatch(in)", "FindStringSubmatch(strings.TrimSpace(in))"), ('	"regexp"\n', '	"regexp"\n	"strings"\n'))
q("nil", "same", [], ("	if len(parts) != 3 {\n", "	if parts == nil {\n"))
q("inline", "same", [], (SEL + "	for _, s := range selections {\n", "	for _, s := range selectRe.FindAllStringSubmatch(parts[1], -1) {\n"))
q("index", "same", [], (SEL + "	for _, s := range selections {\n", SEL + "	for i := 0; i < len(selections); i++ {\n		s := selections[i]\n"), ("		i, found := fields[s[2]]\n		if !found {\n			i = len(q.FieldMeasures)\n			fields[s[2]] = i\n", "		at, found := fields[s[2]]\n		if !found {\n			at = len(q.FieldMeasures)\n			fields[s[2]] = at\n"), ("q.FieldMeasures[i].M = append(q.FieldMeasures[i].M", "q.FieldMeasures[at].M = append(q.FieldMeasures[at].M"))
q("names", "same", [], (SELB, """		measure, field := s[1], s[2]
		i, found := fields[field]
		if !found {
			i = len(q.FieldMeasures)
			fields[field] = i
			q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(field)})
		}
		q.FieldMeasures[i].M = append(q.FieldMeasures[i].M, []byte(measure))
"""))
q("branches", "same", [], (SELB, """		i, found := fields[s[2]]
		if found {
			q.FieldMeasures[i].M = append(q.FieldMeasures[i].M, []byte(s[1]))
			continue
		}
		fields[s[2]] = len(q.FieldMeasures)
		q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(s[2]), M: [][]byte{[]byte(s[1])}})
"""))
q("ptr", "same", [], ("		q.FieldMeasures[i].M = append(q.FieldMeasures[i].M, []byte(s[1]))\n", "		fm := &q.FieldMeasures[i]\n		fm.M = append(fm.M, []byte(s[1]))\n"))
q("crit-var", "same", [], (WH, "		fv := collation.FV{F: []byte(w[1]), V: []byte(w[2])}\n		q.Criteria = append(q.Criteria, fv)\n"))
q("noi", "same", [], ("(?i)^\\s*select\\s+", "(?i)^\\s*(?:select)\\s+"))
q("last-trim", "same", [], ("where\\s+(.+)\\s*$", "where\\s+(.+)$"))
q("dots", "same", [], ("(.+?)\\s+where\\s+(.+)\\s*$", "(.+?)[ \\t\\r\\n]+where[ \\t\\r\\n]+(.+?)\\s*$"))
q("errvar", "same", [], ("	if len(parts) != 3 {\n		return q, fmt.Errorf(\"query: syntax error; expected query to have format 'select xxx where yyy'\")\n", "	if len(parts) != 3 {\n		return q, errSyntax\n"), ("// RoughParse is", "var errSyntax = fmt.Errorf(\"query: syntax error\")\n\n// RoughParse is"))
q("linear", "same", [], (SELB, """		i := -1
		for j := range q.FieldMeasures {
			if string(q.FieldMeasures[j].F) == s[2] {
				i = j
				break
			}
		}
		if i < 0 {
			i = len(q.FieldMeasures)
			q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(s[2])})
		}
		q.FieldMeasures[i].M = append(q.FieldMeasures[i].M, []byte(s[1]))
"""), ("	// position of each field in q.FieldMeasures, which are kept in the order of the query\n	fields := map[string]int{}\n\n", ""))
q("helper", "same", [], ("	wheres := whereRe.FindAllStringSubmatch(parts[2], -1)\n	for _, w := range wheres {\n		if len(w) != 3 {\n			return q, fmt.Errorf(\"query: syntax error; expected query to have format 'select xxx where yyy'\")\n		}\n" + WH + "	}\n", "	q.Criteria = criteria(parts[2])\n"), ("// RoughParse is", """func criteria(s string) []collation.FV {
	var list []collation.FV
	for _, w := range whereRe.FindAllStringSubmatch(s, -1) {
		list = append(list, collation.FV{F: []byte(w[1]), V: []byte(w[2])})
	}
	return list
}

// RoughParse is"""))
qb = lambda name, *eds, **kw: q(name, "bug", ["C34"], *eds, **kw)
qb("word", ("([^,\\s]+)\\(([^,\\s]+)\\)", "(\\w+)\\((\\w+)\\)"))
qb("greedy", ("(.+?)\\s+where", "(.+)\\s+where"))
qb("empty", ("='([^']*)'", "='([^']+)'"))
qb("quote-greedy", ("='([^']*)'", "='(.*)'"))
qb("n1", ("FindAllStringSubmatch(parts[2], -1)", "FindAllStringSubmatch(parts[2], 1)"))
qb("n8", ("FindAllStringSubmatch(parts[1], -1)", "FindAllStringSubmatch(parts[1], 8)"))
qb("swap", (WH, "		q.Criteria = append(q.Criteria, collation.FV{F: []byte(w[2]), V: []byte(w[1])})\n"))
qb("whole0", (WH, "		q.Criteria = append(q.Criteria, collation.FV{F: []byte(w[1]), V: []byte(w[0])})\n"))
qb("noanchor", ("`(?i)^\\s*select", "`(?i)\\s*select"))
qb("noend", ("where\\s+(.+)\\s*$`", "where\\s+(\\S+)`"))
qb("case", ("`(?i)^", "`^"))
qb("parts", ("FindAllStringSubmatch(parts[2], -1)", "FindAllStringSubmatch(in, -1)"))
qb("parts12", ("FindAllStringSubmatch(parts[1], -1)", "FindAllStringSubmatch(parts[0], -1)"))
qb("noerr", ("	if len(parts) != 3 {\n		return q, fmt.Errorf(\"query: syntax error; expected query to have format 'select xxx where yyy'\")\n", "	if len(parts) != 3 {\n		return q, nil\n"))
qb("skip-m", (SELB, "		if s[1] == s[2] {\n			continue\n		}\n" + SELB))
qb("dup-m", (SELB, SELB + "		q.FieldMeasures[i].M = append(q.FieldMeasures[i].M, []byte(s[1]))\n"))
qb("replace-m", ("		q.FieldMeasures[i].M = append(q.FieldMeasures[i].M, []byte(s[1]))\n", "		q.FieldMeasures[i].M = [][]byte{[]byte(s[1])}\n"))
qb("last-m", ("		q.FieldMeasures[i].M = append(q.FieldMeasures[i].M, []byte(s[1]))\n", "		i = len(q.FieldMeasures) - 1\n		q.FieldMeasures[i].M = append(q.FieldMeasures[i].M, []byte(s[1]))\n"))
qb("key-m", ("			fields[s[2]] = i\n", "			fields[s[1]] = i\n"))
qb("key-both", ("		i, found := fields[s[2]]\n", "		i, found := fields[s[1]]\n"), ("			fields[s[2]] = i\n", "			fields[s[1]] = i\n"))
qb("off", ("			i = len(q.FieldMeasures)\n			fields[s[2]] = i\n", "			i = len(q.FieldMeasures)\n			fields[s[2]] = 0\n"))
qb("map-order", ("	wheres := whereRe", "	for i := range q.FieldMeasures {\n		if i > 0 && len(q.FieldMeasures[i].M) > len(q.FieldMeasures[i-1].M) {\n			q.FieldMeasures[i], q.FieldMeasures[i-1] = q.FieldMeasures[i-1], q.FieldMeasures[i]\n		}\n	}\n\n	wheres := whereRe"))
qb("crit-once", (WH, "		if len(q.Criteria) > 0 && string(q.Criteria[len(q.Criteria)-1].F) == w[1] {\n			continue\n		}\n" + WH))
qb("crit-trim", (WH, "		q.Criteria = append(q.Criteria, collation.FV{F: []byte(w[1]), V: []byte(strings.TrimSpace(w[2]))})\n"), ('	"regexp"\n', '	"regexp"\n	"strings"\n'))
qb("crit-lower", ("FindStringSubmatch(in)", "FindStringSubmatch(strings.ToLower(in))"), ('	"regexp"\n', '	"regexp"\n	"strings"\n'))
qb("nows", ("\\s+where\\s+", "\\s*where\\s*"))
qb("from", ("select\\s+(.+?)\\s+where", "select\\s+(.+?)\\s+(?:from|where)"))
