"""Run-time failures of the handling of requests, and ways of writing it that have none."""
import importlib.util, os
spec = importlib.util.spec_from_file_location("f2", os.path.join(os.path.dirname(os.path.abspath(__file__)), "edits_fresh2.py"))
f2 = importlib.util.module_from_spec(spec); spec.loader.exec_module(f2)
F, P, V, Q, T = f2.F, f2.P, f2.V, f2.Q, f2.T
R = 'internal/collation/schema.go'
EDITS = []
def e(name, kind, props, *eds): EDITS.append(dict(name="panics-" + name, kind=kind, props=props, edits=list(eds)))
def same(name, *eds): e(name, "same", [], *eds)
def bug(name, props, *eds): e(name, "bug", props.split(), *eds)
ROW, FV_, RP, QC, RO = "parseRow(", "parseFV(", "RoughParse(", "(s *Server) queryCollation(", "(s *Server) recvObservation("

# ---- rows
bug("row-delim", "C43", P(V, ROW, ("	if p == len(data) {\n		// No fields or values\n		return row, nil\n	}\n", "	if p > len(data) {\n		return row, nil\n	}\n")))
bug("row-digits", "C43", P(V, ROW, ("p = 0; p < len(data); p++", "p = 0; ; p++")))
bug("row-digits-le", "C43", P(V, ROW, ("p = 0; p < len(data); p++", "p = 0; p <= len(data); p++")))
bug("row-plus2", "C43", P(V, ROW, ("p += offset + 1", "p += offset + 2")))
bug("row-trim-cr", "C43", P(V, ROW, ("	row := collation.Row{}\n", "	row := collation.Row{}\n	if data[len(data)-1] == '\\r' {\n		data = data[:len(data)-1]\n	}\n")))
same("row-trim-cr-safe", P(V, ROW, ("	row := collation.Row{}\n", "	row := collation.Row{}\n	if len(data) == 0 {\n		return row, fmt.Errorf(\"row missing leading timestamp\")\n	}\n")))
bug("fv-noeq", "C43", P(V, FV_, ("	if eq == -1 {\n		return collation.FV{\n			F: data,\n			V: []byte{},\n		}\n	}\n", "	if eq == 0 {\n		return collation.FV{F: data, V: []byte{}}\n	}\n")))
bug("fv-split", "C43", F(V, FV_, '''
func parseFV(data []byte) collation.FV {
	kv := bytes.SplitN(data, []byte{'='}, 2)
	return collation.FV{F: kv[0], V: kv[1]}
}'''))
bug("fv-quote", "C43", P(V, FV_, ("	return collation.FV{\n		F: data[:eq],\n", "	if v := data[eq+1:]; v[0] == '\"' && len(v) > 1 {\n		return collation.FV{F: data[:eq], V: v[1 : len(v)-1]}\n	}\n	return collation.FV{\n		F: data[:eq],\n")))
bug("fv-last-char", "C43", P(V, FV_, ("	eq := bytes.IndexByte(data, '=')\n", "	eq := bytes.IndexByte(data, '=')\n	if data[0] == '=' {\n		eq = 0\n	}\n")))
same("row-while", P(V, ROW, ("	for p = 0; p < len(data); p++ {\n		if data[p] < '0' || data[p] > '9' {\n			break\n		}\n	}\n", "	for p < len(data) && data[p] >= '0' && data[p] <= '9' {\n		p++\n	}\n")))
same("row-digits-helper", P(V, ROW, ("	for p = 0; p < len(data); p++ {\n		if data[p] < '0' || data[p] > '9' {\n			break\n		}\n	}\n", "	p = digits(data)\n")), (V, "func parseFV(", '''func digits(data []byte) int {
	for i, c := range data {
		if c < '0' || c > '9' {
			return i
		}
	}
	return len(data)
}

func parseFV('''))
same("row-rest", P(V, ROW, ("	delim = data[p]\n	p++\n", "	delim = data[p]\n	data = data[p+1:]\n	p = 0\n")))
same("row-scan", P(V, ROW, ("	for {\n		offset := bytes.IndexByte(data[p:], delim)\n		if offset == -1 {\n			row.Data = append(row.Data, parseFV(data[p:]))\n			break\n		}\n\n		row.Data = append(row.Data, parseFV(data[p:p+offset]))\n		p += offset + 1\n	}\n",
  "	start := p\n	for i := p; i < len(data); i++ {\n		if data[i] == delim {\n			row.Data = append(row.Data, parseFV(data[start:i]))\n			start = i + 1\n		}\n	}\n	row.Data = append(row.Data, parseFV(data[start:]))\n")))
bug("row-scan-late", "C43", P(V, ROW, ("	for {\n		offset := bytes.IndexByte(data[p:], delim)\n		if offset == -1 {\n			row.Data = append(row.Data, parseFV(data[p:]))\n			break\n		}\n\n		row.Data = append(row.Data, parseFV(data[p:p+offset]))\n		p += offset + 1\n	}\n",
  "	start := p\n	for i := p; i <= len(data); i++ {\n		if data[i] == delim {\n			row.Data = append(row.Data, parseFV(data[start:i]))\n			start = i + 1\n		}\n	}\n	row.Data = append(row.Data, parseFV(data[start:]))\n")))

# ---- queries
bug("q-parts", "C43", P(Q, RP, ("	if len(parts) != 3 {", "	if len(parts) > 3 {")))
bug("q-group", "C43", P(Q, RP, ("V: []byte(w[2])", "V: []byte(w[3])")))
bug("q-index", "C43", P(Q, RP, ("			fields[s[2]] = i\n", "			fields[s[2]] = i + 1\n")), )
bug("q-nilmap", "C43", P(Q, RP, ("	fields := map[string]int{}\n", "	var fields map[string]int\n")))
same("q-make", P(Q, RP, ("	fields := map[string]int{}\n", "	fields := make(map[string]int)\n")))
def rp(new):
    return [P(Q, RP, ("	// position of each field in q.FieldMeasures, which are kept in the order of the query\n	fields := map[string]int{}\n\n", ""), ("		i, found := fields[s[2]]\n		if !found {\n			i = len(q.FieldMeasures)\n			fields[s[2]] = i\n			q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(s[2])})\n		}\n", new))]
same("q-linear-inline", *rp('''		i := 0
		for i < len(q.FieldMeasures) && string(q.FieldMeasures[i].F) != s[2] {
			i++
		}
		if i == len(q.FieldMeasures) {
			q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(s[2])})
		}
'''))
bug("q-linear-off", "C43", *rp('''		i := 0
		for i < len(q.FieldMeasures) && string(q.FieldMeasures[i].F) != s[2] {
			i++
		}
		if i > len(q.FieldMeasures) {
			q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(s[2])})
		}
'''))
same("q-linear-minus", *rp('''		i := -1
		for j := range q.FieldMeasures {
			if string(q.FieldMeasures[j].F) == s[2] {
				i = j
				break
			}
		}
		if i < 0 {
			i = len(q.FieldMeasures)
			q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(s[2])})
		}
'''))
# ---- handlers
bug("qc-form", "C43", P(V, QC, ('	qstr := req.FormValue("q")\n', '	req.ParseForm()\n	qstr := req.Form["q"][0]\n')))
bug("qc-flush", "C43", P(V, QC, ("	http.NotFound(w, req)\n", "	http.NotFound(w, req)\n	w.(http.Flusher).Flush()\n")))
same("qc-flush-safe", P(V, QC, ("	http.NotFound(w, req)\n", "	http.NotFound(w, req)\n	if f, ok := w.(http.Flusher); ok {\n		f.Flush()\n	}\n")))
bug("qc-results", "C43", P(V, QC, ("			for _, f := range res.FieldMeasureValues {\n", "			for i := range q.FieldMeasures {\n				f := res.FieldMeasureValues[i]\n")))
same("qc-results-index", P(V, QC, ("			for _, f := range res.FieldMeasureValues {\n", "			for i := range res.FieldMeasureValues {\n				f := res.FieldMeasureValues[i]\n")))
same("qc-results-desc", P(V, QC, ("			for _, f := range res.FieldMeasureValues {\n", "			for i, n := 0, len(res.FieldMeasureValues); i < n; i++ {\n				f := res.FieldMeasureValues[i]\n")))
bug("qc-nilerr", "C43", P(V, QC, ("	http.NotFound(w, req)\n", "	http.Error(w, err.Error(), http.StatusNotFound)\n")))
bug("qc-first", "C43", P(V, QC, ("			for _, c := range q.Criteria {\n", "			if string(q.Criteria[0].F) == \"\" {\n				return\n			}\n			for _, c := range q.Criteria {\n")))
same("obs-fail", P(V, RO, ("		http.Error(w, err.Error(), http.StatusBadRequest)\n", "		fail(w, err, http.StatusBadRequest)\n")), (V, "func contentType(", '''func fail(w http.ResponseWriter, err error, code int) {
	http.Error(w, err.Error(), code)
}

func contentType('''))
bug("obs-code", "C43", P(V, RO, ("			http.Error(w, err.Error(), http.StatusInternalServerError)\n			return\n		}\n\n		row.ReceiveTime", "			http.Error(w, err.Error(), len(row.Data))\n			return\n		}\n\n		row.ReceiveTime")))
bug("handler-slash", "C43", (V, "		if len(path) == 0 {\n			// TODO: list collations\n			http.NotFound(w, req)\n			return\n		}\n", "		if path[0] == '?' {\n			http.NotFound(w, req)\n			return\n		}\n		if len(path) == 0 {\n			// TODO: list collations\n			http.NotFound(w, req)\n			return\n		}\n"))
same("handler-last", (V, "		if strings.ContainsRune(path, '/') {\n", "		if path[len(path)-1] == '/' || strings.ContainsRune(path, '/') {\n"))
bug("ct-split", "C43", P(V, "contentType(", ("	var err error\n	ct, _, err = mime.ParseMediaType(ct)\n	return ct, err\n", "	ct, _, err := mime.ParseMediaType(strings.Split(ct, \";\")[0] + \";\" + strings.Split(ct, \";\")[1])\n	return ct, err\n")))
# ---- keys
KV = "(fv FVList) KeyValue("
bug("kv-parallel", "C43", P(R, KV, ("		for j := range fv {\n", "		if bytes.Equal(keys[i], fv[i].F) {\n			h.Write(fv[i].F)\n			h.Write(fv[i].V)\n			continue outer\n		}\n		for j := range fv {\n")))
same("kv-parallel-safe", P(R, KV, ("		for j := range fv {\n", "		if i < len(fv) && len(fv[i].F) < 0 {\n			continue\n		}\n		for j := range fv {\n")))
bug("kv-first-byte", "C43", P(R, KV, ("			if bytes.Equal(keys[i], fv[j].F) {\n", "			if keys[i][0] == fv[j].F[0] && bytes.Equal(keys[i], fv[j].F) {\n")))
bug("kv-average", "C43", P(R, KV, ("	return h.Sum64(), true\n", "	return h.Sum64() - h.Sum64()%uint64(len(fv))*0, true\n")))
# ---- loops over bytes in place of the library
FVLOOP = '''
func parseFV(data []byte) collation.FV {
	for i, c := range data {
		if c == '=' {
			return collation.FV{F: data[:i], V: data[i+1:]}
		}
	}
	return collation.FV{F: data, V: []byte{}}
}'''
same("fv-loop", F(V, FV_, FVLOOP))
same("fv-loop-for", F(V, FV_, '''
func parseFV(data []byte) collation.FV {
	i := 0
	for i < len(data) && data[i] != '=' {
		i++
	}
	if i == len(data) {
		return collation.FV{F: data, V: []byte{}}
	}
	return collation.FV{F: data[:i], V: data[i+1:]}
}'''))
same("fv-loop-ge", F(V, FV_, '''
func parseFV(data []byte) collation.FV {
	eq := 0
	for ; eq < len(data); eq++ {
		if data[eq] == '=' {
			break
		}
	}
	fv := collation.FV{F: data[:eq], V: []byte{}}
	if eq < len(data) {
		fv.V = data[eq+1:]
	}
	return fv
}'''))
same("fv-loop-flag", F(V, FV_, '''
func parseFV(data []byte) collation.FV {
	eq := -1
	for i := 0; i < len(data); i++ {
		if data[i] == '=' {
			eq = i
			break
		}
	}
	if eq < 0 {
		return collation.FV{F: data, V: []byte{}}
	}
	return collation.FV{F: data[:eq], V: data[eq+1:]}
}'''))
bug("fv-loop-last", "C42", F(V, FV_, '''
func parseFV(data []byte) collation.FV {
	eq := -1
	for i, c := range data {
		if c == '=' {
			eq = i
		}
	}
	if eq < 0 {
		return collation.FV{F: data, V: []byte{}}
	}
	return collation.FV{F: data[:eq], V: data[eq+1:]}
}'''))
bug("fv-loop-skip", "C42", F(V, FV_, FVLOOP.replace("range data {\n		if c == '='", "range data {\n		if i > 0 && c == '='")))
bug("fv-loop-two", "C42", F(V, FV_, FVLOOP.replace("if c == '='", "if c == '=' || c == ':'")))
bug("fv-loop-from", "C42", F(V, FV_, '''
func parseFV(data []byte) collation.FV {
	for i := 1; i < len(data); i++ {
		if data[i] == '=' {
			return collation.FV{F: data[:i], V: data[i+1:]}
		}
	}
	return collation.FV{F: data, V: []byte{}}
}'''))
OLDLOOP = "	for {\n		offset := bytes.IndexByte(data[p:], delim)\n		if offset == -1 {\n			row.Data = append(row.Data, parseFV(data[p:]))\n			break\n		}\n\n		row.Data = append(row.Data, parseFV(data[p:p+offset]))\n		p += offset + 1\n	}\n"
NEST = "	for {\n		end := p\n		for end < len(data) && data[end] != delim {\n			end++\n		}\n		row.Data = append(row.Data, parseFV(data[p:end]))\n		if end == len(data) {\n			break\n		}\n		p = end + 1\n	}\n"
same("row-nested", P(V, ROW, (OLDLOOP, NEST)))
same("row-nested-brk", P(V, ROW, (OLDLOOP, NEST.replace("end == len", "end >= len"))))
bug("row-nested-lt", "C42", P(V, ROW, (OLDLOOP, NEST.replace("end == len(data)", "end+1 >= len(data)"))))
bug("row-nested-quote", "C42", P(V, ROW, (OLDLOOP, NEST.replace("data[end] != delim {", "data[end] != delim && data[end] != 0 {"))))
bug("row-nested-lost", "C42", P(V, ROW, (OLDLOOP, NEST.replace("		row.Data", "		if end > p {\n			row.Data").replace("data[p:end]))\n", "data[p:end]))\n		}\n"))))
SCANL = "	start := p\n	for i := p; i < len(data); i++ {\n		if data[i] == delim {\n			row.Data = append(row.Data, parseFV(data[start:i]))\n			start = i + 1\n		}\n	}\n	row.Data = append(row.Data, parseFV(data[start:]))\n"
same("row-scan-not", P(V, ROW, (OLDLOOP, SCANL.replace("		if data[i] == delim {\n			row.Data = append(row.Data, parseFV(data[start:i]))\n			start = i + 1\n		}\n", "		if data[i] != delim {\n			continue\n		}\n		row.Data = append(row.Data, parseFV(data[start:i]))\n		start = i + 1\n"))))
same("row-scan-range", P(V, ROW, (OLDLOOP, SCANL.replace("	start := p\n	for i := p; i < len(data); i++ {\n		if data[i] == delim", "	data = data[p:]\n	start := 0\n	for i, c := range data {\n		if c == delim"))))
bug("row-scan-last", "C42", P(V, ROW, (OLDLOOP, SCANL.replace("	row.Data = append(row.Data, parseFV(data[start:]))\n", "	if start < len(data) {\n		row.Data = append(row.Data, parseFV(data[start:]))\n	}\n"))))
bug("row-scan-start", "C42", P(V, ROW, (OLDLOOP, SCANL.replace("for i := p;", "for i := p + 1;"))))
bug("row-scan-keep", "C42", P(V, ROW, (OLDLOOP, SCANL.replace("start = i + 1", "start = i"))))
bug("row-scan-empty", "C42", P(V, ROW, (OLDLOOP, SCANL.replace("data[i] == delim {", "data[i] == delim && i > start {"))))
