"""Memory on loan."""
from edits_fresh2 import F, P, src
EDITS = []
def e(name, kind, props, *eds, **kw):
    EDITS.append(dict(name="stale-" + name, kind=kind, props=props, edits=list(eds), **kw))
def same(name, *eds): e(name, "same", [], *eds)
def bug(name, props, *eds): e(name, "bug", props.split(), *eds)
V = "internal/server/server.go"
T = "internal/storage/storage.go"
SIG = "(s *Server) recvObservation"
LOOP = src(V)[src(V).index("	now := time.Now()\n	sc := bufio.NewScanner(r)"):src(V).index("func contentType")]

WRITE = """		row.ReceiveTime = now
		for _, st := range s.Stores {
			if err := st.Write(ctx, row); err != nil {
				http.Error(w, err.Error(), http.StatusInternalServerError)
				return
			}
		}
	}
	if sc.Err() != nil {
		http.Error(w, sc.Err().Error(), http.StatusInternalServerError)
		return
	}
"""
BATCH = """		row.ReceiveTime = now
		rows = append(rows, row)
	}
	if sc.Err() != nil {
		http.Error(w, sc.Err().Error(), http.StatusInternalServerError)
		return
	}
	for _, row := range rows {
		for _, st := range s.Stores {
			if err := st.Write(ctx, row); err != nil {
				http.Error(w, err.Error(), http.StatusInternalServerError)
				return
			}
		}
	}
"""
DECL = ("	sc := bufio.NewScanner(r)\n", "	var rows []collation.Row\n	sc := bufio.NewScanner(r)\n")
bug("batch", "C27", P(V, SIG, DECL, (WRITE, BATCH)))
bug("lookahead", "C27", P(V, SIG, ("	for sc.Scan() {\n", "	more := sc.Scan()\n	for more {\n"),
    ("		row.ReceiveTime = now\n", "		row.ReceiveTime = now\n		more = sc.Scan()\n")))
same("lookahead", P(V, SIG, ("	for sc.Scan() {\n", "	more := sc.Scan()\n	for more {\n"),
    (WRITE, WRITE.replace("	}\n	if sc.Err() != nil", "		more = sc.Scan()\n	}\n	if sc.Err() != nil"))))
bug("first", "C27", P(V, SIG, ("	sc := bufio.NewScanner(r)\n", "	var first []byte\n	sc := bufio.NewScanner(r)\n"),
    ("		row, err := parseRow(sc.Bytes())\n", "		if first == nil {\n			first = sc.Bytes()\n		}\n		row, err := parseRow(sc.Bytes())\n"),
    ("	if sc.Err() != nil {\n		http.Error(w, sc.Err().Error(), http.StatusInternalServerError)\n		return\n	}\n", "	if sc.Err() != nil {\n		http.Error(w, sc.Err().Error(), http.StatusInternalServerError)\n		return\n	}\n	s.Logger.Printf(\"received %s and more\", first)\n")))
same("copy", P(V, SIG, DECL, ("parseRow(sc.Bytes())", "parseRow(append([]byte(nil), sc.Bytes()...))"), (WRITE, WRITE.replace("		row.ReceiveTime = now\n", "		row.ReceiveTime = now\n		rows = append(rows, row)\n").replace("	if sc.Err() != nil", "	if len(rows) > 1000 {\n		s.Logger.Printf(\"%d rows\", len(rows))\n	}\n	if sc.Err() != nil", 1))))
same("text", P(V, SIG, ("		row, err := parseRow(sc.Bytes())\n", "		line := sc.Text()\n		row, err := parseRow([]byte(line))\n")))
same("outside", P(V, SIG, ("	sc := bufio.NewScanner(r)\n", "	var row collation.Row\n	var line []byte\n	sc := bufio.NewScanner(r)\n"),
    ("		row, err := parseRow(sc.Bytes())\n", "		line = sc.Bytes()\n		row, err = parseRow(line)\n")))
same("helper", P(V, SIG, ("		row, err := parseRow(sc.Bytes())\n		if err != nil {\n			http.Error(w, err.Error(), http.StatusInternalServerError)\n			return\n		}\n\n		row.ReceiveTime = now\n		for _, st := range s.Stores {\n			if err := st.Write(ctx, row); err != nil {\n				http.Error(w, err.Error(), http.StatusInternalServerError)\n				return\n			}\n		}\n",
    "		if err := s.take(ctx, sc.Bytes(), now); err != nil {\n			http.Error(w, err.Error(), http.StatusInternalServerError)\n			return\n		}\n")),
    (V, "func contentType(", "// take stores what a line says\nfunc (s *Server) take(ctx context.Context, line []byte, now time.Time) error {\n	row, err := parseRow(line)\n	if err != nil {\n		return err\n	}\n	row.ReceiveTime = now\n	for i := range s.Stores {\n		if err := s.Stores[i].Write(ctx, row); err != nil {\n			return err\n		}\n	}\n	return nil\n}\n\nfunc contentType("))
bug("defer", "C27", P(V, SIG, (WRITE, WRITE.replace("			if err := st.Write(ctx, row); err != nil {\n				http.Error(w, err.Error(), http.StatusInternalServerError)\n				return\n			}\n", "			st := st\n			defer st.Write(ctx, row)\n"))))
same("next", P(V, SIG, ("	for sc.Scan() {\n", "	for {\n		line, more := nextLine(sc)\n		if !more {\n			break\n		}\n"), ("parseRow(sc.Bytes())", "parseRow(line)")),
    (V, "func contentType(", "func nextLine(sc *bufio.Scanner) ([]byte, bool) {\n	if !sc.Scan() {\n		return nil, false\n	}\n	return sc.Bytes(), true\n}\n\nfunc contentType("))
bug("next", "C27", P(V, SIG, ("	for sc.Scan() {\n", "	line, more := nextLine(sc)\n	for more {\n"), ("		row, err := parseRow(sc.Bytes())\n", "		row, err := parseRow(line)\n		line, more = nextLine(sc)\n")),
    (V, "func contentType(", "func nextLine(sc *bufio.Scanner) ([]byte, bool) {\n	if !sc.Scan() {\n		return nil, false\n	}\n	return sc.Bytes(), true\n}\n\nfunc contentType("))

same("copy2", P(V, SIG, ("		row, err := parseRow(sc.Bytes())\n", "		line := make([]byte, len(sc.Bytes()))\n		copy(line, sc.Bytes())\n		row, err := parseRow(line)\n")))
