"""What is well formed is not refused."""
from edits_fresh2 import F, P, src
EDITS = []
def e(name, kind, props, *eds, **kw):
    EDITS.append(dict(name="refuse-" + name, kind=kind, props=props, edits=list(eds), **kw))
def same(name, *eds): e(name, "same", [], *eds)
def bug(name, props, *eds): e(name, "bug", props.split(), *eds)
V = "internal/server/server.go"
Q = "internal/query/rough.go"
C = "internal/collation/compile.go"
T = "internal/storage/storage.go"
L = "internal/collation/schema.go"
REG = src(V)[src(V).index("	s.mux.HandleFunc(\"/obs\""):src(V).index("	return nil\n}\n\n// recvObservation")]
PATH = src(V)[src(V).index("		path := req.URL.Path\n"):src(V).index("		baseCtx := req.Context()\n		s.queryCollation")]
same("no-strip", (V, REG, """	s.mux.HandleFunc("/obs", func(w http.ResponseWriter, req *http.Request) {
		switch req.Method {
		case http.MethodPost:
			s.recvObservation(req.Context(), w, req)
		default:
			http.Error(w, "method not allowed", http.StatusMethodNotAllowed)
		}
	})

	const prefix = "/collation/"
	s.mux.HandleFunc(prefix, func(w http.ResponseWriter, req *http.Request) {
		name := strings.TrimPrefix(req.URL.Path, prefix)
		if name == "" || strings.Contains(name, "/") {
			http.NotFound(w, req)
			return
		}
		switch req.Method {
		case http.MethodPost, http.MethodGet:
			s.queryCollation(req.Context(), name, w, req)
		default:
			http.Error(w, "method not allowed", http.StatusMethodNotAllowed)
		}
	})

"""))
same("slice-prefix", (V, REG, """	s.mux.HandleFunc("/obs", func(w http.ResponseWriter, req *http.Request) {
		if req.Method != "POST" {
			http.Error(w, "method not allowed", http.StatusMethodNotAllowed)
			return
		}
		s.recvObservation(req.Context(), w, req)
	})

	s.mux.HandleFunc("/collation/", func(w http.ResponseWriter, req *http.Request) {
		name := req.URL.Path[len("/collation/"):]
		if len(name) < 1 || strings.IndexByte(name, '/') >= 0 {
			http.NotFound(w, req)
			return
		}
		if m := req.Method; m == "POST" || m == "GET" {
			s.queryCollation(req.Context(), name, w, req)
			return
		}
		http.Error(w, "method not allowed", http.StatusMethodNotAllowed)
	})

"""))
same("strip-part", (V, '	s.mux.Handle("/collation/", http.StripPrefix("/collation/",', '	s.mux.Handle("/collation/", http.StripPrefix("/collation",'), (V, "		path := req.URL.Path\n", "		path := strings.TrimPrefix(req.URL.Path, \"/\")\n"))
same("order", (V, PATH, """		if req.Method != http.MethodPost && req.Method != http.MethodGet {
			http.Error(w, "method not allowed", http.StatusMethodNotAllowed)
			return
		}

		path := req.URL.Path
		if path == "" || strings.IndexRune(path, '/') != -1 {
			http.NotFound(w, req)
			return
		}

"""))
same("named", P(V, "(s *Server) registerHandlers", ("http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {", "http.HandlerFunc(s.collation)))\n\n	return nil\n}\n\nfunc (s *Server) collation(w http.ResponseWriter, req *http.Request) {"), ("	})))\n\n	return nil\n", "")))
same("valid-query", (V, """	qstr := req.FormValue("q")
	q, err := query.RoughParse(qstr)
	if err != nil {
		http.Error(w, err.Error(), http.StatusBadRequest)
		return
	}
""", """	q, err := query.RoughParse(req.FormValue("q"))
	if err != nil {
		s.fail(w, err, http.StatusBadRequest)
		return
	}
"""), (V, "func (s *Server) ServeHTTP", """func (s *Server) fail(w http.ResponseWriter, err error, code int) {
	s.Logger.Printf("request failed: %v", err)
	http.Error(w, err.Error(), code)
}

func (s *Server) ServeHTTP"""))
same("find", (V, """	for _, store := range s.Stores {
		if store.Collator.Name() == cname {
			res, err""", """	for _, store := range s.Stores {
		if store.Collator.Name() != cname {
			continue
		}
		{
			res, err"""))
same("no-content-type", F(V, "contentType(req", """func contentType(req *http.Request) (string, error) {
	header := req.Header.Get("Content-Type")
	if len(header) > 0 {
		mt, _, err := mime.ParseMediaType(header)
		return mt, err
	}
	return "application/octet-stream", nil
}"""))
same("media-if", (V, "	var r io.Reader\n	switch ct {\n	case \"application/x-www-form-urlencoded\":\n", "	var r io.Reader\n	const form = \"application/x-www-form-urlencoded\"\n	if ct != form && ct != \"text/plain\" && ct != \"application/octet-stream\" {\n		http.Error(w, \"unknown media type\", http.StatusUnsupportedMediaType)\n		return\n	}\n	switch ct {\n	case form:\n"),
     (V, "	default:\n		http.Error(w, \"unknown media type\", http.StatusUnsupportedMediaType)\n		return\n	}\n", "	}\n"),
     (V, "	case \"text/plain\", \"application/octet-stream\":\n", "	default:\n"))
same("row-first", (V, """	if p == 0 {
		// No timestamp
		return row, fmt.Errorf("row missing leading timestamp")
	}
""", ""), (V, "	var p int\n	// Read timestamp\n", "	if len(data) == 0 || data[0] < '0' || data[0] > '9' {\n		return row, errNoTimestamp\n	}\n	var p int\n	// Read timestamp\n"), (V, "// TODO: move parseRow", "var errNoTimestamp = fmt.Errorf(\"row missing leading timestamp\")\n\n// TODO: move parseRow"))
same("query-nil", (Q, "	if len(parts) != 3 {\n		return q, fmt", "	if parts == nil {\n		return q, fmt"))
same("query-err", (Q, "var (\n	queryRe", "var errSyntax = fmt.Errorf(\"query: syntax error; expected query to have format 'select xxx where yyy'\")\n\nvar (\n	queryRe"), P(Q, "RoughParse(in", ("	if len(parts) != 3 {\n		return q, fmt.Errorf(\"query: syntax error; expected query to have format 'select xxx where yyy'\")", "	if len(parts) < 3 {\n		return q, errSyntax")))
same("precision", (C, "ok && (c.Precision < 4 || c.Precision > 18)", "ok && !(c.Precision >= 4 && c.Precision <= 18)"))
same("precision-consts", (C, "	if c, ok := m.(Cardinality); ok && (c.Precision < 4 || c.Precision > 18) {\n		return fmt", "	const lo, hi = 4, 18\n	c, ok := m.(Cardinality)\n	if !ok {\n		return nil\n	}\n	if p := int(c.Precision); p < lo || hi < p {\n		return fmt"))
same("write-err", (T, "	return s.Backend.Update(key, t.Do)\n", "	if err := s.Backend.Update(key, t.Do); err != nil {\n		return fmt.Errorf(\"update: %v\", err)\n	}\n	return nil\n"), (T, '	"context"\n', '	"context"\n	"fmt"\n'))
same("ctx-err", (T, "	select {\n	case <-ctx.Done():\n		return ctx.Err()\n	default:\n	}\n", "	if err := ctx.Err(); err != nil {\n		return err\n	}\n"))
same("root-log", P(V, "(s *Server) ServeHTTP", ("	s.mux.ServeHTTP(w, r)\n", "	start := time.Now()\n	s.mux.ServeHTTP(w, r)\n	s.Logger.Printf(\"%s took %v\", r.URL.Path, time.Since(start))\n")))
same("mux-handler", P(V, "(s *Server) ServeHTTP", ("	s.mux.ServeHTTP(w, r)\n", "	var h http.Handler = s.mux\n	h.ServeHTTP(w, r)\n")))

bug("long-query", "C46", (V, "	qstr := req.FormValue(\"q\")\n", "	qstr := req.FormValue(\"q\")\n	if len(qstr) > 1024 {\n		http.Error(w, \"query too long\", http.StatusBadRequest)\n		return\n	}\n"))
bug("param-type", "C46", (V, "	var err error\n	ct, _, err = mime.ParseMediaType(ct)\n	return ct, err\n", "	mt, params, err := mime.ParseMediaType(ct)\n	if err == nil && params[\"charset\"] != \"\" && params[\"charset\"] != \"utf-8\" {\n		err = fmt.Errorf(\"unsupported charset\")\n	}\n	return mt, err\n"))
bug("no-post", "C46", (V, "		if req.Method != http.MethodPost && req.Method != http.MethodGet {", "		if req.Method != http.MethodGet {"))
bug("dot-name", "C46", (V, "		if strings.ContainsRune(path, '/') {", "		if strings.ContainsAny(path, \"/.\") {"))
bug("no-criteria", "C46", (Q, "	return q, nil\n", "	if len(q.FieldMeasures) > 64 {\n		return q, fmt.Errorf(\"query: too many fields\")\n	}\n\n	return q, nil\n"))
bug("max-precision", "C46", (C, "(c.Precision < 4 || c.Precision > 18)", "(c.Precision < 4 || c.Precision > 16)"))
bug("no-fields-row", "C46", (V, "		// No fields or values\n		return row, nil\n", "		// No fields or values\n		return row, fmt.Errorf(\"row has no fields\")\n"))
bug("old-row", "C46", (V, "	row.DataTime = time.Unix(", "	if ts == 0 {\n		return row, fmt.Errorf(\"row missing leading timestamp\")\n	}\n	row.DataTime = time.Unix("))
bug("missing-key", "C46", P(T, "(s *Store) Write", ("		// Nothing to do\n		return nil\n", "		return fmt.Errorf(\"missing key\")\n")), (T, '	"context"\n', '	"context"\n	"fmt"\n'))
bug("first-only", "C46 C29", (V, "	http.NotFound(w, req)\n}\n\nfunc (s *Server) ServeHTTP", "	http.NotFound(w, req)\n}\n\nfunc (s *Server) ServeHTTP"), (V, "	for _, store := range s.Stores {\n		if store.Collator.Name() == cname {", "	for _, store := range s.Stores {\n		if len(store.Collator.Name()) > len(cname) {\n			break\n		}\n		if store.Collator.Name() == cname {"))
bug("other-place", "C46", (V, '	s.mux.HandleFunc("/obs", ', '	s.mux.HandleFunc("/obs/", '))
bug("strip-name", "C46 C29", (V, 'http.StripPrefix("/collation/", ', 'http.StripPrefix("/collation", '))
bug("unserved", "C46", P(V, "(s *Server) ServeHTTP", ("	s.mux.ServeHTTP(w, r)\n", "	if r.ContentLength > 1<<20 {\n		return\n	}\n	s.mux.ServeHTTP(w, r)\n")))
bug("lower-name", "C29", (V, "		path := req.URL.Path\n", "		path := strings.ToLower(req.URL.Path)\n"))
bug("raw-path", "C29", (V, "		path := req.URL.Path\n", "		path := req.URL.EscapedPath()\n"))
bug("row-limit", "C46", P(V, "parseRow(data", ("	row := collation.Row{}\n", "	row := collation.Row{}\n	if len(data) > 4096 {\n		return row, fmt.Errorf(\"row too long\")\n	}\n")))

D = src(V)[src(V).index('	if s.Addr == "" {\n'):src(V).index("	if s.Logger == nil {")]
same("defaults-helper", (V, D, "	s.Addr = or(s.Addr, defaultAddr)\n	s.Net = or(s.Net, defaultNet)\n\n"), (V, "// Serve starts", "const (\n	defaultAddr = \":2525\"\n	defaultNet  = \"tcp\"\n)\n\nfunc or(v, d string) string {\n	if len(v) > 0 {\n		return v\n	}\n	return d\n}\n\n// Serve starts"))
same("defaults-local", (V, D, "	network, addr := s.Net, s.Addr\n	if network == \"\" {\n		network = \"tcp\"\n	}\n	if addr == \"\" {\n		addr = \":2525\"\n	}\n\n"), (V, "net.Listen(s.Net, s.Addr)", "net.Listen(network, addr)"))
same("defaults-method", (V, D, "	s.defaults()\n"), (V, "	if s.Logger == nil {\n		s.Logger = log.New(os.Stderr, \"\", log.LstdFlags)\n	}\n", ""), (V, "// Serve starts", "func (s *Server) defaults() {\n" + D + "	if s.Logger == nil {\n		s.Logger = log.New(os.Stderr, \"\", log.LstdFlags)\n	}\n}\n\n// Serve starts"))
same("listen-method", (V, "	listener, err := net.Listen(s.Net, s.Addr)\n	if err != nil {\n		return fmt.Errorf(\"fatal error listening on %s: %v\", s.Addr, err)\n	}\n	s.Logger.Printf(\"listening on %s\", s.Addr)\n", "	listener, err := s.listen()\n	if err != nil {\n		return err\n	}\n"),
     (V, "// Serve starts", "func (s *Server) listen() (net.Listener, error) {\n	listener, err := net.Listen(s.Net, s.Addr)\n	if err != nil {\n		return nil, fmt.Errorf(\"fatal error listening on %s: %v\", s.Addr, err)\n	}\n	s.Logger.Printf(\"listening on %s\", s.Addr)\n	return listener, nil\n}\n\n// Serve starts"))
bug("listen-net", "C28", (V, "net.Listen(s.Net, s.Addr)", "net.Listen(\"tcp\", s.Addr)"))
bug("listen-any", "C28", (V, "	if s.Addr == \"\" {\n		s.Addr = \":2525\"\n	}\n\n", ""))
bug("listen-default", "C28", (V, "	if s.Addr == \"\" {\n		s.Addr = \":2525\"\n	}\n", "	if s.Addr == \"\" {\n		s.Addr = \":http\"\n	}\n"))
