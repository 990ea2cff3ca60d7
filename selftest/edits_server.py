EDITS = []
V = "internal/server/server.go"
T = "internal/storage/storage.go"
def e(name, kind, props, *eds, **kw):
    EDITS.append(dict(name="server-" + name, kind=kind, props=props, edits=[x if len(x) == 3 else (V,) + x for x in eds], **kw))

OBS = '''	s.mux.HandleFunc("/obs", func(w http.ResponseWriter, req *http.Request) {
		if req.Method == http.MethodPost {
			baseCtx := req.Context()
			s.recvObservation(baseCtx, w, req)
			return
		}
		http.Error(w, "method not allowed", http.StatusMethodNotAllowed)
	})
'''
OBSF = '''func (s *Server) handleObs(w http.ResponseWriter, req *http.Request) {
	if req.Method != http.MethodPost {
		http.Error(w, "method not allowed", http.StatusMethodNotAllowed)
		return
	}
	s.recvObservation(req.Context(), w, req)
}

'''
END = "func contentType(req *http.Request) (string, error) {"
STORES = '''		for _, st := range s.Stores {
			if err := st.Write(ctx, row); err != nil {
				http.Error(w, err.Error(), http.StatusInternalServerError)
				return
			}
		}
'''
SEL = '''		select {
		case <-ctx.Done():
			http.Error(w, ctx.Err().Error(), http.StatusServiceUnavailable)
			return
		default:
		}
'''
SCERR = '''	if sc.Err() != nil {
		http.Error(w, sc.Err().Error(), http.StatusInternalServerError)
		return
	}
'''
PARSE = '''		row, err := parseRow(sc.Bytes())
		if err != nil {
			http.Error(w, err.Error(), http.StatusInternalServerError)
			return
		}
'''
BODY = SEL + "\n" + PARSE + "\n		row.ReceiveTime = now\n" + STORES
SERVE = '''	// Disable caching of responses.
	w.Header().Set("Cache-control", "no-cache")

	s.mux.ServeHTTP(w, r)
'''
e("method-value", "same", [], (OBS, '	s.mux.HandleFunc("/obs", s.handleObs)\n'), (END, OBSF + END))
e("handler-func", "same", [], (OBS, '	s.mux.Handle("/obs", http.HandlerFunc(s.handleObs))\n'), (END, OBSF + END))
e("middleware", "same", [], (OBS, '	s.mux.Handle("/obs", only(http.MethodPost, func(w http.ResponseWriter, req *http.Request) {\n		s.recvObservation(req.Context(), w, req)\n	}))\n'),
  (END, '''func only(m string, h http.HandlerFunc) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		if req.Method != m {
			http.Error(w, "method not allowed", http.StatusMethodNotAllowed)
			return
		}
		h(w, req)
	})
}

''' + END))
e("nocache-wrapper", "same", [], ("		Handler: s,\n", "		Handler: noCache(s.mux),\n"), (END, '''func noCache(h http.Handler) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Cache-Control", "no-cache")
		h.ServeHTTP(w, r)
	})
}

''' + END))
e("register-helper", "same", [], (OBS, OBS.replace('s.mux.HandleFunc("/obs", ', 's.handle("/obs", ')), (END, "func (s *Server) handle(p string, h http.HandlerFunc) {\n	s.mux.Handle(p, h)\n}\n\n" + END))
e("switch-method", "same", [], (OBS, '''	s.mux.HandleFunc("/obs", func(w http.ResponseWriter, req *http.Request) {
		switch req.Method {
		case http.MethodPost:
			s.recvObservation(req.Context(), w, req)
		default:
			http.Error(w, "method not allowed", http.StatusMethodNotAllowed)
		}
	})
'''))
e("scan-break", "same", [], ("	for sc.Scan() {\n", "	for {\n		if !sc.Scan() {\n			break\n		}\n"))
e("index-stores", "same", [], (STORES, STORES.replace("_, st := range", "i := range").replace("st.Write", "s.Stores[i].Write")))
e("index-stores2", "same", [], (STORES, STORES.replace("_, st := range s.Stores", "i := 0; i < len(s.Stores); i++").replace("st.Write", "s.Stores[i].Write")))
e("ptr-stores", "same", [], (STORES, STORES.replace("_, st := range s.Stores {", "i := range s.Stores {\n			st := &s.Stores[i]")))
e("write-all", "same", [], (STORES, '''		if err := s.writeAll(ctx, row); err != nil {
			http.Error(w, err.Error(), http.StatusInternalServerError)
			return
		}
'''), (END, '''func (s *Server) writeAll(ctx context.Context, row collation.Row) error {
	for _, st := range s.Stores {
		if err := st.Write(ctx, row); err != nil {
			return err
		}
	}
	return nil
}

''' + END))
e("recv-line", "same", [], (BODY, '''		if code, err := s.recvLine(ctx, sc.Bytes(), now); err != nil {
			http.Error(w, err.Error(), code)
			return
		}
'''), (END, '''func (s *Server) recvLine(ctx context.Context, line []byte, now time.Time) (int, error) {
	select {
	case <-ctx.Done():
		return http.StatusServiceUnavailable, ctx.Err()
	default:
	}
	row, err := parseRow(line)
	if err != nil {
		return http.StatusInternalServerError, err
	}
	row.ReceiveTime = now
	for _, st := range s.Stores {
		if err := st.Write(ctx, row); err != nil {
			return http.StatusInternalServerError, err
		}
	}
	return http.StatusOK, nil
}

''' + END))
e("ctx-err", "same", [], (SEL, '''		if err := ctx.Err(); err != nil {
			http.Error(w, err.Error(), http.StatusServiceUnavailable)
			return
		}
'''))
e("hoist-done", "same", [], ("	for sc.Scan() {\n", "	done := ctx.Done()\n	for sc.Scan() {\n"), ("		case <-ctx.Done():\n", "		case <-done:\n"))
e("cancelled-helper", "same", [], (SEL, '''		if cancelled(ctx) {
			http.Error(w, ctx.Err().Error(), http.StatusServiceUnavailable)
			return
		}
'''), (END, '''func cancelled(ctx context.Context) bool {
	select {
	case <-ctx.Done():
		return true
	default:
		return false
	}
}

''' + END))
e("fail-helper", "same", [], (PARSE, PARSE.replace("http.Error(w, err.Error(), http.StatusInternalServerError)", "fail(w, err)")), (STORES, STORES.replace("http.Error(w, err.Error(), http.StatusInternalServerError)", "fail(w, err)")),
  (END, 'func fail(w http.ResponseWriter, err error) {\n	http.Error(w, err.Error(), http.StatusInternalServerError)\n}\n\n' + END))
e("scerr-var", "same", [], (SCERR, '''	err = sc.Err()
	if err != nil {
		http.Error(w, err.Error(), http.StatusInternalServerError)
	}
'''))
e("scan-text", "same", [], ("parseRow(sc.Bytes())", "parseRow([]byte(sc.Text()))"))
e("wrap-err", "same", [], (PARSE, PARSE.replace("err.Error()", 'fmt.Sprintf("bad row: %v", err)')))
e("source-func", "same", [], ("	now := time.Now()\n	sc := bufio.NewScanner(r)\n", "	now := time.Now()\n	sc := newScanner(r)\n"), (END, "func newScanner(r io.Reader) *bufio.Scanner {\n	sc := bufio.NewScanner(r)\n	sc.Buffer(make([]byte, 0, 4096), bufio.MaxScanTokenSize)\n	return sc\n}\n\n" + END))
e("header-const", "same", [], (SERVE, SERVE.replace('w.Header().Set("Cache-control", "no-cache")', 'h := w.Header()\n	h.Set(cacheHeader, "no-cache")')), (END, 'const cacheHeader = "Cache-Control"\n\n' + END))
e("local-stores", "same", [], ("	now := time.Now()\n", "	stores := s.Stores\n	now := time.Now()\n"), (STORES, STORES.replace("range s.Stores", "range stores")))
e("log-errors", "same", [], (PARSE, PARSE.replace("		if err != nil {\n", '		if err != nil {\n			s.Logger.Printf("bad row: %v", err)\n')))
e("max-bytes", "same", [], ("		r = req.Body\n", "		r = http.MaxBytesReader(w, req.Body, 1<<30)\n"))
e("media-if", "same", [], ('''	case "text/plain", "application/octet-stream":
		r = req.Body
''', '''	case "text/plain":
		r = req.Body
		defer req.Body.Close()
	case "application/octet-stream":
		r = req.Body
'''))
e("serve-root", "same", [], ("		errs <- hs.Serve(listener)", "		err := hs.Serve(listener)\n		errs <- err"))
e("timeout-ctx", "same", [], ("			baseCtx := req.Context()\n			s.recvObservation(baseCtx, w, req)\n", "			ctx, cancel := context.WithTimeout(req.Context(), time.Minute)\n			defer cancel()\n			s.recvObservation(ctx, w, req)\n"))
e("obs-flag", "same", [], (OBS, OBS.replace("if req.Method == http.MethodPost {", "post := req.Method == http.MethodPost\n		if post {")))

# C09
e("ignore-write", "bug", ["C09"], (STORES, "		for _, st := range s.Stores {\n			st.Write(ctx, row)\n		}\n"))
e("log-write", "bug", ["C09"], (STORES, STORES.replace("http.Error(w, err.Error(), http.StatusInternalServerError)\n				return", 's.Logger.Printf("%v", err)')))
e("return-write", "bug", ["C09"], (STORES, STORES.replace("				http.Error(w, err.Error(), http.StatusInternalServerError)\n", "")))
e("continue-write", "bug", ["C09"], (STORES, STORES.replace("				return\n", "				continue\n")))
e("last-err", "bug", ["C09"], (STORES, '''		var werr error
		for _, st := range s.Stores {
			werr = st.Write(ctx, row)
		}
		if werr != nil {
			http.Error(w, werr.Error(), http.StatusInternalServerError)
			return
		}
'''))
e("skip-bad", "bug", ["C09"], (PARSE, PARSE.replace("			http.Error(w, err.Error(), http.StatusInternalServerError)\n			return\n", "			continue\n")))
e("skip-comment", "bug", ["C09"], (PARSE, "		if len(sc.Bytes()) > 0 && sc.Bytes()[0] == '#' {\n			continue\n		}\n" + PARSE))
e("no-scerr", "bug", ["C09"], (SCERR, ""))
e("scerr-status", "bug", ["C09"], (SCERR, SCERR.replace("		http.Error(w, sc.Err().Error(), http.StatusInternalServerError)\n", "		s.Logger.Printf(\"%v\", sc.Err())\n")))
e("status-200", "bug", ["C09"], (STORES, STORES.replace("http.StatusInternalServerError", "http.StatusAccepted")))
e("first-store", "bug", ["C09"], (STORES, STORES.replace("				return\n			}\n", "				return\n			}\n			break\n")))
e("skip-store", "bug", ["C09"], (STORES, STORES.replace("range s.Stores", "range s.Stores[1:]")))
e("some-stores", "bug", ["C09"], (STORES, STORES.replace("			if err := st", "			if len(row.Data) < st.Collator.Size() {\n				continue\n			}\n			if err := st")))
e("limit", "bug", ["C09"], ("		r = req.Body\n", "		r = io.LimitReader(req.Body, 1<<20)\n"))
e("ack-first", "bug", ["C09"], ("	now := time.Now()\n", "	now := time.Now()\n	w.WriteHeader(http.StatusOK)\n"))
e("cancel-ok", "bug", ["C32"], (T, "		return ctx.Err()\n", "		return nil\n"))
e("cancel-silent", "bug", ["C09"], (SEL, SEL.replace("			http.Error(w, ctx.Err().Error(), http.StatusServiceUnavailable)\n", "")))
e("goroutine", "bug", ["C09"], (STORES, "		for _, st := range s.Stores {\n			st := st\n			go st.Write(ctx, row)\n		}\n"))
e("stale-row", "bug", ["C09"], ("	for sc.Scan() {\n", "	var prev collation.Row\n	for sc.Scan() {\n"), ("		row.ReceiveTime = now\n", "		row.ReceiveTime = now\n		row, prev = prev, row\n"))
e("words", "bug", ["C09"], ("	sc := bufio.NewScanner(r)\n", "	sc := bufio.NewScanner(r)\n	sc.Split(bufio.ScanWords)\n"))
e("form-err", "bug", ["C09"], ('''		if err := req.ParseForm(); err != nil {
			http.Error(w, err.Error(), http.StatusBadRequest)
			return
		}
''', ""))
e("one-line", "bug", ["C09"], ("	for sc.Scan() {\n", "	for n := 0; n < 10000 && sc.Scan(); n++ {\n"))
e("ts-err", "bug", ["C09", "C10"], ("	if err != nil {\n		return row, err\n	}\n\n	row.DataTime", "	if err != nil {\n		ts = 0\n	}\n\n	row.DataTime"))

# C11
e("obs-get", "bug", ["C11"], ("if req.Method == http.MethodPost {", 'if req.Method == http.MethodPost || req.Method == "PUT" {'))
e("obs-any", "bug", ["C11"], (OBS, OBS.replace('''		if req.Method == http.MethodPost {
			baseCtx := req.Context()
			s.recvObservation(baseCtx, w, req)
			return
		}
		http.Error(w, "method not allowed", http.StatusMethodNotAllowed)
''', "		s.recvObservation(req.Context(), w, req)\n")))
e("obs-not-get", "bug", ["C11"], ("if req.Method == http.MethodPost {", "if req.Method != http.MethodGet {"))
e("obs-status", "bug", ["C11"], ('		http.Error(w, "method not allowed", http.StatusMethodNotAllowed)\n	})', '		http.Error(w, "method not allowed", http.StatusOK)\n	})'))
e("query-head", "bug", ["C11"], ("req.Method != http.MethodPost && req.Method != http.MethodGet {", "req.Method != http.MethodPost && req.Method != http.MethodGet && req.Method != http.MethodHead {"))
e("query-fallthrough", "bug", ["C11"], ('''			http.Error(w, "method not allowed", http.StatusMethodNotAllowed)
			return
''', '''			http.Error(w, "method not allowed", http.StatusMethodNotAllowed)
'''))
e("media-default", "bug", ["C11"], ('''	default:
		http.Error(w, "unknown media type", http.StatusUnsupportedMediaType)
		return
	}''', "	default:\n		r = req.Body\n	}"))
e("media-return", "bug", ["C11", "C09"], ('		http.Error(w, "unknown media type", http.StatusUnsupportedMediaType)\n		return\n', '		http.Error(w, "unknown media type", http.StatusUnsupportedMediaType)\n		r = req.Body\n'))
e("media-extra", "bug", ["C11"], ('case "text/plain", "application/octet-stream":', 'case "text/plain", "application/octet-stream", "application/json":'))
e("media-err", "bug", ["C11", "C10"], ("	ct, _, err = mime.ParseMediaType(ct)\n	return ct, err\n", "	ct, _, err = mime.ParseMediaType(ct)\n	if err != nil {\n		return \"text/plain\", nil\n	}\n	return ct, err\n"))
e("cache-late", "bug", ["C11"], (SERVE, '''	s.mux.ServeHTTP(w, r)

	// Disable caching of responses.
	w.Header().Set("Cache-control", "no-cache")
'''))
e("cache-get", "bug", ["C11"], (SERVE, SERVE.replace('	w.Header().Set("Cache-control", "no-cache")\n', '	if r.Method == http.MethodGet {\n		w.Header().Set("Cache-control", "no-cache")\n	}\n')))
e("cache-value", "bug", ["C11"], (SERVE, SERVE.replace('"no-cache")', '"private")')))
e("cache-mux", "bug", ["C11"], ("		Handler: s,\n", "		Handler: s.mux,\n"))
e("cache-reset", "bug", ["C11"], ("			for _, c := range q.Criteria {\n", '			w.Header().Set("Cache-Control", "max-age=5")\n			for _, c := range q.Criteria {\n'))
e("write-after", "bug", ["C11"], ("			if err != nil {\n				http.Error(w, err.Error(), http.StatusInternalServerError)\n				return\n			}\n\n			for _, c", "			if err != nil {\n				http.Error(w, err.Error(), http.StatusInternalServerError)\n			}\n\n			for _, c"))
e("notfound-twice", "bug", ["C11"], ("				w.Write([]byte{'\\n'})\n			}\n			return\n", "				w.Write([]byte{'\\n'})\n			}\n			if len(res.FieldMeasureValues) == 0 {\n				http.NotFound(w, req)\n				break\n			}\n			return\n"))
e("query-notfound-write", "bug", ["C11"], ("	http.NotFound(w, req)\n}", "	http.NotFound(w, req)\n	fmt.Fprintf(w, \"unknown collation %s\", cname)\n}"))

# C32
e("cancel-once", "bug", ["C32"], (SEL, ""), ("	for sc.Scan() {\n", SEL.replace("\n	", "\n")[1:] + "	for sc.Scan() {\n"))
e("cancel-none", "bug", ["C32"], (SEL, ""))
e("background", "bug", ["C32"], ("st.Write(ctx, row)", "st.Write(context.Background(), row)"))
e("background2", "bug", ["C32"], ("			baseCtx := req.Context()\n			s.recv", "			baseCtx := context.Background()\n			s.recv"))
e("store-uncheck", "bug", ["C32"], (T, '''	select {
	case <-ctx.Done():
		return ctx.Err()
	default:
	}

	return s.B''', "	return s.B"))
e("store-late", "bug", ["C32"], (T, '''	select {
	case <-ctx.Done():
		return ctx.Err()
	default:
	}

	return s.Backend.Update(key, t.Do)
''', '''	err := s.Backend.Update(key, t.Do)
	select {
	case <-ctx.Done():
		return ctx.Err()
	default:
	}
	return err
'''))
e("cancel-continue", "bug", ["C32", "C09"], (SEL, SEL.replace("			http.Error(w, ctx.Err().Error(), http.StatusServiceUnavailable)\n			return\n", '			s.Logger.Printf("cancelled")\n')))
e("cancel-sometimes", "bug", ["C32"], ("	for sc.Scan() {\n", "	n := 0\n	for sc.Scan() {\n		n++\n"), (SEL, "		if n%64 == 0 {\n" + SEL + "		}\n"))
