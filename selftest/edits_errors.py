EDITS = []
V = "internal/server/server.go"
T = "internal/storage/storage.go"
C = "internal/collation/compile.go"
M = "internal/collation/measure.go"
R = "internal/query/rough.go"
L = "internal/summary/bloom/bloom.go"
H = "internal/summary/hll/hll.go"
def e(name, kind, props, *eds, **kw):
    EDITS.append(dict(name="err-" + name, kind=kind, props=props, edits=[x if len(x) == 3 else (V,) + x for x in eds], **kw))
UPD = "	return s.Backend.Update(key, t.Do)\n"
e("named", "same", [], (T, UPD, "	err := s.Backend.Update(key, t.Do)\n	if err != nil {\n		return err\n	}\n	return nil\n"))
e("wrap", "same", [], (T, UPD, '	if err := s.Backend.Update(key, t.Do); err != nil {\n		return fmt.Errorf("update: %v", err)\n	}\n	return nil\n'), (T, 'import (\n', 'import (\n	"fmt"\n'))
e("collect", "same", [], ("		for _, st := range s.Stores {\n			if err := st.Write(ctx, row); err != nil {\n				http.Error(w, err.Error(), http.StatusInternalServerError)\n				return\n			}\n		}\n", '''		for _, st := range s.Stores {
			err = st.Write(ctx, row)
			if err != nil {
				break
			}
		}
		if err != nil {
			http.Error(w, err.Error(), http.StatusInternalServerError)
			return
		}
'''))
e("drop-update", "bug", ["C10"], (T, UPD, "	s.Backend.Update(key, t.Do)\n	return nil\n"))
e("do-nil", "bug", ["C10"], (T, "	return t.Fn(t.Row, data, init)\n", "	if err := t.Fn(t.Row, data, init); err != nil && init {\n		return err\n	}\n	return nil\n"))
e("listen", "bug", ["C10"], ('	if err != nil {\n		return fmt.Errorf("fatal error listening on %s: %v", s.Addr, err)\n	}\n', '	if err != nil {\n		s.Logger.Printf("error listening on %s: %v", s.Addr, err)\n		return nil\n	}\n'))
e("serve-log", "bug", ["C10"], ("		errs <- hs.Serve(listener)\n", '		if err := hs.Serve(listener); err != nil {\n			s.Logger.Printf("%v", err)\n		}\n'))
e("serve-go", "bug", ["C10"], ("	go func() {\n		errs <- hs.Serve(listener)\n	}()\n", "	go hs.Serve(listener)\n"))
e("register", "bug", ["C10"], ('	if err := s.registerHandlers(); err != nil {\n		return fmt.Errorf("fatal error registering handlers: %v", err)\n	}\n', '	s.registerHandlers()\n'), ("	s.mux = http.NewServeMux()\n", "	s.mux = http.NewServeMux()\n	if len(s.Stores) == 0 {\n		return fmt.Errorf(\"no stores\")\n	}\n"))
e("demo", "bug", ["C10"], ("demo.go", '	if err != nil {\n		return err\n	}\n\n	return addDemo', '	if err != nil {\n		return nil\n	}\n\n	return addDemo'))
e("main", "bug", ["C10"], ("starbow.go", "	if err := s.Serve(); err != nil {\n		log.Fatal(err.Error())\n	}\n", "	if err := s.Serve(); err != nil {\n		log.Print(err.Error())\n	}\n"))
e("main-exit0", "bug", ["C10"], ("starbow.go", "	if err := s.Serve(); err != nil {\n		log.Fatal(err.Error())\n	}\n", "	if err := s.Serve(); err != nil {\n		log.Print(err.Error())\n		os.Exit(0)\n	}\n"), ("starbow.go", '	"log"\n', '	"log"\n	"os"\n'))
e("query", "bug", ["C10"], ("	q, err := query.RoughParse(qstr)\n	if err != nil {\n		http.Error(w, err.Error(), http.StatusBadRequest)\n		return\n	}\n", "	q, _ := query.RoughParse(qstr)\n"))
e("read", "bug", ["C10"], ("			res, err := store.Read(ctx, q)\n			if err != nil {\n				http.Error(w, err.Error(), http.StatusInternalServerError)\n				return\n			}\n", "			res, err := store.Read(ctx, q)\n			if err != nil {\n				return\n			}\n"))
e("read-shadow", "bug", ["C10"], (T, "	return s.Collator.Read(q.FieldMeasures, buf)\n", "	res, err := s.Collator.Read(q.FieldMeasures, buf)\n	if err != nil {\n		return collation.Result{}, nil\n	}\n	return res, nil\n"))
S = "internal/collation/schema.go"
B = "internal/bitbucket/bitbucket.go"
e("parse-float", "bug", ["C10"], (S, "			if err != nil {\n				return err\n			}\n			for _, w := range ws {\n				if err := w.UpdateFloat64", "			if err != nil {\n				continue\n			}\n			for _, w := range ws {\n				if err := w.UpdateFloat64"))
e("parse-float0", "bug", ["C10"], (S, "			v, err := strconv.ParseFloat(string(fv.V), 64)\n			if err != nil {\n				return err\n			}\n", "			v, _ := strconv.ParseFloat(string(fv.V), 64)\n"))
e("item", "bug", ["C10"], (S, "				if err := w.UpdateItem(buf, init, fv.V); err != nil {\n					return err\n				}\n", "				w.UpdateItem(buf, init, fv.V)\n"))
e("item-last", "bug", ["C10"], (S, "		if ws, exists := c.discWriters[string(fv.F)]; exists {\n			for _, w := range ws {\n				if err := w.UpdateItem(buf, init, fv.V); err != nil {\n					return err\n				}\n			}\n		}\n", "		if ws, exists := c.discWriters[string(fv.F)]; exists {\n			var err error\n			for _, w := range ws {\n				err = w.UpdateItem(buf, init, fv.V)\n			}\n			if err != nil {\n				return err\n			}\n		}\n"))
e("item-first", "same", [], (S, "		if ws, exists := c.discWriters[string(fv.F)]; exists {\n			for _, w := range ws {\n				if err := w.UpdateItem(buf, init, fv.V); err != nil {\n					return err\n				}\n			}\n		}\n", "		if ws, exists := c.discWriters[string(fv.F)]; exists {\n			var err error\n			for _, w := range ws {\n				if e := w.UpdateItem(buf, init, fv.V); e != nil && err == nil {\n					err = e\n				}\n			}\n			if err != nil {\n				return err\n			}\n		}\n"))
e("reader", "bug", ["C10"], (S, "					v, err := r.ReadFloat64(buf)\n					if err != nil {\n						return res, err\n					}\n", "					v, err := r.ReadFloat64(buf)\n					if err != nil {\n						continue\n					}\n"))
e("inits", "bug", ["C10"], (S, "			if err := in.Init(buf); err != nil {\n				return err\n			}\n", "			if err := in.Init(buf); err != nil {\n				break\n			}\n"))
e("card-init", "bug", ["C10"], (M, "	copy(buf, b.Bytes())\n	return err\n", "	copy(buf, b.Bytes())\n	_ = err\n	return nil\n"))
e("card-with", "bug", ["C10"], (M, "		s, err := hll.WithBytes(buf)\n		if err != nil {\n			return err\n		}\n		s.Add(v)\n		return nil\n", "		s, err := hll.WithBytes(buf)\n		if err == nil {\n			s.Add(v)\n		}\n		return nil\n"))
e("card-with-inv", "same", [], (M, "		s, err := hll.WithBytes(buf)\n		if err != nil {\n			return err\n		}\n		s.Add(v)\n		return nil\n", "		s, err := hll.WithBytes(buf)\n		if err == nil {\n			s.Add(v)\n		}\n		return err\n"))
e("validate", "bug", ["C10"], (C, "			if err := validateMeasure(m); err != nil {\n				return Collator{}, fmt.Errorf(\"field %q: %v\", ms.Field.Pattern, err)\n			}\n", "			if err := validateMeasure(m); err != nil {\n				continue\n			}\n"))
e("bb-write", "bug", ["C10"], (B, "	n, err := w.Write(buf[:])\n	if err != nil {\n		return int64(n), err\n	}\n\n	n0, err := w.Write(b.data)\n", "	n, _ := w.Write(buf[:])\n	n0, err := w.Write(b.data)\n"))
e("bb-write2", "bug", ["C10"], (B, "	n += n0\n	if err != nil {\n		return int64(n), err\n	}\n\n	return int64(n), nil\n", "	n += n0\n	if n0 < len(b.data) {\n		return int64(n), err\n	}\n\n	return int64(n), nil\n"))
e("bb-write-tail", "same", [], (B, "	n += n0\n	if err != nil {\n		return int64(n), err\n	}\n\n	return int64(n), nil\n", "	n += n0\n	return int64(n), err\n"))
e("hll-with", "bug", ["C10"], (H, "	bits, err := bitbucket.WithBytes(buf[2:])\n	if err != nil {\n		return Counter{}, err\n	}\n", "	bits, _ := bitbucket.WithBytes(buf[2:])\n"))
e("hll-read", "bug", ["C10"], (H, "	if err != io.EOF {\n		return int64(n), err\n	}\n\n	c.p = p", "	c.p = p"))
e("row-ts", "bug", ["C10"], ("	if err != nil {\n		return row, err\n	}\n\n	row.DataTime", "	if err != nil {\n		ts = 0\n	}\n\n	row.DataTime"))
e("media", "bug", ["C10"], ("	ct, _, err = mime.ParseMediaType(ct)\n	return ct, err\n", "	mt, _, err := mime.ParseMediaType(ct)\n	if err != nil {\n		mt = ct\n	}\n	return mt, nil\n"))
