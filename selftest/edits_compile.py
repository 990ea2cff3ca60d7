EDITS = []
C = "internal/collation/compile.go"
S = "internal/collation/schema.go"
M = "internal/collation/measure.go"
T = "internal/storage/storage.go"
V = "internal/server/server.go"
D = "demo.go"
def e(name, kind, props, *eds, **kw):
    EDITS.append(dict(name="comp-" + name, kind=kind, props=props.split(), edits=[x if len(x) == 3 else (C,) + x for x in eds], **kw))
def same(name, *eds, **kw): e(name, "same", "", *eds, **kw)
def bug(name, props, *eds, **kw): e(name, "bug", props, *eds, **kw)
src = open("/repo/" + C).read()
def cut(a, b, s=src):
    i = s.index(a); return s[i:s.index(b, i)]

# ---- Compile: refactorings
ROWC = cut("		if cm, ok := m.(ContinuousOutput); ok {\n			crs, found := coll.contReaders[RowPseudoField]", "		if cm, ok := m.(DiscreteOutput)")
ROWD = cut("		if cm, ok := m.(DiscreteOutput); ok {\n			crs, found := coll.discReaders[RowPseudoField]", "		pos += size\n		coll.size += size\n\n")
i = src.index("stat64Hi = pos + size")
CC = cut("				if cm, ok := m.(ContinuousOutput); ok {", "				if cm, ok := m.(DiscreteOutput)", src[i:])
CD = cut("				if cm, ok := m.(DiscreteOutput); ok {", "				pos += size", src[i:])
j = src.index("if dm, ok := m.(DiscreteInput)")
DC = cut("				if cm, ok := m.(ContinuousOutput); ok {", "				if cm, ok := m.(DiscreteOutput)", src[j:])
DD = cut("				if cm, ok := m.(DiscreteOutput); ok {", "				pos += size", src[j:])
HELP = '''
// addReaders registers the readers of m.
func (coll *Collator) addReaders(field string, m Measure, low, high int) {
	if cm, ok := m.(ContinuousOutput); ok {
		crs, found := coll.contReaders[field]
		if !found {
			crs = make(map[string]contReader)
			coll.contReaders[field] = crs
		}
		crs[m.Name()] = contReader{Low: low, High: high, Fn: cm.ContReader()}
	}
	if dm, ok := m.(DiscreteOutput); ok {
		if coll.discReaders[field] == nil {
			coll.discReaders[field] = make(map[string]discReader)
		}
		coll.discReaders[field][m.Name()] = discReader{Low: low, High: high, Fn: dm.DiscReader()}
	}
}

// validateMeasure reports'''
VM = "\n// validateMeasure reports"
readers = [(ROWC, "		coll.addReaders(RowPseudoField, m, pos, pos+size)\n"), (ROWD, ""),
     (CC, "				coll.addReaders(ms.Field.Pattern, m, low, hi)\n"), (CD, ""),
     (DC, "				coll.addReaders(ms.Field.Pattern, m, pos, pos+size)\n"), (DD, ""), (VM, HELP)]
same("readers-helper", *readers)
same("readers-closure", (ROWC, "		addReaders(RowPseudoField, m, pos, pos+size)\n"), (ROWD, ""),
     (CC, "				addReaders(ms.Field.Pattern, m, low, hi)\n"), (CD, ""),
     (DC, "				addReaders(ms.Field.Pattern, m, pos, pos+size)\n"), (DD, ""),
     ("	pos := 0\n", '''	addReaders := func(field string, m Measure, low, high int) {
		if cm, ok := m.(ContinuousOutput); ok {
			if _, found := coll.contReaders[field]; !found {
				coll.contReaders[field] = make(map[string]contReader)
			}
			coll.contReaders[field][m.Name()] = contReader{Low: low, High: high, Fn: cm.ContReader()}
		}
		if dm, ok := m.(DiscreteOutput); ok {
			if _, found := coll.discReaders[field]; !found {
				coll.discReaders[field] = make(map[string]discReader)
			}
			coll.discReaders[field][m.Name()] = discReader{Low: low, High: high, Fn: dm.DiscReader()}
		}
	}

	pos := 0
'''))
same("one-cursor", ("pos := 0\n", "coll.size = 0\n"), ("pos+size", "coll.size+size"), ("pos + size", "coll.size + size"), ("low, hi := pos,", "low, hi := coll.size,"), ("Low:  pos", "Low:  coll.size"), ("addInit(m, pos,", "addInit(m, coll.size,"), ("stat64Low = pos", "stat64Low = coll.size"), ("pos += size\n", ""), all=True)
same("size-at-end", ("coll.size += size\n", ""), ("	return coll, nil\n", "	coll.size = pos\n	return coll, nil\n"), all=True)
same("index-loops", ("for _, m := range s.RecordMeasures {\n", "for i := range s.RecordMeasures {\n		m := s.RecordMeasures[i]\n"), ("for _, ms := range s.Measures {\n", "for i := 0; i < len(s.Measures); i++ {\n		ms := s.Measures[i]\n"), ("for _, m := range ms.Measures {\n", "for j := range ms.Measures {\n			m := ms.Measures[j]\n"))
same("ptr-spec", ("for _, ms := range s.Measures {\n", "for i := range s.Measures {\n		ms := &s.Measures[i]\n"))
same("sentinel", ("		stat64 := false\n		stat64Low, stat64Hi := 0, 0\n", "		stat64Low, stat64Hi := -1, -1\n"), ("if stat64 {", "if stat64Low >= 0 {"), ("					stat64 = true\n", ""))
same("struct-range", ("		stat64 := false\n		stat64Low, stat64Hi := 0, 0\n", "		var shared struct {\n			ok      bool\n			low, hi int\n		}\n"), ("if stat64 {", "if shared.ok {"), ("					stat64 = true\n					stat64Low = pos\n					stat64Hi = pos + size\n", "					shared.ok = true\n					shared.low, shared.hi = pos, pos+size\n"), ("low, hi = stat64Low, stat64Hi", "low, hi = shared.low, shared.hi"))
same("field-var", ("		stat64 := false\n", "		field := ms.Field.Pattern\n		stat64 := false\n"), ("[ms.Field.Pattern]", "[field]"), all=True)
same("if-chain", ("				switch m.(type) {\n				case Count, Sum, Mean, Variance:\n					if stat64 {\n						// We already have a stat64 measure, so reuse it for writing\n						low, hi = stat64Low, stat64Hi\n						skipWriter = true\n						break\n					}\n					stat64 = true\n					stat64Low = pos\n					stat64Hi = pos + size\n				}\n",
     "				if isStat64(m) {\n					if stat64 {\n						low, hi = stat64Low, stat64Hi\n						skipWriter = true\n					} else {\n						stat64 = true\n						stat64Low, stat64Hi = low, hi\n					}\n				}\n"), (VM, "\nfunc isStat64(m Measure) bool {\n	switch m.(type) {\n	case Count, Sum, Mean, Variance:\n		return true\n	}\n	return false\n}\n" + VM))
same("init-closure", ("				Fn:   im.Init,", "				Fn:   func(b []byte) error { return im.Init(b) },"))
same("inits-method", ("addInit(m, ", "coll.addInit(m, "), (cut("	// addInit registers", "	pos := 0"), ""), (VM, '''
func (coll *Collator) addInit(m Measure, low, high int) {
	im, ok := m.(Initializer)
	if !ok {
		return
	}
	coll.inits = append(coll.inits, initializer{low, high, im.Init})
}
''' + VM), all=True)
same("append-direct", ("					ws := coll.contWriters[ms.Field.Pattern]\n					ws = append(ws, contWriter{", "					coll.contWriters[ms.Field.Pattern] = append(coll.contWriters[ms.Field.Pattern], contWriter{"), ("					coll.contWriters[ms.Field.Pattern] = ws\n", ""))
same("validate-first", ("	pos := 0\n", "	for _, ms := range s.Measures {\n		for _, m := range ms.Measures {\n			if err := validateMeasure(m); err != nil {\n				return Collator{}, err\n			}\n		}\n	}\n\n	pos := 0\n")) 
VF = ("	pos := 0\n", "	for _, ms := range s.Measures {\n		for _, m := range ms.Measures {\n			if err := validateMeasure(m); err != nil {\n				return Collator{}, err\n			}\n		}\n	}\n\n	pos := 0\n")
VO = ("			if err := validateMeasure(m); err != nil {\n				return Collator{}, fmt.Errorf(\"field %q: %v\", ms.Field.Pattern, err)\n			}\n\n", "")
same("validate-all", VO, VF)
same("validate-all-before", VO, ("		stat64 := false\n", "		for _, m := range ms.Measures {\n			if err := validateMeasure(m); err != nil {\n				return Collator{}, err\n			}\n		}\n		stat64 := false\n"))
same("validate-func", VO, ("	pos := 0\n", "	if err := s.validate(); err != nil {\n		return Collator{}, err\n	}\n\n	pos := 0\n"), ("// validateMeasure reports", "func (s *Schema) validate() error {\n	for _, ms := range s.Measures {\n		for _, m := range ms.Measures {\n			if err := validateMeasure(m); err != nil {\n				return fmt.Errorf(\"field %q: %v\", ms.Field.Pattern, err)\n			}\n		}\n	}\n	return nil\n}\n\n// validateMeasure reports"))
bug("validate-break", "C16", VO, (VF[0], VF[1].replace("				return Collator{}, err\n			}\n", "				return Collator{}, err\n			}\n			break\n")))
bug("validate-first-field", "C16", VO, (VF[0], VF[1].replace("range s.Measures", "range s.Measures[:1]")))
bug("validate-some", "C16", VO, (VF[0], VF[1].replace("if err :=", "if _, ok := m.(DiscreteInput); ok {\n				continue\n			}\n			if err :=")))
same("switch-validate", ("	if c, ok := m.(Cardinality); ok && (c.Precision < 4 || c.Precision > 18) {\n		return", "	switch c := m.(type) {\n	case Cardinality:\n		if c.Precision >= 4 && c.Precision <= 18 {\n			return nil\n		}\n		return"))
same("keys-append", ("		keys:        make([][]byte, len(s.Keys)),\n", ""), ("	for i := range s.Keys {\n		coll.keys[i] = []byte(s.Keys[i].Field.Pattern)\n", "	for _, k := range s.Keys {\n		coll.keys = append(coll.keys, []byte(k.Field.Pattern))\n"))
same("two-funcs", ("	for _, ms := range s.Measures {\n		// Special", "	for _, ms := range s.Measures {\n		_ = pos\n		// Special"))
same("no-capacity", ("make([]anyWriter, 0, len(s.RecordMeasures)+len(s.Measures))", "nil"))
same("locals", ("	return coll, nil\n}\n\n// val", "	res := coll\n	return res, nil\n}\n\n// val"))
# ---- Compile: bugs
bug("swap-range", "C15", ("			Low:  pos,\n			High: pos + size,\n			Fn:   m.RowWriter(),", "			Low:  pos,\n			High: pos + size - 1,\n			Fn:   m.RowWriter(),"))
bug("no-advance", "C15", ("		pos += size\n		coll.size += size\n\n	}", "		coll.size += size\n\n	}"))
bug("no-size-disc", "C15", ("				pos += size\n				coll.size += size\n			}\n\n		}\n", "				pos += size\n			}\n\n		}\n"))
bug("no-size-row", "C15", ("		pos += size\n		coll.size += size\n\n	}", "		pos += size\n	}"))
bug("no-pos-cont", "C15", ("				pos += size\n				coll.size += size\n			}\n\n			if dm", "				coll.size += size\n			}\n\n			if dm"))
bug("advance-only-new", "C15", ("				pos += size\n				coll.size += size\n			}\n\n			if dm", "				if skipWriter {\n					pos += size\n				}\n				coll.size += size\n			}\n\n			if dm"))
same("advance-new-only", ("				pos += size\n				coll.size += size\n			}\n\n			if dm", "				if !skipWriter {\n					pos += size\n					coll.size += size\n				}\n			}\n\n			if dm"))
bug("count-size", "C15", ("			if _, ok := m.(Count); ok {\n				// A count of a field is written as part of a stat64 summary\n				size = Sum{}.Size()\n			}\n", ""))
bug("stat64-outer", "C15", ("	for _, ms := range s.Measures {\n		// Special handling for count, mean, sum, variance - one summary can write them all at once\n		stat64 := false\n		stat64Low, stat64Hi := 0, 0\n", "	stat64 := false\n	stat64Low, stat64Hi := 0, 0\n	for _, ms := range s.Measures {\n"))
bug("stat64-max", "C15", ("case Count, Sum, Mean, Variance:", "case Count, Sum, Mean, Variance, Max:"))
bug("skip-noset", "C15", ("					stat64Low = pos\n", ""))
bug("low-noset", "C15 C29", ("						low, hi = stat64Low, stat64Hi\n", "						_, _ = stat64Low, stat64Hi\n"))
bug("no-init-disc", "C17", ("				addInit(m, pos, pos+size)\n				ws := coll.discWriters", "				ws := coll.discWriters"))
bug("no-init-cont", "C17", ("					addInit(m, low, hi)\n", ""))
bug("init-wrong", "C17", ("				addInit(m, pos, pos+size)\n				ws := coll.discWriters", "				addInit(m, low, low+size)\n				ws := coll.discWriters"), ("				pos += size\n				coll.size += size\n			}\n\n			if dm", "				pos += size\n				coll.size += size\n				low += size\n			}\n			low = low/2\n			if dm"))
bug("reader-field", "C29", ("					coll.contReaders[ms.Field.Pattern] = crs\n				}\n\n				if cm, ok := m.(DiscreteOutput); ok {\n					crs, found := coll.discReaders[ms.Field.Pattern]\n					if !found {\n						crs = make(map[string]discReader)\n					}\n					crs[m.Name()] = discReader{\n						Low:  low", "					coll.contReaders[RowPseudoField] = crs\n				}\n\n				if cm, ok := m.(DiscreteOutput); ok {\n					crs, found := coll.discReaders[ms.Field.Pattern]\n					if !found {\n						crs = make(map[string]discReader)\n					}\n					crs[m.Name()] = discReader{\n						Low:  low"))
bug("reader-lost", "C29", (CC, CC.replace("crs, found := coll.contReaders[ms.Field.Pattern]", "crs, found := coll.contReaders[s.Name]")))
bug("reader-fresh", "C29 C16", (CC, CC.replace("					if !found {\n						crs = make(map[string]contReader)\n					}\n", "					if !found || skipWriter {\n						crs = make(map[string]contReader)\n					}\n")))
bug("reader-range", "C29 C15", (DC, DC.replace("Low:  pos,", "Low:  0,")))
bug("reader-name", "C29", (CC, CC.replace("crs[m.Name()]", "crs[ms.Measures[0].Name()]")))
bug("reader-other", "C29", (CC, CC.replace("Fn:   cm.ContReader()", "Fn:   ms.Measures[0].(ContinuousOutput).ContReader()").replace("if cm, ok :=", "if _, ok :=")))
bug("no-reader-disc", "C29 C16", (DC, ""))
bug("writer-lost", "C16", ("					ws := coll.contWriters[ms.Field.Pattern]\n", "					var ws []contWriter\n"))
bug("writer-field", "C16", ("					coll.contWriters[ms.Field.Pattern] = ws", "					coll.contWriters[s.Measures[0].Field.Pattern] = ws"))
bug("break", "C16", ("				// A count of a field is written as part of a stat64 summary\n", "				if stat64 {\n					break\n				}\n"))
bug("continue", "C16", ("						skipWriter = true\n						break\n", "						continue\n"))
bug("skip-writer-any", "C16", ("			skipWriter := false\n", "			skipWriter := stat64\n"))
bug("rows-last", "C16", ("for _, m := range s.RecordMeasures {\n", "for _, m := range s.RecordMeasures[1:] {\n"))
bug("prec-3", "C16", ("c.Precision < 4 ||", "c.Precision < 3 ||"))
bug("prec-19", "C16", ("c.Precision > 18", "c.Precision > 19"))
bug("prec-and", "C16", ("c.Precision < 4 || c.Precision > 18", "c.Precision < 4 && c.Precision > 18"))
bug("no-able", "C16", ("	if !cont && !disc {\n		return fmt.Errorf(\"measure %q cannot measure a field\", m.Name())\n	}\n", "	_, _ = cont, disc\n"))
bug("row-writer-other", "C16", ("Fn:   m.RowWriter()", "Fn:   s.RecordMeasures[0].RowWriter()"))
bug("key-order", "C16", ("coll.keys[i] = []byte(s.Keys[i].Field.Pattern)", "coll.keys[len(s.Keys)-1-i] = []byte(s.Keys[i].Field.Pattern)"))
bug("key-first", "C16", ("coll.keys[i] = []byte(s.Keys[i].Field.Pattern)", "coll.keys[i] = []byte(s.Keys[0].Field.Pattern)"))
# ---- Update
UP = cut("	if init {\n		// Initialise the state", "	// Update measures that operate on the row", open("/repo/" + S).read())
same("up-helper", (S, UP, "	if init {\n		if err := c.reset(buf); err != nil {\n			return err\n		}\n		init = false\n	}\n\n"), (S, "func (c Collator) Keys()", '''func (c Collator) reset(buf []byte) error {
	for i := 0; i < len(buf); i++ {
		buf[i] = 0
	}
	for i := range c.inits {
		in := &c.inits[i]
		if err := in.Fn(buf[in.Low:in.High]); err != nil {
			return err
		}
	}
	return nil
}

func (c Collator) Keys()'''))
same("up-no-exists", (S, "		if ws, exists := c.contWriters[string(fv.F)]; exists {\n			v, err", "		if ws := c.contWriters[string(fv.F)]; len(ws) > 0 {\n			v, err"))
same("up-range-nil", (S, "		if ws, exists := c.discWriters[string(fv.F)]; exists {\n			for _, w := range ws {\n				if err := w.UpdateItem(buf, init, fv.V); err != nil {\n					return err\n				}\n			}\n		}\n", "		for _, w := range c.discWriters[string(fv.F)] {\n			if err := w.UpdateItem(buf, init, fv.V); err != nil {\n				return err\n			}\n		}\n"))
same("up-false", (S, "w.Update(buf, init)", "w.Update(buf, false)"), (S, "w.UpdateFloat64(buf, init, v)", "w.UpdateFloat64(buf, false, v)"), (S, "w.UpdateItem(buf, init, fv.V)", "w.UpdateItem(buf, false, fv.V)"), (S, "		init = false\n", ""))
same("up-index", (S, "	for _, fv := range r.Data {", "	for i := range r.Data {\n		fv := r.Data[i]"))
same("up-field", (S, "		// Update measures that operate on the field as a continuous value\n		if ws, exists := c.contWriters[string(fv.F)]", "		field := string(fv.F)\n		if ws, exists := c.contWriters[field]"), (S, "c.discWriters[string(fv.F)]", "c.discWriters[field]"))
bug("up-no-zero", "C17", (S, "		for i := range buf {\n			buf[i] = 0\n		}\n", ""))
bug("up-zero-part", "C17", (S, "		for i := range buf {\n			buf[i] = 0\n		}\n", "		for i := range buf[1:] {\n			buf[i] = 0\n		}\n"))
bug("up-init-kept", "C17", (S, "		init = false\n", ""))
bug("up-init-late", "C17", (S, UP, ""), (S, "	return nil\n}\n\n// Note that the byte", UP + "	return nil\n}\n\n// Note that the byte"))
bug("up-init-first-only", "C17", (S, "			if err := in.Init(buf); err != nil {\n				return err\n			}\n", "			if err := in.Init(buf); err != nil {\n				return err\n			}\n			break\n"))
bug("up-init-always", "C17", (S, "	if init {\n		// Initialise", "	if init || len(r.Data) == 0 {\n		// Initialise"))
bug("up-float32", "C16", (S, "strconv.ParseFloat(string(fv.V), 64)", "strconv.ParseFloat(string(fv.V), 32)"))
bug("up-parse-name", "C16", (S, "strconv.ParseFloat(string(fv.V), 64)", "strconv.ParseFloat(string(fv.F), 64)"))
bug("up-first-writer", "C16", (S, "				if err := w.UpdateFloat64(buf, init, v); err != nil {\n					return err\n				}\n", "				return w.UpdateFloat64(buf, init, v)\n"))
bug("up-else", "C16", (S, "		// Update measures that operate on the field as a discrete value\n		if ws, exists := c.discWriters[string(fv.F)]; exists {", "		// Update measures that operate on the field as a discrete value\n		if ws, exists := c.discWriters[string(fv.F)]; exists && c.contWriters[string(fv.F)] == nil {"))
bug("up-empty-value", "C16", (S, "	for _, fv := range r.Data {\n		// Update", "	for _, fv := range r.Data {\n		if len(fv.V) == 0 {\n			continue\n		}\n		// Update"))
bug("up-rows-skip", "C16", (S, "	for _, w := range c.writers {", "	for _, w := range c.writers[:len(c.writers)/2] {"))
bug("up-range", "C15", (S, "	return c.Fn(buf[c.Low:c.High], init, v)", "	return c.Fn(buf[c.Low:], init, v)"))
bug("up-disc-field", "C16", (S, "UpdateItem(buf, init, fv.V)", "UpdateItem(buf, init, fv.F)"))
# ---- Read
RD = cut("	var res Result\n", "	return res, nil\n", open("/repo/" + S).read())
same("rd-ret-empty", (S, "						return res, err\n", "						return Result{}, err\n"), all=True)
same("rd-direct", (S, "		if rs, exists := c.contReaders[field]; exists {\n			for _, measure := range fm.M {\n				if r, exists := rs[string(measure)]; exists {", "		if rs := c.contReaders[field]; rs != nil {\n			for i := range fm.M {\n				measure := fm.M[i]\n				r, exists := rs[string(measure)]\n				if exists {"))
same("rd-local", (S, "	var res Result\n	for _, fm", "	var values []FMV\n	for _, fm"), (S, "						return res, err\n", "						return Result{}, err\n"), (S, "res.FieldMeasureValues = append(res.FieldMeasureValues, FMV{", "values = append(values, FMV{"), (S, "	return res, nil\n", "	return Result{FieldMeasureValues: values}, nil\n"), all=True)
same("rd-nocheck", (S, "		if rs, exists := c.discReaders[field]; exists {\n			for _, measure := range fm.M {\n				if r, exists := rs[string(measure)]; exists {\n					v, err := r.ReadItem(buf)\n					if err != nil {\n						return res, err\n					}\n					res.FieldMeasureValues = append(res.FieldMeasureValues, FMV{\n						F: fm.F,\n						M: measure,\n						V: v,\n					})\n				}\n			}\n		}\n", "		rs := c.discReaders[field]\n		for _, measure := range fm.M {\n			r, exists := rs[string(measure)]\n			if !exists {\n				continue\n			}\n			v, err := r.ReadItem(buf)\n			if err != nil {\n				return res, err\n			}\n			res.FieldMeasureValues = append(res.FieldMeasureValues, FMV{\n				F: fm.F,\n				M: measure,\n				V: v,\n			})\n		}\n"))
bug("rd-label", "C29", (S, "						M: measure,", "						M: fm.M[0],"))
bug("rd-field", "C29", (S, "						F: fm.F,", "						F: fml[0].F,"))
bug("rd-break", "C29", (S, "						V: v,\n					})\n				}", "						V: v,\n					})\n					break\n				}"))
bug("rd-first", "C29", (S, "	for _, fm := range fml {", "	for _, fm := range fml[:1] {"))
bug("rd-else", "C29", (S, "		if rs, exists := c.contReaders[field]; exists {", "		if rs, exists := c.contReaders[field]; exists && len(res.FieldMeasureValues) == 0 {"))
bug("rd-missing-stops", "C29", (S, "				if r, exists := rs[string(measure)]; exists {\n					v, err := r.ReadFloat64", "				if r, exists := rs[string(measure)]; !exists {\n					return res, nil\n				} else {\n					v, err := r.ReadFloat64"))
bug("rd-round", "C29", (S, "						V: v,\n					})\n				}\n			}\n		}\n\n		if rs, exists := c.disc", "						V: float32(v),\n					})\n				}\n			}\n		}\n\n		if rs, exists := c.disc"))
bug("rd-reset", "C29", (S, "		field := string(fm.F)\n", "		field := string(fm.F)\n		if len(fm.M) == 0 {\n			res.FieldMeasureValues = nil\n		}\n"))
bug("rd-wrong-name", "C29", (S, "				if r, exists := rs[string(measure)]; exists {\n					v, err := r.ReadFloat64", "				if r, exists := rs[strings.ToLower(string(measure))]; exists {\n					v, err := r.ReadFloat64"), (S, '	"strconv"\n', '	"strconv"\n	"strings"\n'))
bug("rd-range", "C15 C29", (S, "	return c.Fn(buf[c.Low:c.High])", "	return c.Fn(buf[c.Low:])"))
# ---- measures
same("card-inplace", (M, "	var b bytes.Buffer\n	_, err := s.WriteTo(&b) // TODO: ensure bytes.Buffer does not grow\n	copy(buf, b.Bytes())\n	return err\n", "	_, err := s.WriteTo(bytes.NewBuffer(buf[:0]))\n	return err\n"))
same("card-err", (M, "	_, err := s.WriteTo(&b) // TODO: ensure bytes.Buffer does not grow\n	copy(buf, b.Bytes())\n	return err\n", "	if _, err := s.WriteTo(&b); err != nil {\n		return err\n	}\n	copy(buf, b.Bytes())\n	return nil\n"))
bug("card-prec", "C17", (M, "s := hll.New(uint8(c.Precision))", "s := hll.New(uint8(c.Precision) &^ 1)"))
bug("card-nocopy", "C17", (M, "	copy(buf, b.Bytes())\n	return err\n", "	return err\n"))
bug("card-noinit", "C17", (M, "// Init stores an empty counter.\nfunc (c Cardinality) Init(", "// Init stores an empty counter.\nfunc (c Cardinality) setup("), (M, "c.Init(buf)", "c.setup(buf)"))
bug("card-size", "C15", (M, "return hll.Len(uint8(c.Precision))", "return hll.Len(uint8(c.Precision)) - 2"))
bug("card-linear", "C29", (M, "float64(s.Count())", "float64(s.LinearCount())"))
bug("max-size", "C15", (M, "func (Max) Size() int { return 8 }", "func (Max) Size() int { return 4 }"))
bug("sum-size", "C15", (M, "func (Sum) Size() int { return stat64.Len() }", "func (Sum) Size() int { return 24 }"))
# ---- storage and server
same("st-helper", (T, "	// TODO: reuse buffer\n	buf := make([]byte, s.Collator.Size())\n\n	if !s.Backend.Get(key, buf) {\n		// TODO: report not found?\n		return collation.Result{}, nil\n	}\n\n	return s.Collator.Read(q.FieldMeasures, buf)\n", "	buf, ok := s.get(key)\n	if !ok {\n		return collation.Result{}, nil\n	}\n	res, err := s.Collator.Read(q.FieldMeasures, buf)\n	if err != nil {\n		return collation.Result{}, err\n	}\n	return res, nil\n"), (T, "type Transaction struct", "func (s *Store) get(key uint64) ([]byte, bool) {\n	buf := make([]byte, s.Collator.Size())\n	return buf, s.Backend.Get(key, buf)\n}\n\ntype Transaction struct"))
bug("st-read-anyway", "C29", (T, "	if !s.Backend.Get(key, buf) {\n		// TODO: report not found?\n		return collation.Result{}, nil\n	}\n", "	s.Backend.Get(key, buf)\n"))
bug("st-other-buf", "C29", (T, "	return s.Collator.Read(q.FieldMeasures, buf)", "	return s.Collator.Read(q.FieldMeasures, make([]byte, len(buf)))"))
bug("st-size", "C15", (T, "buf := make([]byte, s.Collator.Size())", "buf := make([]byte, 2*s.Collator.Size())"))
bug("st-swallow", "C29", (T, "	return s.Collator.Read(q.FieldMeasures, buf)", "	res, _ := s.Collator.Read(q.FieldMeasures, buf)\n	return res, nil"))
bug("st-part", "C29", (T, "s.Collator.Read(q.FieldMeasures, buf)", "s.Collator.Read(q.FieldMeasures[:1], buf)"))
bug("stride", "C15", (D, "bufmap.New(5000, coll.Size())", "bufmap.New(5000, 64)"))
bug("stride-align", "C15", (D, "bufmap.New(5000, coll.Size())", "bufmap.New(5000, coll.Size()&^7)"))
same("stride-var", (D, "	store := storage.Store{\n		Backend:  bufmap.New(5000, coll.Size()),\n		Collator: coll,\n	}\n", "	size := coll.Size()\n	var store storage.Store\n	store.Collator = coll\n	store.Backend = bufmap.New(5000, size)\n"))
LOOP = cut("	for _, store := range s.Stores {\n		if store.Collator.Name()", "	http.NotFound(w, req)\n}\n\nfunc (s *Server) ServeHTTP", open("/repo/" + V).read())
BODY = cut("			res, err := store.Read", "			return\n		}\n	}", LOOP[LOOP.index("store.Collator.Name()"):])
same("q-find", (V, LOOP, "	store, ok := s.find(cname)\n	if ok {\n" + BODY + "			return\n	}\n\n"), (V, "func (s *Server) ServeHTTP", "func (s *Server) find(name string) (storage.Store, bool) {\n	for _, st := range s.Stores {\n		if st.Collator.Name() == name {\n			return st, true\n		}\n	}\n	return storage.Store{}, false\n}\n\nfunc (s *Server) ServeHTTP"))
same("q-findptr", (V, LOOP, "	store := s.find(cname)\n	if store == nil {\n		http.NotFound(w, req)\n		return\n	}\n" + BODY + "	return\n}\n\nfunc (s *Server) find(name string) *storage.Store {\n	for i := range s.Stores {\n		if s.Stores[i].Collator.Name() == name {\n			return &s.Stores[i]\n		}\n	}\n	return nil\n}\n\nfunc notFound(w http.ResponseWriter, req *http.Request) {\n"))
same("q-continue", (V, "		if store.Collator.Name() == cname {\n", "		if store.Collator.Name() != cname {\n			continue\n		}\n		{\n"))
same("q-fprintln", (V, "				w.Write([]byte(f.String()))\n				w.Write([]byte{'\\n'})\n", "				fmt.Fprintln(w, f)\n"))
same("q-iowrite", (V, "				w.Write([]byte(f.String()))\n				w.Write([]byte{'\\n'})\n", "				io.WriteString(w, f.String()+\"\\n\")\n"))
same("q-buffer", (V, "			for _, f := range res.FieldMeasureValues {\n				w.Write([]byte(f.String()))\n				w.Write([]byte{'\\n'})\n			}\n", "			var b bytes.Buffer\n			for _, f := range res.FieldMeasureValues {\n				b.WriteString(f.String())\n				b.WriteByte('\\n')\n			}\n			w.Write(b.Bytes())\n"))
same("q-bufwriter", (V, "			for _, f := range res.FieldMeasureValues {\n				w.Write([]byte(f.String()))\n				w.Write([]byte{'\\n'})\n			}\n", "			var b bytes.Buffer\n			for i := range res.FieldMeasureValues {\n				fmt.Fprintf(&b, \"%s\\n\", res.FieldMeasureValues[i].String())\n			}\n			b.WriteTo(w)\n"))
same("q-append", (V, "			for _, f := range res.FieldMeasureValues {\n				w.Write([]byte(f.String()))\n				w.Write([]byte{'\\n'})\n			}\n", "			var b []byte\n			for _, f := range res.FieldMeasureValues {\n				b = append(b, f.String()...)\n				b = append(b, '\\n')\n			}\n			w.Write(b)\n"))
bug("q-break", "C29", (V, "			return\n		}\n	}\n\n	http.NotFound(w, req)\n}\n\nfunc (s *Server) ServeHTTP", "			return\n		}\n		break\n	}\n\n	http.NotFound(w, req)\n}\n\nfunc (s *Server) ServeHTTP"))
bug("q-first", "C29", (V, "				w.Write([]byte(f.String()))\n				w.Write([]byte{'\\n'})\n", "				w.Write([]byte(f.String()))\n				w.Write([]byte{'\\n'})\n				if len(q.FieldMeasures) == 1 {\n					break\n				}\n"))
bug("q-last", "C29", (V, "range res.FieldMeasureValues {", "range res.FieldMeasureValues[:len(res.FieldMeasureValues)/2] {"))
bug("q-prefix", "C29", (V, "store.Collator.Name() == cname", "strings.HasPrefix(store.Collator.Name(), cname)"))
bug("q-skip-nil", "C29", (V, "				w.Write([]byte(f.String()))\n", "				if f.V == nil || f.V == 0.0 {\n					continue\n				}\n				w.Write([]byte(f.String()))\n"))
bug("q-noquery", "C29", (V, "store.Read(ctx, q)", "store.Read(ctx, collation.Query{Criteria: q.Criteria})"))
bug("q-formq", "C29", (V, 'req.FormValue("q")', 'req.FormValue("query")'))
bug("fmv-swap", "C29", (S, '"%s(%s)=%v", f.M, f.F, f.V', '"%s(%s)=%v", f.M, f.M, f.V'))
bug("fmv-prec", "C29", (S, '"%s(%s)=%v", f.M, f.F, f.V', '"%s(%s)=%.3v", f.M, f.F, f.V'))
same("fmv-concat", (S, 'fmt.Sprintf("%s(%s)=%v", f.M, f.F, f.V)', 'string(f.M) + "(" + string(f.F) + ")=" + fmt.Sprint(f.V)'))
