package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// From the request to the readers of a collation and back (C29), and what the layout of a
// collation relies on outside of it (C15, C17).

func isStoreType(t types.Type) bool {
	return t != nil && strings.HasSuffix(types.TypeString(t, nil), "internal/storage.Store")
}

// ---- the store

// storeReads: the operation that reads returns what the collation of the store makes of the
// record it was given.
func storeReads(c *Check) {
	for _, op := range c.ops() {
		if op.write || op.row == nil {
			continue
		}
		who := relName(c.P, op.fn)
		read := 0
		for _, u := range op.uses {
			if u.p.Out != OutReturn || !isGet(u.ev) {
				continue
			}
			var calls []*Event
			for i, e := range u.p.Events {
				if e.Kind == EvCall && c.P.methodOn(e.Call, collPkg, "Collator", "Read") {
					calls = append(calls, e)
					c.must(i > u.at, "the record that was read", who, e.Pos, "the measures are read before the record")
				}
			}
			got := u.ev.Res[0]
			buf := u.ev.Args[len(u.ev.Args)-1]
			errRet := u.p.Ret[len(u.p.Ret)-1]
			if len(calls) == 0 {
				if errNonNil(u.p.Facts, errRet) {
					continue
				}
				c.must(isFalse(u.p.Facts, got), "found records are reported", who, u.p.Pos, "nothing is reported although the record may have been found")
				c.must(isZero(u.p.Ret[0]), "nothing else", who, u.p.Pos, "something is reported although there is no record")
				continue
			}
			read++
			e := calls[0]
			c.must(len(calls) == 1, "the record that was read", who, e.Pos, "the measures are read more than once")
			c.must(isTrue(e.Facts, got), "the record that was read", who, e.Pos, "measures are read although the record may not have been found")
			coll := e.Args[0]
			if a := loadAddr(coll); a != nil {
				coll = a
			}
			c.must(baseRoot(coll) == op.it.Params[0], "collation of the store", who, e.Pos, "the measures are not read by the collation of the store: %s", e.Args[0])
			b1, o1, n1 := sliceParts(e.Args[2])
			b2, o2, n2 := sliceParts(buf)
			c.must(b1 == b2 && o1 == o2 && n1 == n2, "the record that was read", who, e.Pos, "what is read is not the record that was found")
			for _, x := range after(u.p.Events, u.ev) {
				if x == e {
					break
				}
				ch := x.Kind == EvStore && rootOf(x.Addr) == b2 || x.Kind == EvCopy && rootOf(first3(sliceParts(x.Args[0]))) == b2
				for _, a := range x.Args {
					if x.Kind == EvCall && a != nil && a.Typ != nil && rootOf(first3(sliceParts(a))) == b2 {
						ch = true
					}
				}
				c.must(!ch, "the record that was read", who, x.Pos, "the record may be changed before its measures are read")
			}
			fm := fieldNamed(op.row, op.row.Typ, "FieldMeasures")
			c.must(fm != nil && timeless(e.Args[1]) == timeless(fm), "measures asked for", who, e.Pos, "the measures read are not those asked for: %s", e.Args[1])
			if errNonNil(u.p.Facts, e.Res[1]) {
				c.must(errNonNil(u.p.Facts, errRet), "found records are reported", who, u.p.Pos, "an error in reading is not returned")
				continue
			}
			c.must(errNonNil(u.p.Facts, errRet) || u.p.Ret[0] == e.Res[0] && (errRet == e.Res[1] || errNil(u.p.Facts, errRet) && errNil(u.p.Facts, e.Res[1])),
				"found records are reported", who, u.p.Pos, "what was read is not what is returned")
		}
		c.must(read > 0, "found records are reported", who, op.fn.Pos(), "no measure is ever read")
	}
}

func isZero(t *Term) bool {
	if t.Op == "agg" {
		for _, a := range t.Args {
			if !isZero(a) {
				return false
			}
		}
		return true
	}
	if v, ok := strVal(t); ok {
		return v == ""
	}
	return isNilTerm(t) || t.isConstInt(0) || t.Op == "false" || t.Typ != nil && isSliceType(t.Typ) && mkLen(t).isConstInt(0)
}

func isSliceType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// ---- the handler of queries

// named: it is known that the collation of the store at hand has the name that the request gives.
func (h *handler) named(f *fact, coll *Term) (known, same bool) {
	for y := f; y != nil; y = y.up {
		if y.cond == nil {
			continue
		}
		cond, val := y.cond, y.val
		for cond.Op == "not" {
			cond, val = cond.Args[0], !val
		}
		if len(cond.Args) != 2 {
			continue
		}
		for i := 0; i < 2; i++ {
			n := cond.Args[i]
			if n.Def == nil || n.Def.Kind != "res" || !strings.HasSuffix(n.Def.Callee, "Collator.Name") {
				continue
			}
			x := n.Def.Args[len(n.Def.Args)-1]
			if coll != nil && timeless(x) != timeless(coll) {
				continue
			}
			if !h.isName(cond.Args[1-i]) {
				continue
			}
			if cond == beq(n, cond.Args[1-i]) {
				return true, val
			}
		}
	}
	return false, false
}

// answers: a query is answered by the collation that the request names, and every value that it
// reads is sent, in order.
func answers(c *Check) {
	_, qs := handlersOf(c)
	for _, h := range qs {
		who := h.name
		sent := 0
		for _, p := range h.it.Paths {
			var reads []*Event
			for _, e := range flatten(p.Events) {
				if isStoreCall(e, "Read") {
					reads = append(reads, e)
				}
			}
			for i, e := range p.Events {
				if !isStoreCall(e, "Read") {
					continue
				}
				h.readsNamed(c, who, p, p.Events[:i], e)
			}
			if p.Out != OutReturn {
				continue
			}
			if k := firstStatus(p.Events, h.w, p.Facts); k >= 0 {
				if len(reads) > 0 {
					continue
				}
				h.lookedEverywhere(c, who, p, k)
				continue
			}
			if !c.must(len(reads) == 1, "answered by the collation named", who, p.Pos, "a query is answered with success after reading %d collations", len(reads)) {
				continue
			}
			at := indexOf(p.Events, reads[0])
			if !c.must(at >= 0, "every value is sent", who, reads[0].Pos, "a collation is read in a loop and what it yields may be overwritten") {
				continue
			}
			if c.must(errNil(p.Facts, reads[0].Res[1]), "every value is sent", who, p.Pos, "the query is answered with success although reading may have failed") {
				h.values(c, who, p, at, reads[0])
				sent++
			}
		}
		c.must(sent > 0, "every value is sent", who, h.it.Root.Pos(), "no query is answered with success")
	}
}

// readsNamed checks which collation is read, and for which query.
func (h *handler) readsNamed(c *Check, who string, p *Path, before []*Event, e *Event) {
	recv := e.Args[0]
	v := recv
	if recv.Typ != nil {
		if pt, ok := recv.Typ.Underlying().(*types.Pointer); ok && e.Mem != nil {
			v = e.Mem(recv, pt.Elem())
		}
	}
	if recv.Op == "ia" || recv.Op == "fa" {
		v = recv
	}
	if v.Op != "agg" && (recv.Op == "ia" || recv.Op == "fa" || v.Typ == nil || !isStoreType(v.Typ)) {
		if st := c.storeType(); st != nil {
			v = e.Mem(recv, st)
		}
	}
	src := v
	if src.Op == "agg" {
		// field by field
		if len(src.Args) > 0 {
			if a := loadAddr(src.Args[0]); a != nil && a.Op == "fa" {
				src = mkLoad(a.Args[0], "", a.Typ)
			} else if src.Args[0].Op == "field" {
				src = src.Args[0].Args[0]
			}
		}
	}
	ok := false
	if a := loadAddr(src); a != nil && a.Op == "ia" {
		subterms(a.Args[0], func(s *Term) bool {
			ok = ok || isStores(s)
			return !ok
		})
	}
	c.must(ok, "a store of the server", who, e.Pos, "what is read is not one of the stores of the server: %s", src)
	st := c.storeType()
	coll := fieldNamed(src, st, "Collator")
	if a := loadAddr(src); a != nil {
		if i := fieldIndex(st, "Collator"); i >= 0 {
			coll = mkLoad(mkFA(a, i, st), "", structOf(st).Field(i).Type())
		}
	}
	known, same := h.named(e.Facts, coll)
	c.must(known && same, "answered by the collation named", who, e.Pos, "a collation may be read that is not the one named by the request")
	// the query
	q := e.Args[len(e.Args)-1]
	good := false
	for _, x := range before {
		if x.Kind != EvCall || x.Call == nil || fnPkg(x.Call) == nil || fnPkg(x.Call).Path() != c.P.path("internal/query") || len(x.Res) != 2 {
			continue
		}
		if x.Res[0] == q && errNil(e.Facts, x.Res[1]) && len(x.Args) > 0 && formValue(x.Args[0], h.req, "q") {
			good = true
		}
	}
	c.must(good, "the query of the request", who, e.Pos, "what is looked up is not the query of the request, as parsed without error")
}

func fieldIndex(t types.Type, name string) int {
	s := structOf(t)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (c *Check) storeType() types.Type {
	sp := c.P.Pkg("internal/storage")
	if sp == nil {
		return nil
	}
	tn, _ := sp.Pkg.Scope().Lookup("Store").(*types.TypeName)
	if tn == nil {
		return nil
	}
	return tn.Type()
}

// formValue: does the text come from the field of the form with that name?
func formValue(t, req *Term, name string) bool {
	for n := 0; n < 6; n++ {
		if t.Op == "bytesof" || t.Op == "strof" {
			t = t.Args[0]
			continue
		}
		if t.Def == nil || t.Def.Kind != "res" {
			return false
		}
		as := t.Def.Args[1:]
		switch t.Def.Callee {
		case "net/http.Request.FormValue":
			v, ok := strVal(as[1])
			return ok && v == name && as[0] == req
		case "strings.TrimSpace", "bytes.TrimSpace":
			t = as[0]
		default:
			return false
		}
	}
	return false
}

// lookedEverywhere: a query is turned down only for a reason of its own or if there is no
// collation of the name.
func (h *handler) lookedEverywhere(c *Check, who string, p *Path, k int) {
	parsed := false
	for _, e := range p.Events {
		if e.Kind == EvCall && e.Call != nil && fnPkg(e.Call) != nil && fnPkg(e.Call).Path() == c.P.path("internal/query") && len(e.Res) == 2 {
			parsed = errNil(p.Facts, e.Res[1])
		}
	}
	if !parsed {
		return
	}
	for i, e := range p.Events {
		if e.Kind != EvLoop {
			continue
		}
		_, _, why := rangeLoop(e, p.Events[i:], isStores)
		if why != "" {
			continue
		}
		good := true
		for _, b := range backsOf(e) {
			known, same := h.named(b.Facts, nil)
			good = good && known && !same
		}
		if good {
			c.ok("every collation is considered")
			return
		}
	}
	c.fail("every collation is considered:"+who, p.Pos, "a query may be turned down although there is a collation of the name")
}

// values: after the collation was read, every value read is sent.
func (h *handler) values(c *Check, who string, p *Path, at int, read *Event) {
	var vals *Term
	if res := read.Res[0]; res != nil {
		vals = fieldNamed(res, read.Sig.Results().At(0).Type(), "FieldMeasureValues")
	}
	if vals == nil {
		c.fail("anchor:Result", read.Pos, "the result of a query has an unexpected type")
		return
	}
	vals = timeless(vals)
	vb, vo, _ := sliceParts(vals)
	done := false
	for i := at + 1; i < len(p.Events); i++ {
		e := p.Events[i]
		if e.Kind != EvLoop {
			if writesTo(e, h.w) && done {
				continue
			}
			continue
		}
		idx, _, why := rangeLoop(e, p.Events[i:], func(t *Term) bool { return timeless(t) == vals })
		if idx == nil && why != "" {
			continue
		}
		if !c.must(!done, "every value is sent", who, e.Pos, "the values are sent twice") {
			return
		}
		el := mkIA(vb, iadd(vo, idx), nil)
		et := vals.Typ.Underlying().(*types.Slice).Elem()
		elem := timeless(mkLoad(el, "", et))
		var sinks []map[*Term]int
		for _, b := range backsOf(e) {
			evs := after(b.Events, e)
			m := map[*Term]int{}
			whole, parts := false, map[string]bool{}
			note := func(t *Term) bool {
				t = timeless(t)
				hit := false
				var look func(t *Term, d int)
				look = func(t *Term, d int) {
					subterms(t, func(s *Term) bool {
						if s == elem || s.Op == "load" && s.Args[0] == el {
							whole, hit = true, true
							return false
						}
						for j := 0; j < structOf(et).NumFields(); j++ {
							f := structOf(et).Field(j)
							if s == timeless(mkField(elem, j, f.Type())) || s.Op == "load" && s.Args[0] == mkFA(el, j, et) {
								parts[f.Name()], hit = true, true
								return false
							}
						}
						if d > 0 && s.Def != nil && s.Def.Kind == "res" {
							for _, a := range s.Def.Args {
								if a != nil {
									look(timeless(a), d-1)
								}
							}
						}
						return true
					})
				}
				look(t, 4)
				return hit
			}
			for _, x := range evs {
				if x.Kind != EvCall || len(x.Args) == 0 {
					continue
				}
				hit := false
				for _, a := range x.Args {
					hit = note(a) || hit
				}
				if !hit {
					continue
				}
				if writesTo(x, h.w) {
					m[h.w]++
					continue
				}
				for _, a := range x.Args {
					if a.Op == "iface" {
						a = a.Args[0]
					}
					if h.it.local(a) && a.Typ != nil || a.Def != nil && a.Def.Kind == "res" && strings.HasPrefix(a.Def.Callee, "bufio.NewWriter") && derives(a, h.w, 1) {
						m[a]++
					}
				}
			}
			for l, nx := range b.Next {
				if nx != nil && nx != l && contains(nx, l) && note(nx) {
					m[l]++
				}
			}
			c.must(len(m) > 0, "every value is sent", who, e.Pos, "a value that was read may not be sent")
			c.must(whole || parts["F"] && parts["M"] && parts["V"], "value and label are sent", who, e.Pos, "a value is sent without its field, its measure or itself")
			sinks = append(sinks, m)
		}
		good := false
		for s := range sinks[0] {
			all := true
			for _, m := range sinks {
				all = all && m[s] > 0
			}
			if !all {
				continue
			}
			if s == h.w {
				good = true
				continue
			}
			for _, x := range p.Events[i+1:] {
				if x.Kind == EvCall && x.Name == "bufio.Writer.Flush" && x.Args[0] == s {
					good = true
				}
				if !writesTo(x, h.w) {
					continue
				}
				for _, a := range x.Args {
					if a != h.w && (derives(a, s, 3) || a.Op == "iface" && derives(a.Args[0], s, 3)) {
						good = true
					}
				}
			}
		}
		c.must(good, "every value is sent", who, e.Pos, "what was read is not sent")
		done = true
		i = indexOf(p.Events, e)
	}
	c.must(done, "every value is sent", who, p.Pos, "not every value that was read is sent")
}

// fmvString: the text of a value names its measure and its field.
func fmvString(c *Check) {
	fn := c.fn(collPkg, "FMV.String")
	if fn == nil {
		return
	}
	who := relName(c.P, fn)
	it := c.run(fn, &Config{})
	for _, p := range it.Paths {
		if !c.must(p.Out == OutReturn && len(p.Ret) == 1, "text of a value", who, p.Pos, "it may end in a %s", p.Out) {
			continue
		}
		v := it.Params[0]
		typ := v.Typ
		if pt, ok := typ.Underlying().(*types.Pointer); ok {
			typ = pt.Elem()
			v = mkLoad(v, "", typ)
		}
		for _, n := range []string{"F", "M", "V"} {
			f := fieldNamed(v, typ, n)
			c.must(f != nil && derives(timeless(p.Ret[0]), timeless(f), 3), "text of a value", who+n, p.Pos, "the text of a value does not tell its %s", n)
		}
		for _, e := range p.Events {
			if e.Kind != EvCall || e.Name != "fmt.Sprintf" && e.Name != "fmt.Fprintf" {
				continue
			}
			l := e.Args
			if e.Name == "fmt.Fprintf" {
				l = l[1:]
			}
			s, ok := strVal(l[0])
			if !ok {
				continue
			}
			vs := verbs(s)
			if !c.must(len(vs) == len(l)-1, "text of a value", who, e.Pos, "the format does not fit its arguments") {
				continue
			}
			for i, a := range l[1:] {
				if a.Op == "iface" && typeReg[a.Aux] != nil && isSliceType(typeReg[a.Aux]) {
					c.must(strings.ContainsRune("sq", rune(vs[i])), "text of a value", who, e.Pos, "a name is printed as the numbers of its bytes")
				} else {
					c.must(strings.ContainsRune("svgq", rune(vs[i])), "text of a value", who, e.Pos, "a value is not printed as it is: %%%c", vs[i])
				}
			}
		}
	}
}

// verbs of a format.
func verbs(s string) []byte {
	var l []byte
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			continue
		}
		for i++; i < len(s) && strings.IndexByte("+-# 0123456789.", s[i]) >= 0; i++ {
			if s[i] == '.' {
				l = append(l, '.') // a precision cuts something off
			}
		}
		if i < len(s) && s[i] != '%' {
			l = append(l, s[i])
		}
	}
	return l
}

// cardinalityReader: the measure reads the estimate of the counter in its buffer.
func cardinalityReader(c *Check) {
	rf := c.fn(collPkg, "Cardinality.ContReader")
	if rf == nil {
		return
	}
	f, cfg := c.closureOf(rf)
	if f == nil {
		return
	}
	cfg.Opaque = c.inPkg(hllPkg)
	it := c.run(f, cfg)
	who := relName(c.P, rf)
	good := 0
	for _, p := range it.Paths {
		if !c.must(p.Out == OutReturn && len(p.Ret) == 2, "estimate of the counter", who, p.Pos, "it may end in a %s", p.Out) {
			continue
		}
		if errNonNil(p.Facts, p.Ret[1]) {
			continue
		}
		var with, count *Event
		for _, e := range p.Events {
			if e.Kind == EvCall && c.P.funcIn(e.Call, hllPkg) {
				switch e.Call.Name() {
				case "WithBytes":
					with = e
				case "Count":
					count = e
				default:
					c.must(!strings.HasPrefix(e.Call.Name(), "Reset") && e.Call.Name() != "Add" && e.Call.Name() != "ReadFrom", "estimate of the counter", who, e.Pos, "the counter is changed when it is read")
				}
			}
		}
		if !c.must(with != nil && count != nil && with.Args[0] == it.Params[0] && errNil(p.Facts, with.Res[1]), "estimate of the counter", who, p.Pos, "it does not read the counter in the buffer") {
			continue
		}
		c.must(count.Mem(count.Args[0], with.Sig.Results().At(0).Type()) == with.Res[0], "estimate of the counter", who, count.Pos, "the counter read is not the one in the buffer")
		r := p.Ret[0]
		c.must(r.Op == "i2f" && r.Args[0] == count.Res[0] || r.Op == "u2f" && r.Args[0] == count.Res[0], "estimate of the counter", who, p.Pos, "what is read is not the estimate of the counter: %s", r)
		good++
	}
	c.must(good > 0, "estimate of the counter", who, rf.Pos(), "it never reads anything")
}

func (c *Check) inPkg(rel string) func(*ssa.Function) bool {
	return func(fn *ssa.Function) bool { return c.P.funcIn(fn, rel) }
}

func (p *Prog) funcIn(fn *ssa.Function, rel string) bool {
	return fn != nil && fnPkg(fn) != nil && fnPkg(fn).Path() == p.path(rel)
}

// ---- C17: empty states that are not all zero

func emptyStates(c *Check) {
	in := c.iface(collPkg, "Initializer")
	m := c.iface(collPkg, "Measure")
	if in == nil || m == nil {
		return
	}
	for _, t := range c.implementers(m) {
		initer, header := types.Implements(t, in), false
		for _, k := range kinds {
			if k.method == "Init" {
				continue
			}
			ki := c.iface(collPkg, k.iface)
			if ki == nil || !types.Implements(t, ki) {
				continue
			}
			fn := c.P.Func(collPkg, typeName(t)+"."+k.method)
			if fn == nil {
				continue
			}
			f, cfg := c.closureOf(fn)
			if f == nil {
				continue
			}
			cfg.Opaque = func(fn *ssa.Function) bool {
				return c.P.funcIn(fn, hllPkg) || c.P.funcIn(fn, bloomPkg) || c.P.funcIn(fn, bbPkg)
			}
			it := c.run(f, cfg)
			for _, p := range it.Paths {
				for _, e := range p.flat() {
					if e.Kind == EvCall && e.Call != nil && cfg.Opaque(e.Call) && e.Call.Name() == "WithBytes" {
						header = true
						c.must(initer, "empty state", typeName(t), e.Pos, "%s keeps a structure with a header, which bytes of zero are not, but does not say how to initialise it", typeName(t))
					}
				}
			}
		}
		if !initer || !header {
			continue // other empty states: C18, C19
		}
		fn := c.P.Func(collPkg, typeName(t)+".Init")
		if fn == nil {
			c.fail("empty state:"+typeName(t), token.NoPos, "the initialiser of %s is not found", typeName(t))
			continue
		}
		c.initialiser(fn)
	}
}

// initialiser: it stores an empty counter of the right precision at the beginning of the buffer.
func (c *Check) initialiser(fn *ssa.Function) {
	who := relName(c.P, fn)
	it := c.run(fn, &Config{Opaque: c.inPkg(hllPkg)})
	good := 0
	for _, p := range it.Paths {
		if p.Out == OutBack {
			c.fail("empty state:"+who, p.Pos, "cannot be decided: a loop")
			continue
		}
		if !c.must(p.Out == OutReturn && len(p.Ret) == 1, "empty state", who, p.Pos, "it may end in a %s", p.Out) {
			continue
		}
		if errNonNil(p.Facts, p.Ret[0]) {
			continue
		}
		var mkEv, wr *Event
		for _, e := range p.Events {
			if e.Kind != EvCall || !c.P.funcIn(e.Call, hllPkg) {
				continue
			}
			switch e.Call.Name() {
			case "New":
				mkEv = e
			case "WriteTo":
				c.must(wr == nil, "empty state", who, e.Pos, "the counter is written twice")
				wr = e
			case "Len", "Count":
			default:
				c.fail("empty state:"+who, e.Pos, "the counter is not left empty: %s", e.Call.Name())
			}
		}
		if !c.must(mkEv != nil && wr != nil, "empty state", who, p.Pos, "no counter is stored") {
			continue
		}
		prec := mkEv.Args[0]
		pf := (*Term)(nil)
		recv := it.Params[0]
		if s := structOf(recv.Typ); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if f := mkField(recv, i, s.Field(i).Type()); contains(prec, f) && f.W > 0 {
					pf = resize(f, f.W, prec.W, false)
				}
			}
		}
		c.must(pf == prec && pf != nil, "empty state", who, mkEv.Pos, "the counter does not have the precision of the measure: %s", prec)
		c.must(wr.Mem(wr.Args[0], mkEv.Sig.Results().At(0).Type()) == mkEv.Res[0], "empty state", who, wr.Pos, "what is written is not the new counter")
		c.must(errNil(p.Facts, wr.Res[1]) || p.Ret[0] == wr.Res[1], "empty state", who, wr.Pos, "a failure to write the counter is not returned")
		sink := wr.Args[1]
		if sink.Op == "iface" {
			sink = sink.Args[0]
		}
		buf := it.Params[1]
		bb, bo, _ := sliceParts(buf)
		placed := false
		if sink.Def != nil && sink.Def.Kind == "res" && sink.Def.Callee == "bytes.NewBuffer" {
			b, o, n := sliceParts(sink.Def.Args[1])
			placed = b == bb && o == bo && n.isConstInt(0)
		}
		changed := false
		for _, e := range after(p.Events, wr) {
			if e.Kind == EvCopy {
				b, o, _ := sliceParts(e.Args[0])
				if b != bb {
					continue
				}
				src := e.Args[1]
				ok := o == bo && src.Def != nil && src.Def.Kind == "res" && src.Def.Callee == "bytes.Buffer.Bytes" && src.Def.Args[1] == sink && e.Args[0] == buf
				if ok && !placed {
					placed = true
				} else {
					changed = true
				}
			}
			if e.Kind == EvStore && rootOf(e.Addr) == bb {
				changed = true
			}
		}
		c.must(placed, "empty state", who, p.Pos, "the counter is not stored at the beginning of the buffer")
		c.must(!changed, "empty state", who, p.Pos, "the buffer is changed after the counter was stored")
		good++
	}
	c.must(good > 0, "empty state", who, fn.Pos(), "it never succeeds")
}

// ---- C15: room in the map

// strides: every store has room for the records of its collation.
func strides(c *Check) {
	fn := c.fn("", "main")
	if fn == nil {
		return
	}
	st := c.storeType()
	if st == nil {
		c.fail("anchor:Store", token.NoPos, "the type of stores is not found")
		return
	}
	bi, ci := fieldIndex(st, "Backend"), fieldIndex(st, "Collator")
	if bi < 0 || ci < 0 {
		c.fail("anchor:Store", token.NoPos, "a store has no backend or no collation")
		return
	}
	it := c.run(fn, &Config{Opaque: func(f *ssa.Function) bool {
		return c.P.funcIn(f, "internal/bufmap") || c.P.methodOn(f, collPkg, "Schema", "Compile") || c.P.methodOn(f, collPkg, "Collator", "Size") ||
			c.P.funcIn(f, srvPkg) && f.Name() == "Serve"
	}})
	seen := map[*Term]bool{}
	n := 0
	for _, p := range it.Paths {
		for _, e := range p.flat() {
			var l []*Term
			if e.Kind == EvAppend || e.Kind == EvCall {
				l = append(l, e.Args...)
			}
			if e.Kind == EvStore {
				l = append(l, e.Val)
			}
			for _, t := range l {
				if t == nil {
					continue
				}
				subterms(t, func(s *Term) bool {
					if s.Op == "agg" && isStoreType(s.Typ) && !isZero(s) && !seen[s] {
						seen[s] = true
						n++
						c.stride(p, s.Args[bi], s.Args[ci], e.Pos)
					}
					return true
				})
			}
		}
	}
	c.must(n > 0, "room for a record", "stores", fn.Pos(), "no store is set up")
}

func (c *Check) stride(p *Path, backend, coll *Term, pos token.Pos) {
	b := backend
	if b.Op == "iface" {
		b = b.Args[0]
	}
	if !c.must(b.Def != nil && b.Def.Kind == "res" && strings.HasSuffix(b.Def.Callee, "internal/bufmap.New") && len(b.Def.Args) == 3, "room for a record", "stores", pos, "the map of a store is not made for it: %s", backend) {
		return
	}
	n := b.Def.Args[2]
	good := false
	for _, e := range p.flat() {
		if e.Kind == EvCall && c.P.methodOn(e.Call, collPkg, "Collator", "Size") && e.Args[0] == coll {
			good = good || e.Res[0] == n || isFalse(p.Facts, bslt(n, e.Res[0]))
		}
	}
	c.must(good, "room for a record", "stores", pos, "the slots of a store have %s bytes, which is not the size of the records of its collation", n)
}

// bufferSize: a record is read into a buffer of its size.
func bufferSize(c *Check) {
	for _, op := range c.ops() {
		if op.write {
			continue
		}
		who := relName(c.P, op.fn)
		it := c.run(op.fn, &Config{Opaque: func(f *ssa.Function) bool {
			return c.P.storeOpaque(f) || c.P.methodOn(f, collPkg, "Collator", "Size")
		}})
		for _, p := range it.Paths {
			for i, e := range p.Events {
				if !isGet(e) {
					continue
				}
				n := mkLen(e.Args[len(e.Args)-1])
				good := false
				for _, x := range p.Events[:i] {
					if x.Kind == EvCall && c.P.methodOn(x.Call, collPkg, "Collator", "Size") {
						co := x.Args[0]
						if a := loadAddr(co); a != nil {
							co = a
						}
						good = good || x.Res[0] == n && baseRoot(co) == it.Params[0]
					}
				}
				c.must(good, "room for a record", who, e.Pos, "a record is read into a buffer of %s bytes, which is not the size of the records of the collation", n)
			}
		}
	}
}
