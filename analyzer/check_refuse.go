package main

import (
	"go/types"
	"net/http"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C46: what is well formed is not refused. Every path on which a request ends with an error status
// must be known, where the status is sent, to have a cause; queries and schemas likewise.

// ---- facts about a request

// otherMethod: the method of the request is known to be none of ms.
func otherMethod(f *fact, req *Term, ms map[string]bool) bool {
	out := map[string]bool{}
	for y := f; y != nil; y = y.up {
		if y.cond == nil || y.cond.Op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			v, ok := strVal(y.cond.Args[i])
			a := loadAddr(y.cond.Args[1-i])
			if !ok || a == nil || a.Op != "fa" || !isNamed(a.Typ, "net/http", "Request") || a.Args[0] != req || fieldName(a) != "Method" {
				continue
			}
			if y.val && !ms[v] {
				return true
			}
			if !y.val && ms[v] {
				out[v] = true
			}
		}
	}
	return len(out) == len(ms)
}

// typeHeader: the header of the request that gives the media type.
func typeHeader(t, req *Term) bool {
	if t.Def == nil || t.Def.Kind != "res" || t.Def.Callee != "net/http.Header.Get" {
		return false
	}
	as := t.Def.Args[1:]
	k, ok := strVal(as[1])
	a := loadAddr(as[0])
	return ok && http.CanonicalHeaderKey(k) == "Content-Type" && a != nil && a.Op == "fa" && isNamed(a.Typ, "net/http", "Request") && a.Args[0] == req && fieldName(a) == "Header"
}

// otherMediaType: the request is known to have a media type, and none of those that are supported.
func otherMediaType(f *fact, req *Term) bool {
	out := map[*Term]map[string]bool{}
	for y := f; y != nil; y = y.up {
		if y.cond == nil || y.cond.Op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			v, ok := strVal(y.cond.Args[i])
			t := y.cond.Args[1-i]
			if !ok || t.Op != "call" || t.Aux != "mime.ParseMediaType#0" || !typeHeader(t.Args[0], req) || !notEmpty(f, t.Args[0]) {
				continue
			}
			if out[t] == nil {
				out[t] = map[string]bool{}
			}
			if y.val && !mediaTypes[v] {
				return true
			}
			if !y.val && mediaTypes[v] {
				out[t][v] = true
			}
			if len(out[t]) == len(mediaTypes) {
				return true
			}
		}
	}
	return false
}

func notEmpty(f *fact, t *Term) bool {
	n := mkLen(t)
	return isFalse(f, beq(n, mkInt(64, 0))) || isTrue(f, bslt(mkInt(64, 0), n))
}

func knownEmpty(f *fact, t *Term) bool {
	n := mkLen(t)
	return n.isConstInt(0) || isTrue(f, beq(n, mkInt(64, 0))) || isFalse(f, bslt(mkInt(64, 0), n)) || isTrue(f, bslt(n, mkInt(64, 1)))
}

// noData: the form has no data.
func noData(evs []*Event, f *fact, req *Term) bool {
	for _, e := range evs {
		if e.Kind == EvCall && (e.Name == "net/http.Request.FormValue" || e.Name == "net/http.Request.PostFormValue") && e.Args[0] == req {
			if v, ok := strVal(e.Args[1]); ok && v == "data" {
				if knownEmpty(f, e.Res[0]) {
					return true
				}
				for _, x := range evs {
					if x.Kind == EvCall && x.Name == "strings.TrimSpace" && x.Args[0] == e.Res[0] && knownEmpty(f, x.Res[0]) {
						return true
					}
				}
			}
		}
	}
	return false
}

// pathOf: what has been taken from the front of the path of the request to obtain t.
func (h *handler) pathOf(t *Term) (removed string, ok bool) {
	t = stripConv(t)
	if a := loadAddr(t); a != nil {
		if a.Op != "fa" || !isNamed(a.Typ, "net/url", "URL") || fieldName(a) != "Path" {
			return "", false
		}
		u := loadAddr(a.Args[0])
		return "", u != nil && u.Op == "fa" && isNamed(u.Typ, "net/http", "Request") && u.Args[0] == h.req && fieldName(u) == "URL"
	}
	if d := t.Def; t.Op == "call" || d != nil && d.Kind == "res" {
		name, as := t.Aux, t.Args
		if t.Op != "call" {
			name, as = d.Callee, d.Args[1:]
		}
		if name == "strings.TrimPrefix" && len(as) == 2 {
			r, ok := h.pathOf(as[0])
			s, isS := strVal(as[1])
			return r + s, ok && isS
		}
		return "", false
	}
	if base, off, n := sliceParts(t); base != t && off.isInt() {
		r, ok := h.pathOf(base)
		total := h.prefix() + "/"
		if !ok || n != isub(mkLen(base), off) || len(r)+int(off.V) > len(total) {
			return "", false
		}
		return r + total[len(r):len(r)+int(off.V)], true
	}
	return "", false
}

// prefix is the path under which the handler is registered, without the slash at the end.
func (h *handler) prefix() string { return strings.TrimSuffix(h.reg.pattern, "/") }

// stripped is what is taken from the path before the handler receives the request.
func (h *handler) stripped() (string, bool) {
	out := ""
	t := h.reg.h
	for {
		if t.Op == "iface" {
			t = t.Args[0]
			continue
		}
		if t.Def != nil && t.Def.Kind == "res" && t.Def.Callee == "net/http.StripPrefix" && len(t.Def.Args) == 3 {
			s, ok := strVal(t.Def.Args[1])
			if !ok {
				return "", false
			}
			out += s
			t = t.Def.Args[2]
			continue
		}
		return out, true
	}
}

// isName: t is the name of the collation that the request asks for: the path after the prefix.
func (h *handler) isName(t *Term) bool {
	r, ok := h.pathOf(t)
	s, ok2 := h.stripped()
	return ok && ok2 && s+r == h.prefix()+"/"
}

// noName: the path is known not to name a collation.
func (h *handler) noName(f *fact) bool {
	if h.emptyName(f) {
		return true
	}
	slash := func(t *Term) bool {
		s, ok := strVal(t)
		return ok && s == "/" || t.isInt() && t.V == '/'
	}
	for y := f; y != nil; y = y.up {
		if y.cond == nil {
			continue
		}
		hit := false
		subterms(y.cond, func(t *Term) bool {
			name, as := t.Aux, t.Args
			if t.Op != "call" {
				if t.Op == "elem" && t.W == 8 && isTrue(f, beq(t, mkInt(8, '/'))) {
					_, ok := h.pathOf(t.Args[0]) // one of its bytes
					hit = hit || ok
				}
				if t.Def == nil || t.Def.Kind != "res" || len(t.Def.Args) < 2 {
					return !hit
				}
				name, as = t.Def.Callee, t.Def.Args[1:]
			}
			if len(as) != 2 || !slash(as[1]) {
				return !hit
			}
			if _, ok := h.pathOf(as[0]); !ok {
				return !hit
			}
			switch name {
			case "strings.ContainsRune", "strings.Contains", "strings.ContainsAny":
				hit = hit || isTrue(f, t)
			case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.LastIndex", "strings.LastIndexByte", "strings.IndexAny":
				hit = hit || isFalse(f, bslt(t, mkInt(64, 0))) || isFalse(f, beq(t, mkInt(64, ^uint64(0))))
			case "strings.Count":
				hit = hit || isFalse(f, beq(t, mkInt(64, 0))) || isTrue(f, bslt(mkInt(64, 0), t))
			}
			return !hit
		})
		if hit {
			return true
		}
	}
	return false
}

// emptyName: there is known to be nothing after the prefix.
func (h *handler) emptyName(f *fact) bool {
	s, ok := h.stripped()
	if !ok {
		return false
	}
	for y := f; y != nil; y = y.up {
		if y.cond == nil {
			continue
		}
		hit := false
		subterms(y.cond, func(t *Term) bool {
			r, ok := h.pathOf(t)
			if left := len(h.prefix()+"/") - len(s+r); ok && !hit && left >= 0 {
				n := mkLen(t)
				hit = isTrue(f, beq(n, mkInt(64, uint64(left)))) || isFalse(f, bslt(mkInt(64, uint64(left)), n))
			}
			return !hit
		})
		if hit {
			return true
		}
	}
	return false
}

// unknownName: all stores have been looked through, and none has the name.
func (h *handler) unknownName(evs []*Event) bool {
	for i, e := range evs {
		if e.Kind != EvLoop {
			continue
		}
		if _, _, why := rangeLoop(e, evs[i:], isStores); why != "" {
			continue
		}
		good := true
		for _, b := range backsOf(e) {
			known, same := h.named(b.Facts, nil)
			good = good && known && !same
		}
		if good {
			return true
		}
	}
	return false
}

// failedWith: a call outside the module, or of the interfaces between its parts, has failed.
func (h *handler) failedWith(c *Check, evs []*Event, f *fact, parsers []*ssa.Function) bool {
	accept := func(r *errRes, f *fact) bool {
		n := r.ev.Name
		if r.ev.Kind == EvReturn {
			// what makes rows of lines is looked at by itself
			for _, fn := range parsers {
				if r.ev.Fn == fn {
					return true
				}
			}
			return false
		}
		switch {
		case n == "mime.ParseMediaType":
			return typeHeader(r.ev.Args[0], h.req) && notEmpty(f, r.ev.Args[0])
		case n == "context.Context.Err":
			return false
		case r.ev.Call != nil && c.P.inModule(r.ev.Call):
			return c.P.funcIn(r.ev.Call, queryPkg) || isStoreCall(r.ev, "Write") || isStoreCall(r.ev, "Read")
		}
		return true
	}
	return someFailed(evs, f, h.w, accept)
}

// someFailed: an error is known not to be nil that is, whatever the way, that of a call that is
// accepted as the cause.
func someFailed(evs []*Event, f *fact, w *Term, accept func(r *errRes, f *fact) bool) bool {
	for _, r := range errorResults(evs, w) {
		if errNonNil(f, r.t) && notMade(&r) && accept(&r, f) {
			return true
		}
	}
	// what loops have left
	for y := f; y != nil; y = y.up {
		if y.cond != nil && y.cond.Op == "isnil" && !y.val && failure(evs, f, y.cond.Args[0], w, accept, 0) {
			return true
		}
	}
	return false
}

func notMade(r *errRes) bool {
	return r.ev.Kind != EvCall || r.ev.Name != "fmt.Errorf" && !strings.HasPrefix(r.ev.Name, "errors.")
}

// failure: the variable of a loop holds nothing but errors that are accepted, if it is not nil.
func failure(evs []*Event, f *fact, t, w *Term, accept func(r *errRes, f *fact) bool, depth int) bool {
	if depth > 4 {
		return false
	}
	for i, e := range evs {
		init, ok := e.Init[t]
		if e.Kind != EvLoop || !ok {
			continue
		}
		one := func(evs []*Event, f *fact, v *Term) bool {
			if v == nil || v == t || errNil(f, v) {
				return true
			}
			for _, r := range errorResults(evs, w) {
				if r.t == v && notMade(&r) && accept(&r, f) {
					return true
				}
			}
			return failure(evs, f, v, w, accept, depth+1)
		}
		good := one(evs[:i], e.Facts, init)
		for _, b := range backsOf(e) {
			good = good && one(b.Events, b.Facts, b.Next[t])
		}
		return good
	}
	return false
}

func (h *handler) cause(c *Check, evs []*Event, f *fact, parsers []*ssa.Function) bool {
	if cancelled(evs, f) >= 0 || h.failedWith(c, evs, f, parsers) {
		return true
	}
	if h.obs && (otherMethod(f, h.req, map[string]bool{"POST": true}) || otherMediaType(f, h.req) || noData(evs, f, h.req)) {
		return true
	}
	return h.query && (otherMethod(f, h.req, map[string]bool{"POST": true, "GET": true}) || h.noName(f) || h.unknownName(evs))
}

func c46(c *Check) {
	obs, qs := handlersOf(c)
	parsers := c.rowParsers()
	for _, h := range append(append([]*handler(nil), obs...), qs...) {
		n := 0
		for _, p := range h.it.Paths {
			if p.Out == OutBack {
				continue
			}
			k := firstStatus(p.Events, h.w, p.Facts)
			if k < 0 {
				if p.Out == OutReturn {
					n++
				}
				continue
			}
			e := p.Events[k]
			c.must(h.cause(c, p.Events[:k], e.Facts, parsers), "refused for a cause", h.name, e.Pos, "a request may be refused that is well formed")
		}
		c.must(n > 0, "some are accepted", h.name, h.it.Root.Pos(), "no request is accepted")
		// and they get here
		s, ok := h.stripped()
		if h.obs {
			c.must(h.reg.pattern == "/obs" && (s == "" || !ok), "place of observations", h.name, h.reg.ev.Pos, "observations are taken at %q, not at /obs", h.reg.pattern)
		}
		if h.query {
			c.must(h.reg.pattern == "/collation/", "place of collations", h.name, h.reg.ev.Pos, "collations are found at %q, not at /collation/", h.reg.pattern)
			c.must(ok && strings.HasPrefix(h.prefix()+"/", s), "place of collations", h.name, h.reg.ev.Pos, "%q is taken from the path, which does not begin with it", s)
		}
	}
	c.dispatch()
	for _, fn := range parsers {
		c.rowRefused(fn)
	}
	c.queryRefused()
	c.schemaRefused()
	for _, n := range []string{"Store.Write", "Store.Read"} {
		if fn := c.fn("internal/storage", n); fn != nil {
			c.notOfItself(fn, &Config{Opaque: func(f *ssa.Function) bool { return !c.P.funcIn(f, "internal/storage") }})
		}
	}
	if l := c.newLayout(); l != nil {
		for _, n := range []string{"Collator.Update", "Collator.Read"} {
			if fn := c.fn(collPkg, n); fn != nil {
				c.notOfItself(fn, &Config{Opaque: l.factory})
			}
		}
	}
}

// notOfItself: a part of the module fails only if something that it calls fails.
func (c *Check) notOfItself(fn *ssa.Function, cfg *Config) {
	who := relName(c.P, fn)
	it := c.run(fn, cfg)
	for _, p := range it.Paths {
		if p.Out != OutReturn || len(p.Ret) == 0 {
			continue
		}
		r := p.Ret[len(p.Ret)-1]
		if errNil(p.Facts, r) {
			continue
		}
		accept := func(x *errRes, f *fact) bool {
			return x.ev.Kind == EvCall && (x.ev.Name != "context.Context.Err" || cancelled(p.Events, p.Facts) >= 0)
		}
		good := someFailed(p.Events, p.Facts, nil, accept) || failure(p.Events, p.Facts, r, nil, accept, 0)
		for _, x := range errorResults(p.Events, nil) {
			good = good || x.t == r && notMade(&x) && accept(&x, p.Facts)
		}
		c.must(good, "fails for a cause", who, p.Pos, "it may fail although nothing that it calls has failed")
	}
}

// dispatch: the handler of the server hands every request to the mux with which the others are
// registered.
func (c *Check) dispatch() {
	si := c.server()
	field := func(t *Term) string {
		if a := loadAddr(t); a != nil && a.Op == "fa" {
			return fieldName(a)
		}
		return ""
	}
	// where the mux is kept
	kept, muxes := map[string]bool{}, map[*Term]bool{}
	for _, r := range si.regs {
		m := r.ev.Args[0]
		muxes[m] = true
		if f := field(m); f != "" {
			kept[f] = true
		}
		for _, e := range flatten(r.p.Events) {
			if e.Kind == EvStore && e.Val == m && e.Addr.Op == "fa" {
				kept[fieldName(e.Addr)] = true
			}
		}
	}
	for _, h := range si.rootH {
		if h.obs || h.query {
			continue
		}
		for _, p := range h.it.Paths {
			if p.Out != OutReturn {
				continue
			}
			n := 0
			for _, e := range p.Events {
				if e.Kind == EvCall && (e.Name == "net/http.ServeMux.ServeHTTP" || e.Name == "net/http.Handler.ServeHTTP") {
					n++
					m := e.Args[0]
					if m.Op == "iface" {
						m = m.Args[0]
					}
					c.must(kept[field(m)] || muxes[m], "handed on", h.name, e.Pos, "a request is handed to something else than what the handlers are registered with: %s", m)
					c.must(derives(e.Args[len(e.Args)-1], h.req, 3), "handed on", h.name, e.Pos, "it is another request that is handed on")
				}
			}
			c.must(n == 1, "handed on", h.name, p.Pos, "a request is handed on %d times", n)
		}
	}
}

// rowRefused: a line is refused only if it does not begin with a timestamp, or one that cannot be read.
func (c *Check) rowRefused(fn *ssa.Function) {
	who := relName(c.P, fn)
	it := c.run(fn, &Config{})
	data := it.Params[0]
	db, do, dn := sliceParts(data)
	for _, p := range it.Paths {
		if p.Out != OutReturn || !errNonNil(p.Facts, p.Ret[1]) {
			continue
		}
		f := p.Facts
		good := false
		for _, e := range p.Events {
			if e.Kind == EvCall && strings.HasPrefix(e.Name, "strconv.Parse") && len(e.Res) == 2 && errNonNil(f, e.Res[1]) {
				good = true // what is read there is looked at by C42
			}
		}
		none := func(at *Term) bool {
			return isTrue(f, beq(at, dn)) || isFalse(f, bslt(at, dn)) || notDigit(f, byteAt(db, iadd(do, at)))
		}
		good = good || knownEmpty(f, data) || none(mkInt(64, 0))
		for _, e := range p.Events {
			for v, init := range e.Init {
				if e.Kind != EvLoop || v.W != 64 || !init.isInt() {
					continue
				}
				for _, at := range []*Term{v, iadd(v, mkInt(64, 1))} { // range loops count from -1
					if isTrue(f, beq(at, mkInt(64, 0))) && none(at) {
						good = true
					}
				}
			}
		}
		c.must(good, "line refused for a cause", who, p.Pos, "a line may be refused that begins with a timestamp")
	}
}

// queryRefused: text is refused as a query only if it does not match the form of queries, which C34
// looks at.
func (c *Check) queryRefused() {
	fn := c.fn(queryPkg, "RoughParse")
	if fn == nil {
		return
	}
	who := relName(c.P, fn)
	it := c.run(fn, &Config{Invariants: true})
	for _, p := range it.Paths {
		if p.Out == OutReturn && !errNil(p.Facts, p.Ret[1]) {
			c.must(c.noMatch(it, p), "query refused for a cause", who, p.Pos, "text may be refused that has the form of a query")
		}
	}
}

// noMatch: what is known on the path contradicts that the text matches.
func (c *Check) noMatch(it *Interp, p *Path) bool {
	m := map[*Term]*Term{}
	lists := map[*Term]int{}
	for _, e := range p.Events {
		if e.Kind != EvCall {
			continue
		}
		switch e.Name {
		case "regexp.Regexp.FindStringSubmatch", "regexp.Regexp.FindAllStringSubmatch":
			re, ok := c.regex(it, e.Args[0])
			if !ok {
				return false
			}
			n := groups(re)
			if n < 0 {
				return false
			}
			if e.Name == "regexp.Regexp.FindStringSubmatch" {
				m[mkLen(e.Res[0])] = mkInt(64, uint64(n+1))
				m[beq(e.Res[0], mk("nil", "", 0))] = mkBool(false)
			} else {
				lists[e.Res[0]] = n + 1
			}
		}
	}
	for y := p.Facts; y != nil; y = y.up {
		if y.cond == nil {
			continue
		}
		// the elements of lists of matches
		subterms(y.cond, func(t *Term) bool {
			if t.Op != "len" {
				return true
			}
			x := timeless(t.Args[0])
			for l, n := range lists {
				if x.Typ != nil && types.Identical(x.Typ, elemTypeOf(l)) && contains(x, l) && x != l {
					m[t] = mkInt(64, uint64(n))
				}
			}
			return true
		})
		if t := subst(y.cond, m); t == mkBool(!y.val) {
			return true
		}
	}
	return false
}

// groups is the number of groups of an expression.
func groups(re string) int {
	r, err := syntax.Parse(re, syntax.Perl)
	if err != nil {
		return -1
	}
	return r.MaxCap()
}

func elemTypeOf(t *Term) types.Type {
	if t.Typ == nil {
		return nil
	}
	if s, ok := t.Typ.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// schemaRefused: Compile accepts every measure that is known, and every precision that is valid.
func (c *Check) schemaRefused() {
	l := c.newLayout()
	if l == nil {
		return
	}
	fn := c.fn(collPkg, "Schema.Compile")
	if fn == nil {
		return
	}
	who := relName(c.P, fn)
	ci, di := c.iface(collPkg, "ContinuousInput"), c.iface(collPkg, "DiscreteInput")
	it := c.run(fn, &Config{Split: c.splitMeasures, Opaque: l.factory})
	for _, p := range it.Paths {
		if p.Out != OutReturn || len(p.Ret) != 2 || errNil(p.Facts, p.Ret[1]) {
			continue
		}
		good := false
		seen := map[*Term]bool{}
		for y := p.Facts; y != nil && !good; y = y.up {
			if y.cond == nil || y.cond.Op != "typeis" && y.cond.Op != "isnil" {
				continue
			}
			m := timeless(y.cond.Args[0])
			if seen[m] {
				continue
			}
			seen[m] = true
			t := typeOf(p.Facts, m)
			if t == nil {
				// a type that is not of the module
				good = y.cond.Op == "typeis"
				continue
			}
			if ci != nil && di != nil && !types.Implements(t, ci) && !types.Implements(t, di) {
				good = true
				continue
			}
			x := &iter{l: l, b: p, m: m, t: t}
			if q := x.parameter(); q != nil && typeName(t) == "Cardinality" {
				good = true
				for v := uint64(4); v <= 18; v++ {
					f := p.Facts
					if isFalse(f, bslt(q, mkInt(q.W, v+1))) || isFalse(f, bslt(mkInt(q.W, v-1), q)) {
						continue
					}
					if _, ok := f.assume(beq(q, mkInt(q.W, v)), true); ok {
						good = false
					}
				}
			}
		}
		c.must(good, "schema refused for a cause", who, p.Pos, "a schema may be refused whose measures are known and valid")
	}
}

func init() {
	register(&checkDef{id: "C46", run: c46,
		rule:   "where an error status is sent, the path has a cause: the method known to be another, a media type known to be given and none of those supported or not well formed, an empty form value, an error returned from outside the module or from a store or the parser, cancellation, a path without a name or with a slash, or a complete search through the stores in which every name differs; handlers are registered at their places and the root handler hands every request to them; the parser of lines refuses only without a leading digit or with an error of strconv; RoughParse refuses only where the facts contradict a match of its expressions; Schema.Compile refuses only unknown measures and precisions outside of 4 to 18; the operations of stores and collators fail only with an error of something they call or after cancellation",
		floor:  map[string]int{"refused for a cause": 8, "some are accepted": 2, "handed on": 2, "line refused for a cause": 2, "query refused for a cause": 1, "schema refused for a cause": 1, "fails for a cause": 3},
		assume: []string{"net/http, mime, regexp, strconv and bufio behave as documented"}})
}
