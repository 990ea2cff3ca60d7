package main

// C09, C11, C32: how requests are handled. The handlers are found by analysing the functions of
// the server that register them, and are analysed from there.

import (
	"go/token"
	"go/types"
	"net/http"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const srvPkg = "internal/server"

type registration struct {
	pattern string
	h       *Term
	snap    *memory
	ev      *Event
	p       *Path
}

type handler struct {
	reg   *registration
	it    *Interp
	w     *Term
	req   *Term
	obs   bool // stores observations
	query bool // reads records
	name  string
}

type serverInfo struct {
	setup []*Interp
	regs  []*registration
	roots []*registration // handlers given to the http server
	hs    []*handler
	rootH []*handler
	errs  []string
}

// outsideServer: calls of other packages are not followed.
func (p *Prog) outsideServer(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	return pk == nil || pk.Path() != p.path(srvPkg)
}

func (c *Check) count(it *Interp) {
	for f := range it.Funcs {
		c.funcs[f.String()] = true
	}
	c.paths += len(it.Paths)
	c.loops += len(it.Loops)
	c.steps += it.Steps
	for _, u := range it.Undec {
		c.fail("undecided:"+it.Root.String(), it.Root.Pos(), "cannot be decided: %s", u)
	}
}

var muxRegister = map[string]int{ // index of the pattern among the arguments
	"net/http.ServeMux.Handle": 1, "net/http.ServeMux.HandleFunc": 1, "net/http.Handle": 0, "net/http.HandleFunc": 0,
}

var httpServe = map[string]int{ // index of the handler
	"net/http.Serve": 1, "net/http.ServeTLS": 1, "net/http.ListenAndServe": 1, "net/http.ListenAndServeTLS": 3,
}

func (c *Check) server() *serverInfo {
	p := c.P
	if p.cache == nil {
		p.cache = map[string]interface{}{}
	}
	si, ok := p.cache["server"].(*serverInfo)
	if !ok {
		si = &serverInfo{}
		p.cache["server"] = si
		si.find(p)
	}
	for _, it := range si.setup {
		c.count(it)
	}
	for _, h := range append(append([]*handler(nil), si.hs...), si.rootH...) {
		c.count(h.it)
	}
	for _, e := range si.errs {
		c.fail("handlers:"+e, token.NoPos, "%s", e)
	}
	return si
}

func (si *serverInfo) find(p *Prog) {
	seen := map[string]bool{}
	for _, fn := range p.funcsOf(srvPkg) {
		if fn.Parent() != nil || !exported(fn) {
			continue
		}
		sig := fn.Signature
		if n := sig.Params().Len(); n >= 2 && isNamed(sig.Params().At(n-2).Type(), "net/http", "ResponseWriter") {
			continue
		}
		si.look(p, p.Run(fn, &Config{Opaque: p.outsideServer}), seen, 0)
	}
	for _, r := range si.regs {
		if h := si.handle(p, r); h != nil {
			si.hs = append(si.hs, h)
		}
	}
	for _, r := range si.roots {
		if h := unwrapHandler(r.h); h.Op != "iface" || !isMux(h) {
			if h := si.handle(p, r); h != nil {
				si.rootH = append(si.rootH, h)
			}
		}
	}
}

// look finds the registrations and servers of what was run.
func (si *serverInfo) look(p *Prog, it *Interp, seen map[string]bool, depth int) {
	used := false
	for _, pa := range it.Paths {
		for _, e := range pa.Events {
			switch e.Kind {
			case EvGo:
				// what is started there is part of it
				if e.Call == nil || p.outsideServer(e.Call) || depth > 3 {
					continue
				}
				cfg := &Config{Opaque: p.outsideServer, Start: e.snap, Params: e.Args}
				if e.Val != nil && e.Val.Op == "closure" {
					cfg.Free = e.Val.Args
				}
				if !seen["go|"+p.posStr(e.Pos)+"|"+e.Call.String()] {
					seen["go|"+p.posStr(e.Pos)+"|"+e.Call.String()] = true
					si.look(p, p.Run(e.Call, cfg), seen, depth+1)
				}
			case EvCall:
				if i, ok := muxRegister[e.Name]; ok && len(e.Args) > i+1 {
					used = true
					pat, isS := strVal(e.Args[i])
					if !isS {
						pat = "?"
					}
					r := &registration{pat, e.Args[i+1], e.snap, e, pa}
					k := pat + "|" + handlerKey(r.h)
					if !seen[k] {
						seen[k] = true
						si.regs = append(si.regs, r)
					}
				}
				if i, ok := httpServe[e.Name]; ok && len(e.Args) > i {
					used = true
					k := "root|" + handlerKey(e.Args[i])
					if !seen[k] {
						seen[k] = true
						si.roots = append(si.roots, &registration{"", e.Args[i], e.snap, e, pa})
					}
				}
			case EvStore:
				if e.Addr.Op == "fa" && isNamed(e.Addr.Typ, "net/http", "Server") && isNamed(e.Val.Typ, "net/http", "Handler") {
					used = true
					k := "root|" + handlerKey(e.Val)
					if !seen[k] {
						seen[k] = true
						si.roots = append(si.roots, &registration{"", e.Val, pa.St.mem, e, pa})
					}
				}
			}
		}
	}
	if used {
		si.setup = append(si.setup, it)
	}
}

func isMux(h *Term) bool {
	dyn := typeReg[h.Aux]
	n := namedOf(dyn)
	return n != nil && n.Obj().Name() == "ServeMux"
}

func handlerKey(h *Term) string {
	h = unwrapHandler(h)
	if h.Fn != nil {
		return h.Fn.String()
	}
	return h.Op + h.Aux
}

func exported(fn *ssa.Function) bool {
	o := fn.Object()
	return o != nil && o.Exported()
}

func isNamed(t types.Type, pkg, name string) bool {
	if t == nil {
		return false
	}
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

func (si *serverInfo) handle(p *Prog, r *registration) *handler {
	return si.handleWith(p, r, p.outsideServer)
}

func (si *serverInfo) handleWith(p *Prog, r *registration, opaque func(*ssa.Function) bool) *handler {
	t := unwrapHandler(r.h)
	fn, args := handlerFunc(p, t)
	if fn == nil {
		si.errs = append(si.errs, "the handler registered at "+p.posStr(r.ev.Pos)+" cannot be found")
		return nil
	}
	cfg := &Config{Opaque: opaque, Start: r.snap, Unroll: 8}
	cfg.Params = append(cfg.Params, args...)
	if t.Op == "closure" {
		cfg.Free = t.Args
	}
	// what it finds is not what there was when it was registered
	start := r.snap.clone()
	start.havocRoots(&Interp{P: p, Cfg: cfg}, start.refRoots(append(append([]*Term(nil), cfg.Params...), cfg.Free...)), "handler")
	cfg.Start = start
	it := p.Run(fn, cfg)
	rotate(it, "bufio.Scanner.Scan")
	h := &handler{reg: r, it: it, name: fn.Name()}
	if n := len(it.Params); n >= 2 {
		h.w, h.req = it.Params[n-2], it.Params[n-1]
	}
	if r.pattern != "" {
		h.name = r.pattern
	}
	for _, pa := range it.Paths {
		for _, e := range pa.Events {
			if isStoreCall(e, "Write") {
				h.obs = true
			}
			if isStoreCall(e, "Read") {
				h.query = true
			}
		}
	}
	return h
}

func isStoreCall(e *Event, m string) bool {
	return e.Kind == EvCall && strings.HasSuffix(e.Name, "internal/storage.Store."+m)
}

// ---- errors

var errorType = types.Universe.Lookup("error").Type()

type errRes struct {
	ev *Event
	t  *Term
}

// errNil: is the error known to be nil?
func errNil(f *fact, t *Term) bool {
	return isNilTerm(t) || isTrue(f, beq(t, mk("nil", "", 0)))
}

func errNonNil(f *fact, t *Term) bool {
	return !isNilTerm(t) && (nonNilTerm(t) || isFalse(f, beq(t, mk("nil", "", 0))))
}

// buffersResponse: t is a buffer for what is written to the response
func buffersResponse(t, w *Term) bool {
	d := t.Def
	if d == nil || d.Kind != "res" || !strings.HasPrefix(d.Callee, "bufio.NewWriter") || len(d.Args) < 2 {
		return false
	}
	return d.Args[1] == w && w != nil || isNamed(d.Args[1].Typ, "net/http", "ResponseWriter")
}

// cannotFail: calls whose error is always nil or tells nothing that could be acted on.
func cannotFail(e *Event, w *Term) bool {
	n := e.Name
	switch {
	case strings.HasSuffix(n, ".Close"):
		return true
	case strings.HasPrefix(n, "bytes.Buffer.Write"), strings.HasPrefix(n, "strings.Builder.Write"):
		return true
	case n == "net/http.ResponseWriter.Write":
		return true
	case strings.HasPrefix(n, "bufio.Writer.Write") && n != "bufio.Writer.WriteTo":
		return true // Flush returns the error
	case n == "bufio.Writer.Flush" && len(e.Args) > 0:
		return buffersResponse(e.Args[0], w)
	case strings.HasPrefix(n, "hash.") && strings.HasSuffix(n, ".Write"):
		return true
	}
	if ci, ok := e.Instr.(ssa.CallInstruction); ok && n == "io.Writer.Write" && ci.Common().IsInvoke() {
		// by their contract, hashes always accept what they are given
		t := ci.Common().Value.Type()
		if isNamed(t, "hash", "Hash") || isNamed(t, "hash", "Hash32") || isNamed(t, "hash", "Hash64") {
			return true
		}
	}
	if n == "io.Writer.Write" || n == "io.WriteString" || strings.HasPrefix(n, "fmt.Fprint") {
		for _, a := range e.Args {
			if w != nil && a == w {
				return true
			}
			if a.Op == "iface" {
				if buffersResponse(a.Args[0], w) {
					return true
				}
				if t := typeReg[a.Aux]; t != nil {
					switch types.TypeString(t, nil) {
					case "*bytes.Buffer", "*strings.Builder":
						return true
					}
				}
			}
		}
	}
	if n == "fmt.Fprint" || n == "fmt.Fprintf" || n == "fmt.Fprintln" {
		// diagnostics
		if len(e.Args) > 0 && strings.Contains(e.Args[0].String(), "os.Std") {
			return true
		}
	}
	return false
}

// errorResults are the errors that calls on the way have returned.
func errorResults(evs []*Event, w *Term) []errRes {
	var l []errRes
	for _, e := range evs {
		var sig *types.Signature
		switch e.Kind {
		case EvCall:
			sig = e.Sig
			if cannotFail(e, w) {
				continue
			}
		case EvReturn:
			sig = e.Fn.Signature
		}
		if sig == nil {
			continue
		}
		for i := 0; i < sig.Results().Len() && i < len(e.Res); i++ {
			if types.Identical(sig.Results().At(i).Type(), errorType) {
				l = append(l, errRes{e, e.Res[i]})
			}
		}
	}
	return l
}

// outstandingIn is an error, returned by a call among evs, that is not known to be nil. One that the
// next iteration of a loop starts with is looked at there.
func outstandingIn(p *Path, evs []*Event, f *fact, w *Term) *errRes {
	rs := errorResults(evs, w)
	for _, e := range evs {
		if e.Kind != EvLoop {
			continue
		}
		for l := range e.Init {
			if l.Typ != nil && types.Identical(l.Typ, errorType) && !alwaysNilIn(e, l) {
				rs = append(rs, errRes{e, l})
			}
		}
	}
results:
	for i := range rs {
		if errNil(f, rs[i].t) {
			continue
		}
		if p.Out == OutBack && f == p.Facts {
			for l, nx := range p.Next {
				if nx == rs[i].t && l.Typ != nil && types.Identical(l.Typ, errorType) && errNil(f, l) {
					continue results
				}
			}
		}
		return &rs[i]
	}
	return nil
}

func (r *errRes) what() string {
	if r.ev.Kind == EvLoop {
		return "the loop"
	}
	if r.ev.Kind == EvReturn {
		return shortName(r.ev.Fn.String())
	}
	return shortName(r.ev.Name)
}

// ---- responses

// errorStatus: does the event send an error status?
func errorStatus(e *Event, w *Term, f *fact) bool {
	if e.Kind != EvCall || len(e.Args) == 0 || e.Args[0] != w {
		return false
	}
	switch e.Name {
	case "net/http.NotFound":
		return true
	case "net/http.Error":
		return len(e.Args) == 3 && errCode(e.Args[2], f)
	case "net/http.ResponseWriter.WriteHeader":
		return errCode(e.Args[1], f)
	}
	return false
}

func errCode(t *Term, f *fact) bool {
	if t.isInt() {
		return t.sval() >= 400 && t.sval() < 600 && http.StatusText(int(t.sval())) != ""
	}
	return isFalse(f, bslt(t, mkInt(64, 400))) && isTrue(f, bslt(t, mkInt(64, 600)))
}

// writesTo: does the event write (part of) the response?
func writesTo(e *Event, w *Term) bool {
	if e.Kind == EvGo || e.Kind == EvCall {
		if e.Name == "net/http.ResponseWriter.Header" {
			return false
		}
		for _, a := range e.Args {
			if a == w {
				return true
			}
			if a.Op == "closure" && contains(a, w) {
				return true
			}
		}
	}
	return false
}

// surely writes the body or the status
func definiteWrite(e *Event, w *Term) bool {
	if e.Kind != EvCall || !writesTo(e, w) {
		return false
	}
	switch e.Name {
	case "net/http.ResponseWriter.Write", "io.Writer.Write", "net/http.Error", "net/http.NotFound", "net/http.ResponseWriter.WriteHeader",
		"io.WriteString", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "io.Copy", "net/http.Redirect":
		return true
	}
	return false
}

// firstStatus is the index of the first event of evs that sends an error status, or -1.
func firstStatus(evs []*Event, w *Term, f *fact) int {
	for i, e := range evs {
		if errorStatus(e, w, f) {
			return i
		}
	}
	return -1
}

func handlersOf(c *Check) ([]*handler, []*handler) {
	var obs, qs []*handler
	for _, h := range c.server().hs {
		if h.obs {
			obs = append(obs, h)
		}
		if h.query {
			qs = append(qs, h)
		}
	}
	if len(obs) == 0 {
		c.fail("handlers:obs", token.NoPos, "no registered handler stores observations")
	}
	if len(qs) == 0 {
		c.fail("handlers:query", token.NoPos, "no registered handler answers queries")
	}
	return obs, qs
}

// ---- C09

// rangeLoop: does the loop entered by event e on the path visit every index of the sequence seq
// once, in the iteration index returned, and is it left only at the end?
func rangeLoop(e *Event, after []*Event, isSeq func(*Term) bool) (idx *Term, n *Term, why string) {
	return boundLoop(e, after, func(n *Term) bool { return n.Op == "len" && isSeq(n.Args[0]) })
}

// boundLoop: the same for the numbers from 0 to some bound.
func boundLoop(e *Event, after []*Event, isBound func(*Term) bool) (idx *Term, n *Term, why string) {
	bs := backsOf(e)
	if len(bs) == 0 {
		return nil, nil, "it has no iteration"
	}
	var cands []*Term
	why = "no index that advances by one"
	for l, init := range e.Init {
		if l.W != 64 || !init.isInt() {
			continue
		}
		good := true
		for _, b := range bs {
			good = good && b.Next[l] == iadd(l, mkInt(64, 1))
		}
		if good {
			cands = append(cands, l)
		}
	}
	sort.Slice(cands, func(i, j int) bool { return cands[i].ID < cands[j].ID })
	for _, v := range cands {
		x := v
		if first := e.Init[v].sval(); first == -1 {
			x = iadd(v, mkInt(64, 1))
		} else if first != 0 {
			why = "it does not start at the first element"
			continue
		}
		if n, why = upTo(e, bs, after, x, isBound); why == "" {
			return x, n, ""
		}
	}
	return nil, nil, why
}

func upTo(e *Event, bs []*Path, after []*Event, x *Term, isBound func(*Term) bool) (n *Term, why string) {
	for _, b := range bs {
		found := false
		k := 0
		for i, ev := range b.Events {
			if ev == e {
				k = i
			}
		}
		for _, ev := range b.Events[k:] {
			if ev.Kind != EvBranch {
				continue
			}
			subterms(ev.Cond, func(ln *Term) bool {
				if !found && ln.W == 64 && stays(ev.Cond, ev.Taken, x, ln) && isBound(ln) {
					found, n = true, ln
				}
				return !found
			})
		}
		if !found {
			return nil, "it does not run up to the end of the list"
		}
	}
	for i, ev := range after {
		if ev.Kind == EvLoopEnd && ev.Loop == e.Loop {
			if i > 0 && after[i-1].Kind == EvBranch && leaves(after[i-1].Cond, after[i-1].Taken, x, n) {
				return n, ""
			}
			return nil, "it may be left before the end"
		}
	}
	return nil, "it is not left"
}

// stays: the test decides that index x is before the end n of the list.
func stays(cond *Term, taken bool, x, n *Term) bool {
	var none *fact
	f, ok := none.assume(cond, taken)
	return ok && (isTrue(f, bslt(x, n)) || isFalse(f, beq(x, n)))
}

// leaves: the test decides that index x is at the end n of the list.
func leaves(cond *Term, taken bool, x, n *Term) bool {
	var none *fact
	f, ok := none.assume(cond, taken)
	return ok && (isFalse(f, bslt(x, n)) || isTrue(f, beq(x, n)))
}

// eatLoop: does the loop take the first element off a sequence until none is left? It returns the
// variable that is the rest of the sequence.
func eatLoop(e *Event, after []*Event) *Term {
	bs := backsOf(e)
	for l := range e.Init {
		if l.W != 0 || !isSliceOrString(l) || len(bs) == 0 {
			continue
		}
		n := mkLen(l)
		good := true
		for _, b := range bs {
			base, off, ln := sliceParts(b.Next[l])
			base0, off0, ln0 := sliceParts(l)
			good = good && base == base0 && off == iadd(off0, mkInt(64, 1)) && ln == isub(ln0, mkInt(64, 1)) && isTrue(b.Facts, bslt(mkInt(64, 0), n))
		}
		for i, ev := range after {
			if ev.Kind == EvLoopEnd && ev.Loop == e.Loop {
				good = good && i > 0 && after[i-1].Kind == EvBranch && leaves(after[i-1].Cond, after[i-1].Taken, mkInt(64, 0), n)
				break
			}
		}
		if good {
			return l
		}
	}
	return nil
}

// everyLoop: does the loop visit every index of a sequence once, in whatever order?
func everyLoop(e *Event, after []*Event, isSeq func(*Term) bool) (idx *Term, why string) {
	if idx, _, why = rangeLoop(e, after, isSeq); why == "" {
		return idx, ""
	}
	bs := backsOf(e)
	for l, init := range e.Init {
		if l.W != 64 || len(bs) == 0 {
			continue
		}
		down := true
		for _, b := range bs {
			down = down && b.Next[l] == iadd(l, mkInt(64, ^uint64(0)))
		}
		if !down {
			continue
		}
		for _, x := range []*Term{l, iadd(l, mkInt(64, ^uint64(0)))} {
			n := iadd(subst(x, map[*Term]*Term{l: init}), mkInt(64, 1))
			if n.Op != "len" || !isSeq(n.Args[0]) {
				continue
			}
			good := true
			for _, b := range bs {
				good = good && (isFalse(b.Facts, bslt(x, mkInt(64, 0))) || isFalse(b.Facts, beq(x, mkInt(64, ^uint64(0)))))
			}
			for i, ev := range after {
				if ev.Kind == EvLoopEnd && ev.Loop == e.Loop {
					good = good && i > 0 && after[i-1].Kind == EvBranch && leaves(after[i-1].Cond, after[i-1].Taken, mkInt(64, ^uint64(0)), x)
					break
				}
			}
			if good {
				return x, ""
			}
		}
	}
	return nil, why
}

// isStores: the list of stores of the server.
func isStores(t *Term) bool {
	a := loadAddr(t)
	if a == nil || a.Op != "fa" || t.Typ == nil {
		return false
	}
	s, ok := t.Typ.Underlying().(*types.Slice)
	return ok && strings.HasSuffix(types.TypeString(s.Elem(), nil), "internal/storage.Store")
}

// lineOf: the calls that yield the text of the current line
func isLine(e *Event) bool {
	return e.Kind == EvCall && (e.Name == "bufio.Scanner.Bytes" || e.Name == "bufio.Scanner.Text")
}

func derives(t *Term, of *Term, depth int) bool {
	found := false
	subterms(t, func(s *Term) bool {
		if s == of {
			found = true
		}
		if !found && depth > 0 && s.Def != nil {
			switch s.Def.Kind {
			case "res", "mem", "phi", "append":
				for _, a := range s.Def.Args {
					if a != nil && derives(a, of, depth-1) {
						found = true
					}
				}
			}
		}
		return !found
	})
	return found
}

// source checks where the scanner reads from.
func (h *handler) source(t *Term, evs []*Event, f *fact) string {
	for n := 0; n < 10; n++ {
		if t.Op == "iface" {
			t = t.Args[0]
			continue
		}
		if a := loadAddr(t); a != nil && a.Op == "fa" && isNamed(a.Typ, "net/http", "Request") && isNamed(t.Typ, "io", "ReadCloser") {
			if baseRoot(a) == h.req || a.Args[0] == h.req {
				return ""
			}
			return "it is not the body of this request"
		}
		if t.Def == nil || t.Def.Kind != "res" {
			return "it is unclear what is read: " + t.String()
		}
		as := t.Def.Args[1:]
		switch t.Def.Callee {
		case "io.NopCloser", "io/ioutil.NopCloser", "bufio.NewReader", "bufio.NewReaderSize", "strings.NewReader", "bytes.NewReader", "bytes.NewBufferString", "bytes.NewBuffer":
			t = as[0]
			if t.Op == "bytesof" || t.Op == "strof" {
				t = t.Args[0]
			}
		case "net/http.MaxBytesReader":
			t = as[1]
		case "net/http.Request.FormValue", "net/http.Request.PostFormValue":
			// these do not report errors: that the form can be read must be known already
			for _, r := range errorResults(evs, h.w) {
				if (r.ev.Name == "net/http.Request.ParseForm" || r.ev.Name == "net/http.Request.ParseMultipartForm") && r.ev.Args[0] == as[0] && errNil(f, r.t) {
					return ""
				}
			}
			return "an error in the form is not noticed"
		default:
			return "it may not yield all of the request: " + shortName(t.Def.Callee)
		}
	}
	return "unclear"
}

func c09(c *Check) {
	obs, _ := handlersOf(c)
	for _, h := range obs {
		c09handler(c, h)
	}
}

// scanLoop is the loop in which the lines are read, on this path.
func scanLoop(evs []*Event) (*Event, int) {
	for i, e := range evs {
		if e.Kind != EvLoop {
			continue
		}
		for _, b := range backsOf(e) {
			k := 0
			for j, x := range b.Events {
				if x == e {
					k = j
				}
			}
			for _, x := range b.Events[k+1:] {
				if x.Kind == EvCall && x.Name == "bufio.Scanner.Scan" {
					return e, i
				}
				if x.Kind == EvLoop {
					break
				}
			}
		}
	}
	return nil, -1
}

func c09handler(c *Check, h *handler) {
	key := h.name
	sawLoop := false
	for _, p := range h.it.Paths {
		evs := p.Events
		pos := p.Pos
		// nothing is stored once something has failed
		for i, e := range evs {
			if e.Kind == EvGo {
				c.fail("go:"+key, e.Pos, "part of the request is handled in another goroutine, whose outcome the response cannot reflect")
			}
			if !isStoreCall(e, "Write") {
				continue
			}
			if o := outstandingIn(p, evs[:i], e.Facts, h.w); o != nil {
				c.fail("store-after-failure:"+key, e.Pos, "an observation is stored although %s may have failed before (%s)", o.what(), c.P.posStr(o.ev.Pos))
			} else {
				c.ok("stored only if nothing failed before")
			}
			if k := firstStatus(evs[:i], h.w, e.Facts); k >= 0 {
				c.fail("store-after-status:"+key, e.Pos, "an observation is stored after an error was sent (%s)", c.P.posStr(evs[k].Pos))
			}
		}
		switch p.Out {
		case OutReturn:
		case OutBack:
			if o := outstandingIn(p, evs, p.Facts, h.w); o != nil {
				c.fail("continue-after-failure:"+key, pos, "handling goes on although %s may have failed (%s)", o.what(), c.P.posStr(o.ev.Pos))
			} else {
				c.ok("goes on only if nothing failed")
			}
			if k := firstStatus(evs, h.w, p.Facts); k >= 0 {
				c.fail("continue-after-status:"+key, pos, "handling goes on after an error was sent (%s)", c.P.posStr(evs[k].Pos))
			}
			for _, e := range evs {
				if e.Kind == EvSelect && e.Index >= 0 && isDone(e.Addr) {
					c.fail("continue-after-cancel:"+key, pos, "handling goes on after the request was found to be cancelled")
				}
			}
			continue
		case OutPanic:
			continue
		default:
			c.fail("end:"+key, pos, "the handler ends with %s", p.Out)
			continue
		}
		k := firstStatus(evs, h.w, p.Facts)
		if k >= 0 {
			for _, e := range flatten(evs[:k]) {
				if definiteWrite(e, h.w) {
					c.fail("late-status:"+key, e.Pos, "part of a response is written before the error status, which is then not sent")
				}
			}
			c.ok("failure is reported")
			continue
		}
		// success
		if o := outstandingIn(p, evs, p.Facts, h.w); o != nil {
			c.fail("success-after-failure:"+key, o.ev.Pos, "success is reported although %s may have failed", o.what())
			continue
		}
		bad := false
		for _, e := range evs {
			if e.Kind == EvSelect && e.Index >= 0 && isDone(e.Addr) {
				c.fail("success-after-cancel:"+key, e.Pos, "success is reported although the request was cancelled")
				bad = true
			}
		}
		for i, e := range evs {
			if e.Kind == EvCall && e.Name == "context.Context.Err" && !errNil(p.Facts, e.Res[0]) && i >= 0 {
				c.fail("success-after-cancel:"+key, e.Pos, "success is reported although the request may have been cancelled")
				bad = true
			}
		}
		if bad {
			continue
		}
		l, li := scanLoop(evs)
		if l == nil {
			c.fail("no-lines:"+key, pos, "success is reported without reading the lines of the request")
			continue
		}
		sawLoop = true
		c.ok("success only after all lines")
		h.lines(c, p, evs, l, li)
	}
	if !sawLoop {
		c.fail("never:"+key, h.it.Root.Pos(), "no path reads the lines of a request and reports success")
	}
}

func isDone(ch *Term) bool {
	return ch != nil && ch.Def != nil && ch.Def.Kind == "res" && ch.Def.Callee == "context.Context.Done"
}

// lines checks a successful path through the loop over the lines.
func (h *handler) lines(c *Check, p *Path, evs []*Event, l *Event, li int) {
	key := h.name
	var scan *Event
	at := 0
	for i, e := range evs {
		if e.Kind == EvCall && e.Name == "bufio.Scanner.Scan" {
			scan, at = e, i
		}
	}
	if scan == nil || !isFalse(p.Facts, scan.Res[0]) {
		c.fail("lines-left:"+key, l.Pos, "success is reported although lines may be left")
		return
	}
	sc := scan.Args[0]
	checked := false
	for _, e := range evs[at:] {
		if e.Kind == EvCall && e.Name == "bufio.Scanner.Err" && e.Args[0] == sc && errNil(p.Facts, e.Res[0]) {
			checked = true
		}
	}
	c.must(checked, "read errors are noticed", key, scan.Pos, "success is reported without asking the scanner whether it failed")
	for _, e := range flatten(evs) {
		if e.Kind == EvCall && e.Name == "bufio.Scanner.Split" {
			f := e.Args[1]
			if f.Op != "func" || f.Fn == nil || f.Fn.Name() != "ScanLines" {
				c.fail("split:"+key, e.Pos, "the request is not split in lines")
			}
		}
	}
	if sc.Def == nil || sc.Def.Kind != "res" || sc.Def.Callee != "bufio.NewScanner" {
		c.fail("scanner:"+key, scan.Pos, "it is unclear what is scanned")
		return
	}
	why := h.source(sc.Def.Args[1], evs, p.Facts)
	c.must(why == "", "all of the request is read", key, scan.Pos, "the lines are not read from all of the request: %s", why)
	for _, b := range backsOf(l) {
		h.line(c, b, l, sc)
	}
}

// line checks one iteration: the line is parsed and offered to every store.
func (h *handler) line(c *Check, b *Path, l *Event, sc *Term) {
	key := h.name
	k := 0
	for i, e := range b.Events {
		if e == l {
			k = i
		}
	}
	evs := b.Events[k:]
	scans := 0
	var text *Term
	for _, e := range evs {
		if e.Kind == EvCall && e.Name == "bufio.Scanner.Scan" && e.Args[0] == sc {
			scans++
			if !isTrue(b.Facts, e.Res[0]) {
				c.fail("scan:"+key, e.Pos, "a line is handled although there may be none")
			}
		}
		if isLine(e) && e.Args[0] == sc {
			text = e.Res[0]
		}
	}
	if !c.must(scans == 1, "one line at a time", key, l.Pos, "an iteration reads %d lines", scans) {
		return
	}
	if !c.must(text != nil, "line is read", key, b.Pos, "a line is skipped") {
		return
	}
	texts := []*Term{text} // and copies of it
	for _, e := range flatten(evs) {
		if e.Kind == EvCopy && derives(e.Args[1], text, 6) {
			if d, _, _ := sliceParts(e.Args[0]); d.Op == "obj" {
				texts = append(texts, d)
			}
		}
	}
	done := false
	for i, e := range evs {
		if e.Kind != EvLoop || i == 0 {
			continue
		}
		writes := false
		for _, x := range backsOf(e) {
			for _, y := range x.Events {
				if isStoreCall(y, "Write") {
					writes = true
				}
			}
		}
		if !writes {
			continue
		}
		done = true
		idx, _, why := rangeLoop(e, evs[i+1:], isStores)
		if !c.must(why == "", "every store", key, l.Pos, "the line is not offered to every store: %s", why) {
			continue
		}
		for _, x := range backsOf(e) {
			n := 0
			kk := 0
			for j, y := range x.Events {
				if y == e {
					kk = j
				}
			}
			for _, y := range x.Events[kk:] {
				if !isStoreCall(y, "Write") {
					continue
				}
				n++
				st := y.Args[0]
				v := st
				if st.Op == "obj" {
					v = y.Mem(st, elemType(st.Typ))
				}
				if a := loadAddr(v); a != nil {
					v = a
				}
				okStore := false
				subterms(v, func(s *Term) bool {
					if s.Op == "ia" && s.Args[1] == idx {
						okStore = true
					}
					return !okStore
				})
				c.must(okStore, "this store", key, y.Pos, "the observation is not offered to the store of this iteration")
				row := y.Args[len(y.Args)-1]
				mine := false
				for _, t := range texts {
					mine = mine || derives(row, t, 6)
				}
				c.must(mine, "this line", key, y.Pos, "what is stored is not what was parsed from the current line")
			}
			c.must(n == 1, "offered once", key, l.Pos, "a store is offered a line %d times", n)
		}
	}
	c.must(done, "stored", key, b.Pos, "a line is not offered to the stores")
}

// ---- C32

// freshCheck: was the cancellation of ctx looked at among evs, and did not show?
func freshCheck(evs []*Event, f *fact) *Term {
	for _, e := range evs {
		if e.Kind == EvSelect && e.Index == -1 {
			for _, ch := range e.Args {
				if isDone(ch) {
					return ch.Def.Args[len(ch.Def.Args)-1]
				}
			}
		}
		if e.Kind == EvCall && e.Name == "context.Context.Err" && errNil(f, e.Res[0]) {
			return e.Args[0]
		}
	}
	return nil
}

// cancelled: the index of the event in which cancellation shows, or -1.
func cancelled(evs []*Event, f *fact) int {
	for i, e := range evs {
		if e.Kind == EvSelect && e.Index >= 0 && isDone(e.Addr) {
			return i
		}
		if e.Kind == EvCall && e.Name == "context.Context.Err" && errNonNil(f, e.Res[0]) {
			return i
		}
	}
	return -1
}

// requestContext: is ctx the context of the request, or derived from it?
func requestContext(ctx, req *Term) bool {
	for n := 0; n < 10; n++ {
		if ctx.Op == "iface" || ctx.Def == nil || ctx.Def.Kind != "res" {
			return false
		}
		as := ctx.Def.Args[1:]
		switch ctx.Def.Callee {
		case "net/http.Request.Context":
			return as[0] == req || as[0].Def != nil && as[0].Def.Callee == "net/http.Request.WithContext" && requestContext(as[0].Def.Args[2], req)
		case "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.WithValue", "context.WithCancelCause":
			ctx = as[0]
		default:
			return false
		}
	}
	return false
}

func c32(c *Check) {
	obs, _ := handlersOf(c)
	for _, h := range obs {
		for _, p := range h.it.Paths {
			evs := p.Events
			if k := cancelled(evs, p.Facts); k >= 0 {
				for _, e := range flatten(evs[k+1:]) {
					if isStoreCall(e, "Write") {
						c.fail("write-after-cancel:"+h.name, e.Pos, "an observation is stored after the request was found to be cancelled")
					}
				}
				c.ok("nothing after cancellation")
				if p.Out == OutBack {
					c.fail("continue-after-cancel:"+h.name, p.Pos, "handling goes on after the request was found to be cancelled")
				}
			}
			for _, e := range evs {
				if isStoreCall(e, "Write") {
					ctx := e.Args[1]
					c.must(requestContext(ctx, h.req), "context of the request", h.name, e.Pos, "the context given to the store is not that of the request: %s", ctx)
				}
			}
			l, li := scanLoop(evs)
			if l == nil {
				continue
			}
			_ = li
			for i, e := range evs {
				if !isStoreCall(e, "Write") {
					continue
				}
				ctx := freshCheck(evs[li:i], e.Facts)
				if ctx == nil {
					c.fail("line-unchecked:"+h.name, e.Pos, "a line is stored without checking afresh whether the request has been cancelled")
				} else {
					c.must(requestContext(ctx, h.req), "checked before each line", h.name, e.Pos, "it is not the cancellation of the request that is checked: %s", ctx)
				}
			}
			if p.Out == OutBack && p.Loop == l.Loop {
				ctx := freshCheck(evs[li:], p.Facts)
				c.must(ctx != nil && requestContext(ctx, h.req), "checked for each line", h.name, p.Pos, "a line is handled without checking afresh whether the request has been cancelled")
			}
		}
	}
	// the store
	fn := c.fn("internal/storage", "Store.Write")
	if fn == nil {
		return
	}
	it := c.run(fn, &Config{Opaque: func(f *ssa.Function) bool {
		pk := fnPkg(f)
		return pk == nil || pk.Path() != c.P.path("internal/storage")
	}})
	if len(it.Params) < 3 {
		c.fail("params", fn.Pos(), "Store.Write has no context")
		return
	}
	ctx := it.Params[1]
	n := 0
	for _, p := range it.Paths {
		k := cancelled(p.Events, p.Facts)
		for i, e := range p.Events {
			if !isUpdate(e) {
				continue
			}
			n++
			if k >= 0 && i > k {
				c.fail("update-after-cancel", e.Pos, "a record is changed after the request was found to be cancelled")
				continue
			}
			got := freshCheck(p.Events[:i], e.Facts)
			c.must(got == ctx, "checked before each change", "store", e.Pos, "a record is changed without checking whether the request has been cancelled")
			// one change for each check
			for _, x := range p.Events[:i] {
				if isUpdate(x) {
					if freshCheck(p.Events[indexOf(p.Events, x):i], e.Facts) == nil {
						c.fail("update-unchecked", e.Pos, "a second change is made without checking afresh whether the request has been cancelled")
					}
				}
			}
		}
		if k >= 0 && p.Out == OutReturn {
			r := p.Ret[len(p.Ret)-1]
			isErr := errNonNil(p.Facts, r) || r.Def != nil && r.Def.Kind == "res" && r.Def.Callee == "context.Context.Err" && r.Def.Args[len(r.Def.Args)-1] == ctx
			c.must(isErr, "cancellation is an error", "store", p.Pos, "the store reports success although the request was cancelled")
		}
	}
	if n == 0 {
		c.fail("no-update", fn.Pos(), "Store.Write never updates the backend")
	}
}

func indexOf(evs []*Event, e *Event) int {
	for i, x := range evs {
		if x == e {
			return i
		}
	}
	return -1
}

func isUpdate(e *Event) bool {
	return e.Kind == EvCall && (strings.HasSuffix(e.Name, "internal/storage.Backend.Update") || strings.HasSuffix(e.Name, "internal/bufmap.Map.Update"))
}

// ---- C11

func c11(c *Check) {
	obs, qs := handlersOf(c)
	si := c.server()
	check := func(h *handler, kind string, methods map[string]bool) {
		for _, p := range h.it.Paths {
			// after an error nothing is written
			for i, e := range p.Events {
				if !errorStatus(e, h.w, e.Facts) {
					continue
				}
				bad := false
				for _, x := range flatten(p.Events[i+1:]) {
					if e.Name == "net/http.ResponseWriter.WriteHeader" && x.Kind == EvCall && x.Name != "net/http.ResponseWriter.WriteHeader" && x.Name != "net/http.Error" && x.Name != "net/http.NotFound" && writesTo(x, h.w) && p.Out == OutReturn {
						// the text of the error
						continue
					}
					if x.Name == "net/http.Flusher.Flush" {
						continue
					}
					if writesTo(x, h.w) {
						bad = true
						c.fail("after-error:"+h.name, x.Pos, "more is written to the response after an error was sent (%s)", c.P.posStr(e.Pos))
					}
				}
				if p.Out == OutBack {
					bad = true
					c.fail("after-error:"+h.name, p.Pos, "handling goes on after an error was sent (%s)", c.P.posStr(e.Pos))
				}
				if !bad {
					c.ok("nothing after an error")
				}
				break
			}
			if methods == nil {
				continue
			}
			for _, e := range p.Events {
				if !isStoreCall(e, "Write") && !isStoreCall(e, "Read") {
					continue
				}
				c.must(methodIs(e.Facts, h.req, methods), "method", h.name, e.Pos, "%s without it being known that the method of the request is one of %v", kind, keysOf(methods))
				if h.obs {
					c.must(mediaType(e.Facts, h.req), "media type", h.name, e.Pos, "observations are taken without it being known that the media type of the request is supported")
				}
			}
			if p.Out != OutReturn {
				continue
			}
			// anything else gets an error
			if firstStatus(p.Events, h.w, p.Facts) < 0 {
				c.must(methodIs(p.Facts, h.req, methods), "other methods", h.name, p.Pos, "a request of another method gets no error")
				if h.obs {
					c.must(mediaType(p.Facts, h.req), "other media types", h.name, p.Pos, "a request of an unsupported media type gets no error")
				}
			}
		}
	}
	for _, h := range si.hs {
		switch {
		case h.obs && contains2(obs, h):
			check(h, "observations are taken", map[string]bool{"POST": true})
		case h.query && contains2(qs, h):
			check(h, "a query is answered", map[string]bool{"POST": true, "GET": true})
		default:
			check(h, "", nil)
		}
	}
	// caching
	if len(si.roots) == 0 {
		c.fail("root", token.NoPos, "no handler is given to the http server")
	}
	for _, r := range si.roots {
		if h := unwrapHandler(r.h); h.Op == "iface" && isMux(h) {
			c.fail("cache:mux", r.ev.Pos, "responses do not carry the header that disables caching: the handler of the server is the mux itself")
		}
	}
	for _, h := range si.rootH {
		for _, p := range h.it.Paths {
			set := false
			for _, e := range flatten(p.Events) {
				if e.Kind == EvGo {
					c.fail("cache:go", e.Pos, "the request is handled in another goroutine")
				}
				if v := cacheHeader(e, h.w); v != 0 {
					set = v > 0
				} else if writesTo(e, h.w) {
					c.must(set, "no caching", h.name, e.Pos, "a response may be sent before the header that disables caching is set")
				}
			}
		}
	}
	// and it stays so
	for _, h := range si.hs {
		for _, p := range h.it.Paths {
			for _, e := range p.Events {
				if cacheHeader(e, h.w) < 0 {
					c.fail("cache:"+h.name, e.Pos, "the header that disables caching is removed or replaced")
				}
			}
		}
	}
	// wrappers that answer themselves
	for _, it := range si.setup {
		for _, p := range it.Paths {
			for _, e := range p.Events {
				if e.Kind == EvCall && e.Name == "net/http.TimeoutHandler" {
					c.fail("timeout-handler", e.Pos, "net/http.TimeoutHandler answers before the handler is done")
				}
			}
		}
	}
}

func contains2(l []*handler, h *handler) bool {
	for _, x := range l {
		if x == h {
			return true
		}
	}
	return false
}

func keysOf(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// cacheHeader: 1 if the event disables caching, -1 if it undoes that, 0 otherwise.
func cacheHeader(e *Event, w *Term) int {
	isHeader := func(t *Term) bool {
		return t.Def != nil && t.Def.Kind == "res" && t.Def.Callee == "net/http.ResponseWriter.Header" && t.Def.Args[len(t.Def.Args)-1] == w
	}
	off := func(v string) bool {
		for _, d := range strings.Split(strings.ToLower(v), ",") {
			d = strings.TrimSpace(d)
			if d == "no-cache" || d == "no-store" {
				return true
			}
		}
		return false
	}
	switch e.Kind {
	case EvCall:
		if len(e.Args) < 2 || !isHeader(e.Args[0]) {
			return 0
		}
		k, ok := strVal(e.Args[1])
		if !ok {
			return -1
		}
		if http.CanonicalHeaderKey(k) != "Cache-Control" {
			return 0
		}
		switch e.Name {
		case "net/http.Header.Set":
			if v, ok := strVal(e.Args[2]); ok && off(v) {
				return 1
			}
			return -1
		case "net/http.Header.Add":
			if v, ok := strVal(e.Args[2]); ok && off(v) {
				return 1
			}
			return 0
		case "net/http.Header.Del":
			return -1
		}
	case EvMapUpd:
		if !isHeader(e.Args[0]) {
			return 0
		}
		k, ok := strVal(e.Args[1])
		if ok && k == "Cache-Control" {
			good := false
			subterms(e.Args[2], func(s *Term) bool {
				if v, ok := strVal(s); ok && off(v) {
					good = true
				}
				return true
			})
			if good {
				return 1
			}
			return -1
		}
	case EvMapDel:
		if len(e.Args) > 1 && isHeader(e.Args[0]) {
			if k, ok := strVal(e.Args[1]); !ok || k == "Cache-Control" {
				return -1
			}
		}
	}
	return 0
}

// methodIs: is the method of the request known to be one of ms?
func methodIs(f *fact, req *Term, ms map[string]bool) bool {
	for y := f; y != nil; y = y.up {
		if !y.val || y.cond.Op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			v, ok := strVal(y.cond.Args[i])
			if !ok || !ms[v] {
				continue
			}
			if a := loadAddr(y.cond.Args[1-i]); a != nil && a.Op == "fa" && isNamed(a.Typ, "net/http", "Request") && a.Args[0] == req && fieldName(a) == "Method" {
				return true
			}
		}
	}
	return false
}

func fieldName(a *Term) string {
	s := structOf(a.Typ)
	if s == nil {
		return ""
	}
	k := 0
	for i := range a.Aux {
		k = k*10 + int(a.Aux[i]-'0')
	}
	if k < s.NumFields() {
		return s.Field(k).Name()
	}
	return ""
}

var mediaTypes = map[string]bool{"application/x-www-form-urlencoded": true, "text/plain": true, "application/octet-stream": true}

// mediaType: is the media type of the request known to be a supported one?
func mediaType(f *fact, req *Term) bool {
	isHdr := func(t *Term) bool { return typeHeader(t, req) }
	for y := f; y != nil; y = y.up {
		if y.cond == nil {
			continue
		}
		// no content type: taken to be a stream of bytes
		none := false
		subterms(y.cond, func(t *Term) bool {
			none = none || t.Op == "len" && isHdr(t.Args[0]) && knownEmpty(f, t.Args[0])
			return !none
		})
		if none {
			return true
		}
	}
	for y := f; y != nil; y = y.up {
		if !y.val {
			continue
		}
		switch y.cond.Op {
		case "eq":
			for i := 0; i < 2; i++ {
				v, ok := strVal(y.cond.Args[i])
				if !ok || !mediaTypes[v] {
					continue
				}
				t := y.cond.Args[1-i]
				if isHdr(t) {
					return true
				}
				if t.Op == "call" && t.Aux == "mime.ParseMediaType#0" && isHdr(t.Args[0]) {
					// and it is well formed
					for z := f; z != nil; z = z.up {
						if z.val && z.cond.Op == "isnil" && z.cond.Args[0].Op == "call" && z.cond.Args[0].Aux == "mime.ParseMediaType#2" && z.cond.Args[0].Args[0] == t.Args[0] {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func init() {
	register(&checkDef{id: "C09", run: c09,
		rule:   "on every path through a handler that stores observations: each call of storage.Store.Write and each next iteration happens only if every error returned before on the path is known to be nil; a path that ends without an error status has read the scanner to the end over all of the request, checked its error, and in every iteration offered what was parsed from that line once to each element of the list of stores",
		floor:  map[string]int{"success only after all lines": 1, "failure is reported": 3, "every store": 1, "this store": 1, "this line": 1},
		assume: []string{"bufio.Scanner, net/http and mime behave as documented"}})
	register(&checkDef{id: "C11", run: c11,
		rule:  "typestate of the response on every path of every handler: no write after an error status; observations stored only where the method is known to be POST and the media type to be supported, records read only where the method is GET or POST; every other request gets an error status; the outermost handler sets Cache-control before anything else receives the response",
		floor: map[string]int{"nothing after an error": 3, "method": 2, "media type": 1, "no caching": 1}})
	register(&checkDef{id: "C32", run: c32,
		rule:  "on every path: between the start of an iteration over the lines and a store's Write, and between the entry of Store.Write and Backend.Update, the Done channel (or Err) of the request's own context is looked at without blocking; after cancellation shows no write and no further iteration follows",
		floor: map[string]int{"checked before each change": 1, "checked before each line": 1, "context of the request": 1, "nothing after cancellation": 1}})
}
