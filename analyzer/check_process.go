package main

// C28: the process reports failure and heeds termination.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	sigINT  = 2
	sigTERM = 15
)

var termination = []uint64{sigINT, sigTERM}

// notice is a channel on which signals arrive.
type notice struct {
	ch   *Term
	all  bool
	sigs map[uint64]bool
	ev   *Event
	at   int
}

func (n *notice) has(s uint64) bool { return n.all || n.sigs[s] }

func signalOf(t *Term) (uint64, bool) {
	if t.Op == "iface" && len(t.Args) == 1 && t.Args[0].isInt() {
		return t.Args[0].V, true
	}
	s := t.String()
	if strings.Contains(s, "os.Interrupt") {
		return sigINT, true
	}
	if strings.Contains(s, "os.Kill") {
		return 9, true
	}
	return 0, false
}

// doneOf: is t the channel that closes when the context ctx is done?
func doneOf(t, ctx *Term) bool {
	return t != nil && isDone(t) && t.Def.Args[len(t.Def.Args)-1] == ctx
}

// notices are the registrations for signals among evs.
func notices(evs []*Event) []*notice {
	var l []*notice
	for i, e := range evs {
		if e.Kind != EvCall {
			continue
		}
		n := &notice{sigs: map[uint64]bool{}, ev: e, at: i}
		switch e.Name {
		case "os/signal.Notify":
			n.ch = e.Args[0]
		case "os/signal.NotifyContext":
			if len(e.Res) == 0 {
				continue
			}
			n.ch = e.Res[0]
		default:
			continue
		}
		if len(e.Args) == 1 {
			n.all = true
		}
		for _, a := range e.Args[1:] {
			if s, ok := signalOf(a); ok {
				n.sigs[s] = true
			}
		}
		l = append(l, n)
	}
	return l
}

// delivers: does something received from ch come from the registration?
func (n *notice) delivers(ch *Term) bool { return ch != nil && (n.ch == ch || doneOf(ch, n.ch)) }

// refuted: is the received value v known not to be the signal?
func refuted(f *fact, v *Term, sig uint64) bool {
	for y := f; y != nil; y = y.up {
		if y.cond.Op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			if !contains(y.cond.Args[i], v) {
				continue
			}
			o := y.cond.Args[1-i]
			s, ok := signalOf(o)
			if !ok && o.isInt() {
				s, ok = o.V, true
			}
			if ok && (!y.val && s == sig || y.val && s != sig) {
				return true
			}
		}
	}
	return false
}

type receipt struct {
	ev *Event
	ch *Term
	v  *Term // received value or nil
	at int
}

func receipts(evs []*Event) []receipt {
	var l []receipt
	for i, e := range evs {
		if e.Kind == EvRecv || e.Kind == EvSelect && e.Index >= 0 && e.Val == nil {
			r := receipt{ev: e, ch: e.Addr, at: i}
			if len(e.Res) > 0 {
				r.v = e.Res[0]
			}
			l = append(l, r)
		}
	}
	return l
}

// process is what main starts, on one path.
type process struct {
	c     *Check
	it    *Interp
	p     *Path
	ns    []*notice
	stops map[*Term]bool // channels that tell that serving has ended
	fails map[*Term]bool // and always with an error
	tells map[*Term]bool // channels that pass the arrival of a signal on
	ends  bool           // a goroutine ends the process when a signal arrives
	shuts bool           // or shuts the server down
}

var listens = map[string]bool{
	"net.Listen": true, "net.ListenTCP": true, "net.ListenUnix": true, "net.ListenConfig.Listen": true, "crypto/tls.Listen": true,
}

func isServe(e *Event) bool {
	return e.Kind == EvCall && (strings.HasPrefix(e.Name, "net/http.Server.Serve") || strings.HasPrefix(e.Name, "net/http.Serve") && !strings.HasPrefix(e.Name, "net/http.ServeMux") && !strings.HasPrefix(e.Name, "net/http.ServeFile") && !strings.HasPrefix(e.Name, "net/http.ServeContent") || strings.HasPrefix(e.Name, "net/http.Server.ListenAndServe") || strings.HasPrefix(e.Name, "net/http.ListenAndServe"))
}

// procOpaque: only main and the server are followed.
func (p *Prog) procOpaque(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	if pk == nil {
		return true
	}
	return pk.Path() != p.Mod && pk.Path() != p.Mod+"/internal/server"
}

// processErrors are the errors met on the way that prevent the server from being set up or
// from serving.
func (c *Check) processErrors(evs []*Event) []errRes {
	var l []errRes
	for _, r := range errorResults(evs, nil) {
		e := r.ev
		switch {
		case e.Kind == EvReturn:
			if c.P.procOpaque(e.Fn) {
				continue
			}
		case e.Call != nil && fnPkg(e.Call) != nil && c.P.inModule(e.Call):
		case listens[e.Name] || isServe(e):
		default:
			continue
		}
		l = append(l, r)
	}
	return l
}

// good: does the path end the process with the status of a success?
func good(p *Path) bool {
	return p.Out == OutReturn || p.Out == OutExit && p.Exit == "os.Exit" && len(p.Ret) == 1 && p.Ret[0].isConstInt(0)
}

// message: is something printed among evs?
func message(evs []*Event) bool {
	for _, e := range evs {
		if e.Kind != EvCall {
			continue
		}
		n := e.Name
		if strings.HasPrefix(n, "log.Print") || strings.HasPrefix(n, "log.Logger.Print") || strings.HasPrefix(n, "fmt.Print") || strings.HasSuffix(n, ".Printf") || strings.HasSuffix(n, ".Println") || n == "builtin.println" || n == "builtin.print" {
			return true
		}
		if (strings.HasPrefix(n, "fmt.Fprint") || n == "io.WriteString" || strings.HasPrefix(n, "os.File.Write")) && len(e.Args) > 0 && strings.Contains(e.Args[0].String(), "os.Std") {
			return true
		}
	}
	return false
}

// failsAloud: does the path, which does not end well, say why after event i?
func failsAloud(p *Path, i int) bool {
	switch p.Out {
	case OutPanic:
		return true
	case OutExit:
		if strings.HasPrefix(p.Exit, "log.") {
			return len(p.Ret) > 0 && !isNilTerm(p.Ret[len(p.Ret)-1])
		}
		if p.Exit == "os.Exit" {
			return message(p.Events[i:])
		}
	}
	return false
}

func c28(c *Check) {
	main := c.fn("", "main")
	if main == nil {
		return
	}
	it := c.run(main, &Config{Opaque: c.P.procOpaque})
	served := false
	for _, p := range it.Paths {
		x := &process{c: c, it: it, p: p, ns: notices(p.Events), stops: map[*Term]bool{}, fails: map[*Term]bool{}, tells: map[*Term]bool{}}
		for _, n := range x.ns {
			if n.ev.Name != "os/signal.Notify" {
				c.ok("room for a signal")
				continue
			}
			c.must(n.ch.Op == "chanobj" && n.ch.Args[0].isInt() && n.ch.Args[0].sval() >= 1, "room for a signal", "", n.ev.Pos, "the channel on which signals are to arrive has no room for one that arrives while nothing is waiting for it")
		}
		first := -1
		for i, e := range p.Events {
			starts := e.Kind == EvCall && listens[e.Name]
			if isServe(e) {
				starts, served = true, true
			}
			if e.Kind == EvGo && x.goroutine(e) {
				starts, served = true, true
			}
			if starts && first < 0 {
				first = i
			}
		}
		if first >= 0 {
			x.registered(first)
		}
		x.outcome()
	}
	if !served {
		c.fail("anchor:serve", main.Pos(), "no path of main starts to serve")
	}
	c.listening()
}

// listening: the server accepts requests where it was configured to, or where new ones do by default.
func (c *Check) listening() {
	def := map[string]*Term{}
	if fn := c.P.Func(srvPkg, "New"); fn != nil {
		it := c.run(fn, &Config{})
		for _, p := range it.Paths {
			if p.Out != OutReturn || len(p.Ret) != 1 || p.Ret[0].Typ == nil {
				continue
			}
			pt, ok := p.Ret[0].Typ.Underlying().(*types.Pointer)
			if !ok || structOf(pt.Elem()) == nil {
				continue
			}
			st := structOf(pt.Elem())
			for i := 0; i < st.NumFields(); i++ {
				if !isString(st.Field(i).Type()) {
					continue
				}
				for _, e := range p.Events {
					if e.Kind == EvStore && e.Addr == mkFA(p.Ret[0], i, pt.Elem()) {
						def[st.Field(i).Name()] = e.Val
					}
				}
			}
		}
	}
	n := 0
	its := append([]*Interp(nil), c.server().setup...)
	have := map[*ssa.Function]bool{}
	for _, it := range its {
		have[it.Root] = true
	}
	for _, fn := range c.P.funcsOf(srvPkg) {
		if fn.Parent() == nil && exported(fn) && !have[fn] && fn.Signature.Recv() != nil {
			its = append(its, c.run(fn, &Config{Opaque: c.P.outsideServer}))
		}
	}
	for _, it := range its {
		if len(it.Params) == 0 {
			continue
		}
		recv := it.Params[0]
		who := relName(c.P, it.Root)
		for _, p := range it.Paths {
			for _, e := range flatten(p.Events) {
				if e.Kind != EvCall {
					continue
				}
				tcp := mkStr("tcp")
				var network, addr *Term
				switch e.Name {
				case "net.Listen", "crypto/tls.Listen":
					network, addr = e.Args[0], e.Args[1]
				case "net.ListenConfig.Listen":
					network, addr = e.Args[2], e.Args[3]
				case "net/http.ListenAndServe", "net/http.ListenAndServeTLS":
					network, addr = tcp, e.Args[0]
				case "net/http.Server.ListenAndServe", "net/http.Server.ListenAndServeTLS":
					pt, ok := e.Args[0].Typ.Underlying().(*types.Pointer)
					if !ok || e.Mem == nil {
						continue
					}
					i := fieldIndex(pt.Elem(), "Addr")
					network, addr = tcp, e.Mem(mkFA(e.Args[0], i, pt.Elem()), types.Typ[types.String])
				default:
					continue
				}
				n++
				for _, x := range []struct {
					name string
					v    *Term
				}{{"Net", network}, {"Addr", addr}} {
					why := configured(e.Facts, recv, x.name, x.v, def[x.name])
					c.must(why == "", "listens where configured", who, e.Pos, "the server may not listen where it was configured to: %s", why)
				}
			}
		}
	}
	if n == 0 {
		c.fail("anchor:listen", token.NoPos, "it is not found where the server starts to listen")
	}
}

// configured: v is the field of the server, known to be given, or is the default where it is known
// not to be.
func configured(f *fact, recv *Term, name string, v, def *Term) string {
	pt, ok := recv.Typ.Underlying().(*types.Pointer)
	if !ok {
		return "the server is unclear"
	}
	i := fieldIndex(pt.Elem(), name)
	if i < 0 {
		return "there is no field " + name
	}
	a := mkFA(recv, i, pt.Elem())
	given := mkLoad(a, "", types.Typ[types.String])
	if x := loadAddr(v); x == a {
		if notEmpty(f, v) {
			return ""
		}
		return name + " may be empty"
	}
	s, isS := strVal(v)
	switch {
	case !isS:
		return "it is not " + name + ": " + v.String()
	case knownEmpty(f, given) && (v == def || def == nil && s != ""):
		return ""
	case isTrue(f, beq(given, v)):
		return ""
	}
	return name + " is left out of account"
}

// registered: signals must be expected before event i, with which requests are accepted.
func (x *process) registered(i int) {
	for _, s := range termination {
		ok := false
		for _, n := range x.ns {
			if n.at < i && n.has(s) {
				ok = true
			}
		}
		x.c.must(ok, "signals are expected before serving", "", x.p.Events[i].Pos, "the server starts to listen before the process is prepared for the arrival of signal %d", s)
	}
}

// goroutine looks at what is started; it reports whether requests are accepted by it.
func (x *process) goroutine(e *Event) bool {
	c := x.c
	fn := e.Call
	if fn == nil || c.P.procOpaque(fn) || len(fn.Blocks) == 0 {
		if strings.HasPrefix(e.Name, "net/http.") && isServe(&Event{Kind: EvCall, Name: e.Name}) {
			c.fail("serve result:go", e.Pos, "nothing learns of it when %s returns", shortName(e.Name))
			return true
		}
		return false
	}
	cfg := &Config{Opaque: c.P.procOpaque, Params: e.Args, Start: e.snap}
	if e.Val != nil && e.Val.Op == "closure" {
		cfg.Free = e.Val.Args
	}
	it := c.run(fn, cfg)
	serving := false
	for _, p := range it.Paths {
		for i, y := range p.Events {
			if isServe(y) {
				serving = true
				x.serveEnds(p, y, i)
			}
			if y.Kind == EvCall && listens[y.Name] {
				serving = true
			}
		}
		for _, r := range receipts(p.Events) {
			for _, n := range x.ns {
				if n.delivers(r.ch) {
					x.passesOn(p, r, n)
				}
			}
		}
	}
	return serving
}

// sent is the channel on which something is sent, or which is closed, at or after event i.
func sent(evs []*Event, i int) (ch, v *Term) {
	for _, e := range evs[i:] {
		switch {
		case e.Kind == EvSend:
			return e.Args[0], e.Args[1]
		case e.Kind == EvSelect && e.Index >= 0 && e.Val != nil && e.Aux == "true":
			return e.Addr, e.Val
		case e.Kind == EvCall && (e.Name == "close" || e.Name == "builtin.close"):
			return e.Args[0], nil
		}
	}
	return nil, nil
}

func isIn(l []*Term, t *Term) bool {
	for _, x := range l {
		if x == t {
			return true
		}
	}
	return false
}

// serveEnds: on this path of a goroutine y returns.
func (x *process) serveEnds(p *Path, y *Event, i int) {
	for _, r := range y.Res {
		if errNil(p.Facts, r) {
			return // never
		}
	}
	if ch, v := sent(p.Events, i); ch != nil {
		was := x.stops[ch]
		x.stops[ch] = true
		x.fails[ch] = (x.fails[ch] || !was) && v != nil && (isIn(y.Res, v) || errNonNil(p.Facts, v))
		x.c.ok("the end of serving is passed on")
		return
	}
	if !good(p) && p.Out == OutExit {
		x.c.must(failsAloud(p, i), "failure with a message", "serve", p.Pos, "the process ends without a message when it stops serving")
		return
	}
	if p.Out == OutPanic {
		return
	}
	if p.Out == OutBack {
		for _, e := range p.Events[:i] {
			if e.Kind == EvLoop && e.Loop == p.Loop {
				return // tries again
			}
		}
	}
	x.c.fail("serve result:lost", y.Pos, "the process does not end when %s returns", shortName(y.Name))
}

// passesOn: on this path of a goroutine a signal has been received.
func (x *process) passesOn(p *Path, r receipt, n *notice) {
	if r.v != nil && refuted(p.Facts, r.v, sigINT) && refuted(p.Facts, r.v, sigTERM) {
		return
	}
	if good(p) && p.Out == OutExit {
		x.ends = true
		return
	}
	shuts := false
	for _, e := range p.Events[r.at:] {
		if e.Kind == EvCall && (e.Name == "net/http.Server.Shutdown" || e.Name == "net/http.Server.Close") {
			shuts = true
			x.shuts = true
		}
	}
	if ch, _ := sent(p.Events, r.at); ch != nil {
		x.tells[ch] = true
		return
	}
	if shuts {
		return
	}
	x.c.fail("signal ignored", r.ev.Pos, "a signal is received by a goroutine that does not end the process")
}

// of: what channel ch tells.
func (x *process) of(ch *Term) (n []*notice, tells, stops bool) {
	for _, y := range x.ns {
		if y.delivers(ch) {
			n = append(n, y)
		}
	}
	return n, x.tells[ch], x.stops[ch]
}

// following are the facts when q, in the loop entered by e, comes after the iteration whose
// variables end up as in next; nil if it cannot.
func afterwards(f *fact, next map[*Term]*Term, q *Path) *fact {
	var l []*fact
	for y := q.Facts; y != nil; y = y.up {
		l = append(l, y)
	}
	for i := len(l) - 1; i >= 0; i-- {
		y := l[i]
		if y.cond == nil || y.cond.Op == "note" {
			continue
		}
		rel := false
		for k := range next {
			if contains(y.cond, k) {
				rel = true
			}
		}
		if !rel {
			continue
		}
		g, ok := f.assume(subst(y.cond, next), y.val)
		if !ok {
			return nil
		}
		f = g
	}
	return f
}

// course is one way in which a path may be gone.
type course struct {
	evs  []*Event
	f    *fact
	from int
}

func (x *process) courses() []course {
	p := x.p
	own := course{p.Events, p.Facts, 0}
	if p.Out == OutBack {
		// what may come next
		var l []course
		for i, e := range p.Events {
			if e.Kind == EvLoop && e.Loop == p.Loop {
				own.from = i
			}
		}
		e := p.Events[own.from]
		for _, q := range x.it.Paths {
			k := indexOf(q.Events, e)
			if k < 0 || len(receipts(q.Events[k:])) == 0 {
				continue
			}
			if f := afterwards(p.Facts, p.Next, q); f != nil {
				l = append(l, course{p.Events, f, own.from})
			}
		}
		return l
	}
	for i, e := range p.Events {
		if e.Kind != EvLoop {
			continue
		}
		end := i
		for end < len(p.Events) && !(p.Events[end].Kind == EvLoopEnd && p.Events[end].Loop == e.Loop) {
			end++
		}
		if len(receipts(p.Events[i:end])) > 0 {
			continue
		}
		waits := false
		for _, b := range backsOf(e) {
			if len(receipts(b.Events[indexOf(b.Events, e):])) > 0 {
				waits = true
			}
		}
		if !waits {
			continue
		}
		// the loop has ended at its head: what has come before?
		var l []course
		if f := afterwards(p.Facts, e.Init, p); f != nil {
			l = append(l, own)
		}
		for _, b := range backsOf(e) {
			if f := afterwards(b.Facts, b.Next, p); f != nil {
				l = append(l, course{append(append([]*Event{}, b.Events...), p.Events[i+1:]...), f, 0})
			}
		}
		return l
	}
	return []course{own}
}

func (x *process) outcome() {
	for _, r := range receipts(x.p.Events) {
		x.waits(r)
	}
	for _, k := range x.courses() {
		x.comesTo(k)
	}
}

func (x *process) comesTo(k course) {
	c, p := x.c, x.p
	evs, from := k.evs, k.from
	signalled, stopped := -1, -1
	for _, r := range receipts(evs) {
		ns, tells, stops := x.of(r.ch)
		if stops && x.fails[r.ch] && r.v != nil && errNil(k.f, r.v) {
			return // cannot happen
		}
		if r.at < from {
			continue
		}
		if len(ns) > 0 || tells {
			may := tells
			for _, n := range ns {
				if n.ev.Name != "os/signal.Notify" || r.v == nil || !(refuted(k.f, r.v, sigINT) && refuted(k.f, r.v, sigTERM)) {
					may = true
				}
			}
			if may && signalled < 0 {
				signalled = r.at
			}
		}
		if stops && signalled < 0 {
			stopped = r.at
		}
	}
	for i, e := range evs {
		if e.Kind == EvCall && (e.Name == "os/signal.Stop" || e.Name == "os/signal.Reset" || e.Name == "os/signal.Ignore") && (signalled < 0 || i < signalled) && !e.Defer {
			c.fail("signals are heeded until one arrives", e.Pos, "signals are not heeded any more from here, although none has arrived")
		}
	}
	// the first error
	ers := c.processErrors(evs)
	var cause *errRes
	for i := range ers {
		r := &ers[i]
		if errNil(k.f, r.t) {
			continue
		}
		if x.shuts && isServe(r.ev) && closedErr(k.f, r.t) {
			signalled = indexOf(evs, r.ev)
			continue
		}
		cause = r
		break
	}
	switch {
	case p.Out == OutBack:
		if stopped >= 0 {
			c.fail("failure ends the process:loop", evs[stopped].Pos, "the process goes on although it has stopped serving")
		}
		if signalled >= 0 {
			c.fail("signals end the process:loop", evs[signalled].Pos, "the process goes on although a signal to terminate may have arrived")
		}
		c.ok("waiting goes on")
	case p.Out == OutBlock:
		c.fail("blocks", p.Pos, "the process blocks for ever")
	case good(p):
		if cause != nil {
			c.fail("failure ends the process:"+cause.what(), cause.ev.Pos, "the process may end with the status of a success although %s has failed", cause.what())
			return
		}
		if stopped >= 0 {
			c.fail("failure ends the process:serve", evs[stopped].Pos, "the process may end with the status of a success although it has stopped serving")
			return
		}
		if signalled < 0 && x.accepting() {
			c.fail("ends without a signal", p.Pos, "the process may end without a signal having arrived")
			return
		}
		c.ok("ends cleanly")
	case p.Out == OutExit && p.Exit == "runtime.Goexit":
		c.fail("blocks", p.Pos, "the main goroutine ends but not the process")
	default:
		at := 0
		switch {
		case cause != nil:
			at = indexOf(evs, cause.ev)
		case stopped >= 0:
			at = stopped
		case signalled >= 0:
			c.fail("signals end the process cleanly", p.Pos, "the process may end with the status of a failure when a signal to terminate arrives")
			return
		}
		c.must(failsAloud(p, at), "failure with a message", "", p.Pos, "the process ends with the status of a failure but no message")
	}
}

func closedErr(f *fact, e *Term) bool {
	for y := f; y != nil; y = y.up {
		if y.val && contains(y.cond, e) && strings.Contains(y.cond.String(), "ErrServerClosed") {
			return true
		}
	}
	return false
}

// accepting: does the path start to accept requests?
func (x *process) accepting() bool {
	for _, e := range x.p.Events {
		if isServe(e) || e.Kind == EvCall && listens[e.Name] {
			return true
		}
	}
	return len(x.stops) > 0
}

// waits: whatever ends the process must be among what is waited for.
func (x *process) waits(r receipt) {
	c := x.c
	chs := r.ev.Args
	if r.ev.Kind == EvSelect && r.ev.Aux != "true" {
		return // polls
	}
	relevant := false
	got := map[uint64]bool{}
	var stop bool
	for _, ch := range chs {
		ns, tells, stops := x.of(ch)
		for _, n := range ns {
			relevant = true
			for _, s := range termination {
				if n.has(s) {
					got[s] = true
				}
			}
		}
		if tells {
			relevant = true
			for _, s := range termination {
				got[s] = true
			}
		}
		if stops {
			relevant = true
			stop = true
		}
	}
	if !relevant {
		return
	}
	// once one has arrived, the wait is for something else
	for _, o := range receipts(x.p.Events[:r.at]) {
		if ns, tells, stops := x.of(o.ch); (len(ns) > 0 || tells || stops) && o.ev != r.ev {
			return
		}
	}
	for _, s := range termination {
		c.must(got[s] || x.ends, "signals are waited for", "", r.ev.Pos, "the arrival of signal %d is not waited for here", s)
	}
	if len(x.stops) > 0 {
		c.must(stop, "the end of serving is waited for", "", r.ev.Pos, "the process does not notice here that it has stopped serving")
	}
}

var _ = token.NoPos

func init() {
	register(&checkDef{id: "C28", run: c28,
		rule: "on every path of main, through the server and into the goroutines it starts: an error of setting up, listening or serving ends the process with a failure status and a message; SIGINT and SIGTERM are registered for, on a channel with room, before anything listens and until one arrives; the process waits for all of them and for the end of serving at once; it ends with success when, and only when, one of the signals has arrived; what is listened at is the field Net and Addr of the server where they are known to be given, and what New puts there where they are known to be empty",
		floor: map[string]int{
			"room for a signal": 1, "signals are expected before serving": 2, "failure with a message": 2, "ends cleanly": 1, "listens where configured": 2,
		},
		assume: []string{"http.Serve and its kin do not return nil", "the names and numbers of signals are those of Unix systems"}})
}
