package main

// Property simulation: path-sensitive interprocedural dataflow over SSA.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

type EventKind string

const (
	EvCall    EventKind = "call"   // call that is not followed
	EvALoad   EventKind = "aload"  // atomic load: Addr, Res[0]
	EvAStore  EventKind = "astore" // atomic store: Addr, Val
	EvAAdd    EventKind = "aadd"   // atomic add: Addr, Val
	EvACAS    EventKind = "acas"   // Addr, Args old,new; Res[0] swapped
	EvASwap   EventKind = "aswap"
	EvLock    EventKind = "lock" // Addr; Aux "w" or "r"
	EvUnlock  EventKind = "unlock"
	EvCopy    EventKind = "copy" // Args dst,src,n
	EvStore   EventKind = "store"
	EvLoad    EventKind = "load"
	EvMapUpd  EventKind = "mapupd" // Args map,key,val
	EvMapDel  EventKind = "mapdel"
	EvLookup  EventKind = "lookup"
	EvBranch  EventKind = "branch" // Cond, Taken
	EvLoop    EventKind = "loop"   // entering a loop
	EvLoopEnd EventKind = "loopend"
	EvSend    EventKind = "send"
	EvRecv    EventKind = "recv"
	EvSelect  EventKind = "select" // Index chosen
	EvGo      EventKind = "go"
	EvPanic   EventKind = "panic"
	EvAppend  EventKind = "append" // Args s, elems...; Res[0]
	EvEnter   EventKind = "enter"  // into an inlined function
	EvIndex   EventKind = "index"  // index or slice operation: Args seq,len, lo[,hi]
	EvDiv     EventKind = "div"    // division or shift: Args divisor or count
	EvReturn  EventKind = "ret"
	EvRange   EventKind = "range"
)

type Event struct {
	Kind  EventKind
	Instr ssa.Instruction
	Pos   token.Pos
	Fn    *ssa.Function
	Name  string // callee
	Call  *ssa.Function
	Sig   *types.Signature
	Addr  *Term
	Val   *Term
	Args  []*Term
	Res   []*Term
	Cond  *Term
	Taken bool
	Loop  *LoopInfo
	Init  map[*Term]*Term // EvLoop: values of the loop's variables on this entry
	Known []*Term         // EvLoop: conditions that are false in every iteration
	Index int
	Aux   string
	Facts *fact // facts when it happened
	Defer bool
	Depth int
	Mem   func(addr *Term, typ types.Type) *Term // content of memory at the event (calls only)
	snap  *memory                                // the same
}

type evNode struct {
	ev *Event
	up *evNode
	n  int
}

// LoopInfo summarises one loop in one calling context.
type LoopInfo struct {
	Key    string
	Fn     *ssa.Function
	Header *ssa.BasicBlock
	Parent *LoopInfo
	Phis   []*ssa.Phi
	Init   map[*Term]*Term // leaf of a phi or memory cell -> value on entry
	Leaf   map[ssa.Value]*Term
	Mem    map[*Term]*Term   // address -> leaf
	Alts   map[*Term][]*Term // leaf -> values on entry, if there are several
	Backs  []*Path
	Exits  int
	Const  map[ssa.Value]*Term // phis that do not change
}

// alt notes that a loop is entered with different values.
func (l *LoopInfo) alt(lf *Term, vals ...*Term) {
	if l.Alts == nil {
		l.Alts = map[*Term][]*Term{}
	}
	for _, v := range vals {
		known := v.Op == "multi"
		for _, a := range l.Alts[lf] {
			if a == v {
				known = true
			}
		}
		if !known {
			l.Alts[lf] = append(l.Alts[lf], v)
		}
	}
}

type Outcome string

const (
	OutReturn Outcome = "return"
	OutPanic  Outcome = "panic"
	OutBack   Outcome = "back"
	OutExit   Outcome = "exit"
	OutBlock  Outcome = "block" // blocks for ever
)

type Path struct {
	Out    Outcome
	Ret    []*Term
	Events []*Event
	Facts  *fact
	St     *State
	Loop   *LoopInfo       // OutBack: the loop
	Next   map[*Term]*Term // OutBack: leaf -> next value
	Pos    token.Pos
	Exit   string // OutExit: function
}

type deferred struct {
	call  *ssa.CallCommon
	fn    *Term
	args  []*Term
	instr ssa.Instruction
}

type loopCtx struct {
	info  *LoopInfo
	frame int // depth of its frame
	body  map[*ssa.BasicBlock]bool
	snap  *memory // memory at the header, after widening
	objN  int
	iter  int
	pre   string // ctx of the frame before unrolling suffixes
}

type Frame struct {
	fn     *ssa.Function
	ctx    string
	env    map[ssa.Value]*Term
	block  *ssa.BasicBlock
	pc     int
	prev   *ssa.BasicBlock
	defers []deferred
	call   ssa.Instruction // in the caller: call to deliver the result to, or nil
	// what to do when this frame returns
	isDefer   bool // run by the defers of the frame below
	panicking bool // unwinding
	recovered bool
	onDone    func(st *State, ret []*Term) // for synthetic continuations
}

type State struct {
	frames []*Frame
	mem    *memory
	facts  *fact
	events *evNode
	loops  []*loopCtx
	steps  int
	copies map[string]copyRec
}

type Config struct {
	// Opaque says that calls of fn are not followed.
	Opaque func(fn *ssa.Function) bool
	// Pure says that fn is a function of the values of its arguments (and has no effects).
	Pure func(fn *ssa.Function) bool
	// Callback panics: fork a panicking path at calls of unknown functions.
	PanicCallbacks bool
	// Model handles a call; returns true if it did.
	Model func(it *Interp, st *State, c *CallCtx) bool
	// Unroll loops of constant trip count up to this.
	Unroll int
	// Concrete: loops are unrolled as far as Unroll allows whatever bounds them, and conditions are
	// decided by the bits of their operands that are known.
	Concrete bool
	// MaxPaths
	MaxPaths int
	// Assume is called on the initial state
	Assume func(it *Interp, st *State, params []*Term)
	Params []*Term
	Free   []*Term
	// record bounds obligations
	Bounds bool
	// Invariants says that invariants of loops are looked for.
	Invariants bool
	// follow: resolve a dynamic call of a function term
	Resolve func(fn *Term) *Term
	// Widen memory of loops syntactically
	MaxDepth int
	// fields to be treated as immutable although they are not
	Frozen func(st types.Type, i int) bool
	// keep load events
	Loads bool
	// memory to start with
	Start *memory
	// Split lists the dynamic types to tell apart of an interface value that is loaded
	Split func(v *Term, typ types.Type) []types.Type
}

type Interp struct {
	arrs   map[*Term]*memory // what arrays loaded as a whole consisted of
	P      *Prog
	Cfg    *Config
	Root   *ssa.Function
	Paths  []*Path
	Loops  map[string]*LoopInfo
	widen  map[string]map[string]bool
	dirty  bool
	Undec  []string // reasons for which the result cannot be relied on
	Funcs  map[*ssa.Function]bool
	work   []*State
	Steps  int
	loopsf map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	Params []*Term
	memLbl map[string]*Def
	inv    map[string][]*candidate // by loop
}

type CallCtx struct {
	Common *ssa.CallCommon
	Instr  ssa.Instruction
	Callee *ssa.Function // static or resolved; nil if dynamic
	Method *types.Func   // invoke
	FnTerm *Term
	Args   []*Term // including receiver
	Name   string
	Res    func(st *State, t *Term)
	frame  *Frame
}

const maxSteps = 4000000

// Run analyses fn and everything it calls.
func (p *Prog) Run(fn *ssa.Function, cfg *Config) *Interp {
	if cfg == nil {
		cfg = &Config{}
	}
	if cfg.MaxPaths == 0 {
		cfg.MaxPaths = 60000
	}
	if cfg.MaxDepth == 0 {
		cfg.MaxDepth = 24
	}
	it := &Interp{P: p, Cfg: cfg, Root: fn, widen: map[string]map[string]bool{}}
	for round := 0; ; round++ {
		it.dirty = false
		it.Paths = nil
		it.Undec = nil
		it.Loops = map[string]*LoopInfo{}
		it.Funcs = map[*ssa.Function]bool{}
		it.Steps = 0
		it.memLbl = map[string]*Def{}
		it.once(fn)
		if !it.dirty && cfg.Invariants && it.inv == nil && len(it.Undec) == 0 && len(it.Loops) > 0 {
			it.propose()
			it.dirty = true
		}
		if !it.dirty {
			break
		}
		if round > 60 {
			it.undecided("loops do not stabilise in %s", fn)
			break
		}
	}
	return it
}

func (it *Interp) undecided(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	for _, x := range it.Undec {
		if x == s {
			return
		}
	}
	it.Undec = append(it.Undec, s)
}

func (it *Interp) once(fn *ssa.Function) {
	st := &State{mem: newMemory()}
	if it.Cfg.Start != nil {
		st.mem = it.Cfg.Start.clone()
	}
	f := &Frame{fn: fn, ctx: "", env: map[ssa.Value]*Term{}}
	it.Params = nil
	for i, p := range fn.Params {
		var t *Term
		if it.Cfg.Params != nil && i < len(it.Cfg.Params) && it.Cfg.Params[i] != nil {
			t = it.Cfg.Params[i]
		} else {
			t = leaf("param:"+strconv.Itoa(i)+":"+types.TypeString(p.Type(), nil), p.Type(), &Def{Kind: "param", Index: i, Name: p.Name()})
		}
		f.env[p] = t
		it.Params = append(it.Params, t)
	}
	for i, v := range fn.FreeVars {
		if i < len(it.Cfg.Free) && it.Cfg.Free[i] != nil {
			f.env[v] = it.Cfg.Free[i]
			continue
		}
		f.env[v] = leaf("free:"+strconv.Itoa(i)+":"+types.TypeString(v.Type(), nil), v.Type(), &Def{Kind: "freevar", Index: i, Name: v.Name()})
	}
	st.frames = []*Frame{f}
	if it.Cfg.Assume != nil {
		it.Cfg.Assume(it, st, it.Params)
	}
	it.Funcs[fn] = true
	it.work = []*State{st}
	if !it.enterBlock(st, fn.Blocks[0], nil) {
		it.work = nil
		return
	}
	for len(it.work) > 0 && !it.dirty {
		s := it.work[len(it.work)-1]
		it.work = it.work[:len(it.work)-1]
		it.run(s)
		if len(it.Paths) > it.Cfg.MaxPaths || it.Steps > maxSteps {
			it.undecided("too many paths through %s", fn)
			return
		}
	}
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) fork() *State {
	n := &State{facts: st.facts, events: st.events, mem: st.mem.clone(), steps: st.steps, copies: st.copies}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]*Term, len(f.env)+8)
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]deferred(nil), f.defers...)
		n.frames[i] = &g
	}
	n.loops = append([]*loopCtx(nil), st.loops...)
	return n
}

func (st *State) emit(ev *Event) *Event {
	ev.Facts = st.facts
	f := st.top()
	if ev.Fn == nil {
		ev.Fn = f.fn
	}
	ev.Depth = len(st.frames)
	if ev.Pos == token.NoPos && ev.Instr != nil {
		ev.Pos = ev.Instr.Pos()
	}
	n := 0
	if st.events != nil {
		n = st.events.n + 1
	}
	st.events = &evNode{ev: ev, up: st.events, n: n}
	return ev
}

func (st *State) eventList() []*Event {
	n := 0
	if st.events != nil {
		n = st.events.n + 1
	}
	l := make([]*Event, n)
	for e := st.events; e != nil; e = e.up {
		l[e.n] = e.ev
	}
	return l
}

// unique name of an instruction in its calling context
func (st *State) site(in ssa.Instruction) string {
	f := st.top()
	return f.ctx + "/" + siteOf(in)
}

func siteOf(in ssa.Instruction) string {
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in {
			return b.Parent().String() + ":" + strconv.Itoa(b.Index) + "." + strconv.Itoa(i)
		}
	}
	return b.Parent().String() + ":?"
}

func (it *Interp) finish(st *State, out Outcome, ret []*Term, pos token.Pos) *Path {
	p := &Path{Out: out, Ret: ret, Events: st.eventList(), Facts: st.facts, St: st, Pos: pos}
	it.Paths = append(it.Paths, p)
	return p
}

// ---- loops

func (it *Interp) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if it.P.loopCache == nil {
		it.P.loopCache = map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	}
	if l, ok := it.P.loopCache[fn]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b -> s
				body := l[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					l[s] = body
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[x] {
						continue
					}
					body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	it.P.loopCache[fn] = l
	return l
}

// irreducible control flow (a retreating edge whose target does not dominate its source)
func irreducible(fn *ssa.Function) bool {
	state := map[*ssa.BasicBlock]int{}
	bad := false
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			if state[s] == 1 && !s.Dominates(b) {
				bad = true
			}
			if state[s] == 0 {
				dfs(s)
			}
		}
		state[b] = 2
	}
	dfs(fn.Blocks[0])
	return bad
}

// enterBlock moves the top frame to block b, coming from prev. It returns false if the
// path ends there (a back edge).
func (it *Interp) enterBlock(st *State, b, prev *ssa.BasicBlock) bool {
	f := st.top()
	depth := len(st.frames)
	loops := it.loopsOf(f.fn)
	// leave loops
	for len(st.loops) > 0 {
		lc := st.loops[len(st.loops)-1]
		if lc.frame == depth && !lc.body[b] {
			lc.info.Exits++
			st.emit(&Event{Kind: EvLoopEnd, Loop: lc.info})
			st.loops = st.loops[:len(st.loops)-1]
			f.ctx = lc.pre
			continue
		}
		break
	}
	// phi values on this edge
	var phis []*ssa.Phi
	var vals []*Term
	if prev != nil {
		idx := -1
		for i, p := range b.Preds {
			if p == prev {
				idx = i
			}
		}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, ph)
			vals = append(vals, it.val(st, ph.Edges[idx]))
		}
	}
	f.prev = prev
	f.block = b
	f.pc = len(phis)
	body := loops[b]
	if body == nil {
		for i, ph := range phis {
			f.env[ph] = vals[i]
		}
		return true
	}
	// loop header
	if prev != nil && body[prev] && len(st.loops) > 0 {
		lc := st.loops[len(st.loops)-1]
		if lc.frame == depth && lc.info.Header == b {
			if it.Cfg.Unroll > 0 && lc.iter >= 0 && lc.iter < it.Cfg.Unroll {
				for i, ph := range phis {
					f.env[ph] = vals[i]
				}
				n := *lc
				n.iter++
				st.loops[len(st.loops)-1] = &n
				f.ctx = lc.pre + "~" + strconv.Itoa(n.iter)
				return true
			}
			if in, stay := it.flagTest(f, b, body); in != nil {
				// the test of a flag that is the same whenever the loop begins: it is left from here
				flag, k := in.Cond.(*ssa.Phi), -1
				for i, ph := range phis {
					if ph == flag {
						k = i
					}
				}
				if vals[k] != mkBool(stay) {
					return it.branch(st, vals[k], in, func(s *State, v bool) bool {
						g, next := s.top(), append([]*Term(nil), vals...)
						next[k] = mkBool(v)
						if v == stay {
							it.backEdge(s, s.loops[len(s.loops)-1], phis, next)
							return false
						}
						for i, ph := range phis {
							g.env[ph] = next[i]
						}
						n := 0
						if !v {
							n = 1
						}
						return it.enterBlock(s, b.Succs[n], b)
					})
				}
			}
			it.backEdge(st, lc, phis, vals)
			return false
		}
	}
	key := f.ctx + "/" + f.fn.String() + ":" + strconv.Itoa(b.Index)
	unroll := -1
	if it.Cfg.Unroll > 0 && (it.Cfg.Concrete || it.constTrip(f, b, body, vals, phis, it.Cfg.Unroll)) {
		unroll = 0
	}
	info := it.Loops[key]
	if info == nil {
		info = &LoopInfo{Key: key, Fn: f.fn, Header: b, Phis: phis, Init: map[*Term]*Term{}, Leaf: map[ssa.Value]*Term{}, Mem: map[*Term]*Term{}, Const: map[ssa.Value]*Term{}}
		it.Loops[key] = info
	}
	if len(st.loops) > 0 {
		info.Parent = st.loops[len(st.loops)-1].info
	}
	w := it.widen[key]
	entry := map[*Term]*Term{}
	var known []*Term
	for i, ph := range phis {
		if unroll < 0 && w["phi:"+ph.Name()] {
			l := leaf("phi:"+key+":"+ph.Name(), ph.Type(), &Def{Kind: "phi", Name: phiName(ph), Loop: info, Key: ph.Name()})
			f.env[ph] = l
			info.Leaf[ph] = l
			entry[l] = vals[i]
			if old, ok := info.Init[l]; ok && old != vals[i] {
				info.alt(l, old, vals[i])
				info.Init[l] = mk("multi", key+ph.Name(), l.W) // entered with different values
			} else {
				info.Init[l] = vals[i]
			}
			if c := it.inductiveFacts(st, ph, l, vals[i], body); c != nil {
				known = append(known, c)
			}
		} else {
			f.env[ph] = vals[i]
			info.Const[ph] = vals[i]
		}
	}
	before := st.mem.clone()
	if unroll < 0 {
		maps, eps := map[*Term][]mapCell{}, map[*Term]string{}
		for _, x := range it.inv[key] {
			if x.m != nil && !x.dead {
				maps[x.m], eps[x.m] = st.mem.maps[x.m], st.mem.mapEp[x.m]
			}
		}
		it.widenMemory(st, info, w, key, entry)
		it.atHeader(st, key, entry, maps, eps)
	}
	st.emit(&Event{Kind: EvLoop, Loop: info, Init: entry, Instr: firstInstr(b), Known: known, snap: before})
	lc := &loopCtx{info: info, frame: depth, body: body, snap: st.mem.clone(), iter: unroll, pre: f.ctx}
	st.loops = append(st.loops, lc)
	return true
}

// flagTest is the test that a loop begins with if it does nothing before that, the test is of a
// flag, and the flag has always been the same there; and the value for which the loop goes on.
func (it *Interp) flagTest(f *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) (*ssa.If, bool) {
	for i, in := range h.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			ph, ok := x.Cond.(*ssa.Phi)
			if !ok || ph.Block() != h || i != len(h.Instrs)-1 || body[h.Succs[0]] == body[h.Succs[1]] {
				return nil, false
			}
			stay := body[h.Succs[0]]
			if f.env[ph] != mkBool(stay) {
				return nil, false
			}
			return x, stay
		default:
			return nil, false
		}
	}
	return nil, false
}

func firstInstr(b *ssa.BasicBlock) ssa.Instruction {
	if len(b.Instrs) > 0 {
		return b.Instrs[0]
	}
	return nil
}

func phiName(ph *ssa.Phi) string {
	if ph.Comment != "" {
		return ph.Comment
	}
	return ph.Name()
}

// inductiveFacts adds the bound of an induction variable: x0, x0+c, ... with c > 0 never goes below x0.
func (it *Interp) inductiveFacts(st *State, ph *ssa.Phi, l, init *Term, body map[*ssa.BasicBlock]bool) *Term {
	if l.W == 0 {
		return nil
	}
	dir := 0
	for i, p := range ph.Block().Preds {
		if !body[p] {
			continue
		}
		d := stepDir(ph.Edges[i], ph, 0)
		if d == 0 || dir != 0 && d != dir {
			return nil
		}
		dir = d
	}
	if dir == 0 {
		return nil
	}
	less := bslt
	if l.W < 64 {
		// as long as it does not wrap around
		if !isUnsigned(ph.Type()) || !stopsAt(ph, body, dir) {
			return nil
		}
		less = bult
	}
	var c *Term
	if dir > 0 {
		c = less(l, init) // false
	} else {
		c = less(init, l)
	}
	if f, ok := st.facts.assume(c, false); ok {
		st.facts = f
	}
	return c
}

// stopsAt: an unsigned variable that changes by one is tested in every iteration of its loop so that
// it neither goes below zero nor beyond a limit.
func stopsAt(ph *ssa.Phi, body map[*ssa.BasicBlock]bool, dir int) bool {
	h := ph.Block()
	for i, p := range h.Preds {
		if b, ok := ph.Edges[i].(*ssa.BinOp); body[p] {
			if !ok || b.X != ssa.Value(ph) {
				return false
			}
			if k, ok := b.Y.(*ssa.Const); !ok || k.Value == nil || constant.Compare(constant.ToInt(k.Value), token.NEQ, constant.MakeInt64(1)) {
				return false
			}
		}
	}
	for t := range body {
		ifi, ok := t.Instrs[len(t.Instrs)-1].(*ssa.If)
		if !ok || body[t.Succs[1]] || !body[t.Succs[0]] || len(t.Succs[0].Preds) != 1 {
			continue
		}
		cmp, ok := ifi.Cond.(*ssa.BinOp)
		if !ok || cmp.X != ssa.Value(ph) {
			continue
		}
		always := true
		for _, p := range h.Preds {
			always = always && (!body[p] || t.Succs[0].Dominates(p))
		}
		if !always {
			continue
		}
		if dir > 0 {
			if cmp.Op == token.LSS {
				return true
			}
			continue
		}
		k, ok := cmp.Y.(*ssa.Const)
		zero := ok && k.Value != nil && constant.Sign(constant.ToInt(k.Value)) == 0
		if cmp.Op == token.GTR || cmp.Op == token.NEQ && zero {
			return true
		}
	}
	return false
}

// stepDir: +1 if v is ph plus a positive constant (on every path), -1 if minus.
func stepDir(v ssa.Value, ph *ssa.Phi, depth int) int {
	if depth > 6 {
		return 0
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		c, ok := x.Y.(*ssa.Const)
		if !ok || c.Value == nil || widthOf(c.Type()) == 0 {
			// ph + non-negative value, e.g. offset + 1: give up
			return 0
		}
		if x.X != ssa.Value(ph) {
			// (ph + c) + d
			d := stepDir(x.X, ph, depth+1)
			k := constant.Sign(constant.ToInt(c.Value))
			if x.Op == token.SUB {
				k = -k
			}
			if (x.Op == token.ADD || x.Op == token.SUB) && d == k {
				return d
			}
			return 0
		}
		k := constant.Sign(constant.ToInt(c.Value))
		switch x.Op {
		case token.ADD:
			return k
		case token.SUB:
			return -k
		}
	case *ssa.Phi:
		dir := 0
		for _, e := range x.Edges {
			d := stepDir(e, ph, depth+1)
			if d == 0 || dir != 0 && dir != d {
				return 0
			}
			dir = d
		}
		return dir
	}
	return 0
}

// constTrip reports whether a loop runs a constant number (at most n) of times: its header
// tests an induction variable with constant start and step against a constant.
func (it *Interp) constTrip(f *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, vals []*Term, phis []*ssa.Phi, n int) bool {
	ifi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	var bound *Term
	var x ssa.Value
	var known func(v ssa.Value) *Term
	known = func(v ssa.Value) *Term {
		t := f.env[v]
		if x, ok := v.(*ssa.Convert); ok && widthOf(x.Type()) > 0 && widthOf(x.X.Type()) > 0 {
			if t := known(x.X); t != nil {
				return iconv(t, x.X.Type(), x.Type())
			}
		}
		if c, ok := v.(*ssa.Const); ok && c.Value != nil {
			t = constTerm(c)
		} else if in, ok := v.(ssa.Instruction); ok && body[in.Block()] {
			return nil
		}
		if t == nil || !t.isInt() {
			return nil
		}
		return t
	}
	if t := known(cmp.Y); t != nil {
		bound, x = t, cmp.X
	} else if t := known(cmp.X); t != nil {
		bound, x = t, cmp.Y
	}
	if bound == nil {
		return false
	}
	if b, ok := x.(*ssa.BinOp); ok { // range loops test phi+1
		if _, isC := b.Y.(*ssa.Const); isC {
			x = b.X
		}
	}
	for i, ph := range phis {
		if x != ssa.Value(ph) || !vals[i].isInt() {
			continue
		}
		for j, p := range h.Preds {
			if body[p] && stepDir(ph.Edges[j], ph, 0) == 0 {
				return false
			}
		}
		bv := bound.sval()
		d := bv - vals[i].sval()
		if d < 0 {
			d = -d
		}
		return d <= int64(n)*16
	}
	return false
}

func (it *Interp) mark(key, what string) {
	w := it.widen[key]
	if w == nil {
		w = map[string]bool{}
		it.widen[key] = w
	}
	if !w[what] {
		w[what] = true
		it.dirty = true
	}
}

func (it *Interp) backEdge(st *State, lc *loopCtx, phis []*ssa.Phi, vals []*Term) {
	f := st.top()
	info := lc.info
	next := map[*Term]*Term{}
	for i, ph := range phis {
		cur := f.env[ph]
		if l := info.Leaf[ph]; l != nil {
			next[l] = vals[i]
		} else if cur != vals[i] {
			it.mark(info.Key, "phi:"+ph.Name())
		}
	}
	it.compareMemory(st, lc, next)
	if lc.iter < 0 {
		it.atBack(st, info.Key, next)
	}
	if it.dirty {
		return
	}
	p := it.finish(st, OutBack, nil, firstPos(f.block))
	p.Loop = info
	p.Next = next
	info.Backs = append(info.Backs, p)
}

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return token.NoPos
}

// ---- execution

func (it *Interp) run(st *State) {
	for {
		it.Steps++
		if it.Steps > maxSteps {
			return
		}
		f := st.top()
		if f.pc >= len(f.block.Instrs) {
			it.undecided("block of %s ends unexpectedly", f.fn)
			return
		}
		in := f.block.Instrs[f.pc]
		f.pc++
		if !it.step(st, in) {
			return
		}
	}
}

func (it *Interp) val(st *State, v ssa.Value) *Term {
	f := st.top()
	return it.valIn(f, v)
}

func (it *Interp) valIn(f *Frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Function:
		t := mk("func", x.String(), 0)
		t.Fn = x
		t.Typ = x.Type()
		return t
	case *ssa.Global:
		return globalAddr(x)
	case *ssa.Builtin:
		return mk("builtin", x.Name(), 0)
	}
	if t, ok := f.env[v]; ok {
		return t
	}
	// not evaluated on this path (should not happen)
	t := leaf("undef:"+f.ctx+":"+v.Name()+":"+f.fn.String(), v.Type(), &Def{Kind: "unknown", Name: v.Name()})
	f.env[v] = t
	return t
}

func globalAddr(g *ssa.Global) *Term {
	t := mk("gaddr", g.String(), 0)
	t.G = g
	t.Typ = g.Type()
	return t
}

func (it *Interp) fresh(st *State, in ssa.Instruction, suffix string, typ types.Type, d *Def) *Term {
	if d == nil {
		d = &Def{Kind: "unknown"}
	}
	d.Instr = in
	if d.Name == "" {
		if v, ok := in.(ssa.Value); ok {
			d.Name = v.Name()
			if d.Callee != "" {
				d.Name = shortName(d.Callee) + "()"
				if suffix != "" {
					d.Name += "#" + suffix
				}
			}
		}
	}
	return leaf("v:"+st.site(in)+":"+suffix, typ, d)
}

// branch continues with cond true and/or false. k gets the state and the value.
func (it *Interp) branch(st *State, cond *Term, in ssa.Instruction, k func(*State, bool) bool) bool {
	if v, known := st.facts.decide(cond); known {
		return k(st, v)
	}
	if it.Cfg.Concrete {
		if v, known := decideBits(cond); known {
			return k(st, v)
		}
	}
	o := st.fork()
	if f, ok := o.facts.assume(cond, false); ok {
		o.facts = f
		o.emit(&Event{Kind: EvBranch, Cond: cond, Taken: false, Instr: in})
		if k(o, false) {
			it.work = append(it.work, o)
		}
	}
	if f, ok := st.facts.assume(cond, true); ok {
		st.facts = f
		st.emit(&Event{Kind: EvBranch, Cond: cond, Taken: true, Instr: in})
		return k(st, true)
	}
	return false
}

func (it *Interp) set(st *State, v ssa.Value, t *Term) { st.top().env[v] = t }

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Byte]
	}
	return nil
}

func (it *Interp) step(st *State, in ssa.Instruction) bool {
	f := st.top()
	switch x := in.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.Alloc:
		o := mk("obj", "a:"+st.site(in), 0)
		o.Typ = x.Type()
		if o.Def == nil {
			n := x.Comment
			if n == "" {
				n = x.Name()
			}
			o.Def = &Def{Kind: "alloc", Name: n, Instr: in}
		}
		st.mem.newObj(o, elemType(x.Type()), true)
		it.set(st, x, o)
	case *ssa.MakeSlice:
		o := mk("obj", "m:"+st.site(in), 0)
		o.Typ = x.Type()
		if o.Def == nil {
			o.Def = &Def{Kind: "make", Name: "make@" + it.P.posStr(x.Pos()), Instr: in}
		}
		st.mem.newObj(o, nil, true)
		n := it.val(st, x.Len)
		it.set(st, x, mkSlice(o, mkInt(64, 0), resize(n, n.W, 64, true), x.Type()))
	case *ssa.MakeMap:
		o := mk("mapobj", "mm:"+st.site(in), 0)
		o.Typ = x.Type()
		st.mem.maps[o] = []mapCell{}
		delete(st.mem.mapEp, o)
		it.set(st, x, o)
	case *ssa.MakeChan:
		o := mk("chanobj", "mc:"+st.site(in), 0, it.val(st, x.Size))
		o.Typ = x.Type()
		it.set(st, x, o)
	case *ssa.MakeInterface:
		it.set(st, x, mkIface(x.X.Type(), it.val(st, x.X), x.Type()))
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		args := make([]*Term, len(x.Bindings))
		for i, b := range x.Bindings {
			args[i] = it.val(st, b)
		}
		t := mk("closure", fn.String(), 0, args...)
		t.Fn = fn
		t.Typ = x.Type()
		it.set(st, x, t)
	case *ssa.ChangeType:
		it.set(st, x, it.val(st, x.X))
	case *ssa.ChangeInterface:
		it.set(st, x, it.val(st, x.X))
	case *ssa.SliceToArrayPointer:
		b, off, _ := sliceParts(it.val(st, x.X))
		it.set(st, x, mk("arrptr", "", 0, b, off))
	case *ssa.Convert:
		it.set(st, x, it.convert(st, x))
	case *ssa.MultiConvert:
		it.set(st, x, it.fresh(st, in, "", x.Type(), nil))
	case *ssa.BinOp:
		a, b := it.val(st, x.X), it.val(st, x.Y)
		it.set(st, x, it.binop(st, x, a, b))
	case *ssa.UnOp:
		return it.unop(st, x)
	case *ssa.FieldAddr:
		st0 := x.X.Type().Underlying().(*types.Pointer).Elem()
		it.set(st, x, mkFA(it.val(st, x.X), x.Field, st0))
	case *ssa.Field:
		it.set(st, x, mkField(it.val(st, x.X), x.Field, x.Type()))
	case *ssa.IndexAddr:
		b := it.val(st, x.X)
		i := it.val(st, x.Index)
		i = resize(i, i.W, 64, !isUnsigned(x.Index.Type()))
		it.set(st, x, it.indexAddr(st, in, b, i, x.X.Type()))
	case *ssa.Index:
		b := it.val(st, x.X)
		i := it.val(st, x.Index)
		i = resize(i, i.W, 64, !isUnsigned(x.Index.Type()))
		it.set(st, x, it.indexVal(st, in, b, i, x.Type()))
	case *ssa.Slice:
		it.set(st, x, it.slice(st, x))
	case *ssa.Lookup:
		return it.lookup(st, x)
	case *ssa.Extract:
		t := it.val(st, x.Tuple)
		it.set(st, x, mkField(t, x.Index, x.Type()))
	case *ssa.TypeAssert:
		return it.typeAssert(st, x)
	case *ssa.Range:
		it.set(st, x, mkT("rangeiter", st.site(in), x.Type(), it.val(st, x.X)))
		st.emit(&Event{Kind: EvRange, Instr: in, Args: []*Term{it.val(st, x.X)}})
	case *ssa.Next:
		tup := x.Type().(*types.Tuple)
		iter := it.val(st, x.Iter)
		ok := it.fresh(st, in, "ok", types.Typ[types.Bool], &Def{Kind: "next", Name: "next.ok", Args: []*Term{iter}})
		k := it.fresh(st, in, "k", tup.At(1).Type(), &Def{Kind: "next", Name: "next.key", Args: []*Term{iter}, Index: 1})
		v := it.fresh(st, in, "v", tup.At(2).Type(), &Def{Kind: "next", Name: "next.val", Args: []*Term{iter}, Index: 2})
		it.set(st, x, mk("tuple", "", 0, ok, k, v))
	case *ssa.Store:
		a, v := it.val(st, x.Addr), it.val(st, x.Val)
		it.store(st, in, a, v, x.Val.Type())
	case *ssa.MapUpdate:
		m, k, v := it.val(st, x.Map), it.val(st, x.Key), it.val(st, x.Value)
		st.emit(&Event{Kind: EvMapUpd, Instr: in, Args: []*Term{m, k, v}})
		st.mem.mapUpdate(it, st, in, m, k, v)
	case *ssa.Send:
		st.emit(&Event{Kind: EvSend, Instr: in, Args: []*Term{it.val(st, x.Chan), it.val(st, x.X)}})
	case *ssa.Select:
		return it.doSelect(st, x)
	case *ssa.Go:
		c := it.callCtx(st, &x.Call, in)
		ev := &Event{Kind: EvGo, Instr: in, Name: c.Name, Call: c.Callee, Args: c.Args, Val: c.FnTerm}
		ev.snap = st.mem.clone()
		st.emit(ev)
	case *ssa.Defer:
		c := it.callCtx(st, &x.Call, in)
		f.defers = append(f.defers, deferred{call: &x.Call, fn: c.FnTerm, args: c.Args, instr: in})
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			f.pc-- // come back until none is left
			return it.runDefer(st)
		}
	case *ssa.Call:
		return it.call(st, x)
	case *ssa.Jump:
		return it.enterBlock(st, f.block.Succs[0], f.block)
	case *ssa.If:
		c := it.val(st, x.Cond)
		return it.branch(st, c, in, func(s *State, v bool) bool {
			g := s.top()
			b := g.block
			i := 0
			if !v {
				i = 1
			}
			return it.enterBlock(s, b.Succs[i], b)
		})
	case *ssa.Return:
		ret := make([]*Term, len(x.Results))
		for i, r := range x.Results {
			ret[i] = it.val(st, r)
		}
		return it.ret(st, ret, in)
	case *ssa.Panic:
		v := it.val(st, x.X)
		st.emit(&Event{Kind: EvPanic, Instr: in, Args: []*Term{v}})
		return it.unwind(st)
	default:
		if v, ok := in.(ssa.Value); ok {
			it.set(st, v, it.fresh(st, in, "", v.Type(), nil))
		}
	}
	return true
}

func mkIface(dyn types.Type, v *Term, typ types.Type) *Term {
	return mkT("iface", regType(dyn), typ, v)
}

// ret returns from the top frame.
func (it *Interp) ret(st *State, ret []*Term, in ssa.Instruction) bool {
	f := st.top()
	for len(st.loops) > 0 && st.loops[len(st.loops)-1].frame == len(st.frames) {
		lc := st.loops[len(st.loops)-1]
		lc.info.Exits++
		st.emit(&Event{Kind: EvLoopEnd, Loop: lc.info})
		st.loops = st.loops[:len(st.loops)-1]
	}
	if len(st.frames) == 1 {
		pos := token.NoPos
		if in != nil {
			pos = in.Pos()
		}
		it.finish(st, OutReturn, ret, pos)
		return false
	}
	st.emit(&Event{Kind: EvReturn, Instr: in, Res: ret, Name: f.fn.String()})
	st.frames = st.frames[:len(st.frames)-1]
	g := st.top()
	if f.isDefer {
		if g.panicking {
			return it.unwind(st)
		}
		return true // RunDefers is executed again
	}
	if v, ok := f.call.(ssa.Value); ok && v != nil {
		g.env[v] = packRes(ret)
	}
	return true
}

func packRes(ret []*Term) *Term {
	if len(ret) == 1 {
		return ret[0]
	}
	return mk("tuple", "", 0, ret...)
}

// unwind runs the remaining defers of the top frame and propagates the panic.
func (it *Interp) unwind(st *State) bool {
	for {
		f := st.top()
		f.panicking = true
		if f.recovered {
			f.panicking = false
			f.recovered = false
			// remaining defers, then return from the recover block
			if len(f.defers) > 0 {
				f.recovered = true
				f.panicking = true
				return it.runDefer(st)
			}
			if f.fn.Recover != nil {
				f.block = f.fn.Recover
				f.pc = 0
				f.prev = nil
				return true
			}
			var ret []*Term
			for i := 0; i < f.fn.Signature.Results().Len(); i++ {
				ret = append(ret, zeroTerm(f.fn.Signature.Results().At(i).Type()))
			}
			return it.ret(st, ret, nil)
		}
		if len(f.defers) > 0 {
			return it.runDefer(st)
		}
		for len(st.loops) > 0 && st.loops[len(st.loops)-1].frame == len(st.frames) {
			st.loops = st.loops[:len(st.loops)-1]
		}
		if len(st.frames) == 1 {
			it.finish(st, OutPanic, nil, token.NoPos)
			return false
		}
		st.frames = st.frames[:len(st.frames)-1]
		if f.isDefer {
			// a deferred call panicked: the frame below goes on unwinding
			st.top().panicking = true
		}
	}
}

func (it *Interp) runDefer(st *State) bool {
	f := st.top()
	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[:len(f.defers)-1]
	c := &CallCtx{Common: d.call, Instr: d.instr, FnTerm: d.fn, Args: d.args, frame: f}
	it.resolve(st, c)
	return it.doCall(st, c, true)
}

func (it *Interp) unop(st *State, x *ssa.UnOp) bool {
	a := it.val(st, x.X)
	switch x.Op {
	case token.MUL:
		v := it.load(st, x, a, x.Type())
		it.set(st, x, v)
		if it.Cfg.Split != nil && types.IsInterface(x.Type()) && v.Op != "iface" {
			if ts := it.Cfg.Split(v, x.Type()); len(ts) > 0 {
				return it.split(st, x, v, ts)
			}
		}
	case token.NOT:
		it.set(st, x, bnot(a))
	case token.SUB:
		if a.W > 0 {
			it.set(st, x, isub(mkInt(a.W, 0), a))
		} else {
			it.set(st, x, fneg(a))
		}
	case token.XOR:
		it.set(st, x, isub(isub(mkInt(a.W, 0), a), mkInt(a.W, 1)))
	case token.ARROW:
		typ := x.Type()
		var t *Term
		if x.CommaOk {
			tu := typ.(*types.Tuple)
			v := it.fresh(st, x, "v", tu.At(0).Type(), &Def{Kind: "recv", Args: []*Term{a}})
			ok := it.fresh(st, x, "ok", types.Typ[types.Bool], &Def{Kind: "recvok", Args: []*Term{a}})
			t = mk("tuple", "", 0, v, ok)
			st.emit(&Event{Kind: EvRecv, Instr: x, Addr: a, Args: []*Term{a}, Res: []*Term{v, ok}})
		} else {
			t = it.fresh(st, x, "v", typ, &Def{Kind: "recv", Args: []*Term{a}})
			st.emit(&Event{Kind: EvRecv, Instr: x, Addr: a, Args: []*Term{a}, Res: []*Term{t}})
		}
		it.set(st, x, t)
	default:
		it.set(st, x, it.fresh(st, x, "", x.Type(), nil))
	}
	return true
}

// split goes on once for each of the types that v may have.
func (it *Interp) split(st *State, in ssa.Instruction, v *Term, ts []types.Type) bool {
	if len(ts) == 0 {
		return false
	}
	return it.branch(st, mkTypeIs(v, ts[0]), in, func(s *State, is bool) bool {
		return is || it.split(s, in, v, ts[1:])
	})
}

// ---- floats

func fneg(a *Term) *Term {
	if f, ok := floatVal(a); ok {
		return mkFloat(-f)
	}
	return mkT("fneg", "", types.Typ[types.Float64], a)
}

func fop(op string, a, b *Term) *Term {
	x, ok1 := floatVal(a)
	y, ok2 := floatVal(b)
	if ok1 && ok2 {
		switch op {
		case "fadd":
			return mkFloat(x + y)
		case "fsub":
			return mkFloat(x - y)
		case "fmul":
			return mkFloat(x * y)
		case "fdiv":
			return mkFloat(x / y)
		}
	}
	if (op == "fadd" || op == "fmul") && a.ID > b.ID {
		a, b = b, a
	}
	return mkT(op, "", types.Typ[types.Float64], a, b)
}

func fcmp(op string, a, b *Term) *Term {
	x, ok1 := floatVal(a)
	y, ok2 := floatVal(b)
	if ok1 && ok2 {
		switch op {
		case "flt":
			return mkBool(x < y)
		case "fle":
			return mkBool(x <= y)
		case "feq":
			return mkBool(x == y)
		}
	}
	if op == "feq" && a.ID > b.ID {
		a, b = b, a
	}
	return mk(op, "", 0, a, b)
}

func refold(t *Term, args []*Term) *Term {
	switch t.Op {
	case "fadd", "fmul", "fsub", "fdiv":
		return fop(t.Op, args[0], args[1])
	case "flt", "fle", "feq":
		return fcmp(t.Op, args[0], args[1])
	case "fneg":
		return fneg(args[0])
	case "i2f", "u2f":
		return i2f(args[0], t.Op == "u2f")
	case "call":
		return pureCall(t.Aux, t.Typ, args...)
	}
	return nil
}

func i2f(a *Term, unsigned bool) *Term {
	if a.isInt() {
		if unsigned {
			return mkFloat(float64(a.V))
		}
		return mkFloat(float64(a.sval()))
	}
	op := "i2f"
	if unsigned || nonNeg(a) {
		op = "u2f"
	}
	if a.Op == "zext" {
		op = "u2f"
	}
	return mkT(op, "", types.Typ[types.Float64], a)
}

// pureCall is the value of a function that only depends on its arguments.
func pureCall(name string, typ types.Type, args ...*Term) *Term {
	if len(args) == 1 {
		x, ok := floatVal(args[0])
		switch name {
		case "math.Float64bits":
			if ok {
				return mkInt(64, math.Float64bits(x))
			}
			if args[0].Op == "call" && args[0].Aux == "math.Float64frombits" {
				return args[0].Args[0]
			}
		case "math.Float64frombits":
			if args[0].isInt() {
				return mkFloat(math.Float64frombits(args[0].V))
			}
			if args[0].Op == "call" && args[0].Aux == "math.Float64bits" {
				return args[0].Args[0]
			}
		case "math.Inf":
			if args[0].isInt() {
				s := 1
				if args[0].sval() < 0 {
					s = -1
				}
				return mkFloat(math.Inf(s))
			}
		}
	}
	if name == "math.NaN" {
		return mkFloat(math.NaN())
	}
	if name == "bytes.Equal" && len(args) == 2 && args[0].ID > args[1].ID {
		args = []*Term{args[1], args[0]}
	}
	w := 0
	if typ != nil {
		w = widthOf(typ)
	}
	t := mk("call", name, w, args...)
	if t.Typ == nil {
		t.Typ = typ
	}
	return t
}

func (it *Interp) convert(st *State, x *ssa.Convert) *Term {
	a := it.val(st, x.X)
	from, to := x.X.Type(), x.Type()
	fw, tw := widthOf(from), widthOf(to)
	switch {
	case fw > 0 && tw > 0:
		return iconv(a, from, to)
	case fw > 0 && isFloat(to):
		t := i2f(a, isUnsigned(from))
		if basicOf(to).Kind() == types.Float32 {
			return mkT("f32", "", to, t)
		}
		return t
	case isFloat(from) && tw > 0:
		if f, ok := floatVal(a); ok && f == math.Trunc(f) && math.Abs(f) < 1<<52 {
			return mkInt(tw, uint64(int64(f)))
		}
		return mkT("f2i", to.String(), to, a)
	case isFloat(from) && isFloat(to):
		if basicOf(to).Kind() == types.Float32 {
			return mkT("f32", "", to, a)
		}
		return a
	case isString(to) && fw == 0:
		return it.toStr(st, a, from)
	case isString(from):
		if _, ok := to.Underlying().(*types.Slice); ok {
			return toBytes(a, to)
		}
	case isString(to):
		return mkT("runestr", "", to, a)
	}
	if _, ok := from.Underlying().(*types.Slice); ok && isString(to) {
		return it.toStr(st, a, from)
	}
	return a
}

// toStr is the string with the bytes that slice a holds now.
func (it *Interp) toStr(st *State, a *Term, from types.Type) *Term {
	if a.Op == "bytesof" {
		return a.Args[0]
	}
	if isNilTerm(a) {
		return mkStr("")
	}
	if b := basicOf(from); b != nil {
		return a
	}
	ep := st.mem.epochOf(rootOf(a))
	return mkT("strof", ep, types.Typ[types.String], a)
}

func toBytes(a *Term, to types.Type) *Term {
	if a.Op == "strof" {
		// a copy of the bytes
		return mkT("bytesof", "", to, a)
	}
	return mkT("bytesof", "", to, a)
}

// partial notes an operation that fails for some divisors or counts.
func (it *Interp) partial(st *State, x *ssa.BinOp, b *Term) {
	if !it.Cfg.Bounds || b.isInt() && b.V != 0 && b.V>>uint(b.W-1) == 0 {
		return
	}
	what := "division"
	if x.Op == token.SHL || x.Op == token.SHR {
		if isUnsigned(x.Y.Type()) {
			return
		}
		what = "shift"
	}
	st.emit(&Event{Kind: EvDiv, Instr: x, Args: []*Term{b}, Aux: what})
}

func (it *Interp) binop(st *State, x *ssa.BinOp, a, b *Term) *Term {
	typ := x.X.Type()
	if w := widthOf(typ); w > 0 {
		uns := isUnsigned(typ)
		switch x.Op {
		case token.ADD:
			return iadd(a, b)
		case token.SUB:
			return isub(a, b)
		case token.MUL:
			return imul(a, b)
		case token.QUO:
			it.partial(st, x, b)
			if uns {
				return iudiv(a, b)
			}
			if st.facts.nonNegTerm(a) && st.facts.nonNegTerm(b) {
				return iudiv(a, b)
			}
			return isdiv(a, b)
		case token.REM:
			it.partial(st, x, b)
			if uns {
				return iurem(a, b)
			}
			if st.facts.nonNegTerm(a) && st.facts.nonNegTerm(b) {
				return iurem(a, b)
			}
			return isrem(a, b)
		case token.AND:
			return iand(a, b)
		case token.OR:
			return ior(a, b)
		case token.XOR:
			return ixor(a, b)
		case token.SHL:
			it.partial(st, x, b)
			return ishl(a, b)
		case token.SHR:
			it.partial(st, x, b)
			if uns {
				return ilshr(a, b)
			}
			return iashr(a, b)
		case token.AND_NOT:
			return iand(a, isub(isub(mkInt(w, 0), b), mkInt(w, 1)))
		case token.EQL:
			return beq(a, b)
		case token.NEQ:
			return bnot(beq(a, b))
		case token.LSS:
			return less(a, b, uns)
		case token.GTR:
			return less(b, a, uns)
		case token.LEQ:
			return bnot(less(b, a, uns))
		case token.GEQ:
			return bnot(less(a, b, uns))
		}
	}
	if isFloat(typ) {
		switch x.Op {
		case token.ADD:
			return fop("fadd", a, b)
		case token.SUB:
			return fop("fsub", a, b)
		case token.MUL:
			return fop("fmul", a, b)
		case token.QUO:
			return fop("fdiv", a, b)
		case token.LSS:
			return fcmp("flt", a, b)
		case token.GTR:
			return fcmp("flt", b, a)
		case token.LEQ:
			return fcmp("fle", a, b)
		case token.GEQ:
			return fcmp("fle", b, a)
		case token.EQL:
			return fcmp("feq", a, b)
		case token.NEQ:
			return bnot(fcmp("feq", a, b))
		}
	}
	if isString(typ) {
		switch x.Op {
		case token.ADD:
			sa, ok1 := strVal(a)
			sb, ok2 := strVal(b)
			if ok1 && ok2 {
				return mkStr(sa + sb)
			}
			return mkT("concat", "", types.Typ[types.String], a, b)
		case token.LSS:
			return mk("strlt", "", 0, a, b)
		case token.GTR:
			return mk("strlt", "", 0, b, a)
		case token.LEQ:
			return bnot(mk("strlt", "", 0, b, a))
		case token.GEQ:
			return bnot(mk("strlt", "", 0, a, b))
		}
	}
	switch x.Op {
	case token.EQL:
		return beq(a, b)
	case token.NEQ:
		return bnot(beq(a, b))
	}
	return it.fresh(st, x, "", x.Type(), nil)
}

func less(a, b *Term, uns bool) *Term {
	if uns {
		return bult(a, b)
	}
	return bslt(a, b)
}

func (f *fact) nonNegTerm(t *Term) bool {
	if nonNeg(t) {
		return true
	}
	l, ok := toLin(t)
	return ok && f.entails(l.neg())
}

// ---- sequences

func (it *Interp) indexAddr(st *State, in ssa.Instruction, b, i *Term, bt types.Type) *Term {
	et := elemType(bt)
	if pt, ok := bt.Underlying().(*types.Pointer); ok {
		at := pt.Elem().Underlying().(*types.Array)
		if it.Cfg.Bounds {
			st.emit(&Event{Kind: EvIndex, Instr: in, Args: []*Term{b, mkInt(64, uint64(at.Len())), i}})
		}
		if b.Op == "arrptr" {
			return mkIA(b.Args[0], iadd(b.Args[1], i), at.Elem())
		}
		return mkIA(b, i, at.Elem())
	}
	base, off, n := sliceParts(b)
	if it.Cfg.Bounds {
		st.emit(&Event{Kind: EvIndex, Instr: in, Args: []*Term{b, n, i}})
	}
	// what comes after an index expression has a valid index
	if !i.isInt() && i.W == 64 && i.Op != "leaf" {
		if _, known := st.facts.decide(bslt(i, mkInt(64, 0))); !known {
			if f, ok := st.facts.assume(bslt(i, mkInt(64, 0)), false); ok {
				st.facts = f
			}
		}
	}
	// element of a slice built by append
	if base.Op == "append" {
		idx := iadd(off, i)
		k := isub(idx, mkLen(base.Args[0]))
		if k.isInt() && k.V < uint64(len(base.Args)-1) {
			return mkIA(base, idx, et)
		}
		if v, known := st.facts.decide(bslt(idx, mkLen(base.Args[0]))); known && v {
			_ = v
		}
	}
	return mkIA(base, iadd(off, i), et)
}

// indexVal is the element of an array value or a string.
func (it *Interp) indexVal(st *State, in ssa.Instruction, b, i *Term, typ types.Type) *Term {
	if s, ok := strVal(b); ok && i.isInt() && i.V < uint64(len(s)) {
		return mkInt(8, uint64(s[i.V]))
	}
	if it.Cfg.Bounds {
		st.emit(&Event{Kind: EvIndex, Instr: in, Args: []*Term{b, mkLen(b), i}})
	}
	base, off, _ := sliceParts(b)
	i = iadd(off, i)
	return it.arrayElem(st, in, base, i, typ)
}

func (it *Interp) slice(st *State, x *ssa.Slice) *Term {
	s := it.val(st, x.X)
	var base, off, n *Term
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		at := pt.Elem().Underlying().(*types.Array)
		base, off, n = s, mkInt(64, 0), mkInt(64, uint64(at.Len()))
		if s.Op == "arrptr" {
			base, off = s.Args[0], s.Args[1]
		}
	} else {
		base, off, n = sliceParts(s)
	}
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		t := it.val(st, v)
		return resize(t, t.W, 64, !isUnsigned(v.Type()))
	}
	lo := get(x.Low, mkInt(64, 0))
	hi := get(x.High, n)
	if it.Cfg.Bounds {
		st.emit(&Event{Kind: EvIndex, Instr: x, Args: []*Term{s, n, lo, hi}, Aux: "slice"})
	}
	if x.Low == nil && x.High == nil && !isArrayBase(base) {
		return s
	}
	if isNilTerm(s) {
		return s
	}
	if str, ok := strVal(s); ok && lo.isInt() && hi.isInt() && lo.V <= hi.V && hi.V <= uint64(len(str)) {
		return mkStr(str[lo.V:hi.V])
	}
	return mkSlice(base, iadd(off, lo), isub(hi, lo), x.Type())
}

func (it *Interp) lookup(st *State, x *ssa.Lookup) bool {
	m, k := it.val(st, x.X), it.val(st, x.Index)
	if isString(x.X.Type()) {
		k = resize(k, k.W, 64, !isUnsigned(x.Index.Type()))
		it.set(st, x, it.indexVal(st, x, m, k, x.Type()))
		return true
	}
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	v, ok := st.mem.mapLookup(it, st, x, m, k, vt)
	if m.Op == "gval" && m.G != nil {
		if es, is := it.P.constMap(m.G); is && (k.isInt() || k.Op == "str") {
			v, ok = zeroTerm(vt), mkBool(false)
			if e := es[k]; e != nil {
				v, ok = e, mkBool(true)
			}
		} else if is {
			constMaps[m] = es
			if t, known := st.facts.decideKey(ok); known {
				if ok = mkBool(t); !t {
					v = zeroTerm(vt)
				}
			}
		}
	}
	done := func(st *State, v, ok *Term) bool {
		st.emit(&Event{Kind: EvLookup, Instr: x, Args: []*Term{m, k}, Res: []*Term{v, ok}})
		if x.CommaOk {
			it.set(st, x, mk("tuple", "", 0, v, ok))
		} else {
			it.set(st, x, v)
		}
		return true
	}
	if v.Op == "mapval" && ok.Op == "mapok" {
		if ns := it.limits(st, m); ns != nil {
			return it.branch(st, ok, x, func(s *State, found bool) bool {
				if !found {
					return done(s, zeroTerm(vt), mkBool(false))
				}
				for _, n := range ns {
					for _, y := range []struct {
						c   *Term
						val bool
					}{{bslt(v, mkInt(64, 0)), false}, {bslt(v, n), true}} {
						if f, is := s.facts.assume(y.c, y.val); is {
							s.facts = f
						}
					}
				}
				return done(s, v, mkBool(true))
			})
		}
	}
	return done(st, v, ok)
}

// constMap lists the entries of a global map of constants that nothing changes.
func (p *Prog) constMap(g *ssa.Global) (map[*Term]*Term, bool) {
	if es, ok := p.cmaps[g]; ok {
		return es, es != nil
	}
	if p.cmaps == nil {
		p.cmaps = map[*ssa.Global]map[*Term]*Term{}
	}
	p.cmaps[g] = nil
	mk, ok := p.ginit[g].(*ssa.MakeMap)
	if !ok || g.Pkg == nil || !p.inModulePkg(g.Pkg.Pkg) || !p.gconst[g] {
		return nil, false
	}
	es := map[*Term]*Term{}
	for _, r := range *mk.Referrers() {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			k, ok1 := x.Key.(*ssa.Const)
			v, ok2 := x.Value.(*ssa.Const)
			if !ok1 || !ok2 || x.Map != ssa.Value(mk) || k.Value == nil || v.Value == nil {
				return nil, false
			}
			es[constTerm(k)] = constTerm(v)
		case *ssa.Store:
			if x.Addr != ssa.Value(g) {
				return nil, false
			}
		case *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	for _, in := range p.globalUses(g) {
		switch x := in.(type) {
		case *ssa.Store:
			if x.Addr != ssa.Value(g) || x.Val != ssa.Value(mk) {
				return nil, false
			}
		case *ssa.UnOp:
			for _, r := range *x.Referrers() {
				switch y := r.(type) {
				case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
				case *ssa.Call:
					if b, ok := y.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
						return nil, false
					}
				default:
					return nil, false
				}
			}
		default:
			return nil, false
		}
	}
	p.cmaps[g] = es
	return es, true
}

func mkTypeIs(x *Term, t types.Type) *Term {
	if x.Op == "iface" {
		dyn := typeReg[x.Aux]
		if types.IsInterface(t) {
			return mkBool(types.Implements(dyn, t.Underlying().(*types.Interface)))
		}
		return mkBool(types.Identical(dyn, t))
	}
	if isNilTerm(x) {
		return mkBool(false)
	}
	return mk("typeis", regType(t), 0, x)
}

func mkAs(x *Term, t types.Type) *Term {
	if x.Op == "iface" {
		if types.IsInterface(t) {
			return x
		}
		return x.Args[0]
	}
	if types.IsInterface(t) {
		return x
	}
	return mkT("as", regType(t), t, x)
}

func (it *Interp) typeAssert(st *State, x *ssa.TypeAssert) bool {
	a := it.val(st, x.X)
	c := mkTypeIs(a, x.AssertedType)
	if !x.CommaOk {
		return it.branch(st, c, x, func(s *State, v bool) bool {
			if !v {
				s.emit(&Event{Kind: EvPanic, Instr: x, Aux: "type assertion"})
				return it.unwind(s)
			}
			s.top().env[x] = mkAs(a, x.AssertedType)
			return true
		})
	}
	return it.branch(st, c, x, func(s *State, v bool) bool {
		if v {
			s.top().env[x] = mk("tuple", "", 0, mkAs(a, x.AssertedType), mkBool(true))
		} else {
			s.top().env[x] = mk("tuple", "", 0, zeroTerm(x.AssertedType), mkBool(false))
		}
		return true
	})
}

func (it *Interp) doSelect(st *State, x *ssa.Select) bool {
	n := len(x.States)
	tup := x.Type().(*types.Tuple)
	mkOut := func(s *State, idx int) {
		args := []*Term{mkInt(64, uint64(int64(idx)))}
		ok := it.fresh(s, x, "ok"+strconv.Itoa(idx), types.Typ[types.Bool], &Def{Kind: "recvok"})
		args = append(args, ok)
		ev := &Event{Kind: EvSelect, Instr: x, Index: idx, Aux: strconv.FormatBool(x.Blocking)}
		ri := 2
		for j, c := range x.States {
			ch := it.val(s, c.Chan)
			ev.Args = append(ev.Args, ch)
			if c.Dir == types.RecvOnly {
				v := it.fresh(s, x, fmt.Sprintf("v%d.%d", idx, j), tup.At(ri).Type(), &Def{Kind: "recv", Args: []*Term{ch}})
				args = append(args, v)
				if j == idx {
					ev.Res = []*Term{v}
					ev.Addr = ch
				}
				ri++
			} else if j == idx {
				ev.Addr = ch
				ev.Val = it.val(s, c.Send)
			}
		}
		s.emit(ev)
		s.top().env[x] = mk("tuple", "", 0, args...)
	}
	first := 0
	if !x.Blocking {
		first = -1
	}
	for i := first; i < n-1; i++ {
		o := st.fork()
		mkOut(o, i)
		it.work = append(it.work, o)
	}
	if n == 0 && x.Blocking {
		it.finish(st, OutBlock, nil, x.Pos())
		return false
	}
	mkOut(st, n-1)
	return true
}

// ---- memory accesses

func (it *Interp) load(st *State, in ssa.Instruction, a *Term, typ types.Type) *Term {
	v := st.mem.load(it, st, in, a, typ)
	if u, ok := in.(*ssa.UnOp); ok && len(*u.Referrers()) == 0 {
		return v // range over an array: the value is not used
	}
	if it.Cfg.Loads && rootOf(a).Op != "gaddr" {
		st.emit(&Event{Kind: EvLoad, Instr: in, Addr: a, Res: []*Term{v}})
	}
	return v
}

func (it *Interp) store(st *State, in ssa.Instruction, a, v *Term, typ types.Type) {
	st.emit(&Event{Kind: EvStore, Instr: in, Addr: a, Val: v})
	st.mem.store(it, st, in, a, v, typ)
}

func sortedKeys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// looping: the path is in a loop that is not gone through one by one.
func (st *State) looping() bool {
	for _, lc := range st.loops {
		if lc.iter < 0 {
			return true
		}
	}
	return false
}
