package main

// C06, C07: the keyed maps (bufmap, incmap): probing, claiming and counting.

import (
	"go/token"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// probePkg is the analysis of one keyed map.
type probePkg struct {
	c    *Check
	rel  string
	recv types.Type
	ops  []*probeOp
	key  map[string]bool // signatures of the words that hold keys
}

type probeOp struct {
	name   string
	it     *Interp
	k      *Term
	claims bool
	seq    []string
	terms  []*Term
	pos    token.Pos
	found  bool // sequence computed
}

func (r *probePkg) mine(t *Term) bool {
	x := baseRoot(t)
	return x.Op == "leaf" && x.Def != nil && x.Def.Kind == "param" && x.Def.Index == 0
}

func (r *probePkg) isKey(e *Event) bool {
	return e.Addr != nil && r.mine(e.Addr) && r.key[sigOf(e.Addr)]
}

// iteration: the events of p that belong to the last iteration of loop l on it, and whether the
// path goes through the loop at all.
func iteration(p *Path, l *LoopInfo) ([]*Event, bool) {
	for i, e := range p.Events {
		if e.Kind == EvLoop && e.Loop == l {
			for j := i + 1; j < len(p.Events); j++ {
				if p.Events[j].Kind == EvLoopEnd && p.Events[j].Loop == l {
					return p.Events[i+1 : j], true
				}
			}
			return p.Events[i+1:], true
		}
	}
	return nil, false
}

// feasible: can the branches of an iteration be taken in the given state of the loop?
func feasible(evs []*Event, sigma map[*Term]*Term) bool {
	for _, e := range evs {
		if e.Kind != EvBranch {
			continue
		}
		c := subst(e.Cond, sigma)
		val := e.Taken
		for c.Op == "not" {
			c, val = c.Args[0], !val
		}
		var f *fact
		if v, k := f.decide(c); k && v != val {
			return false
		}
	}
	return true
}

// slotName is a canonical form of a slot index: sums within a remainder are collected.
func slotName(t *Term) string {
	m := modulusOf(t)
	if m == nil {
		return "!" + strconv.Itoa(t.ID)
	}
	base, off := remParts(t, m)
	return strconv.Itoa(base.ID) + "%" + strconv.Itoa(m.ID) + "+" + off.String()
}

// remParts: t = (base + off) mod m, with base itself less than m if it is a remainder.
func remParts(t, m *Term) (*Term, *Term) {
	zero := mkInt(64, 0)
	if modulusOf(t) != m {
		return t, zero
	}
	p := stripZext(t).Args[0]
	if p.Op != "poly" {
		if modulusOf(p) == m {
			return remParts(p, m)
		}
		return t, zero
	}
	c := mkInt(p.W, p.V)
	rest := isub(p, c)
	if modulusOf(rest) == m {
		b, o := remParts(rest, m)
		return b, iadd(o, c)
	}
	return rest, c
}

func (r *probePkg) analyse() bool {
	c := r.c
	tn := c.P.TypeOf(r.rel, "Map")
	if tn == nil {
		c.fail("anchor:"+r.rel, token.NoPos, "type %s.Map not found", r.rel)
		return false
	}
	r.recv = types.NewPointer(tn)
	for _, fn := range c.P.exported(r.rel) {
		rc := fn.Signature.Recv()
		if rc == nil || !types.Identical(rc.Type(), r.recv) {
			continue
		}
		it := c.run(fn, &Config{Loads: true, PanicCallbacks: true})
		op := &probeOp{name: fn.Name(), it: it, pos: fn.Pos()}
		if len(it.Params) > 1 && basicOf(fn.Params[1].Type()) != nil && basicOf(fn.Params[1].Type()).Kind() == types.Uint64 {
			op.k = it.Params[1]
		}
		r.ops = append(r.ops, op)
	}
	r.key = map[string]bool{}
	for _, op := range r.ops {
		for _, p := range op.it.Paths {
			for _, e := range p.Events {
				if e.Kind == EvACAS && r.mine(e.Addr) && op.k != nil && e.Args[1] == op.k {
					r.key[sigOf(e.Addr)] = true
					op.claims = true
				}
			}
		}
	}
	if len(r.key) == 0 {
		c.fail("claim:"+r.rel, token.NoPos, "%s: no operation claims a slot by comparing and swapping its key", r.rel)
		return false
	}
	return true
}

// matchedSlot is where the key was found on the path.
func (r *probePkg) matchedSlot(op *probeOp, p *Path) *Term {
	var x *Term
	for _, e := range p.Events {
		if !r.isKey(e) || op.k == nil {
			continue
		}
		switch e.Kind {
		case EvALoad, EvLoad:
			if isTrue(p.Facts, beq(e.Res[0], op.k)) {
				x = slotOf(e.Addr)
			}
		case EvACAS:
			if isTrue(p.Facts, e.Res[0]) && e.Args[1] == op.k {
				x = slotOf(e.Addr)
			}
		}
	}
	return x
}

func (r *probePkg) who(op *probeOp) string { return r.rel + ".Map." + op.name }

// probeLoop is the loop in which op looks at keys.
func (r *probePkg) probeLoop(op *probeOp) *LoopInfo {
	var l *LoopInfo
	for _, p := range op.it.Paths {
		var cur []*LoopInfo
		for _, e := range p.Events {
			switch e.Kind {
			case EvLoop:
				cur = append(cur, e.Loop)
			case EvLoopEnd:
				if len(cur) > 0 {
					cur = cur[:len(cur)-1]
				}
			}
			if !r.isKey(e) {
				continue
			}
			if len(cur) == 0 {
				continue // first probe done ahead of the loop
			}
			// the outermost loop whose state the address depends on
			for _, x := range cur {
				dep := false
				for lf := range x.Init {
					if contains(e.Addr, lf) {
						dep = true
					}
				}
				if dep {
					if l != nil && l != x {
						return nil
					}
					l = x
					break
				}
			}
		}
	}
	return l
}

// sequence computes the slots that op looks at, in order.
func (r *probePkg) sequence(op *probeOp) {
	c := r.c
	l := r.probeLoop(op)
	if l == nil {
		c.fail("loop:"+r.rel+"."+op.name, op.pos, "%s: the loop that looks for the key was not found", r.who(op))
		return
	}
	add := func(t *Term) {
		n := slotName(t)
		if len(op.seq) > 0 && op.seq[len(op.seq)-1] == n {
			return
		}
		op.seq = append(op.seq, n)
		op.terms = append(op.terms, t)
	}
	// a first probe ahead of the loop
	for _, p := range op.it.Paths {
		if _, in := iteration(p, l); !in {
			continue
		}
		for _, e := range p.Events {
			if e.Kind == EvLoop && e.Loop == l {
				break
			}
			if r.isKey(e) {
				add(slotOf(e.Addr))
			}
		}
		break
	}
	sigma := map[*Term]*Term{}
	for lf, v := range l.Init {
		sigma[lf] = v
	}
	type iter struct {
		p   *Path
		evs []*Event
	}
	var its []iter
	for _, p := range op.it.Paths {
		if evs, in := iteration(p, l); in && !innerBack(p, l) {
			its = append(its, iter{p, evs})
		}
	}
	for n := 0; ; n++ {
		if n > 200 {
			c.fail("limit:"+r.rel+"."+op.name, op.pos, "%s: the number of slots looked at is not bounded by a constant", r.who(op))
			return
		}
		var probed *Term
		any := false
		for _, i := range its {
			if !feasible(i.evs, sigma) {
				continue
			}
			any = true
			for _, e := range i.evs {
				if !r.isKey(e) {
					continue
				}
				t := subst(slotOf(e.Addr), sigma)
				if probed != nil && probed != t && slotName(probed) != slotName(t) {
					c.fail("iteration:"+r.rel+"."+op.name, e.Pos, "%s looks at different slots (%s and %s) in one step of its search", r.who(op), probed, t)
					return
				}
				probed = t
			}
		}
		if !any {
			c.fail("stuck:"+r.rel+"."+op.name, op.pos, "%s: the search for the key cannot be followed", r.who(op))
			return
		}
		if probed != nil {
			add(probed)
		}
		// give up while there are slots left?
		var next []map[*Term]*Term
		var from []*Path
		for _, i := range its {
			if !feasible(i.evs, sigma) || i.p.Out != OutBack || i.p.Loop != l {
				continue
			}
			nx := map[*Term]*Term{}
			for lf := range l.Init {
				v := i.p.Next[lf]
				if v == nil {
					v = lf
				}
				nx[lf] = subst(v, sigma)
			}
			next = append(next, nx)
			from = append(from, i.p)
		}
		if len(next) > 0 {
			// every way out of this step must have a reason
			for _, i := range its {
				if i.p.Out == OutBack || !feasible(i.evs, sigma) {
					continue
				}
				r.wayOut(op, l, i.p, i.evs)
			}
		}
		if len(next) == 0 {
			break
		}
		// states in which nothing has changed repeat the step
		var moved []map[*Term]*Term
		var movedFrom []*Path
		for j, nx := range next {
			same := true
			for lf, v := range nx {
				if v != sigma[lf] && r.relevant(op, lf) {
					same = false
				}
			}
			if !same {
				moved = append(moved, nx)
				movedFrom = append(movedFrom, from[j])
			}
		}
		if len(moved) == 0 {
			c.fail("stuck2:"+r.rel+"."+op.name, op.pos, "%s does not move on to another slot", r.who(op))
			return
		}
		nx := moved[0]
		for j := 1; j < len(moved); j++ {
			for lf := range nx {
				a, b := nx[lf], moved[j][lf]
				if a == b || !r.relevant(op, lf) {
					continue
				}
				m := mergeWrap(lf, a, b, movedFrom[0], movedFrom[j], sigma)
				if m == nil {
					c.fail("order:"+r.rel+"."+op.name, op.pos, "%s: the slot looked at next is %s or %s depending on what the slots hold", r.who(op), a, b)
					return
				}
				nx[lf] = m
			}
		}
		sigma = nx
	}
	op.found = true
}

// relevant: does the loop variable take part in choosing slots or ending the search?
func (r *probePkg) relevant(op *probeOp, lf *Term) bool {
	if lf.W == 0 {
		return false
	}
	// variables that hold what was loaded have no part in it
	for _, p := range op.it.Paths {
		for _, e := range p.Events {
			if r.isKey(e) && contains(e.Addr, lf) || e.Kind == EvBranch && contains(e.Cond, lf) {
				return true
			}
		}
	}
	return false
}

// innerBack: the path ends in a loop inside l
func innerBack(p *Path, l *LoopInfo) bool {
	return p.Out == OutBack && p.Loop != l && func() bool {
		for x := p.Loop.Parent; x != nil; x = x.Parent {
			if x == l {
				return true
			}
		}
		return false
	}()
}

// mergeWrap: x+1, but 0 if that is the size of the map
func mergeWrap(lf, a, b *Term, pa, pb *Path, sigma map[*Term]*Term) *Term {
	if b.isConstInt(0) {
		a, b, pa, pb = b, a, pb, pa
	}
	if !a.isConstInt(0) {
		return nil
	}
	nb := pb.Next[lf]
	if nb == nil {
		return nil
	}
	// the modulus
	var m *Term
	for f := pa.Facts; f != nil; f = f.up {
		if f.val && f.cond.Op == "eq0" {
			d := isub(nb, f.cond.Args[0])
			e := iadd(nb, f.cond.Args[0])
			for _, x := range []*Term{d, e} {
				if x.Op == "load" && isFalse(pb.Facts, beq(nb, x)) && isTrue(pa.Facts, beq(nb, x)) {
					m = x
				}
			}
		}
	}
	if m == nil || modulusOf(sigma[lf]) != m && !sigma[lf].isConstInt(0) {
		return nil
	}
	if b != iadd(sigma[lf], mkInt(lf.W, 1)) {
		return nil
	}
	return iurem(b, m)
}

// wayOut judges a path that leaves the search although slots are left.
func (r *probePkg) wayOut(op *probeOp, l *LoopInfo, p *Path, evs []*Event) {
	if r.matchedSlot(op, p) != nil {
		r.c.ok("search ends at the key")
		return
	}
	if p.Out == OutPanic {
		return
	}
	if !op.claims {
		for _, e := range evs {
			if r.isKey(e) && (e.Kind == EvALoad || e.Kind == EvLoad) && isTrue(p.Facts, beq(e.Res[0], mkInt(e.Res[0].W, 0))) {
				r.c.ok("search ends at an empty slot")
				return
			}
		}
	}
	r.c.fail("early:"+r.rel+"."+op.name, p.Pos, "%s can give up before it has looked at all the slots that may hold the key", r.who(op))
}

func (r *probePkg) c06() {
	c := r.c
	for _, op := range r.ops {
		uses := false
		for _, p := range op.it.Paths {
			for _, e := range p.Events {
				if !r.isKey(e) {
					continue
				}
				uses = true
				switch e.Kind {
				case EvStore, EvAStore, EvAAdd, EvASwap:
					c.fail("write:"+r.rel+"."+op.name, e.Pos, "%s changes the key of a slot without comparing it", r.who(op))
				case EvACAS:
					c.must(e.Args[0].isConstInt(0) && e.Args[1] == op.k, "claims an empty slot for the key", r.rel+"."+op.name, e.Pos, "%s replaces key %s by %s: only an empty slot may be claimed, and for the key given", r.who(op), e.Args[0], e.Args[1])
					c.must(op.k != nil && isFalse(e.Facts, beq(op.k, mkInt(64, 0))), "zero key not stored", r.rel+"."+op.name, e.Pos, "%s can store the reserved key zero", r.who(op))
				}
			}
		}
		if op.k == nil {
			continue
		}
		if !uses {
			c.fail("nosearch:"+r.rel+"."+op.name, op.pos, "%s takes a key but does not look at the keys of slots", r.who(op))
			continue
		}
		r.sequence(op)
		for _, p := range op.it.Paths {
			r.steps(op, p)
			if p.Out != OutReturn {
				continue
			}
			// reads: zero is not found
			if i, ok := foundResult(op); ok && !isFalse(p.Facts, p.Ret[i]) {
				x := r.matchedSlot(op, p)
				c.must(x != nil, "found only where the key is", r.rel+"."+op.name, p.Pos, "%s reports success without having found the key", r.who(op))
				zero := isFalse(p.Facts, beq(op.k, mkInt(64, 0))) || r.guarded(p, x)
				c.must(zero, "zero key not found", r.rel+"."+op.name, p.Pos, "%s can report the reserved key zero as found", r.who(op))
			} else if ok {
				// not found although the key was seen
				if x := r.matchedSlot(op, p); x != nil && !isTrue(p.Facts, beq(op.k, mkInt(64, 0))) && !r.notReady(p, x) {
					c.fail("denied:"+r.rel+"."+op.name, p.Pos, "%s reports failure although it has found the key", r.who(op))
				}
			}
			// after the search only the slot found is used
			if x := r.matchedSlot(op, p); x != nil {
				for _, e := range p.Events {
					if e.Kind != EvALoad && e.Kind != EvAStore && e.Kind != EvAAdd && e.Kind != EvACAS && e.Kind != EvLock && e.Kind != EvASwap || r.isKey(e) || !r.mine(e.Addr) {
						continue
					}
					if s := slotOf(e.Addr); s != nil {
						c.must(s == x, "slot used is the slot found", r.rel+"."+op.name, e.Pos, "%s found the key in slot %s but uses slot %s", r.who(op), x, s)
					}
				}
			}
		}
	}
	// all the operations agree
	for _, w := range r.ops {
		if !w.claims || !w.found {
			continue
		}
		for _, o := range r.ops {
			if o == w || !o.found {
				continue
			}
			for n := range w.seq {
				if n >= len(o.seq) {
					c.fail("limit:"+r.rel+"."+o.name, o.pos, "%s looks at %d slots but %s may store the key in any of %d", r.who(o), len(o.seq), r.who(w), len(w.seq))
					break
				}
				if !c.must(w.seq[n] == o.seq[n], "same slot at the same step", r.rel+"."+o.name, o.pos, "in step %d %s looks at slot %s but %s at slot %s", n, r.who(w), w.terms[n], r.who(o), o.terms[n]) {
					break
				}
			}
		}
	}
	r.ranges()
}

// foundResult is the boolean result of an operation, if it has one.
func foundResult(op *probeOp) (int, bool) {
	rs := op.it.Root.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if isBool(rs.At(i).Type()) {
			return i, true
		}
	}
	return 0, false
}

// guarded: another word of the slot is known not to be zero
func (r *probePkg) guarded(p *Path, x *Term) bool {
	for _, e := range p.Events {
		if (e.Kind == EvALoad || e.Kind == EvLoad) && r.mine(e.Addr) && !r.isKey(e) && slotOf(e.Addr) == x && x != nil && e.Res[0].W > 0 {
			if isFalse(p.Facts, beq(e.Res[0], mkInt(e.Res[0].W, 0))) {
				return true
			}
		}
	}
	return false
}

// notReady: another word of the slot decided that there is nothing there yet
func (r *probePkg) notReady(p *Path, x *Term) bool {
	for _, e := range p.Events {
		if (e.Kind == EvALoad || e.Kind == EvLoad) && r.mine(e.Addr) && !r.isKey(e) && slotOf(e.Addr) == x && e.Res[0].W > 0 {
			v, zero := e.Res[0], mkInt(e.Res[0].W, 0)
			if isTrue(p.Facts, beq(v, zero)) {
				return true
			}
			// or it is not what it is when it is ready
			for y := p.Facts; y != nil; y = y.up {
				if y.cond != nil && contains(y.cond, v) && subst(y.cond, map[*Term]*Term{v: zero}) == mkBool(y.val) {
					return true
				}
			}
		}
	}
	return false
}

// steps: a slot is only left behind if it belongs to another key
func (r *probePkg) steps(op *probeOp, p *Path) {
	if p.Out != OutBack {
		return
	}
	evs, in := iteration(p, p.Loop)
	if !in {
		return
	}
	var slot *Term
	for _, e := range evs {
		if r.isKey(e) {
			slot = slotOf(e.Addr)
		}
	}
	if slot == nil {
		return
	}
	nx := map[*Term]*Term{}
	for lf := range p.Loop.Init {
		if v := p.Next[lf]; v != nil {
			nx[lf] = v
		}
	}
	if subst(slot, nx) == slot {
		return // looks at it again
	}
	other, taken := false, false
	casFailed := false
	for _, e := range evs {
		if !r.isKey(e) || slotOf(e.Addr) != slot {
			continue
		}
		switch e.Kind {
		case EvACAS:
			if isFalse(p.Facts, e.Res[0]) && e.Args[0].isConstInt(0) {
				casFailed = true
			}
		case EvALoad, EvLoad:
			if isFalse(p.Facts, beq(e.Res[0], op.k)) {
				other = true
				if casFailed || isFalse(p.Facts, beq(e.Res[0], mkInt(e.Res[0].W, 0))) {
					taken = true
				}
			}
		}
	}
	pos := p.Pos
	if !pos.IsValid() {
		pos = op.pos
	}
	if op.claims {
		c := "%s can pass over a slot that is empty or holds the key: the key can end up in two slots"
		r.c.must(taken, "slot passed over belongs to another key", r.rel+"."+op.name, pos, c, r.who(op))
	} else {
		r.c.must(other, "slot passed over does not hold the key", r.rel+"."+op.name, pos, "%s can pass over the slot that holds the key", r.who(op))
	}
}

// ranges: the slots looked at exist
func (r *probePkg) ranges() {
	c := r.c
	fn := c.fn(r.rel, "New")
	if fn == nil {
		return
	}
	it := c.run(fn, &Config{Loads: true})
	done := map[string]bool{}
	for _, op := range r.ops {
		for _, p := range op.it.Paths {
			for _, e := range p.Events {
				if e.Addr == nil || !r.mine(e.Addr) {
					continue
				}
				// each slice of slots
				for a := e.Addr; a.Op == "fa" || a.Op == "ia"; a = a.Args[0] {
					if a.Op != "ia" || isByte(a.Typ) {
						continue
					}
					base, idx := a.Args[0], a.Args[1]
					m := modulusOf(idx)
					if m == nil {
						m = inductiveModulus(idx)
					}
					key := strconv.Itoa(base.ID) + "/" + strconv.Itoa(idx.ID)
					if done[key] {
						continue
					}
					done[key] = true
					if !c.must(m != nil, "slot index is a remainder", r.rel+"."+op.name, e.Pos, "%s uses slot %s, which is not known to exist", r.who(op), idx) {
						continue
					}
					for _, np := range it.Paths {
						if np.Out != OutReturn {
							continue
						}
						l := evalIn(r.mine, np, m)
						n := mkLen(evalIn(r.mine, np, base))
						c.must(n == l, "as many slots as are used", r.rel, fn.Pos(), "New makes %s slots in %s but slots up to %s are used", n, base, l)
					}
				}
			}
		}
	}
}

// evalIn replaces fields of the receiver in t by their values in the object returned on p.
func evalIn(mine func(*Term) bool, p *Path, t *Term) *Term {
	obj := p.Ret[0]
	m := map[*Term]*Term{}
	subterms(t, func(s *Term) bool {
		if s.Op == "load" && mine(s.Args[0]) && s.Args[0].Op == "fa" && s.Args[0].Args[0].Op == "leaf" {
			a := s.Args[0]
			i, _ := strconv.Atoi(a.Aux)
			m[s] = p.St.mem.peek(nil, p.St, mkFA(obj, i, a.Typ), structOf(a.Typ).Field(i).Type())
			return false
		}
		return true
	})
	return subst(t, m)
}

// ---- C07

func (r *probePkg) c07() {
	c := r.c
	inc, get := r.op("Inc"), r.op("Get")
	if inc == nil || get == nil {
		c.fail("anchor:"+r.rel, token.NoPos, "%s.Map.Inc or Get not found", r.rel)
		return
	}
	fi, ok := foundResult(inc)
	if !ok || len(inc.it.Params) < 3 {
		c.fail("signature", inc.pos, "Inc has no amount or no boolean result")
		return
	}
	d := inc.it.Params[2]
	var sigs = map[string]bool{}
	for _, op := range r.ops {
		for _, p := range op.it.Paths {
			evs := p.Events
			if p.Out == OutBack {
				evs, _ = iteration(p, p.Loop)
			}
			n := 0
			var last *Event
			for _, e := range evs {
				if e.Addr == nil || !r.mine(e.Addr) || r.isKey(e) {
					continue
				}
				switch e.Kind {
				case EvAAdd:
					n++
					last = e
					if op == inc {
						c.must(e.Val == d, "adds the amount given", op.name, e.Pos, "%s adds %s instead of the amount given", r.who(op), e.Val)
					} else {
						c.fail("adds:"+op.name, e.Pos, "%s changes a counter", r.who(op))
					}
				case EvACAS:
					if isFalse(p.Facts, e.Res[0]) {
						continue
					}
					n++
					last = e
					good := op == inc && isTrue(p.Facts, e.Res[0]) && e.Args[1] == iadd(e.Args[0], d)
					if v := e.Args[0]; good {
						a := loadAddr(v)
						good = a == e.Addr
					}
					c.must(good, "adds the amount given", op.name, e.Pos, "%s changes a counter from %s to %s", r.who(op), e.Args[0], e.Args[1])
				case EvAStore, EvStore, EvASwap:
					c.fail("store:"+op.name, e.Pos, "%s overwrites a counter (or something next to it): increments made meanwhile are lost", r.who(op))
				}
				if last == e {
					sigs[sigOf(e.Addr)] = true
					x := r.matchedSlot(op, p)
					if p.Out != OutBack {
						c.must(x != nil && slotOf(e.Addr) == x, "adds to the counter of the key", op.name, e.Pos, "%s adds to counter %s, which is not known to be that of the key", r.who(op), slotOf(e.Addr))
					}
				}
			}
			if op != inc || p.Out != OutReturn {
				if p.Out == OutBack && n > 0 && op == inc {
					c.fail("loop:"+op.name, last.Pos, "%s can add more than once", r.who(op))
				}
				continue
			}
			pos := p.Pos
			switch {
			case isTrue(p.Facts, p.Ret[fi]):
				c.must(n == 1, "success adds once", op.name, pos, "%s reports success after adding %d times", r.who(op), n)
			case isFalse(p.Facts, p.Ret[fi]):
				c.must(n == 0, "failure adds nothing", op.name, pos, "%s reports failure although it has added to a counter", r.who(op))
			default:
				c.fail("result:"+op.name, pos, "%s reports %s, which is not known to say whether the amount was added", r.who(op), p.Ret[fi])
			}
		}
	}
	// Get returns that counter
	gi, _ := foundResult(get)
	for _, p := range get.it.Paths {
		if p.Out != OutReturn || isFalse(p.Facts, p.Ret[gi]) || len(p.Ret) < 2 {
			continue
		}
		v := p.Ret[1-gi]
		x := r.matchedSlot(get, p)
		good := false
		for _, e := range p.Events {
			if e.Kind == EvALoad && e.Res[0] == v && x != nil && slotOf(e.Addr) == x && sigs[sigOf(e.Addr)] {
				good = true
			}
		}
		c.must(good, "get returns the counter of the key", "Get", p.Pos, "%s returns %s, which is not an atomic load of the counter of the key", r.who(get), v)
	}
	// nothing else writes counters
	for _, fn := range c.P.funcsOf(r.rel) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
						if s, ok := ia.X.Type().Underlying().(*types.Slice); ok && basicOf(s.Elem()) != nil && basicOf(s.Elem()).Kind() == types.Uint64 {
							if !localSlice(ia.X) {
								c.fail("plain:"+fn.Name(), st.Pos(), "%s writes a counter or key without synchronisation", relName(c.P, fn))
							}
						}
					}
				}
			}
		}
	}
}

// localSlice: made in this function
func localSlice(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		_, ok := x.X.(*ssa.Alloc)
		return ok
	}
	return false
}

func (r *probePkg) op(name string) *probeOp {
	for _, o := range r.ops {
		if o.name == name {
			return o
		}
	}
	return nil
}

func init() {
	register(&checkDef{id: "C06", run: func(c *Check) {
		for _, rel := range []string{"internal/bufmap", "internal/incmap"} {
			r := &probePkg{c: c, rel: rel}
			if r.analyse() {
				r.c06()
			}
		}
	},
		rule:  "the sequence of slots looked at, computed from the initial value, step and guards of the search loop of each operation, is the same for all operations and reads do not stop before writers; a slot is passed over only if it is known to belong to another key; key words change only from zero to the key given, which is not zero; only the slot where the key was found is used",
		floor: map[string]int{"same slot at the same step": 4, "claims an empty slot for the key": 2, "zero key not stored": 2, "slot passed over belongs to another key": 2, "as many slots as are used": 2, "found only where the key is": 2}})
	register(&checkDef{id: "C07", run: func(c *Check) {
		r := &probePkg{c: c, rel: "internal/incmap"}
		if r.analyse() {
			r.c06() // a key has one counter
			r.c07()
		}
	},
		rule:  "on every path of Inc that reports success there is exactly one atomic addition of the amount given, in the slot where the key was found; on every other path there is none; Get returns an atomic load of the same word; a key has one slot, by the rules of C06",
		floor: map[string]int{"success adds once": 1, "failure adds nothing": 2, "get returns the counter of the key": 1, "adds to the counter of the key": 1}})
}
