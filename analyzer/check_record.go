package main

// C01-C05: the keyed record map (bufmap) and the single value lock (seqlock).

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// recPkg is the analysis of one of the two packages. Findings are tagged with the property
// they belong to; a check only takes its own.
type recPkg struct {
	c    *Check
	prop string
	rel  string
	typ  string
	recv types.Type // pointer to the record type

	mapLike bool
	fns     map[string]*Interp
	order   []string

	seqSig  map[string]bool
	liveSig map[string]bool
	keySig  map[string]bool
	initT   *Term // init argument of the update function, with
	initV   *Term // this load for the live word
	liveSet bool
}

func (r *recPkg) fail(prop, key string, pos token.Pos, f string, a ...interface{}) {
	if prop == r.prop {
		r.c.fail(prop+":"+key, pos, f, a...)
	}
}

func (r *recPkg) ok(prop, rule string) {
	if prop == r.prop {
		r.c.ok(rule)
	}
}

func (r *recPkg) must(cond bool, prop, rule, key string, pos token.Pos, f string, a ...interface{}) bool {
	if cond {
		r.ok(prop, rule)
	} else {
		r.fail(prop, rule+":"+key, pos, f, a...)
	}
	return cond
}

func isByte(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Kind() == types.Uint8
}

// recvRooted: memory reached through the receiver.
func (r *recPkg) recvRooted(t *Term) bool {
	x := baseRoot(t)
	return x.Op == "leaf" && x.Def != nil && x.Def.Kind == "param" && x.Def.Index == 0 && x.Typ != nil && types.Identical(x.Typ, r.recv)
}

// shared: the base of an array of bytes that belongs to the records.
func (r *recPkg) shared(base *Term) bool {
	if base == nil || !r.recvRooted(base) {
		return false
	}
	switch base.Op {
	case "load":
		if s, ok := base.Typ.Underlying().(*types.Slice); ok {
			return isByte(s.Elem())
		}
		if s, ok := base.Typ.Underlying().(*types.Pointer); ok {
			if a, ok := s.Elem().Underlying().(*types.Array); ok {
				return isByte(a.Elem())
			}
		}
	case "fa":
		i, _ := strconv.Atoi(base.Aux)
		if a, ok := structOf(base.Typ).Field(i).Type().Underlying().(*types.Array); ok {
			return isByte(a.Elem())
		}
	}
	return false
}

// slotOf finds the index of the slot that an address belongs to, if it belongs to one.
func slotOf(a *Term) *Term {
	for {
		switch a.Op {
		case "ia":
			if !isByte(a.Typ) {
				return a.Args[1]
			}
			a = a.Args[0]
		case "fa", "load", "w64", "w32", "w16":
			a = a.Args[0]
		default:
			return nil
		}
	}
}

// sigOf names the word at an address whatever its slot.
func sigOf(a *Term) string {
	s := ""
	for {
		switch a.Op {
		case "ia":
			s = "[]" + s
			a = a.Args[0]
		case "fa":
			s = "." + types.TypeString(a.Typ, nil) + "#" + a.Aux + s
			a = a.Args[0]
		case "load":
			s = "*" + s
			a = a.Args[0]
		default:
			return s
		}
	}
}

func sameSlot(a, b *Term) bool { return a == b }

// accesses of shared record bytes by an event: reads or writes
func (r *recPkg) sharedRead(e *Event) bool {
	switch e.Kind {
	case EvCopy:
		b, _, _ := sliceParts(e.Args[1])
		return r.shared(b)
	case EvLoad:
		b, _ := addrBase(e.Addr)
		return r.shared(b) || r.shared(e.Addr)
	case EvAppend:
		if e.Aux == "slice" {
			b, _, _ := sliceParts(e.Args[1])
			return r.shared(b)
		}
	}
	return false
}

func (r *recPkg) sharedWrite(e *Event) bool {
	switch e.Kind {
	case EvCopy:
		b, _, _ := sliceParts(e.Args[0])
		return r.shared(b)
	case EvStore:
		if e.Addr.Op == "ia" || e.Addr.Op == "w64" || e.Addr.Op == "w32" || e.Addr.Op == "w16" {
			return r.shared(e.Addr.Args[0])
		}
		return r.shared(e.Addr) || r.replaces(e.Addr)
	case EvAppend:
		b, _, _ := sliceParts(e.Args[0])
		return r.shared(b)
	}
	return false
}

// replaces: a store to the variable that holds the bytes
func (r *recPkg) replaces(a *Term) bool {
	if a.Op != "fa" || !r.recvRooted(a) {
		return false
	}
	i, _ := strconv.Atoi(a.Aux)
	if s, ok := structOf(a.Typ).Field(i).Type().Underlying().(*types.Slice); ok {
		return isByte(s.Elem())
	}
	return false
}

// mentionsShared: does a value refer to the bytes of records?
func (r *recPkg) mentionsShared(t *Term) bool {
	hit := false
	subterms(t, func(s *Term) bool {
		switch s.Op {
		case "slice":
			if r.shared(s.Args[0]) {
				hit = true
			}
			return !hit
		case "load":
			if r.shared(s) {
				hit = true
			}
			return false
		case "len", "cap":
			return false
		}
		return !hit
	})
	return hit
}

func (r *recPkg) analyse() {
	c := r.c
	tn := c.P.TypeOf(r.rel, r.typ)
	if tn == nil {
		c.fail("anchor:"+r.rel+"."+r.typ, token.NoPos, "type %s.%s not found", r.rel, r.typ)
		return
	}
	r.recv = types.NewPointer(tn)
	r.fns = map[string]*Interp{}
	r.seqSig, r.liveSig, r.keySig = map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, need := range []string{"Get", "Update"} {
		if c.fn(r.rel, r.typ+"."+need) == nil {
			return
		}
	}
	for _, fn := range c.P.exported(r.rel) {
		if rc := fn.Signature.Recv(); rc == nil || !types.Identical(rc.Type(), r.recv) && !types.Identical(rc.Type(), tn) {
			continue
		}
		it := c.run(fn, &Config{PanicCallbacks: true, Loads: true})
		r.fns[fn.Name()] = it
		r.order = append(r.order, fn.Name())
	}
	// roles, by use
	for _, n := range r.order {
		for _, p := range r.fns[n].Paths {
			wrote := false
			for _, e := range p.Events {
				if r.sharedWrite(e) {
					wrote = true
				}
			}
			for _, e := range p.Events {
				switch e.Kind {
				case EvACAS:
					r.keySig[sigOf(e.Addr)] = true
				case EvAAdd:
					if wrote || n == "Update" || n == "Put" {
						r.seqSig[sigOf(e.Addr)] = true
					}
				case EvALoad:
					// a word that is loaded twice around reads is a sequence
				}
			}
		}
	}
	if len(r.seqSig) == 0 {
		// a sequence that is advanced by stores
		for _, n := range r.order {
			for _, p := range r.fns[n].Paths {
				for _, e := range p.Events {
					if e.Kind == EvAStore && e.Val.Op == "poly" {
						r.seqSig[sigOf(e.Addr)] = true
					}
				}
			}
		}
	}
	for s := range r.keySig {
		delete(r.seqSig, s)
	}
	if len(r.seqSig) == 0 {
		r.fail("C01", "seq", token.NoPos, "%s: no write sequence is advanced by updates", r.rel)
	}
	r.updateInit()
	for _, n := range r.order {
		for _, p := range r.fns[n].Paths {
			if p.Out == OutBack {
				continue
			}
			r.path(n, r.fns[n], p)
		}
	}
	r.newFunc()
}

// updateInit finds the init argument of the update function and the word it depends on.
func (r *recPkg) updateInit() {
	it := r.fns["Update"]
	for _, p := range it.Paths {
		for _, e := range p.Events {
			if e.Kind != EvCall || e.Name != "dynamic" || len(e.Args) < 2 {
				continue
			}
			t := e.Args[1]
			if t.Op == "true" || t.Op == "false" {
				// decided by a branch on the state of the slot
				for _, x := range p.Events {
					if x == e {
						break
					}
					if (x.Kind == EvALoad || x.Kind == EvLoad) && r.recvRooted(x.Addr) && slotOf(x.Addr) != nil && !r.keySig[sigOf(x.Addr)] && !r.seqSig[sigOf(x.Addr)] && x.Res[0].W > 0 {
						c := beq(x.Res[0], mkInt(x.Res[0].W, 0))
						if t.Op == "true" && isTrue(p.Facts, c) || t.Op == "false" && isFalse(p.Facts, c) {
							r.initT, r.initV = c, x.Res[0]
							r.liveSig[sigOf(x.Addr)] = true
							return
						}
					}
				}
			}
			var loads []*Term
			subterms(t, func(s *Term) bool {
				if s.Op == "leaf" && s.Def != nil && s.Def.Kind == "aload" {
					loads = append(loads, s)
				}
				if s.Op == "load" {
					loads = append(loads, s)
					return false
				}
				return true
			})
			if len(loads) == 1 {
				r.initT, r.initV = t, loads[0]
				var a *Term
				if loads[0].Op == "load" {
					a = loads[0].Args[0]
				} else {
					a = loads[0].Def.Args[0]
				}
				r.liveSig[sigOf(a)] = true
			}
			return
		}
	}
}

// needsInit is the init argument for a given value of the live word.
func (r *recPkg) needsInit(v *Term) *Term {
	if r.initT == nil {
		return nil
	}
	return subst(r.initT, map[*Term]*Term{r.initV: v})
}

func loadAddr(t *Term) *Term {
	if t.Op == "load" {
		return t.Args[0]
	}
	if t.Op == "leaf" && t.Def != nil && t.Def.Kind == "aload" {
		return t.Def.Args[0]
	}
	return nil
}

// matched is the slot index at which the key was found on the path.
func (r *recPkg) matched(it *Interp, p *Path) (*Term, bool) {
	if !r.mapLike {
		return nil, true
	}
	k := it.Params[1]
	var x *Term
	found := false
	for _, e := range p.Events {
		if e.Addr == nil || !r.keySig[sigOf(e.Addr)] {
			continue
		}
		switch e.Kind {
		case EvALoad, EvLoad:
			if isTrue(p.Facts, beq(e.Res[0], k)) {
				x, found = slotOf(e.Addr), true
			}
		case EvACAS:
			if isTrue(p.Facts, e.Res[0]) {
				x, found = slotOf(e.Addr), true
			}
		}
	}
	return x, found
}

func (r *recPkg) path(name string, it *Interp, p *Path) {
	c := r.c
	evs, own := p.flatOwn()
	xs := transfers(evs)
	fn := it.Root
	at := func(e *Event) token.Pos {
		if e != nil && e.Pos.IsValid() {
			return e.Pos
		}
		return fn.Pos()
	}
	who := r.rel + "." + r.typ + "." + name
	_ = c
	slot, matched := r.matched(it, p)

	// --- locks, sequence and live word along the path
	type heldLock struct {
		addr *Term
		aux  string
		slot *Term
		at   int
	}
	var held []heldLock
	parity := map[*Term]int{} // how far the sequence has been advanced
	seen := map[*Term]int{}   // and how far it had been when it was loaded under the lock
	var call *Event
	callAt := -1
	calls := 0
	writesBefore := 0
	wholeLock := func(sl *Term) int {
		for i, h := range held {
			if h.aux == "w" && (!r.mapLike || h.slot == sl || h.slot == nil) {
				return i
			}
		}
		return -1
	}
	anyLock := func(sl *Term) bool {
		for _, h := range held {
			if !r.mapLike || h.slot == sl || h.slot == nil {
				return true
			}
		}
		return false
	}
	type readEv struct {
		at     int
		e      *Event
		locked bool
	}
	var reads []readEv
	firstWrite, lastWrite := -1, -1
	writeSeen := false
	var liveStores []int
	loopDepthOfSeq := false
	_ = loopDepthOfSeq
	for i, e := range evs {
		switch e.Kind {
		case EvLock:
			if !r.recvRooted(e.Addr) {
				continue
			}
			for _, h := range held {
				if h.addr == e.Addr {
					r.fail("C02", "relock:"+name, at(e), "%s takes a lock that it holds already, and waits for ever", who)
				}
			}
			held = append(held, heldLock{e.Addr, e.Aux, slotOf(e.Addr), i})
			r.ok("C02", "lock")
		case EvUnlock:
			if !r.recvRooted(e.Addr) {
				continue
			}
			n := -1
			for j, h := range held {
				if h.addr == e.Addr && h.aux == e.Aux {
					n = j
				}
			}
			if n < 0 {
				r.fail("C02", "unlock:"+name, at(e), "%s releases a lock that it does not hold", who)
				continue
			}
			for a, v := range parity {
				if v%2 != 0 {
					r.fail("C02", "odd-unlock:"+name, at(e), "%s releases the lock while the write sequence %s is odd: readers wait for ever", who, a)
				}
			}
			held = append(held[:n:n], held[n+1:]...)
			seen = map[*Term]int{}
		case EvALoad:
			if r.recvRooted(e.Addr) && r.seqSig[sigOf(e.Addr)] && wholeLock(slotOf(e.Addr)) >= 0 {
				seen[e.Res[0]] = parity[e.Addr]
			}
		case EvAAdd:
			if !r.recvRooted(e.Addr) || !r.seqSig[sigOf(e.Addr)] {
				continue
			}
			if !e.Val.isInt() {
				r.fail("C01", "seq-add:"+name, at(e), "%s adds an amount that is not known to the write sequence", who)
				continue
			}
			d := e.Val.sval()
			if d <= 0 {
				r.fail("C01", "seq-add:"+name, at(e), "%s moves the write sequence backwards", who)
			}
			parity[e.Addr] += int(d)
			if wholeLock(slotOf(e.Addr)) < 0 {
				r.fail("C02", "seq-unlocked:"+name, at(e), "%s advances the write sequence of a record without holding its lock", who)
			}
			if i > 0 && inLoopBody(evs, i, p) {
				r.fail("C01", "seq-loop:"+name, at(e), "%s advances the write sequence in a loop", who)
			}
		case EvAStore:
			if r.recvRooted(e.Addr) && r.seqSig[sigOf(e.Addr)] {
				// seq = what it was + c
				good := false
				subterms(e.Val, func(s *Term) bool {
					if was, ok := seen[s]; ok && loadAddr(s) == e.Addr {
						if d := isub(e.Val, s); d.isInt() && was+int(d.sval()) > parity[e.Addr] {
							parity[e.Addr] = was + int(d.sval())
							good = true
						}
					}
					return !good
				})
				if !good || wholeLock(slotOf(e.Addr)) < 0 {
					r.fail("C01", "seq-store:"+name, at(e), "%s sets the write sequence to %s, which is not known to advance it", who, e.Val)
				}
			}
		case EvCall:
			if e.Name == "dynamic" {
				calls++
				call, callAt = e, i
				if wholeLock(slot) < 0 {
					r.fail("C02", "call-unlocked:"+name, at(e), "%s calls the update function without holding the lock of the record", who)
				} else {
					r.ok("C02", "update function under lock")
				}
				if writeSeen {
					writesBefore++
				}
			}
			for _, a := range e.Args {
				if r.mentionsShared(a) {
					r.fail("C03", "escape:"+name, at(e), "%s hands the stored bytes themselves to %s", who, shortName(e.Name))
					r.fail("C01", "escape:"+name, at(e), "%s hands the stored bytes themselves to %s", who, shortName(e.Name))
				}
			}
		case EvGo:
			r.fail("C01", "go:"+name, at(e), "%s starts a goroutine; what it does with the record is not known", who)
		}
		if r.sharedRead(e) {
			sl := r.dataSlot(e, slot)
			reads = append(reads, readEv{i, e, anyLock(sl)})
		}
		if r.sharedWrite(e) {
			writeSeen = true
			if firstWrite < 0 {
				firstWrite = i
			}
			lastWrite = i
			if wholeLock(slot) < 0 {
				r.fail("C02", "write-unlocked:"+name, at(e), "%s writes the stored bytes without holding the lock of the record", who)
			} else {
				r.ok("C02", "write under lock")
			}
			odd := false
			for a, v := range parity {
				if v%2 != 0 && (!r.mapLike || slotOf(a) == slot) {
					odd = true
				}
			}
			r.must(odd, "C01", "write in odd window", name, at(e), "%s writes the stored bytes while the write sequence is even: a read in progress is not repeated", who)
			if !matched {
				r.fail("C05", "nokey:"+name, at(e), "%s writes the bytes of a slot that does not belong to the key", who)
			}
		}
		if e.Addr != nil && r.liveSig[sigOf(e.Addr)] && r.recvRooted(e.Addr) && (e.Kind == EvAStore || e.Kind == EvStore || e.Kind == EvAAdd || e.Kind == EvACAS || e.Kind == EvASwap) && !r.seqSig[sigOf(e.Addr)] {
			liveStores = append(liveStores, i)
			if wholeLock(slotOf(e.Addr)) < 0 {
				r.fail("C04", "live-unlocked:"+name, at(e), "%s marks the record as initialised without holding its lock", who)
			}
			odd := false
			for _, v := range parity {
				if v%2 != 0 {
					odd = true
				}
			}
			if !odd && lastWrite < 0 {
				r.fail("C04", "live-early:"+name, at(e), "%s marks the record as initialised before its bytes are stored: a read can return a record that holds nothing", who)
			}
		}
	}
	// --- every exit
	if p.Out == OutReturn || p.Out == OutPanic || p.Out == OutBlock {
		how := "returns"
		if p.Out == OutPanic {
			how = "lets a panic of the update function pass"
		}
		pos := p.Pos
		if !pos.IsValid() && call != nil {
			pos = call.Pos
		}
		for _, h := range held {
			r.fail("C02", "held:"+name+":"+string(p.Out), pos, "%s %s while still holding the lock %s", who, how, h.addr)
		}
		for a, v := range parity {
			if v%2 != 0 {
				r.fail("C02", "odd-exit:"+name+":"+string(p.Out), pos, "%s %s with the write sequence %s odd: every later read waits for ever", who, how, a)
				r.fail("C01", "odd-exit:"+name+":"+string(p.Out), pos, "%s %s with the write sequence %s odd", who, how, a)
			}
		}
		if len(held) == 0 {
			r.ok("C02", "lock released on exit")
		}
	}
	if p.Out == OutExit {
		return
	}

	// --- ranges (C05)
	for _, x := range xs {
		for side, b := range []*Term{x.src, x.dst} {
			if !r.shared(b) {
				continue
			}
			off := x.so
			if side == 1 {
				off = x.do
			}
			r.checkRange(name, who, it, p, slot, matched, b, off, x, side)
		}
	}
	for i, e := range evs {
		if e.Kind == EvCopy || !r.sharedRead(e) && !r.sharedWrite(e) {
			continue
		}
		if e.Kind == EvAppend && i > 0 && hasCopy(evs, e) {
			continue
		}
		// an element access: part of a loop that has been recognised?
		if e.Kind == EvLoad && e.Addr.Op != "ia" {
			continue
		}
		part := false
		for _, x := range xs {
			if x.ev == e || x.ev.Kind == EvStore && x.ev.Val.Op == "load" && e.Kind == EvLoad && x.ev.Val == e.Res[0] {
				part = true
			}
		}
		if !part {
			r.fail("C05", "element:"+name, at(evs[i]), "%s accesses single stored bytes; that they are exactly those of the record cannot be decided", who)
		}
	}

	// --- reads (C01)
	ret := p.Out == OutReturn
	success := ret
	if ret && name == "Get" && r.mapLike && len(p.Ret) > 0 && isFalse(p.Facts, p.Ret[0]) {
		success = false
	}
	if ret && len(p.Ret) > 0 {
		for _, t := range p.Ret {
			if r.mentionsShared(t) {
				r.fail("C01", "return-shared:"+name, p.Pos, "%s returns a reference to the stored bytes", who)
			}
		}
	}
	validated := func(i int, sl *Term) (int, int, bool) {
		// two loads of the sequence around event i
		for a := i - 1; a >= 0; a-- {
			e1 := evs[a]
			// the observations of an attempt that failed do not count for the one that succeeds
			if !own[a] || e1.Kind != EvALoad || !r.seqSig[sigOf(e1.Addr)] || !r.recvRooted(e1.Addr) || r.mapLike && slotOf(e1.Addr) != sl {
				continue
			}
			if !isTrue(p.Facts, beq(iand(e1.Res[0], mkInt(e1.Res[0].W, 1)), mkInt(e1.Res[0].W, 0))) {
				continue
			}
			for b := i + 1; b < len(evs); b++ {
				e2 := evs[b]
				if own[b] && e2.Kind == EvALoad && e2.Addr == e1.Addr && isTrue(p.Facts, beq(e1.Res[0], e2.Res[0])) {
					return a, b, true
				}
			}
		}
		return 0, 0, false
	}
	if success {
		s2 := -1
		full := false
		for _, rd := range reads {
			sl := slot
			good := rd.locked
			if !good {
				_, b, v := validated(rd.at, sl)
				good = v
				if v && b > s2 {
					s2 = b
				}
			}
			if !good {
				// an earlier attempt that is repeated?
				for _, o := range reads {
					if o.at > rd.at && o.e.Instr == rd.e.Instr {
						if _, _, v := validated(o.at, sl); v {
							good = true
						}
					}
				}
			}
			r.must(good, "C01", "read validated", name, at(rd.e), "%s can return bytes read while an update was in progress: no equal and even observations of the write sequence of the record around the read", who)
		}
		if name == "Get" {
			for _, x := range xs {
				if r.shared(x.src) && !r.shared(x.dst) {
					full = true
				}
			}
			if r.mapLike {
				buf := it.Params[2]
				full = false
				bb, bo, _ := sliceParts(buf)
				for _, x := range xs {
					if r.shared(x.src) && x.dst == bb && x.do == bo {
						full = true
					}
				}
			} else {
				full = r.returnsCopy(it, p, xs)
			}
			r.must(full, "C01", "record returned", name, p.Pos, "%s reports success but the caller is not given the bytes of the record", who)
			if r.mapLike {
				r.must(matched, "C05", "key matched", name, p.Pos, "%s reports success on a slot that is not known to belong to the key", who)
				// live
				if r.initT != nil && slot != nil {
					good := false
					for i, e := range evs {
						if (e.Kind == EvALoad || e.Kind == EvLoad) && r.liveSig[sigOf(e.Addr)] && slotOf(e.Addr) == slot {
							if isFalse(p.Facts, r.needsInit(e.Res[0])) {
								if s2 < 0 || i < s2 {
									good = true
								} else {
									r.fail("C04", "live-late:"+name, at(e), "%s looks whether the record is initialised only after reading it: it can report the bytes from before the initialisation as found", who)
									good = true
								}
							}
						}
					}
					r.must(good, "C04", "found implies initialised", name, p.Pos, "%s reports a record as found without knowing that it has been initialised", who)
				}
			}
		}
	} else if ret && name == "Get" && matched && r.initT != nil {
		good := false
		for _, e := range evs {
			if (e.Kind == EvALoad || e.Kind == EvLoad) && r.liveSig[sigOf(e.Addr)] && slotOf(e.Addr) == slot && isTrue(p.Facts, r.needsInit(e.Res[0])) {
				good = true
			}
		}
		r.must(good, "C04", "not found implies uninitialised", name, p.Pos, "%s reports a key as not found although its record is initialised", who)
	}

	// --- updates
	switch name {
	case "Update":
		r.updatePath(name, who, it, p, evs, xs, slot, call, callAt, calls, writeSeen, liveStores)
	case "Put":
		v := it.Params[1]
		good := false
		for _, x := range xs {
			if r.shared(x.dst) && !r.shared(x.src) {
				if x.src == v || r.holds(xs, x.src, v, x.at) {
					good = true
				}
			}
		}
		r.must(good, "C03", "value stored", name, p.Pos, "%s does not store the value it is given", who)
	default:
		if len(liveStores) > 0 {
			r.fail("C04", "live:"+name, at(evs[liveStores[0]]), "%s changes whether the record counts as initialised", who)
		}
	}
	if p.Out == OutReturn && name == "Get" && writeSeen {
		r.fail("C01", "get-writes:"+name, p.Pos, "%s writes stored bytes", who)
	}
}

// holds: was the object obj filled with all of v when the copies from at on were made?
func (r *recPkg) holds(xs []xfer, obj, v *Term, at int) bool {
	var last *xfer
	for i := range xs {
		x := &xs[i]
		if x.at < at && (x.dst == obj || baseRoot(x.dst) == obj) {
			last = x
		}
	}
	if last == nil || last.dst != obj || !last.do.isConstInt(0) || !last.so.isConstInt(0) {
		return false
	}
	if n := arrayLen(obj); n >= 0 && !last.n.isConstInt(n) {
		return false
	}
	return last.src == v || r.holds(xs, last.src, v, last.at)
}

// inLoopBody: is event i one that was spliced in from a loop?
func inLoopBody(evs []*Event, i int, p *Path) bool {
	for _, e := range p.Events {
		if e == evs[i] {
			return false
		}
	}
	return true
}

// hasCopy: an append of bytes that is also listed as a copy
func hasCopy(evs []*Event, e *Event) bool {
	for _, x := range evs {
		if x.Kind == EvCopy && x.Instr == e.Instr {
			return true
		}
	}
	return false
}

func (r *recPkg) dataSlot(e *Event, slot *Term) *Term { return slot }

// stride finds S such that the bytes of slot x begin at x*S.
func strideOf(off, x *Term) *Term {
	if off.Op == "poly" && len(off.Monos) == 1 && off.V == 0 && off.Monos[0].coef == 1 && len(off.Monos[0].atoms) == 2 {
		a := off.Monos[0].atoms
		if a[0] == x {
			return a[1]
		}
		if a[1] == x {
			return a[0]
		}
	}
	if off.Op == "poly" && len(off.Monos) == 1 && off.V == 0 && len(off.Monos[0].atoms) == 1 && off.Monos[0].atoms[0] == x {
		return mkInt(64, off.Monos[0].coef)
	}
	return nil
}

func (r *recPkg) checkRange(name, who string, it *Interp, p *Path, slot *Term, matched bool, base, off *Term, x xfer, side int) {
	verb := "reads"
	if side == 1 {
		verb = "writes"
	}
	pos := x.ev.Pos
	other := x.dst
	if side == 1 {
		other = x.src
	}
	if !r.mapLike {
		n := arrayLen(base)
		r.must(off.isConstInt(0) && n >= 0 && x.n.isConstInt(n), "C05", "whole record", name+":"+verb, pos, "%s %s %s bytes from %s of a record of %d bytes", who, verb, x.n, off, n)
		if side == 1 {
			r.must(n >= 0 && x.n.isConstInt(n), "C03", "all of it stored", name, pos, "%s stores %s bytes of a record of %d bytes", who, x.n, n)
		}
		return
	}
	if slot == nil || !matched {
		r.fail("C05", "nokey:"+name+":"+verb, pos, "%s %s bytes of a slot that is not known to belong to the key", who, verb)
		return
	}
	s := strideOf(off, slot)
	if s == nil {
		r.fail("C05", "offset:"+name+":"+verb, pos, "%s %s at %s, which is not slot %s times the size of a record", who, verb, off, slot)
		return
	}
	// all of the record
	full := x.n == s
	if !full && side == 0 {
		// limited by the caller's buffer
		_, _, bn := sliceParts(it.Params[len(it.Params)-1])
		if name == "Get" && (x.n == minTerm(s, bn) || x.n == bn && isFalse(p.Facts, bslt(s, bn)) || x.n == bn && isTrue(x.ev.Facts, bslt(bn, s))) {
			full = true
		}
	}
	r.must(full, "C05", "whole record", name+":"+verb, pos, "%s %s %s bytes of a record of %s bytes", who, verb, x.n, s)
	if side == 1 {
		r.must(full, "C03", "all of it stored", name, pos, "%s stores %s bytes of a record of %s bytes", who, x.n, s)
	}
	_ = other
	// slot index within bounds
	l := modulusOf(slot)
	if l == nil {
		l = inductiveModulus(slot)
	}
	if l == nil {
		r.fail("C05", "slot:"+name, pos, "%s uses slot %s, which is not known to be within the map", who, slot)
		return
	}
	r.sizes(name, l, s, base, pos)
}

func arrayLen(base *Term) int64 {
	if base.Op == "fa" {
		i, _ := strconv.Atoi(base.Aux)
		if a, ok := structOf(base.Typ).Field(i).Type().Underlying().(*types.Array); ok {
			return a.Len()
		}
	}
	if base.Op == "load" {
		if s, ok := base.Typ.Underlying().(*types.Pointer); ok {
			if a, ok := s.Elem().Underlying().(*types.Array); ok {
				return a.Len()
			}
		}
	}
	return -1
}

// modulusOf: x = y mod l
func modulusOf(x *Term) *Term {
	x = stripZext(x)
	if x.Op == "urem" || x.Op == "srem" && notNegative(x.Args[0], nil) {
		return x.Args[1]
	}
	return nil
}

// notNegative: t, as a signed number, is the sum of what is not negative (and small: positions and
// numbers of steps).
func notNegative(t *Term, seen map[*Term]bool) bool {
	if nonNeg(t) {
		return true
	}
	if seen[t] {
		return true // by induction
	}
	if seen == nil {
		seen = map[*Term]bool{}
	}
	switch t.Op {
	case "poly":
		if t.V>>(uint(t.W)-1) != 0 {
			return false
		}
		for _, m := range t.Monos {
			if m.coef>>(uint(t.W)-1) != 0 {
				return false
			}
			for _, a := range m.atoms {
				if !notNegative(a, seen) {
					return false
				}
			}
		}
		return true
	case "urem":
		// less than a number of slots
		m := t.Args[1]
		b := basicOf(m.Typ)
		return m.Op == "load" && b != nil && b.Info()&types.IsUnsigned == 0 || notNegative(t.Args[0], seen)
	case "srem":
		return notNegative(t.Args[0], seen)
	case "trunc":
		return notNegative(t.Args[0], seen)
	case "leaf":
		if t.Def == nil || t.Def.Kind != "phi" || t.Def.Loop == nil {
			return false
		}
		init := t.Def.Loop.Init[t]
		if init == nil || init == t || !notNegative(init, seen) {
			return false
		}
		seen[t] = true
		for _, b := range t.Def.Loop.Backs {
			nx := b.Next[t]
			if nx == nil {
				return false
			}
			if d := isub(nx, t); nx != t && !(d.isInt() && d.sval() >= 0) && !notNegative(nx, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// inductiveModulus: x is a loop variable that always stays in [0,l)
func inductiveModulus(x *Term) *Term {
	if x.Op != "leaf" || x.Def == nil || x.Def.Kind != "phi" || x.Def.Loop == nil {
		return nil
	}
	info := x.Def.Loop
	init := info.Init[x]
	if init == nil {
		return nil
	}
	l := modulusOf(init)
	if l == nil {
		return nil
	}
	n := 0
	for _, b := range info.Backs {
		nx := b.Next[x]
		if nx == nil {
			return nil
		}
		n++
		switch {
		case nx == x || nx.isConstInt(0) || modulusOf(nx) == l:
		case nx == iadd(x, mkInt(x.W, 1)) && isFalse(b.Facts, beq(nx, l)):
		default:
			return nil
		}
	}
	if n == 0 {
		return nil
	}
	return l
}

type sizeReq struct {
	l, s, base *Term
	pos        token.Pos
	name       string
}

var sizeReqs []sizeReq

func (r *recPkg) sizes(name string, l, s, base *Term, pos token.Pos) {
	for _, q := range sizeReqs {
		if q.l == l && q.s == s && q.base == base {
			return
		}
	}
	sizeReqs = append(sizeReqs, sizeReq{l, s, base, pos, name})
}

// newFunc checks that the constructor makes room for every slot.
func (r *recPkg) newFunc() {
	reqs := sizeReqs
	sizeReqs = nil
	if !r.mapLike {
		return
	}
	fn := r.c.fn(r.rel, "New")
	if fn == nil {
		return
	}
	it := r.c.run(fn, &Config{Loads: true})
	for _, p := range it.Paths {
		if p.Out != OutReturn {
			continue
		}
		for _, e := range p.Events {
			if e.Addr != nil && (e.Kind == EvAStore || e.Kind == EvStore) && (r.liveSig[sigOf(e.Addr)] || r.keySig[sigOf(e.Addr)]) && !e.Val.isConstInt(0) {
				r.fail("C04", "new", e.Pos, "New sets %s: the record counts as initialised from the start", e.Addr)
			}
		}
		for _, q := range reqs {
			eval := func(t *Term) *Term { return r.evalField(it, p, t) }
			l, s := eval(q.l), eval(q.s)
			n := mkLen(eval(q.base))
			r.must(n == imul(l, s), "C05", "storage", "values", fn.Pos(), "New makes room for %s bytes, but the records take %s times %s", n, l, s)
		}
		// the slots themselves
		for _, q := range reqs {
			l := r.evalField(it, p, q.l)
			for sig := range r.keySig {
				base := r.slotArray(sig)
				if base == nil {
					continue
				}
				n := mkLen(r.evalField(it, p, base))
				r.must(n == l, "C05", "slots", "keys", fn.Pos(), "New makes %s slots, but slots up to %s are used", n, l)
			}
		}
	}
	if len(reqs) == 0 {
		r.fail("C05", "no-ranges", token.NoPos, "%s: no access of the bytes of a record was found", r.rel)
	}
}

// slotArray is the slice of slots in the receiver
func (r *recPkg) slotArray(sig string) *Term {
	for _, n := range r.order {
		for _, p := range r.fns[n].Paths {
			for _, e := range p.Events {
				if e.Addr != nil && sigOf(e.Addr) == sig {
					a := e.Addr
					for a.Op == "fa" || a.Op == "ia" {
						if a.Op == "ia" {
							return a.Args[0]
						}
						a = a.Args[0]
					}
				}
			}
		}
	}
	return nil
}

// evalField replaces fields of the receiver in t by their values in the object that New returns.
func (r *recPkg) evalField(it *Interp, p *Path, t *Term) *Term {
	obj := p.Ret[0]
	m := map[*Term]*Term{}
	subterms(t, func(s *Term) bool {
		if s.Op == "load" && r.recvRooted(s.Args[0]) && s.Args[0].Op == "fa" && s.Args[0].Args[0].Op == "leaf" {
			a := s.Args[0]
			i, _ := strconv.Atoi(a.Aux)
			v := p.St.mem.peek(it, p.St, mkFA(obj, i, a.Typ), structOf(a.Typ).Field(i).Type())
			m[s] = v
			return false
		}
		return true
	})
	return subst(t, m)
}

// returnsCopy: the array returned is filled with the whole record.
func (r *recPkg) returnsCopy(it *Interp, p *Path, xs []xfer) bool {
	if len(p.Ret) == 0 {
		return false
	}
	t := p.Ret[0]
	// the record itself, loaded as a whole
	for i := 0; i < 4; i++ {
		if t.Op != "load" && t.Op != "arrval" {
			break
		}
		a := t.Args[0]
		if r.shared(a) {
			return true
		}
		hit := false
		for j := len(xs) - 1; j >= 0; j-- {
			if xs[j].dst == a {
				if r.shared(xs[j].src) {
					return true
				}
				t = mkT("load", "", t.Typ, xs[j].src)
				hit = true
				break
			}
		}
		if !hit {
			break
		}
	}
	return false
}

func (r *recPkg) updatePath(name, who string, it *Interp, p *Path, evs []*Event, xs []xfer, slot *Term, call *Event, callAt, calls int, writeSeen bool, liveStores []int) {
	if calls > 1 {
		r.fail("C03", "calls:"+name, call.Pos, "%s calls the update function more than once in one update", who)
		return
	}
	errRet := func() *Term {
		if p.Out == OutReturn && len(p.Ret) > 0 {
			return p.Ret[len(p.Ret)-1]
		}
		return nil
	}
	if call == nil {
		if writeSeen {
			r.fail("C03", "write-nocall:"+name, p.Pos, "%s changes the record without calling the update function", who)
		}
		if e := errRet(); e != nil {
			r.must(isFalse(p.Facts, beq(e, tNil)), "C03", "no update implies error", name, p.Pos, "%s returns without an error although the update function was not called", who)
		}
		if len(liveStores) > 0 {
			r.fail("C04", "live-nocall:"+name, evs[liveStores[0]].Pos, "%s marks a record as initialised without calling the update function", who)
		}
		return
	}
	fnp := it.Params[len(it.Params)-1]
	if call.Val != fnp {
		r.fail("C03", "callee:"+name, call.Pos, "%s calls %s rather than the update function", who, call.Val)
	}
	// the memory given to the function
	buf := call.Args[0]
	bb, bo, bn := sliceParts(buf)
	private := bb.Op == "obj"
	r.must(private, "C03", "private copy", name, call.Pos, "%s lets the update function work on %s, not on a private copy", who, buf)
	if private {
		lockAt := -1
		for i := 0; i < callAt; i++ {
			if evs[i].Kind == EvLock && r.recvRooted(evs[i].Addr) && (!r.mapLike || slotOf(evs[i].Addr) == slot) {
				lockAt = i
			}
		}
		var fill *xfer
		for i := range xs {
			x := &xs[i]
			if x.dst == bb && x.at < callAt && x.do == bo {
				fill = x
			}
		}
		last := fill
		if fill != nil {
			fill = copiedFrom(evs, xs, fill)
		}
		good := fill != nil && r.shared(fill.src)
		if r.must(good, "C03", "copy of the record", name, call.Pos, "%s gives the update function memory that is not a copy of the record", who) {
			r.must(fill.n == bn, "C03", "full copy", name, fill.ev.Pos, "%s copies %s of the %s bytes it gives to the update function", who, fill.n, bn)
			r.must(fill.at > lockAt && lockAt >= 0, "C02", "copy under lock", name, fill.ev.Pos, "%s copies the record before it holds the lock: an update in between is lost", who)
			for i := last.at + 1; i < callAt; i++ {
				e := evs[i]
				if e.Kind == EvStore && e != fill.ev && baseRoot(e.Addr) == bb || e.Kind == EvCopy && e != fill.ev && baseRoot(e.Args[0]) == bb {
					r.fail("C03", "altered:"+name, e.Pos, "%s changes the copy before the update function sees it", who)
				}
			}
		}
	}
	// init
	if r.mapLike && len(call.Args) > 1 {
		r.initArg(name, who, p, evs, slot, call, callAt)
	}
	res := call.Res[len(call.Res)-1]
	okFn := isTrue(p.Facts, beq(res, tNil))
	var wb []xfer
	for _, x := range xs {
		if r.shared(x.dst) {
			if o := copiedFrom(evs, xs, &x); o != &x {
				x.src, x.so = o.src, o.so
			}
			wb = append(wb, x)
		}
	}
	if p.Out == OutPanic || !okFn {
		if len(wb) > 0 || writeSeen {
			pos := call.Pos
			if len(wb) > 0 {
				pos = wb[0].ev.Pos
			}
			r.fail("C03", "write-failed:"+name, pos, "%s changes the record on a path on which the update function is not known to have succeeded", who)
		} else {
			r.ok("C03", "failed update writes nothing")
		}
		if len(liveStores) > 0 {
			r.fail("C04", "live-failed:"+name, evs[liveStores[0]].Pos, "%s marks the record as initialised on a path on which the update function is not known to have succeeded", who)
		}
		if e := errRet(); e != nil {
			r.must(e == res || contains(e, res) && isFalse(p.Facts, beq(e, tNil)), "C03", "error returned", name, p.Pos, "%s returns %s instead of the error of the update function", who, e)
		}
		return
	}
	// success
	if e := errRet(); e != nil {
		r.must(isTrue(p.Facts, beq(e, tNil)), "C03", "success returned", name, p.Pos, "%s returns %s although the update function succeeded", who, e)
	}
	good := false
	for _, x := range wb {
		if x.src == bb && x.so == bo && x.at > callAt {
			good = true
		} else {
			r.fail("C03", "other-bytes:"+name, x.ev.Pos, "%s stores bytes other than those the update function produced", who)
		}
	}
	if private {
		r.must(good, "C03", "result stored", name, call.Pos, "%s does not store what the update function produced", who)
		for i := callAt + 1; i < len(evs); i++ {
			e := evs[i]
			if (e.Kind == EvStore && baseRoot(e.Addr) == bb || e.Kind == EvCopy && baseRoot(e.Args[0]) == bb) && len(wb) > 0 && i < wb[len(wb)-1].at {
				r.fail("C03", "altered-after:"+name, e.Pos, "%s changes what the update function produced before storing it", who)
			}
		}
	}
	// live
	if r.mapLike && r.initT != nil {
		initArg := call.Args[1]
		set := false
		for _, i := range liveStores {
			e := evs[i]
			if slotOf(e.Addr) != slot {
				r.fail("C04", "live-slot:"+name, e.Pos, "%s marks another slot as initialised", who)
			}
			v := r.needsInit(resize(e.Val, e.Val.W, r.initV.W, false))
			if (e.Kind == EvAStore || e.Kind == EvStore || e.Kind == EvASwap) && v != nil && v.Op == "false" {
				set = true
			} else {
				r.fail("C04", "live-value:"+name, e.Pos, "%s stores %s in the word that says whether the record is initialised: later updates would be told to initialise it again", who, e.Val)
			}
			if i < callAt {
				r.fail("C04", "live-before:"+name, e.Pos, "%s marks the record as initialised before the update function has succeeded", who)
			}
		}
		if !isFalse(p.Facts, initArg) {
			r.must(set, "C04", "success marks initialised", name, p.Pos, "%s does not record that the record is initialised: the next update initialises it again", who)
		}
	}
}

// copiedFrom follows a copy from a local array to where the whole content of that was copied from.
func copiedFrom(evs []*Event, xs []xfer, x *xfer) *xfer {
next:
	for x.src.Op == "obj" {
		var y *xfer
		for i := range xs {
			if z := &xs[i]; z.at < x.at && z.dst == x.src {
				y = z
			}
		}
		if y == nil || y.do != x.so || y.n != x.n {
			return x
		}
		for i := y.at + 1; i < x.at; i++ {
			e := evs[i]
			if e == y.ev {
				continue
			}
			if e.Kind == EvStore && baseRoot(e.Addr) == x.src || e.Kind == EvCopy && baseRoot(e.Args[0]) == x.src {
				break next
			}
			if e.Kind == EvCall || e.Kind == EvGo {
				for _, a := range e.Args {
					if contains(a, x.src) {
						break next
					}
				}
			}
		}
		x = y
	}
	return x
}

func (r *recPkg) initArg(name, who string, p *Path, evs []*Event, slot *Term, call *Event, callAt int) {
	t := call.Args[1]
	if r.initT == nil {
		r.fail("C04", "init:"+name, call.Pos, "%s tells the update function to initialise according to %s, which is not the state of the slot", who, t)
		return
	}
	// the word must be read under the lock, in the slot of the key
	var a, v *Term
	subterms(t, func(s *Term) bool {
		if x := loadAddr(s); x != nil && a == nil {
			a, v = x, s
		}
		return a == nil
	})
	if a == nil && (t.Op == "true" || t.Op == "false") {
		// decided by a branch
		for i := 0; i < callAt; i++ {
			e := evs[i]
			if (e.Kind == EvALoad || e.Kind == EvLoad) && r.liveSig[sigOf(e.Addr)] && r.recvRooted(e.Addr) {
				ni := r.needsInit(e.Res[0])
				if ni != nil && (t.Op == "true" && isTrue(call.Facts, ni) || t.Op == "false" && isFalse(call.Facts, ni)) {
					a, v = e.Addr, e.Res[0]
					t = ni
				}
			}
		}
	}
	if a == nil {
		// decided by the facts
		r.fail("C04", "init-const:"+name, call.Pos, "%s always tells the update function %s", who, t)
		return
	}
	r.must(r.recvRooted(a) && slotOf(a) == slot, "C04", "init of the slot", name, call.Pos, "%s decides about initialisation by %s, which is not part of the slot of the key", who, a)
	z := subst(t, map[*Term]*Term{v: mkInt(v.W, 0)})
	r.must(z.Op == "true", "C04", "fresh slot initialises", name, call.Pos, "%s does not tell the update function to initialise a fresh record", who)
	lock, ld := -1, -1
	for i := 0; i < callAt; i++ {
		e := evs[i]
		if e.Kind == EvLock && slotOf(e.Addr) == slot {
			lock = i
		}
		if (e.Kind == EvALoad || e.Kind == EvLoad) && len(e.Res) > 0 && e.Res[0] == v {
			ld = i
		}
	}
	r.must(ld > lock && lock >= 0, "C04", "init read under lock", name, call.Pos, "%s looks whether the record is initialised before it holds the lock: two updates can both initialise it", who)
	if r.keySig[sigOf(a)] {
		r.fail("C04", "init-key:"+name, call.Pos, "%s takes the key of the slot for its state", who)
	}
}

func recCheck(c *Check, id string) {
	for _, x := range []struct {
		rel, typ string
		m        bool
	}{{"internal/bufmap", "Map", true}, {"internal/seqlock", "Seqlock", false}} {
		r := &recPkg{c: c, prop: id, rel: x.rel, typ: x.typ, mapLike: x.m}
		if !x.m && id == "C04" {
			continue
		}
		sizeReqs = nil
		r.analyse()
	}
}

var _ = fmt.Sprint
var _ ssa.Instruction

func init() {
	register(&checkDef{id: "C01", run: func(c *Check) { recCheck(c, "C01") },
		rule:  "on every path of every exported method of the record map and the single value lock: stored bytes are written only while the write sequence of the record is odd; stored bytes that reach the caller were read under the lock or between two atomic loads of the sequence known to be even and equal; no reference to stored bytes leaves the package",
		floor: map[string]int{"write in odd window": 3, "read validated": 2, "record returned": 2}})
	register(&checkDef{id: "C02", run: func(c *Check) { recCheck(c, "C02") },
		rule:  "on every path, panics of the update function included: the update function and all writes run under the lock of the record, the copy it works on is made under that lock, and on every exit the lock is released and the write sequence even",
		floor: map[string]int{"lock released on exit": 10, "update function under lock": 4, "write under lock": 3, "copy under lock": 4}})
	register(&checkDef{id: "C03", run: func(c *Check) { recCheck(c, "C03") },
		rule:  "the update function works on a private full copy of the record; where it is not known to have returned nil nothing is written and its error is returned; where it has, exactly that memory is stored, all of it",
		floor: map[string]int{"private copy": 4, "copy of the record": 4, "failed update writes nothing": 2, "result stored": 2, "error returned": 2}})
	register(&checkDef{id: "C04", run: func(c *Check) { recCheck(c, "C04") },
		rule:  "the init argument is a function of one word of the slot, read under the lock, true for a fresh slot and false for the value stored on success; only successful updates store it, not before the bytes; reads report found exactly if it says initialised",
		floor: map[string]int{"init of the slot": 3, "success marks initialised": 1, "found implies initialised": 1, "not found implies uninitialised": 1}})
	register(&checkDef{id: "C05", run: func(c *Check) { recCheck(c, "C05") },
		rule:  "every copy from or to the storage covers exactly [x*s, x*s+s) for the slot x (a remainder modulo l) whose key matched; New makes l slots and l*s bytes",
		floor: map[string]int{"whole record": 6, "storage": 1, "slots": 1}})
}
