package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// backsOf are the iterations of the loop entered by event e.
func backsOf(e *Event) []*Path {
	var l []*Path
	for _, b := range e.Loop.Backs {
		for _, x := range b.Events {
			if x == e {
				l = append(l, b)
				break
			}
		}
	}
	return l
}

// flatten lists the events of a path with those of the completed iterations of its loops
// spliced in where the loop is entered.
func flatten(evs []*Event) []*Event {
	var out []*Event
	for _, e := range evs {
		out = append(out, e)
		if e.Kind == EvLoop {
			for _, b := range backsOf(e) {
				for j, x := range b.Events {
					if x == e {
						out = append(out, flatten(b.Events[j+1:])...)
						break
					}
				}
			}
		}
	}
	return out
}

func (p *Path) flat() []*Event { return flatten(p.Events) }

// flatOwn also tells which of them the path passes itself, after the iterations of its loops
// that came back.
func (p *Path) flatOwn() ([]*Event, []bool) {
	var out []*Event
	var own []bool
	for _, e := range p.Events {
		n := flatten([]*Event{e})
		for i, x := range n {
			out = append(out, x)
			own = append(own, i == 0)
		}
	}
	return out, own
}

// xfer is a copy of n bytes (elements) from src+so to dst+do.
type xfer struct {
	dst, do, src, so, n *Term
	ev                  *Event
	at                  int // index in the events of the path
}

// addrBase splits the address of an element or variable in base and offset.
func addrBase(a *Term) (*Term, *Term) {
	if a.Op == "ia" {
		return a.Args[0], a.Args[1]
	}
	return a, mkInt(64, 0)
}

// transfers finds the copies made on a path: copy(), loops that copy element by element, and
// assignments of whole arrays.
func transfers(evs []*Event) []xfer {
	var l []xfer
	for i, e := range evs {
		switch e.Kind {
		case EvCopy:
			db, do, _ := sliceParts(e.Args[0])
			sb, so, _ := sliceParts(e.Args[1])
			l = append(l, xfer{db, do, sb, so, e.Args[2], e, i})
		case EvStore:
			if e.Val != nil && (e.Val.Op == "load" || e.Val.Op == "arrval") && e.Val.Typ != nil {
				if at, ok := e.Val.Typ.Underlying().(*types.Array); ok {
					l = append(l, xfer{e.Addr, mkInt(64, 0), e.Val.Args[0], mkInt(64, 0), mkInt(64, uint64(at.Len())), e, i})
				}
			} else if e.Val != nil && e.Val.Typ != nil {
				if at, ok := e.Val.Typ.Underlying().(*types.Array); ok {
					l = append(l, xfer{e.Addr, mkInt(64, 0), e.Val, mkInt(64, 0), mkInt(64, uint64(at.Len())), e, i})
				}
			}
		case EvLoop:
			if x, ok := copyLoop(e, evs[i+1:]); ok {
				x.at = i
				l = append(l, x)
			}
		}
	}
	return l
}

// copyLoop recognises a loop that copies elements one by one.
func copyLoop(e *Event, after []*Event) (xfer, bool) {
	none := xfer{}
	backs := backsOf(e)
	if len(backs) != 1 {
		return none, false
	}
	b := backs[0]
	var st *Event
	k := 0
	for i, x := range b.Events {
		if x == e {
			k = i + 1
		}
	}
	for _, x := range b.Events[k:] {
		switch x.Kind {
		case EvStore:
			if st != nil {
				return none, false
			}
			st = x
		case EvLoad, EvBranch, EvIndex, EvDiv:
		default:
			return none, false
		}
	}
	if st == nil || st.Addr.Op != "ia" || st.Val.Op != "load" || st.Val.Args[0].Op != "ia" {
		return none, false
	}
	db, di := st.Addr.Args[0], st.Addr.Args[1]
	sb, si := st.Val.Args[0].Args[0], st.Val.Args[0].Args[1]
	// the one variable that the index depends on
	var v *Term
	varies := func(t *Term) *Term {
		var r *Term
		for l, nx := range b.Next {
			if nx != l && contains(t, l) {
				if r != nil {
					return nil
				}
				r = l
			}
		}
		return r
	}
	v = varies(di)
	if v == nil || v != varies(si) || v.W == 0 || b.Next[v] != iadd(v, mkInt(v.W, 1)) {
		return none, false
	}
	init := e.Init[v]
	if init == nil {
		return none, false
	}
	// element index: v + c on both sides
	d0 := subst(di, map[*Term]*Term{v: init})
	s0 := subst(si, map[*Term]*Term{v: init})
	if isub(di, v) != isub(d0, init) || isub(si, v) != isub(s0, init) {
		return none, false
	}
	// the loop ends when v + c reaches the least of some bounds
	var ns []*Term
	conds := map[*Term]bool{}
	for _, x := range b.Events[k:] {
		if x.Kind != EvBranch {
			continue
		}
		if !x.Taken || x.Cond.Op != "slt" {
			return none, false
		}
		c := isub(x.Cond.Args[0], v)
		if !c.isInt() {
			return none, false
		}
		for l, nx := range b.Next {
			if nx != l && contains(x.Cond.Args[1], l) {
				return none, false
			}
		}
		ns = append(ns, isub(x.Cond.Args[1], iadd(init, c)))
		conds[x.Cond] = true
	}
	if len(ns) == 0 {
		return none, false
	}
	// and in no other way
	for i, x := range after {
		if x.Kind == EvLoopEnd && x.Loop == e.Loop {
			if i == 0 || after[i-1].Kind != EvBranch || after[i-1].Taken || !conds[after[i-1].Cond] {
				return none, false
			}
			n := ns[0]
			for _, m := range ns[1:] {
				n = minTerm(n, m)
			}
			return xfer{dst: db, do: d0, src: sb, so: s0, n: n, ev: st}, true
		}
	}
	return none, false
}

func minTerm(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("min", "", 64, a, b)
}

// exported are the functions and methods of a package that can be called from outside.
func (p *Prog) exported(rel string) []*ssa.Function {
	sp := p.Pkg(rel)
	if sp == nil {
		return nil
	}
	var l []*ssa.Function
	for _, fn := range p.Funcs {
		if fn.Parent() != nil || fnPkg(fn) != sp.Pkg || fn.Synthetic != "" {
			continue
		}
		if fn.Object() != nil && fn.Object().Exported() {
			l = append(l, fn)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	return l
}

// funcsOf are all the functions of a package, closures included.
func (p *Prog) funcsOf(rel string) []*ssa.Function {
	sp := p.Pkg(rel)
	if sp == nil {
		return nil
	}
	var l []*ssa.Function
	for _, fn := range p.Funcs {
		if fnPkg(fn) == sp.Pkg && fn.Synthetic == "" {
			l = append(l, fn)
		}
	}
	return l
}

func relName(p *Prog, fn *ssa.Function) string {
	return strings.ReplaceAll(strings.ReplaceAll(fn.String(), p.Mod+"/", ""), p.Mod, "main")
}

// known: truth of c at the facts f, as a pair of tests.
func isTrue(f *fact, c *Term) bool {
	v, k := f.decide(c)
	return k && v
}
func isFalse(f *fact, c *Term) bool {
	v, k := f.decide(c)
	return k && !v
}

// baseRoot follows an address or slice base through the pointers it was loaded from.
func baseRoot(t *Term) *Term {
	for {
		r := rootOf(t)
		switch r.Op {
		case "load":
			t = r.Args[0]
			continue
		case "field", "elem", "as", "append", "appendslice", "mapval":
			t = r.Args[0]
			continue
		}
		return r
	}
}

// rotate brings loops of the form  for x := f(); x; x = f()  in the form  for { x := f(); if !x
// { break } ... }, as far as the events of the paths go, where f is named.
func rotate(it *Interp, name string) {
	paths := map[*Path]bool{}
	var loops []*Event
	seen := map[*Event]bool{}
	add := func(p *Path) {
		paths[p] = true
		for _, e := range p.Events {
			if e.Kind == EvLoop && !seen[e] {
				seen[e] = true
				loops = append(loops, e)
			}
		}
	}
	for _, p := range it.Paths {
		add(p)
	}
	for i := 0; i < len(loops); i++ {
		for _, b := range loops[i].Loop.Backs {
			add(b)
		}
	}
	// the last call before position k, if nothing else has happened since
	lastCall := func(evs []*Event, k int) int {
		for k--; k >= 0; k-- {
			switch evs[k].Kind {
			case EvCall:
				if evs[k].Name == name && len(evs[k].Res) == 1 {
					return k
				}
				return -1
			case EvBranch, EvLoopEnd:
				return -1
			case EvStore:
				if !it.local(evs[k].Addr) {
					return -1
				}
			case EvEnter, EvReturn:
			default:
				return -1
			}
		}
		return -1
	}
	for _, e := range loops {
		bs := backsOf(e)
		for v := range e.Init {
			if v.Typ == nil || !isBool(v.Typ) || len(bs) == 0 {
				continue
			}
			cut := map[*Path]int{}
			good := true
			var call *Event
			for p := range paths {
				i := indexOf(p.Events, e)
				if i < 0 {
					continue
				}
				k := lastCall(p.Events, i)
				if k < 0 || p.Events[k].Res[0] != e.Init[v] {
					good = false
					break
				}
				call = p.Events[k]
				cut[p] = k
			}
			ends := map[*Path]int{}
			for _, b := range bs {
				k := lastCall(b.Events, len(b.Events))
				if !good || k < 0 || b.Events[k].Res[0] != b.Next[v] || !sameTerms(b.Events[k].Args, call.Args) {
					good = false
					break
				}
				ends[b] = k
			}
			if !good {
				continue
			}
			n := *call
			n.Res = []*Term{v}
			n.Mem, n.snap = nil, nil
			for p, k := range cut {
				var l []*Event
				for i, x := range p.Events {
					if i == k {
						continue
					}
					if at, ok := ends[p]; ok && i == at {
						continue
					}
					l = append(l, x)
					if x == e {
						l = append(l, &n)
					}
				}
				p.Events = l
			}
			break
		}
	}
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
