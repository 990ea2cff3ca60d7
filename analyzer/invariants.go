package main

// Invariants of loops: conditions on what changes in a loop that hold whenever its header is
// reached. They are guessed from the lengths and limits that the loop compares with, and those
// are kept that hold on entry and are preserved by every iteration that starts with all of them.

import (
	"go/types"
	"sort"
	"strconv"
)

type candidate struct {
	c    *Term // condition over the leaves of the loop
	val  bool
	m    *Term // a map: all its values are from 0 to below n
	n    *Term
	dead bool
}

// propose lists candidates for all loops.
func (it *Interp) propose() {
	it.inv = map[string][]*candidate{}
	var bounds []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t != nil && t.W == 64 && !t.isInt() && !seen[t] {
			seen[t] = true
			bounds = append(bounds, t)
		}
	}
	lens := func(t *Term) {
		subterms(t, func(s *Term) bool {
			if s.Op == "len" {
				add(s)
			}
			return true
		})
	}
	done := map[*Event]bool{}
	for _, p := range it.Paths {
		for _, e := range flatten(p.Events) {
			if done[e] {
				continue
			}
			done[e] = true
			switch e.Kind {
			case EvIndex:
				add(e.Args[1])
				lens(e.Args[1])
			case EvBranch:
				c := e.Cond
				for c.Op == "not" {
					c = c.Args[0]
				}
				if c.Op == "slt" || c.Op == "eq0" {
					for _, a := range c.Args {
						lens(a)
					}
					if c.Op == "slt" {
						add(c.Args[1])
					}
				}
			}
		}
	}
	if len(bounds) > 24 {
		bounds = bounds[:24]
	}
	for key, info := range it.Loops {
		var ls []*Term
		for l := range info.Init {
			ls = append(ls, l)
		}
		sort.Slice(ls, func(i, j int) bool { return ls[i].ID < ls[j].ID })
		own := append([]*Term{}, bounds...)
		for _, l := range ls {
			if l.Typ != nil {
				if _, ok := l.Typ.Underlying().(*types.Slice); ok {
					if n := mkLen(l); !seen[n] {
						own = append(own, n)
					}
				}
			}
		}
		for _, l := range ls {
			if l.Typ != nil && isBool(l.Typ) {
				// a flag that is only set where the loop is left
				it.cand(key, l, false)
				it.cand(key, l, true)
			}
		}
		for _, l := range ls {
			if l.W != 64 || l.Typ == nil || isUnsigned(l.Typ) {
				continue
			}
			it.cand(key, bslt(l, mkInt(64, 0)), false)
			it.cand(key, bslt(l, mkInt(64, ^uint64(0))), false)
			for _, b := range own {
				if b != l {
					it.cand(key, bslt(l, b), true)
					it.cand(key, bslt(b, l), false)
				}
			}
			for _, u := range ls {
				if u != l && u.W == 64 && u.Typ != nil && !isUnsigned(u.Typ) {
					it.cand(key, bslt(u, l), false)
					it.cand(key, bslt(iadd(u, mkInt(64, 1)), l), false)
				}
			}
		}
		for _, l := range ls {
			if l.Typ == nil {
				continue
			}
			if _, ok := l.Typ.Underlying().(*types.Slice); !ok {
				continue
			}
			for what := range it.widen[key] {
				if len(what) <= 4 || what[:4] != "map:" {
					continue
				}
				id, _ := strconv.Atoi(what[4:])
				if m := it.P.cellByID[id]; m != nil && m.Typ != nil {
					if mt, ok := m.Typ.Underlying().(*types.Map); ok && widthOf(mt.Elem()) == 64 && !isUnsigned(mt.Elem()) {
						it.inv[key] = append(it.inv[key], &candidate{m: m, n: mkLen(l)})
					}
				}
			}
		}
	}
}

func (it *Interp) cand(key string, c *Term, val bool) {
	if c.Op != "true" && c.Op != "false" {
		it.inv[key] = append(it.inv[key], &candidate{c: c, val: val})
	}
}

// atHeader keeps the candidates that hold on entry and assumes them.
func (it *Interp) atHeader(st *State, key string, entry map[*Term]*Term, maps map[*Term][]mapCell, eps map[*Term]string) {
	f := st.facts
	for _, x := range it.inv[key] {
		if x.dead {
			continue
		}
		if x.m != nil {
			if ep := eps[x.m]; ep != "" || !inRange(f, maps[x.m], subst(x.n, entry)) {
				x.dead = true
				it.dirty = true
			}
			continue
		}
		if v, known := f.decide(subst(x.c, entry)); !known || v != x.val {
			x.dead = true
			it.dirty = true
			continue
		}
		if g, ok := st.facts.assume(x.c, x.val); ok {
			st.facts = g
		}
	}
}

// atBack keeps the candidates that an iteration preserves.
func (it *Interp) atBack(st *State, key string, next map[*Term]*Term) {
	for _, x := range it.inv[key] {
		if x.dead {
			continue
		}
		if x.m != nil {
			n := subst(x.n, next)
			if st.mem.mapEp[x.m] != "loop:"+key || !isFalse(st.facts, bslt(n, x.n)) || !inRange(st.facts, st.mem.maps[x.m], n) {
				x.dead = true
				it.dirty = true
			}
			continue
		}
		if v, known := st.facts.decide(subst(x.c, next)); !known || v != x.val {
			x.dead = true
			it.dirty = true
		}
	}
}

func inRange(f *fact, l []mapCell, n *Term) bool {
	for _, x := range l {
		if !f.nonNegIn(x.v) || !isTrue(f, bslt(x.v, n)) {
			return false
		}
	}
	return true
}

// limits are the numbers of which all values of a map, as it is now, are known to be below.
func (it *Interp) limits(st *State, m *Term) []*Term {
	ep := st.mem.mapEp[m]
	if len(ep) < 5 || ep[:5] != "loop:" {
		return nil
	}
	var l []*Term
	for _, x := range it.inv[ep[5:]] {
		if !x.dead && x.m == m {
			l = append(l, x.n)
		}
	}
	return l
}
