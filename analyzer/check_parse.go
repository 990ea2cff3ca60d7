package main

import (
	"go/token"
	"go/types"
	"regexp/syntax"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// The text formats: observations (C31, C42) and queries (C34).

const queryPkg = "internal/query"

// ---- observations

// rowParsers are the functions that make a row from a line.
func (c *Check) rowParsers() []*ssa.Function {
	sig := func(fn *ssa.Function) bool {
		s := fn.Signature
		if s.Recv() != nil || s.Params().Len() != 1 || s.Results().Len() != 2 {
			return false
		}
		p := s.Params().At(0).Type()
		return (isByteSlice(p) || isString(p)) && strings.HasSuffix(s.Results().At(0).Type().String(), "internal/collation.Row")
	}
	var l []*ssa.Function
	called := map[*ssa.Function]bool{}
	for _, fn := range c.P.funcsOf(srvPkg) {
		if !sig(fn) {
			continue
		}
		l = append(l, fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(ssa.CallInstruction); ok {
					if f := x.Common().StaticCallee(); f != nil && sig(f) && f != fn {
						called[f] = true
					}
				}
			}
		}
	}
	var r []*ssa.Function
	for _, fn := range l {
		if !called[fn] {
			r = append(r, fn)
		}
	}
	if len(r) == 0 {
		c.fail("anchor:parser", token.NoPos, "the function that parses observations is not found")
	}
	return r
}

// parsed: t is the number that strconv makes of some text.
func parsed(t *Term) (text *Term, ok bool) {
	if t.Op == "call" && (t.Aux == "strconv.ParseInt#0" || t.Aux == "strconv.ParseUint#0") && len(t.Args) == 3 {
		return stripConv(t.Args[0]), true
	}
	return nil, false
}

func timestamps(c *Check) {
	for _, fn := range c.rowParsers() {
		who := relName(c.P, fn)
		it := c.run(fn, &Config{})
		data := it.Params[0]
		good := 0
		for _, p := range it.Paths {
			if p.Out == OutBack {
				continue
			}
			if !c.must(p.Out == OutReturn && len(p.Ret) == 2, "exact instant", who, p.Pos, "it may end in a %s", p.Out) {
				continue
			}
			if errNonNil(p.Facts, p.Ret[1]) {
				c.rejected(who, p)
				continue
			}
			d := fieldNamed(p.Ret[0], p.Ret[0].Typ, "DataTime")
			if d == nil {
				c.fail("anchor:Row", p.Pos, "an observation has no time")
				continue
			}
			d = sameInstant(p, d)
			ts, why := instant(d)
			if !c.must(ts != nil, "exact instant", who, p.Pos, "the time of an observation is not its timestamp, to the microsecond: %s (%s)", why, d) {
				continue
			}
			text, _ := parsed(ts)
			base, bits := ts.Args[1], ts.Args[2]
			c.must(base.isConstInt(10), "any other is rejected", who, p.Pos, "the timestamp is not read as a decimal number")
			want := int64(64)
			if ts.Aux == "strconv.ParseUint#0" {
				want = 63
			}
			c.must(bits.isConstInt(want), "64 bits", who, p.Pos, "the timestamp is not read as a signed number of 64 bits but of %s", bits)
			c.must(errNil(p.Facts, pureCall(strings.TrimSuffix(ts.Aux, "#0")+"#1", errorType, ts.Args...)), "any other is rejected", who, p.Pos, "a timestamp that cannot be read is accepted")
			b, o, n := sliceParts(text)
			db, do, _ := sliceParts(data)
			c.must(b == db && o == do, "leading timestamp", who, p.Pos, "the timestamp is not read from the beginning of the observation")
			all, most := digits(p, data, n)
			c.must(most, "leading timestamp", who, p.Pos, "the timestamp may be cut short")
			c.must(all || isFalse(p.Facts, bslt(ts, mkInt(64, 0))), "any other is rejected", who, p.Pos, "the timestamp may not consist of digits alone")
			good++
		}
		c.must(good > 0, "exact instant", who, fn.Pos(), "no observation is accepted")
		c.narrowed(fn)
	}
}

// rejected: an observation is turned down for what its timestamp is only if it cannot be read.
func (c *Check) rejected(who string, p *Path) {
	failed := false
	for _, e := range p.Events {
		if e.Kind == EvCall && strings.HasPrefix(e.Name, "strconv.Parse") && len(e.Res) == 2 && !errNil(p.Facts, e.Res[1]) {
			failed = true
		}
	}
	if failed {
		return
	}
	for _, e := range p.Events {
		if e.Kind != EvBranch {
			continue
		}
		hit := false
		subterms(e.Cond, func(t *Term) bool {
			if _, ok := parsed(t); ok {
				hit = true
			}
			return !hit
		})
		c.must(!hit, "none is rejected", who, p.Pos, "a timestamp that was read may be rejected: %s", e.Cond)
	}
}

// sameInstant leaves out what changes only the zone.
func sameInstant(p *Path, d *Term) *Term {
	for {
		x := callOf(p, d)
		if x == nil {
			return d
		}
		switch x.Name {
		case "time.Time.UTC", "time.Time.Local", "time.Time.In":
			d = x.Args[0]
		default:
			return d
		}
	}
}

// callOf is the call that has this result.
func callOf(p *Path, t *Term) *Event {
	for _, x := range p.Events {
		if x.Kind == EvCall && len(x.Res) == 1 && x.Res[0] == t {
			return x
		}
	}
	return nil
}

// instant: the number of microseconds that the time is after the epoch.
func instant(d *Term) (ts *Term, why string) {
	if d.Op != "call" {
		return nil, "it is not made from the epoch"
	}
	switch d.Aux {
	case "time.UnixMicro":
		if _, ok := parsed(d.Args[0]); ok {
			return d.Args[0], ""
		}
		return nil, "it is not the number read"
	case "time.Unix":
		s, ns := d.Args[0], d.Args[1]
		subterms(s, func(t *Term) bool {
			if _, ok := parsed(t); ok {
				ts = t
			}
			return ts == nil
		})
		if ts == nil {
			return nil, "it does not depend on the number read"
		}
		m := mkInt(64, 1000000)
		if s != isdiv(ts, m) && s != iudiv(ts, m) {
			return nil, "the seconds are others"
		}
		rem := isrem(ts, m)
		if s != isdiv(ts, m) {
			rem = iurem(ts, m)
		}
		k := mkInt(64, 1000)
		if ns != imul(rem, k) && ns != imul(isub(ts, imul(s, m)), k) {
			return nil, "the part of a second is another"
		}
		return ts, ""
	}
	return nil, "it is not made from the epoch"
}

// digits: the first n bytes of the data are known to be digits, and no more of them: n was counted up
// over them.
func digits(p *Path, data, n *Term) (all, most bool) {
	db, do, dn := sliceParts(data)
	most = isTrue(p.Facts, beq(n, dn)) || n == dn || isFalse(p.Facts, bslt(n, dn)) || notDigit(p.Facts, byteAt(db, iadd(do, n)))
	for _, e := range p.Events {
		if e.Kind != EvLoop {
			continue
		}
		for v, init := range e.Init {
			if v.W != 64 || !init.isInt() {
				continue
			}
			// at the place m, which begins at 0 and goes up by one over digits
			m := isub(v, init)
			b := byteAt(db, iadd(do, m))
			good := len(backsOf(e)) > 0
			for _, x := range backsOf(e) {
				good = good && x.Next[v] == iadd(v, mkInt(64, 1)) && isDigit(x.Facts, b)
			}
			if !good {
				continue
			}
			if m == n || isTrue(p.Facts, beq(m, n)) {
				return true, most
			}
			if n == dn && (isFalse(p.Facts, bslt(m, dn)) || isTrue(p.Facts, beq(m, dn))) {
				return true, true
			}
		}
	}
	return false, most
}

func notDigit(f *fact, b *Term) bool {
	return isTrue(f, bult(b, mkInt(8, '0'))) || isTrue(f, bult(mkInt(8, '9'), b)) || isTrue(f, bult(mkInt(8, 9), isub(b, mkInt(8, '0'))))
}

// byteAt is a byte of memory that does not change.
func byteAt(base, i *Term) *Term {
	return mkLoad(mkIA(base, i, types.Typ[types.Uint8]), "", types.Typ[types.Uint8])
}

func isDigit(f *fact, b *Term) bool {
	if isFalse(f, bult(b, mkInt(8, '0'))) && isFalse(f, bult(mkInt(8, '9'), b)) {
		return true
	}
	return isFalse(f, bult(mkInt(8, 9), isub(b, mkInt(8, '0'))))
}

// narrowed: the number read never passes through a type whose size depends on the platform.
func (c *Check) narrowed(fn *ssa.Function) {
	seen := map[ssa.Value]bool{}
	n := 0
	var follow func(v ssa.Value)
	follow = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, in := range *v.Referrers() {
			switch x := in.(type) {
			case *ssa.Convert:
				if b := basicOf(x.Type()); b != nil {
					k := b.Kind()
					n++
					c.must(k != types.Int && k != types.Uint && k != types.Uintptr && k != types.Int32 && k != types.Uint32, "64 bits", relName(c.P, x.Parent()), x.Pos(), "the timestamp passes through a value of type %s, which is not always as large", x.Type())
				}
				follow(x)
			case *ssa.Extract:
				if x.Index == 0 {
					follow(x)
				}
			case *ssa.BinOp:
				if basicOf(x.Type()) != nil && basicOf(x.Type()).Info()&types.IsInteger != 0 {
					follow(x)
				}
			case *ssa.Phi:
				follow(x)
			case *ssa.ChangeType:
				follow(x)
			case *ssa.Return:
				// to the callers
				f := x.Parent()
				for _, cl := range c.P.callers(f) {
					if v := cl.Value(); v != nil {
						if len(x.Results) == 1 {
							follow(v)
							continue
						}
						for _, r := range *v.Referrers() {
							if ex, ok := r.(*ssa.Extract); ok && ex.Index < len(x.Results) && seen[x.Results[ex.Index]] {
								follow(ex)
							}
						}
					}
				}
			case ssa.CallInstruction:
				f := x.Common().StaticCallee()
				if f == nil || !c.P.inModule(f) {
					continue
				}
				for i, a := range x.Common().Args {
					if a == v && i < len(f.Params) {
						follow(f.Params[i])
					}
				}
			}
		}
	}
	k := 0
	for f := range c.P.reach(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				if f := x.Call.StaticCallee(); f != nil && (f.String() == "strconv.ParseInt" || f.String() == "strconv.ParseUint") {
					k++
					follow(x)
				}
			}
		}
	}
	c.must(k > 0, "64 bits", relName(c.P, fn), fn.Pos(), "no timestamp is read")
}

// ---- the fields of an observation

// segment: fv is what the text seg says: a name up to the first equals sign and a value after it.
func segment(f *fact, evs []*Event, fv, seg *Term) string {
	F, V := fieldNamed(fv, fv.Typ, "F"), fieldNamed(fv, fv.Typ, "V")
	if F == nil || V == nil {
		return "it is unclear"
	}
	sb, so, sn := sliceParts(seg)
	fb, fo, fn := sliceParts(stripConv(F))
	vb, vo, vn := sliceParts(stripConv(V))
	same := func(b1, o1, n1, b2, o2, n2 *Term) bool {
		return b1 == b2 && o1 == o2 && (n1 == n2 || isTrue(f, beq(n1, n2)))
	}
	for _, at := range indexesOf(f, evs, seg) {
		eq := at.ix
		switch {
		case at.none(f):
			if !same(fb, fo, fn, sb, so, sn) {
				return "without an equals sign, the name is not all of the text"
			}
			if !(isNilTerm(V) || vn.isConstInt(0) || isTrue(f, beq(vn, mkInt(64, 0)))) {
				return "without an equals sign, there is a value"
			}
			return ""
		case at.some(f):
			if !same(fb, fo, fn, sb, so, eq) {
				return "the name is not what comes before the first equals sign"
			}
			rest := iadd(eq, mkInt(64, 1))
			if !same(vb, vo, vn, sb, iadd(so, rest), isub(sn, rest)) {
				return "the value is not what comes after the first equals sign"
			}
			return ""
		}
	}
	// split in two: there are one or two parts
	var splits []*Term
	for y := f; y != nil; y = y.up {
		if y.cond == nil {
			continue
		}
		subterms(y.cond, func(t *Term) bool {
			if t.Op == "call" && (t.Aux == "bytes.SplitN" || t.Aux == "strings.SplitN") && len(t.Args) == 3 && sameText(t.Args[0], seg) && isEquals(evs, t.Args[1]) && t.Args[2].isConstInt(2) {
				splits = append(splits, t)
			}
			return true
		})
	}
	for _, parts := range splits {
		n := mkLen(parts)
		one, more := beq(n, mkInt(64, 1)), bslt(mkInt(64, 1), n)
		switch {
		case isFalse(f, one) || isTrue(f, more) || isFalse(f, bslt(n, mkInt(64, 2))) || isTrue(f, beq(n, mkInt(64, 2))):
			if !textIs(F, elemOf(parts, mkInt(64, 0))) {
				return "the name is not what comes before the first equals sign"
			}
			if !textIs(V, elemOf(parts, mkInt(64, 1))) {
				return "the value is not what comes after the first equals sign"
			}
			return ""
		case isTrue(f, one) || isFalse(f, more) || isFalse(f, beq(n, mkInt(64, 2))):
			if !same(fb, fo, fn, sb, so, sn) && !textIs(F, elemOf(parts, mkInt(64, 0))) {
				return "without an equals sign, the name is not all of the text"
			}
			if !(isNilTerm(V) || vn.isConstInt(0) || isTrue(f, beq(vn, mkInt(64, 0)))) {
				return "without an equals sign, there is a value"
			}
			return ""
		}
	}
	// bytes.Cut
	for _, cut := range []string{"bytes.Cut", "strings.Cut"} {
		if !hasOp(F, cut+"#0") {
			continue
		}
		if F.Op == "call" && F.Aux == cut+"#0" && F.Args[0] == seg && isEquals(evs, F.Args[1]) && V.Op == "call" && V.Aux == cut+"#1" && V.Args[0] == seg && V.Args[1] == F.Args[1] {
			return ""
		}
	}
	return "it is not split at the first equals sign"
}

func hasOp(t *Term, aux string) bool {
	found := false
	subterms(t, func(s *Term) bool {
		found = found || s.Op == "call" && s.Aux == aux
		return !found
	})
	return found
}

// isEquals: the text of one equals sign.
func isEquals(evs []*Event, t *Term) bool {
	if textOf(evs, t, mkInt(8, '=')) {
		return true
	}
	if s, ok := strVal(stripConv(t)); ok {
		return s == "="
	}
	return t.isConstInt('=')
}

// spot is where the first of the bytes looked for is, if there is any.
type spot struct {
	ix         *Term
	none, some func(f *fact) bool
}

// foundIn is the result of a function of the library: -1 if there is none.
func foundIn(ix *Term) spot {
	minus := beq(ix, mkInt(64, ^uint64(0)))
	return spot{ix,
		func(f *fact) bool { return isTrue(f, minus) || isTrue(f, bslt(ix, mkInt(64, 0))) },
		func(f *fact) bool { return isFalse(f, minus) || isFalse(f, bslt(ix, mkInt(64, 0))) },
	}
}

// indexesOf are the places that were looked for in the facts where the first equals sign of seg is.
func indexesOf(f *fact, evs []*Event, seg *Term) []spot {
	var l []spot
	seen := map[*Term]bool{}
	for y := f; y != nil; y = y.up {
		if y.cond == nil {
			continue
		}
		subterms(y.cond, func(t *Term) bool {
			if t.Op == "call" && !seen[t] && len(t.Args) == 2 {
				switch t.Aux {
				case "bytes.IndexByte", "bytes.Index", "strings.IndexByte", "strings.Index", "bytes.IndexRune", "strings.IndexRune":
					seen[t] = true
					if sameTextIn(f, t.Args[0], seg) && isEquals(evs, t.Args[1]) {
						l = append(l, foundIn(t))
					}
				}
			}
			return true
		})
	}
	sb, so, sn := sliceParts(stripConv(seg))
	for _, x := range scans(evs, mkInt(8, '=')) {
		if x.base == sb && x.off == so {
			l = append(l, x.until(sn))
		}
	}
	return l
}

// scan is a loop that goes over the bytes of a text, from the offset on, as long as they differ
// from one: m counts them.
type scan struct {
	base, off, m *Term
	here, d      *Term
	e            *Event
}

func (x *scan) until(n *Term) spot {
	eq := beq(x.here, x.d)
	return spot{x.m,
		func(f *fact) bool { return isFalse(f, bslt(x.m, n)) || isTrue(f, beq(x.m, n)) },
		func(f *fact) bool { return isTrue(f, eq) && !isFalse(f, bslt(x.m, n)) },
	}
}

// scans are the loops of a path that look for the byte d.
func scans(evs []*Event, d *Term) []*scan {
	var l []*scan
	for _, e := range evs {
		bs := backsOf(e1(e))
		if len(bs) == 0 {
			continue
		}
		for v, init := range e.Init {
			if v.W != 64 {
				continue
			}
			// the byte at a place that goes up by one
			var b, off *Term
			for y := bs[0].Facts; y != nil && b == nil; y = y.up {
				if y.cond == nil {
					continue
				}
				subterms(y.cond, func(t *Term) bool {
					if t.Op == "load" && t.W == 8 && t.Args[0].Op == "ia" && b == nil {
						if o := isub(t.Args[0].Args[1], v); !contains(o, v) && !contains(t.Args[0].Args[0], v) && isFalse(bs[0].Facts, beq(t, d)) {
							b, off = t, iadd(o, init)
						}
					}
					return b == nil
				})
			}
			if b == nil {
				continue
			}
			good := true
			for _, x := range bs {
				good = good && x.Next[v] == iadd(v, mkInt(64, 1)) && isFalse(x.Facts, beq(b, d))
			}
			if good {
				// of the first byte on
				l = append(l, &scan{b.Args[0].Args[0], off, isub(v, init), b, d, e})
			}
		}
	}
	return l
}

// e1 is the event if it enters a loop.
func e1(e *Event) *Event {
	if e.Kind == EvLoop {
		return e
	}
	return &Event{Loop: &LoopInfo{}}
}

func sameTextIn(f *fact, a, b *Term) bool {
	ab, ao, an := sliceParts(stripConv(a))
	bb, bo, bn := sliceParts(stripConv(b))
	return ab == bb && ao == bo && (an == bn || isTrue(f, beq(an, bn)))
}

func sameText(a, b *Term) bool {
	ab, ao, an := sliceParts(stripConv(a))
	bb, bo, bn := sliceParts(stripConv(b))
	return ab == bb && ao == bo && an == bn
}

// appended: next is list with one more element.
func appended(next, list *Term) *Term {
	if next != nil && next.Op == "append" && len(next.Args) == 2 && next.Args[0] == list {
		return next.Args[1]
	}
	return nil
}

func isEmpty(f *fact, t *Term) bool {
	return isNilTerm(t) || mkLen(t).isConstInt(0) || isTrue(f, beq(mkLen(t), mkInt(64, 0)))
}

func rows(c *Check) {
	for _, fn := range c.rowParsers() {
		who := relName(c.P, fn)
		it := c.run(fn, &Config{Invariants: true, Bounds: true})
		data := it.Params[0]
		db, do, dn := sliceParts(data)
		good := 0
		for _, p := range it.Paths {
			if p.Out != OutReturn || len(p.Ret) != 2 || errNonNil(p.Facts, p.Ret[1]) {
				continue
			}
			list := fieldNamed(p.Ret[0], p.Ret[0].Typ, "Data")
			d := fieldNamed(p.Ret[0], p.Ret[0].Typ, "DataTime")
			if list == nil || d == nil {
				c.fail("anchor:Row", p.Pos, "an observation has no fields")
				continue
			}
			d = sameInstant(p, d)
			ts, _ := instant(d)
			if ts == nil {
				subterms(d, func(t *Term) bool {
					if _, ok := parsed(t); ok {
						ts = t
					}
					return ts == nil
				})
			}
			if !c.must(ts != nil, "every field", who, p.Pos, "where the timestamp ends is unclear") {
				continue
			}
			text, _ := parsed(ts)
			_, _, tn := sliceParts(text)
			rest := isub(dn, tn)
			if isEmpty(p.Facts, list) {
				c.must(isTrue(p.Facts, beq(rest, mkInt(64, 0))) || isFalse(p.Facts, bslt(mkInt(64, 0), rest)) || isFalse(p.Facts, bslt(tn, dn)), "every field", who, p.Pos, "an observation is accepted without its fields")
				good++
				continue
			}
			body := mkSlice(db, iadd(iadd(do, tn), mkInt(64, 1)), isub(rest, mkInt(64, 1)), data.Typ)
			delim := byteAt(db, iadd(do, tn))
			why := c.rowLoop(p, list, body, delim)
			if why != "" && (c.splitLoop(p, list, body, delim) == "" || c.scanLoop(p, list, body, delim) == "") {
				why = ""
			}
			if c.must(why == "", "every field", who, p.Pos, "the fields of an observation are not what is written: %s", why) {
				good++
			}
		}
		c.must(good > 0, "every field", who, fn.Pos(), "no observation is accepted")
	}
}

// rowLoop: the list is gathered by looking for one delimiter after the other.
func (c *Check) rowLoop(p *Path, list, body, delim *Term) string {
	// the last one
	var l *Term
	lastFV := (*Term)(nil)
	if list.Op == "append" && len(list.Args) == 2 {
		l, lastFV = list.Args[0], list.Args[1]
	} else {
		l = list
	}
	e := enters(p.Events, l)
	if e == nil {
		return "they are not gathered one by one"
	}
	if !isEmpty(e.Facts, e.Init[l]) {
		return "there are some to begin with"
	}
	var rem, ix *Term // what remains and the place of the delimiter in it
	var at spot
	bb, bo, bn := sliceParts(body)
	find := func(q *Path) string {
		// looked for at the end of each iteration, for the next one
		for v, init := range e.Init {
			if !looksFor(q.Events, init, delim) {
				continue
			}
			for r, ri := range e.Init {
				good := ri == init.Args[0]
				for _, b := range backsOf(e) {
					good = good && looksFor(b.Events, b.Next[v], delim) && b.Next[v].Args[0] == b.Next[r]
				}
				if good {
					rem, ix, at = r, v, foundIn(v)
					return ""
				}
			}
		}
		for _, x := range after(q.Events, e) {
			if x.Kind != EvCall || len(x.Res) != 1 || len(x.Args) != 2 {
				continue
			}
			switch x.Name {
			case "bytes.IndexByte", "strings.IndexByte", "bytes.Index", "strings.Index":
			default:
				continue
			}
			if x.Args[1] != delim && !textOf(q.Events, x.Args[1], delim) {
				continue
			}
			rem, ix, at = x.Args[0], x.Res[0], foundIn(x.Res[0])
			return ""
		}
		for _, x := range scans(after(q.Events, e), delim) {
			if x.base == bb {
				rem, ix = mkSlice(bb, x.off, isub(iadd(bo, bn), x.off), body.Typ), x.m
				_, _, n := sliceParts(rem)
				at = x.until(n)
				return ""
			}
		}
		return "the delimiter is not looked for"
	}
	if w := find(p); w != "" {
		return w
	}
	r0, i0 := rem, ix
	if !at.none(p.Facts) {
		return "the search ends before the last delimiter"
	}
	if lastFV == nil {
		return "the last field is missing"
	}
	if w := segment(p.Facts, p.Events, lastFV, rem); w != "" {
		return "the last field: " + w
	}
	if !sameText(subst(rem, e.Init), body) {
		return "the search does not begin after the timestamp and its delimiter"
	}
	if w := tampered(flatten(rest(p.Events, e)), l, list); w != "" {
		return w
	}
	bs := backsOf(e)
	if len(bs) == 0 {
		return "there is only one"
	}
	for _, b := range bs {
		if w := find(b); w != "" || rem != r0 || ix != i0 {
			return "the delimiter is not looked for in every iteration"
		}
		if !at.some(b.Facts) {
			return "the search goes on after the last delimiter"
		}
		rb, ro, rn := sliceParts(rem)
		fv := appended(b.Next[l], l)
		if fv == nil {
			return "a field may be left out or added"
		}
		if w := tampered(flatten(after(b.Events, e)), l, b.Next[l]); w != "" {
			return w
		}
		if w := segment(b.Facts, b.Events, fv, mkSlice(rb, ro, ix, rem.Typ)); w != "" {
			return w
		}
		nb, no, nn := sliceParts(subst(rem, b.Next))
		k := iadd(ix, mkInt(64, 1))
		if nb != rb || no != iadd(ro, k) || nn != isub(rn, k) {
			return "the search does not go on after the delimiter"
		}
	}
	return ""
}

// scanLoop: one loop goes over all bytes of the text and adds a field at each delimiter.
func (c *Check) scanLoop(p *Path, list, body, delim *Term) string {
	bb, bo, bn := sliceParts(body)
	if list.Op != "append" || len(list.Args) != 2 {
		return "the last field is missing"
	}
	l, lastFV := list.Args[0], list.Args[1]
	e := enters(p.Events, l)
	if e == nil || !isEmpty(e.Facts, e.Init[l]) {
		return "they are not gathered one by one"
	}
	if w := tampered(flatten(rest(p.Events, e)), l, list); w != "" {
		return w
	}
	bs := backsOf(e)
	why := "there is no loop over the text"
	for v := range e.Init {
		if v.W != 64 {
			continue
		}
		// v goes over all places
		m := isub(v, e.Init[v])
		step := len(bs) > 0 && (isFalse(p.Facts, bslt(m, bn)) || isTrue(p.Facts, beq(m, bn)))
		for _, b := range bs {
			step = step && b.Next[v] == iadd(v, mkInt(64, 1))
		}
		if !step {
			continue
		}
		for u := range e.Init {
			// the field begins at u
			if u.W != 64 || u == v {
				continue
			}
			start := iadd(bo, isub(u, e.Init[u]))
			here := byteAt(bb, iadd(bo, m))
			w := segment(p.Facts, p.Events, lastFV, mkSlice(bb, start, isub(iadd(bo, bn), start), body.Typ))
			n := 0
			for _, b := range bs {
				if w != "" {
					break
				}
				same, add := b.Next[l] == l && b.Next[u] == u, appended(b.Next[l], l)
				w = tampered(flatten(after(b.Events, e)), l, b.Next[l])
				switch {
				case w != "":
				case isFalse(b.Facts, beq(here, delim)):
					if !same {
						w = "a field may end where there is no delimiter"
					}
				case isTrue(b.Facts, beq(here, delim)):
					n++
					if add == nil {
						w = "a field may be left out"
					} else if subst(start, b.Next) != iadd(iadd(bo, m), mkInt(64, 1)) {
						w = "the next field does not begin after the delimiter"
					} else {
						w = segment(b.Facts, b.Events, add, mkSlice(bb, start, isub(iadd(bo, m), start), body.Typ))
					}
				default:
					w = "the delimiter is not looked for"
				}
			}
			if w == "" && n > 0 {
				return ""
			}
			if w != "" {
				why = w
			}
		}
	}
	return why
}

// rest are the events after the loop, the last incomplete iteration included.
func rest(evs []*Event, e *Event) []*Event { return after(evs, e) }

func looksFor(evs []*Event, t, delim *Term) bool {
	if t == nil || t.Op != "call" || len(t.Args) != 2 {
		return false
	}
	switch t.Aux {
	case "bytes.IndexByte", "strings.IndexByte", "bytes.Index", "strings.Index":
		return t.Args[1] == delim || textOf(evs, t.Args[1], delim)
	}
	return false
}

// textOf: the text has the one byte b.
func textOf(evs []*Event, t, b *Term) bool {
	base, off, n := sliceParts(stripConv(t))
	if !n.isConstInt(1) {
		return false
	}
	a := mkIA(base, off, nil)
	for i := len(evs) - 1; i >= 0; i-- {
		if evs[i].Kind == EvStore && sameAddr(evs[i].Addr, a) {
			return evs[i].Val == b
		}
	}
	return byteAt(base, off) == b
}

func sameAddr(a, b *Term) bool {
	return a == b || a.Op == "ia" && b.Op == "ia" && a.Args[0] == b.Args[0] && a.Args[1] == b.Args[1]
}

// tampered: something that was gathered in one of the lists is changed or handed to somebody else.
func tampered(evs []*Event, lists ...*Term) string {
	in := func(t *Term) bool {
		for {
			for _, l := range lists {
				if t == l {
					return true
				}
			}
			switch t.Op {
			case "fa", "ia", "slice", "load", "box", "iface", "mkiface", "append":
				if len(t.Args) == 0 {
					return false
				}
				t = t.Args[0]
			default:
				return false
			}
		}
	}
	for _, x := range evs {
		switch x.Kind {
		case EvStore:
			if in(x.Addr) {
				return "what was gathered is changed"
			}
		case EvCall:
			for _, p := range []string{"fmt.", "log.", "bytes.", "strings.", "strconv.", "utf8.", "unicode"} {
				if strings.HasPrefix(x.Name, p) {
					goto next
				}
			}
			for _, a := range x.Args {
				if in(a) {
					return "what was gathered is handed to " + x.Name
				}
			}
		}
	next:
	}
	return ""
}

// splitLoop: the text is split by the library.
func (c *Check) splitLoop(p *Path, list, body, delim *Term) string {
	e := enters(p.Events, list)
	if e == nil || !isEmpty(e.Facts, e.Init[list]) {
		// filled in place
		return c.splitFill(p, list, body, delim)
	}
	at := indexOf(p.Events, e)
	var parts *Term
	idx, _, why := rangeLoop(e, p.Events[at:], func(t *Term) bool {
		if splits(p.Events, t, body, delim) {
			parts = t
			return true
		}
		return false
	})
	if why != "" {
		return why
	}
	if w := tampered(flatten(rest(p.Events, e)), list); w != "" {
		return w
	}
	seg := timeless(elemOf(parts, idx))
	for _, b := range backsOf(e) {
		if w := tampered(flatten(after(b.Events, e)), list, b.Next[list]); w != "" {
			return w
		}
		fv := appended(b.Next[list], list)
		if fv == nil {
			return "a field may be left out or added"
		}
		if w := segment(b.Facts, b.Events, fv, seg); w != "" {
			return w
		}
	}
	return ""
}

func (c *Check) splitFill(p *Path, list, body, delim *Term) string {
	e, parts, idx := fills(p, list, func(t *Term) bool { return splits(p.Events, t, body, delim) })
	if e == nil {
		return "they are not gathered one by one"
	}
	seg := timeless(elemOf(parts, idx))
	for _, b := range backsOf(e) {
		fv, why := filled(b, e, list, idx)
		if why != "" {
			return why
		}
		if w := segment(b.Facts, b.Events, fv, seg); w != "" {
			return w
		}
	}
	return ""
}

// fills finds the loop over a sequence that fills a list of the same length.
func fills(p *Path, list *Term, seq func(*Term) bool) (e *Event, parts, idx *Term) {
	lb, lo, ln := sliceParts(list)
	if o := p.St.mem.objs[lb]; o == nil || !o.zero || !lo.isConstInt(0) {
		return nil, nil, nil
	}
	var at *Event
	for i, x := range p.Events {
		if x.Kind != EvLoop {
			continue
		}
		var of *Term
		k, _, why := rangeLoop(x, p.Events[i:], func(t *Term) bool {
			if seq(t) {
				of = t
			}
			return of == t
		})
		if why == "" && ln == mkLen(of) && at == nil {
			at, parts, idx = x, of, k
		}
	}
	if at == nil {
		return nil, nil, nil
	}
	// nothing else is stored in it
	for _, x := range flatten(p.Events) {
		if x.Kind == EvStore && rootOf(x.Addr) == rootOf(lb) {
			in := false
			for _, b := range backsOf(at) {
				in = in || indexOf(after(b.Events, at), x) >= 0
			}
			if !in {
				return nil, nil, nil
			}
		}
		if x.Kind == EvCopy && rootOf(first3(sliceParts(x.Args[0]))) == rootOf(lb) {
			return nil, nil, nil
		}
	}
	return at, parts, idx
}

// filled is the element at idx that an iteration stores in a list.
func filled(b *Path, e *Event, list, idx *Term) (*Term, string) {
	lb, lo, _ := sliceParts(list)
	et := list.Typ.Underlying().(*types.Slice).Elem()
	a := mkIA(lb, iadd(lo, idx), et)
	st := structOf(et)
	var v *Term
	for _, x := range after(b.Events, e) {
		if x.Kind != EvStore || rootOf(x.Addr) != rootOf(lb) {
			continue
		}
		if x.Addr == a {
			v = x.Val
			continue
		}
		if st == nil || x.Addr.Op != "fa" || x.Addr.Args[0] != a {
			return nil, "one is stored in another place"
		}
		fs := make([]*Term, st.NumFields())
		for i := range fs {
			t := st.Field(i).Type()
			switch {
			case mkFA(a, i, et) == x.Addr:
				fs[i] = x.Val
			case v != nil:
				fs[i] = mkField(v, i, t)
			default:
				fs[i] = zeroTerm(t)
			}
		}
		v = mkAgg(et, fs)
	}
	if v == nil {
		return nil, "one may be left out"
	}
	return v, ""
}

func splits(evs []*Event, t, body, delim *Term) bool {
	return t.Op == "call" && (t.Aux == "bytes.Split" || t.Aux == "strings.Split") && len(t.Args) == 2 && sameText(t.Args[0], body) && textOf(evs, t.Args[1], delim)
}

// ---- queries

// regex is the expression that a term stands for.
func (c *Check) regex(it *Interp, t *Term) (string, bool) {
	if t.Op == "call" && t.Aux == "regexp.MustCompile" && len(t.Args) == 1 {
		return strVal(t.Args[0])
	}
	if t.Def != nil && t.Def.Kind == "res" && t.Def.Callee == "regexp.MustCompile" && len(t.Def.Args) == 2 {
		return strVal(t.Def.Args[1])
	}
	if t.Op != "gval" || t.G == nil {
		return "", false
	}
	call, ok := c.P.ginit[t.G].(*ssa.Call)
	if !ok {
		return "", false
	}
	f := call.Call.StaticCallee()
	if f == nil || f.String() != "regexp.MustCompile" || len(call.Call.Args) != 1 {
		return "", false
	}
	k, ok := call.Call.Args[0].(*ssa.Const)
	if !ok {
		return "", false
	}
	return strVal(constTerm(k))
}

// piece of an expression.
type piece struct {
	what string // "begin", "end", "cap", "lit", "space", "other"
	text string
	min  int
	fold bool
	re   *syntax.Regexp
}

// pieces of a regular expression, in order, without what may match white space.
func pieces(s string) ([]piece, error) {
	re, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return nil, err
	}
	var l []piece
	var rec func(r *syntax.Regexp)
	rec = func(r *syntax.Regexp) {
		switch {
		case r.Op == syntax.OpConcat:
			for _, x := range r.Sub {
				rec(x)
			}
		case r.Op == syntax.OpCapture:
			l = append(l, piece{what: "cap", re: r.Sub[0]})
		case r.Op == syntax.OpBeginText:
			l = append(l, piece{what: "begin"})
		case r.Op == syntax.OpEndText:
			l = append(l, piece{what: "end"})
		case r.Op == syntax.OpLiteral:
			t := string(r.Rune)
			fold := r.Flags&syntax.FoldCase != 0
			if n := len(l); n > 0 && l[n-1].what == "lit" {
				l[n-1].text += t
				l[n-1].fold = l[n-1].fold && fold
			} else {
				l = append(l, piece{what: "lit", text: t, fold: fold})
			}
		case r.Op == syntax.OpEmptyMatch:
		default:
			if min, ok := spaces(r); ok {
				if n := len(l); n > 0 && l[n-1].what == "space" {
					l[n-1].min += min
				} else {
					l = append(l, piece{what: "space", min: min})
				}
				return
			}
			l = append(l, piece{what: "other", re: r})
		}
	}
	rec(re)
	return l, nil
}

// spaces: it matches white space only, at least so many.
func spaces(r *syntax.Regexp) (int, bool) {
	switch r.Op {
	case syntax.OpCharClass:
		for i := 0; i+1 < len(r.Rune); i += 2 {
			for x := r.Rune[i]; x <= r.Rune[i+1]; x++ {
				if !unicode.IsSpace(x) {
					return 0, false
				}
			}
		}
		return 1, true
	case syntax.OpLiteral:
		for _, x := range r.Rune {
			if !unicode.IsSpace(x) {
				return 0, false
			}
		}
		return len(r.Rune), true
	case syntax.OpStar, syntax.OpQuest:
		_, ok := spaces(r.Sub[0])
		return 0, ok
	case syntax.OpPlus:
		return spaces(r.Sub[0])
	case syntax.OpRepeat:
		n, ok := spaces(r.Sub[0])
		return n * r.Min, ok
	}
	return 0, false
}

// repeated: the sub-expression, one of many, at least how many, and is the longest taken?
func repeated(r *syntax.Regexp) (sub *syntax.Regexp, min int, greedy bool) {
	switch r.Op {
	case syntax.OpPlus:
		return r.Sub[0], 1, r.Flags&syntax.NonGreedy == 0
	case syntax.OpStar:
		return r.Sub[0], 0, r.Flags&syntax.NonGreedy == 0
	case syntax.OpRepeat:
		if r.Max == -1 {
			return r.Sub[0], r.Min, r.Flags&syntax.NonGreedy == 0
		}
	}
	return nil, 0, false
}

// has: does the class have the rune?
func has(r *syntax.Regexp, x rune) bool {
	switch r.Op {
	case syntax.OpAnyChar:
		return true
	case syntax.OpAnyCharNotNL:
		return x != '\n'
	case syntax.OpCharClass:
		for i := 0; i+1 < len(r.Rune); i += 2 {
			if r.Rune[i] <= x && x <= r.Rune[i+1] {
				return true
			}
		}
	case syntax.OpLiteral:
		return len(r.Rune) == 1 && r.Rune[0] == x
	}
	return false
}

// sample of what people write
func printable(f func(x rune) bool) []rune {
	var l []rune
	for x := rune(0x20); x < 0x2100; x++ {
		if unicode.IsPrint(x) && f(x) {
			l = append(l, x)
		}
	}
	return l
}

func name(x rune) bool { return !unicode.IsSpace(x) && !strings.ContainsRune(`,()'"=`, x) }

// form checks the expression against the form: literals between captures; each capture by its own
// function.
func form(s string, anchored, fold bool, lits []string, needSpace bool, caps ...func(*syntax.Regexp) string) string {
	l, err := pieces(s)
	if err != nil {
		return err.Error()
	}
	if anchored {
		if len(l) < 2 || l[0].what != "begin" || l[len(l)-1].what != "end" {
			return "it does not match the whole text"
		}
		l = l[1 : len(l)-1]
	}
	// lits[0] cap lits[1] cap ... lits[n]
	k, want := 0, true // the next literal or capture
	spaced := true
	for _, x := range l {
		switch x.what {
		case "space":
			if x.min > 0 {
				spaced = true
			} else if !spaced {
				spaced = false
			}
			continue
		case "lit":
			if want && k == 0 && lits[0] == "" || !want {
				return "there is other text to match: " + x.text
			}
			if k >= len(lits) || !strings.EqualFold(strings.ReplaceAll(x.text, " ", ""), lits[k]) {
				return "there is other text to match: " + x.text
			}
			if fold && !x.fold {
				return "the words have to be in one case"
			}
			if needSpace && !spaced {
				return "words may run into each other"
			}
			want = false
		case "cap":
			if want && lits[k] != "" {
				return "what is captured is not preceded by " + lits[k]
			}
			if needSpace && !spaced {
				return "words may run into each other"
			}
			if k >= len(caps) {
				return "there are more captures"
			}
			if w := caps[k](x.re); w != "" {
				return w
			}
			k++
			want = true
		default:
			return "it is not of the form expected"
		}
		spaced = false
	}
	if k != len(caps) || want && lits[k] != "" {
		return "it does not match the whole form"
	}
	return ""
}

// what the parts of the expressions capture
func anyText(greedyOK bool) func(*syntax.Regexp) string {
	return func(r *syntax.Regexp) string {
		sub, min, greedy := repeated(r)
		if sub == nil || min != 1 {
			return "what is captured is not some text"
		}
		if greedy && !greedyOK {
			return "the text before the separator is not the shortest: it may contain the separator itself"
		}
		for _, x := range printable(func(rune) bool { return true }) {
			if !has(sub, x) {
				return "text with " + string(x) + " is not captured"
			}
		}
		return ""
	}
}

func aName(stop string) func(*syntax.Regexp) string {
	return func(r *syntax.Regexp) string {
		sub, min, _ := repeated(r)
		if sub == nil || min != 1 {
			return "what is captured is not a name"
		}
		for _, x := range printable(name) {
			if !has(sub, x) {
				return "a name with " + string(x) + " is not captured whole"
			}
		}
		for _, x := range " \t\n" + stop {
			if has(sub, x) {
				return "more than a name is captured"
			}
		}
		return ""
	}
}

func quoted(r *syntax.Regexp) string {
	sub, min, greedy := repeated(r)
	if sub == nil || min != 0 {
		return "not every text in quotes is captured"
	}
	if greedy && has(sub, '\'') {
		return "more than the text up to the next quote is captured"
	}
	for _, x := range printable(func(x rune) bool { return x != '\'' }) {
		if !has(sub, x) {
			return "text with " + string(x) + " is not captured"
		}
	}
	return ""
}

func queries(c *Check) {
	fn := c.fn(queryPkg, "RoughParse")
	if fn == nil {
		return
	}
	who := relName(c.P, fn)
	it := c.run(fn, &Config{Invariants: true})
	in := it.Params[0]
	good := 0
	for _, p := range it.Paths {
		switch p.Out {
		case OutBack:
			continue
		case OutReturn:
		default:
			c.must(false, "parsed or rejected", who, p.Pos, "it may end in a %s", p.Out)
			continue
		}
		if errNonNil(p.Facts, p.Ret[1]) {
			continue
		}
		// the whole
		var parts *Term
		for _, e := range p.Events {
			if e.Kind == EvCall && e.Name == "regexp.Regexp.FindStringSubmatch" && trimmed(e.Args[1]) == in {
				parts = e.Res[0]
				re, ok := c.regex(it, e.Args[0])
				if !c.must(ok, "form of a query", who, e.Pos, "the expression is unclear: %s", e.Args[0]) {
					continue
				}
				w := form(re, true, true, []string{"select", "where", ""}, true, anyText(false), anyText(true))
				c.must(w == "", "form of a query", who, e.Pos, "%s: %s", re, w)
			}
		}
		if !c.must(parts != nil, "parsed or rejected", who, p.Pos, "a query is accepted without looking at its form") {
			continue
		}
		n := mkLen(parts)
		c.must(isFalse(p.Facts, beq(parts, mk("nil", "", 0))) || isFalse(p.Facts, beq(n, mkInt(64, 0))) || isTrue(p.Facts, bslt(mkInt(64, 0), n)), "parsed or rejected", who, p.Pos, "text is accepted that does not have the form of a query")
		sel, whr := elemOf(parts, mkInt(64, 1)), elemOf(parts, mkInt(64, 2))
		all := func(of *Term, what string, lits []string, cap1, cap2 func(*syntax.Regexp) string) *Term {
			for _, e := range p.Events {
				if e.Kind != EvCall || e.Name != "regexp.Regexp.FindAllStringSubmatch" || timeless(trimmed(e.Args[1])) != timeless(of) {
					continue
				}
				re, ok := c.regex(it, e.Args[0])
				if !c.must(ok, "form of a "+what, who, e.Pos, "the expression is unclear: %s", e.Args[0]) {
					return nil
				}
				w := form(re, false, false, lits, false, cap1, cap2)
				c.must(w == "", "form of a "+what, who, e.Pos, "%s: %s", re, w)
				c.must(e.Args[2].isInt() && e.Args[2].sval() < 0, "every "+what, who, e.Pos, "not more than %s of them are considered", e.Args[2])
				return e.Res[0]
			}
			c.fail("every "+what+":"+who, p.Pos, "no %s is looked for in its part of the query", what)
			return nil
		}
		sels := all(sel, "measure", []string{"", "(", ")"}, aName(","), aName(","))
		whrs := all(whr, "criterion", []string{"", "='", "'"}, aName(""), quoted)
		q := p.Ret[0]
		fms, crs := fieldNamed(q, q.Typ, "FieldMeasures"), fieldNamed(q, q.Typ, "Criteria")
		if fms == nil || crs == nil {
			c.fail("anchor:Query", p.Pos, "a query has an unexpected type")
			return
		}
		if whrs != nil {
			w := c.criteria(p, crs, whrs)
			c.must(w == "", "every criterion", who, p.Pos, "the criteria of a query are not what is written: %s", w)
		}
		if sels != nil {
			w := c.measures(it, p, fms, sels)
			c.must(w == "", "every measure", who, p.Pos, "the measures of a query are not what is written: %s", w)
		}
		good++
	}
	c.must(good > 0, "parsed or rejected", who, fn.Pos(), "no query is accepted")
}

func trimmed(t *Term) *Term {
	for t.Op == "call" && t.Aux == "strings.TrimSpace" {
		t = t.Args[0]
	}
	return t
}

// over finds the loop over all of seq in which the list is gathered.
func over(p *Path, list, seq *Term) (e *Event, elem *Term, why string) {
	e = enters(p.Events, list)
	if e == nil {
		return nil, nil, "they are not gathered one by one"
	}
	if !isEmpty(e.Facts, e.Init[list]) {
		return nil, nil, "there are some to begin with"
	}
	idx, _, why := rangeLoop(e, p.Events[indexOf(p.Events, e):], func(t *Term) bool { return t == seq })
	if why != "" {
		return nil, nil, why
	}
	return e, elemOf(seq, idx), ""
}

func textIs(v, text *Term) bool { return v != nil && timeless(stripConv(v)) == timeless(text) }

func (c *Check) criteria(p *Path, list, seq *Term) string {
	text := func(fv, w *Term) string {
		if !textIs(fieldNamed(fv, fv.Typ, "F"), elemOf(w, mkInt(64, 1))) || !textIs(fieldNamed(fv, fv.Typ, "V"), elemOf(w, mkInt(64, 2))) {
			return "one is not the text captured"
		}
		return ""
	}
	if e, _, idx := fills(p, list, func(t *Term) bool { return t == seq }); e != nil {
		for _, b := range backsOf(e) {
			fv, why := filled(b, e, list, idx)
			if why == "" {
				why = text(fv, elemOf(seq, idx))
			}
			if why != "" {
				return why
			}
		}
		return ""
	}
	e, w, why := over(p, list, seq)
	if why != "" {
		return why
	}
	if w := tampered(flatten(rest(p.Events, e)), list); w != "" {
		return w
	}
	for _, b := range backsOf(e) {
		fv := appended(b.Next[list], list)
		if fv == nil {
			return "one may be left out or added"
		}
		if w := tampered(flatten(after(b.Events, e)), list, b.Next[list]); w != "" {
			return w
		}
		if why := text(fv, w); why != "" {
			return why
		}
	}
	return ""
}

func (c *Check) measures(it *Interp, p *Path, list, seq *Term) string {
	e, s, why := over(p, list, seq)
	if why != "" {
		return why
	}
	s = timeless(s)
	m, f := elemOf(s, mkInt(64, 1)), elemOf(s, mkInt(64, 2))
	et := list.Typ.Underlying().(*types.Slice).Elem()
	mi, fi := fieldIndex(et, "M"), fieldIndex(et, "F")
	if mi < 0 || fi < 0 {
		return "they are unclear"
	}
	if w := tampered(flatten(rest(p.Events, e)), list); w != "" {
		return w
	}
	for _, b := range backsOf(e) {
		nx := b.Next[list]
		// every store to what the list has
		var sts []*Event
		for _, x := range after(b.Events, e) {
			if x.Kind == EvStore && x.Addr.Op == "fa" && x.Addr.Args[0].Op == "ia" && (x.Addr.Args[0].Args[0] == list || x.Addr.Args[0].Args[0] == nx) {
				sts = append(sts, x)
			}
			if x.Kind == EvStore && x.Addr.Op == "ia" && (x.Addr.Args[0] == list || x.Addr.Args[0] == nx) {
				return "what was gathered before is changed"
			}
		}
		if fm := appended(nx, list); fm != nil {
			mv := fieldNamed(fm, et, "M")
			for _, x := range sts {
				at := x.Addr.Args[0]
				if at.Op != "ia" || at.Args[0] != nx || x.Addr.Aux != mkFA(at, mi, et).Aux || !sameIndex(b.Facts, at.Args[1], mkLen(list)) {
					return "what was gathered before is changed"
				}
				was := mkLoad(x.Addr, "", structOf(et).Field(mi).Type())
				if v := x.Val; v.Op == "append" && len(v.Args) == 2 && timeless(v.Args[0]) == timeless(was) && isEmpty(b.Facts, mv) {
					mv = mk("append", "", 0, mv, v.Args[1])
					continue
				}
				mv = x.Val
			}
			if !textIs(fieldNamed(fm, et, "F"), f) {
				return "the field is not the text captured"
			}
			if only := single(b, mv); only == nil || !textIs(only, m) {
				return "the measure is not the text captured"
			}
			continue
		}
		if nx != list {
			return "one may be left out or added"
		}
		// added to one that is there
		if len(sts) != 1 {
			return "one may be left out or added"
		}
		x := sts[0]
		i := x.Addr.Args[0].Args[1]
		if x.Addr.Aux != mkFA(x.Addr.Args[0], mi, et).Aux {
			return "what was gathered before is changed"
		}
		v := x.Val
		if v.Op != "append" || len(v.Args) != 2 || timeless(v.Args[0]) != timeless(mkLoad(x.Addr, "", structOf(et).Field(mi).Type())) {
			return "measures gathered before are lost"
		}
		if !textIs(v.Args[1], m) {
			return "the measure is not the text captured"
		}
		if w := c.entryOf(p, b, e, list, i, f, fi, et); w != "" {
			return w
		}
	}
	return ""
}

// sameIndex: two positions are known to be equal.
func sameIndex(f *fact, i, j *Term) bool {
	return i == j || isTrue(f, beq(i, j))
}

// single is the only element of a list that was built.
func single(b *Path, v *Term) *Term {
	if v.Op == "append" && len(v.Args) == 2 && isEmpty(b.Facts, v.Args[0]) {
		return v.Args[1]
	}
	base, off, n := sliceParts(v)
	if n.isConstInt(1) {
		a := mkIA(base, off, nil)
		for _, x := range b.Events {
			if x.Kind == EvStore && x.Addr == a {
				return x.Val
			}
		}
	}
	return nil
}

// entryOf: entry i of the list is known to be for the field f.
func (c *Check) entryOf(p, b *Path, e *Event, list, i, f *Term, fi int, et types.Type) string {
	// compared
	entry := timeless(mkLoad(mkFA(mkIA(list, i, et), fi, et), "", structOf(et).Field(fi).Type()))
	for y := b.Facts; y != nil; y = y.up {
		if y.cond == nil || !y.val || len(y.cond.Args) != 2 {
			continue
		}
		for k := 0; k < 2; k++ {
			if timeless(stripConv(y.cond.Args[k])) == entry && timeless(stripConv(y.cond.Args[1-k])) == timeless(f) {
				return ""
			}
		}
	}
	// looked up
	if i.Op != "mapval" || timeless(i.Args[1]) != timeless(f) {
		return "a measure may be added to another field"
	}
	mp := i.Args[0]
	if !found(b, after(b.Events, e), timeless(mp), timeless(f)) {
		return "a measure may be added to another field"
	}
	if mp.Op != "mapobj" {
		return "where the measures of a field are is unclear"
	}
	for _, x := range p.Events {
		if x == e {
			break
		}
		if x.Kind == EvMapUpd && x.Args[0] == mp {
			return "where the measures of a field are is unclear"
		}
	}
	for _, q := range backsOf(e) {
		for _, x := range flatten(after(q.Events, e)) {
			if x.Kind != EvMapUpd || x.Args[0] != mp {
				continue
			}
			if timeless(x.Args[1]) != timeless(f) || x.Args[2] != mkLen(list) || appended(q.Next[list], list) == nil {
				return "where the measures of a field are is not what is noted"
			}
		}
	}
	return ""
}

func init() {
	register(&checkDef{
		id:    "C31",
		run:   timestamps,
		rule:  "On every path of the parser of observations that succeeds, the time is made of the whole seconds and the remaining microseconds of the number that strconv read, with 64 bits in base 10 and without error, from the digits at the beginning of the line; no path rejects a number that was read; the number never passes through a type whose size depends on the platform",
		floor: map[string]int{"exact instant": 1, "64 bits": 2, "any other is rejected": 2},
	})
	register(&checkDef{
		id:    "C42",
		run:   rows,
		rule:  "On every path of the parser of observations that succeeds, the fields are gathered in a loop that looks for the delimiter (the byte after the timestamp) in what remains, begins after the timestamp's delimiter, goes on after each delimiter found, ends only when there is none, and appends exactly one field for each piece and for the last one: its name what comes before the first equals sign and its value what comes after it",
		floor: map[string]int{"every field": 2},
	})
	register(&checkDef{
		id:    "C34",
		run:   queries,
		rule:  "On every path of the parser of queries that succeeds, the text has matched an anchored expression of the form select X where Y, with X the shortest; all matches of the forms measure(field) in X and field='value' in Y are gone through, and for each exactly one measure or criterion is added, with the text captured, in order; measures of a field are added to the entry of that field. The forms are decided from the parsed regular expressions: what is outside of the captures, and which characters the captures admit",
		floor: map[string]int{"form of a query": 1, "form of a measure": 1, "form of a criterion": 1, "every measure": 1, "every criterion": 1},
	})
}
