package main

// C47: every operation comes to an end.

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// consuming are calls that, if they succeed, have taken something from an input that ends: the
// argument that is the source, and the result that tells.
var consuming = []struct {
	name *regexp.Regexp
	ok   func(f *fact, res []*Term) bool
}{
	{regexp.MustCompile(`^bufio\.Scanner\.Scan$`), func(f *fact, r []*Term) bool { return len(r) == 1 && isTrue(f, r[0]) }},
	{regexp.MustCompile(`^(bufio\.Reader|bytes\.Buffer|bytes\.Reader|strings\.Reader)\.Read(Byte|Rune|Bytes|String|Slice|Line)$`), func(f *fact, r []*Term) bool {
		return len(r) > 1 && errNil(f, r[len(r)-1])
	}},
	{regexp.MustCompile(`^(mime/multipart\.Reader\.Next(Raw)?Part|encoding/(csv|json)\.(Reader|Decoder)\.(Read|Token))$`), func(f *fact, r []*Term) bool {
		return len(r) > 0 && errNil(f, r[len(r)-1])
	}},
}

// variesIn tells of the terms of a loop which may differ from one iteration to the next.
type variesIn struct {
	e     *Event
	loop  *LoopInfo
	body  map[*ssa.BasicBlock]bool
	enter map[*ssa.Function]bool // entered in the loop
	memo  map[*Term]bool
}

func (it *Interp) variesIn(e *Event, evs []*Event) *variesIn {
	v := &variesIn{e: e, loop: e.Loop, body: it.loopsOf(e.Loop.Fn)[e.Loop.Header], enter: map[*ssa.Function]bool{}, memo: map[*Term]bool{}}
	for _, x := range flatten(evs) {
		if x.Kind == EvEnter && x.Call != nil {
			v.enter[x.Call] = true
		}
		if x.Fn != nil && x.Fn != e.Loop.Fn {
			v.enter[x.Fn] = true
		}
	}
	return v
}

// stays: has t the same value throughout the loop, except for its variables?
func (v *variesIn) stays(t *Term) bool {
	if r, ok := v.memo[t]; ok {
		return r
	}
	v.memo[t] = true
	r := true
	for _, a := range t.Args {
		r = r && v.stays(a)
	}
	for _, mo := range t.Monos {
		for _, a := range mo.atoms {
			r = r && v.stays(a)
		}
	}
	switch t.Op {
	case "load", "strof", "mapval", "mapok", "arrval", "maplen":
		if t.Aux != "" {
			root := rootOf(t.Args[0])
			r = r && v.e.snap != nil && (v.e.snap.epochOf(root) == t.Aux || v.e.snap.mapEp[t.Args[0]] == t.Aux)
		}
	case "leaf":
		d := t.Def
		switch {
		case d == nil:
			r = false
		case d.Loop == v.loop: // own variable
		case d.Loop != nil:
			for l := d.Loop.Parent; l != nil; l = l.Parent {
				r = r && l != v.loop
			}
		case d.Instr != nil:
			fn := d.Instr.Parent()
			if fn == v.loop.Fn {
				r = r && !v.body[d.Instr.Block()]
			} else {
				r = r && !v.enter[fn]
			}
		}
	}
	v.memo[t] = r
	return r
}

// stepper is a variable that changes by one in each of some iterations, and what it cannot pass in them.
type stepper struct {
	leaf *Term
	up   bool
	by   uint64
}

// steppers are the numbers of any width which go up or down by one and are known to be short of
// something that stays the same.
func (v *variesIn) steppers(b *Path, ranges *fieldRanges) map[stepper]bool {
	r := map[stepper]bool{}
	// from a multiple of k in steps of k down to zero
	for lf, n := range b.Next {
		init := v.loop.Init[lf]
		if init == nil || !init.isInt() || n.W != lf.W || v.loop.Alts[lf] != nil {
			continue
		}
		if d := isub(lf, n); d.isInt() && d.V > 0 && init.V%d.V == 0 && isFalse(b.Facts, beq(lf, mkInt(lf.W, 0))) {
			r[stepper{lf, false, d.V}] = true
		}
	}
	for y := b.Facts; y != nil; y = y.up {
		if y.cond == nil || y.cond.Op != "ult" && y.cond.Op != "slt" {
			continue
		}
		lo, hi, strict := y.cond.Args[0], y.cond.Args[1], true
		if !y.val {
			lo, hi, strict = hi, lo, false
		}
		signed := y.cond.Op == "slt"
		step := func(i, lim *Term, d, last uint64, up bool) {
			n := b.Next[i]
			if n == nil || n != iadd(i, mkInt(i.W, d)) || !v.stays(lim) {
				return
			}
			for lf := range b.Next {
				if contains(lim, lf) {
					return
				}
			}
			if strict || ranges.never(lim, last) {
				r[stepper{i, up, 1}] = true
			}
		}
		w := uint(lo.W)
		max, min := ^uint64(0)>>(64-w), uint64(0)
		if signed {
			max, min = max>>1, 1<<(w-1)
		}
		step(lo, hi, 1, max, true)
		step(hi, lo, ^uint64(0)>>(64-w), min, false)
	}
	return r
}

// fieldRanges are the values that the small fields of structs may have.
type fieldRanges struct {
	r    *ending
	memo map[string]map[uint64]bool
}

// of gives the values of the field at address a, or nil.
func (x *fieldRanges) of(a *Term) map[uint64]bool {
	sig := sigOf(a)
	if a.Op != "fa" || a.Typ == nil {
		return nil
	}
	if m, ok := x.memo[sig]; ok {
		return m
	}
	x.memo[sig] = nil
	st := structOf(deref(a.Args[0].Typ))
	if st == nil {
		return nil
	}
	m := map[uint64]bool{0: true}
	for _, fn := range x.r.c.P.Funcs {
		stores, other := x.storesTo(fn, a)
		if other {
			return nil
		}
		if !stores {
			continue
		}
		it := x.r.run(fn)
		if len(it.Undec) > 0 {
			return nil
		}
		for _, p := range it.Paths {
			for _, e := range flatten(p.Events) {
				if e.Kind != EvStore || sigOf(e.Addr) != sig {
					continue
				}
				if e.Val.W != 8 {
					return nil
				}
				if from := loadAddr(e.Val); from != nil && sigOf(from) == sig {
					continue
				}
				for v := uint64(0); v < 256; v++ {
					if f, ok := e.Facts.assume(beq(e.Val, mkInt(8, v)), true); ok && f != nil {
						m[v] = true
					}
				}
			}
		}
	}
	x.memo[sig] = m
	return m
}

// storesTo: does fn change fields as that at address a, or do something else with their address?
func (x *fieldRanges) storesTo(fn *ssa.Function, a *Term) (stores, other bool) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if f, ok := in.(*ssa.FieldAddr); ok && fieldName(a) == structOf(deref(f.X.Type())).Field(f.Field).Name() {
				for _, u := range *f.Referrers() {
					switch y := u.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						stores = true
						other = other || y.Val == ssa.Value(f)
					default:
						other = true
					}
				}
			}
		}
	}
	return stores, other
}

// never: is t never v?
func (x *fieldRanges) never(t *Term, v uint64) bool {
	if t.isInt() {
		return t.V != v
	}
	var at *Term
	n := 0
	subterms(t, func(s *Term) bool {
		if a := loadAddr(s); a != nil && s.W == 8 && s != at {
			at = s
			n++
			return false
		}
		if s.Op == "leaf" {
			n = 2
		}
		return true
	})
	if n != 1 {
		return false
	}
	vals := x.of(loadAddr(at))
	if vals == nil {
		return false
	}
	for k := range vals {
		if y := subst(t, map[*Term]*Term{at: mkInt(8, k)}); !y.isInt() || y.V == v {
			return false
		}
	}
	return true
}

// halved: is n what is left of a when it is shifted or divided?
func halved(a, n *Term) bool {
	return n != nil && (n.Op == "lshr" || n.Op == "udiv") && n.Args[0] == a && n.Args[1].isInt() && (n.Args[1].V > 1 || n.Op == "lshr" && n.Args[1].V == 1)
}

// exactly: does l change by k?
func exactly(l lin, b *Path, k int64) bool {
	n := lin{k: map[*Term]int64{}, c: l.c}
	for a, x := range l.k {
		y, ok := toLin(subst(a, b.Next))
		if !ok {
			return false
		}
		n = n.plus(y, x)
	}
	n = n.plus(l, -1)
	return len(n.k) == 0 && n.c == k
}

// changes: is what l becomes by b less than l by at least k?
func changes(l lin, b *Path, k int64) bool {
	n := lin{k: map[*Term]int64{}, c: l.c}
	for a, x := range l.k {
		if halved(a, b.Next[a]) && x > 0 {
			// at most what it was, and less unless it was zero
			n = n.plus(lin{k: map[*Term]int64{a: 1}}, x)
			if isFalse(b.Facts, beq(a, mkInt(a.W, 0))) {
				n.c -= x
			}
			continue
		}
		y, ok := b.Facts.toULin(subst(a, b.Next))
		if a.W >= 64 {
			y, ok = toLin(subst(a, b.Next))
		}
		if !ok {
			return false
		}
		n = n.plus(y, x)
	}
	return b.Facts.entails(n.plus(l, -1).plus(lin{c: k}, 1))
}

// measures are expressions that are known not to be negative on the path.
func (v *variesIn) measures(b *Path, evs []*Event) map[string]lin {
	out := map[string]lin{}
	add := func(l lin) {
		own := false
		for a := range l.k {
			if !v.stays(a) {
				return
			}
			for lf := range b.Next {
				own = own || contains(a, lf)
			}
		}
		if !own {
			return
		}
		out[l.key()] = l
	}
	for y := b.Facts; y != nil; y = y.up {
		for _, l := range y.lins {
			add(l.neg())
		}
		if y.cond != nil && y.cond.Op == "eq0" && !y.val {
			// what is not zero and changes by one each time becomes zero, if need be by wrapping around
			if l, ok := toLin(y.cond.Args[0]); ok && exactly(l, b, -1) {
				add(l)
			} else if ok && exactly(l.neg(), b, -1) {
				add(l.neg())
			}
		}
	}
	for _, e := range evs {
		if e.Kind != EvIndex {
			continue
		}
		x, ok1 := toLin(e.Args[1])
		for _, i := range e.Args[2:] {
			if y, ok := toLin(i); ok && ok1 {
				add(x.plus(y, -1))
			}
		}
	}
	for lf := range b.Next {
		if lf.W > 0 {
			if l, ok := toLin(lf); ok && (halved(lf, b.Next[lf]) || b.Facts.entailsNonNeg(l)) {
				add(l)
			}
		} else if isSliceOrString(lf) {
			if l, ok := toLin(mkLen(lf)); ok {
				add(l)
			}
		}
	}
	return out
}

func isSliceOrString(t *Term) bool {
	return t.Typ != nil && (isString(t.Typ) || isSliceType(t.Typ))
}

func (l lin) key() string {
	var s []string
	for a, k := range l.k {
		s = append(s, fmt.Sprintf("%d*%d", k, a.ID))
	}
	sort.Strings(s)
	return strings.Join(s, "+") + fmt.Sprintf("+%d", l.c)
}

// takes are the inputs that the iteration takes something from, and finds it.
func (v *variesIn) takes(evs []*Event, f *fact, next map[*Term]*Term) map[*Term]bool {
	r := map[*Term]bool{}
	for _, e := range evs {
		if e.Kind != EvCall {
			continue
		}
		for _, k := range consuming {
			if k.name.MatchString(e.Name) && len(e.Args) > 0 && v.stays(e.Args[0]) && (k.ok(f, e.Res) || k.ok(f, led(e.Res, next))) {
				r[e.Args[0]] = true
			}
		}
	}
	for y := f; y != nil; y = y.up {
		if y.cond == nil || !y.val || y.cond.Op != "leaf" {
			continue
		}
		// the next of a map or a string, in this loop
		if d := y.cond.Def; d != nil && d.Kind == "next" && d.Index == 0 && !v.stays(y.cond) && v.stays(d.Args[0]) {
			r[d.Args[0]] = true
		}
	}
	return r
}

// leads are the variables of the loop that hold, whatever the iteration, what the last one has taken,
// as in  for x := f(); x; x = f()
func (it *Interp) leads(l *LoopInfo) map[*Term]bool {
	r := map[*Term]bool{}
	// what it is taken from, which may differ with the way the loop is come to
	from := map[*Event]map[*Term]*Term{}
	for _, p := range l.Backs {
		e, evs := lastRound(p)
		if e == nil {
			return nil
		}
		v, first := it.variesIn(e, evs), e
		here := map[*Term]*Term{}
		for _, e := range evs {
			if e.Kind != EvCall || len(e.Args) == 0 || !v.stays(e.Args[0]) {
				continue
			}
			for _, k := range consuming {
				for lf, n := range p.Next {
					for _, x := range e.Res {
						if k.name.MatchString(e.Name) && n == x {
							here[lf] = e.Args[0]
						}
					}
				}
			}
		}
		if from[first] == nil {
			from[first] = here
			continue
		}
		for lf, o := range from[first] {
			if here[lf] != o {
				delete(from[first], lf)
			}
		}
	}
	for _, p := range l.Backs {
		for lf := range p.Next {
			r[lf] = true
		}
	}
	for lf := range r {
		for _, m := range from {
			if m[lf] == nil {
				delete(r, lf)
			}
		}
	}
	return r
}

// led are the results of a call as the next iteration finds them.
func led(res []*Term, next map[*Term]*Term) []*Term {
	l := append([]*Term(nil), res...)
	for i := range l {
		for lf, n := range next {
			if n == l[i] {
				l[i] = lf
				break
			}
		}
	}
	return l
}

// approaches: a loop that stops when a number no longer changes. It is taken to converge.
func (v *variesIn) approaches(b *Path) bool {
	for y := b.Facts; y != nil; y = y.up {
		if y.cond == nil || y.val || y.cond.Op != "feq" {
			continue
		}
		x, z := y.cond.Args[0], y.cond.Args[1]
		for lf, n := range b.Next {
			if n != lf && (x == lf && z == n || x == n && z == lf) {
				return true
			}
		}
	}
	return false
}

// counting are words that are only ever changed by adding one.
func (r *ending) counting(l []*ssa.Function) map[string]bool {
	good, bad := map[string]bool{}, map[string]bool{}
	for _, fn := range l {
		atomics := false
		for _, x := range calls(fn) {
			if f := x.Common().StaticCallee(); f != nil && fnPkg(f) != nil && fnPkg(f).Path() == "sync/atomic" {
				atomics = true
			}
		}
		if !atomics {
			continue
		}
		for _, p := range r.run(fn).Paths {
			for _, e := range flatten(p.Events) {
				if e.Addr == nil || rootOf(e.Addr) == e.Addr {
					continue
				}
				switch e.Kind {
				case EvAAdd:
					if e.Val != nil && e.Val.isInt() && e.Val.V == 1 {
						good[wordOf(e.Addr)] = true
						continue
					}
					bad[wordOf(e.Addr)] = true
				case EvAStore:
					// what it was found to be, counted on
					bad[wordOf(e.Addr)] = bad[wordOf(e.Addr)] || !countsOn(p, e.Addr, e.Val)
					good[wordOf(e.Addr)] = true
				case EvACAS:
					d := isub(e.Args[1], e.Args[0])
					bad[wordOf(e.Addr)] = bad[wordOf(e.Addr)] || !d.isInt() || d.V != 1
					good[wordOf(e.Addr)] = true
				case EvASwap:
					bad[wordOf(e.Addr)] = true
				}
			}
		}
	}
	for s, b := range bad {
		if b {
			delete(good, s)
		}
	}
	return good
}

// countsOn: is v one or two more than a value found at a?
func countsOn(p *Path, a, v *Term) bool {
	for _, e := range flatten(p.Events) {
		if e.Kind == EvALoad && e.Addr == a {
			if d := isub(v, e.Res[0]); d.isInt() && (d.V == 1 || d.V == 2) {
				return true
			}
		}
	}
	return false
}

// alone: can the iteration end as it does if no other goroutine does anything? Then a word has one
// value however often it is loaded, which is even if it counts the beginnings and ends of updates,
// and one that is exchanged for another is what it was found to be.
func (v *variesIn) alone(evs []*Event, f *fact, counts map[string]bool) bool {
	first, m := map[*Term]*Term{}, map[*Term]*Term{}
	var n *fact
	ok := true
	for _, e := range evs {
		switch e.Kind {
		case EvALoad:
			w := first[e.Addr]
			if w == nil {
				w = e.Res[0]
				first[e.Addr] = w
				if counts[wordOf(e.Addr)] {
					for _, t := range []*Term{iurem(w, mkInt(w.W, 2)), mk("and", "", w.W, w, mkInt(w.W, 1))} {
						if n, ok = n.assume(beq(t, mkInt(w.W, 0)), true); !ok {
							return false
						}
					}
				}
			}
			if w != e.Res[0] {
				m[e.Res[0]] = w
			}
		case EvACAS:
			if w := first[e.Addr]; w != nil && isTrue(f, beq(subst(e.Args[0], m), w)) {
				m[e.Res[0]] = mkBool(true)
			}
			delete(first, e.Addr)
		case EvAStore, EvAAdd, EvASwap:
			delete(first, e.Addr)
		}
	}
	var l []*fact
	for y := f; y != nil; y = y.up {
		if y.cond != nil {
			l = append(l, y)
		}
	}
	for i := len(l) - 1; i >= 0; i-- {
		if n, ok = n.assume(subst(l[i].cond, m), l[i].val); !ok {
			return false
		}
	}
	return true
}

// lastRound is what happens on a path that comes back to the head of its loop, in the last iteration.
func lastRound(b *Path) (*Event, []*Event) {
	for i := len(b.Events) - 1; i >= 0; i-- {
		if e := b.Events[i]; e.Kind == EvLoop && e.Loop == b.Loop {
			return e, b.Events[i+1:]
		}
	}
	return nil, nil
}

// back is a way to begin another iteration.
type back struct {
	p    *Path
	v    *variesIn
	take map[*Term]bool
	may  map[string]lin // what is not negative on it
	step map[stepper]bool
}

// keeps: is m a quantity of the iteration that it does not raise?
func (b *back) keeps(m lin, k int64) bool {
	for a := range m.k {
		if !b.v.stays(a) {
			return false
		}
	}
	return changes(m, b.p, k)
}

// without leaves out the iterations that lower m, if none raises it.
func without(left []*back, m lin) ([]*back, bool) {
	var keep []*back
	for _, o := range left {
		_, ok := o.may[m.key()]
		switch {
		case ok && o.keeps(m, 1):
		case o.keeps(m, 0):
			keep = append(keep, o)
		default:
			return nil, false
		}
	}
	return keep, len(keep) < len(left)
}

func lower(left []*back) ([]*back, bool) {
	for _, b := range left {
		for s := range b.take {
			var keep []*back
			for _, o := range left {
				if !o.take[s] {
					keep = append(keep, o)
				}
			}
			return keep, true
		}
	steps:
		for st := range b.step {
			var keep []*back
			for _, o := range left {
				switch {
				case o.step[st]:
				case o.p.Next[st.leaf] == st.leaf:
					keep = append(keep, o)
				default:
					continue steps
				}
			}
			return keep, true
		}
		var ks []string
		for k := range b.may {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if keep, ok := without(left, b.may[k]); ok {
				return keep, true
			}
		}
	}
	return nil, false
}

// endless tells why no reason is found for which the loop ends.
func (r *ending) endless(it *Interp, l *LoopInfo) string {
	var left []*back
	leads := it.leads(l)
	for _, p := range l.Backs {
		next := map[*Term]*Term{}
		for lf, n := range p.Next {
			if leads[lf] {
				next[lf] = n
			}
		}
		e, evs := lastRound(p)
		if e == nil {
			return "an iteration is not followed"
		}
		v := it.variesIn(e, evs)
		if v.approaches(p) || !v.alone(evs, p.Facts, r.counts) {
			continue
		}
		left = append(left, &back{p, v, v.takes(evs, p.Facts, next), v.measures(p, evs), v.steppers(p, r.ranges)})
	}
	// each round finds a quantity that no iteration raises, and leaves out those that lower it
	for len(left) > 0 {
		keep, ok := lower(left)
		if !ok {
			return "it may go on for ever: nothing is known to run out"
		}
		left = keep
	}
	return ""
}

// waitCall are functions of the library that wait for something.
var waitCall = regexp.MustCompile(`^(time\.Sleep|\(\*sync\.(WaitGroup|Cond)\)\.Wait|\(\*os/exec\.Cmd\)\.(Run|Wait|Output|CombinedOutput)|\(\*net/http\.(Client|Server)\)\..*|net/http\.(Get|Post|Head|PostForm|ListenAndServe|Serve)|\(\*?net\..*\)\.Accept|net\.Dial.*)$`)

type ending struct {
	c      *Check
	runs   map[*ssa.Function]*Interp
	counts map[string]bool
	ranges *fieldRanges
}

func (r *ending) run(fn *ssa.Function) *Interp {
	it := r.runs[fn]
	if it == nil {
		it = r.c.P.Run(fn, &Config{Bounds: true, Invariants: true})
		r.runs[fn] = it
		r.c.paths += len(it.Paths)
		r.c.loops += len(it.Loops)
		r.c.steps += it.Steps
		r.c.funcs[fn.String()] = true
	}
	return it
}

// scope are the functions that operations consist of.
func (r *ending) scope() []*ssa.Function {
	a := r.c.serving()
	request := map[*ssa.Function]bool{}
	for _, x := range a.order {
		if during(x.root) {
			request[x.fn] = true
		}
	}
	var l []*ssa.Function
	for _, fn := range r.c.P.Funcs {
		if fn.Synthetic != "" || len(fn.Blocks) == 0 {
			continue
		}
		switch pk := fnPkg(fn); {
		case request[fn]:
		case pk == nil || pk.Name() == "main" || r.c.P.funcIn(fn, "internal/server") || r.c.P.funcIn(fn, "internal/testutil"):
			continue
		}
		l = append(l, fn)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	return l
}

// holds: is it so where fn is analysed on its own, or else wherever it is called?
func (r *ending) holds(fn *ssa.Function, judge func(it *Interp) string, above map[*ssa.Function]bool) string {
	it := r.run(fn)
	var why string
	if len(it.Undec) > 0 {
		why = it.Undec[0]
	} else {
		why = judge(it)
	}
	if why == "" || above[fn] || len(above) > 6 {
		return why
	}
	cs := r.c.P.callers(fn)
	if len(cs) == 0 || r.c.P.exportedOrOther(fn) {
		return why
	}
	above[fn] = true
	defer delete(above, fn)
	for _, x := range cs {
		if w := r.holds(x.Parent(), judge, above); w != "" {
			return why
		}
	}
	return ""
}

func (c *Check) ends() {
	r := &ending{c: c, runs: map[*ssa.Function]*Interp{}}
	r.ranges = &fieldRanges{r, map[string]map[uint64]bool{}}
	l := r.scope()
	r.counts = r.counting(l)
	for _, fn := range l {
		c.ok("functions")
		r.waiting(fn)
		r.locking(fn)
		lo := (&Interp{P: c.P, loopsf: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}).loopsOf(fn)
		for h := range lo {
			why := r.holds(fn, func(it *Interp) string {
				for _, x := range it.Loops {
					if x.Header != h {
						continue
					}
					if w := r.endless(it, x); w != "" {
						return w
					}
				}
				return ""
			}, map[*ssa.Function]bool{})
			pos := firstPos(h)
			c.must(why == "", "loops end", relName(c.P, fn), pos, "this loop of %s may not end: %s", relName(c.P, fn), why)
		}
	}
	c.recursion(l)
}

// waiting: nothing is waited for but locks.
func (r *ending) waiting(fn *ssa.Function) {
	c := r.c
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			what := ""
			switch x := in.(type) {
			case *ssa.Send:
				what = "sends on a channel"
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					what = "receives from a channel"
				}
			case *ssa.Select:
				if x.Blocking {
					what = "waits for a channel"
				}
			case *ssa.Call:
				if f := x.Call.StaticCallee(); f != nil && waitCall.MatchString(f.String()) {
					what = "calls " + f.String() + ", which waits,"
				}
			default:
				continue
			}
			if what != "" {
				c.fail("waits:"+relName(c.P, fn), c.P.instrPos(in), "%s %s and may be kept waiting for ever", relName(c.P, fn), what)
			}
		}
	}
}

// locking: locks that are taken are released, and not taken again before that.
func (r *ending) locking(fn *ssa.Function) {
	c := r.c
	takes := false
	for _, x := range calls(fn) {
		if f := x.Common().StaticCallee(); f != nil && lockCall.MatchString(f.String()) {
			takes = true
		}
	}
	if !takes {
		return
	}
	why := r.holds(fn, func(it *Interp) string {
		for _, p := range it.Paths {
			held := map[string]*Event{}
			for _, e := range p.Events {
				k := ""
				if e.Addr != nil {
					k = e.Aux + fmt.Sprint(e.Addr.ID)
				}
				switch e.Kind {
				case EvLock:
					for _, h := range held {
						if h.Addr == e.Addr || sigOf(h.Addr) == sigOf(e.Addr) {
							return "a lock is taken that is held already, or while one of its kind is held"
						}
					}
					held[k] = e
				case EvUnlock:
					if held[k] == nil {
						return "a lock is released that is not held"
					}
					delete(held, k)
				case EvLoop:
					for _, b := range backsOf(e) {
						n := 0
						_, evs := lastRound(b)
						for _, x := range evs {
							switch x.Kind {
							case EvLock:
								n++
							case EvUnlock:
								n--
							}
						}
						if n != 0 {
							return "a lock is still held at the end of an iteration"
						}
					}
				}
			}
			if p.Out != OutBack && p.Out != OutExit && len(held) > 0 {
				return "a lock is not released on every path"
			}
		}
		return ""
	}, map[*ssa.Function]bool{})
	c.must(why == "", "locks are released", relName(c.P, fn), fn.Pos(), "%s: %s", relName(c.P, fn), why)
}

var lockCall = regexp.MustCompile(`^\(\*sync\.(RW)?Mutex\)\.R?Lock$`)

// recursion: no function is called again before it has ended.
func (c *Check) recursion(l []*ssa.Function) {
	in := map[*ssa.Function]bool{}
	for _, fn := range l {
		in[fn] = true
	}
	state := map[*ssa.Function]int{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		state[fn] = 1
		for _, x := range calls(fn) {
			f := x.Common().StaticCallee()
			if f == nil || !in[f] {
				continue
			}
			switch state[f] {
			case 0:
				visit(f)
			case 1:
				c.fail("recursion:"+relName(c.P, f), x.Pos(), "%s may call itself, and nothing is known to bound how often", relName(c.P, f))
			}
		}
		state[fn] = 2
	}
	for _, fn := range l {
		if state[fn] == 0 {
			visit(fn)
		}
	}
}

func init() {
	register(&checkDef{
		id:     "C47",
		run:    (*Check).ends,
		rule:   "Every loop of the functions that handle requests, keep records and counters, summarise, parse and compile has a ranking argument: on every path that begins another iteration a quantity that is known not to be negative there falls, which no other iteration raises (found from the branch conditions and index expressions of the iteration, in lexicographic order); or something is taken from an input that ends; or the iteration is impossible if no other goroutine changes the words that it loads (it would find the same value each time, even for a word that counts updates, and an exchange would succeed); nothing but locks is waited for, and these are released on every path",
		assume: []string{"the body of a request ends or fails, as the readers of net/http do", "an iteration over floating-point numbers that stops when the number no longer changes converges", "the scheduler lets every goroutine go on"},
		floor:  map[string]int{"functions": 60, "loops end": 25, "locks are released": 2},
	})
}

// wordOf names a word: the field of a type that it is, wherever it is.
func wordOf(a *Term) string {
	if a.Op == "fa" {
		return "." + types.TypeString(a.Typ, nil) + "#" + a.Aux
	}
	return sigOf(a)
}
