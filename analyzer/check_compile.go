package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The layout of a collation: C15, C16, C17, C29.
//
// A collation holds lists of entries, each a range of the record and a function: what
// initialises, writes and reads the measures. Schema.Compile fills the lists, Collator.Update
// and Collator.Read go through them. The three are analysed together, with the lists told
// apart by the types of the functions in their entries.

// implementers are the types of the module, by value, that implement an interface of it.
func (c *Check) implementers(in *types.Interface) []types.Type {
	var l []types.Type
	for _, pk := range c.P.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
				continue
			}
			if types.Implements(tn.Type(), in) {
				l = append(l, tn.Type())
			}
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	return l
}

// iface finds an interface type of a package.
func (c *Check) iface(rel, name string) *types.Interface {
	sp := c.P.Pkg(rel)
	if sp == nil {
		return nil
	}
	tn, ok := sp.Pkg.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return nil
	}
	in, _ := tn.Type().Underlying().(*types.Interface)
	return in
}

// splitMeasures: the types that a measure can have.
func (c *Check) splitMeasures(v *Term, typ types.Type) []types.Type {
	in, ok := typ.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	m := c.iface(collPkg, "Measure")
	if m == nil || !types.Implements(typ, m) {
		return nil
	}
	return c.implementers(in)
}

// timeless takes the versions of memory out of a term: for memory that does not change.
func timeless(t *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(t *Term) *Term {
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		r := t
		switch t.Op {
		case "load":
			r = mkLoad(args[0], "", t.Typ)
		case "mapval", "mapok", "strof":
			r = mk(t.Op, "", t.W, args...)
			if r.Typ == nil {
				r.Typ = t.Typ
			}
		default:
			if ch {
				r = rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// elemOf is the element at an index of a list, and fieldOf a field of a structure.
func elemOf(list, idx *Term) *Term {
	s, ok := list.Typ.Underlying().(*types.Slice)
	if !ok {
		return list
	}
	b, o, _ := sliceParts(list)
	return mkLoad(mkIA(b, iadd(o, idx), s.Elem()), "", s.Elem())
}

func fieldNamed(v *Term, typ types.Type, name string) *Term {
	s := structOf(typ)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return mkField(v, i, s.Field(i).Type())
		}
	}
	return nil
}

// kind is a way in which a measure is used.
type kind struct {
	name, iface, method string
	sig                 string
	writes              bool
}

var kinds = []*kind{
	{name: "initialiser", iface: "Initializer", method: "Init", sig: "func([]byte) error"},
	{name: "row writer", iface: "RowMeasure", method: "RowWriter", sig: "func([]byte, bool) error", writes: true},
	{name: "continuous writer", iface: "ContinuousInput", method: "ContWriter", sig: "func([]byte, bool, float64) error", writes: true},
	{name: "discrete writer", iface: "DiscreteInput", method: "DiscWriter", sig: "func([]byte, bool, []byte) error", writes: true},
	{name: "continuous reader", iface: "ContinuousOutput", method: "ContReader", sig: "func([]byte) (float64, error)"},
	{name: "discrete reader", iface: "DiscreteOutput", method: "DiscReader", sig: "func([]byte) ([]byte, error)"},
}

const (
	kInit = iota
	kRow
	kContW
	kDiscW
	kContR
	kDiscR
)

func sigString(t types.Type) string {
	s, ok := t.Underlying().(*types.Signature)
	if !ok {
		return ""
	}
	var ps, rs []string
	for i := 0; i < s.Params().Len(); i++ {
		ps = append(ps, s.Params().At(i).Type().String())
	}
	for i := 0; i < s.Results().Len(); i++ {
		rs = append(rs, s.Results().At(i).Type().String())
	}
	r := strings.Join(rs, ", ")
	if len(rs) != 1 {
		r = "(" + r + ")"
	}
	return "func(" + strings.Join(ps, ", ") + ") " + r
}

func kindOf(t types.Type) int {
	s := sigString(t)
	for i, k := range kinds {
		if s == k.sig {
			return i
		}
	}
	return -1
}

// role: where the collation keeps the entries of a kind.
type role struct {
	k     int
	field int // of the collation
	depth int // 0: a list, 1: lists by field, 2: entries by field and measure
	typ   types.Type
	entry types.Type
	fn    int // field of an entry that holds the function
	phi   []*Term
	off   *Term // range of the entry's data, in terms of phi
	n     *Term
}

// layout is the joint analysis.
type layout struct {
	c     *Check
	coll  types.Type
	st    *types.Struct
	roles []*role // by kind; nil if there is none
	size  int     // field of the collation that holds the size of a record, or -1
	meas  []types.Type
	inits map[*Path]map[*Event]bool
	// for each way to compile a schema, the loops over all measures of all fields that end only
	// when none is left
	ways [][][]*iter
}

// on: does the check at hand decide this?
func (l *layout) on(ids string) bool {
	for _, s := range strings.Fields(ids) {
		if s == l.c.ID {
			return true
		}
	}
	return false
}

func (l *layout) must(ids string, cond bool, rule, key string, pos token.Pos, f string, a ...interface{}) bool {
	if l.on(ids) {
		l.c.must(cond, rule, key, pos, f, a...)
	}
	return cond
}

func (l *layout) implements(t types.Type, k int) bool {
	in := l.c.iface(collPkg, kinds[k].iface)
	return in != nil && types.Implements(t, in)
}

// newLayout finds where a collation keeps what.
func (c *Check) newLayout() *layout {
	l := &layout{c: c, roles: make([]*role, len(kinds)), size: -1}
	sp := c.P.Pkg(collPkg)
	if sp == nil {
		c.fail("anchor:"+collPkg, token.NoPos, "package %s not found", collPkg)
		return nil
	}
	tn, _ := sp.Pkg.Scope().Lookup("Collator").(*types.TypeName)
	if tn == nil || structOf(tn.Type()) == nil {
		c.fail("anchor:Collator", token.NoPos, "the type of collations is not found")
		return nil
	}
	l.coll, l.st = tn.Type(), structOf(tn.Type())
	in := c.iface(collPkg, "Measure")
	if in == nil {
		c.fail("anchor:Measure", token.NoPos, "the type of measures is not found")
		return nil
	}
	l.meas = c.implementers(in)
	for _, k := range kinds {
		if c.iface(collPkg, k.iface) == nil {
			c.fail("anchor:"+k.iface, token.NoPos, "the interface %s is not found", k.iface)
			return nil
		}
	}
	for i := 0; i < l.st.NumFields(); i++ {
		r := &role{field: i, typ: l.st.Field(i).Type()}
		t := r.typ
		for {
			if m, ok := t.Underlying().(*types.Map); ok && isString(m.Key()) {
				t = m.Elem()
				r.depth++
				continue
			}
			break
		}
		if s, ok := t.Underlying().(*types.Slice); ok {
			t = s.Elem()
		} else if r.depth != 2 {
			continue
		}
		es := structOf(t)
		if es == nil {
			continue
		}
		r.entry, r.fn = t, -1
		for j := 0; j < es.NumFields(); j++ {
			r.phi = append(r.phi, leaf(fmt.Sprintf("layout.phi%d.%d", i, j), es.Field(j).Type(), &Def{Kind: "param", Index: j, Name: es.Field(j).Name()}))
			if k := kindOf(es.Field(j).Type()); k >= 0 {
				r.fn, r.k = j, k
			}
		}
		if r.fn < 0 {
			continue
		}
		if l.roles[r.k] != nil {
			c.fail("roles", tn.Pos(), "a collation has more than one collection of %ss", kinds[r.k].name)
			return nil
		}
		l.roles[r.k] = r
	}
	for k := range kinds {
		need := false
		for _, t := range l.meas {
			need = need || l.implements(t, k)
		}
		if need && l.roles[k] == nil {
			c.fail("roles", tn.Pos(), "a collation has nowhere to keep the %ss of its measures", kinds[k].name)
			return nil
		}
	}
	return l
}

// ---- use: dynamic calls through the entries

// entryField gives the fields of the structure of which t is field i.
func entryField(t *Term, i int) func(j int, typ types.Type) *Term {
	if t.Op == "field" && t.Aux == strconv.Itoa(i) {
		v := t.Args[0]
		return func(j int, typ types.Type) *Term { return timeless(mkField(v, j, typ)) }
	}
	if a := loadAddr(t); a != nil && a.Op == "fa" && a.Aux == strconv.Itoa(i) {
		b, st := a.Args[0], a.Typ
		return func(j int, typ types.Type) *Term { return timeless(mkLoad(mkFA(b, j, st), "", typ)) }
	}
	return nil
}

// entrySource is the entry of which t is field i: its value.
func entrySource(t *Term, i int, typ types.Type) *Term {
	if t.Op == "field" && t.Aux == strconv.Itoa(i) {
		return timeless(t.Args[0])
	}
	if a := loadAddr(t); a != nil && a.Op == "fa" && a.Aux == strconv.Itoa(i) {
		return timeless(mkLoad(a.Args[0], "", typ))
	}
	return nil
}

// use is a call of the function of an entry.
type use struct {
	ev  *Event
	r   *role
	src *Term // the entry
}

// use interprets a dynamic call; buf is the record.
func (l *layout) use(ids, who string, e *Event, buf *Term) *use {
	if e.Sig == nil || e.Val == nil {
		return nil
	}
	k := kindOf(e.Sig)
	if k < 0 || l.roles[k] == nil {
		return nil
	}
	r := l.roles[k]
	get := entryField(e.Val, r.fn)
	if get == nil || len(e.Args) == 0 {
		return nil
	}
	u := &use{e, r, entrySource(e.Val, r.fn, r.entry)}
	b, o, n := sliceParts(e.Args[0])
	bb, bo, _ := sliceParts(buf)
	es := structOf(r.entry)
	m := map[*Term]*Term{}
	for j := 0; j < es.NumFields(); j++ {
		m[get(j, es.Field(j).Type())] = r.phi[j]
	}
	o, n = subst(timeless(isub(o, bo)), m), subst(timeless(n), m)
	only := func(t *Term) bool {
		good := true
		subterms(t, func(s *Term) bool {
			if s.Op == "leaf" || s.Op == "load" || s.Op == "field" || s.Op == "mapval" {
				in := false
				for _, p := range r.phi {
					in = in || p == s
				}
				good = good && in
				return false
			}
			return good
		})
		return good
	}
	if !l.must(ids, b == bb && only(o) && only(n), "entry gets its range", who+":"+kinds[k].name, e.Pos, "a %s is not given the range of its own entry in the record", kinds[k].name) {
		return u
	}
	if r.off == nil {
		r.off, r.n = o, n
	}
	l.must(ids, r.off == o && r.n == n, "entry gets its range", who+":"+kinds[k].name, e.Pos, "the range of an entry is taken in different ways")
	return u
}

// list is the list, or map entry, from which a role's entries are taken, by field.
func (l *layout) container(r *role, coll *Term) *Term {
	return timeless(mkField(coll, r.field, r.typ))
}

// missing: is it known that the map m has no key k?
func missing(p *Path, evs []*Event, m, k *Term) bool {
	for _, e := range evs {
		if e.Kind == EvLookup && timeless(e.Args[0]) == m && timeless(e.Args[1]) == k && len(e.Res) > 0 &&
			(len(e.Res) > 1 && isFalse(p.Facts, e.Res[1]) || nilable(e.Res[0].Typ) && isTrue(p.Facts, beq(e.Res[0], tNil))) {
			return true
		}
	}
	return false
}

func nilable(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Map, *types.Slice, *types.Pointer, *types.Signature, *types.Interface, *types.Chan:
		return true
	}
	return false
}

// empty: is it known that the list, or map, has no entries?
func empty(p *Path, list *Term) bool {
	for y := p.Facts; y != nil; y = y.up {
		if y.cond == nil {
			continue
		}
		hit := false
		subterms(y.cond, func(s *Term) bool {
			if (s.Op == "len" || s.Op == "maplen") && timeless(s.Args[0]) == list {
				hit = hit || isFalse(p.Facts, bslt(mkInt(64, 0), s))
			}
			if timeless(s) == list && s.Op == "mapval" {
				hit = hit || isTrue(p.Facts, beq(s, mk("nil", "", 0)))
			}
			return !hit
		})
		if hit {
			return true
		}
	}
	return false
}

func (l *layout) isDyn(e *Event) bool { return e.Kind == EvCall && e.Name == "dynamic" }

// update checks Collator.Update.
func (l *layout) update() {
	c := l.c
	fn := c.fn(collPkg, "Collator.Update")
	if fn == nil {
		return
	}
	who := relName(c.P, fn)
	it := c.run(fn, &Config{})
	if len(it.Params) != 4 {
		c.fail("anchor:"+who, fn.Pos(), "unexpected parameters")
		return
	}
	coll, row, buf, init := it.Params[0], it.Params[1], it.Params[2], it.Params[3]
	uses := map[*Event]*use{}
	buf0, _, _ := sliceParts(buf)
	for _, p := range it.Paths {
		if p.Out != OutReturn && p.Out != OutBack {
			c.fail("end:"+who, p.Pos, "it may end in a %s", p.Out)
		}
		for _, e := range p.Events {
			if uses[e] != nil {
				continue
			}
			if e.Kind == EvCall && e.Name != "strconv.ParseFloat" {
				u := (*use)(nil)
				if l.isDyn(e) {
					u = l.use("C15 C16 C17", who, e, buf)
				}
				if u != nil {
					uses[e] = u
					continue
				}
				for _, a := range e.Args {
					if rootOf(first3(sliceParts(a))) == buf0 {
						l.must("C15 C16 C17 C18 C19", false, "entry gets its range", who, e.Pos, "the record is given to something other than the functions of the collation")
					}
				}
				if l.isDyn(e) {
					l.must("C15 C16 C17 C18 C19", false, "entry gets its range", who, e.Pos, "a function is called that is not of an entry of the collation")
				}
			}
		}
	}
	kindsIn := func(e *Event) map[int]bool {
		m := map[int]bool{}
		for _, b := range backsOf(e) {
			for _, x := range flatten(after(b.Events, e)) {
				if u := uses[x]; u != nil {
					m[u.r.k] = true
				}
			}
		}
		return m
	}
	data := timeless(fieldNamed(row, row.Typ, "Data"))
	good := 0
	for _, p := range it.Paths {
		if p.Out != OutReturn || len(p.Ret) != 1 || errNonNil(p.Facts, p.Ret[0]) {
			continue
		}
		good++
		in, known := p.Facts.decide(init)
		started := false // a writer has run
		zeroed, inited := false, false
		served := map[int]int{}
		evs := p.Events
		for i, e := range evs {
			if e.Kind == EvStore && rootOf(e.Addr) == buf0 {
				l.must("C17 C18 C19", known && in && !started && !inited, "record changed by its measures only", who, e.Pos, "the record is changed otherwise than by its measures")
			}
			if e.Kind == EvCopy {
				if b, _, _ := sliceParts(e.Args[0]); rootOf(b) == buf0 {
					l.must("C17 C18 C19", known && in && !started && !inited, "record changed by its measures only", who, e.Pos, "the record is changed otherwise than by its measures")
				}
			}
			if u := uses[e]; u != nil {
				l.must("C16 C17 C18 C19", false, "each entry once", who, e.Pos, "a %s is called apart from the others", kinds[u.r.k].name)
			}
			if e.Kind != EvLoop {
				continue
			}
			ks := kindsIn(e)
			stores := false
			for _, b := range backsOf(e) {
				for _, x := range flatten(after(b.Events, e)) {
					if x.Kind == EvStore && rootOf(x.Addr) == buf0 {
						stores = true
					}
				}
			}
			if stores {
				l.must("C17 C18 C19", known && in && !started && !inited, "record changed by its measures only", who, e.Pos, "the record is changed otherwise than by its measures")
			}
			if len(ks) == 0 {
				continue
			}
			if ks[kInit] {
				l.must("C17 C18 C19", known && in, "initialised only when new", who, e.Pos, "measures are initialised although the record is not new")
				l.must("C17 C18 C19", !started && len(ks) == 1, "initialised first", who, e.Pos, "measures are initialised after observations were applied")
				for _, z := range zeroFills(c.P, evs[:i]) {
					b, o, n := sliceParts(buf)
					if z.base == b && z.off == o && z.n == n {
						zeroed = true
					}
				}
				l.must("C17 C18 C19", !inited, "initialised only when new", who, e.Pos, "measures are initialised twice")
				inited = l.entries("C17 C18 C19", who, e, evs[i:], l.container(l.roles[kInit], coll), uses, kInit, nil)
				continue
			}
			started = true
			if ks[kRow] {
				served[kRow]++
				l.must("C16 C18 C19", len(ks) == 1, "each entry once", who, e.Pos, "measures of the row are mixed up with those of fields")
				l.entries("C16 C17 C18 C19", who, e, evs[i:], l.container(l.roles[kRow], coll), uses, kRow, nil)
				continue
			}
			// over the fields
			idx, _, why := rangeLoop(e, evs[i:], func(t *Term) bool { return timeless(t) == data })
			if !l.must("C16 C18 C19", why == "", "every field", who, e.Pos, "not every field of the observation is applied: %s", why) {
				continue
			}
			for k := range ks {
				served[k]++
				for _, b := range backsOf(e) {
					l.fieldUse(who, b, e, timeless(elemOf(data, idx)), coll, uses, k)
				}
			}
		}
		if !known || in {
			l.must("C17 C18 C19", inited, "new records are initialised", who, p.Pos, "the measures of a new record may not be initialised")
			l.must("C17 C18 C19", zeroed || !inited, "new records are initialised", who, p.Pos, "a new record is not cleared before its measures are initialised")
		}
		for _, k := range []int{kRow, kContW, kDiscW} {
			if l.roles[k] != nil {
				l.must("C16 C18 C19", served[k] == 1, "each entry once", who+":"+kinds[k].name, p.Pos, "%ss are applied %d times", kinds[k].name, served[k])
			}
		}
	}
	l.must("C16 C17 C18 C19", good > 0, "updates", who, fn.Pos(), "no update succeeds")
}

// entries checks the loop entered by e: the function of every entry of the list is called once.
func (l *layout) entries(ids, who string, e *Event, after_ []*Event, list *Term, uses map[*Event]*use, k int, arg func(b *Path, evs []*Event, u *use) string) bool {
	name := kinds[k].name
	idx, _, why := rangeLoop(e, after_, func(t *Term) bool { return timeless(t) == list })
	if !l.must(ids, why == "", "every entry", who+":"+name, e.Pos, "not every %s is called: %s", name, why) {
		return false
	}
	want := timeless(elemOf(list, idx))
	good := true
	for _, b := range backsOf(e) {
		n := 0
		evs := after(b.Events, e)
		for _, x := range flatten(evs) {
			u := uses[x]
			if u == nil {
				continue
			}
			n++
			good = l.must(ids, u.r.k == k && u.src == want, "every entry", who+":"+name, x.Pos, "the %s called is not the one at hand", name) && good
			if kinds[k].writes {
				good = l.must("C17 C18 C19", isFalse(x.Facts, x.Args[1]), "not initialised again", who+":"+name, x.Pos, "a %s is told to start afresh", name) && good
			}
			if arg != nil {
				w := arg(b, evs, u)
				good = l.must(ids, w == "", "given the value observed", who+":"+name, x.Pos, "a %s is given something else than the value observed: %s", name, w) && good
			}
		}
		good = l.must(ids, n == 1, "every entry", who+":"+name, e.Pos, "a %s is called %d times", name, n) && good
	}
	return good
}

// fieldUse: in an iteration over the fields of an observation, every writer of that kind for the
// field is called with its value.
func (l *layout) fieldUse(who string, b *Path, e *Event, fv *Term, coll *Term, uses map[*Event]*use, k int) {
	c := l.c
	evs := after(b.Events, e)
	f := fieldNamed(fv, fv.Typ, "F")
	v := fieldNamed(fv, fv.Typ, "V")
	if f == nil || v == nil {
		c.fail("anchor:FV", e.Pos, "the fields of an observation have an unexpected type")
		return
	}
	r := l.roles[k]
	name := kinds[k].name
	m := l.container(r, coll)
	key := mk("strof", "", 0, timeless(f))
	mt, _ := r.typ.Underlying().(*types.Map)
	if mt == nil {
		c.fail("roles:"+name, e.Pos, "the %ss are not kept by field", name)
		return
	}
	list := mkT("mapval", "", mt.Elem(), m, key)
	loops := 0
	for i, x := range evs {
		if x.Kind != EvLoop {
			if u := uses[x]; u != nil && u.r.k == k {
				l.must("C16 C18 C19", false, "each entry once", who+":"+name, x.Pos, "a %s is called apart from the others", name)
			}
			continue
		}
		mine := false
		for _, bb := range backsOf(x) {
			for _, y := range flatten(after(bb.Events, x)) {
				if u := uses[y]; u != nil && u.r.k == k {
					mine = true
				}
			}
		}
		if !mine {
			continue
		}
		loops++
		l.entries("C16 C18 C19", who, x, evs[i:], list, uses, k, func(bb *Path, in []*Event, u *use) string {
			a := u.ev.Args[len(u.ev.Args)-1]
			if k == kDiscW {
				if timeless(a) != timeless(v) {
					return "not the value of the field"
				}
				return ""
			}
			for _, y := range bb.Events {
				if y.Kind == EvCall && y.Name == "strconv.ParseFloat" && len(y.Res) == 2 && y.Res[0] == a {
					if timeless(stripConv(y.Args[0])) != timeless(v) {
						return "it is parsed from something else"
					}
					if !y.Args[1].isConstInt(64) {
						return "it is parsed with less than full precision"
					}
					if !errNil(bb.Facts, y.Res[1]) {
						return "parsing may have failed"
					}
					return ""
				}
			}
			return "not the number parsed from the field"
		})
	}
	l.must("C16 C18 C19", loops == 1 || loops == 0 && (missing(b, evs, m, key) || empty(b, list)), "every field", who+":"+name, e.Pos, "the %ss of a field may not be called for it", name)
}

// ---- reading

// read checks Collator.Read.
func (l *layout) read() {
	c := l.c
	fn := c.fn(collPkg, "Collator.Read")
	if fn == nil {
		return
	}
	who := relName(c.P, fn)
	it := c.run(fn, &Config{})
	if len(it.Params) != 3 {
		c.fail("anchor:"+who, fn.Pos(), "unexpected parameters")
		return
	}
	coll, fml, buf := it.Params[0], it.Params[1], it.Params[2]
	buf0, _, _ := sliceParts(buf)
	uses := map[*Event]*use{}
	for _, p := range it.Paths {
		if p.Out != OutReturn && p.Out != OutBack {
			c.fail("end:"+who, p.Pos, "it may end in a %s", p.Out)
		}
		for _, e := range p.Events {
			if uses[e] != nil {
				continue
			}
			switch {
			case l.isDyn(e):
				if u := l.use("C15 C29", who, e, buf); u != nil {
					uses[e] = u
				} else {
					l.must("C15 C29", false, "entry gets its range", who, e.Pos, "a function is called that is not of an entry of the collation")
				}
			case e.Kind == EvCall:
				for _, a := range e.Args {
					l.must("C29", rootOf(first3(sliceParts(a))) != buf0, "record only read", who, e.Pos, "the record is given to something other than the readers of the collation")
				}
			case e.Kind == EvStore:
				l.must("C29", rootOf(e.Addr) != buf0, "record only read", who, e.Pos, "the record is changed")
			}
		}
	}
	if !l.on("C29") {
		return
	}
	fl := timeless(fml)
	good := 0
	for _, p := range it.Paths {
		if p.Out != OutReturn || len(p.Ret) != 2 || errNonNil(p.Facts, p.Ret[1]) {
			continue
		}
		good++
		var outer *Event
		for i, e := range p.Events {
			if u := uses[e]; u != nil {
				c.fail("every measure:"+who, e.Pos, "a measure is read apart from the others")
			}
			if e.Kind != EvLoop {
				continue
			}
			reads := false
			for _, x := range flatten(p.Events[i:]) {
				reads = reads || uses[x] != nil
			}
			if !reads {
				continue
			}
			if outer != nil {
				continue // of what follows
			}
			idx, _, why := rangeLoop(e, p.Events[i:], func(t *Term) bool { return timeless(t) == fl })
			if !c.must(why == "", "every measure", who, e.Pos, "not every field asked for is considered: %s", why) {
				continue
			}
			outer = e
			res := fieldNamed(p.Ret[0], p.Ret[0].Typ, "FieldMeasureValues")
			if !c.must(res != nil && e.Init[res] != nil, "every measure", who, p.Pos, "what is returned is not what the loop over the fields has gathered") {
				continue
			}
			c.must(isNilTerm(e.Init[res]) || mkLen(e.Init[res]).isConstInt(0), "nothing else", who, e.Pos, "the result does not start empty")
			for _, b := range backsOf(e) {
				l.readField(who, b, e, res, timeless(elemOf(fl, idx)), coll, uses)
			}
		}
		c.must(outer != nil, "every measure", who, p.Pos, "nothing is read")
	}
	c.must(good > 0, "reads", who, fn.Pos(), "no read succeeds")
}

// readField checks an iteration over the fields asked for: every measure of fm is looked up and
// appended.
func (l *layout) readField(who string, b *Path, e *Event, res, fm, coll *Term, uses map[*Event]*use) {
	c := l.c
	evs := after(b.Events, e)
	f, ms := fieldNamed(fm, fm.Typ, "F"), fieldNamed(fm, fm.Typ, "M")
	if f == nil || ms == nil {
		c.fail("anchor:FM", e.Pos, "the fields of a query have an unexpected type")
		return
	}
	key := mk("strof", "", 0, timeless(f))
	cur := res
	looped := map[int]bool{}
	for i, x := range evs {
		if u := uses[x]; u != nil {
			c.fail("every measure:"+who, x.Pos, "a measure is read apart from the others")
		}
		if x.Kind == EvAppend && contains(x.Args[0], cur) {
			c.fail("nothing else:"+who, x.Pos, "something is added to the result that is not a measure that was read")
		}
		if x.Kind != EvLoop {
			continue
		}
		k := -1
		for _, y := range flatten(evs[i:]) {
			if u := uses[y]; u != nil && k < 0 && inLoop(x, y) {
				k = u.r.k
			}
		}
		if k < 0 {
			continue
		}
		looped[k] = true
		var in *Term
		for t, init := range x.Init {
			if init == cur {
				if nx := nextsOf(x, t); nx {
					in = t
				}
			}
		}
		if !c.must(in != nil, "every measure", who, x.Pos, "what is read is not added to the result") {
			continue
		}
		cur = in
		idx, _, why := rangeLoop(x, evs[i:], func(t *Term) bool { return timeless(t) == timeless(ms) })
		if !c.must(why == "", "every measure", who, x.Pos, "not every measure asked for is considered: %s", why) {
			continue
		}
		r := l.roles[k]
		one := mkT("mapval", "", nil, l.container(r, coll), key)
		name := timeless(elemOf(timeless(ms), idx))
		for _, bb := range backsOf(x) {
			in := after(bb.Events, x)
			var u *use
			n := 0
			for _, y := range flatten(in) {
				if uses[y] != nil {
					u = uses[y]
					n++
				}
			}
			nk := mk("strof", "", 0, name)
			if n == 0 {
				c.must(bb.Next[cur] == cur, "nothing else", who, x.Pos, "something is added to the result that is not a measure that was read")
				c.must(missing(bb, in, l.container(r, coll), key) || missing(bb, in, one, nk), "every measure", who, x.Pos, "a measure that the collation has may be left out")
				continue
			}
			src := mk("mapval", "", 0, one, nk)
			if !c.must(n == 1 && u.r.k == k && u.src == src, "the reader asked for", who, u.ev.Pos, "what is read is not the measure of the field that is asked for") {
				continue
			}
			c.must(found(bb, in, one, nk), "the reader asked for", who, u.ev.Pos, "a measure is read that the collation may not have")
			c.must(errNil(bb.Facts, u.ev.Res[1]), "every measure", who, u.ev.Pos, "reading goes on although a measure could not be read")
			nx := bb.Next[cur]
			if !c.must(nx != nil && nx.Op == "append" && len(nx.Args) == 2 && nx.Args[0] == cur, "every measure", who, u.ev.Pos, "a measure that was read is not added to the result, once and after those before it") {
				continue
			}
			a := nx.Args[1]
			af, am, av := fieldNamed(a, a.Typ, "F"), fieldNamed(a, a.Typ, "M"), fieldNamed(a, a.Typ, "V")
			ok := af != nil && am != nil && av != nil && timeless(af) == timeless(f) && timeless(am) == name
			c.must(ok, "labelled", who, u.ev.Pos, "a value is labelled with something else than the field and the measure it was read for")
			ok = av != nil && av.Op == "iface" && av.Args[0] == u.ev.Res[0]
			c.must(ok, "value as read", who, u.ev.Pos, "the value reported is not what the reader of the measure gave: %s", av)
		}
	}
	c.must(b.Next[res] == cur, "every measure", who, e.Pos, "what is read for a field is not kept")
	for _, k := range []int{kContR, kDiscR} {
		if l.roles[k] == nil || looped[k] || !l.used(k) {
			continue
		}
		m := l.container(l.roles[k], coll)
		c.must(missing(b, evs, m, key) || empty(b, mk("mapval", "", 0, m, key)), "every measure", who+":"+kinds[k].name, e.Pos, "the measures of a field may be left out")
	}
}

// used: does any measure use this kind?
func (l *layout) used(k int) bool {
	for _, t := range l.meas {
		if l.implements(t, k) {
			return true
		}
	}
	return false
}

func inLoop(e, x *Event) bool {
	for _, b := range backsOf(e) {
		for _, y := range flatten(after(b.Events, e)) {
			if x == y {
				return true
			}
		}
	}
	return false
}

func nextsOf(e *Event, t *Term) bool {
	for _, b := range backsOf(e) {
		if b.Next[t] == nil {
			return false
		}
	}
	return true
}

// found: is it known that the map m has the key k?
func found(p *Path, evs []*Event, m, k *Term) bool {
	for _, e := range evs {
		if e.Kind == EvLookup && timeless(e.Args[0]) == m && timeless(e.Args[1]) == k && len(e.Res) > 0 &&
			(len(e.Res) > 1 && isTrue(p.Facts, e.Res[1]) || nilable(e.Res[0].Typ) && isFalse(p.Facts, beq(e.Res[0], tNil))) {
			return true
		}
	}
	return false
}

// ---- compiling

// entry is an entry made for a measure.
type entry struct {
	r      *role
	keys   []*Term
	val    *Term
	off, n *Term
	fn     *Term
	pos    token.Pos
}

// iter is an iteration over the measures of a schema.
type iter struct {
	l    *layout
	b    *Path
	e    *Event // the loop
	m    *Term  // the measure
	t    types.Type
	key  *Term // the field it belongs to
	row  bool
	ents []*entry
	pos  token.Pos
	// loops over all measures of all fields: in each, this one went through one of the iterations
	valid [][]*iter
}

// factory: a method that gives the function of a measure.
func (l *layout) factory(fn *ssa.Function) bool {
	sig := fn.Signature
	if sig.Recv() == nil || sig.Params().Len() != 0 || sig.Results().Len() != 1 {
		return false
	}
	for _, k := range kinds {
		if k.method == fn.Name() && k.method != "Init" && sigString(sig.Results().At(0).Type()) == k.sig {
			return true
		}
	}
	return false
}

// compile checks Schema.Compile.
func (l *layout) compile() {
	c := l.c
	if l.size < 0 {
		if fn := c.fn(collPkg, "Collator.Size"); fn != nil {
			it := c.run(fn, &Config{})
			for _, p := range it.Paths {
				for i := 0; i < l.st.NumFields(); i++ {
					if len(p.Ret) == 1 && timeless(mkField(it.Params[0], i, l.st.Field(i).Type())) == timeless(p.Ret[0]) {
						l.size = i
					}
				}
			}
			if l.size < 0 {
				c.fail("anchor:size", fn.Pos(), "the size of a record is not a quantity of the collation")
				return
			}
		}
	}
	fn := c.fn(collPkg, "Schema.Compile")
	if fn == nil || l.size < 0 {
		return
	}
	who := relName(c.P, fn)
	it := c.run(fn, &Config{Split: c.splitMeasures, Opaque: l.factory})
	s := it.Params[0]
	ss := deref(s.Typ)
	sfield := func(n string) *Term {
		v := s
		if _, ptr := s.Typ.Underlying().(*types.Pointer); ptr {
			v = mkLoad(s, "", ss)
		}
		t := fieldNamed(v, ss, n)
		if t == nil {
			c.fail("anchor:Schema."+n, fn.Pos(), "a schema has no %s", n)
			return mk("nil", "", 0)
		}
		return timeless(t)
	}
	rec, mea, keys := sfield("RecordMeasures"), sfield("Measures"), sfield("Keys")
	if isNilTerm(rec) || isNilTerm(mea) || isNilTerm(keys) {
		return
	}
	rep := classes(it)
	handled := map[*Event]bool{} // updates of maps accounted for
	good := 0
	for _, p := range it.Paths {
		switch p.Out {
		case OutBack:
			continue
		case OutReturn:
		default:
			l.must("C16", false, "compiles or fails", who, p.Pos, "compiling may end in a %s", p.Out)
			continue
		}
		if len(p.Ret) != 2 || errNonNil(p.Facts, p.Ret[1]) {
			continue
		}
		good++
		coll := p.Ret[0]
		if !l.must("C15 C16 C17 C29", coll.Op == "agg", "collation is known", who, p.Pos, "what is returned is unclear") {
			continue
		}
		var rows, fields *Event
		var iters []*iter
		var valids [][]*iter
		for i, e := range p.Events {
			if e.Kind != EvLoop {
				continue
			}
			if idx, _, why := rangeLoop(e, p.Events[i:], func(t *Term) bool { return timeless(t) == rec }); why == "" && l.overMeasures(e, elemOf(rec, idx)) {
				l.must("C16", rows == nil, "every measure is compiled", who, e.Pos, "the measures of the row are compiled twice")
				rows = e
				for _, b := range backsOf(e) {
					iters = append(iters, &iter{l: l, b: b, e: e, m: timeless(elemOf(rec, idx)), row: true, pos: e.Pos})
				}
			}
			if idx, _, why := rangeLoop(e, p.Events[i:], func(t *Term) bool { return timeless(t) == mea }); why == "" {
				spec := timeless(elemOf(mea, idx))
				fs := fieldNamed(spec, spec.Typ, "Field")
				ms := fieldNamed(spec, spec.Typ, "Measures")
				var pat *Term
				if fs != nil {
					pat = fieldNamed(fs, fs.Typ, "Pattern")
				}
				if ms == nil || pat == nil {
					c.fail("anchor:MeasureSpec", e.Pos, "the measures of a field have an unexpected type")
					return
				}
				ms, pat = timeless(ms), timeless(pat)
				var mine []*iter
				any, every, valid := false, true, [][]*iter{}
				for _, b := range backsOf(e) {
					var inner *Event
					var first []*iter
					evs := after(b.Events, e)
					for j, x := range evs {
						if x.Kind != EvLoop {
							continue
						}
						k, _, w := rangeLoop(x, evs[j:], func(t *Term) bool { return timeless(t) == ms })
						if w != "" || !l.overMeasures(x, elemOf(ms, k)) {
							continue
						}
						var its []*iter
						for _, bb := range backsOf(x) {
							its = append(its, &iter{l: l, b: bb, e: x, m: timeless(elemOf(ms, k)), key: pat, pos: x.Pos})
						}
						if !l.registers(x) {
							if first == nil {
								first = its
							}
							continue
						}
						l.must("C16", inner == nil, "every measure is compiled", who, x.Pos, "the measures of a field are compiled twice")
						inner = x
						mine = append(mine, its...)
					}
					if inner == nil && empty(b, ms) {
						continue
					}
					valid = append(valid, first)
					any, every = any || inner != nil, every && inner != nil
				}
				all := []*iter{}
				for _, f := range valid {
					if f == nil {
						all = nil
						break
					}
					all = append(all, f...)
				}
				if all != nil {
					// what is done to every measure of every field beforehand
					valids = append(valids, all)
				}
				if !any {
					continue
				}
				l.must("C16", fields == nil, "every measure is compiled", who, e.Pos, "the measures of fields are compiled twice")
				fields = e
				l.must("C16", every, "every measure is compiled", who, e.Pos, "not every measure of a field is compiled")
				iters = append(iters, mine...)
			}
		}
		for _, x := range iters {
			if !x.row {
				x.valid = append(x.valid, valids...)
			}
		}
		if !l.must("C16", rows != nil || empty(p, rec), "every measure is compiled", who, p.Pos, "not every measure of the row is compiled") ||
			!l.must("C16", fields != nil || empty(p, mea), "every measure is compiled", who, p.Pos, "not every field is compiled") {
			continue
		}
		l.ways = append(l.ways, append([][]*iter{iters}, valids...))
		l.keysOf(who, p, keys)
		// how the collation comes about
		added := map[*Path][]*entry{}
		for _, k := range []int{kInit, kRow} {
			r := l.roles[k]
			if r == nil {
				continue
			}
			if w := l.gather(r, coll.Args[r.field], p.Events, nil, nil, added, map[string]bool{}); w != "" {
				l.must("C15 C16 C17", false, "entries are kept", who+":"+kinds[k].name, p.Pos, "%s", w)
			} else {
				l.must("C15 C16 C17", true, "entries are kept", who, p.Pos, "")
			}
		}
		zs := map[*LoopInfo]*Term{}
		if w := cursor(coll.Args[l.size], p.Events, nil, zs); w != "" {
			l.must("C15", false, "size is gathered", who, p.Pos, "the size of a record is not the sum of what its measures take: %s", w)
			zs = nil
		}
		mine := map[*Path]bool{}
		for _, x := range iters {
			mine[x.b] = true
			x.ents = added[x.b]
			l.mapEntries(x, coll, handled)
		}
		for b, es := range added {
			if !mine[b] {
				l.must("C15 C16 C17", false, "entries are kept", who, es[0].pos, "there is a %s that is not for a measure of the schema", kinds[es[0].r.k].name)
			}
		}
		for _, x := range iters {
			x.check(who, it, zs, rep, iters)
		}
	}
	l.must("C16", good > 0, "compiles or fails", who, fn.Pos(), "no schema can be compiled")
	// nothing else touches the maps
	for _, p := range it.Paths {
		for _, e := range p.Events {
			if (e.Kind == EvMapUpd || e.Kind == EvMapDel) && !handled[e] && l.roleMap(e.Args[0]) {
				l.must("C16 C29", false, "entries are kept", who, e.Pos, "the entries of a collation are changed other than by adding those of a measure")
			}
		}
	}
}

// registers: is an entry made in the loop?
func (l *layout) registers(e *Event) bool {
	for _, b := range backsOf(e) {
		for _, x := range flatten(after(b.Events, e)) {
			if x.Kind == EvMapUpd && l.roleMap(x.Args[0]) {
				return true
			}
		}
	}
	return false
}

// overMeasures: does the loop entered by e tell the types of m apart?
func (l *layout) overMeasures(e *Event, m *Term) bool {
	m = timeless(m)
	for _, b := range backsOf(e) {
		if typeOf(b.Facts, m) == nil {
			return false
		}
	}
	return len(backsOf(e)) > 0
}

// typeOf is the dynamic type that m is known to have.
func typeOf(f *fact, m *Term) types.Type {
	for y := f; y != nil; y = y.up {
		if y.cond != nil && y.cond.Op == "typeis" && y.val && timeless(y.cond.Args[0]) == m {
			if t := typeReg[y.cond.Aux]; t != nil && !types.IsInterface(t) {
				return t
			}
		}
	}
	return nil
}

// roleMap: is the map one of those of a collation?
func (l *layout) roleMap(m *Term) bool {
	t := m.Typ
	if t == nil && m.Def != nil && m.Def.Instr != nil {
		if v, ok := m.Def.Instr.(ssa.Value); ok {
			t = v.Type()
		}
	}
	for _, r := range l.roles {
		if r == nil || r.depth == 0 {
			continue
		}
		for x := r.typ; ; {
			if t == nil || types.Identical(x, t) {
				return true
			}
			mt, ok := x.Underlying().(*types.Map)
			if !ok {
				break
			}
			x = mt.Elem()
		}
	}
	return false
}

// classes are the loop variables that always have the same value: each with its representative.
func classes(it *Interp) map[*Term]*Term {
	entries := map[*LoopInfo][]*Event{}
	seen := map[*Event]bool{}
	var infos []*LoopInfo
	for _, p := range it.Paths {
		for _, e := range p.Events {
			if e.Kind == EvLoop && !seen[e] {
				seen[e] = true
				if entries[e.Loop] == nil {
					infos = append(infos, e.Loop)
				}
				entries[e.Loop] = append(entries[e.Loop], e)
			}
		}
	}
	rep := map[*Term]*Term{}
	members := map[*LoopInfo][]*Term{}
	for _, li := range infos {
		for t := range entries[li][0].Init {
			if t.W == 64 {
				members[li] = append(members[li], t)
			}
		}
		sort.Slice(members[li], func(i, j int) bool { return members[li][i].ID < members[li][j].ID })
		for _, t := range members[li] {
			rep[t] = members[li][0]
		}
	}
	for changed := true; changed; {
		changed = false
		next := map[*Term]*Term{}
		for _, li := range infos {
			first := map[string]*Term{}
			for _, t := range members[li] {
				k := fmt.Sprint(rep[t].ID)
				for _, e := range entries[li] {
					if e.Init[t] == nil {
						k += " ?" + fmt.Sprint(t.ID)
						continue
					}
					k += fmt.Sprint(" ", subst(e.Init[t], rep).ID)
				}
				for _, b := range li.Backs {
					if b.Next[t] == nil {
						k += " ?" + fmt.Sprint(t.ID)
						continue
					}
					k += fmt.Sprint(" ", subst(b.Next[t], rep).ID)
				}
				if first[k] == nil {
					first[k] = t
				}
				next[t] = first[k]
			}
		}
		for t, r := range next {
			changed = changed || rep[t] != r
		}
		rep = next
	}
	return rep
}

// enters finds the event on the way that enters the loop of which t is a variable.
func enters(evs []*Event, t *Term) *Event {
	for i := len(evs) - 1; i >= 0; i-- {
		if evs[i].Kind == EvLoop && evs[i].Init[t] != nil {
			return evs[i]
		}
	}
	return nil
}

// gather follows a list back to where it is empty (or to the loop variable stop) and notes what
// is appended in which iteration.
func (l *layout) gather(r *role, v *Term, evs []*Event, stop *Term, b *Path, added map[*Path][]*entry, seen map[string]bool) string {
	for n := 0; n < 100; n++ {
		switch {
		case v == stop:
			return ""
		case v.Op == "append":
			if b == nil {
				return "there is a " + kinds[r.k].name + " that is not for a measure of the schema"
			}
			for _, x := range v.Args[1:] {
				en := l.entry(r, nil, x, appendPos(evs, v))
				if en == nil {
					return "a " + kinds[r.k].name + " is unclear"
				}
				added[b] = append(added[b], en)
			}
			v = v.Args[0]
		case enters(evs, v) != nil:
			e := enters(evs, v)
			for _, x := range backsOf(e) {
				k := fmt.Sprint(v.ID, " ", indexPath(x, e))
				if seen[k] {
					continue
				}
				seen[k] = true
				if x.Next[v] == nil {
					return "the " + kinds[r.k].name + "s are unclear"
				}
				if w := l.gather(r, x.Next[v], after(x.Events, e), v, x, added, seen); w != "" {
					return w
				}
			}
			v = e.Init[v]
		case stop == nil && (isNilTerm(v) || mkLen(v).isConstInt(0)):
			return ""
		default:
			return "the " + kinds[r.k].name + "s are not all kept"
		}
	}
	return "the " + kinds[r.k].name + "s are unclear"
}

func indexPath(p *Path, e *Event) int {
	for i, b := range e.Loop.Backs {
		if b == p {
			return i
		}
	}
	return -1
}

func appendPos(evs []*Event, v *Term) token.Pos {
	for _, e := range evs {
		if e.Kind == EvAppend && len(e.Res) > 0 && e.Res[0] == v {
			return e.Pos
		}
	}
	return token.NoPos
}

// cursor follows the size back: in each loop it is one variable.
func cursor(v *Term, evs []*Event, stop *Term, zs map[*LoopInfo]*Term) string {
	for n := 0; n < 100; n++ {
		if v == stop {
			return ""
		}
		e := enters(evs, v)
		if e == nil {
			if stop == nil && v.isInt() && v.sval() >= 0 {
				return ""
			}
			if stop != nil && isub(v, stop).W == 64 && contains(v, stop) {
				return "" // what is added in an iteration is looked at there
			}
			return "it is " + v.String()
		}
		if zs[e.Loop] != nil && zs[e.Loop] != v {
			return "it is unclear"
		}
		if zs[e.Loop] == nil {
			zs[e.Loop] = v
			for _, b := range backsOf(e) {
				if b.Next[v] == nil {
					return "it is unclear"
				}
				if w := cursor(b.Next[v], after(b.Events, e), v, zs); w != "" {
					return w
				}
			}
		}
		v = e.Init[v]
	}
	return "it is unclear"
}

// entry makes sense of the value of an entry.
func (l *layout) entry(r *role, keys []*Term, v *Term, pos token.Pos) *entry {
	es := structOf(r.entry)
	if v == nil || es == nil || r.off == nil {
		return nil
	}
	m := map[*Term]*Term{}
	for j := range r.phi {
		m[r.phi[j]] = mkField(v, j, es.Field(j).Type())
	}
	return &entry{r: r, keys: keys, val: v, off: subst(r.off, m), n: subst(r.n, m), fn: mkField(v, r.fn, es.Field(r.fn).Type()), pos: pos}
}

// mapEntries adds the entries that an iteration puts in the maps of the collation.
func (l *layout) mapEntries(x *iter, coll *Term, handled map[*Event]bool) {
	evs := after(x.b.Events, x.e)
	for _, k := range []int{kContW, kDiscW, kContR, kDiscR} {
		r := l.roles[k]
		if r == nil {
			continue
		}
		root := coll.Args[r.field]
		if r.depth == 1 {
			cur := map[*Term]*Term{}
			for i, e := range evs {
				if e.Kind != EvMapUpd || e.Args[0] != root {
					continue
				}
				handled[e] = true
				key := e.Args[1]
				v := e.Args[2]
				var added []*entry
				bad := ""
				for {
					if v == cur[key] {
						break
					}
					if v.Op == "append" {
						for _, a := range v.Args[1:] {
							en := l.entry(r, []*Term{timeless(key)}, a, e.Pos)
							if en == nil {
								bad = "a " + kinds[k].name + " is unclear"
								break
							}
							added = append(added, en)
						}
						v = v.Args[0]
						continue
					}
					if cur[key] == nil && v.Op == "mapval" && v.Args[0] == root && v.Args[1] == key && lookedUp(evs[:i], v) {
						break
					}
					if cur[key] == nil && (isNilTerm(v) || mkLen(v).isConstInt(0)) && missing(x.b, evs[:i], timeless(root), timeless(key)) {
						break
					}
					bad = "the " + kinds[k].name + "s registered before are not kept"
					break
				}
				l.must("C16", bad == "", "entries are kept", kinds[k].name, e.Pos, "%s", bad)
				x.ents = append(x.ents, added...)
				cur[key] = e.Args[2]
			}
			continue
		}
		// maps of maps
		inner := map[*Term]*Term{} // inner map -> key under which it is
		set := map[*Term]bool{}
		for i, e := range evs {
			if e.Kind != EvMapUpd || e.Args[0] != root {
				continue
			}
			handled[e] = true
			v := e.Args[2]
			key := e.Args[1]
			switch {
			case v.Op == "mapval" && v.Args[0] == root && v.Args[1] == key:
			case v.Op == "mapobj" || v.Op == "obj":
				l.must("C16 C29", missing(x.b, evs[:i], timeless(root), timeless(key)) || set[v] && inner[v] == key, "entries are kept", kinds[k].name, e.Pos, "the %ss of a field registered before may be lost", kinds[k].name)
				inner[v] = key
				set[v] = true
			default:
				l.must("C16 C29", false, "entries are kept", kinds[k].name, e.Pos, "the %ss of a field are unclear", kinds[k].name)
			}
		}
		for i, e := range evs {
			if e.Kind != EvMapUpd || e.Args[0] == root {
				continue
			}
			m := e.Args[0]
			var key *Term
			if m.Op == "mapval" && m.Args[0] == root && lookedUp(evs[:i], m) {
				key = m.Args[1]
				l.must("C16 C29", found(x.b, evs[:i], timeless(root), timeless(key)), "entries are kept", kinds[k].name, e.Pos, "a field may have no %ss to add to", kinds[k].name)
			} else if inner[m] != nil {
				key = inner[m]
			} else {
				continue
			}
			handled[e] = true
			en := l.entry(r, []*Term{timeless(key), e.Args[1]}, e.Args[2], e.Pos)
			if !l.must("C16 C29", en != nil, "entries are kept", kinds[k].name, e.Pos, "a %s is unclear", kinds[k].name) {
				continue
			}
			// a later entry under the same name takes its place
			for j, o := range x.ents {
				if o.r == r && o.keys[0] == en.keys[0] && o.keys[1] == en.keys[1] {
					x.ents = append(x.ents[:j:j], x.ents[j+1:]...)
					break
				}
			}
			x.ents = append(x.ents, en)
		}
	}
}

func lookedUp(evs []*Event, v *Term) bool {
	for _, e := range evs {
		if e.Kind == EvLookup && len(e.Res) > 0 && e.Res[0] == v {
			return true
		}
	}
	return false
}

// own: the function of an entry is that of the measure itself.
func (x *iter) own(en *entry) bool {
	k := kinds[en.r.k]
	as := timeless(mkAs(x.m, x.t))
	f := en.fn
	if en.r.k == kInit {
		return x.l.callsInit(x, f, as)
	}
	if f.Def == nil || f.Def.Kind != "res" || len(f.Def.Args) == 0 {
		return false
	}
	a := timeless(f.Def.Args[0])
	return strings.HasSuffix(f.Def.Callee, "."+k.method) && (a == as || a == x.m)
}

// callsInit: f is the measure's Init, or does nothing but call it.
func (l *layout) callsInit(x *iter, f, as *Term) bool {
	if f.Op == "closure" && f.Fn != nil && len(f.Args) == 1 && strings.HasPrefix(f.Fn.Synthetic, "bound method wrapper") {
		a := timeless(f.Args[0])
		return f.Fn.Object() != nil && f.Fn.Object().Name() == "Init" && (a == as || a == x.m || a.Op == "iface" && a.Args[0] == as)
	}
	if f.Fn == nil || f.Op != "closure" && f.Op != "func" {
		return false
	}
	it := l.c.P.Run(f.Fn, &Config{Free: f.Args, Start: x.b.St.mem.clone(), Opaque: func(fn *ssa.Function) bool { return fn.Name() == "Init" }})
	for _, p := range it.Paths {
		var call *Event
		for _, e := range p.Events {
			if e.Kind == EvCall {
				if call != nil {
					return false
				}
				call = e
			}
		}
		if p.Out != OutReturn || call == nil || !strings.HasSuffix(call.Name, ".Init") || len(call.Args) != 2 || len(p.Ret) != 1 {
			return false
		}
		if a := timeless(call.Args[0]); a != as && a != x.m || call.Args[1] != it.Params[len(it.Params)-1] || p.Ret[0] != call.Res[0] {
			return false
		}
	}
	return len(it.Paths) > 0 && len(it.Undec) == 0
}

// shared: the measures that may share one summary.
func statMeasure(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	switch n.Obj().Name() {
	case "Count", "Sum", "Mean", "Variance":
		return true
	}
	return false
}

func typeName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// nameOf is the name of a measure of the type.
func (l *layout) nameOf(t types.Type) *Term {
	fn := l.c.P.Func(collPkg, typeName(t)+".Name")
	if fn == nil {
		return nil
	}
	it := l.c.P.Run(fn, &Config{})
	var r *Term
	for _, p := range it.Paths {
		if p.Out != OutReturn || len(p.Ret) != 1 || r != nil && r != p.Ret[0] {
			return nil
		}
		r = p.Ret[0]
	}
	return r
}

// check checks one iteration.
func (x *iter) check(who string, it *Interp, zs map[*LoopInfo]*Term, rep map[*Term]*Term, all []*iter) {
	l := x.l
	x.t = typeOf(x.b.Facts, x.m)
	if x.t == nil {
		l.must("C16", false, "every measure is compiled", who, x.pos, "a measure is passed over")
		return
	}
	for _, v := range x.valid {
		passed := false
		for _, y := range v {
			passed = passed || types.Identical(typeOf(y.b.Facts, y.m), x.t)
		}
		if !passed {
			return // such a measure does not get here
		}
	}
	name := typeName(x.t)
	key := who + ":" + name
	want := x.key
	if x.row {
		key += " of the row"
		want = mkStr("*")
	}
	// parameters
	vals := x.parameters()
	if name == "Cardinality" && !x.row {
		l.must("C16", vals != nil && len(vals) > 0 && vals[0][1] >= 4 && vals[len(vals)-1][1] <= 18, "parameters in range", key, x.pos, "a precision outside of 4 to 18 is accepted")
	}
	// what the measure is for
	ins := []int{kContW, kDiscW}
	if x.row {
		ins = []int{kRow}
	}
	able := false
	by := map[int][]*entry{}
	for _, en := range x.ents {
		by[en.r.k] = append(by[en.r.k], en)
		l.must("C16 C29", x.own(en), "entry of the measure itself", key+":"+kinds[en.r.k].name, en.pos, "the %s registered for %s is not its own", kinds[en.r.k].name, name)
		if len(en.keys) > 0 {
			l.must("C16 C29", en.keys[0] == want, "registered for its field", key+":"+kinds[en.r.k].name, en.pos, "the %s of %s is registered for another field", kinds[en.r.k].name, name)
		}
		if len(en.keys) > 1 {
			l.must("C16 C29", en.keys[1] == l.nameOf(x.t), "registered by its name", key+":"+kinds[en.r.k].name, en.pos, "the %s of %s is registered by another name", kinds[en.r.k].name, name)
		}
	}
	var writers []*entry
	for _, k := range ins {
		if !l.implements(x.t, k) {
			l.must("C16", len(by[k]) == 0, "entry of the measure itself", key, x.pos, "%s has no %s", name, kinds[k].name)
			continue
		}
		able = true
		if len(by[k]) == 0 && statMeasure(x.t) && !x.row {
			continue // shares the summary of another
		}
		l.must("C16 C15", len(by[k]) == 1, "every measure is updated", key, x.pos, "%s has %d %ss instead of one", name, len(by[k]), kinds[k].name)
		writers = append(writers, by[k]...)
	}
	for _, k := range []int{kRow, kContW, kDiscW} {
		in := false
		for _, i := range ins {
			in = in || i == k
		}
		l.must("C16", in || len(by[k]) == 0, "every measure is updated", key, x.pos, "%s has a %s", name, kinds[k].name)
	}
	if !l.must("C16", able, "maintained or rejected", key, x.pos, "a schema is accepted although %s cannot be maintained", name) {
		return
	}
	// readers
	var shared *entry
	for _, k := range []int{kContR, kDiscR} {
		if !l.implements(x.t, k) {
			continue
		}
		l.must("C16 C29", len(by[k]) == 1, "every measure is read", key+":"+kinds[k].name, x.pos, "%s has %d %ss instead of one", name, len(by[k]), kinds[k].name)
		for _, en := range by[k] {
			if len(writers) == 0 {
				shared = en
				continue
			}
			ok := false
			for _, w := range writers {
				ok = ok || w.off == en.off && w.n == en.n
			}
			l.must("C15 C29", ok, "read where it is written", key, en.pos, "%s is read from other bytes than it is written to", name)
		}
	}
	// initialisers
	for _, w := range writers {
		n := 0
		for _, en := range by[kInit] {
			if en.off == w.off && en.n == w.n {
				n++
			}
		}
		if l.implements(x.t, kInit) {
			ids := "C17"
			if extremes[typeName(x.t)] {
				ids = "C17 C18"
			}
			l.must(ids, n > 0, "every measure is initialised", key, w.pos, "%s is not initialised where it is written to", name)
		}
	}
	for _, en := range by[kInit] {
		ok := false
		for _, w := range writers {
			ok = ok || en.off == w.off && en.n == w.n
		}
		l.must("C15 C17", ok, "initialised where it is written", key, en.pos, "%s initialises other bytes than it is written to", name)
	}
	if shared != nil {
		x.sharing(key, shared, rep, all)
	}
	// ranges
	if zs == nil || !l.on("C15") {
		return
	}
	z := zs[x.e.Loop]
	if z == nil {
		l.must("C15", false, "size is gathered", key, x.pos, "the size of a record does not depend on its measures")
		return
	}
	z2 := subst(x.b.Next[z], rep)
	zr := subst(z, rep)
	if vals == nil {
		vals = [][2]int64{{0, 0}}
	}
	par := x.parameter()
	for _, v := range vals {
		at := func(t *Term) *Term {
			t = subst(t, rep)
			if par != nil {
				t = subst(t, map[*Term]*Term{par: mkInt(par.W, uint64(v[1]))})
			}
			return t
		}
		num := func(t *Term) (int64, bool) {
			t = at(t)
			if t.isInt() {
				return t.sval(), true
			}
			return 0, false
		}
		grow, gok := num(isub(z2, zr))
		if !l.must("C15", gok && grow >= 0, "record does not shrink", key, x.pos, "what %s adds to the size of the record is unclear", name) {
			return
		}
		type rng struct{ a, n int64 }
		var used []rng
		for _, w := range writers {
			a, ok1 := num(isub(subst(w.off, rep), zr))
			n, ok2 := num(w.n)
			if !l.must("C15", ok1 && ok2 && a >= 0 && n >= 0, "new room for each measure", key, w.pos, "%s is not kept in room of its own: from %s, with %s taken before", name, w.off, z) {
				continue
			}
			l.must("C15", a+n <= grow, "inside the record", key, w.pos, "%s takes %d bytes at %d, but the record only grows by %d", name, n, a, grow)
			for _, u := range used {
				l.must("C15", a+n <= u.a || u.a+u.n <= a, "measures do not overlap", key, w.pos, "two parts of %s overlap", name)
			}
			used = append(used, rng{a, n})
			l.fits(key, x, w, n, v[1], w.pos)
		}
	}
}

// parameter is the integer parameter of a measure, if it has one that matters.
func (x *iter) parameter() *Term {
	s := structOf(x.t)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if widthOf(s.Field(i).Type()) == 0 {
			continue
		}
		var p *Term
		look := func(t *Term) {
			subterms(t, func(t *Term) bool {
				if t.Op == "field" && t.Aux == strconv.Itoa(i) && t.Args[0].Op == "as" && timeless(t.Args[0].Args[0]) == x.m {
					p = t
				}
				return p == nil
			})
		}
		for y := x.b.Facts; y != nil && p == nil; y = y.up {
			if y.cond != nil {
				look(y.cond)
			}
		}
		for _, nx := range x.b.Next {
			if nx != nil && p == nil {
				look(nx)
			}
		}
		if p != nil {
			return p
		}
	}
	return nil
}

// parameters are the values that it can have: nil if it has none, or too many.
func (x *iter) parameters() [][2]int64 {
	var l [][2]int64
	sets := [][]*iter{{x}}
	for _, v := range x.valid {
		var same []*iter
		for _, y := range v {
			if y.t = typeOf(y.b.Facts, y.m); types.Identical(y.t, x.t) {
				same = append(same, y)
			}
		}
		sets = append(sets, same)
	}
	bounded := false
	can := func(y *iter, v int64) bool {
		p := y.parameter()
		if p == nil {
			return true
		}
		f := y.b.Facts
		if isFalse(f, bslt(p, mkInt(p.W, uint64(v+1)))) || isFalse(f, bslt(mkInt(p.W, uint64(v-1)), p)) {
			return false
		}
		_, ok := f.assume(beq(p, mkInt(p.W, uint64(v))), true)
		return ok
	}
	for _, set := range sets {
		good := len(set) > 0
		for _, y := range set {
			p := y.parameter()
			good = good && p != nil && isFalse(y.b.Facts, bslt(p, mkInt(p.W, 0))) && isFalse(y.b.Facts, bslt(mkInt(p.W, 300), p))
		}
		bounded = bounded || good
	}
	if !bounded {
		return nil
	}
	for v := int64(0); v <= 300; v++ {
		all := true
		for _, set := range sets {
			some := false
			for _, y := range set {
				some = some || can(y, v)
			}
			all = all && some
		}
		if all {
			l = append(l, [2]int64{0, v})
		}
	}
	return l
}

// sharing: a measure of the statistics that has no writer is read from the range of one that has.
func (x *iter) sharing(key string, en *entry, rep map[*Term]*Term, all []*iter) {
	l := x.l
	name := typeName(x.t)
	vars := func(ts ...*Term) []*Term {
		var r []*Term
		for v := range x.e.Init {
			for _, t := range ts {
				if contains(t, v) {
					r = append(r, v)
					break
				}
			}
		}
		return r
	}
	why := "it is not known to be that of a summary"
	for _, g := range after(x.b.Events, x.e) {
		if g.Kind != EvBranch || len(vars(g.Cond)) == 0 {
			continue
		}
		// not before there is one
		v, k := x.e.Facts.decide(subst(g.Cond, x.e.Init))
		ok := k && v != g.Taken
		for _, b := range backsOf(x.e) {
			if v, k := b.Facts.decide(subst(g.Cond, b.Next)); k && v != g.Taken {
				continue
			}
			same := true
			for _, v := range vars(g.Cond, en.off, en.n) {
				same = same && b.Next[v] == v
			}
			if same {
				continue
			}
			off, n := subst(en.off, b.Next), subst(en.n, b.Next)
			owner := false
			for _, o := range all {
				if o.b != b || o.t == nil && typeOf(o.b.Facts, o.m) == nil || !statMeasure(typeOf(o.b.Facts, o.m)) {
					continue
				}
				for _, w := range o.ents {
					if w.r.k == kContW && len(w.keys) > 0 && w.keys[0] == x.key && subst(w.off, rep) == subst(off, rep) && subst(w.n, rep) == subst(n, rep) {
						owner = true
					}
				}
			}
			ok = ok && owner
		}
		if ok {
			l.must("C15 C16 C29", true, "shares a summary of its field", key, en.pos, "")
			return
		}
		why = "it may be something else, or of another field"
	}
	l.must("C15 C16 C29", false, "shares a summary of its field", key, en.pos, "%s has no room of its own and is read from %s: %s", name, en.off, why)
}

// keysOf: the keys of the collation are those of the schema, in order.
func (l *layout) keysOf(who string, p *Path, keys *Term) {
	c := l.c
	if !l.on("C16 C13") {
		return
	}
	fn := c.fn(collPkg, "Collator.Keys")
	if fn == nil {
		return
	}
	kf := -1
	it := c.P.Run(fn, &Config{})
	for _, q := range it.Paths {
		for i := 0; i < l.st.NumFields(); i++ {
			if len(q.Ret) == 1 && timeless(mkField(it.Params[0], i, l.st.Field(i).Type())) == timeless(q.Ret[0]) {
				kf = i
			}
		}
	}
	if !l.must("C16 C13", kf >= 0, "keys of the schema", who, fn.Pos(), "the keys are not kept in the collation") {
		return
	}
	ks := p.Ret[0].Args[kf]
	kb, ko, kn := sliceParts(ks)
	pattern := func(idx *Term) *Term {
		k := timeless(elemOf(keys, idx))
		f := fieldNamed(k, k.Typ, "Field")
		if f == nil {
			return nil
		}
		t := fieldNamed(f, f.Typ, "Pattern")
		if t == nil {
			return nil
		}
		return timeless(t)
	}
	why := "they are not filled in"
	for i, e := range p.Events {
		if e.Kind != EvLoop {
			continue
		}
		idx, _, w := rangeLoop(e, p.Events[i:], func(t *Term) bool { return timeless(t) == keys || t == ks })
		if w != "" {
			continue
		}
		pat := pattern(idx)
		bs := backsOf(e)
		if e.Init[ks] != nil && mkLen(e.Init[ks]).isConstInt(0) || e.Init[ks] != nil && isNilTerm(e.Init[ks]) {
			good := true
			for _, b := range bs {
				nx := b.Next[ks]
				good = good && nx != nil && nx.Op == "append" && len(nx.Args) == 2 && nx.Args[0] == ks && timeless(stripConv(nx.Args[1])) == pat
			}
			if good {
				why = ""
			}
			continue
		}
		if timeless(kn) != mkLen(keys) {
			why = "there are not as many"
			continue
		}
		good := len(bs) > 0
		for _, b := range bs {
			n := 0
			for _, x := range after(b.Events, e) {
				if x.Kind == EvStore && rootOf(x.Addr) == rootOf(kb) {
					n++
					good = good && x.Addr == mkIA(kb, iadd(ko, idx), nil) && timeless(stripConv(x.Val)) == pat
				}
			}
			good = good && n == 1
		}
		if good {
			why = ""
		} else if why != "" {
			why = "they are others"
		}
	}
	l.must("C16 C13", why == "", "keys of the schema", who, p.Pos, "the keys of a collation may not be those of its schema: %s", why)
}

// fits: the functions of a measure keep to n bytes.
func (l *layout) fits(key string, x *iter, w *entry, n, par int64, pos token.Pos) {
	c := l.c
	name := typeName(x.t)
	if name == "Cardinality" {
		for _, k := range codecs() {
			if k.pkg != hllPkg {
				continue
			}
			for _, sh := range c.built(fmt.Sprintf("precision %d", par), hllPkg, "New", "Len", mkInt(8, uint64(par))) {
				if _, total, ok := c.written(k, sh); ok {
					l.must("C15", total.isInt() && total.sval() <= n, "large enough", key, pos, "a counter of precision %d takes %s bytes but %s is given %d", par, total, name, n)
				}
			}
		}
		return
	}
	types_ := []types.Type{x.t}
	if statMeasure(x.t) && !x.row {
		for _, t := range l.meas {
			if statMeasure(t) && t != x.t {
				types_ = append(types_, t)
			}
		}
	}
	for _, t := range types_ {
		for k, kd := range kinds {
			if !l.implements(t, k) || x.row && (k == kContW || k == kDiscW) || !x.row && k == kRow {
				continue
			}
			fn := c.P.Func(collPkg, typeName(t)+"."+kd.method)
			if fn == nil {
				continue
			}
			var f *ssa.Function
			cfg := &Config{}
			bi := 0
			if k == kInit {
				f, bi = fn, 1
			} else if f, cfg = c.closureOf(fn); f == nil {
				continue
			}
			cfg.Bounds = true
			cfg.Unroll = 64
			cfg.Assume = func(it *Interp, st *State, ps []*Term) {
				if g, ok := st.facts.assume(beq(mkLen(ps[bi]), mkInt(64, uint64(n))), true); ok {
					st.facts = g
				}
			}
			it := c.run(f, cfg)
			for _, p := range it.Paths {
				for _, e := range p.Events {
					if e.Kind != EvIndex || rootOf(e.Args[0]) != rootOf(it.Params[bi]) && rootOf(first3(sliceParts(e.Args[0]))) != it.Params[bi] {
						continue
					}
					// an end beyond the length is beyond the range although a slice may allow it
					hi := e.Args[len(e.Args)-1]
					if e.Aux != "slice" {
						hi = iadd(hi, mkInt(64, 1))
					}
					lim := mkInt(64, uint64(n))
					_, o, _ := sliceParts(e.Args[0])
					l.must("C15", isFalse(e.Facts, bslt(lim, iadd(o, hi))), "large enough", key+":"+typeName(t)+"."+kd.method, e.Pos, "%s.%s uses bytes beyond the %d given to %s", typeName(t), kd.method, n, name)
				}
				if p.Out == OutPanic {
					l.must("C15", false, "large enough", key+":"+typeName(t)+"."+kd.method, p.Pos, "%s.%s may panic on the %d bytes given to %s", typeName(t), kd.method, n, name)
				}
			}
		}
	}
}

// extremes are the measures that C18 is about.
var extremes = map[string]bool{"Max": true, "Min": true}

// updates: each observation reaches its measures.
func (c *Check) updates(compile bool) {
	if l := c.newLayout(); l != nil {
		l.update()
		if compile {
			l.compile()
		}
	}
}

func (c *Check) layoutCheck() {
	l := c.newLayout()
	if l == nil {
		return
	}
	l.update()
	l.read()
	l.compile()
}

func init() {
	values := "records are used and schemas made as the module does it: measures are values of the types of the module (C15 and C16 say nothing about pointers to measures or measures of other modules), fields have distinct names in a schema"
	register(&checkDef{
		id: "C15",
		run: func(c *Check) {
			c.layoutCheck()
			strides(c)
			bufferSize(c)
		},
		rule:   "For every type of measure, in each iteration of the loops of Schema.Compile, the range of each entry lies between the size of the record before the iteration and after it, ranges of one measure are disjoint, readers and initialisers have the range of the writer, the functions of the measure never use a byte beyond the range (all index expressions are bounded by its length), and a measure without a writer of its own is read from a range that a writer of the same field for the shared summary has, by an invariant of the loop; Update and Read give every function exactly the range of its entry; every map is made with the size of the records of its collation",
		floor:  map[string]int{"inside the record": 5, "large enough": 20, "read where it is written": 5, "room for a record": 2},
		assume: []string{values},
	})
	register(&checkDef{
		id:     "C16",
		run:    (*Check).layoutCheck,
		rule:   "On every successful path of Schema.Compile both lists of measures are gone through completely, every iteration registers the writer of the measure itself, under its field, keeping what was registered before (or leaves it to the writer of the shared summary), and its readers by its field and name; other measures and precisions outside of 4 to 18 end in an error; Collator.Update goes through all entries and all fields completely and gives each writer its range and the value of its field, parsed in full precision",
		floor:  map[string]int{"every measure is updated": 5, "every measure is read": 5, "every entry": 3, "registered for its field": 5},
		assume: []string{values},
	})
	register(&checkDef{
		id: "C17",
		run: func(c *Check) {
			c.layoutCheck()
			emptyStates(c)
			neverAfresh(c)
		},
		rule:  "On every path of Collator.Update on which the record may be new, the whole record is cleared and the initialiser of every entry is called, before any writer and on no other path; writers are never told to start afresh; Schema.Compile registers the initialiser of every measure that has one, for the range of its writer; measures that keep a structure with a header have an initialiser that stores an empty one of the measure's parameters at the beginning of the range; what the writer of each measure leaves, when it is not told to start afresh, is the state that it found advanced by the observation",
		floor: map[string]int{"new records are initialised": 1, "every measure is initialised": 1, "not initialised again": 3, "empty state": 4, "counts by one": 1, "adds the value": 2},
	})
	register(&checkDef{
		id: "C29",
		run: func(c *Check) {
			c.layoutCheck()
			storeReads(c)
			answers(c)
			fmvString(c)
			cardinalityReader(c)
		},
		rule:   "The query handler reads the store whose collation has the name in the request, for the parsed query of the request; the store gives its collation the record that was found; Collator.Read goes through the fields and measures asked for completely and in order, calls the reader registered for that field and name with its own range, and appends its value labelled with that field and name; readers are registered as their measure's own, by its field and name, for the range of its writer; the handler sends every value in order, with its labels",
		floor:  map[string]int{"labelled": 1, "value as read": 1, "every value is sent": 1, "measures asked for": 1, "registered by its name": 5, "text of a value": 3},
		assume: []string{values},
	})
}
