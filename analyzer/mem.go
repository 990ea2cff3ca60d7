package main

// Abstract memory: access paths to value numbers.

import (
	"go/types"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

type objInfo struct {
	typ  types.Type // of a variable; nil for the array of a slice
	zero bool       // content is zero where no cell says otherwise
}

type memory struct {
	cells   map[*Term]*Term
	types   map[*Term]types.Type // type of the value in a cell
	objs    map[*Term]*objInfo
	havocs  []havoc
	escaped map[*Term]bool
	maps    map[*Term][]mapCell // map term -> updates in order
	mapEp   map[*Term]string
	kept    map[*Term][]*Term // what a library keeps a reference to
}

type mapCell struct{ k, v *Term }

type havoc struct {
	roots map[*Term]bool
	label string
}

func newMemory() *memory {
	return &memory{cells: map[*Term]*Term{}, types: map[*Term]types.Type{}, objs: map[*Term]*objInfo{}, escaped: map[*Term]bool{}, maps: map[*Term][]mapCell{}, mapEp: map[*Term]string{}}
}

func (m *memory) clone() *memory {
	n := newMemory()
	for k, v := range m.cells {
		n.cells[k] = v
	}
	for k, v := range m.types {
		n.types[k] = v
	}
	for k, v := range m.objs {
		n.objs[k] = v
	}
	for k, v := range m.escaped {
		n.escaped[k] = v
	}
	for k, v := range m.maps {
		n.maps[k] = v
	}
	for k, v := range m.mapEp {
		n.mapEp[k] = v
	}
	if len(m.kept) > 0 {
		n.kept = make(map[*Term][]*Term, len(m.kept))
		for k, v := range m.kept {
			n.kept[k] = v
		}
	}
	n.havocs = m.havocs[:len(m.havocs):len(m.havocs)]
	return n
}

func (m *memory) newObj(o *Term, typ types.Type, zero bool) {
	// a new instance: forget what is known of the previous one
	for a := range m.cells {
		if rootOf(a) == o {
			delete(m.cells, a)
		}
	}
	delete(m.escaped, o)
	m.objs[o] = &objInfo{typ: typ, zero: zero}
}

func rootOf(a *Term) *Term {
	for {
		switch a.Op {
		case "fa", "ia", "w64", "slice", "w32", "w16", "arrptr":
			a = a.Args[0]
		default:
			return a
		}
	}
}

// epochOf identifies the content of the memory with the given root.
func (m *memory) epochOf(root *Term) string {
	for i := len(m.havocs) - 1; i >= 0; i-- {
		h := m.havocs[i]
		hit := false
		subterms(root, func(t *Term) bool {
			if h.roots[t] {
				hit = true
			}
			return !hit
		})
		if hit {
			return h.label
		}
	}
	return ""
}

// accWidth is the number of array elements an address covers in its innermost array.
func accWidth(a *Term) uint64 {
	switch a.Op {
	case "w64":
		return 8
	case "w32":
		return 4
	case "w16":
		return 2
	}
	return 1
}

type acc struct {
	kind string // fa or ia
	idx  *Term
	fld  string
	st   types.Type
	w    uint64
}

func accPath(a *Term) (*Term, []acc) {
	var l []acc
	for {
		switch a.Op {
		case "fa":
			l = append(l, acc{kind: "fa", fld: a.Aux, st: a.Typ})
			a = a.Args[0]
		case "ia":
			l = append(l, acc{kind: "ia", idx: a.Args[1], w: 1})
			a = a.Args[0]
		case "w64", "w32", "w16":
			l = append(l, acc{kind: "ia", idx: a.Args[1], w: accWidth(a)})
			a = a.Args[0]
		default:
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
			return a, l
		}
	}
}

type relation int

const (
	relDistinct relation = iota
	relSame
	relPrefix // a is a prefix of b (a contains b)
	relInside // b contains a
	relMaybe
)

func relate(a, b *Term, f *fact) relation {
	if a == b {
		return relSame
	}
	ra, pa := accPath(a)
	rb, pb := accPath(b)
	if ra != rb {
		return relDistinct
	}
	n := len(pa)
	if len(pb) < n {
		n = len(pb)
	}
	for i := 0; i < n; i++ {
		x, y := pa[i], pb[i]
		if x.kind != y.kind {
			return relMaybe
		}
		if x.kind == "fa" {
			if x.fld != y.fld {
				return relDistinct
			}
			continue
		}
		d := isub(y.idx, x.idx) // y - x
		if d.isInt() {
			dv := d.sval()
			if dv == 0 && x.w == y.w {
				continue
			}
			if dv >= int64(x.w) || -dv >= int64(y.w) {
				return relDistinct
			}
			return relMaybe
		}
		if f != nil {
			// y >= x + w or x >= y + w
			if v, k := f.decide(bslt(y.idx, iadd(x.idx, mkInt(64, x.w)))); k && !v {
				return relDistinct
			}
			if v, k := f.decide(bslt(x.idx, iadd(y.idx, mkInt(64, y.w)))); k && !v {
				return relDistinct
			}
			if x.w == 1 && y.w == 1 {
				if v, k := f.decide(beq(x.idx, y.idx)); k && !v {
					return relDistinct
				} else if k && v {
					continue
				}
			}
		}
		return relMaybe
	}
	if len(pa) == len(pb) {
		return relSame
	}
	if len(pa) < len(pb) {
		return relPrefix
	}
	return relInside
}

func isAggType(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// constructor-written field along the path from an address that is not an object
func (it *Interp) frozenAddr(a *Term) bool {
	if a.Op != "fa" {
		return false
	}
	i, _ := strconv.Atoi(a.Aux)
	if it.P.isImmut(a.Typ, i) {
		return true
	}
	return it.Cfg.Frozen != nil && it.Cfg.Frozen(a.Typ, i)
}

func (m *memory) load(it *Interp, st *State, in ssa.Instruction, a *Term, typ types.Type) *Term {
	if v, ok := m.cells[a]; ok {
		return v
	}
	if a.Op == "gaddr" {
		return it.globalValue(st, a, typ)
	}
	if s := structOf(typ); s != nil {
		// an enclosing value
		if v := m.fromEnclosing(it, st, in, a, typ); v != nil {
			return v
		}
		hasCell := false
		for c := range m.cells {
			if r := relate(a, c, nil); r == relPrefix {
				hasCell = true
				break
			}
		}
		root := rootOf(a)
		if !hasCell && m.objs[root] == nil {
			return m.base(it, st, in, a, typ)
		}
		fs := make([]*Term, s.NumFields())
		for i := range fs {
			fs[i] = m.load(it, st, in, mkFA(a, i, typ), s.Field(i).Type())
		}
		return mkAgg(typ, fs)
	}
	if v := m.fromEnclosing(it, st, in, a, typ); v != nil {
		return v
	}
	if _, ok := typ.Underlying().(*types.Array); ok {
		// content of a whole array: known only as long as nothing inside was written
		for c := range m.cells {
			if r := relate(a, c, nil); r == relPrefix || r == relMaybe {
				if v := m.wholeArray(it, st, in, a, typ); v != nil {
					return v
				}
				t := mkT("arrval", m.stamp(a), typ, a)
				if it.arrs == nil {
					it.arrs = map[*Term]*memory{}
				}
				if it.arrs[t] == nil {
					it.arrs[t] = m.clone()
				}
				return t
			}
		}
		return m.base(it, st, in, a, typ)
	}
	for c, cv := range m.cells {
		switch relate(a, c, st.facts) {
		case relSame:
			return cv
		case relMaybe, relInside:
			if v := m.assemble(it, st, in, a, typ); v != nil {
				return v
			}
			return it.fresh(st, in, "ld"+strconv.Itoa(a.ID), typ, &Def{Kind: "unknown", Name: a.str(4) + "?"})
		}
	}
	return m.base(it, st, in, a, typ)
}

// bytesAt: a is a byte or a little-endian word in an array of bytes.
func (m *memory) bytesAt(a *Term, typ types.Type) (base, off *Term, n int, ok bool) {
	switch a.Op {
	case "w64", "w32", "w16":
	case "ia":
		if typ == nil || widthOf(typ) != 8 {
			return
		}
	default:
		return
	}
	return a.Args[0], a.Args[1], int(accWidth(a)), true
}

// assemble puts a byte or word together from cells of other sizes that overlap it.
func (m *memory) assemble(it *Interp, st *State, in ssa.Instruction, a *Term, typ types.Type) *Term {
	base, off, n, ok := m.bytesAt(a, typ)
	if !ok {
		return nil
	}
	bs := make([]*Term, n)
	for c, v := range m.cells {
		if relate(a, c, st.facts) == relDistinct {
			continue
		}
		cb, co, cn, ok := m.bytesAt(c, m.types[c])
		if !ok || cb != base || v.W < 8*cn {
			return nil
		}
		d := isub(co, off)
		if !d.isInt() {
			return nil
		}
		for i := 0; i < cn; i++ {
			if k := int(d.sval()) + i; k >= 0 && k < n {
				bs[k] = byteOf(v, i)
			}
		}
	}
	r := mkInt(8*n, 0)
	for k, b := range bs {
		if b == nil {
			b = m.base(it, st, in, mkIA(base, iadd(off, mkInt(64, uint64(k))), types.Typ[types.Uint8]), types.Typ[types.Uint8])
		}
		r = ior(r, ishl(resize(b, 8, 8*n, false), mkInt(8*n, uint64(8*k))))
	}
	return collapse(r)
}

func byteOf(v *Term, i int) *Term {
	if v.W == 8 {
		return v
	}
	return collapse(resize(ilshr(v, mkInt(v.W, uint64(8*i))), v.W, 8, false))
}

// collapse simplifies a term whose bits are those of others one beside the other: it becomes a sum.
func collapse(t *Term) *Term {
	if t.W == 0 || t.isInt() {
		return t
	}
	bs := bitsOf(t)
	r := mkInt(t.W, 0)
	for i := 0; i < len(bs); {
		b := bs[i]
		switch {
		case b.bad:
			return t
		case b.atom == nil:
			if b.one {
				r = iadd(r, mkInt(t.W, 1<<uint(i)))
			}
			i++
		default:
			x := b.atom
			if b.i != 0 || x.W == 0 {
				return t
			}
			k := 0
			for ; k < x.W && i+k < len(bs); k++ {
				c := bs[i+k]
				if (c.bad || c.atom != x || c.i != k || c.one) && !(c.isZero() && maxVal(x)>>uint(k) == 0) {
					return t
				}
			}
			if k < x.W && !(i == 0 && t.W < x.W) {
				return t
			}
			r = iadd(r, ishl(resize(x, x.W, t.W, false), mkInt(t.W, uint64(i))))
			i += k
		}
	}
	return r
}

// stamp identifies the content of an array with cells
func (m *memory) stamp(a *Term) string {
	var l []string
	for c, v := range m.cells {
		if r := relate(a, c, nil); r != relDistinct {
			l = append(l, strconv.Itoa(c.ID)+"="+strconv.Itoa(v.ID))
		}
	}
	sort.Strings(l)
	s := m.epochOf(rootOf(a))
	for _, x := range l {
		s += ";" + x
	}
	return s
}

// wholeArray is the value of a small local array of bytes, element by element.
func (m *memory) wholeArray(it *Interp, st *State, in ssa.Instruction, a *Term, typ types.Type) *Term {
	at := typ.Underlying().(*types.Array)
	root := rootOf(a)
	if o := m.objs[root]; o == nil || !o.zero || m.epochOf(root) != "" || at.Len() > 64 || widthOf(at.Elem()) != 8 {
		return nil
	}
	l := make([]*Term, at.Len())
	for i := range l {
		l[i] = m.load(it, st, in, mkIA(a, mkInt(64, uint64(i)), at.Elem()), at.Elem())
	}
	return mkT("arragg", "", typ, l...)
}

// arrayElem is an element of the value of an array.
func (it *Interp) arrayElem(st *State, in ssa.Instruction, v, i *Term, typ types.Type) *Term {
	switch {
	case v.Op == "zeroarr":
		return zeroTerm(typ)
	case v.Op == "arragg" && i.isInt() && i.V < uint64(len(v.Args)):
		return v.Args[i.V]
	case v.Op == "arrval" && it.arrs[v] != nil:
		return it.arrs[v].clone().load(it, st, in, mkIA(v.Args[0], i, typ), typ)
	}
	return mkT("elem", "", typ, v, i)
}

// fromEnclosing looks for a struct or array value stored as a whole in a cell that encloses a.
func (m *memory) fromEnclosing(it *Interp, st *State, in ssa.Instruction, a *Term, typ types.Type) *Term {
	var path []*Term
	switch a.Op {
	case "w64", "w32", "w16":
		v := m.cells[a.Args[0]]
		n := accWidth(a)
		if k := a.Args[1]; v != nil && k.isInt() && v.Op == "arragg" && k.V+n <= uint64(len(v.Args)) {
			r := mkInt(int(8*n), 0)
			for i := uint64(0); i < n; i++ {
				r = ior(r, ishl(resize(v.Args[k.V+i], 8, int(8*n), false), mkInt(int(8*n), 8*i)))
			}
			return collapse(r)
		} else if v != nil && v.Op == "zeroarr" {
			return mkInt(int(8*n), 0)
		} else if v != nil && v.Op == "arrval" && it.arrs[v] != nil {
			wt := types.Typ[types.Uint64]
			switch n {
			case 4:
				wt = types.Typ[types.Uint32]
			case 2:
				wt = types.Typ[types.Uint16]
			}
			return it.arrs[v].clone().load(it, st, in, mkW(v.Args[0], k, int(n)), wt)
		}
	}
	for b := a; b.Op == "fa" || b.Op == "ia"; b = b.Args[0] {
		path = append(path, b)
		if v, ok := m.cells[b.Args[0]]; ok && isAggType(m.types[b.Args[0]]) {
			for i := len(path) - 1; i >= 0; i-- {
				p := path[i]
				if p.Op == "fa" {
					k, _ := strconv.Atoi(p.Aux)
					ft := structOf(p.Typ).Field(k).Type()
					v = mkField(v, k, ft)
				} else {
					v = it.arrayElem(st, in, v, p.Args[1], p.Typ)
				}
			}
			return v
		}
	}
	return nil
}

// base is the content of memory that no cell says anything of.
func (m *memory) base(it *Interp, st *State, in ssa.Instruction, a *Term, typ types.Type) *Term {
	root := rootOf(a)
	frozen := it.frozenAddr(a)
	ep := ""
	if !frozen || m.objs[root] != nil {
		ep = m.epochOf(root)
	}
	if o := m.objs[root]; o != nil && ep == "" && o.zero {
		switch a.Op {
		case "w64":
			return mkInt(64, 0)
		case "w32":
			return mkInt(32, 0)
		case "w16":
			return mkInt(16, 0)
		}
		return zeroTerm(typ)
	}
	// elements of values
	if a.Op == "ia" {
		switch root.Op {
		case "append":
			k := isub(a.Args[1], mkLen(root.Args[0]))
			if a.Args[0] == root {
				if k.isInt() && k.V < uint64(len(root.Args)-1) && ep == "" {
					return root.Args[1+int(k.V)]
				}
				if v, known := st.facts.decide(bslt(a.Args[1], mkLen(root.Args[0]))); known && v && ep == "" {
					b, off, _ := sliceParts(root.Args[0])
					return m.load(it, st, in, mkIA(b, iadd(off, a.Args[1]), typ), typ)
				}
			}
		case "bytesof":
			if a.Args[0] == root && ep == "" {
				return it.indexVal(st, in, root.Args[0], a.Args[1], typ)
			}
		}
	}
	if a.Op == "fa" && root.Op == "append" && ep == "" {
		// field of an element of a built slice
		if b := a.Args[0]; b.Op == "ia" && b.Args[0] == root {
			k := isub(b.Args[1], mkLen(root.Args[0]))
			i, _ := strconv.Atoi(a.Aux)
			if k.isInt() && k.V < uint64(len(root.Args)-1) {
				return mkField(root.Args[1+int(k.V)], i, typ)
			}
		}
	}
	return mkLoad(a, ep, typ)
}

func (it *Interp) globalValue(st *State, a *Term, typ types.Type) *Term {
	g := a.G
	if g == nil {
		return mkLoad(a, st.mem.epochOf(a), typ)
	}
	inMod := g.Pkg != nil && it.P.inModulePkg(g.Pkg.Pkg)
	if inMod && !it.P.gconst[g] {
		return mkLoad(a, st.mem.epochOf(a), typ)
	}
	name := g.String()
	if !inMod {
		if types.Identical(typ, types.Universe.Lookup("error").Type()) {
			name += "!"
		}
	} else if v := it.P.ginit[g]; v != nil {
		switch x := v.(type) {
		case *ssa.Const:
			return constTerm(x)
		case *ssa.Call:
			if c := x.Call.StaticCallee(); c != nil {
				switch c.String() {
				case "errors.New", "fmt.Errorf":
					name += "!"
				}
			}
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeInterface, *ssa.Slice:
			name += "!"
		}
	}
	t := mkT("gval", name, typ)
	t.G = g
	return t
}

func (m *memory) put(a, v *Term, typ types.Type) {
	m.cells[a] = v
	m.types[a] = typ
}

func (m *memory) store(it *Interp, st *State, in ssa.Instruction, a, v *Term, typ types.Type) {
	m.escape(v)
	// split an enclosing aggregate
	m.explode(it, st, in, a)
	for c := range m.cells {
		if c == a {
			continue
		}
		switch relate(a, c, st.facts) {
		case relPrefix:
			delete(m.cells, c)
		case relMaybe, relInside:
			if m.split(a, typ, c) {
				continue
			}
			m.cells[c] = it.fresh(st, in, "kill"+strconv.Itoa(c.ID), m.types[c], &Def{Kind: "unknown", Name: c.str(4) + "?"})
		}
	}
	m.put(a, v, typ)
}

// split leaves of a cell the bytes that are not stored to.
func (m *memory) split(a *Term, typ types.Type, c *Term) bool {
	ab, ao, an, ok1 := m.bytesAt(a, typ)
	cb, co, cn, ok2 := m.bytesAt(c, m.types[c])
	v := m.cells[c]
	if !ok1 || !ok2 || ab != cb || v.W < 8*cn {
		return false
	}
	d := isub(co, ao)
	if !d.isInt() {
		return false
	}
	delete(m.cells, c)
	for i := 0; i < cn; i++ {
		if k := int(d.sval()) + i; k < 0 || k >= an {
			m.put(mkIA(cb, iadd(co, mkInt(64, uint64(i))), types.Typ[types.Uint8]), byteOf(v, i), types.Typ[types.Uint8])
		}
	}
	return true
}

// explode replaces the struct value in a cell enclosing a by cells for its fields.
func (m *memory) explode(it *Interp, st *State, in ssa.Instruction, a *Term) {
	var encl []*Term
	for b := a; b.Op == "fa" || b.Op == "ia" || b.Op == "w64" || b.Op == "w32" || b.Op == "w16"; b = b.Args[0] {
		encl = append(encl, b.Args[0])
	}
	for i := len(encl) - 1; i >= 0; i-- {
		e := encl[i]
		v, ok := m.cells[e]
		if !ok {
			continue
		}
		typ := m.types[e]
		s := structOf(typ)
		if s == nil {
			if v.Op == "arragg" {
				delete(m.cells, e)
				et := typ.Underlying().(*types.Array).Elem()
				for j, x := range v.Args {
					m.put(mkIA(e, mkInt(64, uint64(j)), et), x, et)
				}
				continue
			}
			// an array: the value is no longer known as a whole
			if _, isArr := typ.Underlying().(*types.Array); isArr && v.Op == "zeroarr" {
				delete(m.cells, e)
				if o := m.objs[rootOf(e)]; o != nil && o.zero {
					continue
				}
			}
			delete(m.cells, e)
			m.havocs = append(m.havocs, havoc{roots: map[*Term]bool{rootOf(e): true}, label: "x:" + st.site(in)})
			continue
		}
		delete(m.cells, e)
		for j := 0; j < s.NumFields(); j++ {
			m.put(mkFA(e, j, typ), mkField(v, j, s.Field(j).Type()), s.Field(j).Type())
		}
	}
}

// escape marks the objects that v refers to.
func (m *memory) escape(v *Term) {
	subterms(v, func(t *Term) bool {
		if t.Op == "obj" {
			m.escaped[t] = true
		}
		return t.Op != "load"
	})
}

// refRoots are the roots of the memory that can be reached from the values ts.
func (m *memory) refRoots(ts []*Term) map[*Term]bool {
	roots := map[*Term]bool{}
	var todo []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		subterms(t, func(s *Term) bool {
			if seen[s] {
				return false
			}
			seen[s] = true
			switch s.Op {
			case "obj", "leaf", "load", "append", "appendslice", "bytesof", "gaddr", "mapobj", "field", "as":
				if s.W == 0 && refType(s.Typ) {
					roots[s] = true
					todo = append(todo, s)
				}
				// the memory behind a pointer that was loaded is reached through the root
				// of the address too, but not the whole of that
				return s.Op != "load" && s.Op != "field" && s.Op != "as"
			case "strof", "len", "cap", "call", "elem":
				return false
			}
			return true
		})
	}
	for _, t := range ts {
		add(t)
	}
	for len(todo) > 0 {
		r := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for c, v := range m.cells {
			if rootOf(c) == r {
				add(v)
			}
		}
		for _, mc := range m.maps[r] {
			add(mc.v)
		}
		for _, v := range m.kept[r] {
			add(v)
		}
	}
	return roots
}

// keep notes that the library keeps in by what the values refer to, which it does not use yet.
func (m *memory) keep(by *Term, vs []*Term) {
	if m.kept == nil {
		m.kept = map[*Term][]*Term{}
	}
	m.kept[by] = append(append([]*Term(nil), m.kept[by]...), vs...)
}

func refType(t types.Type) bool {
	if t == nil {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refType(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return refType(u.Elem())
	}
	return true
}

// havocRoots forgets everything about memory reachable from roots.
func (m *memory) havocRoots(it *Interp, roots map[*Term]bool, label string) {
	if len(roots) == 0 {
		return
	}
	for c := range m.cells {
		r := rootOf(c)
		hit := false
		subterms(r, func(t *Term) bool {
			if roots[t] {
				hit = true
			}
			return !hit
		})
		if hit && !(it.frozenAddr(c) && m.objs[r] == nil) && !(c == r && it.P.onceVar(r)) && !it.P.literal(r) {
			delete(m.cells, c)
		}
	}
	m.havocs = append(m.havocs, havoc{roots: roots, label: label})
	for r := range roots {
		if (r.Op == "mapobj" || m.maps[r] != nil) && !it.P.literal(r) {
			delete(m.maps, r)
			m.mapEp[r] = label
		}
	}
}

// onceVar: is the object a variable that is assigned once and from then on only read, if by
// closures?
func (p *Prog) onceVar(o *Term) bool {
	if o.Op != "obj" || o.Def == nil {
		return false
	}
	a, ok := o.Def.Instr.(*ssa.Alloc)
	if !ok {
		return false
	}
	if v, ok := p.once[a]; ok {
		return v
	}
	n := 0
	var scan func(v ssa.Value) bool
	scan = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr != v || x.Val == v || v != ssa.Value(a) {
					return false
				}
				n++
			case *ssa.UnOp:
			case *ssa.DebugRef:
			case *ssa.MakeClosure:
				f := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v && !scan(f.FreeVars[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	res := scan(a) && n <= 1
	if p.once == nil {
		p.once = map[*ssa.Alloc]bool{}
	}
	p.once[a] = res
	return res
}

// literal: is the object an array or a map that nothing changes once it is first used, as that of
// a composite literal that is only read?
func (p *Prog) literal(o *Term) bool {
	if o.Def == nil || o.Def.Instr == nil {
		return false
	}
	in := o.Def.Instr
	v, ok := in.(ssa.Value)
	if !ok {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		if _, ok := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); !ok {
			return false
		}
	case *ssa.MakeMap:
	default:
		return false
	}
	if res, ok := p.lits[v]; ok {
		return res
	}
	if p.lits == nil {
		p.lits = map[ssa.Value]bool{}
	}
	p.lits[v] = false
	first := -1 // the first use
	inits := map[ssa.Instruction]bool{}
	b := in.Block()
	at := map[ssa.Instruction]int{}
	for i, y := range b.Instrs {
		at[y] = i
	}
	use := func(y ssa.Instruction) {
		if y.Block() == b && (first < 0 || at[y] < first) {
			first = at[y]
		}
	}
	for _, r := range *v.Referrers() {
		switch y := r.(type) {
		case *ssa.MapUpdate:
			if y.Map == v && y.Value != v && y.Key != v {
				inits[y] = true
				continue
			}
		case *ssa.IndexAddr:
			if stores(y, inits) {
				continue
			}
		case *ssa.DebugRef:
			continue
		}
		use(r)
	}
	a := p.pointsTo()
	seen := false
	for _, q := range a.objList {
		seen = seen || q.site == in
	}
	if !seen {
		return false
	}
	for _, w := range a.writes {
		if w.to == nil {
			continue
		}
		for l := range w.to.pts {
			if l.o.site != in {
				continue
			}
			if !inits[w.at] || w.at.Block() != b || first >= 0 && at[w.at] > first {
				return false
			}
		}
	}
	p.lits[v] = true
	return true
}

// stores: is the address of a part only stored to? Then these are added to l.
func stores(addr ssa.Value, l map[ssa.Instruction]bool) bool {
	for _, r := range *addr.Referrers() {
		switch y := r.(type) {
		case *ssa.Store:
			if y.Addr != addr || y.Val == addr {
				return false
			}
			l[y] = true
		case *ssa.FieldAddr:
			if !stores(y, l) {
				return false
			}
		case *ssa.IndexAddr:
			if y.X != addr || !stores(y, l) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// ---- maps

func (m *memory) mapUpdate(it *Interp, st *State, in ssa.Instruction, mp, k, v *Term) {
	m.escape(v)
	l := m.maps[mp]
	m.maps[mp] = append(l[:len(l):len(l)], mapCell{k, v})
}

func (m *memory) mapLookup(it *Interp, st *State, in ssa.Instruction, mp, k *Term, vt types.Type) (*Term, *Term) {
	l := m.maps[mp]
	for i := len(l) - 1; i >= 0; i-- {
		if l[i].k == k {
			return l[i].v, mkBool(true)
		}
		if e := beq(l[i].k, k); e.Op != "false" {
			ok := it.fresh(st, in, "ok", types.Typ[types.Bool], &Def{Kind: "lookupok", Args: []*Term{mp, k}})
			v := it.fresh(st, in, "v", vt, &Def{Kind: "lookup", Args: []*Term{mp, k}})
			return v, ok
		}
	}
	if isNilTerm(mp) || mp.Op == "mapobj" && m.mapEp[mp] == "" {
		return zeroTerm(vt), mkBool(false)
	}
	ep := m.mapEp[mp]
	ok := mk("mapok", ep, 0, mp, k)
	v := mkT("mapval", ep, vt, mp, k)
	return v, ok
}

// ---- loops

// widenMemory forgets at a loop header what the loop is known to change.
func (it *Interp) widenMemory(st *State, info *LoopInfo, w map[string]bool, key string, entry map[*Term]*Term) {
	if len(w) == 0 {
		return
	}
	m := st.mem
	for _, what := range sortedKeys(w) {
		switch {
		case len(what) > 5 && what[:5] == "cell:":
			id, _ := strconv.Atoi(what[5:])
			a := it.P.cellByID[id]
			if a == nil {
				continue
			}
			typ := it.P.cellType[id]
			init := m.load(it, st, firstInstr(info.Header), a, typ)
			l := leaf("mem:"+key+":"+what[5:], typ, &Def{Kind: "mem", Name: a.str(5) + "'", Loop: info, Args: []*Term{a}})
			m.explode(it, st, firstInstr(info.Header), a)
			for c := range m.cells {
				if c != a && relate(a, c, st.facts) != relDistinct {
					delete(m.cells, c)
				}
			}
			m.put(a, l, typ)
			entry[l] = init
			if old, ok := info.Init[l]; ok && old != init {
				info.alt(l, old, init)
				init = mk("multi", key+what, l.W) // entered with different values
			}
			info.Init[l] = init
			info.Mem[a] = l
		case len(what) > 5 && what[:5] == "root:":
			id, _ := strconv.Atoi(what[5:])
			r := it.P.cellByID[id]
			if r == nil {
				continue
			}
			m.havocRoots(it, map[*Term]bool{r: true}, "loop:"+key)
		case len(what) > 4 && what[:4] == "map:":
			id, _ := strconv.Atoi(what[4:])
			r := it.P.cellByID[id]
			if r == nil {
				continue
			}
			delete(m.maps, r)
			m.mapEp[r] = "loop:" + key
		}
	}
}

func (it *Interp) remember(a *Term, typ types.Type) string {
	if it.P.cellByID == nil {
		it.P.cellByID = map[int]*Term{}
		it.P.cellType = map[int]types.Type{}
	}
	it.P.cellByID[a.ID] = a
	if typ != nil {
		it.P.cellType[a.ID] = typ
	}
	return strconv.Itoa(a.ID)
}

func constPath(a *Term, inner func(*Term) bool) bool {
	_, p := accPath(a)
	for _, x := range p {
		if x.kind == "ia" && !inner(x.idx) {
			return false
		}
	}
	return true
}

// compareMemory finds the memory that an iteration changes.
func (it *Interp) compareMemory(st *State, lc *loopCtx, next map[*Term]*Term) {
	m, h := st.mem, lc.snap
	info := lc.info
	// memory forgotten in the body
	for i := len(h.havocs); i < len(m.havocs); i++ {
		for r := range m.havocs[i].roots {
			if h.objs[r] == nil && m.objs[r] != nil {
				continue // allocated in the body
			}
			// forgotten at the header too?
			if has := it.widen[info.Key]["root:"+strconv.Itoa(r.ID)]; has {
				continue
			}
			it.mark(info.Key, "root:"+it.remember(r, nil))
		}
	}
	for r := range m.mapEp {
		if _, ok := m.maps[r]; !ok && m.mapEp[r] != h.mapEp[r] {
			if _, ok := h.maps[r]; (ok || h.mapEp[r] != "") && !it.widen[info.Key]["map:"+strconv.Itoa(r.ID)] {
				it.mark(info.Key, "map:"+it.remember(r, nil))
			}
		}
	}
	for r, l := range m.maps {
		hl := h.maps[r]
		if len(l) != len(hl) || m.mapEp[r] != h.mapEp[r] {
			if r.Op == "mapobj" && h.mapEp[r] == "" && len(hl) == 0 && !existed(r, h, lc) {
				continue
			}
			if it.widen[info.Key]["map:"+strconv.Itoa(r.ID)] {
				continue
			}
			it.mark(info.Key, "map:"+it.remember(r, nil))
		}
	}
	outer := func(t *Term) bool { // index that means the same location in every iteration
		inside := false
		subterms(t, func(s *Term) bool {
			if s.Op == "leaf" && s.Def != nil && s.Def.Loop == info {
				inside = true
			}
			if s.Op == "leaf" && s.Def != nil && s.Def.Instr != nil && s.Def.Kind != "phi" && s.Def.Kind != "mem" && lc.body[s.Def.Instr.Block()] {
				inside = true
			}
			return !inside
		})
		return !inside
	}
	for a, v := range m.cells {
		root := rootOf(a)
		if m.objs[root] != nil && h.objs[root] != m.objs[root] {
			continue // allocated in the body
		}
		if l := info.Mem[a]; l != nil {
			next[l] = v
			continue
		}
		typ := m.types[a]
		hv := h.peek(it, st, a, typ)
		if hv == v {
			continue
		}
		if isAggType(typ) && structOf(typ) != nil {
			// compare by field
			if st0 := structOf(typ); st0 != nil {
				same := true
				for i := 0; i < st0.NumFields(); i++ {
					fa := mkFA(a, i, typ)
					fv := mkField(v, i, st0.Field(i).Type())
					if l := info.Mem[fa]; l != nil {
						next[l] = fv
						continue
					}
					if h.peek(it, st, fa, st0.Field(i).Type()) != fv {
						same = false
					}
				}
				if same {
					continue
				}
			}
		}
		if !constPath(a, outer) || !outer(root) {
			if it.widen[info.Key]["root:"+strconv.Itoa(root.ID)] {
				continue
			}
			if !outer(root) {
				// memory found through something that changes: forget the root of that
				rr := root
				for rr.Op == "load" || rr.Op == "field" || rr.Op == "append" || rr.Op == "as" || rr.Op == "mapval" {
					rr = rootOf(rr.Args[0])
				}
				if rr == root || rr.Op == "leaf" && !outer(rr) {
					continue
				}
				if it.widen[info.Key]["root:"+strconv.Itoa(rr.ID)] {
					continue
				}
				root = rr
			}
			it.mark(info.Key, "root:"+it.remember(root, nil))
			continue
		}
		it.mark(info.Key, "cell:"+it.remember(a, typ))
	}
	// cells of the header that were deleted
	for a, l := range info.Mem {
		if _, ok := next[l]; !ok {
			next[l] = m.peek(it, st, a, it.P.cellType[a.ID])
		}
	}
}

func existed(r *Term, h *memory, lc *loopCtx) bool {
	// a map made in the body has its MakeMap there
	_, ok := h.maps[r]
	return ok || h.mapEp[r] != ""
}

// peek is load without side effects on the state.
func (m *memory) peek(it *Interp, st *State, a *Term, typ types.Type) *Term {
	n := m.clone()
	var in ssa.Instruction = st.top().block.Instrs[0]
	return n.load(it, st, in, a, typ)
}
