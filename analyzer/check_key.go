package main

// C13: observations and queries agree on the record they address.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// stripConv removes conversions between strings and byte slices.
func stripConv(t *Term) *Term {
	for t.Op == "strof" || t.Op == "bytesof" || t.Op == "at" {
		t = t.Args[0]
	}
	return t
}

// elemRef: t is (a field of) element idx of the list seq.
func elemRef(t *Term) (seq, idx *Term, field string, ok bool) {
	t = stripConv(t)
	if t.Op == "field" {
		inner := t.Args[0]
		if a := loadAddr(inner); a != nil && a.Op == "ia" {
			return a.Args[0], a.Args[1], aggFieldName(inner.Typ, t.Aux), true
		}
		if inner.Op == "elem" && len(inner.Args) == 2 {
			return inner.Args[0], inner.Args[1], aggFieldName(inner.Typ, t.Aux), true
		}
	}
	a := loadAddr(t)
	if a == nil {
		return nil, nil, "", false
	}
	if a.Op == "ia" {
		return a.Args[0], a.Args[1], "", true
	}
	if a.Op == "fa" && a.Args[0].Op == "ia" {
		return a.Args[0].Args[0], a.Args[0].Args[1], fieldName(a), true
	}
	return nil, nil, "", false
}

func aggFieldName(t types.Type, aux string) string {
	s := structOf(t)
	if s == nil {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if fmt.Sprint(i) == aux {
			return s.Field(i).Name()
		}
	}
	return ""
}

// sameBytes: is it known that two byte strings are equal (or that they differ)?
func sameBytes(f *fact, a, b func(*Term) bool) (eq, known bool) {
	for x := f; x != nil; x = x.up {
		c := x.cond
		if c == nil {
			continue
		}
		switch {
		case c.Op == "call" && c.Aux == "bytes.Equal" && len(c.Args) == 2,
			c.Op == "eq" && len(c.Args) == 2 && (isString(c.Args[0].Typ) || isString(c.Args[1].Typ)):
			p, q := stripConv(c.Args[0]), stripConv(c.Args[1])
			if a(p) && b(q) || a(q) && b(p) {
				return x.val, true
			}
		case c.Op == "eq0" && c.Args[0].Op == "call" && (c.Args[0].Aux == "bytes.Compare" || c.Args[0].Aux == "strings.Compare"):
			p, q := stripConv(c.Args[0].Args[0]), stripConv(c.Args[0].Args[1])
			if a(p) && b(q) || a(q) && b(p) {
				return x.val, true
			}
		}
	}
	return false, false
}

func is(t *Term) func(*Term) bool { return func(x *Term) bool { return x == t } }

// methodOn: is fn a method with one of the names on the named type of a package of the module?
func (p *Prog) methodOn(fn *ssa.Function, rel, typ string, names ...string) bool {
	if fn == nil || fn.Signature.Recv() == nil {
		return false
	}
	n := namedOf(fn.Signature.Recv().Type())
	if n == nil || n.Obj().Name() != typ || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != p.path(rel) {
		return false
	}
	for _, x := range names {
		if fn.Name() == x {
			return true
		}
	}
	return len(names) == 0
}

func (p *Prog) isHashFn(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	return pk != nil && (strings.HasPrefix(pk.Path(), p.path("internal/hash")) || strings.HasPrefix(pk.Path(), "hash"))
}

// storeOpaque are the functions that the analysis of the store does not look into.
func (p *Prog) storeOpaque(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	return p.isHashFn(fn) || pk != nil && pk.Path() == p.path("internal/bufmap") ||
		p.methodOn(fn, "internal/collation", "Collator", "Update", "Read")
}

func isGet(e *Event) bool {
	return e.Kind == EvCall && (strings.HasSuffix(e.Name, "internal/storage.Backend.Get") || strings.HasSuffix(e.Name, "internal/bufmap.Map.Get"))
}

// storeOp is an exported function of the storage package that uses the backend.
type storeOp struct {
	it    *Interp
	fn    *ssa.Function
	write bool
	row   *Term // the row or query
	uses  []*storeUse
}

type storeUse struct {
	p  *Path
	ev *Event
	at int
}

func (p *Prog) storeOps() []*storeOp {
	if v, ok := p.cache["storeOps"]; ok {
		return v.([]*storeOp)
	}
	var l []*storeOp
	for _, fn := range p.exported("internal/storage") {
		it := p.Run(fn, &Config{Opaque: p.storeOpaque, Invariants: true})
		op := &storeOp{it: it, fn: fn}
		for _, pa := range it.Paths {
			for i, e := range pa.Events {
				if isUpdate(e) || isGet(e) {
					op.uses = append(op.uses, &storeUse{pa, e, i})
					if isUpdate(e) {
						op.write = true
					}
				}
			}
		}
		if len(op.uses) > 0 {
			l = append(l, op)
		}
	}
	if p.cache == nil {
		p.cache = map[string]interface{}{}
	}
	p.cache["storeOps"] = l
	return l
}

// ops are the operations of the store; what could not be decided about them is reported.
func (c *Check) ops() []*storeOp {
	l := c.P.storeOps()
	w, r := 0, 0
	for _, op := range l {
		c.count(op.it)
		for _, pa := range op.it.Params {
			n := namedOf(pa.Typ)
			if n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == c.P.path("internal/collation") && (n.Obj().Name() == "Row" || n.Obj().Name() == "Query") {
				op.row = pa
			}
		}
		if op.row == nil {
			c.fail("row:"+relName(c.P, op.fn), op.fn.Pos(), "it has no row or query")
		}
		if op.write {
			w++
		} else {
			r++
		}
	}
	if w == 0 {
		c.fail("no-write", token.NoPos, "no exported function of the storage package updates the backend")
	}
	if r == 0 {
		c.fail("no-read", token.NoPos, "no exported function of the storage package reads the backend")
	}
	return l
}

// what a loop over the keys feeds to the identity of the record
type absorb struct {
	role string // "F", "V" or a description of a constant
	t    *Term
	j    *Term // index of the matching field
	ev   *Event
}

// identity describes how the key of a record is computed.
type identity struct {
	fresh string // the function that starts it
	end   string
	keys  *Term
	data  *Term // field of the row that is searched
	items []string
	pre   []string
	pos   token.Pos
}

func (id *identity) String() string {
	return fmt.Sprintf("%s;%s;[%s];%s", id.fresh, strings.Join(id.pre, ","), strings.Join(id.items, ","), id.end)
}

// isAbsorb: does the call add something to the hash h?
func isAbsorb(e *Event, h *Term) bool {
	if isBuffer(h) {
		return e.Kind == EvAppend && appendRoot(e.Args[0]) == h
	}
	if e.Kind != EvCall || len(e.Args) == 0 {
		return false
	}
	n := e.Name[strings.LastIndexByte(e.Name, '.')+1:]
	switch n {
	case "Sum64", "Sum32", "Sum", "Size", "BlockSize":
		return false
	}
	for _, a := range e.Args {
		if a == h || a.Op == "iface" && a.Args[0] == h {
			return true
		}
	}
	return false
}

// isBuffer: h is a variable in which the bytes to be hashed are gathered.
func isBuffer(h *Term) bool {
	return h.Def != nil && h.Def.Kind == "phi" && h.Def.Loop != nil && h.Typ != nil && isByteSlice(h.Typ)
}

// appendRoot is the slice that a chain of appends begins with.
func appendRoot(t *Term) *Term {
	for strings.HasPrefix(t.Op, "append") && len(t.Args) > 0 {
		t = t.Args[0]
	}
	return t
}

func hashObj(t *Term) *Term {
	if t.Op == "iface" {
		return t.Args[0]
	}
	return t
}

// computed finds out how the key passed to the backend is computed on a path.
func (op *storeOp) computed(c *Check, u *storeUse) *identity {
	who := relName(c.P, op.fn)
	k := u.ev.Args[1]
	if k.Def == nil || k.Def.Kind != "res" || !strings.HasSuffix(k.Def.Callee, "Sum64") || len(k.Def.Args) != 2 {
		c.fail("identity:"+who, u.ev.Pos, "the record is not addressed by a hash of the key values: %s", k)
		return nil
	}
	h := hashObj(k.Def.Args[1])
	buffer := isBuffer(h) && mkLen(h.Def.Loop.Init[h]).isConstInt(0) && !contains(h.Def.Loop.Init[h], op.it.Params[0])
	if !buffer && (h.Def == nil || h.Def.Kind != "res" || len(h.Def.Args) != 1) {
		c.fail("identity:"+who, u.ev.Pos, "the hash that addresses the record is not computed afresh: %s", h)
		return nil
	}
	id := &identity{fresh: shortName(h.Def.Callee), end: shortName(k.Def.Callee), pos: u.ev.Pos}
	var loop *Event
	li := 0
	started, summed := buffer, false
	if buffer {
		id.fresh = "buffer"
	}
	for i, e := range u.p.Events[:u.at] {
		if e.Kind == EvCall && len(e.Res) > 0 && e.Res[0] == h {
			started = true
			if loop != nil || len(id.pre) > 0 {
				c.fail("restart:"+who, e.Pos, "the hash is started after some key values were added to it")
				return nil
			}
		}
		if e.Kind == EvCall && len(e.Res) > 0 && e.Res[0] == k {
			summed = true
		}
		if isAbsorb(e, h) {
			if summed {
				continue
			}
			var l []string
			for _, a := range e.Args[1:] {
				if !constantTerm(a) {
					c.fail("outside:"+who, e.Pos, "%s is added to the identity of the record outside the loop over the keys", a)
					return nil
				}
				l = append(l, a.String())
			}
			if loop != nil {
				l = append([]string{"after"}, l...)
			}
			id.pre = append(id.pre, strings.Join(l, " "))
		}
		if e.Kind == EvLoop {
			has := false
			for _, b := range backsOf(e) {
				for _, x := range b.flat() {
					if isAbsorb(x, h) && inBody(b, e, x) {
						has = true
					}
				}
			}
			// only a loop that has run to its end on this path
			if has {
				if loop != nil {
					c.fail("loops:"+who, e.Pos, "key values are added to the identity in several loops")
					return nil
				}
				loop, li = e, i
			}
		}
	}
	if !started || !summed {
		c.fail("identity:"+who, u.ev.Pos, "the order in which the identity of the record is computed is unclear")
		return nil
	}
	if loop == nil {
		c.fail("no-keys:"+who, u.ev.Pos, "the identity of the record does not depend on the key values")
		return nil
	}
	// the sum is taken after the loop
	var keys *Term
	i, _, why := rangeLoop(loop, u.p.Events[li:u.at], func(t *Term) bool {
		for _, e := range u.p.Events[:li] {
			if e.Kind == EvReturn && c.P.methodOn(e.Fn, "internal/collation", "Collator", "Keys") && len(e.Res) == 1 && e.Res[0] == t && baseRoot(t) == op.it.Params[0] {
				keys = t
				return true
			}
		}
		return false
	})
	if why != "" {
		c.fail("keys:"+who, loop.Pos, "the record is addressed although not all keys of the collation have been taken into account: %s", why)
		return nil
	}
	c.ok("every key is taken into account")
	id.keys = keys
	first := true
	for _, b := range backsOf(loop) {
		items, data, ok := op.iteration(c, who, b, loop, h, keys, i)
		if !ok {
			return nil
		}
		if first {
			id.items, id.data = items, data
			first = false
		} else if strings.Join(items, ",") != strings.Join(id.items, ",") || id.data != data {
			c.fail("varies:"+who, b.Pos, "what is added to the identity of the record for a key varies: %s or %s", strings.Join(items, ","), strings.Join(id.items, ","))
			return nil
		}
	}
	return id
}

func constantTerm(t *Term) bool {
	switch t.Op {
	case "int", "str", "float", "true", "false", "nil", "nilslice":
		return true
	case "bytesof", "iface":
		return constantTerm(t.Args[0])
	}
	return false
}

// inBody: is event x part of an iteration b of the loop entered by e?
func inBody(b *Path, e, x *Event) bool {
	in := false
	for _, y := range b.Events {
		if y == e {
			in = true
			continue
		}
		if in {
			for _, z := range flatten([]*Event{y}) {
				if z == x {
					return true
				}
			}
		}
	}
	return false
}

// iteration: what one key adds to the identity.
func (op *storeOp) iteration(c *Check, who string, b *Path, loop *Event, h, keys, i *Term) (items []string, data *Term, ok bool) {
	k := indexOf(b.Events, loop)
	kb, _, _ := sliceParts(keys)
	isKey := func(t *Term) bool {
		s, x, f, ok := elemRef(t)
		return ok && x == i && f == "" && (s == keys || s == kb)
	}
	var as []absorb
	var j, d *Term
	grown := h // the buffer with what was appended
	for _, e := range b.Events[k+1:] {
		if e.Kind == EvLoop {
			for _, bb := range backsOf(e) {
				for _, x := range bb.flat() {
					if isAbsorb(x, h) && inBody(bb, e, x) {
						c.fail("nested:"+who, x.Pos, "it is unclear how often something is added to the identity of the record for each key")
						return nil, nil, false
					}
				}
			}
		}
		if !isAbsorb(e, h) {
			continue
		}
		var parts []string
		for _, a := range e.Args[1:] {
			switch {
			case isKey(a):
				parts = append(parts, "F")
			case constantTerm(a):
				parts = append(parts, a.String())
			default:
				if a.Op == "len" || a.Op == "zext" || a.Op == "sext" {
					x := a
					for len(x.Args) == 1 && x.Op != "len" {
						x = x.Args[0]
					}
					if x.Op == "len" {
						if s, y, f, ok := elemRef(x.Args[0]); ok && f != "" {
							if j == nil {
								j, d = y, s
							}
							if y == j && s == d {
								parts = append(parts, "len "+f)
								continue
							}
						}
					}
				}
				s, x, f, ok := elemRef(a)
				if !ok || f == "" || !contains(s, op.row) {
					c.fail("content:"+who, e.Pos, "%s is added to the identity of the record, which is neither a key nor its value", a)
					return nil, nil, false
				}
				if j == nil {
					j, d = x, s
				}
				if x != j || s != d {
					c.fail("content:"+who, e.Pos, "values of different fields are added for one key")
					return nil, nil, false
				}
				parts = append(parts, f)
			}
		}
		if isBuffer(h) {
			if e.Args[0] != grown {
				c.fail("content:"+who, e.Pos, "what is gathered for a key replaces what was there")
				return nil, nil, false
			}
			grown = e.Res[0]
		}
		as = append(as, absorb{role: strings.Join(parts, " "), ev: e})
	}
	if isBuffer(h) && b.Next[h] != grown {
		c.fail("content:"+who, b.Pos, "what is gathered for a key is not kept: %s", b.Next[h])
		return nil, nil, false
	}
	if j == nil {
		c.fail("missing:"+who, b.Pos, "a key may be passed over without its value being added to the identity of the record")
		return nil, nil, false
	}
	isField := func(t *Term) bool {
		s, x, f, ok := elemRef(t)
		return ok && x == j && s == d && f == "F"
	}
	eq, known := sameBytes(b.Facts, isKey, isField)
	if !c.must(known && eq, "the value is that of the key field", who, b.Pos, "the value added for a key may be that of another field") {
		return nil, nil, false
	}
	hasV := false
	for _, a := range as {
		items = append(items, a.role)
		if a.role == "V" {
			hasV = true
		}
	}
	if !c.must(hasV, "the value is added", who, b.Pos, "the value of the key is not added to the identity of the record") {
		return nil, nil, false
	}
	return items, d, true
}

// notFound: the path touches no record because a key was searched for and is not there.
func (op *storeOp) notFound(c *Check, p *Path) (bool, string) {
	why := "no key is searched for"
	for i, e := range p.Events {
		if e.Kind != EvLoop {
			continue
		}
		var data *Term
		j, _, w := rangeLoop(e, p.Events[i:], func(t *Term) bool {
			if contains(t, op.row) {
				data = t
				return true
			}
			return false
		})
		if w != "" || data == nil {
			why = "the search may end early"
			continue
		}
		// nothing was found: every element differs from the key sought
		ok := true
		for _, b := range backsOf(e) {
			var key *Term
			eq, known := sameBytes(b.Facts, func(t *Term) bool {
				s, x, f, ok := elemRef(t)
				return ok && x == j && f == "F" && s != nil && contains(s, op.row)
			}, func(t *Term) bool {
				s, _, f, ok := elemRef(t)
				if ok && f == "" && !contains(s, op.row) {
					key = t
					return true
				}
				return false
			})
			if !known || eq || key == nil {
				ok = false
				why = "a field with the name of the key may be passed over"
			}
		}
		if ok {
			return true, ""
		}
	}
	return false, why
}

func c13(c *Check) {
	var ids [2][]*identity
	var ops [2]*storeOp
	for _, op := range c.ops() {
		who := relName(c.P, op.fn)
		if op.row == nil {
			continue
		}
		w := 0
		if op.write {
			w = 1
		}
		ops[w] = op
		for _, u := range op.uses {
			c.must(op.write == isUpdate(u.ev), "one way of access", who, u.ev.Pos, "a record is both read and updated")
			n := 0
			for _, v := range op.uses {
				if v.p == u.p {
					n++
				}
			}
			c.must(n == 1 && u.p.Out != OutBack, "one record", who, u.ev.Pos, "more than one record may be touched")
			if b := u.ev.Args[0]; !c.must(baseRoot(b) == op.it.Params[0], "backend of the store", who, u.ev.Pos, "the backend is not that of the store: %s", b) {
				continue
			}
			for _, e := range flatten(u.p.Events[:u.at]) {
				a := e.Addr
				if e.Kind == EvCopy {
					a, _, _ = sliceParts(e.Args[0])
				} else if e.Kind != EvStore {
					continue
				}
				if b := baseRoot(a); b == op.row || b == op.it.Params[0] {
					c.fail("changed:"+who, e.Pos, "%s is changed before the record is addressed", a)
				}
			}
			if id := op.computed(c, u); id != nil {
				ids[w] = append(ids[w], id)
			}
			if isUpdate(u.ev) {
				op.applied(c, who, u)
			}
		}
		for _, p := range op.it.Paths {
			touched := false
			for _, u := range op.uses {
				if u.p == p {
					touched = true
				}
			}
			switch p.Out {
			case OutReturn:
				if touched || errNonNil(p.Facts, p.Ret[len(p.Ret)-1]) {
					continue
				}
				r := p.Ret[len(p.Ret)-1]
				if r.Def != nil && r.Def.Kind == "res" && r.Def.Callee == "context.Context.Err" {
					continue
				}
				ok, why := op.notFound(c, p)
				c.must(ok, "passed over only if a key is missing", who, p.Pos, "the record is not touched although all keys may be there: %s", why)
			case OutBack:
			default:
				c.fail("end:"+who, p.Pos, "it ends with %s", p.Out)
			}
		}
	}
	if len(ids[0]) > 0 && len(ids[1]) > 0 {
		a := ids[1][0]
		for _, b := range append(ids[0], ids[1]...) {
			m := map[*Term]*Term{}
			for w := 0; w < 2; w++ {
				m[ops[w].it.Params[0]] = ops[0].it.Params[0]
			}
			c.must(a.String() == b.String(), "same computation", "identity", b.pos, "observations and queries compute the identity of a record differently: %s and %s", a, b)
			c.must(subst(a.keys, m) == subst(b.keys, m), "same keys", "identity", b.pos, "observations and queries use different keys: %s and %s", a.keys, b.keys)
		}
		c.note("identity of a record: %s", a)
		// framing
		framed := false
		for _, s := range a.items {
			if strings.Contains(s, "len V") {
				framed = true
			}
		}
		c.must(framed, "unambiguous", "framing "+strings.Join(a.items, ","), a.pos, "what is hashed for different combinations of key values can be the same: for each key %s is added, with nothing to tell where a value ends", strings.Join(a.items, " then "))
	}
	c13keys(c)
}

// applied: the function given to the backend applies exactly this row to the record.
func (op *storeOp) applied(c *Check, who string, u *storeUse) {
	fn := u.ev.Args[len(u.ev.Args)-1]
	cfg := &Config{Opaque: c.P.storeOpaque, Start: u.ev.snap}
	var target *ssa.Function
	if (fn.Op == "closure" || fn.Op == "func") && fn.Fn != nil {
		target = fn.Fn
		cfg.Free = fn.Args
	}
	if target == nil {
		c.fail("update-fn:"+who, u.ev.Pos, "the update function is unclear: %s", fn)
		return
	}
	it := c.run(target, cfg)
	n := 0
	for _, p := range it.Paths {
		if p.Out != OutReturn {
			c.fail("update-end:"+who, p.Pos, "the update function ends with %s", p.Out)
			continue
		}
		var calls []*Event
		for _, e := range p.Events {
			if e.Kind == EvCall && c.P.methodOn(e.Call, "internal/collation", "Collator", "Update") {
				calls = append(calls, e)
			}
			if e.Kind == EvStore && contains(e.Addr, it.Params[0]) || e.Kind == EvCopy && contains(e.Args[0], it.Params[0]) {
				c.fail("update-writes:"+who, e.Pos, "the update function changes the record in another way than by the collation's update")
			}
		}
		if len(calls) != 1 {
			if len(p.Ret) == 1 && errNonNil(p.Facts, p.Ret[0]) && len(calls) == 0 {
				continue
			}
			c.fail("update-count:"+who, p.Pos, "the row is applied %d times", len(calls))
			continue
		}
		n++
		a := calls[0].Args
		coll := a[0]
		if x := loadAddr(coll); x != nil {
			coll = x
		}
		c.must(baseRoot(coll) == op.it.Params[0], "collator of the store", who, calls[0].Pos, "the row is not applied by the collator of the store: %s", a[0])
		row := a[1]
		same := row == op.row
		if !same {
			if x := loadAddr(row); x != nil {
				same = calls[0].Mem(x, op.row.Typ) == op.row
			} else if s := structOf(op.row.Typ); s != nil && row.Op == "agg" {
				same = true
				for i := range row.Args {
					if row.Args[i] != mkField(op.row, i, s.Field(i).Type()) {
						same = false
					}
				}
			}
		}
		c.must(same, "the observation itself", who, calls[0].Pos, "it is not the observation itself that is applied: %s", row)
		c.must(a[2] == it.Params[len(it.Params)-2] && a[3] == it.Params[len(it.Params)-1], "the record lent", who, calls[0].Pos, "the observation is not applied to the record lent by the backend with its signal to initialise")
		c.must(p.Ret[0] == calls[0].Res[0] || errNil(p.Facts, calls[0].Res[0]) && errNil(p.Facts, p.Ret[0]), "outcome returned", who, p.Pos, "the outcome of the update is not returned")
	}
	if n == 0 {
		c.fail("update-never:"+who, u.ev.Pos, "the observation is never applied")
	}
}

// c13keys: the keys of a compiled collation are those of the schema, in order.
func c13keys(c *Check) {
	for _, fn := range c.P.exported("internal/collation") {
		if !c.P.methodOn(fn, "internal/collation", "Collator", "Keys") {
			continue
		}
		it := c.run(fn, &Config{})
		for _, p := range it.Paths {
			ok := p.Out == OutReturn && p.Ret[0].Op == "field" && p.Ret[0].Args[0] == it.Params[0]
			if a := loadAddrOr(p.Ret[0]); !ok && a != nil {
				ok = a.Op == "fa" && a.Args[0] == it.Params[0]
			}
			c.must(ok, "keys as compiled", "keys", p.Pos, "Keys does not return the keys of the collation")
		}
	}
}

func loadAddrOr(t *Term) *Term {
	if t == nil {
		return nil
	}
	return loadAddr(t)
}

func init() {
	register(&checkDef{
		id:   "C13",
		run:  c13,
		rule: "On every path of the store's operations, the key given to the backend is the sum of a fresh hash fed by one loop that visits every key of the collation in order; each iteration adds the value of the field of the row or query whose name equals that key; the record is left alone only after an exhaustive search for a key; both operations compute the same; the update function applies exactly the observation to the record lent; what is hashed is framed",
		floor: map[string]int{
			"every key is taken into account":      2,
			"the value is that of the key field":   2,
			"passed over only if a key is missing": 2,
			"the observation itself":               1,
			"same computation":                     2,
		},
	})
}
