package main

// C08: words accessed atomically are accessed in no other way, and are aligned.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// memClass names classes of memory: fields of struct types, elements of slices held in them, ...
type memClass struct {
	p       *Prog
	callers map[*ssa.Function][]*ssa.CallCommon
	busy    map[ssa.Value]bool
}

func newMemClass(p *Prog) *memClass {
	m := &memClass{p: p, callers: map[*ssa.Function][]*ssa.CallCommon{}, busy: map[ssa.Value]bool{}}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil {
						m.callers[f] = append(m.callers[f], c.Common())
					}
				}
			}
		}
	}
	return m
}

// of is the classes of memory that pointer (or slice) v may refer to.
func (m *memClass) of(v ssa.Value) map[string]bool {
	r := map[string]bool{}
	if m.busy[v] {
		return r
	}
	m.busy[v] = true
	defer delete(m.busy, v)
	add := func(s map[string]bool, suffix string) {
		for k := range s {
			r[k+suffix] = true
		}
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		r[fieldKey(st, x.Field)] = true
	case *ssa.IndexAddr:
		add(m.of(x.X), "[]")
	case *ssa.Global:
		r["var "+x.String()] = true
	case *ssa.Alloc:
		r[fmt.Sprintf("local %d", x.Pos())] = true
	case *ssa.MakeSlice:
		r[fmt.Sprintf("made %d", x.Pos())] = true
	case *ssa.Slice:
		add(m.of(x.X), "")
	case *ssa.UnOp:
		if x.Op == token.MUL {
			add(m.of(x.X), "*")
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			add(m.of(e), "")
		}
	case *ssa.ChangeType:
		add(m.of(x.X), "")
	case *ssa.Convert:
		add(m.of(x.X), "")
	case *ssa.Parameter:
		fn := x.Parent()
		for i, p := range fn.Params {
			if p != x {
				continue
			}
			for _, c := range m.callers[fn] {
				if i < len(c.Args) {
					add(m.of(c.Args[i]), "")
				}
			}
		}
	case *ssa.FreeVar:
		fn := x.Parent()
		for i, f := range fn.FreeVars {
			if f != x {
				continue
			}
			for _, r := range *fn.Referrers() {
				if mc, ok := r.(*ssa.MakeClosure); ok {
					add(m.of(mc.Bindings[i]), "")
				}
			}
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			add(m.results(c, x.Index), "")
		}
	case *ssa.Call:
		add(m.results(x, 0), "")
	}
	return r
}

func (m *memClass) results(c *ssa.Call, i int) map[string]bool {
	r := map[string]bool{}
	f := c.Common().StaticCallee()
	if f == nil {
		return r
	}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) {
			for k := range m.of(ret.Results[i]) {
				r[k] = true
			}
		}
	}
	return r
}

// fresh: memory that this function has just allocated
func freshRoot(v ssa.Value) bool { return freshIn(v, map[ssa.Value]bool{}) }

func freshIn(v ssa.Value, seen map[ssa.Value]bool) bool {
	for {
		if seen[v] {
			return true // whatever else it may be decides
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeSlice:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.UnOp:
			// a slice or pointer stored in an object allocated here
			if x.Op != token.MUL {
				return false
			}
			fa, ok := x.X.(*ssa.FieldAddr)
			if !ok {
				return false
			}
			al, ok := fa.X.(*ssa.Alloc)
			if !ok {
				return false
			}
			stored := false
			for _, r := range *al.Referrers() {
				if f2, ok := r.(*ssa.FieldAddr); ok && f2.Field == fa.Field {
					for _, r2 := range *f2.Referrers() {
						if s, ok := r2.(*ssa.Store); ok && s.Addr == ssa.Value(f2) {
							if !freshIn(s.Val, seen) {
								return false
							}
							stored = true
						}
					}
				}
			}
			return stored
		default:
			return false
		}
	}
}

func atomicTarget(c *ssa.CallCommon) (ssa.Value, int) {
	f := c.StaticCallee()
	if f == nil || fnPkg(f) == nil || fnPkg(f).Path() != "sync/atomic" || f.Signature.Recv() != nil || len(c.Args) == 0 {
		return nil, 0
	}
	pt, ok := c.Args[0].Type().Underlying().(*types.Pointer)
	if !ok {
		return nil, 0
	}
	return c.Args[0], widthOf(pt.Elem())
}

func c08(c *Check) {
	p := c.P
	m := newMemClass(p)
	atomics := map[string]token.Pos{}
	wide := map[string]ssa.Value{}
	holder := map[string]types.Type{} // struct types with such fields
	for _, fn := range p.Funcs {
		c.funcs[fn.String()] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				a, w := atomicTarget(ci.Common())
				if a == nil {
					continue
				}
				cl := m.of(a)
				if len(cl) == 0 {
					if fn.Parent() == nil && len(m.callers[fn]) == 0 {
						continue // never called
					}
					c.fail("unknown:"+relName(p, fn), in.Pos(), "it is not known which memory %s accesses atomically", relName(p, fn))
				}
				for k := range cl {
					atomics[k] = in.Pos()
					if w == 64 {
						wide[k] = a
					}
					c.ok("atomic access")
				}
				m.holders(a, holder, map[ssa.Value]bool{})
			}
		}
	}
	var names []string
	for k := range atomics {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, n := range names {
		c.note("atomic word: %s", n)
	}
	isAtomic := func(v ssa.Value) string {
		for k := range m.of(v) {
			if _, ok := atomics[k]; ok {
				return k
			}
		}
		return ""
	}
	// does a value of this type hold words of the set?
	var holds func(t types.Type) bool
	holds = func(t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if _, ok := atomics[fieldKey(t, i)]; ok {
					return true
				}
				if holds(u.Field(i).Type()) {
					return true
				}
			}
		case *types.Array:
			return holds(u.Elem())
		}
		return false
	}
	elems := func(v ssa.Value) bool {
		s, ok := v.Type().Underlying().(*types.Slice)
		if !ok {
			return false
		}
		if holds(s.Elem()) {
			return true
		}
		for k := range m.of(v) {
			if _, ok := atomics[k+"[]"]; ok {
				return true
			}
		}
		return false
	}
	access := func(fn *ssa.Function, in ssa.Instruction, addr ssa.Value, verb string) {
		if freshRoot(addr) {
			if isAtomic(addr) != "" {
				c.ok("access before the memory is shared")
			}
			return
		}
		if k := isAtomic(addr); k != "" {
			c.fail("plain:"+relName(p, fn)+":"+shortName(k), p.instrPos(in), "%s %s a word (%s) that is accessed atomically elsewhere (%s)", relName(p, fn), verb, shortName(k), p.posStr(atomics[k]))
			return
		}
		if pt, ok := addr.Type().Underlying().(*types.Pointer); ok && holds(pt.Elem()) {
			c.fail("whole:"+relName(p, fn), p.instrPos(in), "%s %s a whole %s, which holds words that are accessed atomically", relName(p, fn), verb, shortName(pt.Elem().String()))
			return
		}
		c.ok("plain access of other memory")
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.Op == token.MUL && len(*x.Referrers()) > 0 {
						access(fn, in, x.X, "reads")
					}
				case *ssa.Store:
					access(fn, in, x.Addr, "writes")
				case ssa.CallInstruction:
					cc := x.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "copy", "append", "clear":
							for i, a := range cc.Args {
								if elems(a) && !freshRoot(a) {
									c.fail("bulk:"+relName(p, fn), in.Pos(), "%s passes words that are accessed atomically to %s", relName(p, fn), bi.Name())
								}
								_ = i
							}
						}
						continue
					}
					f := cc.StaticCallee()
					for _, a := range cc.Args {
						if isAtomicFn(f) || f != nil && p.inModule(f) {
							continue
						}
						if _, ok := a.Type().Underlying().(*types.Pointer); ok && isAtomic(a) != "" {
							c.fail("leak:"+relName(p, fn), in.Pos(), "%s passes a word that is accessed atomically to %s", relName(p, fn), cc.String())
						}
						if elems(a) && !freshRoot(a) {
							c.fail("leak:"+relName(p, fn), in.Pos(), "%s passes words that are accessed atomically to %s", relName(p, fn), cc.String())
						}
					}
				case *ssa.MakeInterface:
					if _, ok := x.X.Type().Underlying().(*types.Pointer); ok && isAtomic(x.X) != "" {
						c.fail("leak:"+relName(p, fn), in.Pos(), "%s lets a word that is accessed atomically escape", relName(p, fn))
					}
				case *ssa.Convert:
					if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
						c.fail("unsafe:"+relName(p, fn), in.Pos(), "%s takes an unsafe pointer: what is accessed through it cannot be decided", relName(p, fn))
					}
				}
			}
		}
	}
	// alignment
	for _, arch := range []string{"386", "arm", "mips"} {
		sz := types.SizesFor("gc", arch)
		var ks []string
		for k := range wide {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			bad := m.misaligned(wide[k], sz, map[ssa.Value]bool{})
			c.must(bad == "", "64-bit word aligned", arch+":"+shortName(k), atomics[k], "on %s: %s", arch, bad)
		}
		// structs that hold such structs by value
		for _, tn := range sortedTypes(holder) {
			t := holder[tn]
			for _, pk := range p.Pkgs {
				sc := pk.Types.Scope()
				for _, n := range sc.Names() {
					o, ok := sc.Lookup(n).(*types.TypeName)
					if !ok {
						continue
					}
					s := structOf(o.Type())
					if s == nil {
						continue
					}
					offs := offsets(sz, s)
					for i := 0; i < s.NumFields(); i++ {
						ft := s.Field(i).Type()
						if at, ok := ft.Underlying().(*types.Array); ok {
							ft = at.Elem()
						}
						if types.Identical(ft, t) {
							c.must(offs[i]%8 == 0, "64-bit word aligned", arch+":"+n, o.Pos(), "on %s: %s holds a %s at offset %d, so that its 64-bit words are not aligned", arch, n, shortName(tn), offs[i])
						}
					}
				}
			}
		}
	}
}

func sortedTypes(m map[string]types.Type) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func isAtomicFn(f *ssa.Function) bool {
	return f != nil && fnPkg(f) != nil && (fnPkg(f).Path() == "sync/atomic")
}

func offsets(sz types.Sizes, s *types.Struct) []int64 {
	fs := make([]*types.Var, s.NumFields())
	for i := range fs {
		fs[i] = s.Field(i)
	}
	return sz.Offsetsof(fs)
}

// holders collects the struct types around an address.
func (m *memClass) holders(v ssa.Value, into map[string]types.Type, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		ft := x.Type().Underlying().(*types.Pointer).Elem()
		_, isS := ft.Underlying().(*types.Struct)
		_, isA := ft.Underlying().(*types.Array)
		if isS || isA || widthOf(ft) == 64 {
			into[types.TypeString(st, nil)] = st
			m.holders(x.X, into, seen)
		}
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			m.holders(x.X, into, seen)
		}
	case *ssa.Parameter:
		fn := x.Parent()
		for i, p := range fn.Params {
			if p == x {
				for _, c := range m.callers[fn] {
					if i < len(c.Args) {
						m.holders(c.Args[i], into, seen)
					}
				}
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			m.holders(e, into, seen)
		}
	}
}

// misaligned explains why the 64-bit word at v is not known to be aligned.
func (m *memClass) misaligned(v ssa.Value, sz types.Sizes, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		s := structOf(st)
		if off := offsets(sz, s)[x.Field]; off%8 != 0 {
			return fmt.Sprintf("field %s of %s is at offset %d", s.Field(x.Field).Name(), shortName(st.String()), off)
		}
		return m.misaligned(x.X, sz, seen)
	case *ssa.IndexAddr:
		var et types.Type
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Pointer:
			et = u.Elem().Underlying().(*types.Array).Elem()
		}
		if n := sz.Sizeof(et); n%8 != 0 {
			return fmt.Sprintf("elements of %s take %d bytes, so that every other one is not aligned", strings.ReplaceAll(x.X.Type().String(), m.p.Mod+"/", ""), n)
		}
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return m.misaligned(x.X, sz, seen)
		}
		return ""
	case *ssa.Phi:
		for _, e := range x.Edges {
			if s := m.misaligned(e, sz, seen); s != "" {
				return s
			}
		}
	case *ssa.Parameter:
		fn := x.Parent()
		for i, p := range fn.Params {
			if p == x {
				for _, c := range m.callers[fn] {
					if i < len(c.Args) {
						if s := m.misaligned(c.Args[i], sz, seen); s != "" {
							return s
						}
					}
				}
			}
		}
	}
	return ""
}

func init() {
	register(&checkDef{id: "C08", run: c08,
		rule:   "the words (struct fields, slice elements, variables) that any function passes to sync/atomic are read and written by plain instructions only in memory that the same function has just allocated; 64-bit ones have offsets and element sizes that are multiples of 8 under the 386, arm and mips layouts",
		floor:  map[string]int{"atomic access": 15, "64-bit word aligned": 3, "plain access of other memory": 300},
		assume: []string{"allocations are 8-byte aligned, as documented in sync/atomic", "no memory is reached through reflection"}})
}
