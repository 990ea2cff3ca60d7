package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Memory that is on loan until the next operation of its owner: the line of a scanner, what is peeked
// at in a reader, a buffer given back to a pool. What refers to it may not be used after that.

var (
	lends = regexp.MustCompile(`^\(\*bufio\.Scanner\)\.Bytes$|^\(\*bufio\.Reader\)\.(ReadSlice|ReadLine|Peek)$|^\(\*bytes\.Buffer\)\.(Bytes|Next|AvailableBuffer)$`)
	ends  = regexp.MustCompile(`^\(\*bufio\.Scanner\)\.Scan$|^\(\*bufio\.Reader\)\.(Read.*|Peek|Discard|Reset|WriteTo)$|^\(\*bytes\.Buffer\)\.(Reset|Truncate|ReadFrom)$`)
)

// loan is one that a call made.
type loan struct {
	o    *pobj
	of   map[*pobj]bool // its owner
	kind string
	name string
	at   ssa.Instruction
}

func lender(name string) string { return name[:strings.LastIndex(name, ")")] }

// stale checks that no memory is used after its loan has ended.
func (c *Check) stale() {
	a := c.serving()
	owner := func(k *pcall) map[*pobj]bool {
		m := map[*pobj]bool{}
		if args := k.at.Common().Args; len(args) > 0 {
			if n := a.val(args[0], k.ctx, ""); n != nil {
				for l := range n.pts {
					m[l.o] = true
				}
			}
		}
		return m
	}
	var loans []*loan
	type end struct {
		of   map[*pobj]bool
		kind string
		name string
	}
	over := map[*pctx]map[ssa.Instruction][]end{}
	add := func(x *pctx, in ssa.Instruction, e end) {
		if over[x] == nil {
			over[x] = map[ssa.Instruction][]end{}
		}
		over[x][in] = append(over[x][in], e)
	}
	for _, k := range a.lib {
		if !during(k.ctx.root) {
			continue
		}
		if lends.MatchString(k.name) && k.at.Value() != nil {
			loans = append(loans, &loan{o: a.freshBlob(k.at, k.ctx, "result of "+k.name), of: owner(k), kind: lender(k.name), name: k.name, at: k.at})
		}
		if ends.MatchString(k.name) {
			e := end{owner(k), lender(k.name), k.name}
			// it ends for the callers as well
			for x, in := k.ctx, ssa.Instruction(k.at); x != nil && in != nil; in, x = x.at, x.up {
				add(x, in, e)
			}
		}
	}
	sort.Slice(loans, func(i, j int) bool { return loans[i].o.id < loans[j].o.id })
	if len(loans) == 0 {
		return
	}
	reach := map[*loan]map[*pobj]bool{} // what refers to it
	for _, l := range loans {
		reach[l] = a.referrers(l.o)
	}
	refers := func(v ssa.Value, x *pctx, l *loan) bool {
		for _, lf := range a.leaves(v.Type()) {
			if isStr(lf.typ) {
				continue
			}
			if n := a.nodes[pkey{v, x, lf.path}]; n != nil {
				for p := range n.pts {
					if reach[l][p.o] {
						return true
					}
				}
			}
		}
		return false
	}
	seen := map[string]bool{}
	for _, x := range a.order {
		if !during(x.root) || over[x] == nil {
			continue
		}
		lv := livenessOf(c.P, x.fn)
		for in, es := range over[x] {
			after := lv.after(in)
			for _, l := range loans {
				hit := ""
				for _, e := range es {
					if e.kind == l.kind && meet(e.of, l.of) {
						hit = e.name
					}
				}
				if hit == "" {
					continue
				}
				for _, v := range after {
					if al, ok := v.(*ssa.Alloc); ok && lv.local(al) {
						// a variable, of which it is known whether its value is used again
						if !lv.read(al, in) {
							continue
						}
					}
					k := fmt.Sprintf("%s|%s|%d", relName(c.P, x.fn), v.Name(), l.o.id)
					if refers(v, x, l) {
						if !seen[k] {
							seen[k] = true
							c.fail("not used after its loan:"+relName(c.P, x.fn), in.Pos(), "%s (%s) of %s is used after %s although it refers to the %s, which is overwritten by that", v.Name(), nameOf(v), relName(c.P, x.fn), hit, a.name(l.o))
						}
					} else {
						c.ok("not used after its loan")
					}
				}
			}
		}
		// what runs later
		for _, b := range x.fn.Blocks {
			for _, in := range b.Instrs {
				var cc *ssa.CallCommon
				what := ""
				switch in := in.(type) {
				case *ssa.Go:
					cc, what = in.Common(), "a goroutine"
				case *ssa.Defer:
					cc, what = in.Common(), "a deferred call"
				}
				if cc == nil {
					continue
				}
				vs := append([]ssa.Value{cc.Value}, cc.Args...)
				for _, v := range vs {
					for _, l := range loans {
						if v != nil && refers(v, x, l) {
							c.fail("not used after its loan:"+relName(c.P, x.fn), in.Pos(), "%s of %s is given the %s, which is overwritten before it ends", what, relName(c.P, x.fn), a.name(l.o))
						}
					}
				}
			}
		}
	}
	c.okN("loans", len(loans))
}

func nameOf(v ssa.Value) string {
	if al, ok := v.(*ssa.Alloc); ok && al.Comment != "" {
		return al.Comment
	}
	if p, ok := v.(*ssa.Phi); ok && p.Comment != "" {
		return p.Comment
	}
	return v.Type().String()
}

func meet(a, b map[*pobj]bool) bool {
	for o := range a {
		if b[o] {
			return true
		}
	}
	return false
}

// referrers are the objects from which o can be reached, o included.
func (a *pta) referrers(o *pobj) map[*pobj]bool {
	m := map[*pobj]bool{o: true}
	for again := true; again; {
		again = false
		for _, x := range a.objList {
			if m[x] {
				continue
			}
			a.contents(x, func(_ string, l loc) {
				if m[l.o] && !m[x] {
					m[x], again = true, true
				}
			})
		}
	}
	return m
}

// ---- liveness

type liveness struct {
	fn  *ssa.Function
	out map[*ssa.BasicBlock]map[ssa.Value]bool
}

func livenessOf(p *Prog, fn *ssa.Function) *liveness {
	lv := &liveness{fn: fn, out: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	for _, b := range fn.Blocks {
		lv.out[b] = map[ssa.Value]bool{}
	}
	for again := true; again; {
		again = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			in := lv.at(b, 0)
			for k, q := range b.Preds {
				_ = k
				for v := range in {
					if !lv.out[q][v] {
						lv.out[q][v], again = true, true
					}
				}
				// by the phis of b
				for j, qq := range b.Preds {
					if qq != q {
						continue
					}
					for _, x := range b.Instrs {
						ph, ok := x.(*ssa.Phi)
						if !ok {
							break
						}
						if v := ph.Edges[j]; tracked(v) && !lv.out[q][v] {
							lv.out[q][v], again = true, true
						}
					}
				}
			}
		}
	}
	return lv
}

func tracked(v ssa.Value) bool {
	switch v.(type) {
	case nil, *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return true
}

// at is what is live before the i-th instruction of b.
func (lv *liveness) at(b *ssa.BasicBlock, i int) map[ssa.Value]bool {
	m := map[ssa.Value]bool{}
	for v := range lv.out[b] {
		m[v] = true
	}
	for k := len(b.Instrs) - 1; k >= i; k-- {
		in := b.Instrs[k]
		if v, ok := in.(ssa.Value); ok {
			delete(m, v)
		}
		switch in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		}
		for _, op := range in.Operands(nil) {
			if op != nil && tracked(*op) {
				m[*op] = true
			}
		}
	}
	return m
}

// after is what is live after an instruction and was there before it.
func (lv *liveness) after(in ssa.Instruction) []ssa.Value {
	b := in.Block()
	for i, x := range b.Instrs {
		if x != in {
			continue
		}
		m := lv.at(b, i+1)
		if v, ok := in.(ssa.Value); ok {
			delete(m, v)
		}
		var l []ssa.Value
		for v := range m {
			l = append(l, v)
		}
		// also variables that are allocated anew before they are used
		sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
		return l
	}
	return nil
}

// local: the variable is only read, written, and its parts are.
func (lv *liveness) local(al *ssa.Alloc) bool {
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				if r.Op != token.MUL {
					return false
				}
			case *ssa.Store:
				if r.Addr != v {
					return false
				}
			case *ssa.FieldAddr:
				if !ok(r) {
					return false
				}
			case *ssa.IndexAddr:
				if _, isPtr := r.X.Type().Underlying().(*types.Pointer); !isPtr || !ok(r) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return ok(al)
}

// read: the value that the variable has after the instruction may be read.
func (lv *liveness) read(al *ssa.Alloc, in ssa.Instruction) bool {
	type pos struct {
		b *ssa.BasicBlock
		i int
	}
	seen := map[*ssa.BasicBlock]bool{}
	var q []pos
	for i, x := range in.Block().Instrs {
		if x == in {
			q = append(q, pos{in.Block(), i + 1})
		}
	}
	part := map[ssa.Value]bool{al: true}
	var parts func(v ssa.Value)
	parts = func(v ssa.Value) {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.FieldAddr:
				part[r] = true
				parts(r)
			case *ssa.IndexAddr:
				part[r] = true
				parts(r)
			}
		}
	}
	parts(al)
	for len(q) > 0 {
		p := q[0]
		q = q[1:]
		dead := false
		for i := p.i; i < len(p.b.Instrs) && !dead; i++ {
			switch x := p.b.Instrs[i].(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL && part[x.X] {
					return true
				}
			case *ssa.Store:
				dead = x.Addr == ssa.Value(al)
			case *ssa.Alloc:
				dead = x == al
			}
		}
		if dead {
			continue
		}
		for _, s := range p.b.Succs {
			if !seen[s] {
				seen[s] = true
				q = append(q, pos{s, 0})
			}
		}
	}
	return false
}
