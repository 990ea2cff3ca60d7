package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// callees are the functions that a call may reach as far as the program is known: the function named,
// the methods of the types of the module (and of the library's types that are used in it) that have
// the interface called, or the functions of the same signature whose value is taken somewhere.
func (p *Prog) callees(x ssa.CallInstruction) []*ssa.Function {
	key := "callees"
	m, _ := p.cache[key].(map[ssa.CallInstruction][]*ssa.Function)
	if m == nil {
		m = map[ssa.CallInstruction][]*ssa.Function{}
		p.setCache(key, m)
	}
	if l, ok := m[x]; ok {
		return l
	}
	l := p.resolve(x)
	m[x] = l
	return l
}

func (p *Prog) setCache(k string, v interface{}) {
	if p.cache == nil {
		p.cache = map[string]interface{}{}
	}
	p.cache[k] = v
}

func (p *Prog) resolve(x ssa.CallInstruction) []*ssa.Function {
	cc := x.Common()
	if f := cc.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if cc.IsInvoke() {
		it, _ := cc.Value.Type().Underlying().(*types.Interface)
		if it == nil {
			return nil
		}
		var l []*ssa.Function
		for _, t := range p.concrete() {
			if !types.Implements(t, it) {
				continue
			}
			ms := types.NewMethodSet(t)
			if s := ms.Lookup(cc.Method.Pkg(), cc.Method.Name()); s != nil {
				if f := p.SSA.MethodValue(s); f != nil {
					l = append(l, unwrap(f))
				}
			}
		}
		return l
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	var l []*ssa.Function
	for _, f := range p.taken() {
		if types.Identical(types.NewSignatureType(nil, nil, nil, f.Signature.Params(), f.Signature.Results(), f.Signature.Variadic()), cc.Value.Type().Underlying()) {
			l = append(l, f)
		}
	}
	return l
}

// unwrap gives the method that a wrapper made for a pointer receiver calls.
func unwrap(f *ssa.Function) *ssa.Function {
	if f.Synthetic == "" || f.Object() == nil {
		return f
	}
	if o, ok := f.Object().(*types.Func); ok {
		if g := f.Prog.FuncValue(o); g != nil {
			return g
		}
	}
	return f
}

// concrete are the types of the module, and pointers to them.
func (p *Prog) concrete() []types.Type {
	if l, ok := p.cache["concrete"].([]types.Type); ok {
		return l
	}
	var l []types.Type
	for _, pk := range p.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			o, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || o.IsAlias() {
				continue
			}
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			if types.IsInterface(o.Type()) {
				continue
			}
			l = append(l, o.Type(), types.NewPointer(o.Type()))
		}
	}
	// types that functions declare
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok {
					if n := namedOf(mi.X.Type()); n != nil && p.inModulePkg(n.Obj().Pkg()) && n.Obj().Parent() != n.Obj().Pkg().Scope() {
						l = append(l, mi.X.Type())
					}
				}
			}
		}
	}
	p.setCache("concrete", l)
	return l
}

// taken are the functions of the module used as values.
func (p *Prog) taken() []*ssa.Function {
	if l, ok := p.cache["taken"].([]*ssa.Function); ok {
		return l
	}
	seen := map[*ssa.Function]bool{}
	var l []*ssa.Function
	add := func(f *ssa.Function) {
		f = unwrap(f)
		if !seen[f] {
			seen[f] = true
			l = append(l, f)
		}
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function))
				}
				for i, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					f, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if x, ok := in.(ssa.CallInstruction); ok && i == 0 && x.Common().Value == ssa.Value(f) {
						continue
					}
					if _, ok := in.(*ssa.MakeClosure); ok {
						continue
					}
					add(f)
				}
			}
		}
	}
	p.setCache("taken", l)
	return l
}

// calls are the calls of a function, deferred ones and those of new goroutines included.
func calls(fn *ssa.Function) []ssa.CallInstruction {
	var l []ssa.CallInstruction
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(ssa.CallInstruction); ok {
				l = append(l, x)
			}
		}
	}
	return l
}

// callers are the calls that may reach fn.
func (p *Prog) callers(fn *ssa.Function) []ssa.CallInstruction {
	m, _ := p.cache["callers"].(map[*ssa.Function][]ssa.CallInstruction)
	if m == nil {
		m = map[*ssa.Function][]ssa.CallInstruction{}
		for _, g := range p.Funcs {
			for _, x := range calls(g) {
				for _, f := range p.callees(x) {
					m[f] = append(m[f], x)
				}
			}
		}
		p.setCache("callers", m)
	}
	return m[fn]
}

// edge is how a function comes to be run by another.
type edge struct {
	from *ssa.Function
	at   ssa.Instruction
}

// reach are the functions with a body that may run because fn does, and how each comes to be run.
// A function whose value fn makes counts as run by it.
func (p *Prog) reach(fns ...*ssa.Function) map[*ssa.Function]edge {
	r := map[*ssa.Function]edge{}
	var q []*ssa.Function
	add := func(f *ssa.Function, e edge) {
		f = unwrap(f)
		if _, ok := r[f]; ok || len(f.Blocks) == 0 {
			return
		}
		r[f] = e
		q = append(q, f)
	}
	for _, f := range fns {
		add(f, edge{})
	}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(ssa.CallInstruction); ok {
					for _, g := range p.callees(x) {
						add(g, edge{f, in})
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						add(g, edge{f, in})
					}
				}
				if mi, ok := in.(*ssa.MakeInterface); ok {
					// its methods may be called by the library
					for _, g := range p.libraryCalls(mi) {
						add(g, edge{f, in})
					}
				}
			}
		}
	}
	return r
}

// libraryCalls are the methods of a value of the module that becomes an interface of the library.
func (p *Prog) libraryCalls(mi *ssa.MakeInterface) []*ssa.Function {
	n := namedOf(mi.X.Type())
	if n == nil || !p.inModulePkg(n.Obj().Pkg()) {
		return nil
	}
	it, _ := mi.Type().Underlying().(*types.Interface)
	if nm, ok := mi.Type().(*types.Named); ok && p.inModulePkg(nm.Obj().Pkg()) {
		return nil
	}
	var names []string
	if it != nil {
		for i := 0; i < it.NumMethods(); i++ {
			names = append(names, it.Method(i).Name())
		}
	}
	// those that the library looks for
	names = append(names, "String", "Error", "GoString", "Format", "MarshalJSON", "MarshalText")
	ms := types.NewMethodSet(mi.X.Type())
	var l []*ssa.Function
	for _, nm := range names {
		if s := ms.Lookup(n.Obj().Pkg(), nm); s != nil {
			if f := p.SSA.MethodValue(s); f != nil {
				l = append(l, unwrap(f))
			}
		}
	}
	return l
}
