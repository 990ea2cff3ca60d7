package main

// C10: no failure is swallowed.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// rootFuncs are the functions that are analysed on their own; the others are followed from where
// they are called.
func (p *Prog) rootFuncs() []*ssa.Function {
	called := map[*ssa.Function]bool{}
	value := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if _, isGo := in.(*ssa.Go); !isGo {
						if f := c.Common().StaticCallee(); f != nil {
							called[f] = true
						}
					}
				}
				for _, op := range in.Operands(nil) {
					f, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().Value == *op {
						if _, isGo := in.(*ssa.Go); !isGo {
							continue
						}
					}
					if mc, ok := in.(*ssa.MakeClosure); ok {
						only := true
						for _, r := range *mc.Referrers() {
							c, ok := r.(ssa.CallInstruction)
							if _, isGo := r.(*ssa.Go); !ok || isGo || c.Common().Value != ssa.Value(mc) {
								only = false
							}
						}
						if only {
							called[f] = true
							continue
						}
					}
					value[f] = true
				}
			}
		}
	}
	var l []*ssa.Function
	for _, fn := range p.Funcs {
		if fn.Synthetic != "" {
			continue
		}
		if fn.Parent() == nil && exported(fn) || value[fn] || !called[fn] {
			l = append(l, fn)
		}
	}
	return l
}

// alwaysNil: does the function never return an error?
func alwaysNil(fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 {
		return false
	}
	n := fn.Signature.Results().Len()
	for _, b := range fn.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for i := 0; i < n; i++ {
			if types.Identical(fn.Signature.Results().At(i).Type(), errorType) {
				k, ok := r.Results[i].(*ssa.Const)
				if !ok || !k.IsNil() {
					return false
				}
			}
		}
	}
	return true
}

func (p *Prog) exportedOrOther(fn *ssa.Function) bool {
	return fn.Parent() == nil && exported(fn)
}

// isEOF: is the error known to be io.EOF?
func isEOF(f *fact, e *Term) bool {
	for y := f; y != nil; y = y.up {
		if y.val && y.cond.Op == "eq" && (y.cond.Args[0] == e && endOf(y.cond.Args[1]) || y.cond.Args[1] == e && endOf(y.cond.Args[0])) {
			return true
		}
	}
	return false
}

func endOf(t *Term) bool {
	s := t.String()
	return strings.Contains(s, "io.EOF") || strings.Contains(s, "http.ErrServerClosed")
}

// readOutside: is the captured variable at address a read by the function it belongs to?
func readOutside(fn *ssa.Function, a *Term) bool {
	if a == nil || a.Def == nil || a.Def.Kind != "freevar" || fn.Parent() == nil {
		return false
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(fn) || a.Def.Index >= len(mc.Bindings) {
				continue
			}
			v, ok := mc.Bindings[a.Def.Index].(*ssa.Alloc)
			if !ok {
				return true
			}
			for _, r := range *v.Referrers() {
				switch x := r.(type) {
				case *ssa.UnOp, *ssa.Call:
					return true
				case *ssa.Store:
					if x.Val == ssa.Value(v) {
						return true
					}
				}
			}
		}
	}
	return false
}

func c10(c *Check) {
	for _, fn := range c.P.rootFuncs() {
		pk := fnPkg(fn)
		if pk == nil || strings.HasSuffix(pk.Path(), "/testutil") {
			continue
		}
		// an error of a function that has been analysed on its own may be one that it cannot
		// return here: follow it into the calls whose errors seem to be lost
		inline := map[*ssa.Function]bool{}
		var it *Interp
		for {
			it = c.run(fn, &Config{Opaque: func(f *ssa.Function) bool { return c.P.exportedOrOther(f) && !inline[f] }})
			l := c10func(c, fn, it)
			more := false
			for _, s := range l {
				if f := s.callee; f != nil && len(f.Blocks) > 0 && c.P.exportedOrOther(f) && c.P.inModule(f) && !inline[f] && f != fn {
					inline[f], more = true, true
				}
			}
			if more {
				continue
			}
			for _, s := range l {
				c.fail(s.key, s.pos, "%s", s.msg)
			}
			break
		}
		// results of goroutines are lost
		for _, p := range it.Paths {
			for _, e := range p.Events {
				if e.Kind != EvGo {
					continue
				}
				if g, ok := e.Instr.(*ssa.Go); ok && !alwaysNil(g.Call.StaticCallee()) {
					res := g.Call.Signature().Results()
					for i := 0; i < res.Len(); i++ {
						if types.Identical(res.At(i).Type(), errorType) {
							c.fail("go:"+fn.String(), e.Pos, "%s: the error of a function run as a goroutine is lost", relName(c.P, fn))
						}
					}
				}
			}
		}
	}
}

type swallowed struct {
	key, msg string
	pos      token.Pos
	callee   *ssa.Function
}

func c10func(c *Check, fn *ssa.Function, it *Interp) (lost []swallowed) {
	name := relName(c.P, fn)
	var w *Term
	for i, p := range fn.Params {
		if isNamed(p.Type(), "net/http", "ResponseWriter") {
			w = it.Params[i]
		}
	}
	res := fn.Signature.Results()
	for _, p := range it.Paths {
		evs := p.Events
		from := 0
		switch p.Out {
		case OutReturn:
		case OutExit:
			if p.Exit != "os.Exit" || len(p.Ret) == 0 || !p.Ret[0].isConstInt(0) {
				c.ok("ends with a failure status")
				continue
			}
		case OutBack:
			for i, e := range evs {
				if e.Kind == EvLoop && e.Loop == p.Loop {
					from = i
				}
			}
		default:
			continue
		}
		var ers []errRes
		for _, r := range errorResults(evs[from:], w) {
			if r.ev.Kind == EvCall && (alwaysNil(r.ev.Call) || r.ev.Name == "fmt.Errorf" || r.ev.Name == "errors.New") {
				continue
			}
			ers = append(ers, r)
		}
		// errors that others have found
		for _, e := range evs[from:] {
			if e.Kind != EvRecv && (e.Kind != EvSelect || e.Val != nil) {
				continue
			}
			for _, v := range e.Res {
				if v.Typ != nil && types.Identical(v.Typ, errorType) {
					ers = append(ers, errRes{e, v})
				}
			}
		}
		// errors that a loop collects
		for _, e := range evs[from:] {
			if e.Kind != EvLoop {
				continue
			}
			for l := range e.Init {
				if l.Typ != nil && types.Identical(l.Typ, errorType) && !alwaysNilIn(e, l) {
					ers = append(ers, errRes{e, l})
				}
			}
		}
		for i := range ers {
			e := ers[i].t
			if errNil(p.Facts, e) {
				c.ok("known to be nil")
				continue
			}
			if isEOF(p.Facts, e) {
				c.ok("end of data")
				continue
			}
			if c10reported(fn, p, evs, e, w, res, ers[i].ev) {
				c.ok("reported")
				continue
			}
			what := "is swallowed"
			if p.Out == OutBack {
				what = "is not looked at before the loop goes on"
			}
			src := shortName(ers[i].ev.Name)
			if ers[i].ev.Kind == EvReturn {
				src = shortName(ers[i].ev.Fn.String())
			}
			switch ers[i].ev.Kind {
			case EvLoop:
				src = "the loop"
			case EvRecv, EvSelect:
				src = "a channel"
			}
			callee := ers[i].ev.Call
			for _, x := range evs {
				if x.Kind == EvCall && callee == nil {
					for _, t := range x.Res {
						if t == e {
							callee = x.Call
						}
					}
				}
			}
			lost = append(lost, swallowed{"swallowed:" + name + ":" + src, fmt.Sprintf("%s: an error of %s %s", name, src, what), ers[i].ev.Pos, callee})
		}
	}
	return lost
}

// alwaysNilIn: is the variable l of a loop nil at the start of every iteration?
func alwaysNilIn(e *Event, l *Term) bool {
	if !errNil(e.Facts, e.Init[l]) {
		return false
	}
	for _, b := range e.Loop.Backs {
		if nx := b.Next[l]; nx != l && (nx == nil || !errNil(b.Facts, nx)) {
			return false
		}
	}
	return true
}

// c10reported: does the path, on which e may be an error, report a failure?
func c10reported(fn *ssa.Function, p *Path, evs []*Event, e, w *Term, res *types.Tuple, src *Event) bool {
	at := indexOf(evs, src)
	for _, x := range evs[at:] {
		if x.Kind == EvSend && (x.Val == e || len(x.Args) > 0 && x.Args[len(x.Args)-1] == e) || x.Kind == EvSelect && x.Val == e {
			return true
		}
		if w != nil && errorStatus(x, w, p.Facts) {
			return true
		}
		if x.Kind == EvStore && (x.Val == e || errNonNil(p.Facts, x.Val)) && x.Val.Typ != nil && types.Identical(x.Val.Typ, errorType) && readOutside(fn, x.Addr) {
			return true
		}
	}
	if w == nil {
		// a closure that writes to the response of its parent
		for _, x := range evs[at:] {
			if x.Kind == EvCall && len(x.Args) > 0 && errorStatus(x, x.Args[0], p.Facts) {
				return true
			}
		}
	}
	switch p.Out {
	case OutReturn:
		for i := 0; i < res.Len() && i < len(p.Ret); i++ {
			if types.Identical(res.At(i).Type(), errorType) && (p.Ret[i] == e || errNonNil(p.Facts, p.Ret[i])) {
				return true
			}
		}
	case OutBack:
		for l, nx := range p.Next {
			if l.Typ == nil || !types.Identical(l.Typ, errorType) {
				continue
			}
			if errNonNil(p.Facts, nx) {
				return true
			}
			if nx == e && (l == e || errNil(p.Facts, l)) {
				return true
			}
		}
	}
	return false
}

func init() {
	register(&checkDef{id: "C10", run: c10,
		rule:   "on every path of every function (unexported callees followed, exported ones analysed on their own) each error returned by a call or received from a channel is, where the path ends or the loop goes on, known to be nil, io.EOF or http.ErrServerClosed, or returned (itself or another that is not nil), kept in a variable of the enclosing function that is read there, sent to the client as an error status, sent on a channel, or the process ends with a failure status",
		floor:  map[string]int{"known to be nil": 50, "reported": 30, "ends with a failure status": 1},
		assume: []string{"errors of writing to the client, of closing what was only read, and of writing to memory buffers and hashes cannot be acted on or cannot occur"}})
}
