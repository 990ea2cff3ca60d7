package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (it *Interp) callCtx(st *State, c *ssa.CallCommon, in ssa.Instruction) *CallCtx {
	cc := &CallCtx{Common: c, Instr: in, frame: st.top()}
	if c.IsInvoke() {
		cc.FnTerm = it.val(st, c.Value)
		for _, a := range c.Args {
			cc.Args = append(cc.Args, it.val(st, a))
		}
	} else {
		cc.FnTerm = it.val(st, c.Value)
		for _, a := range c.Args {
			cc.Args = append(cc.Args, it.val(st, a))
		}
	}
	it.resolve(st, cc)
	return cc
}

// resolve finds the callee. For an invocation that can be resolved the receiver becomes the
// first argument.
func (it *Interp) resolve(st *State, c *CallCtx) {
	it.resolve1(st, c)
	// http.HandlerFunc(f).ServeHTTP is f, and so on
	for n := 0; n < 8 && !strings.HasPrefix(c.Name, "builtin."); n++ {
		if c.Name != "net/http.HandlerFunc.ServeHTTP" && c.Name != "net/http.Handler.ServeHTTP" || len(c.Args) != 3 {
			return
		}
		h := unwrapHandler(c.Args[0])
		fn, args := handlerFunc(it.P, h)
		if fn == nil {
			return
		}
		c.Callee, c.FnTerm, c.Method = fn, h, nil
		c.Name = fnName(fn)
		c.Args = append(args, c.Args[1:]...)
	}
}

// unwrapHandler strips the wrappers of package http that leave the handling of a request alone.
func unwrapHandler(h *Term) *Term {
	for {
		if h.Op == "iface" {
			if dyn := typeReg[h.Aux]; dyn != nil {
				if n := namedOf(dyn); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "net/http" && n.Obj().Name() == "HandlerFunc" {
					h = h.Args[0]
					continue
				}
			}
		}
		if h.Def != nil && h.Def.Kind == "res" && h.Def.Callee == "net/http.StripPrefix" && len(h.Def.Args) == 3 {
			h = h.Def.Args[2]
			continue
		}
		return h
	}
}

// handlerFunc is the function of the module that a handler runs, and its leading arguments.
func handlerFunc(p *Prog, h *Term) (*ssa.Function, []*Term) {
	if (h.Op == "closure" || h.Op == "func") && h.Fn != nil {
		return h.Fn, nil
	}
	if h.Op == "iface" {
		if dyn := typeReg[h.Aux]; dyn != nil && !types.IsInterface(dyn) {
			if sel := p.SSA.MethodSets.MethodSet(dyn).Lookup(nil, "ServeHTTP"); sel != nil {
				if f := p.SSA.MethodValue(sel); f != nil && p.inModule(f) {
					return f, []*Term{h.Args[0]}
				}
			}
		}
	}
	return nil, nil
}

func (it *Interp) resolve1(st *State, c *CallCtx) {
	if c.Common.IsInvoke() {
		c.Method = c.Common.Method
		recv := c.FnTerm
		var dyn types.Type
		if recv.Op == "iface" {
			dyn = typeReg[recv.Aux]
			if dyn != nil && !types.IsInterface(dyn) {
				ms := it.P.SSA.MethodSets.MethodSet(dyn)
				sel := ms.Lookup(c.Method.Pkg(), c.Method.Name())
				if sel != nil {
					c.Callee = it.P.SSA.MethodValue(sel)
					c.Args = append([]*Term{recv.Args[0]}, c.Args...)
					c.Name = fnName(c.Callee)
					return
				}
			}
		}
		// known by a type switch
		for y := st.facts; y != nil; y = y.up {
			if y.cond.Op == "typeis" && y.val && y.cond.Args[0] == recv {
				dyn = typeReg[y.cond.Aux]
				if dyn != nil && !types.IsInterface(dyn) {
					ms := it.P.SSA.MethodSets.MethodSet(dyn)
					if sel := ms.Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
						c.Callee = it.P.SSA.MethodValue(sel)
						c.Args = append([]*Term{mkAs(recv, dyn)}, c.Args...)
						c.Name = fnName(c.Callee)
						return
					}
				}
			}
		}
		c.Name = methodName(c.Method)
		c.Args = append([]*Term{recv}, c.Args...)
		return
	}
	t := c.FnTerm
	if it.Cfg.Resolve != nil {
		if r := it.Cfg.Resolve(t); r != nil {
			t = r
			c.FnTerm = r
		}
	}
	if t.Op == "closure" && len(t.Args) == 1 && strings.HasPrefix(t.Fn.Synthetic, "bound method wrapper") {
		// x.M as a value
		if m, ok := t.Fn.Object().(*types.Func); ok {
			rt := m.Type().(*types.Signature).Recv().Type()
			if types.IsInterface(rt) {
				c.Method = m
				c.Name = methodName(m)
				c.Args = append([]*Term{t.Args[0]}, c.Args...)
				if recv := t.Args[0]; recv.Op == "iface" {
					if dyn := typeReg[recv.Aux]; dyn != nil && !types.IsInterface(dyn) {
						if sel := it.P.SSA.MethodSets.MethodSet(dyn).Lookup(m.Pkg(), m.Name()); sel != nil {
							c.Callee = it.P.SSA.MethodValue(sel)
							c.Args[0] = recv.Args[0]
							c.Name = fnName(c.Callee)
						}
					}
				}
				return
			}
			if f := it.P.SSA.FuncValue(m); f != nil && types.Identical(t.Fn.FreeVars[0].Type(), rt) {
				c.Callee = f
				c.Args = append([]*Term{t.Args[0]}, c.Args...)
				c.Name = fnName(f)
				return
			}
		}
	}
	if (t.Op == "func" || t.Op == "closure") && t.Fn != nil {
		c.Callee = t.Fn
		c.Name = fnName(t.Fn)
		return
	}
	if t.Op == "builtin" {
		c.Name = "builtin." + t.Aux
		return
	}
	c.Name = "dynamic"
}

func methodName(m *types.Func) string {
	sig := m.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if n := namedOf(t); n != nil {
			s := n.Obj().Name() + "." + m.Name()
			if n.Obj().Pkg() != nil {
				s = n.Obj().Pkg().Path() + "." + s
			}
			return s
		}
	}
	if m.Pkg() != nil {
		return m.Pkg().Path() + ".(interface)." + m.Name()
	}
	return m.Name()
}

// fnName: "pkg/path.Func" or "pkg/path.Type.Method".
func fnName(f *ssa.Function) string {
	if o, ok := f.Object().(*types.Func); ok && o != nil {
		if o.Type().(*types.Signature).Recv() != nil {
			return methodName(o)
		}
		if o.Pkg() != nil {
			return o.Pkg().Path() + "." + o.Name()
		}
	}
	return f.String()
}

func (it *Interp) call(st *State, x *ssa.Call) bool {
	c := it.callCtx(st, &x.Call, x)
	return it.doCall(st, c, false)
}

// deliver gives the result of a call that is not followed.
func (it *Interp) deliver(st *State, c *CallCtx, isDefer bool, t *Term) bool {
	if isDefer {
		if st.top().panicking {
			return it.unwind(st)
		}
		return true
	}
	if v, ok := c.Instr.(ssa.Value); ok && t != nil {
		st.top().env[v] = t
	}
	return true
}

func (it *Interp) doCall(st *State, c *CallCtx, isDefer bool) bool {
	if strings.HasPrefix(c.Name, "builtin.") {
		return it.builtin(st, c, isDefer)
	}
	if it.Cfg.Model != nil {
		if v, ok := it.userModel(st, c); ok {
			return it.deliver(st, c, isDefer, v)
		}
	}
	if v, ok, alive := it.stdModel(st, c); ok {
		if !alive {
			return false
		}
		return it.deliver(st, c, isDefer, v)
	}
	sig := c.Common.Signature()
	if fn := c.Callee; fn != nil {
		if it.Cfg.Pure != nil && it.Cfg.Pure(fn) {
			ev := &Event{Kind: EvCall, Instr: c.Instr, Name: c.Name, Call: fn, Args: c.Args, Sig: sig, Defer: isDefer}
			ev.Res = it.pureResults(st, c, sig)
			st.emit(ev)
			return it.deliver(st, c, isDefer, packRes(ev.Res))
		}
		follow := len(fn.Blocks) > 0 && it.P.inModule(fn)
		if follow && it.Cfg.Opaque != nil && it.Cfg.Opaque(fn) {
			follow = false
		}
		if fn.Synthetic != "" && len(fn.Blocks) > 0 {
			follow = true // wrappers, bound methods
			if it.Cfg.Opaque != nil && it.Cfg.Opaque(fn) {
				follow = false
			}
		}
		if follow {
			for _, f := range st.frames {
				if f.fn == fn {
					follow = false // recursion
					it.undecided("recursive call of %s", fn)
				}
			}
			if len(st.frames) > it.Cfg.MaxDepth {
				follow = false
				it.undecided("calls nest too deeply at %s", fn)
			}
			if irreducible(fn) {
				it.undecided("irreducible control flow in %s", fn)
			}
		}
		if follow {
			g := &Frame{fn: fn, env: map[ssa.Value]*Term{}, isDefer: isDefer}
			g.ctx = st.site(c.Instr)
			if isDefer {
				g.ctx += "!"
			}
			for i, p := range fn.Params {
				if i < len(c.Args) {
					g.env[p] = c.Args[i]
				}
			}
			if c.FnTerm.Op == "closure" && c.FnTerm.Fn == fn {
				for i, v := range fn.FreeVars {
					g.env[v] = c.FnTerm.Args[i]
				}
			}
			if !isDefer {
				g.call = c.Instr
			}
			it.Funcs[fn] = true
			st.emit(&Event{Kind: EvEnter, Instr: c.Instr, Name: c.Name, Call: fn, Args: c.Args, Defer: isDefer})
			st.frames = append(st.frames, g)
			return it.enterBlock(st, fn.Blocks[0], nil)
		}
	}
	return it.opaque(st, c, isDefer)
}

// opaque is a call that is not followed: its results are unknown and so is, afterwards, the
// memory it can reach.
func (it *Interp) opaque(st *State, c *CallCtx, isDefer bool) bool {
	sig := c.Common.Signature()
	ev := &Event{Kind: EvCall, Instr: c.Instr, Name: c.Name, Call: c.Callee, Args: c.Args, Sig: sig, Defer: isDefer}
	if c.Name == "dynamic" {
		ev.Val = c.FnTerm
	}
	if n := len(c.Args); n > 0 && (strings.HasPrefix(c.Name, "fmt.Fprint") || strings.HasPrefix(c.Name, "os/signal.Notify")) {
		ev.Args = append(append([]*Term{}, c.Args[:n-1]...), it.variadic(st, c.Args[n-1])...)
	}
	if isDefer {
		ev.Aux = "defer"
	}
	snap := st.mem.clone()
	ev.snap = snap
	fsnap := st.facts
	stc := &State{frames: st.frames, mem: snap, facts: fsnap}
	ev.Mem = func(a *Term, typ types.Type) *Term {
		return snap.clone().load(it, &State{frames: stc.frames, mem: snap.clone(), facts: fsnap}, c.Instr, a, typ)
	}
	suffix := ""
	if isDefer {
		suffix = "defer"
	}
	// the results of calls with other arguments are others
	args := "@" + strconv.Itoa(c.FnTerm.ID)
	for _, a := range c.Args {
		args += "," + strconv.Itoa(a.ID)
	}
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		r := it.fresh(st, c.Instr, fmt.Sprint(suffix, i, args), t, &Def{Kind: "res", Callee: c.Name, Args: append([]*Term{c.FnTerm}, c.Args...), Index: i})
		ev.Res = append(ev.Res, r)
	}
	if c.Name == "context.Context.Err" && len(ev.Res) == 1 {
		// not nil once the context is known to be done
		for e := st.events; e != nil; e = e.up {
			if (e.ev.Kind == EvSelect && e.ev.Index >= 0 || e.ev.Kind == EvRecv) && isDone(e.ev.Addr) && e.ev.Addr.Def.Args[len(e.ev.Addr.Def.Args)-1] == c.Args[0] {
				if f, ok := st.facts.assume(beq(ev.Res[0], mk("nil", "", 0)), false); ok {
					st.facts = f
				}
				break
			}
		}
	}
	st.emit(ev)
	switch c.Name {
	case "net/http.ServeMux.Handle", "net/http.ServeMux.HandleFunc":
		// what is registered is not used before the mux is
		st.mem.keep(rootOf(c.Args[0]), c.Args[2:])
		return it.deliver(st, c, isDefer, packRes(ev.Res))
	case "net/http.StripPrefix", "net/http.TimeoutHandler", "net/http.MaxBytesHandler":
		st.mem.keep(rootOf(ev.Res[0]), c.Args)
		return it.deliver(st, c, isDefer, packRes(ev.Res))
	}
	roots := st.mem.refRoots(append(append([]*Term(nil), c.Args...), funcRefs(c.FnTerm)...))
	st.mem.havocRoots(it, roots, "call:"+st.site(c.Instr)+suffix)
	if it.Cfg.PanicCallbacks && c.Name == "dynamic" {
		o := st.fork()
		o.emit(&Event{Kind: EvPanic, Instr: c.Instr, Aux: "callback"})
		if it.unwind(o) {
			it.work = append(it.work, o)
		}
	}
	return it.deliver(st, c, isDefer, packRes(ev.Res))
}

func funcRefs(t *Term) []*Term {
	if t != nil && t.Op == "closure" {
		return t.Args
	}
	return nil
}

func (it *Interp) pureResults(st *State, c *CallCtx, sig *types.Signature) []*Term {
	n := sig.Results().Len()
	args := it.stampArgs(st, c.Args)
	if n == 1 {
		return []*Term{pureCall(c.Name, sig.Results().At(0).Type(), args...)}
	}
	var l []*Term
	for i := 0; i < n; i++ {
		l = append(l, pureCall(fmt.Sprintf("%s#%d", c.Name, i), sig.Results().At(i).Type(), args...))
	}
	return l
}

// stampArgs makes the content of slices part of the argument values.
func (it *Interp) stampArgs(st *State, args []*Term) []*Term {
	r := make([]*Term, len(args))
	for i, a := range args {
		r[i] = a
		if a.Typ != nil {
			if _, ok := a.Typ.Underlying().(*types.Slice); ok && !isNilTerm(a) {
				if ep := st.mem.epochOf(rootOf(a)); ep != "" {
					r[i] = mkT("at", ep, a.Typ, a)
				}
			}
		}
	}
	return r
}

func (it *Interp) userModel(st *State, c *CallCtx) (*Term, bool) {
	var res *Term
	c.Res = func(s *State, t *Term) { res = t }
	if it.Cfg.Model(it, st, c) {
		return res, true
	}
	return nil, false
}

// functions of the standard library whose results depend on their arguments only
var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "math": true, "bytes": true, "errors": true, "mime": true,
	"math/bits": true, "unicode/utf8": true, "unicode": true, "regexp": true, "path": true,
}

var impure = map[string]bool{
	"bytes.NewBuffer": true, "strings.NewReader": true, "bytes.NewReader": true, "bytes.NewBufferString": true,
	"strings.NewReplacer": true, "regexp.MustCompile": true, "regexp.Compile": true,
}

func (it *Interp) stdModel(st *State, c *CallCtx) (res *Term, ok, alive bool) {
	name := c.Name
	sig := c.Common.Signature()
	if c.Callee == nil && c.Method == nil {
		return nil, false, true
	}
	emit := func(ev *Event) *Event {
		ev.Instr = c.Instr
		ev.Name = name
		ev.Call = c.Callee
		return st.emit(ev)
	}
	// atomics
	if strings.HasPrefix(name, "sync/atomic.") {
		return it.atomicModel(st, c, emit)
	}
	switch name {
	case "sync.Mutex.Lock", "sync.RWMutex.Lock":
		emit(&Event{Kind: EvLock, Addr: c.Args[0], Aux: "w"})
		st.mem.syncPoint(it, st, c)
		return nil, true, true
	case "sync.RWMutex.RLock":
		emit(&Event{Kind: EvLock, Addr: c.Args[0], Aux: "r"})
		st.mem.syncPoint(it, st, c)
		return nil, true, true
	case "sync.Mutex.Unlock", "sync.RWMutex.Unlock":
		emit(&Event{Kind: EvUnlock, Addr: c.Args[0], Aux: "w"})
		return nil, true, true
	case "sync.RWMutex.RUnlock":
		emit(&Event{Kind: EvUnlock, Addr: c.Args[0], Aux: "r"})
		return nil, true, true
	case "sync.Mutex.TryLock", "sync.RWMutex.TryLock":
		t := it.fresh(st, c.Instr, "try", types.Typ[types.Bool], &Def{Kind: "res", Callee: name, Args: c.Args})
		emit(&Event{Kind: EvCall, Args: c.Args, Res: []*Term{t}})
		return t, true, true
	case "sync.Locker.Lock":
		emit(&Event{Kind: EvLock, Addr: c.Args[0], Aux: "w"})
		return nil, true, true
	case "sync.Locker.Unlock":
		emit(&Event{Kind: EvUnlock, Addr: c.Args[0], Aux: "w"})
		return nil, true, true
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit", "log.Logger.Fatal", "log.Logger.Fatalf", "log.Logger.Fatalln":
		emit(&Event{Kind: EvCall, Args: c.Args})
		p := it.finish(st, OutExit, c.Args, c.Instr.Pos())
		p.Exit = name
		return nil, true, false
	case "log.Panic", "log.Panicf", "log.Panicln":
		emit(&Event{Kind: EvPanic, Args: c.Args})
		return nil, true, it.unwind(st) && false
	case "encoding/binary.littleEndian.Uint64", "encoding/binary.littleEndian.Uint32", "encoding/binary.littleEndian.Uint16":
		w := 8
		if strings.HasSuffix(name, "32") {
			w = 4
		} else if strings.HasSuffix(name, "16") {
			w = 2
		}
		s := c.Args[1]
		base, off, n := sliceParts(s)
		if it.Cfg.Bounds {
			emit(&Event{Kind: EvIndex, Args: []*Term{s, n, mkInt(64, uint64(w-1))}})
		}
		a := mkW(base, off, w)
		v := st.mem.load(it, st, c.Instr, a, sig.Results().At(0).Type())
		if it.Cfg.Loads {
			emit(&Event{Kind: EvLoad, Addr: a, Res: []*Term{v}})
		}
		return v, true, true
	case "encoding/binary.littleEndian.PutUint64", "encoding/binary.littleEndian.PutUint32", "encoding/binary.littleEndian.PutUint16":
		w := 8
		if strings.HasSuffix(name, "32") {
			w = 4
		} else if strings.HasSuffix(name, "16") {
			w = 2
		}
		s := c.Args[1]
		base, off, n := sliceParts(s)
		if it.Cfg.Bounds {
			emit(&Event{Kind: EvIndex, Args: []*Term{s, n, mkInt(64, uint64(w-1))}})
		}
		a := mkW(base, off, w)
		emit(&Event{Kind: EvStore, Addr: a, Val: c.Args[2]})
		st.mem.store(it, st, c.Instr, a, c.Args[2], types.Typ[types.Uint64])
		return nil, true, true
	case "encoding/binary.bigEndian.PutUint64", "encoding/binary.bigEndian.PutUint32", "encoding/binary.bigEndian.PutUint16":
		w := 8
		if strings.HasSuffix(name, "32") {
			w = 4
		} else if strings.HasSuffix(name, "16") {
			w = 2
		}
		s := c.Args[1]
		base, off, n := sliceParts(s)
		if it.Cfg.Bounds {
			emit(&Event{Kind: EvIndex, Args: []*Term{s, n, mkInt(64, uint64(w-1))}})
		}
		for i := 0; i < w; i++ {
			v := resize(ilshr(c.Args[2], mkInt(8*w, uint64(8*(w-1-i)))), 8*w, 8, false)
			a := mkIA(base, iadd(off, mkInt(64, uint64(i))), types.Typ[types.Uint8])
			emit(&Event{Kind: EvStore, Addr: a, Val: v})
			st.mem.store(it, st, c.Instr, a, v, types.Typ[types.Uint8])
		}
		return nil, true, true
	case "encoding/binary.bigEndian.Uint64", "encoding/binary.bigEndian.Uint32", "encoding/binary.bigEndian.Uint16":
		w := 8
		if strings.HasSuffix(name, "32") {
			w = 4
		} else if strings.HasSuffix(name, "16") {
			w = 2
		}
		s := c.Args[1]
		base, off, n := sliceParts(s)
		if it.Cfg.Bounds {
			emit(&Event{Kind: EvIndex, Args: []*Term{s, n, mkInt(64, uint64(w-1))}})
		}
		v := mkInt(8*w, 0)
		for i := 0; i < w; i++ {
			b := st.mem.load(it, st, c.Instr, mkIA(base, iadd(off, mkInt(64, uint64(i))), types.Typ[types.Uint8]), types.Typ[types.Uint8])
			v = ior(v, ishl(resize(b, 8, 8*w, false), mkInt(8*w, uint64(8*(w-1-i)))))
		}
		return v, true, true
	case "encoding/binary.bigEndian.AppendUint64", "encoding/binary.bigEndian.AppendUint32", "encoding/binary.bigEndian.AppendUint16",
		"encoding/binary.littleEndian.AppendUint64", "encoding/binary.littleEndian.AppendUint32", "encoding/binary.littleEndian.AppendUint16":
		w := 8
		if strings.HasSuffix(name, "32") {
			w = 4
		} else if strings.HasSuffix(name, "16") {
			w = 2
		}
		ev := &Event{Kind: EvAppend, Args: []*Term{c.Args[1]}}
		for i := 0; i < w; i++ {
			k := 8 * (w - 1 - i)
			if strings.Contains(name, "little") {
				k = 8 * i
			}
			ev.Args = append(ev.Args, resize(ilshr(c.Args[2], mkInt(8*w, uint64(k))), 8*w, 8, false))
		}
		t := mkT("append", st.site(c.Instr), sig.Results().At(0).Type(), ev.Args...)
		ev.Res = []*Term{t}
		emit(ev)
		return t, true, true
	case "fmt.Errorf", "errors.New":
		// never nil; every call yields a new value
		args := c.Args
		if name == "fmt.Errorf" && len(args) == 2 {
			args = append([]*Term{args[0]}, it.variadic(st, args[1])...)
		}
		t := mkT("call", "nonnil:"+name, sig.Results().At(0).Type(), append([]*Term{mk("site", st.site(c.Instr), 0)}, args...)...)
		emit(&Event{Kind: EvCall, Args: args, Res: []*Term{t}})
		return t, true, true
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		args := c.Args
		if n := len(args); n > 0 {
			args = append(append([]*Term{}, args[:n-1]...), it.variadic(st, args[n-1])...)
		}
		t := pureCall(name, sig.Results().At(0).Type(), it.stampArgs(st, args)...)
		emit(&Event{Kind: EvCall, Args: args, Res: []*Term{t}})
		return t, true, true
	case "time.Unix", "time.UnixMicro", "time.UnixMilli":
		t := pureCall(name, sig.Results().At(0).Type(), c.Args...)
		emit(&Event{Kind: EvCall, Args: c.Args, Res: []*Term{t}})
		return t, true, true
	}
	if c.Callee != nil && c.Callee.Pkg == nil || c.Callee == nil {
		// method of an interface
		return nil, false, true
	}
	pk := c.Callee.Pkg.Pkg.Path()
	if purePkgs[pk] && !impure[name] && c.Callee.Synthetic == "" {
		recvPtr := false
		if r := c.Callee.Signature.Recv(); r != nil {
			_, recvPtr = r.Type().(*types.Pointer)
			if pk != "regexp" {
				return nil, false, true // bytes.Buffer, strings.Builder ...
			}
		}
		_ = recvPtr
		if name == "bytes.Equal" || name == "bytes.Compare" || pk != "bytes" || true {
			ev := &Event{Kind: EvCall, Args: c.Args, Sig: sig}
			ev.Res = it.pureResults(st, c, sig)
			for i, r := range ev.Res {
				it.resFacts(st, name, i, r, c.Args)
			}
			emit(ev)
			return packRes(ev.Res), true, true
		}
	}
	return nil, false, true
}

// resFacts: what is known of the results of library functions.
func (it *Interp) resFacts(st *State, name string, i int, r *Term, args []*Term) {
	switch name {
	case "bytes.IndexByte", "strings.IndexByte", "bytes.Index", "strings.Index", "strings.IndexRune", "bytes.IndexRune", "bytes.LastIndexByte", "strings.LastIndexByte", "bytes.IndexAny":
		// -1 <= r < len
		if r.isInt() {
			return
		}
		if f, ok := st.facts.assume(bslt(r, mkInt(64, ^uint64(0))), false); ok {
			st.facts = f
		}
		st.facts = &fact{cond: mk("note", fmt.Sprint(r.ID), 0), val: true, up: st.facts, lins: boundLins(r, mkLen(args[0]))}
	}
}

// r <= n - 1 (or -1 <= r): both always hold
func boundLins(r, n *Term) []lin {
	lr, ok1 := toLin(r)
	ln, ok2 := toLin(n)
	if !ok1 || !ok2 {
		return nil
	}
	return []lin{lr.plus(ln, -1).plus(lin{c: 1}, 1)}
}

func mkW(base, off *Term, w int) *Term {
	switch w {
	case 8:
		return mk("w64", "", 0, base, off)
	case 4:
		return mk("w32", "", 0, base, off)
	}
	return mk("w16", "", 0, base, off)
}

// variadic expands the slice built for a variadic call.
func (it *Interp) variadic(st *State, s *Term) []*Term {
	if isNilTerm(s) {
		return nil
	}
	base, off, n := sliceParts(s)
	if base.Op == "obj" && off.isInt() && n.isInt() && n.V < 64 {
		var l []*Term
		for i := uint64(0); i < n.V; i++ {
			a := mkIA(base, mkInt(64, off.V+i), nil)
			v, ok := st.mem.cells[a]
			if !ok {
				return []*Term{s}
			}
			l = append(l, v)
		}
		return l
	}
	return []*Term{s}
}

// syncPoint: after taking a lock memory may have been changed by others.
func (m *memory) syncPoint(it *Interp, st *State, c *CallCtx) {
	root := rootOf(c.Args[0])
	if m.objs[root] != nil && !m.escaped[root] {
		return
	}
	m.havocRoots(it, map[*Term]bool{root: true}, "lock:"+st.site(c.Instr))
}

func (it *Interp) atomicModel(st *State, c *CallCtx, emit func(*Event) *Event) (*Term, bool, bool) {
	op := strings.TrimPrefix(c.Name, "sync/atomic.")
	a := c.Args
	var kind string
	if i := strings.IndexByte(op, '.'); i >= 0 {
		kind = op[i+1:]
	} else {
		for _, k := range []string{"CompareAndSwap", "Load", "Store", "Add", "Swap", "And", "Or"} {
			if strings.HasPrefix(op, k) {
				kind = k
				break
			}
		}
	}
	if len(a) == 0 {
		return nil, false, true
	}
	sig := c.Common.Signature()
	var rt types.Type
	if sig.Results().Len() > 0 {
		rt = sig.Results().At(0).Type()
	}
	switch kind {
	case "Load":
		v := it.fresh(st, c.Instr, "al", rt, &Def{Kind: "aload", Args: []*Term{a[0]}, Name: "atomic(" + strings.TrimPrefix(a[0].str(4), "&") + ")"})
		emit(&Event{Kind: EvALoad, Addr: a[0], Res: []*Term{v}})
		return v, true, true
	case "Store":
		emit(&Event{Kind: EvAStore, Addr: a[0], Val: a[1]})
		return nil, true, true
	case "Add":
		v := it.fresh(st, c.Instr, "aa", rt, &Def{Kind: "aadd", Args: a})
		emit(&Event{Kind: EvAAdd, Addr: a[0], Val: a[1], Res: []*Term{v}})
		return v, true, true
	case "CompareAndSwap":
		v := it.fresh(st, c.Instr, "cas", types.Typ[types.Bool], &Def{Kind: "acas", Args: a, Name: "CAS(" + a[0].str(4) + ")"})
		emit(&Event{Kind: EvACAS, Addr: a[0], Args: a[1:], Res: []*Term{v}})
		return v, true, true
	case "Swap":
		v := it.fresh(st, c.Instr, "asw", rt, &Def{Kind: "aswap", Args: a})
		emit(&Event{Kind: EvASwap, Addr: a[0], Val: a[1], Res: []*Term{v}})
		return v, true, true
	}
	return nil, false, true
}

func (it *Interp) builtin(st *State, c *CallCtx, isDefer bool) bool {
	name := strings.TrimPrefix(c.Name, "builtin.")
	a := c.Args
	switch name {
	case "len":
		t := c.Common.Args[0].Type()
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		if at, ok := t.Underlying().(*types.Array); ok {
			return it.deliver(st, c, isDefer, mkInt(64, uint64(at.Len())))
		}
		if _, ok := t.Underlying().(*types.Map); ok {
			return it.deliver(st, c, isDefer, mk("maplen", st.mem.mapEp[a[0]]+fmt.Sprint(len(st.mem.maps[a[0]])), 64, a[0]))
		}
		return it.deliver(st, c, isDefer, mkLen(a[0]))
	case "cap":
		base, off, _ := sliceParts(a[0])
		_ = off
		return it.deliver(st, c, isDefer, mk("cap", "", 64, base))
	case "append":
		return it.deliver(st, c, isDefer, it.doAppend(st, c))
	case "copy":
		dst, src := a[0], a[1]
		n := minLen(st, mkLen(dst), mkLen(src))
		st.emit(&Event{Kind: EvCopy, Instr: c.Instr, Args: []*Term{dst, src, n}})
		it.copyMem(st, c.Instr, dst, src, n)
		return it.deliver(st, c, isDefer, n)
	case "delete":
		st.emit(&Event{Kind: EvMapDel, Instr: c.Instr, Args: a})
		delete(st.mem.maps, a[0])
		st.mem.mapEp[a[0]] = "del:" + st.site(c.Instr)
		return it.deliver(st, c, isDefer, nil)
	case "close":
		st.emit(&Event{Kind: EvCall, Instr: c.Instr, Name: "builtin.close", Args: a})
		return it.deliver(st, c, isDefer, nil)
	case "panic":
		st.emit(&Event{Kind: EvPanic, Instr: c.Instr, Args: a})
		return it.unwind(st)
	case "recover":
		// in a deferred call of a panicking function
		v := tNil
		if n := len(st.frames); n >= 2 && st.frames[n-1].isDefer && st.frames[n-2].panicking && !st.frames[n-2].recovered {
			v = mk("iface", regType(types.Typ[types.String]), 0, mkStr("panic value"))
			st.frames[n-2].recovered = true
		}
		return it.deliver(st, c, isDefer, v)
	case "print", "println":
		st.emit(&Event{Kind: EvCall, Instr: c.Instr, Name: c.Name, Args: a})
		return it.deliver(st, c, isDefer, nil)
	case "min", "max":
		if v, ok := c.Instr.(ssa.Value); ok {
			r := a[0]
			for _, b := range a[1:] {
				if r.W > 0 {
					l := less(r, b, isUnsigned(v.Type()))
					if t, k := st.facts.decide(l); k {
						if t == (name == "min") {
							continue
						}
						r = b
						continue
					}
				}
				r = mkT(name, "", v.Type(), r, b)
			}
			return it.deliver(st, c, isDefer, r)
		}
	case "ssa:wrapnilchk":
		return it.deliver(st, c, isDefer, a[0])
	case "clear":
		st.emit(&Event{Kind: EvCall, Instr: c.Instr, Name: c.Name, Args: a})
		st.mem.havocRoots(it, st.mem.refRoots(a[:1]), "clear:"+st.site(c.Instr))
		return it.deliver(st, c, isDefer, nil)
	}
	var t *Term
	if v, ok := c.Instr.(ssa.Value); ok && v.Type() != nil {
		if tu, isT := v.Type().(*types.Tuple); !isT || tu.Len() > 0 {
			t = it.fresh(st, c.Instr, "b", v.Type(), nil)
		}
	}
	st.emit(&Event{Kind: EvCall, Instr: c.Instr, Name: c.Name, Args: a})
	return it.deliver(st, c, isDefer, t)
}

// minLen: the smaller of two lengths if that is known.
func minLen(st *State, a, b *Term) *Term {
	if a == b {
		return a
	}
	if v, k := st.facts.decide(bslt(a, b)); k {
		if v {
			return a
		}
		return b
	}
	if v, k := st.facts.decide(bslt(b, a)); k {
		if v {
			return b
		}
		return a
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("min", "", 64, a, b)
}

func (it *Interp) doAppend(st *State, c *CallCtx) *Term {
	a := c.Args
	typ := c.Common.Args[0].Type()
	s := a[0]
	if len(a) == 1 {
		return s
	}
	more := a[1]
	base, off, n := sliceParts(more)
	ev := &Event{Kind: EvAppend, Instr: c.Instr, Args: []*Term{s}}
	var t *Term
	if base.Op == "obj" && off.isInt() && n.isInt() && n.V < 64 && st.mem.objs[base] != nil && isVarargs(base) {
		for i := uint64(0); i < n.V; i++ {
			v := st.mem.load(it, st, c.Instr, mkIA(base, mkInt(64, off.V+i), elemType(typ)), elemType(typ))
			ev.Args = append(ev.Args, v)
		}
		t = mkT("append", st.site(c.Instr), typ, ev.Args...)
	} else if isNilTerm(more) {
		return s
	} else {
		ev.Aux = "slice"
		ev.Args = append(ev.Args, more)
		if mkLen(s).isConstInt(0) {
			// a copy of more in new memory (or in spare room of s)
			o := mk("obj", "ap:"+st.site(c.Instr), 0)
			o.Typ = typ
			if o.Def == nil {
				o.Def = &Def{Kind: "append", Name: "copy of " + more.str(4), Instr: c.Instr, Args: []*Term{more}}
			}
			st.mem.newObj(o, nil, false)
			t = mkSlice(o, mkInt(64, 0), mkLen(more), typ)
			st.emit(&Event{Kind: EvCopy, Instr: c.Instr, Args: []*Term{t, more, mkLen(more)}, Aux: "append"})
			it.copyMem(st, c.Instr, t, more, mkLen(more))
			if !isNilTerm(s) && !ownRoom(c) {
				// spare capacity may be shared with s
				t = mkT("appendslice", st.site(c.Instr), typ, s, more)
			}
		} else {
			t = mkT("appendslice", st.site(c.Instr), typ, s, more)
		}
	}
	ev.Res = []*Term{t}
	st.emit(ev)
	for _, x := range ev.Args[1:] {
		st.mem.escape(x)
	}
	return t
}

// ownRoom: is what is appended to made for it, and not used otherwise?
func ownRoom(c *CallCtx) bool {
	only := func(v ssa.Value) bool {
		n := 0
		for _, r := range *v.Referrers() {
			if _, ok := r.(*ssa.DebugRef); !ok {
				n++
			}
		}
		return n == 1 && v.(ssa.Instruction).Block() == c.Instr.Block()
	}
	v := c.Common.Args[0]
	if x, ok := v.(*ssa.Slice); ok && only(x) {
		v = x.X
		if a, ok := v.(*ssa.Alloc); !ok || !a.Heap {
			return false
		}
		return only(v)
	}
	_, ok := v.(*ssa.MakeSlice)
	return ok && only(v)
}

func isVarargs(o *Term) bool {
	if o.Def == nil {
		return false
	}
	a, ok := o.Def.Instr.(*ssa.Alloc)
	return ok && a.Comment == "varargs"
}

// copyMem is the effect on memory of copy(dst, src).
func (it *Interp) copyMem(st *State, in ssa.Instruction, dst, src, n *Term) {
	if isNilTerm(dst) || n.isConstInt(0) {
		return
	}
	m := st.mem
	db, do, _ := sliceParts(dst)
	sb, so, _ := sliceParts(src)
	// values known at constant offsets of the source
	type pair struct{ a, v *Term }
	var ps []pair
	var tps []types.Type
	for c, v := range m.cells {
		if (c.Op == "ia" || c.Op == "w64" || c.Op == "w32" || c.Op == "w16") && c.Args[0] == sb {
			rel := isub(c.Args[1], so)
			end := iadd(rel, mkInt(64, accWidth(c)))
			if lo, k := st.facts.decide(bslt(rel, mkInt(64, 0))); !k || lo {
				continue
			}
			if hi, k := st.facts.decide(bslt(n, end)); !k || hi {
				continue
			}
			ps = append(ps, pair{mk(c.Op, "", 0, db, iadd(do, rel)), v})
			tps = append(tps, m.types[c])
		}
	}
	// zero content
	zero := false
	if o := m.objs[sb]; o != nil && o.zero && m.epochOf(sb) == "" && len(ps) == 0 {
		zero = true
		for c := range m.cells {
			if rootOf(c) == sb {
				zero = false
			}
		}
	}
	// forget the destination
	for c := range m.cells {
		if rootOf(c) != rootOf(db) {
			continue
		}
		r := relate(c, mkIA(db, do, nil), nil)
		if r == relDistinct {
			// same array?
			if (c.Op == "ia" || c.Op == "w64" || c.Op == "w32" || c.Op == "w16") && c.Args[0] == db {
				end := iadd(do, n)
				if v, k := st.facts.decide(bslt(c.Args[1], end)); k && !v {
					continue // behind
				}
				if v, k := st.facts.decide(bslt(do, iadd(c.Args[1], mkInt(64, accWidth(c))))); k && !v {
					continue // in front
				}
			} else {
				continue
			}
		}
		delete(m.cells, c)
	}
	label := "copy:" + st.site(in)
	if zero {
		if o := m.objs[db]; o != nil && o.zero && m.epochOf(db) == "" {
			return
		}
	}
	// addresses not known to be outside the range
	m.explode(it, st, in, mkIA(db, do, nil))
	keep := map[*Term]*Term{}
	for c, v := range m.cells {
		if rootOf(c) == rootOf(db) {
			keep[c] = v
		}
	}
	m.havocs = append(m.havocs, havoc{roots: map[*Term]bool{rootOf(db): true}, label: label})
	for i, p := range ps {
		if m.cells[p.a] == nil {
			m.put(p.a, p.v, tps[i])
		}
	}
	if st.copies == nil {
		st.copies = map[string]copyRec{}
	} else {
		n := map[string]copyRec{}
		for k, v := range st.copies {
			n[k] = v
		}
		st.copies = n
	}
	st.copies[label] = copyRec{dst: dst, src: src, n: n, srcEpoch: m.epochOf(rootOf(sb)), zero: zero}
}

type copyRec struct {
	dst, src, n *Term
	srcEpoch    string
	zero        bool
}
