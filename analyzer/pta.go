package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An inclusion-based points-to analysis of the whole program, from main and the initialisation of the
// packages on: field-sensitive, and with a calling context (the chain of call sites) for every function
// and every object it allocates. Handlers of requests are entered by the library with a context of
// their own, so that the objects made at startup are told from those made for a request.

// role of a context: what it runs for.
const (
	atStartup = "startup"
	inRequest = "request" // a request
	inQuery   = "query"   // a request, where only queries are answered
	inObserve = "observe" // a request, where only observations are recorded
	inUpdate  = "update"  // an update function that was given to one of the maps
)

type pctx struct {
	root  string
	up    *pctx
	at    ssa.Instruction
	fn    *ssa.Function
	depth int
	id    int
}

// chain tells how the context comes about, outermost first.
func (c *pctx) chain(p *Prog) string {
	var l []string
	for x := c; x != nil; x = x.up {
		l = append([]string{relName(p, x.fn)}, l...)
	}
	return strings.Join(l, " -> ")
}

type pobj struct {
	id   int
	root string
	ctx  *pctx
	site ssa.Instruction
	pkg  *types.Package // of the function that allocates it
	g    *ssa.Global
	fn   *ssa.Function // a closure of it
	blob bool          // memory of the library: not told apart
	what string
}

func (o *pobj) shared() bool { return o.root == atStartup }

type loc struct {
	o    *pobj
	path string
	typ  types.Type // dynamic type, for the value of an interface
}

type pnode struct {
	pts   map[loc]bool
	succ  map[*pnode]bool
	hooks []func(loc)
}

type pkey struct {
	v    interface{}
	c    *pctx
	path string
}

type pwrite struct {
	at     ssa.Instruction
	ctx    *pctx
	to     *pnode
	atomic bool
	what   string
}

type pcall struct {
	at   ssa.CallInstruction
	ctx  *pctx
	name string
}

type pta struct {
	p       *Prog
	nodes   map[pkey]*pnode
	objs    map[pkey]*pobj
	objList []*pobj
	ctxs    map[string]*pctx
	done    map[*pctx]bool
	order   []*pctx
	work    []func()
	writes  []*pwrite
	lib     []*pcall // calls of the library
	types   map[string]types.Type
	leafs   map[types.Type][]pleaf
	reqBlob *pobj
	heap    map[*pobj][]string
	reads   map[*ssa.Function]bool
	wrs     map[*ssa.Function]bool
	gos     []*pcall
	entries map[*ssa.Function]bool
	dyn     map[ssa.CallInstruction]int // dynamic calls and how many functions they reach
}

type pleaf struct {
	path string
	typ  types.Type
}

const ptaDepth = 14

// pointsTo runs the analysis, once for the program.
func (p *Prog) pointsTo() *pta {
	if a, ok := p.cache["pta"].(*pta); ok {
		return a
	}
	a := &pta{p: p, nodes: map[pkey]*pnode{}, objs: map[pkey]*pobj{}, ctxs: map[string]*pctx{}, done: map[*pctx]bool{},
		types: map[string]types.Type{}, leafs: map[types.Type][]pleaf{}, heap: map[*pobj][]string{}, entries: map[*ssa.Function]bool{},
		reads: map[*ssa.Function]bool{}, wrs: map[*ssa.Function]bool{}, dyn: map[ssa.CallInstruction]int{}}
	p.setCache("pta", a)
	rd, wr := p.Func("internal/storage", "Store.Read"), p.Func("internal/storage", "Store.Write")
	for _, f := range p.Funcs {
		r := p.reach(f)
		if _, ok := r[rd]; ok && rd != nil {
			a.reads[f] = true
		}
		if _, ok := r[wr]; ok && wr != nil {
			a.wrs[f] = true
		}
	}
	a.reqBlob = a.object(pkey{v: "request"}, inRequest, nil, nil)
	a.reqBlob.blob = true
	a.reqBlob.what = "what the library hands to a handler"
	for _, pk := range p.Pkgs {
		if sp := p.SSA.Package(pk.Types); sp != nil {
			if f := sp.Func("init"); f != nil {
				a.enter(f, nil, nil, atStartup)
			}
		}
	}
	if m := p.Func("", "main"); m != nil {
		a.enter(m, nil, nil, atStartup)
	}
	a.solve()
	return a
}

func (a *pta) solve() {
	for len(a.work) > 0 {
		f := a.work[len(a.work)-1]
		a.work = a.work[:len(a.work)-1]
		f()
	}
}

func (a *pta) canon(t types.Type) types.Type {
	s := types.TypeString(t, nil)
	if c, ok := a.types[s]; ok {
		return c
	}
	a.types[s] = t
	return t
}

// ---- nodes

func (a *pta) nodeAt(k pkey) *pnode {
	n := a.nodes[k]
	if n == nil {
		n = &pnode{pts: map[loc]bool{}, succ: map[*pnode]bool{}}
		a.nodes[k] = n
		if o, ok := k.v.(*pobj); ok {
			a.heap[o] = append(a.heap[o], k.path)
		}
	}
	return n
}

func (a *pta) add(n *pnode, l loc) {
	if n.pts[l] {
		return
	}
	n.pts[l] = true
	a.work = append(a.work, func() {
		for s := range n.succ {
			a.add(s, l)
		}
		for i := 0; i < len(n.hooks); i++ {
			n.hooks[i](l)
		}
	})
}

func (a *pta) edge(from, to *pnode) {
	if from == nil || to == nil || from == to || from.succ[to] {
		return
	}
	from.succ[to] = true
	for l := range from.pts {
		a.add(to, l)
	}
}

func (a *pta) on(n *pnode, f func(loc)) {
	if n == nil {
		return
	}
	n.hooks = append(n.hooks, f)
	for l := range n.pts {
		l := l
		a.work = append(a.work, func() { f(l) })
	}
}

func (a *pta) leaves(t types.Type) []pleaf {
	t = a.canon(t)
	if l, ok := a.leafs[t]; ok {
		return l
	}
	var l []pleaf
	var rec func(t types.Type, path string, d int)
	rec = func(t types.Type, path string, d int) {
		if d > 12 {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				rec(u.Field(i).Type(), fmt.Sprintf("%s.%d", path, i), d+1)
			}
		case *types.Array:
			rec(u.Elem(), path+"[]", d+1)
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				rec(u.At(i).Type(), fmt.Sprintf("%s#%d", path, i), d+1)
			}
		case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
			l = append(l, pleaf{path, t})
		case *types.Basic:
			if u.Kind() == types.UnsafePointer || u.Kind() == types.String {
				l = append(l, pleaf{path, t})
			}
		}
	}
	rec(t, "", 0)
	a.leafs[t] = l
	return l
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

// val is the node of (a part of) a value.
func (a *pta) val(v ssa.Value, c *pctx, path string) *pnode {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Global:
		n := a.nodeAt(pkey{v, nil, ""})
		o := a.object(pkey{v: v, path: "obj"}, atStartup, nil, nil)
		o.g = x
		if x.Pkg != nil {
			o.pkg = x.Pkg.Pkg
			if !a.p.inModulePkg(o.pkg) {
				o.blob = true
			}
		}
		a.add(n, loc{o: o})
		return n
	case *ssa.Function:
		n := a.nodeAt(pkey{v, nil, ""})
		o := a.object(pkey{v: v, path: "fn"}, atStartup, nil, nil)
		o.fn = x
		a.add(n, loc{o: o})
		return n
	}
	return a.nodeAt(pkey{v, c, path})
}

func (a *pta) object(k pkey, root string, c *pctx, site ssa.Instruction) *pobj {
	o := a.objs[k]
	if o == nil {
		o = &pobj{id: len(a.objList), root: root, ctx: c, site: site}
		if c != nil {
			o.pkg = fnPkg(c.fn)
		}
		a.objs[k] = o
		a.objList = append(a.objList, o)
	}
	return o
}

func (a *pta) fresh(in ssa.Instruction, c *pctx, what string) *pobj {
	o := a.object(pkey{in, c, "obj" + what}, c.root, c, in)
	if what != "" {
		o.what = what
	}
	return o
}

func (a *pta) freshBlob(in ssa.Instruction, c *pctx, what string) *pobj {
	o := a.fresh(in, c, what)
	o.blob = true
	return o
}

// cell is the node of what is at a place in memory.
func (a *pta) cell(l loc, path string) *pnode {
	if l.o.blob {
		n := a.nodeAt(pkey{l.o, nil, "*"})
		a.add(n, loc{o: l.o})
		return n
	}
	p := l.path + path
	if len(p) > 60 {
		p = p[:60]
	}
	return a.nodeAt(pkey{l.o, nil, p})
}

func at(l loc, path string) loc {
	if l.o.blob {
		return loc{o: l.o}
	}
	return loc{o: l.o, path: l.path + path}
}

// flow copies a value of type t.
func (a *pta) flow(src ssa.Value, spath string, dst ssa.Value, dpath string, t types.Type, sc, dc *pctx) {
	for _, l := range a.leaves(t) {
		a.edge(a.val(src, sc, spath+l.path), a.val(dst, dc, dpath+l.path))
	}
}

func (a *pta) load(ptr *pnode, path string, t types.Type, dst ssa.Value, dpath string, c *pctx) {
	ls := a.leaves(t)
	if len(ls) == 0 {
		return
	}
	a.on(ptr, func(x loc) {
		for _, l := range ls {
			if x.o.blob && isStr(l.typ) {
				continue
			}
			a.edge(a.cell(x, path+l.path), a.val(dst, c, dpath+l.path))
		}
	})
}

func (a *pta) store(ptr *pnode, path string, t types.Type, src ssa.Value, spath string, c *pctx) {
	ls := a.leaves(t)
	if len(ls) == 0 {
		return
	}
	a.on(ptr, func(x loc) {
		for _, l := range ls {
			if n := a.val(src, c, spath+l.path); n != nil {
				a.edge(n, a.cell(x, path+l.path))
			}
		}
	})
}

func (a *pta) wrote(in ssa.Instruction, c *pctx, to *pnode, what string) {
	if to != nil {
		a.writes = append(a.writes, &pwrite{at: in, ctx: c, to: to, what: what})
	}
}

// ---- functions

func mapPackage(pk *types.Package) bool {
	if pk == nil {
		return false
	}
	for _, s := range []string{"internal/bufmap", "internal/incmap", "internal/seqlock"} {
		if strings.HasSuffix(pk.Path(), "/"+s) {
			return true
		}
	}
	return false
}

// enter gives the context in which fn is run when called from c.
func (a *pta) enter(fn *ssa.Function, c *pctx, site ssa.Instruction, root string) *pctx {
	if c != nil && root == "" {
		root = c.root
		if root == inRequest {
			switch r, w := a.reads[fn], a.wrs[fn]; {
			case r && !w:
				root = inQuery
			case w && !r:
				root = inObserve
			}
		}
		if root != atStartup && mapPackage(fnPkg(c.fn)) && !mapPackage(fnPkg(fn)) {
			root = inUpdate
		}
	}
	for x := c; x != nil; x = x.up {
		if x.fn == fn && x.at == site && x.root == root {
			return x
		}
	}
	up := c
	if c != nil && c.depth >= ptaDepth {
		// too deep: not told apart
		up = nil
	}
	d := 0
	uid := -1
	if up != nil {
		d = up.depth + 1
		uid = up.id
	}
	k := fmt.Sprintf("%d|%p|%p|%s", uid, site, fn, root)
	n := a.ctxs[k]
	if n == nil {
		n = &pctx{root: root, up: up, at: site, fn: fn, depth: d, id: len(a.ctxs)}
		a.ctxs[k] = n
	}
	if !a.done[n] {
		a.done[n] = true
		a.order = append(a.order, n)
		a.work = append(a.work, func() { a.body(fn, n) })
	}
	return n
}

// retKey stands for the results of a function.
type retKey struct{ fn *ssa.Function }

func (a *pta) ret(fn *ssa.Function, c *pctx, i int, path string) *pnode {
	return a.nodeAt(pkey{retKey{fn}, c, fmt.Sprintf("#%d%s", i, path)})
}

func (a *pta) body(fn *ssa.Function, c *pctx) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			a.instr(in, c)
		}
	}
}

func elemTyp(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	return nil
}

func pointerLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func (a *pta) instr(in ssa.Instruction, c *pctx) {
	switch x := in.(type) {
	case *ssa.Alloc:
		a.add(a.val(x, c, ""), loc{o: a.fresh(x, c, "")})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		a.add(a.val(x.(ssa.Value), c, ""), loc{o: a.fresh(in, c, "")})
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a.load(a.val(x.X, c, ""), "", x.Type(), x, "", c)
		case token.ARROW:
			d := ""
			if x.CommaOk {
				d = "#0"
			}
			a.load(a.val(x.X, c, ""), "{c}", elemTyp(x.X.Type()), x, d, c)
		}
	case *ssa.Store:
		a.store(a.val(x.Addr, c, ""), "", x.Val.Type(), x.Val, "", c)
		a.wrote(x, c, a.val(x.Addr, c, ""), "")
	case *ssa.FieldAddr:
		d := a.val(x, c, "")
		a.on(a.val(x.X, c, ""), func(l loc) { a.add(d, at(l, fmt.Sprintf(".%d", x.Field))) })
	case *ssa.Field:
		a.flow(x.X, fmt.Sprintf(".%d", x.Field), x, "", x.Type(), c, c)
	case *ssa.IndexAddr:
		d := a.val(x, c, "")
		suffix := ""
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			suffix = "[]"
		}
		a.on(a.val(x.X, c, ""), func(l loc) { a.add(d, at(l, suffix)) })
	case *ssa.Index:
		if _, ok := x.X.Type().Underlying().(*types.Array); ok {
			a.flow(x.X, "[]", x, "", x.Type(), c, c)
		}
	case *ssa.Slice:
		d := a.val(x, c, "")
		suffix := ""
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			suffix = "[]"
		}
		a.on(a.val(x.X, c, ""), func(l loc) { a.add(d, at(l, suffix)) })
	case *ssa.Lookup:
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			d := ""
			if x.CommaOk {
				d = "#0"
			}
			a.load(a.val(x.X, c, ""), "{v}", m.Elem(), x, d, c)
		}
	case *ssa.MapUpdate:
		m := x.Map.Type().Underlying().(*types.Map)
		a.store(a.val(x.Map, c, ""), "{v}", m.Elem(), x.Value, "", c)
		a.store(a.val(x.Map, c, ""), "{k}", m.Key(), x.Key, "", c)
		a.wrote(x, c, a.val(x.Map, c, ""), "")
	case *ssa.Range:
		a.edge(a.val(x.X, c, ""), a.val(x, c, ""))
	case *ssa.Next:
		if x.IsString {
			return
		}
		r, ok := x.Iter.(*ssa.Range)
		if !ok {
			return
		}
		m, ok := r.X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		a.load(a.val(r, c, ""), "{k}", m.Key(), x, "#1", c)
		a.load(a.val(r, c, ""), "{v}", m.Elem(), x, "#2", c)
	case *ssa.Extract:
		a.flow(x.Tuple, fmt.Sprintf("#%d", x.Index), x, "", x.Type(), c, c)
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.flow(e, "", x, "", x.Type(), c, c)
		}
	case *ssa.ChangeType:
		a.flow(x.X, "", x, "", x.X.Type(), c, c)
		if isHandlerFunc(x.Type()) {
			a.handler(x.X, c)
		}
	case *ssa.ChangeInterface:
		a.edge(a.val(x.X, c, ""), a.val(x, c, ""))
	case *ssa.SliceToArrayPointer:
		a.edge(a.val(x.X, c, ""), a.val(x, c, ""))
	case *ssa.Convert, *ssa.MultiConvert:
		v := in.(ssa.Value)
		from := *in.Operands(nil)[0]
		if _, ok := v.Type().Underlying().(*types.Slice); ok {
			a.add(a.val(v, c, ""), loc{o: a.fresh(in, c, "")})
			return
		}
		if isStr(v.Type()) && !isStr(from.Type()) {
			return
		}
		if len(a.leaves(v.Type())) == 1 && len(a.leaves(from.Type())) == 1 {
			a.edge(a.val(from, c, ""), a.val(v, c, ""))
		}
	case *ssa.MakeClosure:
		o := a.fresh(x, c, "")
		o.fn = x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			for _, l := range a.leaves(b.Type()) {
				a.edge(a.val(b, c, l.path), a.nodeAt(pkey{o, nil, fmt.Sprintf("b%d%s", i, l.path)}))
			}
		}
		a.add(a.val(x, c, ""), loc{o: o})
	case *ssa.MakeInterface:
		t := a.canon(x.X.Type())
		d := a.val(x, c, "")
		if pointerLike(t) {
			a.on(a.val(x.X, c, ""), func(l loc) { a.add(d, loc{l.o, l.path, t}) })
		} else {
			o := a.fresh(x, c, "")
			for _, l := range a.leaves(t) {
				a.edge(a.val(x.X, c, l.path), a.nodeAt(pkey{o, nil, l.path}))
			}
			a.add(d, loc{o: o, typ: t})
		}
		if isHandler(x.Type()) {
			a.handlerIface(d, c)
		}
	case *ssa.TypeAssert:
		d := ""
		if x.CommaOk {
			d = "#0"
		}
		a.assert(a.val(x.X, c, ""), x.AssertedType, x, d, c)
	case *ssa.Return:
		for i, r := range x.Results {
			for _, l := range a.leaves(r.Type()) {
				a.edge(a.val(r, c, l.path), a.ret(c.fn, c, i, l.path))
			}
		}
	case *ssa.Send:
		a.store(a.val(x.Chan, c, ""), "{c}", x.X.Type(), x.X, "", c)
		a.wrote(x, c, a.val(x.Chan, c, ""), "channel")
	case *ssa.Select:
		k := 2
		for _, s := range x.States {
			if s.Dir == types.SendOnly {
				a.store(a.val(s.Chan, c, ""), "{c}", s.Send.Type(), s.Send, "", c)
				a.wrote(x, c, a.val(s.Chan, c, ""), "channel")
			} else {
				a.load(a.val(s.Chan, c, ""), "{c}", elemTyp(s.Chan.Type()), x, fmt.Sprintf("#%d", k), c)
				k++
			}
		}
	case ssa.CallInstruction:
		a.call(x, c)
	}
}

func (a *pta) assert(src *pnode, t types.Type, dst ssa.Value, dpath string, c *pctx) {
	t = a.canon(t)
	a.on(src, func(l loc) {
		if l.typ == nil {
			// of the library
			for _, lf := range a.leaves(t) {
				if !isStr(lf.typ) {
					a.add(a.val(dst, c, dpath+lf.path), loc{o: l.o, path: l.path})
				}
			}
			return
		}
		if it, ok := t.Underlying().(*types.Interface); ok {
			if types.Implements(l.typ, it) {
				a.add(a.val(dst, c, dpath), l)
			}
			return
		}
		if l.typ != t {
			return
		}
		if pointerLike(t) {
			a.add(a.val(dst, c, dpath), loc{o: l.o, path: l.path})
			return
		}
		for _, lf := range a.leaves(t) {
			a.edge(a.cell(loc{o: l.o, path: l.path}, lf.path), a.val(dst, c, dpath+lf.path))
		}
	})
}

// ---- calls

func isHandler(t types.Type) bool     { return t.String() == "net/http.Handler" }
func isHandlerFunc(t types.Type) bool { return t.String() == "net/http.HandlerFunc" }

// handler: the library calls the function for each request.
func (a *pta) handler(f ssa.Value, c *pctx) { a.handlerNode(a.val(f, c, "")) }

func (a *pta) handlerNode(n *pnode) {
	a.on(n, func(l loc) {
		if l.o.fn != nil && a.p.inModule(l.o.fn) {
			a.entries[l.o.fn] = true
			cc := a.enter(l.o.fn, nil, nil, a.entryRoot(l.o.fn))
			a.bindFree(l.o, cc)
			a.externArgs(l.o.fn, cc, 0)
		}
	})
}

func (a *pta) entryRoot(fn *ssa.Function) string {
	switch r, w := a.reads[fn], a.wrs[fn]; {
	case r && !w:
		return inQuery
	case w && !r:
		return inObserve
	}
	return inRequest
}

func (a *pta) externArgs(fn *ssa.Function, c *pctx, from int) {
	for i := from; i < len(fn.Params); i++ {
		for _, l := range a.leaves(fn.Params[i].Type()) {
			if !isStr(l.typ) {
				a.add(a.val(fn.Params[i], c, l.path), loc{o: a.reqBlob})
			}
		}
	}
}

func (a *pta) handlerIface(n *pnode, c *pctx) {
	a.on(n, func(l loc) {
		if l.typ == nil {
			return
		}
		if isHandlerFunc(l.typ) {
			return // where it is converted
		}
		fn := a.methodOf(l.typ, "ServeHTTP")
		if fn == nil || !a.p.inModule(fn) {
			return
		}
		a.entries[fn] = true
		cc := a.enter(fn, nil, nil, a.entryRoot(fn))
		a.bindRecv(fn, l, cc)
		a.externArgs(fn, cc, 1)
	})
}

func (a *pta) methodOf(t types.Type, name string) *ssa.Function {
	n := namedOf(t)
	var pk *types.Package
	if n != nil {
		pk = n.Obj().Pkg()
	}
	s := types.NewMethodSet(t).Lookup(pk, name)
	if s == nil {
		return nil
	}
	return a.p.SSA.MethodValue(s)
}

func (a *pta) bindFree(o *pobj, c *pctx) {
	for i, fv := range o.fn.FreeVars {
		for _, l := range a.leaves(fv.Type()) {
			a.edge(a.nodeAt(pkey{o, nil, fmt.Sprintf("b%d%s", i, l.path)}), a.val(fv, c, l.path))
		}
	}
}

// bindRecv gives the value of an interface to the receiver of its method.
func (a *pta) bindRecv(fn *ssa.Function, l loc, c *pctx) {
	if len(fn.Params) == 0 {
		return
	}
	r := fn.Params[0]
	if pointerLike(l.typ) {
		a.add(a.val(r, c, ""), loc{o: l.o, path: l.path})
		return
	}
	for _, lf := range a.leaves(r.Type()) {
		a.edge(a.cell(loc{o: l.o, path: l.path}, lf.path), a.val(r, c, lf.path))
	}
}

func (a *pta) results(fn *ssa.Function, cc *pctx, x ssa.CallInstruction, c *pctx) {
	v := x.Value()
	if v == nil {
		return
	}
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		d := ""
		if rs.Len() > 1 {
			d = fmt.Sprintf("#%d", i)
		}
		for _, l := range a.leaves(rs.At(i).Type()) {
			a.edge(a.ret(fn, cc, i, l.path), a.val(v, c, d+l.path))
		}
	}
}

func (a *pta) callFn(fn *ssa.Function, x ssa.CallInstruction, c *pctx, args []ssa.Value, recv *loc, clos *pobj) {
	if len(fn.Blocks) == 0 || !a.p.inModule(fn) && fn.Synthetic == "" {
		a.library(fn.String(), fn, x, c, args)
		return
	}
	cc := a.enter(fn, c, x, "")
	off := 0
	if recv != nil {
		a.bindRecv(fn, *recv, cc)
		off = 1
	}
	for i, v := range args {
		if i+off < len(fn.Params) {
			a.flow(v, "", fn.Params[i+off], "", v.Type(), c, cc)
		}
	}
	if clos != nil {
		a.bindFree(clos, cc)
	}
	a.results(fn, cc, x, c)
}

func (a *pta) call(x ssa.CallInstruction, c *pctx) {
	cc := x.Common()
	if _, ok := x.(*ssa.Go); ok {
		a.gos = append(a.gos, &pcall{at: x, ctx: c})
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		a.builtin(b.Name(), x, c)
		return
	}
	if fn, ok := cc.Value.(*ssa.Function); ok {
		a.callFn(fn, x, c, cc.Args, nil, nil)
		return
	}
	if cc.IsInvoke() {
		seen := map[loc]bool{}
		ext := false
		a.on(a.val(cc.Value, c, ""), func(l loc) {
			if seen[l] {
				return
			}
			seen[l] = true
			if l.typ == nil {
				if !ext {
					ext = true
					a.library(cc.Method.FullName(), nil, x, c, append([]ssa.Value{cc.Value}, cc.Args...))
				}
				return
			}
			fn := a.methodOf(l.typ, cc.Method.Name())
			if fn == nil {
				return
			}
			a.dyn[x]++
			if !a.p.inModule(fn) {
				if !ext {
					ext = true
					a.library(fn.String(), nil, x, c, append([]ssa.Value{cc.Value}, cc.Args...))
				}
				return
			}
			a.callFn(fn, x, c, cc.Args, &l, nil)
		})
		// any other type of the module that is offered for it
		if it, ok := cc.Value.Type().Underlying().(*types.Interface); ok {
			if n := namedOf(cc.Value.Type()); n != nil && a.p.inModulePkg(n.Obj().Pkg()) {
				for _, t := range a.p.concrete() {
					nt := namedOf(t)
					if _, ptr := t.(*types.Pointer); ptr || nt == nil || !nt.Obj().Exported() || !types.Implements(t, it) {
						continue
					}
					if _, st := nt.Underlying().(*types.Struct); !st {
						continue
					}
					o := a.object(pkey{v: a.canon(t), path: "any"}, atStartup, nil, nil)
					o.what = "a " + t.String()
					a.add(a.val(cc.Value, c, ""), loc{o: o, typ: a.canon(t)})
				}
			}
		}
		return
	}
	seen := map[*pobj]bool{}
	a.on(a.val(cc.Value, c, ""), func(l loc) {
		if seen[l.o] {
			return
		}
		seen[l.o] = true
		if l.o.fn == nil {
			if l.o.blob {
				a.library("func of "+l.o.what, nil, x, c, cc.Args)
			}
			return
		}
		a.dyn[x]++
		a.callFn(l.o.fn, x, c, cc.Args, nil, l.o)
	})
}

func (a *pta) builtin(name string, x ssa.CallInstruction, c *pctx) {
	args := x.Common().Args
	v := x.Value()
	switch name {
	case "append":
		if v == nil {
			return
		}
		et := elemTyp(v.Type())
		d := a.val(v, c, "")
		o := a.fresh(x, c, "")
		a.add(d, loc{o: o})
		a.edge(a.val(args[0], c, ""), d)
		a.wrote(x, c, a.val(args[0], c, ""), "append")
		// what was there and what is added
		for i, s := range args {
			if isStr(s.Type()) {
				continue
			}
			i := i
			a.on(a.val(s, c, ""), func(l loc) {
				for _, lf := range a.leaves(et) {
					a.edge(a.cell(l, lf.path), a.cell(loc{o: o}, lf.path))
					if i == 1 {
						a.on(a.val(args[0], c, ""), func(t loc) { a.edge(a.cell(l, lf.path), a.cell(t, lf.path)) })
					}
				}
			})
		}
	case "copy":
		et := elemTyp(args[0].Type())
		a.wrote(x, c, a.val(args[0], c, ""), "copy")
		if isStr(args[1].Type()) {
			return
		}
		if len(a.leaves(et)) == 0 {
			return
		}
		a.on(a.val(args[1], c, ""), func(l loc) {
			a.on(a.val(args[0], c, ""), func(t loc) {
				for _, lf := range a.leaves(et) {
					a.edge(a.cell(l, lf.path), a.cell(t, lf.path))
				}
			})
		})
	case "delete", "clear":
		a.wrote(x, c, a.val(args[0], c, ""), name)
	case "close":
		a.wrote(x, c, a.val(args[0], c, ""), "channel")
	default:
		// unsafe.Slice, unsafe.String, min, max and so on
		if v != nil {
			for _, s := range args {
				for _, l := range a.leaves(s.Type()) {
					if l.path == "" && len(a.leaves(v.Type())) == 1 {
						a.edge(a.val(s, c, ""), a.val(v, c, ""))
					}
				}
			}
		}
	}
}

var (
	libWrites  = regexp.MustCompile(`\.(Put|Append|Read|ReadFull|ReadAt|ReadAtLeast|Decode|Unmarshal|Scan|Sscan|Fscan|Sort|Stable|Slice|SliceStable|Strings|Ints|Float64s|Shuffle|Reverse|Encode|Swap|Insert|Delete|Compact)[A-Za-z0-9]*$`)
	libAtomic  = regexp.MustCompile(`^(\(\*)?sync/atomic\.`)
	libNoHold  = regexp.MustCompile(`^\(?\*?(bytes|strings|strconv|encoding/.*|math|math/.*|unicode.*|hash/.*|fmt|regexp|mime.*|errors|time|log|sort|path.*|net/url)\.`)
	libAlias   = regexp.MustCompile(`^(bytes\.(Trim|Cut|Split|Fields|SplitN|SplitAfter|Lines|NewReader|NewBuffer)|strconv\.Append|encoding/binary\..*Append|\(encoding/binary\..*\)\.Append|unicode/utf8\.Append|fmt\.Append|\(\*regexp\.Regexp\)\.Find(All)?(Submatch)?$|slices\.|\(\*bytes\.Buffer\)\.(Bytes|Next|AvailableBuffer)|\(\*bufio\.(Scanner|Reader)\)\.)`)
	libState   = regexp.MustCompile(`^\(\*(bytes|strings|bufio|math/rand.*|container/.*|encoding/.*|hash/.*|text/scanner|math/big|io)\.`)
	libRetains = regexp.MustCompile(`^\(\*(sync\.Map|sync/atomic\.Value|sync/atomic\.Pointer\[.*\]|container/list\.List|container/ring\.Ring)\)\.|^sync/atomic\.(Store|Swap|CompareAndSwap)Pointer`)
	libErrors  = regexp.MustCompile(`^(fmt\.Errorf|errors\.(Join|Unwrap))$`)
)

// library models a call of a function outside of the module.
func (a *pta) library(name string, fn *ssa.Function, x ssa.CallInstruction, c *pctx, args []ssa.Value) {
	a.lib = append(a.lib, &pcall{at: x, ctx: c, name: name})
	v := x.Value()
	// functions and values of the module that are handed over may be called
	http := strings.HasPrefix(name, "net/http.") || strings.HasPrefix(name, "(*net/http.")
	for _, s := range args {
		a.callback(s, x, c, http)
	}
	// what it writes
	if libAtomic.MatchString(name) {
		if !strings.Contains(name[strings.LastIndex(name, "."):], "Load") && len(args) > 0 {
			w := &pwrite{at: x, ctx: c, to: a.val(args[0], c, ""), atomic: true, what: name}
			if w.to != nil {
				a.writes = append(a.writes, w)
			}
		}
	} else {
		if libState.MatchString(name) && len(args) > 0 {
			a.wrote(x, c, a.val(args[0], c, ""), name)
		}
		if libWrites.MatchString(name) && !http {
			for i, s := range args {
				if i == 0 && strings.HasPrefix(name, "(") {
					continue
				}
				a.wroteThrough(x, c, s, name)
			}
		}
	}
	// what it keeps
	if libRetains.MatchString(name) && len(args) > 0 {
		r := a.val(args[0], c, "")
		for _, s := range args[1:] {
			if n := a.val(s, c, ""); n != nil {
				a.on(r, func(l loc) { a.edge(n, a.cell(l, "{kept}")) })
			}
		}
		if strings.Contains(name, ").") && !strings.Contains(name, "atomic") {
			a.wrote(x, c, r, name)
		}
		if v != nil {
			for _, lf := range a.leaves(v.Type()) {
				lf := lf
				a.on(r, func(l loc) { a.edge(a.cell(l, "{kept}"), a.val(v, c, lf.path)) })
			}
		}
	}
	if v == nil {
		return
	}
	// what it returns
	o := a.freshBlob(x, c, "result of "+name)
	hold := !libNoHold.MatchString(name) || libAlias.MatchString(name)
	for _, lf := range a.leaves(v.Type()) {
		if isStr(lf.typ) {
			continue
		}
		d := a.val(v, c, lf.path)
		a.add(d, loc{o: o})
	}
	for _, s := range args {
		for _, lf := range a.leaves(s.Type()) {
			n := a.val(s, c, lf.path)
			if n == nil || isStr(lf.typ) {
				continue
			}
			switch {
			case hold:
				a.edge(n, a.cell(loc{o: o}, ""))
			case libErrors.MatchString(name):
				if sl, ok := lf.typ.Underlying().(*types.Slice); ok && isIface(sl.Elem()) {
					a.on(n, func(l loc) {
						a.on(a.cell(l, ""), func(e loc) {
							if e.typ == nil || types.Implements(e.typ, errorType.Underlying().(*types.Interface)) {
								a.add(a.cell(loc{o: o}, ""), e)
							}
						})
					})
				} else if isIface(lf.typ) {
					a.edge(n, a.cell(loc{o: o}, ""))
				}
			}
			if libAlias.MatchString(name) {
				for _, rl := range a.leaves(v.Type()) {
					if types.Identical(rl.typ.Underlying(), lf.typ.Underlying()) {
						a.edge(n, a.val(v, c, rl.path))
					}
				}
			}
		}
	}
	_ = fn
}

// wroteThrough: the library writes to what the value refers to.
func (a *pta) wroteThrough(x ssa.Instruction, c *pctx, s ssa.Value, name string) {
	t := s.Type()
	n := a.val(s, c, "")
	if n == nil {
		return
	}
	switch t.Underlying().(type) {
	case *types.Slice, *types.Pointer, *types.Map:
		a.wrote(x, c, n, name)
	case *types.Interface:
		// a slice or a pointer in it
		w := a.nodeAt(pkey{x, c, "through" + s.Name()})
		a.on(n, func(l loc) {
			if l.typ == nil {
				return
			}
			if pointerLike(l.typ) {
				if _, ok := l.typ.Underlying().(*types.Signature); !ok {
					a.add(w, loc{o: l.o, path: l.path})
				}
				return
			}
			if _, ok := l.typ.Underlying().(*types.Slice); ok {
				a.edge(a.cell(loc{o: l.o, path: l.path}, ""), w)
			}
		})
		a.wrote(x, c, w, name)
	}
}

// callback: functions handed to the library are called by it: for requests if that is what they are
// for, and otherwise while it is running.
func (a *pta) callback(s ssa.Value, x ssa.CallInstruction, c *pctx, http bool) {
	switch s.Type().Underlying().(type) {
	case *types.Signature:
		if http {
			a.handler(s, c)
			return
		}
		seen := map[*pobj]bool{}
		a.on(a.val(s, c, ""), func(l loc) {
			if l.o.fn == nil || seen[l.o] || !a.p.inModule(l.o.fn) {
				return
			}
			seen[l.o] = true
			cc := a.enter(l.o.fn, c, x, "")
			a.bindFree(l.o, cc)
			a.libArgs(l.o.fn, x, cc, 0)
		})
	case *types.Interface:
		it := s.Type().Underlying().(*types.Interface)
		seen := map[loc]bool{}
		a.on(a.val(s, c, ""), func(l loc) {
			if !seen[l] {
				seen[l] = true
				a.called(l, it, x, c)
			}
		})
	case *types.Slice:
		if !isIface(elemTyp(s.Type())) {
			return
		}
		it := elemTyp(s.Type()).Underlying().(*types.Interface)
		seen := map[loc]bool{}
		a.on(a.val(s, c, ""), func(l loc) {
			a.on(a.cell(l, ""), func(e loc) {
				if !seen[e] {
					seen[e] = true
					a.called(e, it, x, c)
				}
			})
		})
	}
}

func (a *pta) called(l loc, it *types.Interface, x ssa.CallInstruction, c *pctx) {
	if l.typ == nil || isHandlerFunc(l.typ) {
		return
	}
	n := namedOf(l.typ)
	if n == nil || !a.p.inModulePkg(n.Obj().Pkg()) {
		return
	}
	var names []string
	for i := 0; i < it.NumMethods(); i++ {
		names = append(names, it.Method(i).Name())
	}
	if len(names) == 1 && names[0] == "ServeHTTP" {
		return
	}
	for _, m := range append(names, "String", "Error", "Format", "GoString", "MarshalJSON", "MarshalText") {
		fn := a.methodOf(l.typ, m)
		if fn == nil || !a.p.inModule(fn) {
			continue
		}
		cc := a.enter(fn, c, x, "")
		a.bindRecv(fn, l, cc)
		a.libArgs(fn, x, cc, 1)
	}
}

// libArgs: the arguments are the library's own.
func (a *pta) libArgs(fn *ssa.Function, x ssa.CallInstruction, c *pctx, from int) {
	o := a.freshBlob(x, c, "argument of "+fn.Name())
	for i := from; i < len(fn.Params); i++ {
		for _, l := range a.leaves(fn.Params[i].Type()) {
			if !isStr(l.typ) {
				a.add(a.val(fn.Params[i], c, l.path), loc{o: o})
			}
		}
	}
}

// ---- results

// name of an object
func (a *pta) name(o *pobj) string {
	switch {
	case o.g != nil:
		return "variable " + strings.TrimPrefix(o.g.String(), a.p.Mod+"/")
	case o.fn != nil:
		return "function " + relName(a.p, o.fn)
	case o.what != "":
		return o.what
	case o.site != nil:
		s := "what is allocated at " + a.p.posStr(a.p.instrPos(o.site))
		if v, ok := o.site.(ssa.Value); ok {
			s += " (" + types.TypeString(v.Type(), func(p *types.Package) string { return p.Name() }) + ")"
		}
		return s
	}
	return "?"
}

// contents are the places of an object and what they point to.
func (a *pta) contents(o *pobj, f func(path string, l loc)) {
	ps := append([]string(nil), a.heap[o]...)
	sort.Strings(ps)
	for _, p := range ps {
		for l := range a.nodes[pkey{o, nil, p}].pts {
			f(p, l)
		}
	}
}

// reachable objects from o, not through those that stop says, with the first step.
func (a *pta) reachable(from []loc, stop func(*pobj) bool) map[*pobj]bool {
	seen := map[*pobj]bool{}
	var q []*pobj
	push := func(o *pobj) {
		if !seen[o] && !stop(o) {
			seen[o] = true
			q = append(q, o)
		}
	}
	for _, l := range from {
		push(l.o)
	}
	for len(q) > 0 {
		o := q[0]
		q = q[1:]
		a.contents(o, func(_ string, l loc) { push(l.o) })
	}
	return seen
}
