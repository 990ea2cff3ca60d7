package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (a *pta) dump() {
	n := map[string]int{}
	for _, c := range a.order {
		n[c.root]++
	}
	fmt.Println(len(a.order), "contexts", n, len(a.objList), "objects", len(a.nodes), "nodes")
	var l []string
	for f := range a.entries {
		l = append(l, "entry "+relName(a.p, f))
	}
	seen := map[string]bool{}
	for _, c := range a.order {
		s := c.root + " " + c.chain(a.p)
		if !seen[s] {
			seen[s] = true
			l = append(l, s)
		}
	}
	for _, w := range a.writes {
		for x := range w.to.pts {
			if x.o.shared() && w.ctx.root != atStartup {
				l = append(l, fmt.Sprintf("WRITE %s in %s: %s %s (%v)", a.p.posStr(a.p.instrPos(w.at)), w.ctx.root, a.name(x.o), x.path, w.atomic))
			}
		}
	}
	for _, o := range a.objList {
		if !o.shared() {
			continue
		}
		a.contents(o, func(p string, x loc) {
			if !x.o.shared() {
				l = append(l, fmt.Sprintf("KEEP %s %s: %s", a.name(o), p, a.name(x.o)))
			}
		})
	}
	sort.Strings(l)
	for _, s := range l {
		fmt.Println(s)
	}
}

// ---- who writes what

func during(root string) bool { return root != atStartup && root != "" }

// serving starts the points-to analysis and sees that requests are handled at all.
func (c *Check) serving() *pta {
	a := c.P.pointsTo()
	for _, x := range a.order {
		c.funcs[x.fn.String()] = true
		if during(x.root) {
			c.ok("contexts of requests")
		}
	}
	if len(a.entries) == 0 {
		c.fail("anchor:handlers", token.NoPos, "no handler of requests is found")
	}
	if !a.runs(c.P.Func("internal/storage", "Store.Read")) || !a.runs(c.P.Func("internal/storage", "Store.Write")) {
		c.fail("anchor:Store", token.NoPos, "no request leads to Store.Read or to Store.Write")
	}
	// calls of functions that are not known
	for _, x := range a.order {
		if !during(x.root) {
			continue
		}
		for _, cl := range calls(x.fn) {
			cc := cl.Common()
			if cc.StaticCallee() != nil {
				continue
			}
			if _, ok := cc.Value.(*ssa.Builtin); ok {
				continue
			}
			n := a.val(cc.Value, x, "")
			if n == nil || len(n.pts) == 0 {
				continue // never a value: not reached
			}
			c.ok("dynamic calls resolved")
		}
	}
	return a
}

func (a *pta) runs(fn *ssa.Function) bool {
	for _, x := range a.order {
		if x.fn == fn && during(x.root) {
			return true
		}
	}
	return false
}

// ofMaps: memory that the maps have allocated for themselves.
func (a *pta) ofMaps(o *pobj) bool { return mapPackage(o.pkg) }

func (c *Check) shareNothing() {
	a := c.serving()
	for _, w := range a.writes {
		if !during(w.ctx.root) {
			continue
		}
		for x := range w.to.pts {
			pos := c.P.instrPos(w.at)
			if !x.o.shared() {
				c.ok("writes to memory of a request")
				continue
			}
			if a.ofMaps(x.o) && mapPackage(fnPkg(w.ctx.fn)) {
				c.ok("writes to the maps")
				continue
			}
			if w.atomic || w.what == "channel" {
				c.ok("synchronised writes")
				continue
			}
			c.fail("shared state is not written:"+relName(c.P, w.ctx.fn), pos, "while serving a request, %s writes to %s, which requests share (%s)", relName(c.P, w.ctx.fn), a.name(x.o), w.ctx.chain(c.P))
		}
	}
	// what is prepared at startup is complete before requests are served
	h := a.visible()
	for i, g := range a.servers() {
		_ = i
		for _, w := range a.after(g) {
			for x := range w.to.pts {
				if h[x.o] && !w.atomic && w.what != "channel" {
					c.fail("prepared before serving:"+relName(c.P, w.ctx.fn), c.P.instrPos(w.at), "%s is written after the server has been started, while requests may use it", a.name(x.o))
				}
			}
			c.ok("writes after the start")
		}
		c.ok("starts of the server")
	}
}

// visible are the objects that functions handling requests may refer to.
func (a *pta) visible() map[*pobj]bool {
	m := map[*pobj]bool{}
	for k, n := range a.nodes {
		if k.c != nil && during(k.c.root) {
			for l := range n.pts {
				m[l.o] = true
			}
		}
		if g, ok := k.v.(*ssa.Global); ok && k.c == nil {
			for _, r := range a.p.globalUses(g) {
				if a.runsAt(r) {
					for l := range n.pts {
						m[l.o] = true
					}
				}
			}
		}
	}
	return m
}

func (a *pta) runsAt(in ssa.Instruction) bool { return a.runs(in.Parent()) }

var serves = regexp.MustCompile(`^(\(\*net/http\.Server\)|net/http)\.(ListenAndServe|Serve)`)

// servers are the calls that start serving, mostly in a goroutine of their own.
func (a *pta) servers() []*pcall {
	var l []*pcall
	own := map[*pcall]bool{}
	for _, g := range a.gos {
		if g.ctx.root != atStartup {
			continue
		}
		for _, s := range a.lib {
			if !serves.MatchString(s.name) {
				continue
			}
			for x := s.ctx; x != nil; x = x.up {
				own[s] = own[s] || x.up == g.ctx && x.at == ssa.Instruction(g.at) || s.ctx == g.ctx && s.at == g.at
				if x.up == g.ctx && x.at == ssa.Instruction(g.at) || s.ctx == g.ctx && s.at == g.at {
					l = append(l, g)
					break
				}
			}
		}
	}
	// or in the main one
	for _, s := range a.lib {
		if serves.MatchString(s.name) && !own[s] && s.ctx.root == atStartup {
			l = append(l, s)
		}
	}
	return l
}

// after are the writes that happen after the call, in the function that does it and in those that
// have called it.
func (a *pta) after(g *pcall) []*pwrite {
	in := map[*pctx]bool{}                     // all of it is after
	at := map[*pctx]map[ssa.Instruction]bool{} // these are
	var mark func(c *pctx, from ssa.Instruction)
	mark = func(c *pctx, from ssa.Instruction) {
		m := at[c]
		if m == nil {
			m = map[ssa.Instruction]bool{}
			at[c] = m
		}
		for _, x := range following(from) {
			m[x] = true
		}
		if c.up != nil && c.at != nil {
			mark(c.up, c.at)
		}
	}
	mark(g.ctx, g.at)
	for _, c := range a.order {
		for x := c; x.up != nil; x = x.up {
			if at[x.up][x.at] {
				if _, ok := x.at.(*ssa.Go); ok && x.at == ssa.Instruction(g.at) {
					break
				}
				in[c] = true
			}
		}
	}
	var l []*pwrite
	for _, w := range a.writes {
		if w.ctx.root == atStartup && (in[w.ctx] || at[w.ctx][w.at]) {
			l = append(l, w)
		}
	}
	return l
}

// following are the instructions that may be executed after in.
func following(in ssa.Instruction) []ssa.Instruction {
	var l []ssa.Instruction
	seen := map[*ssa.BasicBlock]bool{}
	var q []*ssa.BasicBlock
	b := in.Block()
	on := false
	for _, x := range b.Instrs {
		if on {
			l = append(l, x)
		}
		if x == in {
			on = true
		}
	}
	q = append(q, b.Succs...)
	for len(q) > 0 {
		b := q[0]
		q = q[1:]
		if seen[b] {
			continue
		}
		seen[b] = true
		l = append(l, b.Instrs...)
		q = append(q, b.Succs...)
	}
	return l
}

var changesWorld = regexp.MustCompile(`^(\(\*os\.File\)\.(Write|Truncate|Sync)|os\.(Create|Write|Remove|Rename|Mkdir|Setenv|Unsetenv|Clearenv|Chdir|Chmod|Truncate|OpenFile|Symlink|Link|Exit)|os/exec\.|syscall\.(Write|Unlink|Kill|Exec)|net\.Dial|net/http\.(Get|Post|Head)|\(\*net/http\.Client\)\.)`)

func (c *Check) queriesOnlyRead() {
	a := c.serving()
	query := func(root string) bool { return root == inQuery || root == inRequest }
	n := 0
	for _, x := range a.order {
		if x.root == inQuery {
			n++
		}
	}
	c.must(n > 0, "contexts of queries", "queries", token.NoPos, "no function that answers queries only is found")
	for _, w := range a.writes {
		up := w.ctx
		if !query(up.root) && !(up.root == inUpdate && a.under(up, inQuery)) {
			continue
		}
		for x := range w.to.pts {
			if !x.o.shared() {
				c.ok("writes to memory of the query")
				continue
			}
			c.fail("queries do not write:"+relName(c.P, w.ctx.fn), c.P.instrPos(w.at), "while answering a query, %s writes to %s, which later requests use (%s)", relName(c.P, w.ctx.fn), a.name(x.o), w.ctx.chain(c.P))
		}
	}
	for _, l := range a.lib {
		if query(l.ctx.root) || l.ctx.root == inUpdate && a.under(l.ctx, inQuery) {
			c.must(!changesWorld.MatchString(l.name), "no lasting effect of the library", relName(c.P, l.ctx.fn), l.at.Pos(), "while answering a query, %s calls %s", relName(c.P, l.ctx.fn), l.name)
		}
	}
	for _, x := range a.order {
		if query(x.root) && x.fn == c.P.Func("internal/storage", "Store.Write") {
			c.must(!a.under(x, inQuery), "queries do not write", "Store.Write", x.fn.Pos(), "answering a query leads to Store.Write (%s)", x.chain(c.P))
		}
	}
}

func (a *pta) under(c *pctx, root string) bool {
	for x := c; x != nil; x = x.up {
		if x.root == root {
			return true
		}
	}
	return false
}

// ---- what is kept

func (c *Check) nothingKept() {
	a := c.serving()
	// by what outlives the request
	for _, o := range a.objList {
		if !o.shared() {
			continue
		}
		a.contents(o, func(path string, x loc) {
			if x.o.shared() {
				c.ok("contents of shared memory")
				return
			}
			pos := token.NoPos
			if x.o.site != nil {
				pos = c.P.instrPos(x.o.site)
			}
			c.fail("memory of a request is not kept:"+a.name(o), pos, "%s refers to %s, which belongs to a request", a.name(o), a.name(x.o))
		})
	}
	// by goroutines
	for _, g := range a.gos {
		if !during(g.ctx.root) || waits(g.at) {
			continue
		}
		c.fail("requests start nothing that outlives them:"+relName(c.P, g.ctx.fn), g.at.Pos(), "%s starts a goroutine while serving a request and does not wait for it", relName(c.P, g.ctx.fn))
	}
	// what the maps lend to an update
	lent := map[*pobj]bool{}
	for _, x := range a.order {
		if x.root != inUpdate || x.up == nil || x.up.root == inUpdate {
			continue
		}
		for _, p := range x.fn.Params {
			if !isByteSlice(p.Type()) {
				continue
			}
			for l := range a.val(p, x, "").pts {
				if a.ofMaps(l.o) {
					lent[l.o] = true
				}
			}
		}
	}
	c.must(len(lent) > 0, "lent records", "lent", token.NoPos, "no map is seen to lend a record to an update")
	c.okN("lent records", len(lent))
	tied := map[*pobj]bool{} // to a record that was lent
	for o := range lent {
		tied[o] = true
	}
	for again := true; again; {
		again = false
		for _, o := range a.objList {
			if o.root != inUpdate || tied[o] {
				continue
			}
			a.contents(o, func(_ string, x loc) {
				if tied[x.o] && !tied[o] {
					tied[o], again = true, true
				}
			})
		}
	}
	for _, o := range a.objList {
		if o.root == inUpdate || a.ofMaps(o) {
			continue
		}
		a.contents(o, func(path string, x loc) {
			if tied[x.o] {
				c.fail("records that are lent are not kept:"+a.name(o), c.P.instrPos(x.o.site), "%s refers to %s beyond the update", a.name(o), a.name(x.o))
			}
		})
	}
	for k, n := range a.nodes {
		if k.c == nil || k.c.root == inUpdate || mapPackage(fnPkg(k.c.fn)) {
			continue
		}
		v, ok := k.v.(ssa.Value)
		if !ok {
			continue
		}
		for l := range n.pts {
			if tied[l.o] {
				c.fail("records that are lent are not kept:"+relName(c.P, k.c.fn), v.Pos(), "%s has %s after the update", relName(c.P, k.c.fn), a.name(l.o))
			} else {
				c.ok("values outside of updates")
			}
		}
	}
}

// waits: the function waits for something after the instruction.
func waits(in ssa.Instruction) bool {
	for _, x := range following(in) {
		switch x := x.(type) {
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return true
			}
		case *ssa.Select:
			if x.Blocking {
				return true
			}
		case ssa.CallInstruction:
			if f := x.Common().StaticCallee(); f != nil && strings.HasSuffix(f.String(), ").Wait") {
				return true
			}
		}
	}
	return false
}

// ---- chance

var chancy = regexp.MustCompile(`^(\(\*?)?(math/rand|crypto/rand|hash/maphash|runtime/|os/user)|^runtime\.(Num|Stack|Caller|GOMAXPROCS|Read)|^time\.(Now|Since|Until|Tick|After)|^\(time\.Time\)\.(Local)|^os\.(Getpid|Getppid|Hostname|Environ|Getenv|LookupEnv|Getwd)|^(maps|golang.org/x/exp/maps)\.(Keys|Values|All|Collect)|^\(\*sync\.Map\)\.Range|^reflect\..*Map|^\(reflect\.Value\)\.(MapKeys|MapRange|Pointer|UnsafePointer|UnsafeAddr)`)

var prints = regexp.MustCompile(`^fmt\.(S|F|P|A|E)`)

func (c *Check) noChance() {
	a := c.serving()
	n := 0
	done := map[string]bool{}
	say := func(x *pctx, pos token.Pos, f string, v ...interface{}) {
		k := fmt.Sprint(pos, f)
		if !done[k] {
			done[k] = true
			c.fail("no source of chance:"+relName(c.P, x.fn), pos, "while answering a query, "+f+" ("+strings.ReplaceAll(x.chain(c.P), "%", "%%")+")", v...)
		}
	}
	answers := func(x *pctx) bool {
		return x.root == inQuery || x.root == inRequest || x.root == inUpdate && a.under(x, inQuery)
	}
	for _, x := range a.order {
		if !answers(x) {
			continue
		}
		n++
		for _, b := range x.fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Range:
					if _, ok := in.X.Type().Underlying().(*types.Map); ok {
						if why := orderMatters(in); why != "" {
							say(x, in.Pos(), "a map is gone through in random order and %s", why)
						} else {
							c.ok("map ranges whose order does not matter")
						}
					}
				case *ssa.Go:
					if x.root != inRequest {
						say(x, in.Pos(), "a goroutine is started")
					}
				case *ssa.Select:
					k := 0
					for _, s := range in.States {
						if s.Dir == types.RecvOnly && isDoneChan(s.Chan) {
							continue
						}
						k++
					}
					if k > 1 {
						say(x, in.Pos(), "it is left to chance which of %d channels is chosen", k)
					}
				case *ssa.Convert:
					if bt, ok := in.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr {
						if ft, ok := in.X.Type().Underlying().(*types.Basic); ok && ft.Kind() == types.UnsafePointer {
							say(x, in.Pos(), "an address is used as a number")
						}
					}
				}
				c.ok("instructions of queries")
			}
		}
	}
	for _, l := range a.lib {
		if !answers(l.ctx) {
			continue
		}
		if chancy.MatchString(l.name) && !onlyLogged(l.at) {
			say(l.ctx, l.at.Pos(), "%s is called", l.name)
		}
		if prints.MatchString(l.name) {
			for _, s := range l.at.Common().Args {
				if k, ok := s.(*ssa.Const); ok && isStr(k.Type()) && strings.Contains(k.Value.String(), "%p") {
					say(l.ctx, l.at.Pos(), "an address is printed")
				}
				if sl, ok := s.Type().Underlying().(*types.Slice); ok && isIface(sl.Elem()) {
					for y := range nodePts(a.val(s, l.ctx, "")) {
						for e := range nodePts(a.cell(y, "")) {
							if e.typ != nil && printsAddress(e.typ) {
								say(l.ctx, l.at.Pos(), "a value of type %s is printed, as an address", e.typ)
							}
						}
					}
				}
			}
		}
	}
	c.must(n > 0, "contexts of queries", "queries", token.NoPos, "no function that answers queries is found")
}

func nodePts(n *pnode) map[loc]bool {
	if n == nil {
		return nil
	}
	return n.pts
}

func printsAddress(t types.Type) bool {
	for _, m := range []string{"Error", "String", "Format"} {
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == m {
				return false
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Chan, *types.Signature:
		return true
	case *types.Pointer:
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Slice, *types.Array, *types.Map:
			return false // what it points to is printed
		}
		return true
	}
	return false
}

// isDoneChan: the channel that tells that the request has been cancelled.
func isDoneChan(v ssa.Value) bool {
	x, ok := v.(*ssa.Call)
	return ok && x.Call.IsInvoke() && x.Call.Method.FullName() == "(context.Context).Done"
}

// onlyLogged: what comes of the call goes to a log or nowhere.
func onlyLogged(x ssa.CallInstruction) bool {
	seen := map[ssa.Value]bool{}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if v == nil || seen[v] || v.Referrers() == nil {
			return true
		}
		seen[v] = true
		for _, in := range *v.Referrers() {
			switch r := in.(type) {
			case *ssa.DebugRef:
			case *ssa.Store:
				switch ad := r.Addr.(type) {
				case *ssa.Alloc:
					if !ok(ad) {
						return false
					}
				case *ssa.IndexAddr:
					if r.Val == v && !ok(ad.X) {
						return false
					}
				default:
					return false
				}
			case *ssa.MakeClosure:
				f := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v && !ok(f.FreeVars[i]) {
						return false
					}
				}
			case *ssa.MakeInterface, *ssa.Slice, *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Extract, *ssa.IndexAddr:
				if !ok(r.(ssa.Value)) {
					return false
				}
			case *ssa.UnOp:
				if !ok(r) {
					return false
				}
			case ssa.CallInstruction:
				cc := r.Common()
				name := ""
				if f := cc.StaticCallee(); f != nil {
					name = f.String()
				} else if cc.IsInvoke() {
					name = cc.Method.FullName()
				}
				switch {
				case strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "(*log.") || strings.HasSuffix(name, "server.Logger).Printf"):
				case strings.HasPrefix(name, "time.") || strings.HasPrefix(name, "(time."):
					if cv := r.Value(); cv != nil && !ok(cv) {
						return false
					}
				default:
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	v := x.Value()
	return v == nil || ok(v)
}

// orderMatters tells how what a loop over a map does depends on the order.
func orderMatters(r *ssa.Range) string {
	fn := r.Parent()
	// the blocks of the loop
	var head *ssa.BasicBlock
	for _, u := range *r.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			head = n.Block()
		}
	}
	if head == nil {
		return ""
	}
	loop := map[*ssa.BasicBlock]bool{head: true}
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if loop[b] || !head.Dominates(b) {
			return
		}
		loop[b] = true
		for _, p := range b.Preds {
			back(p)
		}
	}
	for _, p := range head.Preds {
		if head.Dominates(p) {
			back(p)
		}
	}
	for b := range loop {
		for _, s := range b.Succs {
			if !loop[s] && b != head {
				return "the loop may end early"
			}
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Return:
				return "the loop may end early"
			case *ssa.Store:
				if !localTo(x.Addr, loop) {
					return "memory is written in the loop"
				}
			case ssa.CallInstruction:
				bi, ok := x.Common().Value.(*ssa.Builtin)
				if ok && bi.Name() == "append" {
					if !sortedAfter(fn, x.Value(), loop) {
						return "what is gathered is not sorted"
					}
					continue
				}
				if ok {
					continue
				}
				if f := x.Common().StaticCallee(); f != nil && pureLib.MatchString(f.String()) {
					continue
				}
				return "functions are called in the loop"
			case *ssa.Send, *ssa.Select:
				return "channels are used in the loop"
			case *ssa.Phi:
				if b != head {
					continue
				}
				// carried from one iteration to the next
				for i, e := range x.Edges {
					if loop[b.Preds[i]] && !commutes(x, e) {
						return "what it computes depends on the order"
					}
				}
			}
		}
	}
	return ""
}

var pureLib = regexp.MustCompile(`^(strings|bytes|strconv|unicode.*|math|errors)\.`)

func localTo(addr ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	for {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			addr = x.X
		case *ssa.IndexAddr:
			addr = x.X
		case *ssa.Alloc:
			return loop[x.Block()]
		default:
			return false
		}
	}
}

// commutes: the value carried is added to, by numbers that are the same in any order.
func commutes(phi *ssa.Phi, e ssa.Value) bool {
	if e == ssa.Value(phi) {
		return true
	}
	switch x := e.(type) {
	case *ssa.BinOp:
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			switch x.Op {
			case token.ADD, token.OR, token.AND, token.XOR, token.MUL:
				return x.X == ssa.Value(phi) || x.Y == ssa.Value(phi)
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return x.Call.Args[0] == ssa.Value(phi) // sorted: seen to elsewhere
		}
	case *ssa.Phi:
		for _, y := range x.Edges {
			if y != e && !commutes(phi, y) {
				return false
			}
		}
		return true
	}
	return false
}

var sorts = regexp.MustCompile(`^(sort|slices)\.(Sort|Slice|Strings|Ints|Float64s|Stable|SliceStable)`)

// sortedAfter: the list, or what it becomes, is sorted once the loop is over.
func sortedAfter(fn *ssa.Function, v ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	seen := map[ssa.Value]bool{}
	var q []ssa.Value
	push := func(v ssa.Value) {
		if v != nil && !seen[v] {
			seen[v] = true
			q = append(q, v)
		}
	}
	push(v)
	for len(q) > 0 {
		v := q[0]
		q = q[1:]
		if v.Referrers() == nil {
			continue
		}
		for _, in := range *v.Referrers() {
			switch r := in.(type) {
			case *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeType, *ssa.Convert:
				push(r.(ssa.Value))
			case *ssa.Store:
				if al, ok := r.Addr.(*ssa.Alloc); ok {
					for _, u := range *al.Referrers() {
						if ld, ok := u.(*ssa.UnOp); ok {
							push(ld)
						}
					}
				}
			case ssa.CallInstruction:
				if f := r.Common().StaticCallee(); f != nil && !loop[r.Block()] {
					o := f
					if f.Origin() != nil {
						o = f.Origin()
					}
					if sorts.MatchString(o.String()) {
						return true
					}
				}
			}
		}
	}
	return false
}

// ---- the end of the process

var exits = regexp.MustCompile(`^(os\.Exit|log\.(Fatal|Panic)(f|ln)?|\(\*log\.Logger\)\.(Fatal|Panic)(f|ln)?|runtime\.Goexit|syscall\.(Exit|Kill)|\(\*os\.Process\)\.(Kill|Signal)|regexp\.Must.*|text/template\.Must|html/template\.Must|net/netip\.Must.*|\(\*net/http\.Server\)\.(Close|Shutdown)|\(\*net\.[A-Za-z]*Listener\)\.Close|\(net\.Listener\)\.Close|debug/.*)$`)

func (c *Check) nothingEnds() {
	a := c.serving()
	type site struct {
		at   ssa.Instruction
		ctx  *pctx
		what string
	}
	var l []site
	for _, x := range a.order {
		if !during(x.root) {
			continue
		}
		c.ok("functions of requests")
		for _, b := range x.fn.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Panic); ok {
					l = append(l, site{in, x, "panic"})
				}
			}
		}
	}
	for _, s := range a.lib {
		if during(s.ctx.root) && exits.MatchString(s.name) {
			if strings.HasPrefix(s.name, "regexp.Must") {
				if k, ok := s.at.Common().Args[0].(*ssa.Const); ok && isStr(k.Type()) {
					v, _ := strVal(constTerm(k))
					if _, err := regexp.Compile(v); err == nil {
						continue
					}
				}
			}
			l = append(l, site{s.at, s.ctx, s.name})
		}
	}
	acc := map[string][][][]accepted{}
	for _, s := range l {
		ok := false
		links := map[ssa.Instruction]bool{} // the calls that lead to it
		for x := s.ctx; x != nil && during(x.root) && !ok; x = x.up {
			ok = c.cannotReach(x.fn, s.at, links, acc)
			if mapPackage(fnPkg(x.fn)) {
				break
			}
			links[x.at] = true
		}
		c.must(ok, "statements that end the process cannot be reached", relName(c.P, s.ctx.fn), c.P.instrPos(s.at), "a request may lead to %s in %s (%s)", s.what, relName(c.P, s.ctx.fn), s.ctx.chain(c.P))
	}
}

// accepted is what is known of a measure in one iteration over the measures of a schema.
type accepted struct {
	f *fact
	m *Term // the measure
}

// cannotReach: no path of the function comes to the statement, or to a call that leads to it and
// is not followed, given an accepted measure.
func (c *Check) cannotReach(fn *ssa.Function, at ssa.Instruction, links map[ssa.Instruction]bool, acc map[string][][][]accepted) bool {
	if len(fn.FreeVars) > 0 {
		return false
	}
	it := c.P.Run(fn, &Config{})
	if len(it.Undec) > 0 {
		return false
	}
	c.paths += len(it.Paths)
	for _, p := range it.Paths {
		hit := false
		for _, e := range flatten(p.Events) {
			if e.Kind != EvEnter && links[e.Instr] {
				hit = true // a call that is not followed
			}
			if e.Instr == at || (e.Kind == EvPanic || e.Kind == EvCall) && e.Pos.IsValid() && e.Pos == at.Pos() {
				hit = true
			}
		}
		if hit && !c.refuted(it, p, acc) {
			return false
		}
	}
	return true
}

func (c *Check) refuted(it *Interp, p *Path, acc map[string][][][]accepted) bool {
	recv := it.Root.Signature.Recv()
	m := c.iface(collPkg, "Measure")
	if recv == nil || m == nil || !types.Implements(recv.Type(), m) {
		return false
	}
	l, ok := acc[typeName(recv.Type())]
	if !ok {
		l = c.acceptance(recv.Type())
		acc[typeName(recv.Type())] = l
	}
	impossible := func(x accepted) bool {
		bind := map[*Term]*Term{it.Params[0]: x.m}
		for y := p.Facts; y != nil; y = y.up {
			if y.cond == nil {
				continue
			}
			k := timeless(subst(y.cond, bind))
			if y.val && isFalse(x.f, k) || !y.val && isTrue(x.f, k) {
				return true
			}
		}
		return false
	}
	// however the schema is compiled, one of the loops over all measures leaves no such measure
	for _, way := range l {
		some := false
		for _, set := range way {
			all := len(set) > 0
			for _, x := range set {
				all = all && impossible(x)
			}
			some = some || all
		}
		if !some {
			return false
		}
	}
	return len(l) > 0
}

// acceptance gathers what is known of a measure of type t when a schema has been compiled: for
// each way to do it, one list for each loop over all measures that ends only when none is left.
func (c *Check) acceptance(t types.Type) [][][]accepted {
	sub := newCheck(c.P, c.ID, c.Tier)
	l := sub.newLayout()
	if l == nil {
		return nil
	}
	l.update()
	l.compile()
	c.paths += sub.paths
	var ways [][][]accepted
	for _, w := range l.ways {
		var sets [][]accepted
		var rows []accepted
		for _, its := range w {
			var r []accepted
			for _, x := range its {
				if h := typeOf(x.b.Facts, x.m); h != nil && types.Identical(h, t) {
					a := accepted{timelessFacts(x.b.Facts), mkT("as", regType(t), t, x.m)}
					if x.row {
						rows = append(rows, a)
					} else {
						r = append(r, a)
					}
				}
			}
			sets = append(sets, r)
		}
		ways = append(ways, sets)
		if rows != nil {
			ways = append(ways, [][]accepted{rows})
		}
	}
	return ways
}

func init() {
	register(&checkDef{
		id:    "C12",
		run:   (*Check).queriesOnlyRead,
		rule:  "By a points-to analysis of the whole program that tells apart what is allocated at startup, by handling requests and in the library: no instruction that may be executed while a query is answered - in the handler, in what it calls, in closures passed on - may write to memory allocated at startup, such memory of the maps included, and no function of the library with lasting effects is called",
		floor: map[string]int{"contexts of queries": 1, "writes to memory of the query": 20},
	})
	register(&checkDef{
		id:    "C14",
		run:   (*Check).noChance,
		rule:  "In every function that may be executed while a query is answered there is no source of chance: no iteration over a map whose outcome depends on the order, no use of random numbers, the time or the environment that reaches more than the log, no goroutine, no choice among several channels, no address converted to a number or printed",
		floor: map[string]int{"contexts of queries": 1, "instructions of queries": 300},
	})
	register(&checkDef{
		id: "C27",
		run: func(c *Check) {
			c.nothingKept()
			c.stale()
		},
		rule:  "By a points-to analysis of the whole program: no memory allocated at startup or by the maps may refer to memory allocated while handling a request or obtained from net/http for it; requests start no goroutine that is not waited for; and no variable outside of the update functions, nor any object they have not allocated themselves, may refer to the record that a map lends to them; and after a scanner, reader or buffer is told to go on, nothing is used that refers to the memory that it lent before (by points-to and liveness)",
		floor: map[string]int{"lent records": 1, "values outside of updates": 100},
	})
	register(&checkDef{
		id:    "C30",
		run:   (*Check).nothingEnds,
		rule:  "Every explicit panic and every call of a function of the library that ends the process, panics on its argument or closes the server, in a function that may be executed while a request is handled, is unreachable: on every path of it, of the function it belongs to or of one that it is called from, to that statement the conditions contradict each other or what compiling the schema has established of the measures",
		floor: map[string]int{"functions of requests": 50, "statements that end the process cannot be reached": 1},
	})
	register(&checkDef{
		id:    "C33",
		run:   (*Check).shareNothing,
		rule:  "By a points-to analysis of the whole program: of all instructions that may be executed while a request is handled, only those of the maps, on memory of the maps, and atomic ones may write to memory allocated at startup; and nothing that requests may use is written after the server has been started",
		floor: map[string]int{"contexts of requests": 50, "writes to the maps": 1, "writes to memory of a request": 50, "starts of the server": 1},
	})
}

// timelessFacts are the facts without the times at which memory has been read.
func timelessFacts(f *fact) *fact {
	var l []*fact
	for y := f; y != nil; y = y.up {
		if y.cond != nil {
			l = append(l, y)
		}
	}
	var n *fact
	for i := len(l) - 1; i >= 0; i-- {
		if g, ok := n.assume(timeless(l[i].cond), l[i].val); ok {
			n = g
		}
	}
	return n
}
