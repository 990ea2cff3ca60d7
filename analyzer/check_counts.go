package main

// C48: what is read and written is accounted for.

import (
	"go/types"
	"strings"
)

// transfer models the reader or writer that is given to ReadFrom or WriteTo: every call may fail,
// with any number of bytes moved.
type transfer struct {
	end *Term // the reader or writer
	n   int
}

func (x *transfer) model(it *Interp, st *State, c *CallCtx) bool {
	isEnd := func(r *Term) bool {
		for r.Op == "iface" && len(r.Args) == 1 && r != x.end {
			r = r.Args[0]
		}
		return r == x.end
	}
	know := func(st *State, cond *Term, v bool) {
		if f, ok := st.facts.assume(cond, v); ok {
			st.facts = f
		}
	}
	moved := func(st *State, n *Term, res ...*Term) {
		if st.looping() {
			it.undecided("bytes are moved in a loop")
		}
		know(st, beq(it.stdGlobal("io", "EOF"), it.stdGlobal("io", "ErrUnexpectedEOF")), false)
		st.emit(&Event{Kind: EvCall, Instr: c.Instr, Name: c.Name, Args: c.Args, Aux: "moved", Val: n, Res: res})
		it.deliver(st, c, false, packRes(res)) // the states that go on apart
		c.Res(st, packRes(res))
	}
	errNil := mk("nil", "", 0)
	fresh := func(st *State, what string, hi *Term) *Term {
		n := it.fresh(st, c.Instr, what, types.Typ[types.Int], &Def{Kind: "res", Callee: c.Name, Name: what})
		know(st, bslt(n, mkInt(64, 0)), false)
		if hi != nil {
			know(st, bslt(hi, n), false)
		}
		return n
	}
	failure := func(st *State) *Term {
		err := it.fresh(st, c.Instr, "err", types.Universe.Lookup("error").Type(), &Def{Kind: "res", Callee: c.Name, Index: 1})
		know(st, mk("isnil", "", 0, err), false)
		for _, n := range []string{"EOF", "ErrUnexpectedEOF"} {
			know(st, beq(err, it.stdGlobal("io", n)), false)
		}
		return err
	}
	other := func(f func(st *State)) {
		o := st.fork()
		f(o)
		it.work = append(it.work, o)
	}
	switch c.Name {
	case "io.LimitReader":
		c.Res(st, mkT("limitreader", "", c.Common.Signature().Results().At(0).Type(), c.Args...))
		return true
	case "io.Writer.Write", "io.WriteString":
		if !isEnd(c.Args[0]) {
			return false
		}
		k := mkLen(c.Args[1])
		other(func(o *State) {
			n := fresh(o, "n", k)
			moved(o, n, n, failure(o))
		})
		moved(st, k, k, errNil)
		return true
	case "io.ReadFull":
		if !isEnd(c.Args[0]) {
			return false
		}
		k := mkLen(c.Args[1])
		buf, _, _ := sliceParts(c.Args[1])
		for i := 0; i < 3; i++ {
			i := i
			other(func(o *State) {
				it.havocValue(o, c.Instr, buf)
				switch i {
				case 0:
					moved(o, mkInt(64, 0), mkInt(64, 0), it.stdGlobal("io", "EOF"))
				case 1:
					n := fresh(o, "n", k)
					know(o, bslt(mkInt(64, 0), n), true)
					know(o, bslt(n, k), true)
					moved(o, n, n, it.stdGlobal("io", "ErrUnexpectedEOF"))
				case 2:
					n := fresh(o, "n", k)
					moved(o, n, n, failure(o))
				}
			})
		}
		it.havocValue(st, c.Instr, buf)
		moved(st, k, k, errNil)
		return true
	case "io.ReadAll", "io/ioutil.ReadAll":
		r := c.Args[0]
		var lim *Term
		for r.Op == "iface" && len(r.Args) == 1 {
			r = r.Args[0]
		}
		if r.Op == "limitreader" {
			r, lim = r.Args[0], r.Args[1]
		} else if o := st.mem.objs[r]; o != nil && o.typ != nil && types.TypeString(o.typ, nil) == "io.LimitedReader" {
			s := structOf(o.typ)
			lim = st.mem.load(it, st, c.Instr, mkFA(r, 1, o.typ), s.Field(1).Type())
			r = st.mem.load(it, st, c.Instr, mkFA(r, 0, o.typ), s.Field(0).Type())
		}
		if !isEnd(r) {
			return false
		}
		styp := c.Common.Signature().Results().At(0).Type()
		read := func(st *State) (n, data *Term) {
			n = fresh(st, "n", nil)
			if lim != nil {
				if v, known := st.facts.decide(bslt(lim, mkInt(64, 0))); known && !v {
					know(st, bslt(lim, n), false)
				}
			}
			o := mk("obj", "readall:"+st.site(c.Instr), 0)
			o.Typ = styp
			if o.Def == nil {
				o.Def = &Def{Kind: "alloc", Name: "what is read", Instr: c.Instr}
			}
			st.mem.newObj(o, nil, false)
			return n, mkSlice(o, mkInt(64, 0), n, styp)
		}
		other(func(o *State) {
			n, data := read(o)
			moved(o, n, data, failure(o))
		})
		n, data := read(st)
		moved(st, n, data, errNil)
		return true
	}
	return false
}

// havocValue forgets what an array consists of.
func (it *Interp) havocValue(st *State, in interface{}, base *Term) {
	st.mem.havocRoots(it, map[*Term]bool{rootOf(base): true}, "moved:"+fmtID(st.steps)+fmtID(len(st.eventList())))
}

func fmtID(n int) string { return strings.Repeat("i", n%7) + string(rune('a'+n%26)) }

func c48(c *Check) {
	for _, k := range codecs() {
		for _, name := range []string{"WriteTo", "ReadFrom"} {
			fn := c.fn(k.pkg, k.typ+"."+name)
			if fn == nil {
				continue
			}
			who := relName(c.P, fn)
			recv := leaf("codec.recv", fn.Params[0].Type(), &Def{Kind: "param", Index: 0, Name: "recv"})
			end := leaf("codec.end", fn.Params[1].Type(), &Def{Kind: "param", Index: 1, Name: fn.Params[1].Name()})
			x := &transfer{end: end}
			it := c.run(fn, &Config{Params: []*Term{recv, end}, Unroll: 16, Model: x.model})
			failing := 0
			for _, p := range it.Paths {
				if p.Out == OutBack {
					continue
				}
				if !c.must(p.Out == OutReturn && len(p.Ret) == 2, "ends", who, p.Pos, "it may end in a %s", p.Out) {
					continue
				}
				sum := mkInt(64, 0)
				for _, e := range p.flat() {
					switch {
					case e.Kind != EvCall:
					case e.Aux == "moved":
						sum = iadd(sum, e.Val)
					default:
						for _, a := range e.Args {
							if a == end {
								c.fail("undecided:"+who, e.Pos, "it is not known how many bytes %s moves", e.Name)
							}
						}
					}
				}
				if !errNil(p.Facts, p.Ret[1]) {
					failing++
				}
				n := p.Ret[0]
				c.must(n == sum || isTrue(p.Facts, beq(n, sum)), "counted", who, p.Pos, "%s bytes have been moved but %s are reported here", sum, n)
				eof := isEOF(p.Facts, p.Ret[1]) || p.Ret[1] == it.stdGlobal("io", "EOF")
				c.must(!eof || sum == mkInt(64, 0), "the end is at the start", who, p.Pos, "io.EOF, which says that there is nothing to read, is returned after %s bytes", sum)
			}
			c.must(failing > 0, "failures are followed", who, fn.Pos(), "it never fails")
		}
	}
}

func init() {
	register(&checkDef{
		id:     "C48",
		run:    c48,
		rule:   "With a reader or writer of which every call may succeed, find the end, or fail after any number of bytes, on every path of WriteTo and ReadFrom the number returned is the sum of the bytes moved on that path, and io.EOF is returned only where no byte has been moved",
		floor:  map[string]int{"counted": 20, "the end is at the start": 20, "failures are followed": 6},
		assume: []string{"the reader and writer given behave as io.Reader and io.Writer prescribe"},
	})
}
