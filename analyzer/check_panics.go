package main

// C43: whatever the text of a request, handling it does not fail at run time.

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type partialCall struct {
	name   *regexp.Regexp
	arg    int // of the receiver and arguments, or from the end
	lo, hi int64
}

// partialCalls are functions of the library that panic for some numbers: the argument and its
// least and greatest value that do not.
var partialCalls = []*partialCall{
	{regexp.MustCompile(`^\(net/http\.ResponseWriter\)\.WriteHeader$`), 1, 100, 999},
	{regexp.MustCompile(`^net/http\.(Error|Redirect)$`), -1, 100, 999},
	{regexp.MustCompile(`^(strings|bytes)\.Repeat$`), 1, 0, 1 << 40},
	{regexp.MustCompile(`^\(\*(bytes\.Buffer|strings\.Builder)\)\.Grow$`), 1, 0, 1 << 40},
	{regexp.MustCompile(`^strconv\.(FormatInt|FormatUint)$`), 1, 2, 36},
	{regexp.MustCompile(`^strconv\.(AppendInt|AppendUint)$`), 2, 2, 36},
	{regexp.MustCompile(`^time\.(NewTicker|Tick)$`), 0, 1, 1<<63 - 1},
	{regexp.MustCompile(`^math/rand\.(Intn|Int63n|Int31n|Perm)$`), 0, 1, 1<<63 - 1},
}

// partialSite is an instruction that fails at run time for some operands.
type partialSite struct {
	at   ssa.Instruction
	ctx  *pctx
	what string
	call *partialCall
}

// summaryPackage: what is stored is interpreted there, which other properties are about.
func summaryPackage(pk *types.Package) bool {
	return pk != nil && (strings.Contains(pk.Path(), "/internal/summary/") || strings.HasSuffix(pk.Path(), "/internal/bitbucket"))
}

// partialIn finds out whether an instruction may fail, leaving aside memory of records.
func (a *pta) partialIn(in ssa.Instruction, x *pctx, record map[*pobj]bool) string {
	ofRecord := func(v ssa.Value) bool {
		n := a.val(v, x, "")
		if n == nil || len(n.pts) == 0 {
			return false
		}
		for l := range n.pts {
			if !record[l.o] {
				return false
			}
		}
		return true
	}
	switch y := in.(type) {
	case *ssa.IndexAddr:
		if !ofRecord(y.X) {
			return "index"
		}
	case *ssa.Index:
		return "index"
	case *ssa.Lookup:
		if isString(y.X.Type()) {
			return "index"
		}
	case *ssa.Slice:
		if (y.Low != nil || y.High != nil || y.Max != nil) && !ofRecord(y.X) {
			return "slice"
		}
	case *ssa.SliceToArrayPointer:
		if !ofRecord(y.X) {
			return "conversion to an array"
		}
	case *ssa.BinOp:
		if widthOf(y.X.Type()) == 0 {
			break
		}
		k, isConst := y.Y.(*ssa.Const)
		switch y.Op {
		case token.QUO, token.REM:
			if !isConst || k.Int64() == 0 {
				return "division"
			}
		case token.SHL, token.SHR:
			if !isConst && !isUnsigned(y.Y.Type()) {
				return "shift"
			}
		}
	case *ssa.TypeAssert:
		if !y.CommaOk {
			return "type assertion"
		}
	case *ssa.MapUpdate:
		return "store in a map"
	case ssa.CallInstruction:
		if y.Common().IsInvoke() {
			return "call of a method"
		}
	}
	return ""
}

// recordMemory is the memory of the maps and what they copy records to.
func (a *pta) recordMemory() map[*pobj]bool {
	r := map[*pobj]bool{}
	for _, o := range a.objList {
		if a.ofMaps(o) {
			r[o] = true
		}
	}
	for _, w := range a.writes {
		if mapPackage(fnPkg(w.ctx.fn)) {
			for l := range w.to.pts {
				if !l.o.blob {
					r[l.o] = true
				}
			}
		}
	}
	return r
}

func (c *Check) noFailures() {
	a := c.serving()
	record := a.recordMemory()
	var l []partialSite
	for _, x := range a.order {
		pk := fnPkg(x.fn)
		if !during(x.root) || mapPackage(pk) || summaryPackage(pk) {
			continue
		}
		c.ok("functions of requests")
		for _, b := range x.fn.Blocks {
			for _, in := range b.Instrs {
				if what := a.partialIn(in, x, record); what != "" {
					l = append(l, partialSite{in, x, what, nil})
				}
			}
		}
	}
	for _, s := range a.lib {
		if !during(s.ctx.root) || summaryPackage(fnPkg(s.ctx.fn)) {
			continue
		}
		for _, k := range partialCalls {
			if k.name.MatchString(s.name) {
				l = append(l, partialSite{s.at, s.ctx, "call of " + s.name, k})
			}
		}
	}
	done := map[string]bool{}
	runs := map[*ssa.Function]*Interp{}
	for _, s := range l {
		links := map[ssa.Instruction]bool{}
		why := ""
		for x := s.ctx; x != nil && during(x.root); x = x.up {
			w := c.failsIn(runs, x.fn, s, links)
			if w == "" {
				why = ""
				break
			}
			if why == "" {
				why = w
			}
			if mapPackage(fnPkg(x.fn)) {
				break
			}
			links[x.at] = true
		}
		k := fmt.Sprintf("%p", s.at)
		if why != "" && done[k] {
			continue
		}
		done[k] = done[k] || why != ""
		c.must(why == "", "operations that may fail do not", relName(c.P, s.ctx.fn), c.P.instrPos(s.at), "this %s may fail while a request is handled: %s", s.what, why)
	}
}

// failsIn: on some path through fn the instruction may fail, or it is not known when it is run.
func (c *Check) failsIn(runs map[*ssa.Function]*Interp, fn *ssa.Function, s partialSite, links map[ssa.Instruction]bool) string {
	it := runs[fn]
	if it == nil {
		it = c.P.Run(fn, &Config{Bounds: true, Invariants: true, Assume: c.prefixed(fn)})
		runs[fn] = it
		c.paths += len(it.Paths)
		c.loops += len(it.Loops)
		c.steps += it.Steps
	}
	if len(it.Undec) > 0 {
		return it.Undec[0]
	}
	seen := map[*Event]bool{}
	for _, p := range it.Paths {
		for _, e := range flatten(p.Events) {
			if seen[e] {
				continue
			}
			seen[e] = true
			if e.Kind != EvEnter && links[e.Instr] {
				return "it is called in a way that is not followed"
			}
			if e.Instr != s.at {
				continue
			}
			if why := c.fails(it, e, s.call); why != "" {
				return why
			}
		}
	}
	return ""
}

// prefixed: the mux gives a handler that is registered for all that is below a path only requests
// whose path begins with it.
func (c *Check) prefixed(fn *ssa.Function) func(*Interp, *State, []*Term) {
	min := -1
	for _, h := range c.server().hs {
		if h.it.Root != fn {
			continue
		}
		n := 0
		if s, ok := h.stripped(); ok && strings.HasPrefix(h.reg.pattern, "/") && strings.HasPrefix(h.reg.pattern, s) {
			n = len(h.reg.pattern) - len(s)
		}
		if min < 0 || n < min {
			min = n
		}
	}
	if min <= 0 {
		return nil
	}
	return func(it *Interp, st *State, params []*Term) {
		if len(params) < 2 || len(fn.Blocks) == 0 {
			return
		}
		t := params[len(params)-1]
		at := fn.Blocks[0].Instrs[0]
		for _, name := range []string{"URL", "Path"} {
			if t.Typ == nil {
				return
			}
			pt, ok := t.Typ.Underlying().(*types.Pointer)
			if !ok {
				return
			}
			i := fieldIndex(pt.Elem(), name)
			if i < 0 {
				return
			}
			typ := structOf(pt.Elem()).Field(i).Type()
			t = st.mem.load(it, st, at, mkFA(t, i, pt.Elem()), typ)
		}
		if f, ok := st.facts.assume(bslt(mkLen(t), mkInt(64, uint64(min))), false); ok {
			st.facts = f
		}
	}
}

// fails tells why the operation of an event may fail.
func (c *Check) fails(it *Interp, e *Event, k *partialCall) string {
	f := c.lengthFacts(it, e.Facts, e.Args...)
	switch e.Kind {
	case EvIndex:
		n, i := e.Args[1], e.Args[2]
		if e.Aux == "slice" {
			hi := e.Args[3]
			switch {
			case !f.nonNegIn(i):
				return fmt.Sprintf("%s may be negative", i)
			case !isFalse(f, bslt(hi, i)):
				return fmt.Sprintf("%s may be beyond %s", i, hi)
			case !isFalse(f, bslt(n, hi)):
				return fmt.Sprintf("%s may be beyond %s", hi, n)
			}
			return ""
		}
		switch {
		case !f.nonNegIn(i):
			return fmt.Sprintf("%s may be negative", i)
		case !isTrue(f, bslt(i, n)):
			return fmt.Sprintf("%s may not be below %s", i, n)
		}
	case EvDiv:
		d := e.Args[0]
		if e.Aux == "shift" {
			if !f.nonNegIn(d) {
				return fmt.Sprintf("%s may be negative", d)
			}
		} else if !isFalse(f, beq(d, mkInt(d.W, 0))) {
			return fmt.Sprintf("%s may be zero", d)
		}
	case EvMapUpd:
		if m := e.Args[0]; !nonNilTerm(m) && !isFalse(f, mk("isnil", "", 0, m)) {
			return fmt.Sprintf("%s may be nil", m)
		}
	case EvPanic:
		return e.Aux
	case EvCall:
		if cc := commonOf(e.Instr); cc != nil && cc.IsInvoke() && len(e.Args) > 0 && isTrue(f, beq(tNil, e.Args[0])) {
			return fmt.Sprintf("%s is nil", e.Args[0])
		}
		if k == nil {
			break
		}
		i := k.arg
		if i < 0 {
			i += len(e.Args)
		}
		if i >= len(e.Args) || e.Args[i].W == 0 {
			return "its arguments are not known"
		}
		x := e.Args[i]
		if !isFalse(f, bslt(x, mkInt(x.W, uint64(k.lo)))) || !isFalse(f, bslt(mkInt(x.W, uint64(k.hi)), x)) {
			return fmt.Sprintf("%s may be out of range", x)
		}
	}
	return ""
}

func init() {
	register(&checkDef{
		id:    "C43",
		run:   (*Check).noFailures,
		rule:  "Every instruction that may be executed while a request is handled, outside of the maps and the summaries and on other memory than that of records, and that fails at run time for some operands - index, slice, division, shift, type assertion, store in a map, calls of the library that panic - succeeds on every path to it, given invariants of the loops that are found as the greatest set of bounds that holds on entry and is preserved by every iteration",
		floor: map[string]int{"functions of requests": 20, "operations that may fail do not": 10},
	})
}

// lengthFacts adds what is known of the lengths of what the library returns.
func (c *Check) lengthFacts(it *Interp, f *fact, ts ...*Term) *fact {
	know := func(cond *Term, val bool) {
		if g, ok := f.assume(cond, val); ok {
			f = g
		}
	}
	exactly := func(n *Term, k int) { know(beq(n, mkInt(64, uint64(k))), true) }
	for _, t := range ts {
		subterms(t, func(n *Term) bool {
			if n.Op != "len" {
				return true
			}
			x := n.Args[0]
			if x.Op == "load" && x.Args[0].Op == "ia" || x.Op == "elem" {
				b := x.Args[0]
				if x.Op == "load" {
					b = b.Args[0]
				}
				if b.Op == "call" && regexp.MustCompile(`^regexp\.Regexp\.FindAll(String)?Submatch(Index)?$`).MatchString(b.Aux) {
					if k, ok := c.groups(it, b.Args[0]); ok {
						if strings.HasSuffix(b.Aux, "Index") {
							k *= 2
						}
						exactly(n, k)
					}
				}
				return true
			}
			if x.Op != "call" {
				return true
			}
			switch x.Aux {
			case "strings.Split", "bytes.Split", "strings.SplitAfter", "bytes.SplitAfter", "strings.SplitN", "bytes.SplitN", "strings.SplitAfterN", "bytes.SplitAfterN":
				if sep := mkLen(x.Args[1]); !sep.isInt() || sep.V == 0 {
					break
				}
				if len(x.Args) > 2 {
					k := x.Args[2]
					if !k.isInt() || k.V == 0 {
						break
					}
					if k.sval() > 0 {
						know(bslt(k, n), false)
					}
				}
				know(bslt(mkInt(64, 0), n), true)
			case "regexp.Regexp.FindStringSubmatch", "regexp.Regexp.FindSubmatch", "regexp.Regexp.FindStringSubmatchIndex", "regexp.Regexp.FindSubmatchIndex", "regexp.Regexp.FindStringIndex", "regexp.Regexp.FindIndex":
				if !isFalse(f, mk("isnil", "", 0, x)) && !isTrue(f, bslt(mkInt(64, 0), n)) && !isFalse(f, beq(n, mkInt(64, 0))) {
					break
				}
				k, ok := 1, true
				if strings.Contains(x.Aux, "Submatch") {
					k, ok = c.groups(it, x.Args[0])
				}
				if strings.HasSuffix(x.Aux, "Index") {
					k *= 2
				}
				if ok {
					exactly(n, k)
				}
			}
			return true
		})
	}
	return f
}

// groups is the number of matches and submatches of a regular expression.
func (c *Check) groups(it *Interp, t *Term) (int, bool) {
	s, ok := c.regex(it, t)
	if !ok {
		return 0, false
	}
	re, err := regexp.Compile(s)
	if err != nil {
		return 0, false
	}
	return re.NumSubexp() + 1, true
}

func commonOf(in ssa.Instruction) *ssa.CallCommon {
	if x, ok := in.(ssa.CallInstruction); ok {
		return x.Common()
	}
	return nil
}
