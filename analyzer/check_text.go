package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C45: the text of an answer. What is sent to the client is put together, on every path that
// answers a query, from the pieces that are written: constants, values and what loops add.

// tpart is a part of a text.
type tpart struct {
	s    string // constant text
	t    *Term  // or a value
	verb byte   // how it is printed; 0: as it is
	loop *Event // or what the iterations of a loop add
	rest []*Event
	body [][]tpart
	bad  string // or something that is not understood
}

func (p tpart) String() string {
	switch {
	case p.bad != "":
		return "?" + p.bad
	case p.loop != nil:
		s := "loop{"
		for i, b := range p.body {
			if i > 0 {
				s += " | "
			}
			s += pieceText(b)
		}
		return s + "}"
	case p.t != nil && p.verb != 0:
		return fmt.Sprintf("%%%c:%s", p.verb, p.t.str(3))
	case p.t != nil:
		return p.t.str(3)
	}
	return fmt.Sprintf("%q", p.s)
}

func pieceText(l []tpart) string {
	if len(l) == 0 {
		return "nothing"
	}
	var s []string
	for _, p := range l {
		s = append(s, p.String())
	}
	return strings.Join(s, " ")
}

func isConstText(p tpart) bool { return p.t == nil && p.loop == nil && p.bad == "" }

// join merges constants that follow each other.
func joinText(l []tpart) []tpart {
	var out []tpart
	for _, p := range l {
		if isConstText(p) {
			if p.s == "" {
				continue
			}
			if n := len(out); n > 0 && isConstText(out[n-1]) {
				out[n-1].s += p.s
				continue
			}
		}
		out = append(out, p)
	}
	return out
}

func isSink(a, sink *Term) bool {
	return a == sink || a != nil && a.Op == "iface" && a.Args[0] == sink
}

// sent is the text that the events write to the sink.
func (c *Check) sent(evs []*Event, sink *Term, depth int) []tpart {
	var out []tpart
	if d := sink.Def; d != nil && d.Kind == "res" && len(d.Args) > 1 && (d.Callee == "bytes.NewBuffer" || d.Callee == "bytes.NewBufferString") {
		out = append(out, c.textPieces(d.Args[1], nil, nil, depth+1)...)
	}
	flushed := map[*Term]int{}
	for i, e := range evs {
		switch e.Kind {
		case EvLoop:
			var body [][]tpart
			any := false
			for _, b := range backsOf(e) {
				l := joinText(c.sent(after(b.Events, e), sink, depth))
				any = any || len(l) > 0
				body = append(body, l)
			}
			if any {
				out = append(out, tpart{loop: e, rest: evs[i:], body: body})
			}
		case EvCall, EvGo:
			at := -1
			for j, a := range e.Args {
				if isSink(a, sink) {
					at = j
				}
			}
			if at < 0 {
				if e.Name == "bufio.Writer.Flush" {
					if s := e.Args[0]; s.Def != nil && s.Def.Kind == "res" && strings.HasPrefix(s.Def.Callee, "bufio.NewWriter") && len(s.Def.Args) > 1 && isSink(s.Def.Args[1], sink) {
						out = append(out, c.sent(evs[flushed[s]:i], s, depth+1)...)
						flushed[s] = i
					}
				}
				continue
			}
			out = c.addWrite(out, e, evs[:i], at, sink, depth)
		}
	}
	return out
}

func (c *Check) addWrite(out []tpart, e *Event, before []*Event, at int, sink *Term, depth int) []tpart {
	if depth > 8 {
		return append(out, tpart{bad: "too deep"})
	}
	n := e.Name
	m := n[strings.LastIndexByte(n, '.')+1:]
	arg := func(k int) []tpart { return c.textPieces(e.Args[k], e, before, depth+1) }
	switch {
	case n == "net/http.ResponseWriter.Header", n == "net/http.ResponseWriter.WriteHeader", strings.HasPrefix(n, "bufio.NewWriter"), n == "net/http.Flusher.Flush":
		return out
	case at == 0 && strings.HasPrefix(n, "bytes.Buffer."), at == 0 && strings.HasPrefix(n, "strings.Builder."), at == 0 && strings.HasPrefix(n, "bufio.Writer."),
		at == 0 && n == "net/http.ResponseWriter.Write", at == 0 && (n == "io.Writer.Write" || n == "io.StringWriter.WriteString" || n == "io.ByteWriter.WriteByte"):
		switch m {
		case "Write", "WriteString", "WriteByte", "WriteRune":
			return append(out, arg(1)...)
		case "Bytes", "String", "Len", "Cap", "Grow", "Available", "Buffered", "Flush":
			return out
		case "WriteTo":
			return out // noted for the other
		case "Reset":
			return nil
		}
	case at == 0 && n == "io.WriteString":
		return append(out, arg(1)...)
	case at == 0 && n == "fmt.Fprintf":
		return append(out, c.formatted(e.Args[1:], e, before, depth)...)
	case at == 0 && n == "fmt.Fprint" && len(e.Args) == 2:
		return append(out, c.printed(e.Args[1], 'v', e, before, depth)...)
	case at == 0 && n == "fmt.Fprintln":
		for k, a := range e.Args[1:] {
			if k > 0 {
				out = append(out, tpart{s: " "})
			}
			out = append(out, c.printed(a, 'v', e, before, depth)...)
		}
		return append(out, tpart{s: "\n"})
	case at == 0 && n == "io.Copy" && len(e.Args) == 2:
		src := e.Args[1]
		if src.Op == "iface" {
			src = src.Args[0]
		}
		if d := src.Def; d != nil && d.Kind == "res" && (d.Callee == "strings.NewReader" || d.Callee == "bytes.NewReader") {
			return append(out, c.textPieces(d.Args[1], e, before, depth+1)...)
		}
		return append(out, c.sent(before, src, depth+1)...)
	case at == 1 && (n == "bytes.Buffer.WriteTo"):
		return append(out, c.sent(before, e.Args[0], depth+1)...)
	}
	return append(out, tpart{bad: "what " + shortName(n) + " writes"})
}

// textPieces takes the text of a value apart.
func (c *Check) textPieces(t *Term, e *Event, before []*Event, depth int) []tpart {
	if depth > 12 {
		return []tpart{{bad: "too deep"}}
	}
	for t.Op == "strof" || t.Op == "bytesof" || t.Op == "at" {
		t = t.Args[0]
	}
	if s, ok := strVal(t); ok {
		return []tpart{{s: s}}
	}
	if isNilTerm(t) || t.Typ != nil && isSliceType(t.Typ) && mkLen(t).isConstInt(0) {
		return nil
	}
	switch t.Op {
	case "int":
		if t.W == 8 {
			return []tpart{{s: string([]byte{byte(t.V)})}}
		}
		return []tpart{{s: string(rune(t.sval()))}}
	case "concat", "append":
		var out []tpart
		for _, a := range t.Args {
			out = append(out, c.textPieces(a, e, before, depth+1)...)
		}
		return out
	case "appendslice":
		return append(c.textPieces(t.Args[0], e, before, depth+1), c.textPieces(t.Args[1], e, before, depth+1)...)
	case "call":
		switch t.Aux {
		case "fmt.Sprintf":
			return c.formatted(t.Args, e, before, depth)
		case "fmt.Sprint":
			if len(t.Args) == 1 {
				return c.printed(t.Args[0], 'v', e, before, depth)
			}
		case "fmt.Sprintln":
			if len(t.Args) == 1 {
				return append(c.printed(t.Args[0], 'v', e, before, depth), tpart{s: "\n"})
			}
		}
	}
	if base, off, n := sliceParts(t); t.Op == "slice" {
		if n.isConstInt(0) {
			return nil
		}
		for i := len(before) - 1; i >= 0 && base.Def != nil && base.Def.Kind == "append"; i-- {
			if x := before[i]; x.Kind == EvCopy && x.Args[0] == t {
				return c.textPieces(x.Args[1], x, before[:i], depth+1)
			}
		}
		if isArrayBase(base) && off.isInt() && n.isInt() && n.V <= 64 && e != nil && e.Mem != nil {
			var out []tpart
			for i := uint64(0); i < n.V; i++ {
				v := e.Mem(mkIA(base, mkInt(64, off.V+i), types.Typ[types.Uint8]), types.Typ[types.Uint8])
				if v == nil || !v.isInt() {
					return []tpart{{t: t}}
				}
				out = append(out, tpart{s: string([]byte{byte(v.V)})})
			}
			return out
		}
	}
	// what a loop has left
	for i := len(before) - 1; i >= 0; i-- {
		l := before[i]
		init, ok := l.Init[t]
		if l.Kind != EvLoop || !ok {
			continue
		}
		out := c.textPieces(init, l, before[:i], depth+1)
		p := tpart{loop: l, rest: before[i:]}
		any := false
		for _, b := range backsOf(l) {
			nx := b.Next[t]
			if nx == nil || nx == t {
				p.body = append(p.body, nil)
				continue
			}
			in := after(b.Events, l)
			var at *Event = e
			for _, x := range in {
				if x.Mem != nil {
					at = x
				}
			}
			q := joinText(c.textPieces(nx, at, in, depth+1))
			if len(q) == 0 || q[0].t != t {
				return []tpart{{bad: "text that is replaced in a loop"}}
			}
			any = true
			p.body = append(p.body, q[1:])
		}
		if any {
			out = append(out, p)
		}
		return out
	}
	// what a buffer holds
	if d := t.Def; d != nil && d.Kind == "res" && len(d.Args) > 1 {
		switch d.Callee {
		case "bytes.Buffer.Bytes", "bytes.Buffer.String", "strings.Builder.String":
			for i, x := range before {
				if x.Kind == EvCall && len(x.Res) > 0 && x.Res[0] == t {
					return c.sent(before[:i], d.Args[1], depth+1)
				}
			}
		}
	}
	return []tpart{{t: t}}
}

// formatted: the text that a format results in.
func (c *Check) formatted(args []*Term, e *Event, before []*Event, depth int) []tpart {
	f, ok := strVal(args[0])
	if !ok {
		return []tpart{{bad: "a format that is not constant"}}
	}
	var out []tpart
	args = args[1:]
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, tpart{s: f[i : i+1]})
			continue
		}
		i++
		if i >= len(f) {
			return []tpart{{bad: "a format that ends early"}}
		}
		if f[i] == '%' {
			out = append(out, tpart{s: "%"})
			continue
		}
		if strings.IndexByte("+-# 0123456789.[*", f[i]) >= 0 {
			return []tpart{{bad: "a format with flags"}}
		}
		if len(args) == 0 {
			return []tpart{{bad: "a format without arguments"}}
		}
		out = append(out, c.printed(args[0], f[i], e, before, depth)...)
		args = args[1:]
	}
	if len(args) > 0 {
		return []tpart{{bad: "arguments without a format"}}
	}
	return out
}

// printed: a value printed with a verb.
func (c *Check) printed(t *Term, verb byte, e *Event, before []*Event, depth int) []tpart {
	typ := t.Typ
	if t.Op == "iface" {
		typ = typeReg[t.Aux]
		t = t.Args[0]
	}
	if typ != nil && (verb == 's' || verb == 'v') {
		u := typ.Underlying()
		named := types.NewMethodSet(typ).Len() > 0
		if b, ok := u.(*types.Basic); ok && b.Info()&types.IsString != 0 && !named {
			return c.textPieces(t, e, before, depth+1)
		}
		if s, ok := u.(*types.Slice); ok && verb == 's' && !named {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return c.textPieces(t, e, before, depth+1)
			}
		}
	}
	if typ != nil && (verb == 's' || verb == 'v') {
		if fn := c.stringer(typ); fn != nil {
			it := c.run(fn, &Config{})
			if len(it.Paths) == 1 && it.Paths[0].Out == OutReturn && len(it.Params) == 1 {
				p := it.Paths[0]
				v := t
				if r := it.Params[0]; isPointer(r.Typ) != isPointer(typ) {
					v = mkLoad(t, "", r.Typ)
				}
				var at *Event
				for _, x := range p.Events {
					if x.Mem != nil {
						at = x
					}
				}
				l := c.textPieces(p.Ret[0], at, p.Events, depth+1)
				for i := range l {
					if l[i].loop != nil {
						return []tpart{{bad: "text of " + relName(c.P, fn)}}
					}
					if l[i].t != nil {
						l[i].t = subst(l[i].t, map[*Term]*Term{it.Params[0]: v})
					}
				}
				return l
			}
		}
	}
	if verb == 'c' && t.isInt() {
		return []tpart{{s: string(rune(t.sval()))}}
	}
	return []tpart{{t: t, verb: verb}}
}

// stringer is the method that gives the text of values of a type of the module.
func (c *Check) stringer(typ types.Type) *ssa.Function {
	ms := c.P.SSA.MethodSets.MethodSet(typ)
	for _, n := range []string{"Error", "String"} {
		sel := ms.Lookup(nil, n)
		if sel == nil {
			continue
		}
		fn := c.P.SSA.MethodValue(sel)
		if fn == nil || !c.P.inModule(fn) || fn.Signature.Params().Len() != 0 {
			return nil
		}
		return fn
	}
	return nil
}

func isPointer(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// elemPiece: is the piece the field of the element (or all of it)?
func elemPiece(p tpart, el, elem *Term, et types.Type, name string) bool {
	if p.t == nil {
		return false
	}
	t := timeless(stripConv(p.t))
	if name == "" {
		return t == elem || t == el || t.Op == "load" && t.Args[0] == el
	}
	st := structOf(et)
	for j := 0; st != nil && j < st.NumFields(); j++ {
		if st.Field(j).Name() == name {
			return t == timeless(mkField(elem, j, st.Field(j).Type())) || t.Op == "load" && t.Args[0] == mkFA(el, j, et)
		}
	}
	return false
}

func c45(c *Check) {
	c.labelText()
	_, qs := handlersOf(c)
	for _, q := range qs {
		// what the values are printed with is followed as well
		h := c.server().handleWith(c.P, q.reg, func(f *ssa.Function) bool {
			return c.P.outsideServer(f) && !c.P.funcIn(f, collPkg)
		})
		if h == nil {
			continue
		}
		who := h.name
		for _, p := range h.it.Paths {
			if p.Out != OutReturn || firstStatus(p.Events, h.w, p.Facts) >= 0 {
				continue
			}
			var read *Event
			for _, e := range flatten(p.Events) {
				if isStoreCall(e, "Read") {
					read = e
				}
			}
			if read == nil || indexOf(p.Events, read) < 0 {
				continue
			}
			c.answer(h, who, p, read)
		}
	}
}

// answer: the text sent on a path.
func (c *Check) answer(h *handler, who string, p *Path, read *Event) {
	txt := joinText(c.sent(p.Events, h.w, 0))
	for _, q := range txt {
		if q.bad != "" {
			c.fail("text of an answer:"+who, p.Pos, "it is not understood what is sent: %s", q.bad)
			return
		}
	}
	qt := read.Args[len(read.Args)-1]
	crit := fieldNamed(qt, qt.Typ, "Criteria")
	if qt.Typ == nil || crit == nil {
		c.fail("anchor:Query", read.Pos, "a query has an unexpected type")
		return
	}
	vals := fieldNamed(read.Res[0], read.Sig.Results().At(0).Type(), "FieldMeasureValues")
	if vals == nil {
		c.fail("anchor:Result", read.Pos, "the result of a query has an unexpected type")
		return
	}
	k := 0
	next := func(seq *Term, what string, line func(b []tpart, el, elem *Term, et types.Type) string) {
		seq = timeless(seq)
		if k >= len(txt) || txt[k].loop == nil {
			got := "nothing"
			if k < len(txt) {
				got = txt[k].String()
			}
			c.fail("lines:"+who+what, p.Pos, "the %s are not sent in their place: there is %s", what, got)
			return
		}
		l := txt[k]
		k++
		idx, _, why := rangeLoop(l.loop, l.rest, func(t *Term) bool { return timeless(t) == seq })
		if idx == nil || why != "" {
			c.fail("lines:"+who+what, l.loop.Pos, "not all %s are sent in their order: %s", what, why)
			return
		}
		b0, o0, _ := sliceParts(seq)
		el := timeless(mkIA(b0, iadd(o0, idx), nil))
		et := seq.Typ.Underlying().(*types.Slice).Elem()
		elem := timeless(mkLoad(el, "", et))
		for _, b := range l.body {
			why := line(b, el, elem, et)
			c.must(why == "", "line of "+what, who, l.loop.Pos, "%s: %s", why, pieceText(b))
		}
	}
	next(crit, "conditions", func(b []tpart, el, elem *Term, et types.Type) string {
		if len(b) == 4 && elemPiece(b[0], el, elem, et, "F") && b[0].verb == 0 && isConstText(b[1]) && b[1].s == "=" && elemPiece(b[2], el, elem, et, "V") && b[2].verb == 0 && isConstText(b[3]) && b[3].s == "\n" {
			return ""
		}
		return "a condition is not sent as its field, an equals sign, its value and a newline"
	})
	next(vals, "values", func(b []tpart, el, elem *Term, et types.Type) string {
		if n := len(b); n > 0 && isConstText(b[n-1]) && b[n-1].s == "\n" {
			b = b[:n-1]
			return label(b, el, elem, et)
		}
		return "a value is not sent on a line of its own"
	})
	if k < len(txt) {
		c.fail("nothing else:"+who, p.Pos, "something else is sent: %s", pieceText(txt[k:]))
	} else {
		c.ok("nothing else")
	}
}

// label: measure(field)=value
func label(b []tpart, el, elem *Term, et types.Type) string {
	if len(b) == 5 && elemPiece(b[0], el, elem, et, "M") && b[0].verb == 0 && isConstText(b[1]) && b[1].s == "(" &&
		elemPiece(b[2], el, elem, et, "F") && b[2].verb == 0 && isConstText(b[3]) && b[3].s == ")=" &&
		elemPiece(b[4], el, elem, et, "V") && (b[4].verb == 'v' || b[4].verb == 'g') {
		return ""
	}
	return "a value is not sent as its measure, its field in parentheses, an equals sign and itself"
}

// labelText: the text of a value.
func (c *Check) labelText() {
	fn := c.fn(collPkg, "FMV.String")
	if fn == nil {
		return
	}
	who := relName(c.P, fn)
	it := c.run(fn, &Config{})
	for _, p := range it.Paths {
		if !c.must(p.Out == OutReturn && len(p.Ret) == 1, "text of a value", who, p.Pos, "it may end in a %s", p.Out) {
			continue
		}
		v := it.Params[0]
		typ := v.Typ
		el := v
		if pt, ok := typ.Underlying().(*types.Pointer); ok {
			typ = pt.Elem()
			v = mkLoad(v, "", typ)
		}
		var at *Event
		for _, x := range p.Events {
			if x.Mem != nil {
				at = x
			}
		}
		l := joinText(c.textPieces(p.Ret[0], at, p.Events, 0))
		why := label(l, el, timeless(v), typ)
		c.must(why == "", "text of a value", who, p.Pos, "%s: %s", why, pieceText(l))
	}
}

func init() {
	register(&checkDef{id: "C45", run: c45,
		rule:   "the text written to the response is put together on every path of a query handler that answers with success, through buffers, formats, concatenation and appending: it is one loop over the criteria of the query that was given to the store, each iteration adding field, '=', value, newline, and one loop over the values that were read, each adding measure, '(', field, ')=', value, newline, and nothing else",
		floor:  map[string]int{"line of conditions": 1, "line of values": 1, "nothing else": 1, "text of a value": 1},
		assume: []string{"fmt, bytes, strings, bufio and net/http behave as documented"}})
}
