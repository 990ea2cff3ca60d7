// Command mut makes variants of a Go module, mechanically: refactorings that change no behaviour
// (-same) and small faults (-bug). It lists them as JSON lines {id, file, from, to, text} of
// replacements of bytes; run.py of this directory applies and checks them.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
)

type Rep struct {
	From int    `json:"from"`
	To   int    `json:"to"`
	Text string `json:"text"`
}

type Variant struct {
	ID   string `json:"id"`
	File string `json:"file"`
	Func string `json:"func"`
	Reps []Rep  `json:"reps"`
	Line int    `json:"line"`
	Orig string `json:"orig"`
}

var (
	fset *token.FileSet
	enc  = json.NewEncoder(os.Stdout)
)

type gen struct {
	pkg   *packages.Package
	info  *types.Info
	file  string // relative
	src   []byte
	fn    string
	fd    *ast.FuncDecl
	n     int
	stack []ast.Node
}

func (g *gen) off(p token.Pos) int { return fset.Position(p).Offset }
func (g *gen) text(n ast.Node) string {
	return string(g.src[g.off(n.Pos()):g.off(n.End())])
}

func (g *gen) emit(kind string, n ast.Node, reps ...Rep) {
	g.n++
	o := g.text(n)
	if len(o) > 80 {
		o = o[:80]
	}
	pos := fset.Position(n.Pos())
	enc.Encode(Variant{ID: fmt.Sprintf("%s-%s-%d-%d", kind, strings.TrimSuffix(filepath.Base(g.file), ".go"), pos.Line, g.n), File: g.file, Func: g.fn, Reps: reps, Line: pos.Line, Orig: o})
}

func (g *gen) rep(n ast.Node, text string) Rep { return Rep{g.off(n.Pos()), g.off(n.End()), text} }
func (g *gen) ins(p token.Pos, text string) Rep {
	o := g.off(p)
	return Rep{o, o, text}
}

func (g *gen) parent(k int) ast.Node {
	if len(g.stack) > k {
		return g.stack[len(g.stack)-1-k]
	}
	return nil
}

func (g *gen) qual(p *types.Package) string {
	if p == g.pkg.Types {
		return ""
	}
	return p.Name()
}

func (g *gen) typ(t types.Type) string { return types.TypeString(types.Default(t), g.qual) }

// pure: evaluating it does nothing and depends only on variables.
func (g *gen) pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if tv, is := g.info.Types[n.Fun]; is && tv.IsType() {
				return true
			}
			if id, is := n.Fun.(*ast.Ident); is && (id.Name == "len" || id.Name == "cap") {
				return true
			}
			ok = false
		case *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func isBlockStmt(p ast.Node) bool {
	switch p.(type) {
	case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
		return true
	}
	return false
}

// hasJump: there are statements that leave n otherwise than at its end.
func hasJump(n ast.Node) bool {
	j := false
	var walk func(n ast.Node, depth int)
	walk = func(n ast.Node, depth int) {
		ast.Inspect(n, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ReturnStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.LabeledStmt:
				_ = x
				j = true
			}
			return !j
		})
	}
	walk(n, 0)
	return j
}

// frees: the variables of the function that n uses and those it assigns to or takes the address of
// although they are declared outside.
func (g *gen) frees(n ast.Node) (use []*types.Var, assigns bool) {
	seen := map[*types.Var]bool{}
	local := func(id *ast.Ident) *types.Var {
		o := g.info.Uses[id]
		v, ok := o.(*types.Var)
		if !ok || v.IsField() || v.Parent() == nil || v.Parent() == g.pkg.Types.Scope() || v.Pkg() != g.pkg.Types {
			return nil
		}
		if v.Pos() >= n.Pos() && v.Pos() < n.End() {
			return nil
		}
		return v
	}
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.Ident:
			if v := local(x); v != nil && !seen[v] {
				seen[v] = true
				use = append(use, v)
			}
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if g.rootAssigned(l, local) {
					assigns = true
				}
			}
		case *ast.IncDecStmt:
			if g.rootAssigned(x.X, local) {
				assigns = true
			}
		case *ast.RangeStmt:
			for _, l := range []ast.Expr{x.Key, x.Value} {
				if l != nil && x.Tok == token.ASSIGN && g.rootAssigned(l, local) {
					assigns = true
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND && g.rootAssigned(x.X, local) {
				assigns = true
			}
		case *ast.SliceExpr:
			if _, ok := g.info.TypeOf(x.X).Underlying().(*types.Array); ok && g.rootAssigned(x.X, local) {
				assigns = true
			}
		case *ast.SelectorExpr:
			// a method called on the address of a variable
			if s := g.info.Selections[x]; s != nil && s.Kind() == types.MethodVal {
				if sig := s.Obj().Type().(*types.Signature); sig.Recv() != nil {
					_, rp := sig.Recv().Type().(*types.Pointer)
					_, xp := g.info.TypeOf(x.X).Underlying().(*types.Pointer)
					if rp && !xp && g.rootAssigned(x.X, local) {
						assigns = true
					}
				}
			}
		}
		return true
	})
	return
}

// rootAssigned: assigning to the expression changes a local variable itself.
func (g *gen) rootAssigned(e ast.Expr, local func(*ast.Ident) *types.Var) bool {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.Ident:
			return local(x) != nil
		case *ast.SelectorExpr:
			if _, ok := g.info.TypeOf(x.X).Underlying().(*types.Pointer); ok {
				return false
			}
			e = x.X
		case *ast.IndexExpr:
			if _, ok := g.info.TypeOf(x.X).Underlying().(*types.Array); !ok {
				return false
			}
			e = x.X
		default:
			return false
		}
	}
}

func (g *gen) params(vs []*types.Var) (decl, args string) {
	var d, a []string
	for _, v := range vs {
		d = append(d, v.Name()+" "+g.typ(v.Type()))
		a = append(a, v.Name())
	}
	return strings.Join(d, ", "), strings.Join(a, ", ")
}

// helper appends a function to the file.
func (g *gen) helper(text string) Rep { return Rep{len(g.src), len(g.src), "\n" + text + "\n"} }

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

var flip = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
var negate = map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}

func terminates(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch x := b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return x.Tok != token.FALLTHROUGH
	}
	return false
}

func (g *gen) inner(b *ast.BlockStmt) string {
	return string(g.src[g.off(b.Lbrace)+1 : g.off(b.Rbrace)])
}

// ownJumps: break or continue that refers to the enclosing loop, not one inside of n.
func ownJumps(n ast.Node, tok token.Token) bool {
	found := false
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ForStmt, *ast.RangeStmt:
			// a labelled jump may still leave
			ast.Inspect(n, func(y ast.Node) bool {
				if b, ok := y.(*ast.BranchStmt); ok && b.Label != nil {
					found = true
				}
				return true
			})
			return false
		case *ast.BranchStmt:
			if x.Tok == tok || x.Label != nil {
				found = true
			}
		}
		return true
	}
	ast.Inspect(n, walk)
	return found
}

func (g *gen) same(n ast.Node) {
	p := g.parent(1)
	switch x := n.(type) {
	case *ast.IfStmt:
		_, elseIf := p.(*ast.IfStmt)
		plain := x.Init == nil && !elseIf && isBlockStmt(p)
		cond := g.text(x.Cond)
		if plain {
			g.emit("condvar", x, g.ins(x.Pos(), "cond0 := "+cond+"\n"), g.rep(x.Cond, "cond0"))
		}
		if x.Init != nil && !elseIf && isBlockStmt(p) {
			g.emit("initout", x, Rep{g.off(x.Pos()), g.off(x.Cond.Pos()), "{\n" + g.text(x.Init) + "\nif "}, g.ins(x.End(), "\n}"))
		}
		if x.Else != nil {
			if eb, ok := x.Else.(*ast.BlockStmt); ok {
				g.emit("invert", x, g.rep(x.Cond, "!("+cond+")"), g.rep(x.Body, g.text(eb)), g.rep(eb, g.text(x.Body)))
				if terminates(x.Body) && plain {
					g.emit("noelse", x, Rep{g.off(x.Body.End()), g.off(eb.End()), "\n{" + g.inner(eb) + "}"})
				}
			}
		} else {
			g.emit("emptythen", x, g.rep(x.Cond, "!("+cond+")"), g.rep(x.Body, "{\n} else "+g.text(x.Body)))
			if b, ok := x.Cond.(*ast.BinaryExpr); ok {
				if b.Op == token.LAND {
					g.emit("nest", x, g.rep(x.Cond, g.text(b.X)), g.rep(x.Body, "{\nif "+g.text(b.Y)+g.text(x.Body)+"\n}"))
				}
				if b.Op == token.LOR && plain && terminates(x.Body) {
					g.emit("splitor", x, g.rep(x.Cond, g.text(b.X)), g.ins(x.End(), "\nif "+g.text(b.Y)+" "+g.text(x.Body)))
				}
			}
			// the rest of the block in an else
			if blk, ok := p.(*ast.BlockStmt); ok && plain && terminates(x.Body) && blk.List[len(blk.List)-1] != ast.Stmt(x) {
				if _, isRet := x.Body.List[len(x.Body.List)-1].(*ast.ReturnStmt); isRet {
					g.emit("elserest", x, g.ins(x.End(), " else {"), Rep{g.off(blk.Rbrace), g.off(blk.Rbrace), "\n}\n"})
				}
			}
			// as the last statement of a loop
			if blk, ok := p.(*ast.BlockStmt); ok && plain && len(blk.List) > 0 && blk.List[len(blk.List)-1] == ast.Stmt(x) {
				switch g.parent(2).(type) {
				case *ast.ForStmt, *ast.RangeStmt:
					g.emit("guard", x, g.rep(x.Cond, "!("+cond+")"), g.rep(x.Body, "{\ncontinue\n}\n"+g.inner(x.Body)))
				}
			}
		}
	case *ast.IncDecStmt:
		op := "+="
		if x.Tok == token.DEC {
			op = "-="
		}
		g.emit("incdec", x, g.rep(x, g.text(x.X)+" "+op+" 1"))
	case *ast.AssignStmt:
		if len(x.Lhs) == 1 && len(x.Rhs) == 1 {
			l, r := g.text(x.Lhs[0]), g.text(x.Rhs[0])
			if x.Tok != token.ASSIGN && x.Tok != token.DEFINE && g.pure(x.Lhs[0]) {
				op := strings.TrimSuffix(x.Tok.String(), "=")
				g.emit("opassign", x, g.rep(x, l+" = "+l+" "+op+" ("+r+")"))
			}
			if x.Tok == token.DEFINE && isBlockStmt(p) {
				g.emit("vardecl", x, g.rep(x, "var "+l+" "+g.typ(g.info.TypeOf(x.Lhs[0]))+"\n"+l+" = "+r))
			}
			if x.Tok == token.ASSIGN && isBlockStmt(p) && g.pure(x.Lhs[0]) {
				if tv := g.info.Types[x.Rhs[0]]; !tv.IsNil() && tv.Value == nil {
					g.emit("tmpassign", x, g.rep(x, "tmp0 := "+r+"\n"+l+" = tmp0"))
				}
			}
			if g.nontrivial(x.Rhs[0]) {
				g.extract(x.Rhs[0])
			}
		}
	case *ast.ReturnStmt:
		if len(x.Results) > 0 && isBlockStmt(p) {
			var sig *types.Signature
			for i := len(g.stack) - 1; i >= 0 && sig == nil; i-- {
				switch f := g.stack[i].(type) {
				case *ast.FuncLit:
					sig = g.info.TypeOf(f).(*types.Signature)
				case *ast.FuncDecl:
					sig = g.info.Defs[f.Name].Type().(*types.Signature)
				}
			}
			if sig != nil && sig.Results().Len() == len(x.Results) {
				s := ""
				var names []string
				for i, r := range x.Results {
					s += fmt.Sprintf("var ret%d %s = %s\n", i, g.typ(sig.Results().At(i).Type()), g.text(r))
					names = append(names, fmt.Sprintf("ret%d", i))
				}
				g.emit("rettmp", x, g.rep(x, s+"return "+strings.Join(names, ", ")))
			}
			if len(x.Results) == 1 && g.nontrivial(x.Results[0]) {
				g.extract(x.Results[0])
			}
		}
	case *ast.BinaryExpr:
		if f, ok := flip[x.Op]; ok && (g.pure(x.X) || g.pure(x.Y)) {
			g.emit("flip", x, g.rep(x, g.text(x.Y)+" "+f.String()+" "+g.text(x.X)))
		}
		if f, ok := negate[x.Op]; ok && !isFloat(g.info.TypeOf(x.X)) {
			g.emit("negate", x, g.rep(x, "!("+g.text(x.X)+" "+f.String()+" "+g.text(x.Y)+")"))
		}
		switch x.Op {
		case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
			if b, ok := g.info.TypeOf(x).Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && g.pure(x.X) && g.pure(x.Y) {
				g.emit("commute", x, g.rep(x, "("+g.text(x.Y)+") "+x.Op.String()+" ("+g.text(x.X)+")"))
			}
		}
	case *ast.RangeStmt:
		if _, lab := p.(*ast.LabeledStmt); lab {
			break
		}
		t := g.info.TypeOf(x.X)
		if _, ok := t.Underlying().(*types.Slice); ok && x.Tok == token.DEFINE && g.pure(x.X) {
			xs := g.text(x.X)
			key := "idx0"
			if id, ok := x.Key.(*ast.Ident); ok && id.Name != "_" {
				key = id.Name
			}
			val := ""
			if id, ok := x.Value.(*ast.Ident); ok && id.Name != "_" {
				val = id.Name + " := " + xs + "[" + key + "]\n"
			}
			body := g.inner(x.Body)
			g.emit("rangeindex", x, g.rep(x, fmt.Sprintf("for %s := 0; %s < len(%s); %s++ {\n%s%s}", key, key, xs, key, val, body)))
			g.emit("rangelen", x, g.rep(x, fmt.Sprintf("for %s, len0 := 0, len(%s); %s < len0; %s++ {\n%s%s}", key, xs, key, key, val, body)))
			if !ownJumps(x.Body, token.CONTINUE) {
				g.emit("rangewhile", x, g.rep(x, fmt.Sprintf("%s := 0\nfor %s < len(%s) {\n%s%s\n%s++\n}", key, key, xs, val, body, key)))
			}
			if val != "" {
				v := x.Value.(*ast.Ident).Name
				k := "_"
				if id, ok := x.Key.(*ast.Ident); ok && id.Name != "_" {
					k = id.Name
				}
				kk := k
				if kk == "_" {
					kk = "idx0"
				}
				g.emit("rangekey", x, g.rep(x, fmt.Sprintf("for %s := range %s {\n%s := %s[%s]\n%s}", kk, xs, v, xs, kk, body)))
			}
		}
	case *ast.ForStmt:
		if _, lab := p.(*ast.LabeledStmt); lab {
			break
		}
		if x.Init != nil && x.Post != nil && !ownJumps(x.Body, token.CONTINUE) {
			c := ""
			if x.Cond != nil {
				c = g.text(x.Cond)
			}
			g.emit("forwhile", x, g.rep(x, "{\n"+g.text(x.Init)+"\nfor "+c+" {"+g.inner(x.Body)+"\n"+g.text(x.Post)+"\n}\n}"))
		}
		if x.Cond != nil {
			s := "for {\nif !(" + g.text(x.Cond) + ") {\nbreak\n}\n" + g.inner(x.Body) + "}"
			if x.Init == nil && x.Post == nil {
				g.emit("forbreak", x, g.rep(x, s))
			} else if x.Init != nil && x.Post != nil {
				g.emit("forbreak", x, g.rep(x, "for "+g.text(x.Init)+"; ; "+g.text(x.Post)+" {\nif !("+g.text(x.Cond)+") {\nbreak\n}\n"+g.inner(x.Body)+"}"))
			}
		}
		if x.Cond == nil && x.Init == nil && x.Post == nil {
			g.emit("fortrue", x, g.ins(x.Body.Pos(), "true "))
		}
	case *ast.CallExpr:
		if g.fd == nil || len(x.Args) == 0 {
			break
		}
		// arguments in variables, if the call is the whole statement
		var st ast.Node
		switch q := p.(type) {
		case *ast.ExprStmt:
			st = q
		case *ast.AssignStmt:
			if len(q.Rhs) == 1 {
				st = q
			}
		}
		if st != nil && isBlockStmt(g.parent(2)) {
			for _, a := range x.Args {
				tv := g.info.Types[a]
				if tv.IsType() || tv.Value != nil || tv.IsNil() {
					continue
				}
				if _, ok := a.(*ast.Ident); ok {
					continue
				}
				if _, ok := a.(*ast.FuncLit); ok {
					continue
				}
				if _, tup := tv.Type.(*types.Tuple); tup {
					continue
				}
				g.emit("argtmp", x, g.ins(st.Pos(), "arg0 := "+g.text(a)+"\n"), g.rep(a, "arg0"))
			}
		}
	case *ast.ExprStmt:
		if isBlockStmt(p) {
			g.emit("closure", x, g.rep(x, "func() {\n"+g.text(x)+"\n}()"))
			g.hoist(x)
		}
	case *ast.SliceExpr:
		if x.Low == nil && x.High != nil {
			g.emit("slicezero", x, g.ins(x.Lbrack+1, "0"))
		}
		if x.High == nil && g.pure(x.X) && !x.Slice3 {
			if _, ok := g.info.TypeOf(x.X).Underlying().(*types.Pointer); !ok {
				g.emit("slicelen", x, g.ins(x.Rbrack, "len("+g.text(x.X)+")"))
			}
		}
	case *ast.BlockStmt:
		for i := range x.List {
			if i+1 < len(x.List) {
				g.swap(x.List[i], x.List[i+1])
			}
			// runs of statements as helpers
			for _, k := range []int{2, 3} {
				if i+k <= len(x.List) && k < len(x.List) {
					g.hoistRun(x.List[i : i+k])
				}
			}
		}
		if len(x.List) > 0 {
			g.emit("noop", x, g.ins(x.Lbrace+1, "\n_ = 0\n"))
		}
	case *ast.SwitchStmt:
		g.switchIf(x, p)
	case *ast.CompositeLit:
	}
	switch x := n.(type) {
	case *ast.IfStmt:
		if isBlockStmt(p) {
			g.hoist(x)
			g.hoistErr(x)
		}
		if g.nontrivial(x.Cond) {
			g.extract(x.Cond)
		}
	case *ast.ForStmt, *ast.RangeStmt:
		if isBlockStmt(p) {
			g.hoist(x.(ast.Stmt))
		}
	}
}

// switchIf turns a switch into a chain of ifs.
func (g *gen) switchIf(x *ast.SwitchStmt, p ast.Node) {
	if x.Init != nil || !isBlockStmt(p) || x.Tag != nil && !g.pure(x.Tag) || ownJumps(x.Body, token.BREAK) {
		return
	}
	s, def := "", ""
	for _, c := range x.Body.List {
		cc := c.(*ast.CaseClause)
		body := ""
		for _, st := range cc.Body {
			if b, ok := st.(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
				return
			}
			body += "\n" + g.text(st)
		}
		if cc.List == nil {
			def = body
			continue
		}
		var cs []string
		for _, e := range cc.List {
			if x.Tag != nil {
				cs = append(cs, g.text(x.Tag)+" == "+g.text(e))
			} else {
				cs = append(cs, g.text(e))
			}
		}
		if s != "" {
			s += " else "
		}
		s += "if " + strings.Join(cs, " || ") + " {" + body + "\n}"
	}
	if s == "" {
		return
	}
	if def != "" {
		s += " else {" + def + "\n}"
	}
	g.emit("switchif", x, g.rep(x, s))
}

func (g *gen) nontrivial(e ast.Expr) bool {
	if tv := g.info.Types[e]; tv.Value != nil || tv.IsNil() || tv.Type == nil {
		return false
	}
	if _, ok := g.info.TypeOf(e).(*types.Tuple); ok {
		return false
	}
	switch e := e.(type) {
	case *ast.BinaryExpr, *ast.CallExpr, *ast.IndexExpr, *ast.SliceExpr, *ast.CompositeLit:
		return true
	case *ast.UnaryExpr:
		return e.Op != token.AND
	}
	return false
}

// extract makes an expression a function of its own.
func (g *gen) extract(e ast.Expr) {
	vs, asg := g.frees(e)
	if asg || hasFunc(e) {
		return
	}
	d, a := g.params(vs)
	t := g.info.TypeOf(e)
	g.emit("extract", e, g.rep(e, "helper0("+a+")"), g.helper("func helper0("+d+") "+g.typ(t)+" {\nreturn "+g.text(e)+"\n}"))
	g.emit("funclit", e, g.rep(e, "func() "+g.typ(t)+" { return "+g.text(e)+" }()"))
}

func hasFunc(n ast.Node) bool {
	f := false
	ast.Inspect(n, func(x ast.Node) bool {
		if _, ok := x.(*ast.FuncLit); ok {
			f = true
		}
		return !f
	})
	return f
}

// hoist makes a statement a function of its own.
func (g *gen) hoist(s ast.Stmt) {
	if hasJump(s) || hasFunc(s) {
		return
	}
	vs, asg := g.frees(s)
	if asg {
		return
	}
	d, a := g.params(vs)
	g.emit("hoist", s, g.rep(s, "helper0("+a+")"), g.helper("func helper0("+d+") {\n"+g.text(s)+"\n}"))
}

// hoistRun makes statements a function that returns what they define and is used later.
func (g *gen) hoistRun(l []ast.Stmt) {
	from, to := l[0].Pos(), l[len(l)-1].End()
	blk := &ast.BlockStmt{Lbrace: from, List: l, Rbrace: to - 1}
	for _, s := range l {
		if hasJump(s) || hasFunc(s) {
			return
		}
	}
	vs, asg := g.frees(blk)
	if asg {
		return
	}
	// defined in them and used after
	var defs []*types.Var
	for _, s := range l {
		ast.Inspect(s, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if v, ok := g.info.Defs[id].(*types.Var); ok && v.Name() != "_" {
					used := false
					ast.Inspect(g.fd, func(m ast.Node) bool {
						if u, ok := m.(*ast.Ident); ok && g.info.Uses[u] == v && u.Pos() >= to {
							used = true
						}
						return true
					})
					if used {
						defs = append(defs, v)
					}
				}
			}
			return true
		})
	}
	d, a := g.params(vs)
	var rn, rt []string
	for _, v := range defs {
		rn = append(rn, v.Name())
		rt = append(rt, g.typ(v.Type()))
	}
	text := string(g.src[g.off(from):g.off(to)])
	call := "helper0(" + a + ")"
	ret, res := "", ""
	if len(rn) > 0 {
		call = strings.Join(rn, ", ") + " := " + call
		ret = "\nreturn " + strings.Join(rn, ", ")
		res = "(" + strings.Join(rt, ", ") + ") "
	}
	g.emit("hoistrun", l[0], Rep{g.off(from), g.off(to), call}, g.helper("func helper0("+d+") "+res+"{\n"+text+ret+"\n}"))
}

// hoistErr: if err := f(x); err != nil { return ... } with the call in a helper is covered by extract.
func (g *gen) hoistErr(x *ast.IfStmt) {
	as, ok := x.Init.(*ast.AssignStmt)
	if !ok || len(as.Rhs) != 1 || as.Tok != token.DEFINE {
		return
	}
	if g.nontrivial(as.Rhs[0]) {
		g.extract(as.Rhs[0])
	}
}

// swap exchanges two statements that do not depend on each other.
func (g *gen) swap(a, b ast.Stmt) {
	lhs := func(s ast.Stmt) (string, ast.Expr, bool) {
		as, ok := s.(*ast.AssignStmt)
		if !ok || len(as.Lhs) != 1 || len(as.Rhs) != 1 || !g.pure(as.Rhs[0]) || (as.Tok != token.DEFINE && as.Tok != token.ASSIGN) {
			return "", nil, false
		}
		id, ok := as.Lhs[0].(*ast.Ident)
		if !ok {
			return "", nil, false
		}
		return id.Name, as.Rhs[0], true
	}
	la, ra, ok1 := lhs(a)
	lb, rb, ok2 := lhs(b)
	if !ok1 || !ok2 || la == lb || mentions(ra, lb) || mentions(rb, la) {
		return
	}
	g.emit("swap", a, g.rep(a, g.text(b)), g.rep(b, g.text(a)))
}

func mentions(e ast.Expr, name string) bool {
	f := false
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name == name {
			f = true
		}
		return true
	})
	return f
}

// ---- faults

func (g *gen) bug(n ast.Node) {
	p := g.parent(1)
	switch x := n.(type) {
	case *ast.BinaryExpr:
		alt := map[token.Token][]token.Token{
			token.LSS: {token.LEQ, token.GEQ, token.NEQ}, token.GTR: {token.GEQ, token.LEQ, token.NEQ}, token.LEQ: {token.LSS, token.GTR}, token.GEQ: {token.GTR, token.LSS, token.EQL},
			token.EQL: {token.NEQ, token.LEQ, token.GEQ}, token.NEQ: {token.EQL, token.LSS, token.GTR},
			token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD, token.QUO}, token.QUO: {token.MUL, token.REM}, token.REM: {token.QUO, token.AND},
			token.AND: {token.OR}, token.OR: {token.AND, token.XOR}, token.XOR: {token.OR}, token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.AND_NOT: {token.AND, token.OR},
			token.LAND: {token.LOR}, token.LOR: {token.LAND},
		}
		for _, t := range alt[x.Op] {
			g.emit("op", x, Rep{g.off(x.OpPos), g.off(x.OpPos) + len(x.Op.String()), t.String()})
		}
		if x.Op == token.LAND || x.Op == token.LOR {
			g.emit("drop", x, g.rep(x, g.text(x.X)))
			g.emit("drop", x, g.rep(x, g.text(x.Y)))
		}
		switch x.Op {
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR:
			g.emit("operand", x, g.rep(x, "("+g.text(x.X)+")"))
			g.emit("operand", x, g.rep(x, "("+g.text(x.Y)+")"))
		}
	case *ast.BasicLit:
		if tv := g.info.Types[x]; tv.Value != nil && tv.Value.Kind() == constant.Int {
			if v, ok := constant.Int64Val(tv.Value); ok {
				g.emit("const", x, g.rep(x, fmt.Sprint(v+1)))
				if v > 0 {
					g.emit("const", x, g.rep(x, fmt.Sprint(v-1)))
				}
				if v > 2 {
					g.emit("const", x, g.rep(x, fmt.Sprint(v*2)))
				}
			}
		}
	case *ast.IfStmt:
		g.emit("cond", x, g.rep(x.Cond, "("+g.text(x.Cond)+") && 1 == 0"))
		g.emit("cond", x, g.rep(x.Cond, "("+g.text(x.Cond)+") || 1 == 1"))
		g.emit("cond", x, g.rep(x.Cond, "!("+g.text(x.Cond)+")"))
		if x.Else != nil {
			g.emit("else", x, Rep{g.off(x.Body.End()), g.off(x.End()), ""})
		}
	case *ast.ForStmt:
		if x.Cond != nil {
			g.emit("cond", x, g.rep(x.Cond, "("+g.text(x.Cond)+") && 1 == 0"))
		}
	case *ast.ExprStmt:
		if isBlockStmt(p) {
			g.emit("del", x, g.rep(x, "_ = 0"))
			g.emit("twice", x, g.ins(x.End(), "\n"+g.text(x)))
		}
	case *ast.DeferStmt:
		g.emit("del", x, g.rep(x, "_ = 0"))
		g.emit("undefer", x, g.rep(x, g.text(x.Call)))
	case *ast.IncDecStmt:
		g.emit("del", x, g.rep(x, "_ = 0"))
		if isBlockStmt(p) {
			g.emit("twice", x, g.ins(x.End(), "\n"+g.text(x)))
		}
		t := "--"
		if x.Tok == token.DEC {
			t = "++"
		}
		g.emit("incdec", x, g.rep(x, g.text(x.X)+t))
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE && isBlockStmt(p) {
			s := ""
			for _, r := range x.Rhs {
				s += "_ = " + g.text(r) + "\n"
			}
			if len(x.Lhs) == len(x.Rhs) {
				g.emit("del", x, g.rep(x, s))
			}
		}
		if x.Tok == token.DEFINE || x.Tok == token.ASSIGN {
			if len(x.Lhs) == 1 && len(x.Rhs) == 1 {
				if b, ok := g.info.TypeOf(x.Lhs[0]).Underlying().(*types.Basic); ok {
					switch {
					case b.Info()&types.IsBoolean != 0:
						g.emit("val", x, g.rep(x.Rhs[0], "!("+g.text(x.Rhs[0])+")"))
					case b.Info()&types.IsInteger != 0:
						g.emit("val", x, g.rep(x.Rhs[0], "("+g.text(x.Rhs[0])+") + 1"))
						g.emit("val", x, g.rep(x.Rhs[0], "("+g.text(x.Rhs[0])+") - 1"))
					}
				}
			}
		} else {
			alt := map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.OR_ASSIGN: "=", token.XOR_ASSIGN: "|=", token.MUL_ASSIGN: "+=", token.SHR_ASSIGN: "<<=", token.SHL_ASSIGN: ">>="}
			if a, ok := alt[x.Tok]; ok {
				g.emit("opassign", x, Rep{g.off(x.TokPos), g.off(x.TokPos) + len(x.Tok.String()), a})
			}
		}
	case *ast.ReturnStmt:
		for i, r := range x.Results {
			t := g.info.TypeOf(r)
			if t == nil {
				continue
			}
			tv := g.info.Types[r]
			switch u := t.Underlying().(type) {
			case *types.Interface:
				if !tv.IsNil() {
					g.emit("retnil", x, g.rep(r, "nil"))
				}
			case *types.Basic:
				switch {
				case u.Info()&types.IsBoolean != 0:
					g.emit("retnot", x, g.rep(r, "!("+g.text(r)+")"))
				case u.Info()&types.IsInteger != 0:
					g.emit("retone", x, g.rep(r, "("+g.text(r)+") + 1"))
					g.emit("retzero", x, g.rep(r, "0"))
				}
			}
			_ = i
		}
		if isBlockStmt(p) {
			g.emit("delret", x, g.rep(x, "_ = 0"))
		}
	case *ast.BranchStmt:
		switch x.Tok {
		case token.BREAK:
			g.emit("jump", x, Rep{g.off(x.Pos()), g.off(x.Pos()) + 5, "continue"})
			g.emit("jump", x, g.rep(x, "_ = 0"))
			g.emit("jump", x, g.rep(x, "return"))
		case token.CONTINUE:
			g.emit("jump", x, Rep{g.off(x.Pos()), g.off(x.Pos()) + 8, "break"})
			g.emit("jump", x, g.rep(x, "_ = 0"))
		}
	case *ast.SliceExpr:
		if x.Low != nil {
			g.emit("slice", x, g.rep(x.Low, "("+g.text(x.Low)+")+1"))
			g.emit("slice", x, g.rep(x.Low, "0"))
		}
		if x.High != nil {
			g.emit("slice", x, g.rep(x.High, "("+g.text(x.High)+")-1"))
			g.emit("slice", x, g.rep(x.High, "("+g.text(x.High)+")+1"))
			g.emit("slice", x, g.rep(x.High, ""))
		}
	case *ast.CallExpr:
		for i := 0; i+1 < len(x.Args); i++ {
			a, b := g.info.TypeOf(x.Args[i]), g.info.TypeOf(x.Args[i+1])
			if a != nil && b != nil && types.Identical(types.Default(a), types.Default(b)) && g.text(x.Args[i]) != g.text(x.Args[i+1]) {
				g.emit("swapargs", x, g.rep(x.Args[i], g.text(x.Args[i+1])), g.rep(x.Args[i+1], g.text(x.Args[i])))
			}
		}
		// a conversion to something narrower
		if tv := g.info.Types[x.Fun]; tv.IsType() {
			if b, ok := tv.Type.Underlying().(*types.Basic); ok {
				nar := map[types.BasicKind]string{types.Int: "int(int32", types.Uint64: "uint64(uint32", types.Int64: "int64(int32", types.Uint16: "uint16(uint8"}
				if s, ok := nar[b.Kind()]; ok && len(x.Args) == 1 {
					if _, named := tv.Type.(*types.Named); !named {
						g.emit("narrow", x, g.rep(x, s+"("+g.text(x.Args[0])+"))"))
					}
				}
			}
		}
	case *ast.CaseClause:
		if len(x.List) > 1 {
			for i := range x.List {
				var l []string
				for j, e := range x.List {
					if i != j {
						l = append(l, g.text(e))
					}
				}
				g.emit("case", x, Rep{g.off(x.List[0].Pos()), g.off(x.List[len(x.List)-1].End()), strings.Join(l, ", ")})
			}
		}
		if len(x.Body) > 0 {
			g.emit("casebody", x, Rep{g.off(x.Body[0].Pos()), g.off(x.Body[len(x.Body)-1].End()), ""})
		}
	case *ast.KeyValueExpr:
		if cl, ok := p.(*ast.CompositeLit); ok && len(cl.Elts) > 1 {
			if _, isMap := g.info.TypeOf(cl).Underlying().(*types.Map); !isMap {
				g.emit("field", x, Rep{g.off(x.Pos()), g.off(x.End()), ""})
			}
		}
	case *ast.RangeStmt:
		if _, ok := g.info.TypeOf(x.X).Underlying().(*types.Slice); ok && g.pure(x.X) {
			g.emit("range", x, g.rep(x.X, g.text(x.X)+"[1:]"))
			g.emit("range", x, g.rep(x.X, g.text(x.X)+"[:len("+g.text(x.X)+")-1]"))
		}
	case *ast.BlockStmt:
		for i := range x.List {
			if i+1 < len(x.List) {
				a, b := x.List[i], x.List[i+1]
				if simple(a) && simple(b) {
					g.emit("order", a, g.rep(a, g.text(b)), g.rep(b, g.text(a)))
				}
			}
		}
	case *ast.Ident:
		// another variable of the same type
		v, ok := g.info.Uses[x].(*types.Var)
		if !ok || v.IsField() || v.Pkg() != g.pkg.Types || v.Parent() == g.pkg.Types.Scope() {
			break
		}
		sc := g.pkg.Types.Scope().Innermost(x.Pos())
		n := 0
		for s := sc; s != nil && s != g.pkg.Types.Scope() && n < 2; s = s.Parent() {
			for _, nm := range s.Names() {
				o, ok := s.Lookup(nm).(*types.Var)
				if ok && o != v && o.Pos() < x.Pos() && nm != "_" && types.Identical(o.Type(), v.Type()) && n < 2 {
					n++
					g.emit("var", x, g.rep(x, nm))
				}
			}
		}
	case *ast.SelectorExpr:
		// another field of the same type
		s := g.info.Selections[x]
		if s == nil || s.Kind() != types.FieldVal {
			break
		}
		t := s.Recv()
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			break
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if f != s.Obj() && types.Identical(f.Type(), s.Obj().Type()) && (f.Exported() || f.Pkg() == g.pkg.Types) {
				g.emit("sel", x, g.rep(x.Sel, f.Name()))
			}
		}
	}
}

func simple(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt:
		return true
	case *ast.AssignStmt:
		return true
	case *ast.IfStmt:
		return s.Else == nil
	}
	return false
}

func main() {
	bug := flag.Bool("bug", false, "faults")
	repo := flag.String("repo", "/repo", "module")
	flag.Parse()
	fset = token.NewFileSet()
	pkgs, err := packages.Load(&packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedModule, Dir: *repo, Fset: fset}, "./...")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	for _, p := range pkgs {
		for i, f := range p.Syntax {
			name := p.GoFiles[i]
			src, err := os.ReadFile(name)
			if err != nil {
				panic(err)
			}
			rel, _ := filepath.Rel(*repo, name)
			g := &gen{pkg: p, info: p.TypesInfo, file: rel, src: bytes.Clone(src)}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				g.fd = fd
				g.fn = fd.Name.Name
				ast.Inspect(fd, func(n ast.Node) bool {
					if n == nil {
						g.stack = g.stack[:len(g.stack)-1]
						return true
					}
					g.stack = append(g.stack, n)
					if *bug {
						g.bug(n)
					} else {
						g.same(n)
					}
					return true
				})
			}
		}
	}
}
