package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the type-checked program under analysis in SSA form.
type Prog struct {
	Dir   string
	Mod   string
	Fset  *token.FileSet
	Pkgs  []*packages.Package // packages of the module
	SSA   *ssa.Program
	Types map[string]*types.Package
	Funcs []*ssa.Function // every function of the module with a body, including closures

	immut    map[string]bool // struct type + field index: written by constructors only
	storeCnt map[string]int
	gconst   map[*ssa.Global]bool
	ginit    map[*ssa.Global]ssa.Value
	cmaps    map[*ssa.Global]map[*Term]*Term // global maps of constants

	loopCache map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	cellByID  map[int]*Term
	once      map[*ssa.Alloc]bool
	lits      map[ssa.Value]bool
	cache     map[string]interface{}
	cellType  map[int]types.Type
}

// load loads the module for the target (goos/goarch, or nothing for that of this machine).
func load(dir, target string) (*Prog, error) {
	fset := token.NewFileSet()
	abs, err := filepath.Abs(dir)
	if err != nil {
		return nil, err
	}
	goroot := os.Getenv("SA_GO")
	if goroot == "" {
		for _, d := range []string{"/opt/veriftools/go1.24.13", "/usr/local/go"} {
			if _, err := os.Stat(d + "/bin/go"); err == nil {
				goroot = d
				break
			}
		}
	}
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "PATH", "GOROOT", "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "CGO_ENABLED", "GOOS", "GOARCH", "GOWORK":
			continue
		}
		env = append(env, e)
	}
	env = append(env, "PATH="+goroot+"/bin:"+os.Getenv("PATH"), "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local",
		"GOPROXY=off", "CGO_ENABLED=0", "GOWORK=off")
	if target != "" {
		os, arch, _ := strings.Cut(target, "/")
		env = append(env, "GOOS="+os, "GOARCH="+arch)
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedTypesSizes | packages.NeedModule,
		Dir:  abs,
		Fset: fset,
		Env:  env,
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			f, err := parser.ParseFile(fset, filename, src, parser.SkipObjectResolution|parser.ParseComments)
			if f != nil && !strings.HasPrefix(filename, abs+string(filepath.Separator)) {
				// bodies outside the module are not needed
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						fd.Body = nil
					}
				}
			}
			return f, err
		},
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{Dir: abs, Fset: fset, Types: map[string]*types.Package{}}
	var errs []string
	for _, pk := range pkgs {
		if pk.Module != nil {
			p.Mod = pk.Module.Path
		}
		for _, e := range pk.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("%d errors loading the module, first: %s", len(errs), errs[0])
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", abs)
	}
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if pk.Types != nil {
			p.Types[pk.PkgPath] = pk.Types
		}
		// packages outside the module have no bodies and so, for instance, unused imports; errors in
		// the packages of the module have been looked at
		pk.IllTyped = false
	})
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	for _, pk := range pkgs {
		if sp := prog.Package(pk.Types); sp != nil {
			sp.Build()
		}
	}
	p.SSA = prog
	p.Pkgs = pkgs
	for fn := range ssautil.AllFunctions(prog) {
		if p.inModule(fn) && len(fn.Blocks) > 0 {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		if a, b := p.Funcs[i].String(), p.Funcs[j].String(); a != b {
			return a < b
		}
		return p.Funcs[i].Pos() < p.Funcs[j].Pos()
	})
	p.scanStores()
	return p, nil
}

func (p *Prog) inModulePkg(pk *types.Package) bool {
	return pk != nil && (pk.Path() == p.Mod || strings.HasPrefix(pk.Path(), p.Mod+"/"))
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg()
		}
		if o := f.Origin(); o != nil && o != f && o.Pkg != nil {
			return o.Pkg.Pkg
		}
	}
	if fn.Signature.Recv() != nil {
		if n := namedOf(fn.Signature.Recv().Type()); n != nil && n.Obj().Pkg() != nil {
			return n.Obj().Pkg()
		}
	}
	return nil
}

func (p *Prog) inModule(fn *ssa.Function) bool {
	return p.inModulePkg(fnPkg(fn))
}

func namedOf(t types.Type) *types.Named {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// rel is the path of a package of the module
func (p *Prog) path(rel string) string {
	if rel == "" {
		return p.Mod
	}
	return p.Mod + "/" + rel
}

func (p *Prog) Pkg(rel string) *ssa.Package {
	tp := p.Types[p.path(rel)]
	if tp == nil {
		return nil
	}
	return p.SSA.Package(tp)
}

// Func finds a function, or a method ("T.M" or "*T.M" written T.M), of a package of the module.
func (p *Prog) Func(rel, name string) *ssa.Function {
	sp := p.Pkg(rel)
	if sp == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn, m := name[:i], name[i+1:]
		o, _ := sp.Pkg.Scope().Lookup(tn).(*types.TypeName)
		if o == nil {
			return nil
		}
		for _, t := range []types.Type{o.Type(), types.NewPointer(o.Type())} {
			ms := types.NewMethodSet(t)
			if s := ms.Lookup(sp.Pkg, m); s != nil {
				if len(s.Index()) == 1 {
					f := p.SSA.FuncValue(s.Obj().(*types.Func))
					if f != nil {
						return f
					}
				}
				return p.SSA.MethodValue(s)
			}
		}
		return nil
	}
	return sp.Func(name)
}

func (p *Prog) TypeOf(rel, name string) types.Type {
	tp := p.Types[p.path(rel)]
	if tp == nil {
		return nil
	}
	o := tp.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// posStr is file:line relative to the module.
func (p *Prog) posStr(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	f := strings.TrimPrefix(ps.Filename, p.Dir+"/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (p *Prog) instrPos(in ssa.Instruction) token.Pos {
	if in == nil {
		return token.NoPos
	}
	if in.Pos().IsValid() {
		return in.Pos()
	}
	// nearest instruction with a position
	b := in.Block()
	if b != nil {
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				return x.Pos()
			}
		}
		if b.Parent() != nil {
			return b.Parent().Pos()
		}
	}
	return token.NoPos
}

func fieldKey(st types.Type, i int) string {
	return types.TypeString(st, nil) + "#" + fmt.Sprint(i)
}

// scanStores finds the struct fields and globals that are only written by constructors:
// stores to memory the same function has just allocated, or to the whole of a variable.
func (p *Prog) scanStores() {
	p.immut = map[string]bool{}
	p.storeCnt = map[string]int{}
	mut := map[string]bool{}
	p.gconst = map[*ssa.Global]bool{}
	p.ginit = map[*ssa.Global]ssa.Value{}
	gmut := map[*ssa.Global]bool{}
	var rootLocal func(v ssa.Value) bool
	rootLocal = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			return rootLocal(x.X)
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				return rootLocal(x.X)
			}
		}
		return false
	}
	var markStruct func(t types.Type)
	markStruct = func(t types.Type) {
		if s := structOf(t); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				mut[fieldKey(t, i)] = true
				markStruct(s.Field(i).Type())
			}
		}
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					switch a := x.Addr.(type) {
					case *ssa.FieldAddr:
						if !rootLocal(a.X) {
							st := a.X.Type().Underlying().(*types.Pointer).Elem()
							mut[fieldKey(st, a.Field)] = true
							markStruct(x.Val.Type())
						}
					case *ssa.Global:
						if fn.Name() == "init" && fn.Parent() == nil && fn.Signature.Recv() == nil {
							if p.ginit[a] != nil {
								gmut[a] = true
							}
							p.ginit[a] = x.Val
						} else {
							gmut[a] = true
						}
					default:
						if !rootLocal(x.Addr) {
							markStruct(x.Val.Type())
						}
					}
				case *ssa.FieldAddr:
					// address of a field that escapes other than by load and store of it
					for _, r := range *x.Referrers() {
						switch r := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
						case *ssa.Store:
							if r.Val == ssa.Value(x) {
								st := x.X.Type().Underlying().(*types.Pointer).Elem()
								mut[fieldKey(st, x.Field)] = true
							}
						default:
							if _, isArr := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); isArr {
								continue
							}
							st := x.X.Type().Underlying().(*types.Pointer).Elem()
							ft := x.Type().Underlying().(*types.Pointer).Elem()
							mut[fieldKey(st, x.Field)] = true
							_ = ft
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Global); ok {
						switch y := in.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if y.Val == ssa.Value(g) {
								gmut[g] = true
							}
						case *ssa.FieldAddr, *ssa.IndexAddr:
							// element access of an array or struct variable: look for stores through it
							for _, r := range *in.(ssa.Value).Referrers() {
								if s, ok := r.(*ssa.Store); ok && s.Addr == in.(ssa.Value) && fn.Name() != "init" {
									gmut[g] = true
								}
							}
						default:
							gmut[g] = true
						}
					}
				}
			}
		}
	}
	for _, pk := range p.Pkgs {
		sp := p.SSA.Package(pk.Types)
		if sp == nil {
			continue
		}
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && !gmut[g] {
				p.gconst[g] = true
			}
		}
	}
	p.immut = mut // inverted by isImmut
}

// isImmut: field i of struct type st is never written once the struct has been built.
func (p *Prog) isImmut(st types.Type, i int) bool {
	n := namedOf(st)
	if n == nil || !p.inModulePkg(n.Obj().Pkg()) {
		return false
	}
	return !p.immut[fieldKey(st, i)]
}
