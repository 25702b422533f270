package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded, type-checked and SSA-built current tree of /repo.
type Program struct {
	repo     string
	mod      string // module path
	fset     *token.FileSet
	pkgs     []*packages.Package
	prog     *ssa.Program
	ssaPkgs  map[string]*ssa.Package // import path -> pkg (module packages only)
	byPath   map[string]*packages.Package
	setMemo  map[string]bool
	onceMemo map[*ssa.Global]bool
	predMemo map[*ssa.Function]*Set // see predset.go
	funcs    []*ssa.Function        // all functions of module packages (incl. anonymous, methods)
	globals  map[*ssa.Global]string
	goEnv    []string
	tmp      string
	foots    map[*ssa.Function]*foot
	taken    []*ssa.Function
	named    []types.Type
	gtext    map[*ssa.Global]*string
}

func repoDir() string {
	if d := os.Getenv("HELIUM_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func goEnv(tmp string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOWORK", "CGO_ENABLED", "GOTOOLCHAIN", "GO111MODULE", "GOOS", "GOARCH", "GOEXPERIMENT":
			continue
		}
		env = append(env, e)
	}
	env = append(env,
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0",
		"GOFLAGS=-mod=mod -modfile="+filepath.Join(tmp, "helium.mod"))
	return env
}

func fatalf(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "checker error: "+f+"\n", a...)
	os.Exit(2)
}

// LoadError is returned when the tree does not load or type-check: the
// checks cannot decide anything about such a tree.
func Load(verifDir string) (*Program, error) {
	p := &Program{repo: repoDir(), ssaPkgs: map[string]*ssa.Package{}, byPath: map[string]*packages.Package{}}
	tmp, err := os.MkdirTemp("", "helium-check-")
	if err != nil {
		return nil, err
	}
	p.tmp = tmp
	mod, err := os.ReadFile(filepath.Join(p.repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(tmp, "helium.mod"), mod, 0o644); err != nil {
		return nil, err
	}
	sum, err := os.ReadFile(filepath.Join(verifDir, "checker", "helium.sum"))
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(tmp, "helium.sum"), sum, 0o644); err != nil {
		return nil, err
	}
	p.goEnv = goEnv(tmp)
	p.fset = token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile | packages.NeedModule,
		Dir:  p.repo,
		Env:  p.goEnv,
		Fset: p.fset,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			errs = append(errs, e.Error())
		}
		if pk.Module != nil && pk.Module.Main {
			p.mod = pk.Module.Path
		}
		p.byPath[pk.PkgPath] = pk
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	p.pkgs = pkgs
	for _, pk := range pkgs {
		pruneDead(pk)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p.prog = prog
	prog.Build()
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.ssaPkgs[pkgs[i].PkgPath] = sp
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil {
			continue
		}
		if p.inModule(fn) {
			p.funcs = append(p.funcs, fn)
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool {
		a, b := p.funcs[i], p.funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return p, nil
}

func (p *Program) Close() {
	if p.tmp != "" {
		os.RemoveAll(p.tmp)
	}
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
	}
	if o := fn.Object(); o != nil {
		return o.Pkg()
	}
	if r := fn.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil {
			return n.Obj().Pkg()
		}
	}
	return nil
}

func (p *Program) inModule(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	if pk == nil {
		return false
	}
	_, ok := p.ssaPkgs[pk.Path()]
	return ok
}

func (p *Program) root() *ssa.Package { return p.ssaPkgs[p.mod] }

func (p *Program) pkg(rel string) *ssa.Package {
	if rel == "" {
		return p.root()
	}
	return p.ssaPkgs[p.mod+"/"+rel]
}

// method finds the method fn of named type T (in module package rel).
func (p *Program) method(rel, typ, name string) *ssa.Function {
	sp := p.pkg(rel)
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	for _, t := range []types.Type{o.Type(), types.NewPointer(o.Type())} {
		ms := p.prog.MethodSets.MethodSet(t)
		if s := ms.Lookup(sp.Pkg, name); s != nil {
			return p.prog.MethodValue(s)
		}
	}
	return nil
}

func (p *Program) fn(rel, name string) *ssa.Function {
	sp := p.pkg(rel)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (p *Program) pos(po token.Pos) string {
	if !po.IsValid() {
		return "?"
	}
	ps := p.fset.Position(po)
	rel, err := filepath.Rel(p.repo, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

func (p *Program) instrPos(i ssa.Instruction) string {
	if i.Pos().IsValid() {
		return p.pos(i.Pos())
	}
	// nearest position in the block
	b := i.Block()
	best := token.NoPos
	for _, x := range b.Instrs {
		if x.Pos().IsValid() {
			best = x.Pos()
		}
		if x == i && best.IsValid() {
			break
		}
	}
	if best.IsValid() {
		return p.pos(best) + "(near)"
	}
	return p.pos(i.Parent().Pos()) + "(func)"
}

// shortFn is a stable name for a function in reports and finding keys.
func shortFn(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, "github.com/lestrrat-go/helium/", "")
	s = strings.ReplaceAll(s, "github.com/lestrrat-go/helium.", "")
	return s
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if pt, ok := t.(*types.Pointer); ok {
		t = types.Unalias(pt.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

func typeIs(t types.Type, pkgSuffix, name string) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Name() != name {
		return false
	}
	if n.Obj().Pkg() == nil {
		return pkgSuffix == ""
	}
	return n.Obj().Pkg().Path() == pkgSuffix || strings.HasSuffix(n.Obj().Pkg().Path(), "/"+pkgSuffix)
}

// globalConst resolves package-level variables that are initialised once, in
// the package initialiser, with a constant string/[]byte content and never
// stored to elsewhere.
func (p *Program) globalBytes(g *ssa.Global) (string, bool) {
	if p.globals == nil {
		p.globals = map[*ssa.Global]string{}
		cand := map[*ssa.Global]string{}
		bad := map[*ssa.Global]bool{}
		for _, fn := range p.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						// address taken elsewhere?
						continue
					}
					gl, ok := st.Addr.(*ssa.Global)
					if !ok {
						continue
					}
					if fn.Synthetic == "" || !strings.HasPrefix(fn.Name(), "init") {
						bad[gl] = true
						continue
					}
					if s, ok := constBytesOf(st.Val); ok {
						if _, dup := cand[gl]; dup {
							bad[gl] = true
						}
						cand[gl] = s
					} else {
						bad[gl] = true
					}
				}
			}
		}
		for g, s := range cand {
			if !bad[g] {
				p.globals[g] = s
			}
		}
	}
	s, ok := p.globals[g]
	return s, ok
}

func constBytesOf(v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return constant.StringVal(x.Value), true
		}
	case *ssa.Convert:
		return constBytesOf(x.X)
	case *ssa.Slice:
		if x.Low != nil || x.High != nil {
			return "", false
		}
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			return "", false
		}
		at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			return "", false
		}
		if bt, ok := at.Elem().Underlying().(*types.Basic); !ok || bt.Kind() != types.Uint8 {
			return "", false
		}
		buf := make([]byte, at.Len())
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			c, ok := ia.Index.(*ssa.Const)
			if !ok {
				return "", false
			}
			for _, rr := range *ia.Referrers() {
				st, ok := rr.(*ssa.Store)
				if !ok {
					return "", false
				}
				vc, ok := st.Val.(*ssa.Const)
				if !ok {
					return "", false
				}
				buf[cint(c)] = byte(cint(vc))
			}
		}
		return string(buf), true
	}
	return "", false
}

func runGo(p *Program, args ...string) ([]byte, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = p.repo
	cmd.Env = p.goEnv
	return cmd.CombinedOutput()
}

// allFuncsWithInit lists every module function including package initialisers.
func (p *Program) allFuncsWithInit() []*ssa.Function {
	l := append([]*ssa.Function(nil), p.funcs...)
	have := map[*ssa.Function]bool{}
	for _, f := range l {
		have[f] = true
	}
	for _, sp := range p.ssaPkgs {
		if f := sp.Func("init"); f != nil && !have[f] {
			l = append(l, f)
		}
	}
	return l
}

// pruneDead empties the bodies of if statements whose condition is the
// constant false (tracing code guarded by a compile-time switch), so that
// dead closures do not make local variables escape.
func pruneDead(pk *packages.Package) {
	for _, f := range pk.Syntax {
		ast.Inspect(f, func(n ast.Node) bool {
			is, ok := n.(*ast.IfStmt)
			if !ok {
				return true
			}
			tv, ok := pk.TypesInfo.Types[is.Cond]
			if ok && tv.Value != nil && tv.Value.Kind() == constant.Bool && !constant.BoolVal(tv.Value) {
				is.Body.List = nil
			}
			return true
		})
	}
}
