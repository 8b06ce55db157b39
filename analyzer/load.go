package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modulePath = "recengine"

func isModule(p *types.Package) bool {
	return p != nil && (p.Path() == modulePath || strings.HasPrefix(p.Path(), modulePath+"/"))
}

// World is the loaded program.
type World struct {
	Repo      string
	Prog      *ssa.Program
	Fset      *token.FileSet
	Pkgs      []*packages.Package
	SSA       map[string]*ssa.Package
	InitOrder []*ssa.Package
	goStates  map[*Event]*State
	impl      map[*types.Named]types.Type
	Funcs     []*ssa.Function
}

func Load(repo string) (*World, error) {
	tmp, err := os.MkdirTemp("", "verif-mod")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, n))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(tmp, n), b, 0644); err != nil {
			return nil, err
		}
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile,
		Dir:        repo,
		BuildFlags: []string{"-modfile=" + filepath.Join(tmp, "go.mod")},
		Env:        append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	rot := &rotation{want: map[token.Position]bool{}, types: map[token.Position]string{}}
	cfg.ParseFile = rot.parse
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(rot.want) > 0 {
		for _, p := range pkgs {
			rot.learn(p.Fset, p.Syntax, p.TypesInfo, p.Types)
		}
		if pkgs, err = packages.Load(cfg, "./..."); err != nil {
			return nil, err
		}
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository doesn't type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{Repo: repo, Prog: prog, Fset: prog.Fset, Pkgs: pkgs, SSA: map[string]*ssa.Package{},
		goStates: map[*Event]*State{}, impl: map[*types.Named]types.Type{}}
	done := map[string]bool{}
	byPath := map[string]*ssa.Package{}
	for _, p := range spkgs {
		if p != nil {
			byPath[p.Pkg.Path()] = p
			w.SSA[p.Pkg.Path()] = p
		}
	}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if done[p.Path()] || !isModule(p) {
			return
		}
		done[p.Path()] = true
		for _, i := range p.Imports() {
			visit(i)
		}
		if s := byPath[p.Path()]; s != nil {
			w.InitOrder = append(w.InitOrder, s)
		}
	}
	paths := []string{}
	for k := range byPath {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		visit(byPath[k].Pkg)
	}
	for fn := range ssautil.AllFunctions(prog) {
		if pk := fnPkg(fn); pk != nil && isModule(pk) && fn.Blocks != nil {
			w.Funcs = append(w.Funcs, fn)
		}
	}
	sort.Slice(w.Funcs, func(i, j int) bool { return w.Funcs[i].String() < w.Funcs[j].String() })
	return w, nil
}

// implementor returns the only type of the module implementing the interface.
func (w *World) implementor(n *types.Named) types.Type {
	if t, ok := w.impl[n]; ok {
		return t
	}
	it, ok := n.Underlying().(*types.Interface)
	var found []types.Type
	if ok {
		for _, p := range w.SSA {
			if strings.Contains(p.Pkg.Path(), "mock") {
				continue
			}
			sc := p.Pkg.Scope()
			for _, name := range sc.Names() {
				tn, ok := sc.Lookup(name).(*types.TypeName)
				if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
					continue
				}
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				switch {
				case types.Implements(tn.Type(), it):
					found = append(found, tn.Type())
				case types.Implements(types.NewPointer(tn.Type()), it):
					found = append(found, types.NewPointer(tn.Type()))
				}
			}
		}
	}
	var t types.Type
	if len(found) == 1 {
		t = found[0]
	}
	w.impl[n] = t
	return t
}

func (w *World) method(t types.Type, name string) *ssa.Function {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return w.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// Fn finds a function ("infra/delta.NewProtocol") or method
// ("infra/delta.(*protocol).WriteEntry") of the module.
func (w *World) Fn(name string) *ssa.Function {
	full := modulePath + "/internal/" + name
	if name == "main" {
		return w.SSA[modulePath].Func("main")
	}
	if i := strings.Index(name, ".(*"); i >= 0 {
		pkg := name[:i]
		rest := name[i+3:]
		j := strings.Index(rest, ").")
		tn, m := rest[:j], rest[j+2:]
		p := w.SSA[modulePath+"/internal/"+pkg]
		if p == nil {
			return nil
		}
		obj := p.Pkg.Scope().Lookup(tn)
		if obj == nil {
			return nil
		}
		return w.method(types.NewPointer(obj.Type()), m)
	}
	i := strings.LastIndexByte(full, '.')
	p := w.SSA[full[:i]]
	if p == nil {
		return nil
	}
	return p.Func(full[i+1:])
}

// Packages are the packages of the module.
func (w *World) Packages() (out []*ssa.Package) {
	var names []string
	for n, p := range w.SSA {
		if p != nil && isModule(p.Pkg) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		out = append(out, w.SSA[n])
	}
	return
}

func (w *World) Pkg(name string) *ssa.Package { return w.SSA[modulePath+"/internal/"+name] }

// pos formats a position relative to the repository.
func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := w.Fset.Position(p)
	if r, err := filepath.Rel(w.Repo, q.Filename); err == nil {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

var _ = exec.Command
