package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the type-checked program under analysis.
type Prog struct {
	encFld string
	dir    string
	fset   *token.FileSet
	prog   *ssa.Program
	pkgs   []*packages.Package
	spkgs  map[string]*ssa.Package
	mod    string
}

func LoadProg(dir string, overlay map[string][]byte) (*Prog, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax | packages.NeedModule,
		Dir:     dir,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GO111MODULE=on", "CGO_ENABLED=0", "GOTOOLCHAIN=local", "GOWORK=off"),
	}

	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the program does not type-check: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{dir: dir, fset: prog.Fset, prog: prog, pkgs: pkgs, spkgs: map[string]*ssa.Package{}}
	for i, p := range pkgs {
		if sp[i] != nil {
			P.spkgs[p.PkgPath] = sp[i]
		}
		if p.Module != nil && P.mod == "" {
			P.mod = p.Module.Path
		}
	}
	return P, nil
}

func (P *Prog) isRepo(f *ssa.Function) bool {
	g := f
	if o := g.Origin(); o != nil {
		g = o
	}
	for g.Parent() != nil {
		g = g.Parent()
	}
	var p *types.Package
	if g.Pkg != nil {
		p = g.Pkg.Pkg
	} else if g.Object() != nil {
		p = g.Object().Pkg()
	} else if r := f.Signature.Recv(); r != nil {
		// wrappers
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			p = n.Obj().Pkg()
		}
	}
	if p == nil {
		return false
	}
	return p.Path() == P.mod || strings.HasPrefix(p.Path(), P.mod+"/")
}

func (P *Prog) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := P.fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(P.dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// pkg finds a package of the module by its path below the module root.
func (P *Prog) pkg(rel string) *ssa.Package { return P.spkgs[P.mod+"/"+rel] }

// Func finds a function or method: "pkg/col", "Reader", "readBlock" (recv "" for functions).
func (P *Prog) Func(rel, recv, name string) *ssa.Function {
	p := P.pkg(rel)
	if p == nil {
		return nil
	}
	if recv == "" {
		return p.Func(name)
	}
	t := p.Type(recv)
	if t == nil {
		return nil
	}
	ty := t.Type()
	if m := P.prog.LookupMethod(types.NewPointer(ty), p.Pkg, name); m != nil {
		return m
	}
	return nil
}

func (P *Prog) named(rel, name string) types.Type {
	p := P.pkg(rel)
	if p == nil {
		return nil
	}
	t := p.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

// repoFuncs lists all functions of a package with bodies, closures included.
func (P *Prog) repoFuncs(rel string) []*ssa.Function {
	var out []*ssa.Function
	for f := range ssautil.AllFunctions(P.prog) {
		if len(f.Blocks) == 0 || f.Synthetic != "" && f.Origin() == nil {
			continue
		}
		g := f
		for g.Parent() != nil {
			g = g.Parent()
		}
		if o := g.Origin(); o != nil {
			g = o
		}
		if g.Pkg != nil && g.Pkg.Pkg.Path() == P.mod+"/"+rel {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}
