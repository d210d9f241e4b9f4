package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the SSA form of /repo's current source.
type Program struct {
	prog    *ssa.Program
	pkgs    []*packages.Package
	byPath  map[string]*ssa.Package
	funcs   map[string]*ssa.Function
	fset    *token.FileSet
	globals map[*ssa.Global]int
	gmut    map[*ssa.Global]bool // reassigned or address taken outside initialisation
	ginit   map[*ssa.Global]ssa.Value
	impls   []types.Type // concrete types converted to interfaces in the module
	models  map[string]*TypeExpr
	allT    map[string]types.Type
	fstores map[string][]*ssa.Store // stores to struct fields, by Type.field
}

const modPath = "github.com/maxnikulin/burl"

func inModule(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

func fnKeyOf(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, modulePrefix, "")
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: os.Environ()}
	ps, err := packages.Load(cfg, "./cmd/...", "./pkg/...", "./tools/...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load: %v", e)
		}
	}
	prog, spkgs := ssautil.Packages(ps, ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, pkgs: ps, byPath: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{}, fset: prog.Fset,
		globals: map[*ssa.Global]int{}, gmut: map[*ssa.Global]bool{}, ginit: map[*ssa.Global]ssa.Value{},
		models: map[string]*TypeExpr{}, allT: map[string]types.Type{}, fstores: map[string][]*ssa.Store{}}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil {
			return
		}
		k := fnKeyOf(f)
		if P.funcs[k] != nil {
			return
		}
		P.funcs[k] = f
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range spkgs {
		if sp == nil {
			continue
		}
		P.byPath[qualifier(sp.Pkg)] = sp
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				P.allT[typeKey(m.Type())] = m.Type()
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					if types.IsInterface(t) {
						continue
					}
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						add(prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	// scan
	var keys []string
	for k := range P.funcs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	seenT := map[string]bool{}
	gs := map[*ssa.Global]bool{}
	for _, k := range keys {
		f := P.funcs[k]
		isInit := f.Synthetic == "package initializer" || f.Name() == "init"
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok {
					kk := typeKey(mi.X.Type())
					if !seenT[kk] {
						seenT[kk] = true
						P.impls = append(P.impls, mi.X.Type())
					}
				}
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
						if n, ok := types.Unalias(pt).(*types.Named); ok {
							fn := n.Underlying().(*types.Struct).Field(fa.Field).Name()
							kk := typeKey(n) + "." + fn
							P.fstores[kk] = append(P.fstores[kk], st)
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						gs[g] = true
						switch x := in.(type) {
						case *ssa.UnOp:
							continue
						case *ssa.DebugRef:
							continue
						case *ssa.Store:
							if x.Addr == g && x.Val != g && isInit {
								if P.ginit[g] == nil {
									P.ginit[g] = x.Val
								} else {
									P.gmut[g] = true
								}
								continue
							}
						}
						P.gmut[g] = true
					}
				}
			}
		}
	}
	var gl []*ssa.Global
	for g := range gs {
		gl = append(gl, g)
	}
	sort.Slice(gl, func(i, j int) bool { return gl[i].String() < gl[j].String() })
	for i, g := range gl {
		P.globals[g] = i + 1
	}
	return P, nil
}

func globalName(g *ssa.Global) string {
	return qualifier(g.Pkg.Pkg) + "." + g.Name()
}

func (p *Program) findGlobal(pkg, name string) *ssa.Global {
	for _, sp := range p.prog.AllPackages() {
		if qualifier(sp.Pkg) == pkg || sp.Pkg.Name() == pkg {
			if g, ok := sp.Members[name].(*ssa.Global); ok {
				if _, known := p.globals[g]; !known {
					p.globals[g] = len(p.globals) + 1
				}
				return g
			}
		}
	}
	return nil
}

// findType resolves a (qualified) type name of a specification.
func (p *Program) findType(name string) types.Type {
	if o := types.Universe.Lookup(name); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	i := strings.LastIndex(name, ".")
	if i < 0 {
		return nil
	}
	pkg, n := name[:i], name[i+1:]
	for _, sp := range p.prog.AllPackages() {
		if qualifier(sp.Pkg) == pkg || sp.Pkg.Path() == pkg {
			if o, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName); ok {
				return o.Type()
			}
		}
	}
	for _, sp := range p.prog.AllPackages() {
		if sp.Pkg.Name() == pkg {
			if o, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName); ok {
				return o.Type()
			}
		}
	}
	return nil
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return ""
	}
	ps := p.fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel("/repo", f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// funcSource is the exact source text of a function (for reports).
func (p *Program) funcPos(f *ssa.Function) string {
	if f.Syntax() != nil {
		if fd, ok := f.Syntax().(*ast.FuncDecl); ok {
			return p.pos(fd.Name.Pos())
		}
		return p.pos(f.Syntax().Pos())
	}
	return p.pos(f.Pos())
}

func (p *Program) candidates(it *types.Interface) []types.Type {
	var out []types.Type
	for _, t := range p.impls {
		if types.IsInterface(t) {
			continue
		}
		if types.Implements(t, it) {
			pk := t
			if pt, ok := types.Unalias(t).(*types.Pointer); ok {
				pk = pt.Elem()
			}
			if n, ok := types.Unalias(pk).(*types.Named); ok && inModule(n.Obj().Pkg()) {
				out = append(out, t)
			}
		}
	}
	return out
}
