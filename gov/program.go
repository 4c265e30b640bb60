package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	fset      *token.FileSet
	prog      *ssa.Program
	pkgs      []*ssa.Package
	byName    map[string]*ssa.Function
	contracts map[string]*Contract
	recs      map[string]*recDef
	inds      []*indLemma
	indFiles  map[string]bool
	macros    map[string]*macroDef
	gmu       sync.Mutex
	stored    map[*ssa.Global]bool
	gconst    map[*ssa.Global]*gval
	repo      map[*types.Package]bool
	memoGlob  map[*ssa.Global]int
}

type gval struct {
	ok bool
	v  Value
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  dir,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off"),
	}
	cfg.Env = append(os.Environ(), "GOPROXY=off", "GOWORK=off")
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load %s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(ps, ssa.BuilderMode(0))
	P := &Program{fset: prog.Fset, prog: prog, byName: map[string]*ssa.Function{}, contracts: map[string]*Contract{},
		recs: map[string]*recDef{}, macros: map[string]*macroDef{}, stored: map[*ssa.Global]bool{}, gconst: map[*ssa.Global]*gval{}, repo: map[*types.Package]bool{}, memoGlob: map[*ssa.Global]int{}}
	for _, sp := range spkgs {
		if sp == nil {
			continue
		}
		sp.Build()
		P.pkgs = append(P.pkgs, sp)
		P.repo[sp.Pkg] = true
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != nil && P.repo[f.Pkg.Pkg] && f.Synthetic == "" {
			P.byName[shortFn(f)] = f
		}
		if f.Pkg == nil || !P.repo[f.Pkg.Pkg] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if f.Name() == "init" && f.Synthetic != "" {
					continue
				}
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					P.stored[g] = true
				}
			}
		}
	}
	return P, nil
}

func (P *Program) funcNames() []string {
	var out []string
	for n := range P.byName {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func negObj(name string) *Term { return mkObj(mkInt(-2000000 - int64(internName(name)))) }

func (x *Exec) globalAddr(g *ssa.Global) *Term { return negObj("glob:" + g.String()) }

func errTag() *Term { return mkInt(int64(internName("type:*errors.errorString"))) }

func (x *Exec) globalConst(g *ssa.Global, st *State) (Value, bool) {
	P := x.prog
	P.gmu.Lock()
	defer P.gmu.Unlock()
	if v, ok := P.gconst[g]; ok {
		return v.v, v.ok
	}
	v, ok := P.evalGlobal(g)
	P.gconst[g] = &gval{ok, v}
	return v, ok
}

func (P *Program) evalGlobal(g *ssa.Global) (Value, bool) {
	t := deref(g.Type())
	if !P.repo[g.Pkg.Pkg] {
		switch t.Underlying().(type) {
		case *types.Interface:
			if types.Identical(t, types.Universe.Lookup("error").Type()) {
				return IfaceV{errTag(), negObj("err:" + g.String())}, true
			}
		case *types.Struct:
			if len(leavesOf(t)) == 0 {
				return StructV{}, true
			}
		}
		return nil, false
	}
	if P.stored[g] {
		return nil, false
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return nil, false
	}
	var store *ssa.Store
	n := 0
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				store = s
				n++
			}
		}
	}
	if n == 0 {
		return zeroValue(t), true
	}
	if n != 1 {
		return nil, false
	}
	switch v := store.Val.(type) {
	case *ssa.Const:
		return constValue(v), true
	case *ssa.Call:
		if f, ok := v.Call.Value.(*ssa.Function); ok {
			switch f.String() {
			case "errors.New":
				return IfaceV{errTag(), negObj("err:" + g.String())}, true
			case "regexp.MustCompile":
				c, ok := v.Call.Args[0].(*ssa.Const)
				if ok {
					return negObj("re:" + c.Value.ExactString()), true
				}
			}
		}
	case *ssa.Slice:
		al, ok := v.X.(*ssa.Alloc)
		if !ok || v.Low != nil || v.High != nil {
			return nil, false
		}
		arr, ok := deref(al.Type()).Underlying().(*types.Array)
		if !ok {
			return nil, false
		}
		cs := elemComps(arr.Elem())
		if len(cs) != 1 {
			return nil, false
		}
		ref := negObj("globarr:" + g.String())
		content := mkConstArr(ArrS(SInt, cs[0].sort), zeroOfSort(cs[0].sort))
		bs := make([]byte, arr.Len())
		for _, r := range *al.Referrers() {
			switch r := r.(type) {
			case *ssa.Slice:
			case *ssa.IndexAddr:
				ic, ok := r.Index.(*ssa.Const)
				if !ok || len(*r.Referrers()) != 1 {
					return nil, false
				}
				s, ok := (*r.Referrers())[0].(*ssa.Store)
				if !ok {
					return nil, false
				}
				c, ok := s.Val.(*ssa.Const)
				if !ok {
					return nil, false
				}
				cv := constValue(c).(*Term)
				content = mkStore(content, mkInt(ic.Int64()), cv)
				if cs[0].sort == SInt {
					if k, ok := constInt(cv); ok {
						bs[ic.Int64()] = byte(k)
					}
				}
			default:
				return nil, false
			}
		}
		if cs[0].comp == "E:"+byteKey {
			content = mkArrOf(mkLit(string(bs)))
		}
		globArrMu.Lock()
		globArr[fmt.Sprintf("%s|%d", cs[0].comp, ref.id)] = content
		globArrMu.Unlock()
		l := mkInt(arr.Len())
		return SliceV{ref, mkInt(0), l, l}, true
	}
	return nil, false
}

func (P *Program) isRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return P.repo[f.Pkg.Pkg]
	}
	if o := f.Object(); o != nil {
		return P.repo[o.Pkg()]
	}
	return false
}

var _ = strings.Contains
