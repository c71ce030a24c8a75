package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/lxdlam/vertex"

// Program is the loaded repository.
type Program struct {
	repo    string
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package // by short path "pkg/util"
	fset    *token.FileSet
	byName  map[string]*ssa.Function // "pkg/util.(*Index).Resolve"
	typeIDs map[string]int
	idTypes []types.Type
	// named types of the repository implementing interfaces
	named []*types.Named
	// global variables stored outside package initialisers
	mutated  map[*ssa.Global]bool
	globErr  map[*ssa.Global]bool // initialised with errors.New / fmt.Errorf
	mu       sync.Mutex
	globKey  map[string]*ssa.Global
	globNum  map[*ssa.Global]int
	globMsg  map[*ssa.Global]string
	globInit map[*ssa.Global]*ssa.Const
	allFuncs []*ssa.Function
	cmaps    map[*ssa.Global]*constMapInfo
}

func goEnv() []string {
	env := os.Environ()
	goroot := "/opt/veriftools/go1.27.3"
	out := []string{}
	for _, e := range env {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "PATH=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		out = append(out, e)
	}
	path := os.Getenv("PATH")
	if _, err := os.Stat(goroot + "/bin/go"); err == nil {
		path = goroot + "/bin:" + path
	}
	return append(out, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "PATH="+path, "GOWORK=off")
}

func loadProgram(repo string, overlay map[string][]byte) (*Program, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadSyntax | packages.NeedModule,
		Dir:     repo,
		Env:     goEnv(),
		Overlay: overlay,
	}
	initial, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs, "; "))
	}
	prog, pkgs := ssautil.Packages(initial, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{repo: repo, prog: prog, pkgs: map[string]*ssa.Package{}, fset: prog.Fset,
		byName: map[string]*ssa.Function{}, typeIDs: map[string]int{}, mutated: map[*ssa.Global]bool{}, globErr: map[*ssa.Global]bool{}}
	for _, sp := range pkgs {
		if sp == nil {
			continue
		}
		path := strings.TrimPrefix(sp.Pkg.Path(), modPath+"/")
		p.pkgs[path] = sp
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil && fn.Object() == nil {
			continue
		}
		n := p.fnName(fn)
		if n != "" && p.byName[n] == nil {
			p.byName[n] = fn
		}
	}
	// Functions only reachable via reflection or not at all are missing from
	// AllFunctions; add declared members and methods.
	for _, sp := range p.pkgs {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				p.byName[p.fnName(m)] = m
			case *ssa.Type:
				if nt, ok := m.Type().(*types.Named); ok {
					p.named = append(p.named, nt)
					for i := 0; i < nt.NumMethods(); i++ {
						f := prog.FuncValue(nt.Method(i))
						if f != nil {
							p.byName[p.fnName(f)] = f
						}
					}
				}
			}
		}
	}
	sort.Slice(p.named, func(i, j int) bool { return p.named[i].String() < p.named[j].String() })
	p.scanGlobals()
	return p, nil
}

// fnName: "util.LexicalCompare", "util.(*Index).Resolve".
func (p *Program) fnName(fn *ssa.Function) string {
	if fn.Pkg == nil {
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			pk := fn.Object().Pkg().Path()
			recv := fn.Signature.Recv()
			if recv != nil {
				return shortPkg(pk) + ".(" + shortTypeIn(recv.Type()) + ")." + fn.Name()
			}
			return shortPkg(pk) + "." + fn.Name()
		}
		return ""
	}
	recv := fn.Signature.Recv()
	pk := shortPkg(fn.Pkg.Pkg.Path())
	if recv != nil {
		return pk + ".(" + shortTypeIn(recv.Type()) + ")." + fn.Name()
	}
	if fn.Parent() != nil {
		return p.fnName(fn.Parent()) + "$" + fn.Name()
	}
	return pk + "." + fn.Name()
}

func shortPkg(path string) string {
	if strings.HasPrefix(path, modPath+"/") {
		path = strings.TrimPrefix(path, modPath+"/")
		return filepath.Base(path)
	}
	return path
}

// shortTypeIn renders a receiver type without its package.
func shortTypeIn(t types.Type) string {
	if pt, ok := t.(*types.Pointer); ok {
		return "*" + shortTypeIn(pt.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// typeName gives a stable printable name for heap keys: "container.linkedList".
func typeName(t types.Type) string {
	return canonAny(types.TypeString(t, func(p *types.Package) string { return shortPkg(p.Path()) }))
}

// canonAny gives any and interface{} one name.
func canonAny(s string) string { return strings.ReplaceAll(s, "interface{}", "any") }

func (p *Program) typeID(t types.Type) int {
	return p.typeIDByName(canonAny(types.TypeString(t, nil)))
}

// lookupType resolves "container.linkedList" (optionally "*" / "[]" prefixed).
func (p *Program) lookupType(s string) types.Type {
	if strings.HasPrefix(s, "*") {
		t := p.lookupType(s[1:])
		if t == nil {
			return nil
		}
		return types.NewPointer(t)
	}
	if strings.HasPrefix(s, "[]") {
		t := p.lookupType(s[2:])
		if t == nil {
			return nil
		}
		return types.NewSlice(t)
	}
	switch s {
	case "int":
		return types.Typ[types.Int]
	case "int64":
		return types.Typ[types.Int64]
	case "int32":
		return types.Typ[types.Int32]
	case "bool":
		return types.Typ[types.Bool]
	case "string":
		return types.Typ[types.String]
	case "byte":
		return types.Typ[types.Uint8]
	case "error":
		return types.Universe.Lookup("error").Type()
	case "any":
		return types.NewInterfaceType(nil, nil)
	}
	i := strings.LastIndexByte(s, '.')
	if i < 0 {
		return nil
	}
	pk, n := s[:i], s[i+1:]
	for path, sp := range p.pkgs {
		if path == pk || filepath.Base(path) == pk {
			if o := sp.Pkg.Scope().Lookup(n); o != nil {
				if tn, ok := o.(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
	}
	for _, sp := range p.prog.AllPackages() {
		if sp.Pkg.Path() == pk || sp.Pkg.Name() == pk {
			if o := sp.Pkg.Scope().Lookup(n); o != nil {
				if tn, ok := o.(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
	}
	return nil
}

// implementers lists the concrete types of the repository implementing iface.
func (p *Program) implementers(iface *types.Interface) []types.Type {
	var out []types.Type
	for _, n := range p.named {
		if _, ok := n.Underlying().(*types.Interface); ok {
			continue
		}
		pt := types.NewPointer(n)
		if types.Implements(pt, iface) {
			if types.Implements(n, iface) {
				out = append(out, n)
			} else {
				out = append(out, pt)
			}
		}
	}
	return out
}

func (p *Program) scanGlobals() {
	p.globMsg, p.globInit = map[*ssa.Global]string{}, map[*ssa.Global]*ssa.Const{}
	stores := map[*ssa.Global]int{}
	defer func() {
		for g, n := range stores {
			if n != 1 {
				delete(p.globInit, g)
				p.globErr[g] = p.globErr[g] && n == 1
			}
		}
	}()
	for _, sp := range p.pkgs {
		var fns []*ssa.Function
		for n, f := range p.byName {
			_ = n
			if f.Pkg == sp {
				fns = append(fns, f)
			}
		}
		var visit func(f *ssa.Function)
		seen := map[*ssa.Function]bool{}
		visit = func(f *ssa.Function) {
			if seen[f] {
				return
			}
			seen[f] = true
			p.allFuncs = append(p.allFuncs, f)
			isInit := f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok {
							stores[g]++
							if k, ok := s.Val.(*ssa.Const); ok && isInit && k.Value != nil {
								p.globInit[g] = k
							}
							if !isInit {
								p.mutated[g] = true
							} else if c, ok := s.Val.(*ssa.Call); ok {
								if cal := c.Call.StaticCallee(); cal != nil && (cal.String() == "errors.New" || cal.String() == "fmt.Errorf") {
									p.globErr[g] = true
									if k, ok := c.Call.Args[0].(*ssa.Const); ok && cal.String() == "errors.New" {
										p.globMsg[g] = constant.StringVal(k.Value)
									}
								}
							}
						}
					} else {
						// address escapes other than loads count as mutation
						for _, op := range in.Operands(nil) {
							if g, ok := (*op).(*ssa.Global); ok {
								switch in.(type) {
								case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
								case *ssa.Call, *ssa.Defer:
									// method calls on lock-like globals
								default:
									p.mutated[g] = true
								}
							}
						}
					}
				}
			}
			for _, a := range f.AnonFuncs {
				visit(a)
			}
		}
		for _, f := range fns {
			visit(f)
		}
	}
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.repo, f); err == nil {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}
