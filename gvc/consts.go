package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- globals

// globalConst gives the value of a package variable that is never assigned
// after initialisation, or nil.
func (x *Exec) globalConst(st *State, a *Addr) Val {
	g := x.p.globalByKey(a.Key)
	if g == nil || x.p.mutated[g] {
		return nil
	}
	t := a.T
	if isRefType(t) {
		name := "G!" + strings.TrimPrefix(a.Key, "G:") + "@e0"
		s := Sym(name, SInt)
		gdecls.once(name, func() {
			var ax []*Term
			ax = append(ax, Eq(App("gid", SInt, s), IntT(int64(x.p.globalID(g)))))
			if x.p.globErr[g] {
				ax = append(ax, Lt(Zero, s))
				tv := Var("ge", SInt)
				ei := App("errIs", SBool, s, tv)
				ax = append(ax, Forall([]*Term{tv}, [][]*Term{{ei}}, Iff(ei, Eq(tv, s))))
				if m, ok := x.p.globMsg[g]; ok {
					ax = append(ax, Eq(App("errmsg", SStr, s), StrLit(m)))
				}
			} else {
				ax = append(ax, Le(Zero, s))
			}
			gdecls.axiom(name, And(ax...))
		})
		st.assume(Lt(s, x.A0))
		if x.p.globErr[g] {
			st.nonnil[s] = true
		}
		if isIfaceType(t) && x.p.globErr[g] {
			st.assume(Eq(App("tag", SInt, s), IntT(int64(x.p.typeIDByName("ext:error")))))
		}
		st.learnPtr(s, t)
		return s
	}
	if sortOfSafe(t) == SStr || sortOfSafe(t) == SInt || sortOfSafe(t) == SBool {
		if v, ok := x.p.globInit[g]; ok {
			return x.constVal(v)
		}
	}
	return nil
}

func Iff(a, b *Term) *Term { return Eq(a, b) }

func (d *Decls) once(name string, f func()) {
	d.mu.Lock()
	if d.onced == nil {
		d.onced = map[string]*sync.Once{}
	}
	o := d.onced[name]
	if o == nil {
		o = &sync.Once{}
		d.onced[name] = o
	}
	d.mu.Unlock()
	o.Do(f)
}

func (p *Program) globalByKey(key string) *ssa.Global {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.globKey == nil {
		p.globKey = map[string]*ssa.Global{}
		n := 0
		for _, pk := range p.prog.AllPackages() {
			for _, m := range pk.Members {
				if g, ok := m.(*ssa.Global); ok {
					p.globKey["G:"+shortPkg(pk.Pkg.Path())+"."+g.Name()] = g
				}
			}
		}
		// io.EOF = errors.New("EOF"), never reassigned
		for k, m := range map[string]string{"G:io.EOF": "EOF", "G:io.ErrUnexpectedEOF": "unexpected EOF"} {
			if g := p.globKey[k]; g != nil {
				p.globErr[g] = true
				p.globMsg[g] = m
			}
		}
		p.globNum = map[*ssa.Global]int{}
		var ks []string
		for k := range p.globKey {
			ks = append(ks, k)
		}
		sortStrings(ks)
		for _, k := range ks {
			n++
			p.globNum[p.globKey[k]] = n
		}
	}
	return p.globKey[key]
}

func (p *Program) globalID(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.globNum[g]
}

func (p *Program) typeIDByName(n string) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	if id, ok := p.typeIDs[n]; ok {
		return id
	}
	id := len(p.typeIDs) + 1
	p.typeIDs[n] = id
	return id
}

// ---------------------------------------------------------------- constant maps

type constMapInfo struct {
	keys []string
	vals map[string]*ssa.Function
}

// constMap recognises a package-level map from strings to functions that is
// filled during initialisation only.
func (x *Exec) constMap(fr *Frame, v ssa.Value) *constMapInfo {
	ld, ok := v.(*ssa.UnOp)
	if !ok {
		return nil
	}
	g, ok := ld.X.(*ssa.Global)
	if !ok {
		return nil
	}
	return x.p.constMapOf(g)
}

func (p *Program) constMapOf(g *ssa.Global) *constMapInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.cmaps == nil {
		p.cmaps = map[*ssa.Global]*constMapInfo{}
	}
	if m, ok := p.cmaps[g]; ok {
		return m
	}
	p.cmaps[g] = nil
	mt, ok := underlying(g.Type().(*types.Pointer).Elem()).(*types.Map)
	if !ok || !isString(mt.Key()) {
		return nil
	}
	if _, ok := underlying(mt.Elem()).(*types.Signature); !ok {
		return nil
	}
	if p.mutated[g] {
		return nil
	}
	info := &constMapInfo{vals: map[string]*ssa.Function{}}
	for _, f := range p.allFuncs {
		if f.Pkg != g.Pkg && (f.Parent() == nil || f.Parent().Pkg != g.Pkg) {
			continue
		}
		isInit := f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				isLoad := ok && u.X == g
				var uses []ssa.Instruction
				if isLoad && u.Referrers() != nil {
					uses = *u.Referrers()
				}
				if st, ok := in.(*ssa.Store); ok && st.Addr == g {
					if mm, ok := st.Val.(*ssa.MakeMap); ok {
						uses = append(uses, *mm.Referrers()...)
					} else if c, ok := st.Val.(*ssa.Const); !ok || c.Value != nil {
						if !ok {
							return nil
						}
					}
				}
				for _, r := range uses {
					switch r := r.(type) {
					case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
					case *ssa.Store:
						if r.Addr != g {
							return nil
						}
					case *ssa.MapUpdate:
						if !isInit {
							return nil
						}
						kc, ok1 := r.Key.(*ssa.Const)
						fv, ok2 := r.Value.(*ssa.Function)
						if ct, ok := r.Value.(*ssa.ChangeType); ok {
							fv, ok2 = ct.X.(*ssa.Function)
						}
						if !ok1 || !ok2 || len(r.Block().Preds) > 0 {
							return nil
						}
						k := constant.StringVal(kc.Value)
						if _, dup := info.vals[k]; !dup {
							info.keys = append(info.keys, k)
						}
						info.vals[k] = fv
					case *ssa.Call:
						if bi, ok := r.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
							return nil
						}
					default:
						return nil
					}
				}
			}
		}
	}
	p.cmaps[g] = info
	return info
}

func (x *Exec) constLookup(st *State, g *constMapInfo, key *Term, in *ssa.Lookup, k func(*State, Val)) {
	mk := func(s *State, fn *ssa.Function) {
		var v Val = Zero
		ok := False
		if fn != nil {
			v = &FuncVal{Fn: fn}
			ok = True
		}
		if in.CommaOk {
			k(s, &Comp{T: in.Type(), F: []Val{v, ok}})
			return
		}
		k(s, v)
	}
	if l, ok := st.litFor(key); ok {
		mk(st, g.vals[l])
		return
	}
	var alts []*Term
	var none []*Term
	for _, l := range g.keys {
		alts = append(alts, Eq(key, StrLit(l)))
		none = append(none, Neq(key, StrLit(l)))
	}
	alts = append(alts, And(none...))
	x.fork(st, alts, func(s *State, i int) {
		if i < len(g.keys) {
			mk(s, g.vals[g.keys[i]])
		} else {
			mk(s, nil)
		}
	})
}

// ---------------------------------------------------------------- lock discipline

func (x *Exec) isFreshRef(st *State, b *Term) bool {
	for _, f := range st.fresh {
		if f.ref == b {
			return true
		}
	}
	return false
}

func (x *Exec) guardOfKey(key string) *Guard {
	if len(x.sp.guards) == 0 {
		return nil
	}
	if g := x.sp.guards[key]; g != nil {
		return g
	}
	for k, g := range x.sp.guards {
		if strings.HasPrefix(key, k+".") || strings.HasPrefix(key, k+"#") {
			return g
		}
	}
	return nil
}

func (x *Exec) guardCheck(st *State, a *Addr, write bool) {
	g := x.guardOfKey(a.Key)
	if g == nil || x.isFreshRef(st, a.Base) {
		return
	}
	if g.pointee {
		if write {
			x.prove(st, False, "guard", g.field+" is never reassigned", x.p.pos(x.cur), map[string]bool{"C18": true})
		}
		return
	}
	x.guardProve(st, g, a, write, "")
}

func (x *Exec) guardProve(st *State, g *Guard, a *Addr, write bool, what string) {
	lk := g.lock + "#lk"
	base := a.Base
	if pt := x.lockPtrType(g.lock); pt != nil {
		// the structure holds a pointer to its lock
		base = asTerm(st.loadAddr(&Addr{Key: g.lock, Base: a.Base, T: pt}))
		lk = "sync.lock#lk"
	}
	x.regKey(lk, SInt, 1, false, false, nil)
	v := Select(st.H(lk), base)
	goal := Neq(v, Zero)
	mode := "read"
	if write {
		goal = Eq(v, IntT(-1))
		mode = "write"
	}
	x.prove(st, goal, "guard", fmt.Sprintf("%s of %s%s requires %s", mode, g.field, what, g.lock), x.p.pos(x.cur), map[string]bool{"C18": true})
}

func (x *Exec) noteGuard(st *State, a *Addr, v Val) {
	g := x.guardOfKey(a.Key)
	if g == nil || x.isFreshRef(st, a.Base) {
		return
	}
	_, isMap := underlying(a.T).(*types.Map)
	if isMap || g.pointee {
		if t, ok := v.(*Term); ok {
			if st.guardOf == nil {
				st.guardOf = map[*Term]*Addr{}
			}
			st.guardOf[t] = a
		}
	}
}

// lockPtrType: the type of a guard's lock field when it is a pointer.
func (x *Exec) lockPtrType(lock string) types.Type {
	i := strings.LastIndex(lock, ".")
	t := x.p.lookupType(lock[:i])
	if t == nil {
		return nil
	}
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for j := 0; j < u.NumFields(); j++ {
		if u.Field(j).Name() == lock[i+1:] {
			if _, ok := u.Field(j).Type().(*types.Pointer); ok {
				return u.Field(j).Type()
			}
		}
	}
	return nil
}

func (x *Exec) mapGuard(st *State, m *Term, write bool, pos interface{}) {
	a := st.guardOf[m]
	if a == nil {
		return
	}
	x.guardProve(st, x.guardOfKey(a.Key), a, write, " contents")
}

func (x *Exec) goStmt(st *State, fr *Frame, in *ssa.Go) {
	// A spawned goroutine has, in general, not run when the function returns:
	// its effects are not credited to the caller.
	x.trust["go statement at "+x.p.pos(in.Pos())+": effects of the goroutine are not part of the caller's contract"] = true
}

func (x *Exec) selectStmt(st *State, fr *Frame, in *ssa.Select, k func(*State, Val)) {
	tt := in.Type().(*types.Tuple)
	v := st.freshVal(tt, "select").(*Comp)
	n := int64(len(in.States))
	lo := int64(0)
	if !in.Blocking {
		lo = -1
	}
	idx := v.F[0].(*Term)
	st.assume(And(Le(IntT(lo), idx), Lt(idx, IntT(n))))
	k(st, v)
}
