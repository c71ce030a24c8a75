package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Unit is one verification task: a function of the repository (or a generated
// driver) against its contract.
type Unit struct {
	name string
	fn   *ssa.Function
	con  *Contract
	x    *Exec
}

func (u *Unit) oldView(st *State) *heapView {
	return &heapView{st, map[string]*Term{}, st.x.A0}
}

type UnitResult struct {
	Name     string
	File     string
	Obls     []*Oblig
	Err      string
	Trust    []string
	Used     []string
	Inlined  []string
	Backends map[string]int
	Paths    int
	MS       int64
	Props    map[string]bool
	Vacuous  bool
}

func (r *UnitResult) ok() bool {
	if r.Err != "" || r.Vacuous {
		return false
	}
	for _, o := range r.Obls {
		if !o.OK {
			return false
		}
	}
	return true
}

func newExec(p *Program, sp *Specs, pool *SolverPool, uid string) *Exec {
	x := &Exec{p: p, sp: sp, pool: pool, uid: uid, keys: map[string]keyInfo{}, trust: map[string]bool{}, used: map[string]bool{}, inl: map[string]bool{},
		covers: map[string]bool{}, entry: map[string]*Term{}, args: map[string]SVal{}, loopSum: map[string]map[string]bool{}, backends: map[string]int{}}
	x.A0 = Sym("A!"+uid+"!0", SInt)
	return x
}

func newState(x *Exec) *State {
	return &State{x: x, heap: map[string]*Term{}, A: x.A0, frames: map[int]*frameEnv{}, tags: map[*Term]types.Type{}, nonnil: map[*Term]bool{},
		active: map[loopKey]*loopRun{}, iters: map[int]*iterState{}, lastRes: map[string]SVal{}, defers: map[int][]*deferred{}, invOK: map[string]*invMark{}}
}

// verifyUnit checks fn against its contract.
func verifyUnit(p *Program, sp *Specs, pool *SolverPool, c *Contract, fn *ssa.Function, uid string, budget time.Duration) (res *UnitResult) {
	if c.Lemma != nil {
		return verifyLemmaUnit(p, sp, pool, c, uid, budget)
	}
	x := newExec(p, sp, pool, uid)
	x.start = time.Now()
	x.budget = budget
	x.oldFirst = c.OldFirst
	u := &Unit{name: c.Name, fn: fn, con: c, x: x}
	x.unit = u
	res = &UnitResult{Name: c.Name, File: p.pos(fn.Pos()), Props: c.allProps()}
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				res.Err = e.Error()
			case specErr:
				res.Err = "specification does not fit the code: " + e.msg
			case abort:
				res.Err = e.msg
			default:
				res.Err = fmt.Sprintf("internal error: %v", r)
				if os.Getenv("GVC_PANIC") != "" {
					debug.PrintStack()
				}
			}
		}
		res.Obls = x.obls
		res.Trust = sortedStrs(x.trust)
		res.Used = sortedStrs(x.used)
		res.Inlined = sortedStrs(x.inl)
		res.Backends = x.backends
		res.Paths = x.nPaths
		res.MS = time.Since(x.start).Milliseconds()
	}()
	st := newState(x)
	st.assume(Lt(Zero, x.A0))
	var args []Val
	for i, pr := range fn.Params {
		t := pr.Type()
		v := st.freshVal(t, "arg_"+pr.Name())
		st.learn(v, t)
		args = append(args, v)
		if i == 0 && fn.Signature.Recv() != nil {
			if tm, ok := v.(*Term); ok && isRefType(t) {
				st.assume(Lt(Zero, tm))
				st.nonnil[tm] = true
			}
		}
	}
	vars := x.bindContract(c, fn, fn.Signature, nil, args)
	x.args = vars
	env := &SEnv{x: x, h: &heapView{st, nil, x.A0}, vars: vars}
	env.old = env.h
	for _, l := range c.Lets {
		vars[l.Label] = env.eval(l.E)
	}
	for _, g := range sp.globals {
		st.assume(x.evalClause(env, g))
	}
	x.useLemmas(st, c)
	for _, iv := range c.Invs {
		x.assumeInv(st, iv)
	}
	for _, r := range c.Requires {
		st.assume(x.evalClause(env, r))
	}
	if pool.Check(x.query(st), 1500) == Unsat {
		res.Vacuous = true
		res.Err = "the precondition is unsatisfiable"
		return
	}
	for _, g := range c.GhostPre {
		x.ghostAssign(st, u, g, vars)
	}
	live := 0
	x.runFunc(st, fn, args, nil, nil, func(s *State, rets []Val) {
		if s.dead {
			return
		}
		if x.spec == 0 && live < 3 && x.pool.Check(x.query(s), 400) != Unsat {
			live++
		}
		x.atReturn(s, u, vars, rets)
	})
	if x.nPaths == 0 && !c.allowNoReturn() {
		res.Vacuous = true
		res.Err = "no path returns"
	} else if live == 0 && len(c.Ensures) > 0 {
		res.Vacuous = true
		res.Err = "every returning path is contradictory"
	}
	return
}

func (c *Contract) allowNoReturn() bool { return false }

func (c *Contract) allProps() map[string]bool {
	m := map[string]bool{}
	for p := range c.Props {
		m[p] = true
	}
	for _, l := range [][]*Clause{c.Ensures, c.Requires} {
		for _, cl := range l {
			for p := range cl.Props {
				m[p] = true
			}
		}
	}
	for p := range c.Safety {
		m[p] = true
	}
	return m
}

func (x *Exec) ghostAssign(st *State, u *Unit, g *Clause, vars map[string]SVal) {
	env := &SEnv{x: x, h: &heapView{st, nil, st.allocPtr()}, old: u.oldView(st), vars: vars}
	if x.ghostBulk(st, env, g) {
		return
	}
	var facts []*Term
	env.facts = &facts
	gv := env.eval(g.E)
	var v *Term
	if _, ok := gv.V.(*Comp); !ok {
		v = asTerm(gv.V)
	}
	for _, f := range facts {
		st.assume(f)
	}
	lhs, err := parseSpecExpr(g.Label)
	if err != nil {
		panic(specErr{"ghost target " + g.Label})
	}
	if ce, isCall := lhs.(*ast.CallExpr); isCall {
		// ghost("name", ref) := value
		if id, ok := ce.Fun.(*ast.Ident); ok && x.sp.attrs[id.Name] != nil {
			// an attribute is fixed once, by the function that allocates the object
			b := asTerm(env.eval(ce.Args[0]).V)
			if !isAllocTerm(b) {
				x.prove(st, False, "ghost", "attribute "+id.Name+" is set on an object this function allocates", x.p.pos(u.fn.Pos()), nil)
				return
			}
			if c, ok := gv.V.(*Comp); ok {
				sl := underlying(gv.T).(*types.Slice)
				a := c.F[0].(*Term)
				if !strings.HasPrefix(a.Sort, "(Array") {
					ks := x.leafKeys(x.elemKey(sl.Elem()), sl.Elem(), 2)
					a = Select(st.H(ks[0]), a)
				}
				s := snapAttr(id.Name, sl, b)
				st.assume(Eq(s.F[0].(*Term), a))
				st.assume(Eq(s.F[1].(*Term), c.F[1].(*Term)))
				st.assume(Eq(s.F[2].(*Term), c.F[2].(*Term)))
				return
			}
			st.assume(Eq(App("attr!"+id.Name, v.Sort, b), v))
			if l := x.sp.laws[id.Name]; l != nil {
				x.prove(st, Implies(v, x.lawBody(st, l, b)), "law", "law of "+id.Name+" for the object constructed by "+u.name, x.p.pos(u.fn.Pos()), nil)
			}
			return
		}
		nm, _ := strconv.Unquote(ce.Args[0].(*ast.BasicLit).Value)
		gf := x.sp.globalGhost(nm)
		if gf == nil {
			panic(specErr{"unknown ghost " + g.Label})
		}
		b := memRef(env.eval(ce.Args[1]))
		x.sp.regGhost(x, gf)
		st.setH(gf.key, Store(st.H(gf.key), b, v))
		st.writes = append(st.writes, heapWrite{gf.key, b, nil})
		return
	}
	sel, ok := lhs.(*ast.SelectorExpr)
	if !ok {
		panic(specErr{"ghost target " + g.Label})
	}
	b := env.eval(sel.X)
	bt := asTerm(b.V)
	var tn string
	switch t := underlying(b.T).(type) {
	case *types.Pointer:
		tn = structKey(t.Elem())
	case *types.Map:
		tn = "map"
	default:
		tn = typeName(b.T)
	}
	for _, gf := range x.sp.ghostFields(tn) {
		if gf.name == sel.Sel.Name {
			x.sp.regGhost(x, gf)
			st.setH(gf.key, Store(st.H(gf.key), bt, v))
			st.writes = append(st.writes, heapWrite{gf.key, bt, nil})
			return
		}
	}
	panic(specErr{"unknown ghost " + g.Label})
}

// ghostBulk assigns a whole ghost field at once: "each(o, T).f := e(o)" for all
// objects, "x.f[i] := e(i)" for all indices of an array-valued field.
func (x *Exec) ghostBulk(st *State, env *SEnv, g *Clause) bool {
	lhs, err := parseSpecExpr(g.Label)
	if err != nil {
		return false
	}
	eval := func(name string, v *Term, t types.Type) *Term {
		vars := make(map[string]SVal, len(env.vars)+1)
		for k, s := range env.vars {
			vars[k] = s
		}
		vars[name] = SVal{v, t}
		e := *env
		e.vars = vars
		e.bound++
		return asTerm(e.eval(g.E).V)
	}
	find := func(tn, name string) *GhostField {
		for _, gf := range x.sp.ghostFields(tn) {
			if gf.name == name {
				x.sp.regGhost(x, gf)
				return gf
			}
		}
		panic(specErr{"unknown ghost " + g.Label})
	}
	if sel, ok := lhs.(*ast.SelectorExpr); ok {
		ce, ok := sel.X.(*ast.CallExpr)
		if !ok || exprStr(ce.Fun) != "each" {
			return false
		}
		tn, _ := strconv.Unquote(ce.Args[1].(*ast.BasicLit).Value)
		t := x.p.lookupType(tn)
		if t == nil {
			panic(specErr{"unknown type " + tn})
		}
		gf := find(structKey(t), sel.Sel.Name)
		o := Var("gho", SInt)
		v := eval(ce.Args[0].(*ast.Ident).Name, o, types.NewPointer(t))
		h := x.freshSym("ghall", ArrSort(SInt, sortOf(gf.T)))
		st.assume(Forall([]*Term{o}, [][]*Term{{Select(h, o)}}, Eq(Select(h, o), v)))
		st.setH(gf.key, h)
		st.writes = append(st.writes, heapWrite{gf.key, nil, nil})
		return true
	}
	ie, ok := lhs.(*ast.IndexExpr)
	if !ok {
		return false
	}
	if ce, ok := ie.X.(*ast.CallExpr); ok && exprStr(ce.Fun) == "ghost" {
		nm, _ := strconv.Unquote(ce.Args[0].(*ast.BasicLit).Value)
		gf := x.sp.globalGhost(nm)
		if gf == nil {
			panic(specErr{"unknown ghost " + g.Label})
		}
		at, ok := gf.T.(*ArrT)
		if !ok {
			panic(specErr{"ghost target " + g.Label})
		}
		x.sp.regGhost(x, gf)
		i := Var("ghi", sortOf(at.K))
		v := eval(ie.Index.(*ast.Ident).Name, i, at.K)
		a := x.freshSym("gharr", sortOf(at))
		st.assume(Forall([]*Term{i}, [][]*Term{{Select(a, i)}}, Eq(Select(a, i), v)))
		bt := memRef(env.eval(ce.Args[1]))
		st.setH(gf.key, Store(st.H(gf.key), bt, a))
		st.writes = append(st.writes, heapWrite{gf.key, bt, nil})
		return true
	}
	sel, ok := ie.X.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	b := env.eval(sel.X)
	pt, ok := underlying(b.T).(*types.Pointer)
	if !ok {
		panic(specErr{"ghost target " + g.Label})
	}
	gf := find(structKey(pt.Elem()), sel.Sel.Name)
	at, ok := gf.T.(*ArrT)
	if !ok {
		panic(specErr{"ghost target " + g.Label})
	}
	i := Var("ghi", sortOf(at.K))
	v := eval(ie.Index.(*ast.Ident).Name, i, at.K)
	a := x.freshSym("gharr", sortOf(at))
	st.assume(Forall([]*Term{i}, [][]*Term{{Select(a, i)}}, Eq(Select(a, i), v)))
	bt := asTerm(b.V)
	st.setH(gf.key, Store(st.H(gf.key), bt, a))
	st.writes = append(st.writes, heapWrite{gf.key, bt, nil})
	return true
}

// atReturn proves postconditions, invariants and the frame at one return.
func (x *Exec) atReturn(st *State, u *Unit, vars0 map[string]SVal, rets []Val) {
	c := u.con
	vars := make(map[string]SVal, len(vars0)+len(rets))
	for k, v := range vars0 {
		vars[k] = v
	}
	c.bindResults(vars, rets, u.fn.Signature)
	pos := x.p.pos(u.fn.Pos())
	for _, g := range c.GhostPost {
		x.ghostAssign(st, u, g, vars)
	}
	post := &SEnv{x: x, h: &heapView{st, nil, st.allocPtr()}, old: u.oldView(st), vars: vars}
	for _, en := range c.Ensures {
		g := x.evalClause(post, en)
		x.proveKeep(st, g, "ensures", c.Name+" ensures "+en.Label, pos, en.Props)
	}
	for _, iv := range c.Invs {
		x.proveInv(st.clone(), iv, "return of "+c.Name, pos)
	}
	if !c.Pure || true {
		x.proveFrame(st, u, vars0, pos)
	}
}

// proveKeep proves g and keeps it as a fact for the following obligations.
func (x *Exec) proveKeep(st *State, g *Term, kind, name, pos string, props map[string]bool) {
	if x.spec > 0 {
		return
	}
	x.prove(st, g, kind, name, pos, props)
}

type locSet struct {
	key  string
	base *Term
}

// proveFrame: only the locations listed in modifies changed among objects that
// existed at entry.
func (x *Exec) proveFrame(st *State, u *Unit, vars map[string]SVal, pos string) {
	if x.spec > 0 {
		return
	}
	c := u.con
	allowed := map[string][]*Term{}
	full := map[string]bool{}
	env := &SEnv{x: x, h: u.oldView(st), vars: vars}
	env.old = env.h
	rec := &locRec{x: x, add: func(key string, base *Term) { allowed[key] = append(allowed[key], base) }}
	for _, m := range c.Modifies {
		rec.loc(env, m.E)
	}
	for _, kx := range c.ModAll {
		for _, key := range x.matchKeys(kx) {
			full[key] = true
		}
	}
	var keys []string
	for k := range st.heap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if full[k] {
			continue
		}
		cur := st.heap[k]
		base := x.heapSym(st, k, "0", 0, x.A0)
		if cur == base {
			continue
		}
		// peel stores that are manifestly fresh or allowed
		t := cur
		for t.Op == "store" {
			b := t.Args[1]
			ok := isAllocTerm(b)
			for _, a := range allowed[k] {
				if a == b {
					ok = true
				}
			}
			if !ok {
				break
			}
			t = t.Args[0]
		}
		if t == base {
			continue
		}
		if strings.HasPrefix(k, "hash.$") || strings.HasPrefix(k, "stream.$") && false {
			continue
		}
		o := x.freshSym("fobj", SInt)
		cs := []*Term{Le(Zero, o), Lt(o, x.A0)}
		if strings.Contains(k, ".$") {
			cs = append(cs, Neq(o, Zero)) // ghost state of nothing
		}
		for _, a := range allowed[k] {
			cs = append(cs, Neq(o, a))
		}
		var props map[string]bool
		if strings.HasSuffix(k, "#lk") {
			props = map[string]bool{"C18": true}
		}
		x.proveQuiet(st, Implies(And(cs...), Eq(Select(cur, o), Select(base, o))), "frame", c.Name+" modifies only what it declares: "+k, pos, props)
	}
}

// locRec enumerates the heap locations of modifies expressions.
type locRec struct {
	x   *Exec
	add func(key string, base *Term)
}

func (r *locRec) loc(env *SEnv, ex ast.Expr) {
	r.x.locsOf(env, ex, r.add)
}
