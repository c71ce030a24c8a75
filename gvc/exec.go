package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Exec verifies one unit (a function against its contract).
type Exec struct {
	p        *Program
	sp       *Specs
	uid      string
	A0       *Term
	keys     map[string]keyInfo
	nFresh   int
	nEpoch   int
	nFrame   int
	nIter    int
	pool     *SolverPool
	unit     *Unit
	spec     int // >0: speculative execution, obligations are not recorded
	obls     []*Oblig
	trust    map[string]bool // trusted models / contracts used
	used     map[string]bool // contracts used
	inl      map[string]bool // functions inlined
	nPaths   int
	start    time.Time
	budget   time.Duration
	oldFirst bool
	stack    []string
	covers   map[string]bool
	entry    map[string]*Term
	args     map[string]SVal
	lastSt   *State
	depthL   int
	foldExt  map[string]bool
	loopSum  map[string]map[string]bool
	backends map[string]int
	proveMS  int
	mayNil   int
	cur      token.Pos
}

// Oblig is one named proof obligation.
type Oblig struct {
	Name    string
	Pos     string
	Kind    string
	OK      bool
	Backend string
	Props   map[string]bool
	Detail  string
	MS      int64
}

type Frame struct {
	id     int
	fn     *ssa.Function
	k      func(st *State, rets []Val)
	depth  int
	loops  *LoopInfo
	pos    string
	parent *Frame
	con    *Contract
	args   []Val
}

type abort struct{ msg string }

func (x *Exec) unsupported(pos token.Pos, f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf("%s: %s", x.p.pos(pos), fmt.Sprintf(f, a...))})
}

// ---------------------------------------------------------------- solving

func (x *Exec) query(st *State, extra ...*Term) string {
	return x.queryWithout(st, nil, extra...)
}

// queryWithout leaves some of the path's facts out.
func (x *Exec) queryWithout(st *State, skip map[*Term]bool, extra ...*Term) string {
	fs := append([]*Term(nil), extra...)
	for _, f := range st.facts() {
		if !skip[f] {
			fs = append(fs, f)
		}
	}
	var omit map[string]bool
	if x.unit != nil && x.unit.con != nil {
		omit = x.unit.con.Omit
	}
	return gdecls.buildQuery(fs, omit)
}

func (x *Exec) checkBudget() {
	if x.budget > 0 && time.Since(x.start) > x.budget {
		panic(abort{"time budget exhausted"})
	}
}

// feasible reports whether the path can continue under c (unknown counts as
// feasible).
func (x *Exec) feasible(st *State, c *Term) bool {
	if c.isFalse() || st.dead {
		return false
	}
	if c.isTrue() {
		return true
	}
	if st.knows(c) {
		return true
	}
	if st.knows(Not(c)) {
		return false
	}
	x.checkBudget()
	return x.pool.Check(x.query(st, c), 400) != Unsat
}

// valid tries to prove g on the path (no fallbacks).
func (x *Exec) valid(st *State, g *Term, ms int) bool {
	if g.isTrue() || st.dead || st.knows(g) {
		return true
	}
	x.checkBudget()
	return x.ask(x.query(st, x.negGoal(g)), ms) == Unsat
}

// negGoal is the negation of a goal with its quantifiers skolemised and their
// patterns kept as ground terms (so that facts with the same patterns fire).
func (x *Exec) negGoal(g *Term) *Term {
	switch g.Op {
	case "and":
		var ns, ts []*Term
		for _, a := range g.Args {
			if isTouch(a) {
				ts = append(ts, a)
				continue
			}
			ns = append(ns, x.negGoal(a))
		}
		return And(append(ts, Or(ns...))...)
	case "=>":
		return And(g.Args[0], x.negGoal(g.Args[1]))
	case "forall":
		b, ts := x.skolem(g)
		return And(append(ts, x.negGoal(b))...)
	}
	return Not(g)
}

// skolem instantiates a universal goal at fresh symbols; the instances of its
// patterns are returned as trivially true facts.
func (x *Exec) skolem(g *Term) (*Term, []*Term) {
	m := map[*Term]*Term{}
	for _, v := range g.Vars {
		m[v] = x.freshSym("sk", v.Sort)
	}
	var ts []*Term
	for _, grp := range g.Trigs {
		for _, t := range grp {
			ts = append(ts, touch(Subst(t, m)))
		}
	}
	return Subst(g.Args[0], m), ts
}

// touch mentions a term without saying anything about it.
func touch(t *Term) *Term {
	return App("touch!"+strings.NewReplacer(" ", "_", "(", "_", ")", "_").Replace(t.Sort), SBool, t)
}

func isTouch(t *Term) bool { return t.Op == "app" && strings.HasPrefix(t.Name, "touch!") }

var dumpN int

func (x *Exec) discharge(st *State, g *Term) (bool, string) {
	if g.isTrue() || st.dead || st.knows(g) {
		return true, "simplify"
	}
	// split conjunctions / implications
	if g.Op == "and" {
		be := "simplify"
		cloned := false
		for _, a := range g.Args {
			if isTouch(a) {
				if !cloned {
					st, cloned = st.clone(), true
				}
				st.assume(a)
			}
		}
		for _, a := range g.Args {
			if isTouch(a) {
				continue
			}
			ok, b := x.discharge(st, a)
			if !ok {
				return false, b
			}
			if b != "simplify" {
				be = b
			}
		}
		return true, be
	}
	if g.Op == "=>" {
		s2 := st.clone()
		s2.assume(g.Args[0])
		return x.discharge(s2, g.Args[1])
	}
	if g.Op == "forall" {
		b, ts := x.skolem(g)
		s2 := st.clone()
		for _, t := range ts {
			s2.assume(t)
		}
		for _, t := range x.foldExts(st, And(append(ts, b)...)) {
			s2.assume(t)
		}
		return x.discharge(s2, b)
	}
	if g.Op == "=" && g.Args[0].Sort == SBool && (g.Args[0].Op == "forall" || g.Args[1].Op == "forall" || g.Args[0].Op == "and" || g.Args[1].Op == "and") {
		if ok, b := x.discharge(st, Implies(g.Args[0], g.Args[1])); !ok {
			return false, b
		}
		return x.discharge(st, Implies(g.Args[1], g.Args[0]))
	}
	x.checkBudget()
	var extra []*Term
	extra = append(extra, Not(g))
	extra = append(extra, x.goalExt(st, g)...)
	q := x.query(st, extra...)
	ms := x.proveMS
	if ms == 0 {
		ms = 4000
	}
	if d := os.Getenv("GVC_DUMPALL"); d != "" {
		dumpN++
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, dumpN), []byte("; "+g.String()+"\n"+q), 0644)
	}
	if x.oldFirst {
		if r, _ := oneShot("z3", []string{"-in", "-smt2", fmt.Sprintf("-t:%d", 4000*timeScale)}, q, 4000*timeScale); r == Unsat {
			return true, "z3-4.8.12"
		}
	}
	if x.pool.Check(q, ms) == Unsat {
		return true, "z3-5.3.2"
	}
	if x.spec > 0 {
		return false, ""
	}
	if ok, be := portfolio(q, 8000); ok {
		return true, be
	}
	if d := os.Getenv("GVC_DUMP"); d != "" {
		dumpN++
		os.WriteFile(fmt.Sprintf("%s/f%d.smt2", d, dumpN), []byte(q), 0644)
	}
	return false, ""
}

// ask puts one query to the unit's first solver, then to the pool.
func (x *Exec) ask(q string, ms int) Result {
	if x.oldFirst {
		if r, _ := oneShot("z3", []string{"-in", "-smt2", fmt.Sprintf("-t:%d", ms)}, q, ms); r == Unsat {
			return r
		}
	}
	return x.pool.Check(q, ms)
}

// goalExt: facts that the goal's terms call for.
func (x *Exec) goalExt(st *State, g *Term) []*Term {
	return append(strExt(g), x.foldExts(st, g)...)
}

// foldExts unfolds the specification folds at skolem arguments once.
func (x *Exec) foldExts(st *State, g *Term) []*Term {
	var out []*Term
	collect(g, map[*Term]bool{}, func(t *Term) {
		if t.Op == "app" && strings.HasPrefix(t.Name, "fold!") && len(t.fvs) == 0 && hasSkolem(t.Args[len(t.Args)-1]) {
			out = append(out, x.foldStep(st, t)...)
		}
	})
	return out
}

func hasSkolem(t *Term) bool {
	found := false
	collect(t, map[*Term]bool{}, func(t *Term) {
		if t.Op == "sym" && strings.Contains(t.Name, "!sk!") {
			found = true
		}
	})
	return found
}

// foldStep unfolds one application of a specification fold.
func (x *Exec) foldStep(st *State, t *Term) []*Term {
	f := x.sp.folds[strings.TrimPrefix(t.Name, "fold!")]
	if f == nil || f.is != nil {
		return nil
	}
	e := &SEnv{x: x, h: &heapView{st, nil, st.allocPtr()}, vars: map[string]SVal{}}
	e.old = e.h
	k := 0
	for i, p := range f.params {
		pt := x.sp.parseType(f.ptypes[i])
		if _, ok := underlying(pt).(*types.Slice); ok {
			e.vars[p] = SVal{&Comp{F: []Val{t.Args[k], t.Args[k+1], IntT(maxLen), IntT(maxLen)}}, pt}
			k += 2
			continue
		}
		e.vars[p] = SVal{t.Args[k], pt}
		k++
	}
	i := t.Args[len(t.Args)-1]
	pa := append([]*Term(nil), t.Args...)
	pa[len(pa)-1] = Sub(i, One)
	e.vars["prev"] = SVal{App(t.Name, t.Sort, pa...), x.sp.parseType(f.ret)}
	return []*Term{
		Implies(Le(i, Zero), Eq(t, asTerm(e.eval(f.base).V))),
		Implies(Lt(Zero, i), Eq(t, asTerm(e.eval(f.step).V))),
	}
}

// strExt gives extensionality instances for string equalities in the goal.
func strExt(g *Term) []*Term {
	var out []*Term
	collect(g, map[*Term]bool{}, func(t *Term) {
		if t.Op == "=" && t.Args[0].Sort == SStr && len(t.fvs) == 0 {
			a, b := t.Args[0], t.Args[1]
			d := App("sdiff", SInt, a, b)
			out = append(out, Or(t, Neq(SLen(a), SLen(b)), And(Le(Zero, d), Lt(d, SLen(a)), Neq(SAt(a, d), SAt(b, d)))))
		}
	})
	return out
}

// prove records an obligation (unless speculative) and assumes it.
// onlyProp, when set, is the property being checked: obligations and hints that
// name other properties only are left to those properties' checks.
var onlyProp string

func (x *Exec) prove(st *State, g *Term, kind, name string, pos string, props map[string]bool) bool {
	if st.dead {
		return true
	}
	if x.spec > 0 {
		st.assume(g)
		return true
	}
	if onlyProp != "" && len(props) > 0 && !props[onlyProp] {
		// decided by the checks of the properties it names
		x.obls = append(x.obls, &Oblig{Name: name, Pos: pos, Kind: kind, OK: true, Props: props})
		if kind != "ensures" {
			st.assume(g)
		}
		return true
	}
	t0 := time.Now()
	ok, be := x.discharge(st, g)
	profile("prove "+be, ok, time.Since(t0))
	o := &Oblig{Name: name, Pos: pos, Kind: kind, OK: ok, Backend: be, Props: props, MS: time.Since(t0).Milliseconds()}
	if !ok {
		o.Detail = "path: " + strings.Join(st.steps, " > ")
		if os.Getenv("GVC_VERBOSE") != "" {
			fmt.Fprintf(os.Stderr, "FAILED %s %s at %s\n   goal %s\n   %s\n", kind, name, pos, trunc(g.String(), 600), o.Detail)
		}
	}
	x.obls = append(x.obls, o)
	if be != "" {
		x.backends[be]++
	}
	st.assume(g)
	return ok
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (x *Exec) safety(st *State, g *Term, what string, pos token.Pos) {
	if g.isTrue() || st.knows(g) {
		return
	}
	x.prove(st, g, "safety", what, x.p.pos(pos), nil)
}

// ---------------------------------------------------------------- frames

func (x *Exec) newFrame(fn *ssa.Function, parent *Frame, k func(*State, []Val)) *Frame {
	x.nFrame++
	d := 0
	if parent != nil {
		d = parent.depth + 1
	}
	return &Frame{id: x.nFrame, fn: fn, k: k, depth: d, loops: loopsOf(fn), parent: parent}
}

// runFunc executes fn's body from st.
func (x *Exec) runFunc(st *State, fn *ssa.Function, args []Val, bind []Val, parent *Frame, k func(*State, []Val)) {
	if len(fn.Blocks) == 0 {
		panic(unsupported{"no body: " + fn.String()})
	}
	fr := x.newFrame(fn, parent, k)
	if fr.depth > 40 {
		panic(unsupported{"inlining too deep at " + fn.String()})
	}
	for p := parent; p != nil; p = p.parent {
		if p.fn == fn {
			panic(unsupported{"recursion without contract: " + fn.String()})
		}
	}
	fr.args = args
	for i, p := range fn.Params {
		st.set(fr.id, p, args[i])
	}
	for i, f := range fn.FreeVars {
		st.set(fr.id, f, bind[i])
	}
	x.enter(st, fr, fn.Blocks[0], nil)
}

// enter transfers control along edge from -> b.
func (x *Exec) enter(st *State, fr *Frame, b, from *ssa.BasicBlock) {
	if st.dead {
		return
	}
	if x.exitLoops(st, fr, b, from) {
		return
	}
	if lp := fr.loops.head[b]; lp != nil {
		key := loopKey{fr.id, lp}
		if lr := st.active[key]; lr != nil && lp.blocks[from] {
			lr.back(st, fr, from)
			return
		}
		if !x.shortLoop(st, fr, lp, from) {
			x.startLoop(st, fr, lp, from)
			return
		}
	}
	x.phis(st, fr, b, from)
	x.block(st, fr, b, nphi(b))
}

// shortLoop reports whether the loop's condition is decided by constants here
// and at most four iterations are left: such a loop is executed, not abstracted.
func (x *Exec) shortLoop(st *State, fr *Frame, lp *Loop, from *ssa.BasicBlock) bool {
	iff, ok := lp.head.Instrs[len(lp.head.Instrs)-1].(*ssa.If)
	if !ok || from == nil {
		return false
	}
	bin, ok := iff.Cond.(*ssa.BinOp)
	if !ok || bin.Block() != lp.head {
		return false
	}
	for _, in := range lp.head.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.If, *ssa.DebugRef:
		case *ssa.BinOp:
			if in.Op == token.QUO || in.Op == token.REM {
				return false
			}
		default:
			return false
		}
	}
	s2 := st.clone()
	x.phis(s2, fr, lp.head, from)
	for _, in := range lp.head.Instrs[nphi(lp.head):] {
		if b, ok := in.(*ssa.BinOp); ok {
			x.instr(s2, fr, b)
		}
	}
	c, ok := x.val(s2, fr, bin).(*Term)
	if !ok {
		return false
	}
	if c.isFalse() {
		return true
	}
	if !c.isTrue() {
		return false
	}
	a, ok1 := x.val(s2, fr, bin.X).(*Term)
	b, ok2 := x.val(s2, fr, bin.Y).(*Term)
	if !ok1 || !ok2 || a.Op != "int" || b.Op != "int" {
		return false
	}
	d := new(big.Int).Sub(a.Val, b.Val)
	return d.Abs(d).Cmp(big.NewInt(8)) <= 0
}

func nphi(b *ssa.BasicBlock) int {
	n := 0
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return n
}

func predIndex(b, from *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	panic("pred not found")
}

func (x *Exec) phis(st *State, fr *Frame, b, from *ssa.BasicBlock) {
	if from == nil {
		return
	}
	pi := predIndex(b, from)
	var vals []Val
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, ph)
		vals = append(vals, x.val(st, fr, ph.Edges[pi]))
	}
	for i, ph := range ps {
		st.set(fr.id, ph, vals[i])
	}
}

func (x *Exec) block(st *State, fr *Frame, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		in := b.Instrs[i]
		if p := in.Pos(); p.IsValid() {
			x.cur = p
		}
		switch in := in.(type) {
		case *ssa.If:
			c := x.val(st, fr, in.Cond).(*Term)
			x.branch(st, c, func(s *State, taken bool) {
				if taken {
					x.enter(s, fr, b.Succs[0], b)
				} else {
					x.enter(s, fr, b.Succs[1], b)
				}
			}, x.p.pos(in.Cond.Pos()))
			return
		case *ssa.Jump:
			x.enter(st, fr, b.Succs[0], b)
			return
		case *ssa.Return:
			var rets []Val
			for _, r := range in.Results {
				rets = append(rets, x.val(st, fr, r))
			}
			x.nPaths++
			delete(st.frames, fr.id)
			fr.k(st, rets)
			return
		case *ssa.Panic:
			x.safety(st, False, "explicit panic", in.Pos())
			return
		case *ssa.Call:
			next := i + 1
			x.call(st, fr, in, &in.Call, func(s *State, v Val) {
				s.set(fr.id, in, v)
				x.block(s, fr, b, next)
			})
			return
		case *ssa.RunDefers:
			next := i + 1
			x.runDefers(st, fr, func(s *State) { x.block(s, fr, b, next) })
			return
		case *ssa.Lookup:
			next := i + 1
			x.lookup(st, fr, in, func(s *State, v Val) {
				s.set(fr.id, in, v)
				x.block(s, fr, b, next)
			})
			return
		case *ssa.Select:
			next := i + 1
			x.selectStmt(st, fr, in, func(s *State, v Val) {
				s.set(fr.id, in, v)
				x.block(s, fr, b, next)
			})
			return
		default:
			x.instr(st, fr, in)
		}
	}
}

func (x *Exec) branch(st *State, c *Term, k func(*State, bool), pos string) {
	if c.isTrue() {
		k(st, true)
		return
	}
	if c.isFalse() {
		k(st, false)
		return
	}
	nc := Not(c)
	ft := x.feasible(st, c)
	ff := true
	if ft {
		ff = x.feasible(st, nc)
	}
	switch {
	case ft && ff:
		s2 := st.clone()
		s2.assume(c)
		s2.steps = append(s2.steps, pos+":T")
		k(s2, true)
		st.assume(nc)
		st.steps = append(st.steps, pos+":F")
		k(st, false)
	case ft:
		st.assume(c)
		k(st, true)
	default:
		st.assume(nc)
		k(st, false)
	}
}

// fork runs k for every feasible alternative.
func (x *Exec) fork(st *State, alts []*Term, k func(*State, int)) {
	for i, a := range alts {
		if a.isFalse() {
			continue
		}
		if !x.feasible(st, a) {
			continue
		}
		s := st
		if i < len(alts)-1 {
			s = st.clone()
		}
		s.assume(a)
		k(s, i)
	}
}

// ---------------------------------------------------------------- values

func (x *Exec) val(st *State, fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return &Addr{Key: "G:" + shortPkg(v.Pkg.Pkg.Path()) + "." + v.Name(), Base: Zero, T: v.Type().(*types.Pointer).Elem()}
	case *ssa.Function:
		return &FuncVal{Fn: v}
	case *ssa.Builtin:
		return nil
	}
	fe := st.frames[fr.id]
	if fe != nil {
		if r, ok := fe.m[v]; ok {
			return r
		}
	}
	panic(unsupported{fmt.Sprintf("value %s (%T) not in environment of %s", v.Name(), v, fr.fn)})
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch sortOf(t) {
	case SBool:
		return BoolT(constant.BoolVal(c.Value))
	case SStr:
		return StrLit(constant.StringVal(c.Value))
	case SInt:
		v := constant.ToInt(c.Value)
		b, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			panic(unsupported{"const " + c.String()})
		}
		return BigT(b)
	case SReal:
		return Sym("real!"+c.Value.ExactString(), SReal)
	}
	panic(unsupported{"const " + c.String()})
}

func (x *Exec) term(st *State, fr *Frame, v ssa.Value) *Term {
	return asTerm(x.val(st, fr, v))
}

func asTerm(v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *FuncVal:
		r := funcRef(v)
		funcMu.Lock()
		funcRefs[r.Name] = v
		funcMu.Unlock()
		return r
	case *Addr:
		panic(unsupported{"interior pointer " + v.Key + " used as a value"})
	}
	panic(unsupported{fmt.Sprintf("scalar expected, got %T", v)})
}

// deref gives the address denoted by pointer value v of static type t.
func (x *Exec) deref(v Val, t types.Type) *Addr {
	switch v := v.(type) {
	case *Addr:
		return v
	case *Term:
		el := underlying(t).(*types.Pointer).Elem()
		if _, ok := underlying(el).(*types.Struct); ok {
			return &Addr{Key: structKey(el), Base: v, T: el}
		}
		return &Addr{Key: "*" + typeName(el), Base: v, T: el}
	}
	panic(unsupported{fmt.Sprintf("deref %T", v)})
}

func (x *Exec) nilCheck(st *State, v Val, pos token.Pos, what string) {
	if t, ok := v.(*Term); ok {
		if st.nonnil[t] {
			return
		}
		if bb, ob := splitOff(t); bb != nil && bb.Op == "sym" && strings.HasPrefix(bb.Name, "A!") && ob.Sign() >= 0 {
			return
		}
		x.safety(st, Neq(t, Zero), "nil dereference: "+what, pos)
		st.nonnil[t] = true
	}
}

// tagOf assumes the dynamic type of a pointer value with known static type.
func (st *State) learnPtr(v Val, t types.Type) {
	tm, ok := v.(*Term)
	if !ok {
		return
	}
	pt, ok := underlying(t).(*types.Pointer)
	if !ok {
		return
	}
	if _, ok := underlying(pt.Elem()).(*types.Struct); !ok {
		return
	}
	if _, ok := st.tags[tm]; ok {
		return
	}
	if tm == Zero {
		return
	}
	st.tags[tm] = t
	st.assume(Implies(Neq(tm, Zero), Eq(App("tag", SInt, tm), IntT(int64(st.x.p.typeID(t))))))
}

func (x *Exec) load(st *State, a *Addr) Val {
	if strings.HasPrefix(a.Key, "G:") {
		if v := x.globalConst(st, a); v != nil {
			return v
		}
	}
	x.guardCheck(st, a, false)
	v := st.loadAddr(a)
	st.learn(v, a.T)
	return v
}

// learn assumes type facts of a loaded value.
func (st *State) learn(v Val, t types.Type) {
	if tm, ok := v.(*Term); ok {
		if isRefType(t) {
			st.boundRef(tm, t)
			st.learnPtr(tm, t)
			if isIfaceType(t) {
				st.learnIface(tm, t)
			}
		} else if lo, hi, ok := intRange(t); ok && tm.Op != "int" {
			st.assumeRange(tm, lo, hi)
		}
		return
	}
	if c, ok := v.(*Comp); ok {
		switch u := underlying(t).(type) {
		case *types.Slice:
			if a, ok := c.F[0].(*Term); ok {
				if _, okk := refEpoch(a); !okk && a != Zero && !isAllocTerm(a) {
					st.assume(And(Le(Zero, a), Lt(a, st.allocPtr())))
				}
			}
		case *types.Struct:
			if isOpaqueStruct(t) {
				return
			}
			for i := 0; i < u.NumFields(); i++ {
				st.learn(c.F[i], u.Field(i).Type())
			}
		}
	}
}

func (st *State) assumeRange(t *Term, lo, hi *big.Int) {
	// loads from heap symbols are covered by axioms; only stored terms that
	// are not manifestly in range need facts, and those were checked at store.
	if t.Op == "select" || t.Op == "sym" || t.Op == "app" {
		st.assume(And(Le(BigT(lo), t), Le(t, BigT(hi))))
	}
}

func isAllocTerm(t *Term) bool {
	b, o := splitOff(t)
	return b != nil && b.Op == "sym" && strings.HasPrefix(b.Name, "A!") && o.Sign() >= 0
}

func (st *State) boundRef(tm *Term, t types.Type) {
	if tm.isInt() || isAllocTerm(tm) {
		return
	}
	if _, ok := refEpoch(tm); ok {
		if isIfaceType(t) {
			return
		}
		// epoch bound known syntactically, still tell the solver
		if tm.Op == "select" {
			return
		}
		return
	}
	if isIfaceType(t) {
		st.assume(Lt(tm, st.allocPtr()))
	} else {
		st.assume(And(Le(Zero, tm), Lt(tm, st.allocPtr())))
	}
}

// learnIface: a non-nil value of a repository interface has one of its
// implementing types (closed world), and is never a typed nil.
func (st *State) learnIface(tm *Term, t types.Type) {
	if _, ok := st.tags[tm]; ok || tm == Zero {
		return
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return
	}
	it := n.Underlying().(*types.Interface)
	if it.NumMethods() == 0 {
		return
	}
	impls := st.x.p.implementers(it)
	if len(impls) == 0 || len(impls) > 60 {
		return
	}
	var alts []*Term
	for _, im := range impls {
		alts = append(alts, Eq(App("tag", SInt, tm), IntT(int64(st.x.p.typeID(im)))))
	}
	st.assume(Or(Eq(tm, Zero), Or(alts...)))
}

// ---------------------------------------------------------------- arithmetic

func (x *Exec) wrap(st *State, r *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return r
	}
	if r.isInt() {
		w := new(big.Int).Set(r.Val)
		mod := new(big.Int).Sub(hi, lo)
		mod.Add(mod, big.NewInt(1))
		w.Sub(w, lo)
		w.Mod(w, mod)
		w.Add(w, lo)
		return BigT(w)
	}
	in := And(Le(BigT(lo), r), Le(r, BigT(hi)))
	if st.knows(in) || x.valid(st, in, 300) {
		return r
	}
	mod := new(big.Int).Sub(hi, lo)
	mod.Add(mod, big.NewInt(1))
	// one wrap in each direction suffices for + and -; general case uses mod
	v := x.freshSym("wrap", SInt)
	q := x.freshSym("wq", SInt)
	st.assume(And(Le(BigT(lo), v), Le(v, BigT(hi))))
	st.assume(Eq(v, Add(r, Mul(BigT(mod), q))))
	st.assume(Implies(in, Eq(v, r)))
	return v
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, t types.Type, opt types.Type, pos token.Pos) Val {
	if op == token.EQL || op == token.NEQ {
		e := x.equal(st, a, b, opt)
		if op == token.NEQ {
			return Not(e)
		}
		return e
	}
	ta, tb := asTerm(a), asTerm(b)
	if sortOf(opt) == SStr {
		switch op {
		case token.ADD:
			r := SConcat(ta, tb)
			st.assume(Le(SLen(r), IntT(maxLen)))
			return r
		case token.LSS:
			return App("strlt", SBool, ta, tb)
		case token.GTR:
			return App("strlt", SBool, tb, ta)
		case token.LEQ:
			return Not(App("strlt", SBool, tb, ta))
		case token.GEQ:
			return Not(App("strlt", SBool, ta, tb))
		}
	}
	if sortOf(opt) == SReal {
		switch op {
		case token.LSS:
			return App("flt", SBool, ta, tb)
		case token.GTR:
			return App("flt", SBool, tb, ta)
		case token.LEQ:
			return App("fle", SBool, ta, tb)
		case token.GEQ:
			return App("fle", SBool, tb, ta)
		}
		return App("fop"+op.String(), SReal, ta, tb)
	}
	switch op {
	case token.LSS:
		return Lt(ta, tb)
	case token.LEQ:
		return Le(ta, tb)
	case token.GTR:
		return Lt(tb, ta)
	case token.GEQ:
		return Le(tb, ta)
	case token.ADD:
		return x.wrap(st, Add(ta, tb), t)
	case token.SUB:
		return x.wrap(st, Sub(ta, tb), t)
	case token.MUL:
		return x.wrap(st, Mul(ta, tb), t)
	case token.QUO, token.REM:
		x.safety(st, Neq(tb, Zero), "division by zero", pos)
		// truncated division
		q := x.freshSym("quo", SInt)
		r := x.freshSym("rem", SInt)
		if tb.isInt() && tb.Val.Sign() != 0 {
			abs := new(big.Int).Abs(tb.Val)
			st.assume(Eq(ta, Add(Mul(tb, q), r)))
			st.assume(And(Lt(r, BigT(abs)), Lt(BigT(new(big.Int).Neg(abs)), r)))
			st.assume(Implies(Le(Zero, ta), Le(Zero, r)))
			st.assume(Implies(Le(ta, Zero), Le(r, Zero)))
		}
		if op == token.QUO {
			return x.wrap(st, q, t)
		}
		return r
	case token.LAND:
		return And(ta, tb)
	case token.LOR:
		return Or(ta, tb)
	case token.SHL:
		if tb.isInt() && tb.Val.IsInt64() && tb.Val.Int64() < 64 {
			return x.wrap(st, Mul(BigT(new(big.Int).Lsh(big.NewInt(1), uint(tb.Val.Int64()))), ta), t)
		}
	case token.SHR:
		if tb.isInt() && tb.Val.IsInt64() && tb.Val.Int64() < 64 {
			d := BigT(new(big.Int).Lsh(big.NewInt(1), uint(tb.Val.Int64())))
			q := x.freshSym("shr", SInt)
			st.assume(And(Le(Mul(d, q), ta), Lt(ta, Add(Mul(d, q), d))))
			return q
		}
	case token.AND:
		if tb.isInt() {
			m := new(big.Int).Add(tb.Val, big.NewInt(1))
			if m.Sign() > 0 && new(big.Int).And(m, tb.Val).Sign() == 0 { // mask 2^k-1
				q := x.freshSym("andq", SInt)
				r := x.freshSym("andr", SInt)
				st.assume(Eq(ta, Add(Mul(BigT(m), q), r)))
				st.assume(And(Le(Zero, r), Lt(r, BigT(m))))
				return r
			}
		}
	}
	// uninterpreted but range respecting
	r := App("op"+op.String(), SInt, ta, tb)
	if lo, hi, ok := intRange(t); ok {
		st.assume(And(Le(BigT(lo), r), Le(r, BigT(hi))))
	}
	return r
}

func (x *Exec) equal(st *State, a, b Val, t types.Type) *Term {
	ca, oka := a.(*Comp)
	cb, okb := b.(*Comp)
	if oka && okb {
		if _, ok := underlying(t).(*types.Slice); ok { // only comparison with nil
			return And(Eq(ca.F[0].(*Term), cb.F[0].(*Term)))
		}
		fa, fb := flatten(ca, t), flatten(cb, t)
		var cs []*Term
		for i := range fa {
			cs = append(cs, Eq(fa[i], fb[i]))
		}
		return And(cs...)
	}
	if aa, ok := a.(*Addr); ok {
		if bt, ok := b.(*Term); ok && bt == Zero {
			return False
		}
		if ab, ok := b.(*Addr); ok && aa.Key == ab.Key && aa.Idx == ab.Idx {
			return Eq(aa.Base, ab.Base)
		}
	}
	if ba, ok := b.(*Addr); ok {
		_ = ba
		if at, ok := a.(*Term); ok && at == Zero {
			return False
		}
	}
	if fv, ok := a.(*FuncVal); ok {
		if bt, ok := b.(*Term); ok && bt == Zero {
			_ = fv
			return False
		}
	}
	ta, tb := asTerm(a), asTerm(b)
	if ta.Sort == SStr {
		if la, ok := st.litFor(ta); ok {
			if lb, ok := st.litFor(tb); ok {
				return BoolT(la == lb)
			}
		}
	}
	return Eq(ta, tb)
}

// litFor finds a literal the path knows t to be equal to.
func (st *State) litFor(t *Term) (string, bool) {
	if s, ok := litOf(t); ok {
		return s, true
	}
	for p := st.pc; p != nil; p = p.parent {
		f := p.fact
		if f.Op == "=" {
			if f.Args[0] == t {
				if s, ok := litOf(f.Args[1]); ok {
					return s, true
				}
			}
			if f.Args[1] == t {
				if s, ok := litOf(f.Args[0]); ok {
					return s, true
				}
			}
		}
	}
	return "", false
}

// ix builds the absolute index of element i of a slice at offset o.
func ix(o, i *Term) *Term {
	if o == Zero {
		return i
	}
	if o.isInt() && i.isInt() {
		return Add(o, i)
	}
	if o.Op == "app" && o.Name == "ix" {
		// ix(ix(a,b),c) = ix(a, b+c)
		return ix(o.Args[0], Add(o.Args[1], i))
	}
	return App("ix", SInt, o, i)
}

// ---------------------------------------------------------------- instructions

func (x *Exec) instr(st *State, fr *Frame, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		v := x.alloc(st, in.Type().(*types.Pointer).Elem())
		if fr.parent == nil && len(st.fresh) > 0 && localUntilReturn(in) {
			if f := &st.fresh[len(st.fresh)-1]; Val(f.ref) == v {
				f.local = true
			}
		}
		st.set(fr.id, in, v)
	case *ssa.BinOp:
		a, b := x.val(st, fr, in.X), x.val(st, fr, in.Y)
		st.set(fr.id, in, x.binop(st, in.Op, a, b, in.Type(), in.X.Type(), in.Pos()))
	case *ssa.UnOp:
		st.set(fr.id, in, x.unop(st, fr, in))
	case *ssa.ChangeInterface:
		st.set(fr.id, in, x.val(st, fr, in.X))
	case *ssa.ChangeType:
		v := x.val(st, fr, in.X)
		if c, ok := v.(*Comp); ok {
			v = &Comp{T: in.Type(), F: c.F}
		}
		st.set(fr.id, in, v)
	case *ssa.Convert:
		st.set(fr.id, in, x.convert(st, x.val(st, fr, in.X), in.X.Type(), in.Type(), in.Pos()))
	case *ssa.Extract:
		v := x.val(st, fr, in.Tuple)
		c, ok := v.(*Comp)
		if !ok {
			x.unsupported(in.Pos(), "extract from %T", v)
		}
		st.set(fr.id, in, c.F[in.Index])
	case *ssa.Field:
		c := x.val(st, fr, in.X).(*Comp)
		st.set(fr.id, in, c.F[in.Field])
	case *ssa.FieldAddr:
		v := x.val(st, fr, in.X)
		x.nilCheck(st, v, in.Pos(), fieldName(in))
		a := x.deref(v, in.X.Type())
		f := underlying(a.T).(*types.Struct).Field(in.Field)
		na := &Addr{Key: a.Key + "." + f.Name(), Base: a.Base, Idx: a.Idx, T: f.Type()}
		// a pointer to a struct-typed field denotes an interior object
		st.set(fr.id, in, na)
	case *ssa.IndexAddr:
		v := x.val(st, fr, in.X)
		i := x.term(st, fr, in.Index)
		switch u := underlying(in.X.Type()).(type) {
		case *types.Slice:
			c := v.(*Comp)
			x.safety(st, And(Le(Zero, i), Lt(i, c.F[2].(*Term))), "index out of range", in.Pos())
			st.set(fr.id, in, &Addr{Key: x.elemKey(u.Elem()), Base: c.F[0].(*Term), Idx: ix(c.F[1].(*Term), i), T: u.Elem()})
		case *types.Pointer:
			at := underlying(u.Elem()).(*types.Array)
			x.safety(st, And(Le(Zero, i), Lt(i, IntT(at.Len()))), "index out of range", in.Pos())
			switch b := v.(type) {
			case *Term:
				st.set(fr.id, in, &Addr{Key: x.elemKey(at.Elem()), Base: b, Idx: i, T: at.Elem()})
			case *Addr:
				st.set(fr.id, in, &Addr{Key: b.Key + "[]", Base: b.Base, Idx: i, T: at.Elem()})
			default:
				x.unsupported(in.Pos(), "index of array pointer")
			}
		default:
			x.unsupported(in.Pos(), "IndexAddr on %s", in.X.Type())
		}
	case *ssa.Index:
		if !isString(in.X.Type()) {
			x.unsupported(in.Pos(), "array index")
		}
		str, i := x.term(st, fr, in.X), x.term(st, fr, in.Index)
		x.safety(st, And(Le(Zero, i), Lt(i, SLen(str))), "string index out of range", in.Pos())
		st.set(fr.id, in, SAt(str, i))
	case *ssa.MakeInterface:
		v := x.val(st, fr, in.X)
		st.set(fr.id, in, x.makeIface(st, v, in.X.Type(), in.Pos()))
	case *ssa.MakeMap:
		st.set(fr.id, in, x.makeMap(st, in.Type()))
	case *ssa.MapUpdate:
		mt := underlying(in.Map.Type()).(*types.Map)
		m := x.term(st, fr, in.Map)
		x.safety(st, Neq(m, Zero), "assignment to entry in nil map", in.Pos())
		x.mapGuard(st, m, true, in.Pos())
		k := x.boxKey(st, x.val(st, fr, in.Key), mt.Key())
		x.mapStore(st, mt, m, k, x.val(st, fr, in.Value))
	case *ssa.MakeSlice:
		st.set(fr.id, in, x.makeSlice(st, in.Type(), x.term(st, fr, in.Len), x.term(st, fr, in.Cap), in.Pos()))
	case *ssa.MakeChan:
		st.set(fr.id, in, st.newRef(in.Type()))
	case *ssa.MakeClosure:
		fv := &FuncVal{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			fv.Bind = append(fv.Bind, x.val(st, fr, b))
		}
		st.set(fr.id, in, fv)
	case *ssa.Slice:
		st.set(fr.id, in, x.slice(st, fr, in))
	case *ssa.Store:
		a := x.deref(x.val(st, fr, in.Addr), in.Addr.Type())
		if t, ok := x.val(st, fr, in.Addr).(*Term); ok {
			x.nilCheck(st, t, in.Pos(), "store")
		}
		x.guardCheck(st, a, true)
		v := x.val(st, fr, in.Val)
		st.storeAddr(a, v)
	case *ssa.TypeAssert:
		st.set(fr.id, in, x.typeAssert(st, fr, in))
	case *ssa.Range:
		st.set(fr.id, in, x.rangeStart(st, fr, in))
	case *ssa.Next:
		st.set(fr.id, in, x.next(st, fr, in))
	case *ssa.Defer:
		d := &deferred{call: in}
		for _, a := range in.Call.Args {
			d.args = append(d.args, x.val(st, fr, a))
		}
		d.fn = x.val(st, fr, in.Call.Value)
		st.defers[fr.id] = append(st.defers[fr.id], d)
	case *ssa.Go:
		x.goStmt(st, fr, in)
	case *ssa.Send:
		x.ghostEvent(st, "send")
	default:
		x.unsupported(in.Pos(), "instruction %T", in)
	}
}

func fieldName(in *ssa.FieldAddr) string {
	t := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return t.Field(in.Field).Name()
}

// localUntilReturn: the allocated object is only accessed through its fields
// and returned, so no other code sees it before the function returns.
func localUntilReturn(a *ssa.Alloc) bool {
	seen := map[ssa.Value]bool{}
	var ok func(v ssa.Value, addr bool) bool
	ok = func(v ssa.Value, addr bool) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch in := r.(type) {
			case *ssa.FieldAddr:
				if !ok(in, true) {
					return false
				}
			case *ssa.UnOp:
				if in.Op != token.MUL {
					return false
				}
			case *ssa.Store:
				if in.Val == v {
					return false
				}
			case *ssa.Return, *ssa.DebugRef:
				if addr {
					if _, isRet := r.(*ssa.Return); isRet {
						return false
					}
				}
			case *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Phi:
				if addr || !ok(r.(ssa.Value), false) {
					return false
				}
			case *ssa.BinOp:
			default:
				return false
			}
		}
		return true
	}
	return ok(a, false)
}

func (x *Exec) alloc(st *State, el types.Type) Val {
	r := st.newRef(types.NewPointer(el))
	st.learnAlloc(r, types.NewPointer(el))
	if at, ok := underlying(el).(*types.Array); ok {
		key := x.elemKey(at.Elem())
		x.leafKeys(key, at.Elem(), 2)
		for i, k := range x.leafKeys(key, at.Elem(), 2) {
			h := st.H(k)
			z := flatten(zeroVal(at.Elem()), at.Elem())[i]
			st.setH(k, Store(h, r, ConstArr(elemSort(h.Sort), z)))
		}
		return r
	}
	if _, ok := underlying(el).(*types.Struct); ok {
		if isOpaqueStruct(el) {
			x.regKey("sync.lock#lk", SInt, 1, false, false, nil)
			st.setH("sync.lock#lk", Store(st.H("sync.lock#lk"), r, Zero))
		} else {
			x.zeroStruct(st, structKey(el), r, el)
		}
		for _, g := range x.sp.ghostFields(structKey(el)) {
			x.sp.regGhost(x, g)
			h := st.H(g.key)
			st.setH(g.key, Store(h, r, zeroTerm(elemSort(h.Sort))))
		}
		return r
	}
	a := &Addr{Key: "*" + typeName(el), Base: r, T: el}
	if len(leaves(el)) > 0 {
		st.storeAddr(a, zeroVal(el))
	}
	return r
}

func (st *State) learnAlloc(r *Term, t types.Type) {
	st.tags[r] = t
	st.assume(Eq(App("tag", SInt, r), IntT(int64(st.x.p.typeID(t)))))
}

func (x *Exec) zeroStruct(st *State, key string, r *Term, el types.Type) {
	u := underlying(el).(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if len(leaves(f.Type())) == 0 {
			if _, ok := underlying(f.Type()).(*types.Struct); ok {
				lk := key + "." + f.Name() + "#lk"
				x.regKey(lk, SInt, 1, false, false, nil)
				st.setH(lk, Store(st.H(lk), r, Zero))
				if typeName(f.Type()) == "sync.Map" {
					dk, _, _ := x.syncMapKeys(&Addr{Key: key + "." + f.Name(), Base: r, T: f.Type()})
					e := ConstArr(ArrSort(SInt, SBool), False)
					st.setH(dk, Store(st.H(dk), r, e))
					st.assume(Eq(cardT(e), Zero))
				}
			}
			continue
		}
		a := &Addr{Key: key + "." + f.Name(), Base: r, T: f.Type()}
		st.storeAddr(a, zeroVal(f.Type()))
	}
}

func (x *Exec) unop(st *State, fr *Frame, in *ssa.UnOp) Val {
	v := x.val(st, fr, in.X)
	switch in.Op {
	case token.MUL:
		if t, ok := v.(*Term); ok {
			x.nilCheck(st, t, in.Pos(), "load")
		}
		a := x.deref(v, in.X.Type())
		r := x.load(st, a)
		x.noteGuard(st, a, r)
		return r
	case token.NOT:
		return Not(asTerm(v))
	case token.SUB:
		if sortOf(in.Type()) == SReal {
			return App("fneg", SReal, asTerm(v))
		}
		return x.wrap(st, Neg(asTerm(v)), in.Type())
	case token.XOR:
		if b, ok := underlying(in.Type()).(*types.Basic); ok && b.Info()&types.IsUnsigned == 0 {
			return Sub(IntT(-1), asTerm(v))
		}
		lo, hi, _ := intRange(in.Type())
		_ = lo
		return Sub(BigT(hi), asTerm(v))
	case token.ARROW:
		x.ghostEvent(st, "recv")
		if in.CommaOk {
			ct := underlying(in.X.Type()).(*types.Chan)
			e := st.freshVal(ct.Elem(), "recv")
			return &Comp{T: in.Type(), F: []Val{e, x.freshSym("ok", SBool)}}
		}
		e := st.freshVal(in.Type(), "recv")
		st.learn(e, in.Type())
		return e
	}
	x.unsupported(in.Pos(), "unop %s", in.Op)
	return nil
}

func isByteSlice(t types.Type) bool {
	s, ok := underlying(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := underlying(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isString(t types.Type) bool {
	b, ok := underlying(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (x *Exec) convert(st *State, v Val, from, to types.Type, pos token.Pos) Val {
	switch {
	case isString(from) && isByteSlice(to):
		s := v.(*Term)
		return x.bytesOf(st, s, to)
	case isByteSlice(from) && isString(to):
		c := v.(*Comp)
		return x.stringOf(st, c)
	case isString(from) && isString(to):
		return v
	}
	fb, ok1 := underlying(from).(*types.Basic)
	tb, ok2 := underlying(to).(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		return x.wrap(st, v.(*Term), to)
	}
	if ok1 && ok2 && fb.Info()&types.IsInteger != 0 && isString(to) {
		return App("runestr", SStr, v.(*Term))
	}
	if ok1 && ok2 && (fb.Info()&types.IsNumeric != 0) && (tb.Info()&types.IsNumeric != 0) {
		r := x.freshSym("conv", sortOf(to))
		if lo, hi, ok := intRange(to); ok {
			st.assume(And(Le(BigT(lo), r), Le(r, BigT(hi))))
		}
		return r
	}
	if types.Identical(underlying(from), underlying(to)) {
		return v
	}
	x.unsupported(pos, "convert %s -> %s", from, to)
	return nil
}

// bytesOf: a fresh byte slice with the contents of s.
func (x *Exec) bytesOf(st *State, s *Term, t types.Type) *Comp {
	r := st.newMem()
	key := "[]uint8"
	x.regKey(key, SInt, 2, false, false, types.Typ[types.Uint8])
	h := st.H(key)
	st.setH(key, Store(h, r, BytesOf(s)))
	n := SLen(s)
	st.assume(And(Le(Zero, n), Le(n, IntT(maxLen))))
	return &Comp{T: t, F: []Val{r, Zero, n, n}}
}

func (x *Exec) stringOf(st *State, c *Comp) *Term {
	key := "[]uint8"
	x.regKey(key, SInt, 2, false, false, types.Typ[types.Uint8])
	a := Select(st.H(key), c.F[0].(*Term))
	return SOfBytes(a, c.F[1].(*Term), c.F[2].(*Term))
}

func (x *Exec) makeIface(st *State, v Val, t types.Type, pos token.Pos) Val {
	if isIfaceType(t) {
		return v
	}
	switch vv := v.(type) {
	case *Term:
		switch underlying(t).(type) {
		case *types.Pointer:
			if !isAllocTerm(vv) && !st.nonnil[vv] && x.mayNil == 0 {
				// a nil pointer stored in an interface is not a nil interface
				x.safety(st, Neq(vv, Zero), "nil pointer converted to interface", pos)
				st.nonnil[vv] = true
			}
			st.learnPtr(vv, t)
			return vv
		case *types.Map, *types.Chan, *types.Signature:
			b := App("boxr!"+typeName(t), SInt, vv)
			st.boxFacts(b, t)
			return b
		}
		b := x.box(vv, t)
		st.boxFacts(b, t)
		return b
	case *FuncVal:
		return x.freshSym("boxfn", SInt)
	case *Addr:
		// pointer to an interior object: opaque non-nil reference
		b := App("boxaddr!"+vv.Key, SInt, vv.Base)
		st.boxFacts(b, t)
		return b
	case *Comp:
		b := x.freshSym("boxc", SInt)
		st.boxFacts(b, t)
		return b
	}
	x.unsupported(pos, "MakeInterface of %T", v)
	return nil
}

func (st *State) boxFacts(b *Term, t types.Type) {
	st.tags[b] = t
	st.assume(Lt(b, Zero))
	st.nonnil[b] = true
	st.assume(Eq(App("tag", SInt, b), IntT(int64(st.x.p.typeID(t)))))
}

// box is an injective encoding of scalar values into negative references.
func (x *Exec) box(v *Term, t types.Type) *Term {
	name := "box!" + typeName(t)
	un := "unbox!" + typeName(t)
	if _, ok := gdecls.sig(name); !ok {
		gdecls.fn(name, SInt, v.Sort)
		gdecls.fn(un, v.Sort, SInt)
		a := Var("bx", v.Sort)
		b := App(name, SInt, a)
		gdecls.axiom(name, Forall([]*Term{a}, [][]*Term{{b}}, And(Lt(b, Zero), Eq(App(un, v.Sort, b), a))))
	}
	return App(name, SInt, v)
}

func (x *Exec) unbox(v *Term, t types.Type) *Term {
	if v.Op == "app" && v.Name == "box!"+typeName(t) {
		return v.Args[0]
	}
	x.box(zeroTerm(sortOf(t)), t)
	return App("unbox!"+typeName(t), sortOf(t), v)
}

// implTags: condition that v's dynamic type implements / is t.
func (x *Exec) hasType(st *State, v *Term, t types.Type) *Term {
	if v == Zero {
		return False
	}
	if ct, ok := st.tags[v]; ok && st.isNonNil(v) {
		return BoolT(x.typeMatches(ct, t))
	}
	if ct, ok := st.tags[v]; ok {
		if x.typeMatches(ct, t) {
			return Neq(v, Zero)
		}
		return False
	}
	if it, ok := underlying(t).(*types.Interface); ok {
		if it.NumMethods() == 0 {
			return Neq(v, Zero)
		}
		var alts []*Term
		for _, im := range x.p.implementers(it) {
			alts = append(alts, Eq(App("tag", SInt, v), IntT(int64(x.p.typeID(im)))))
		}
		return And(Neq(v, Zero), Or(alts...))
	}
	return And(Neq(v, Zero), Eq(App("tag", SInt, v), IntT(int64(x.p.typeID(t)))))
}

func (st *State) isNonNil(v *Term) bool {
	return st.nonnil[v] || isAllocTerm(v) || st.knows(Neq(v, Zero))
}

func (x *Exec) typeMatches(ct, t types.Type) bool {
	if it, ok := underlying(t).(*types.Interface); ok {
		return types.Implements(ct, it)
	}
	return types.Identical(ct, t)
}

func (x *Exec) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert) Val {
	v := x.term(st, fr, in.X)
	c := x.hasType(st, v, in.AssertedType)
	var r Val
	t := in.AssertedType
	conv := func() Val {
		if isIfaceType(t) {
			return v
		}
		if _, ok := underlying(t).(*types.Pointer); ok {
			return v
		}
		if !isScalar(t) {
			return st.freshVal(t, "assert")
		}
		u := x.unbox(v, t)
		if lo, hi, ok := intRange(t); ok && !u.isInt() {
			st.assume(And(Le(BigT(lo), u), Le(u, BigT(hi))))
		}
		return u
	}
	if in.CommaOk {
		r = conv()
		z := zeroVal(t)
		if rt, ok := r.(*Term); ok {
			r = Ite(c, rt, z.(*Term))
			if rr := r.(*Term); rr != rt && rr.Op == "ite" {
				// name the result to keep references simple
				nm := x.freshSym("as", rr.Sort)
				st.assume(Eq(nm, rr))
				// keep epoch knowledge through the original when feasible
				r = nm
				if isRefType(t) {
					st.boundRef(nm, t)
				}
			}
		}
		return &Comp{T: in.Type(), F: []Val{r, c}}
	}
	x.safety(st, c, "type assertion to "+typeName(t)+" may fail", in.Pos())
	r = conv()
	if rt, ok := r.(*Term); ok && isRefType(t) {
		if _, ok := underlying(t).(*types.Pointer); ok {
			st.tags[rt] = t
		}
		st.nonnil[rt] = true
	}
	return r
}

// ---------------------------------------------------------------- slices

func (x *Exec) makeSlice(st *State, t types.Type, n, c *Term, pos token.Pos) Val {
	x.safety(st, And(Le(Zero, n), Le(n, c), Le(c, IntT(maxLen))), "makeslice: length out of range", pos)
	el := underlying(t).(*types.Slice).Elem()
	r := st.newMem(el)
	key := x.elemKey(el)
	zs := flatten(zeroVal(el), el)
	for i, k := range x.leafKeys(key, el, 2) {
		h := st.H(k)
		st.setH(k, Store(h, r, ConstArr(elemSort(h.Sort), zs[i])))
	}
	return &Comp{T: t, F: []Val{r, Zero, n, c}}
}

func (x *Exec) slice(st *State, fr *Frame, in *ssa.Slice) Val {
	v := x.val(st, fr, in.X)
	opt := func(e ssa.Value, def *Term) *Term {
		if e == nil {
			return def
		}
		return x.term(st, fr, e)
	}
	switch u := underlying(in.X.Type()).(type) {
	case *types.Basic: // string
		s := v.(*Term)
		lo := opt(in.Low, Zero)
		hi := opt(in.High, SLen(s))
		x.safety(st, And(Le(Zero, lo), Le(lo, hi), Le(hi, SLen(s))), "string slice bounds", in.Pos())
		return SSub(s, lo, hi)
	case *types.Slice:
		c := v.(*Comp)
		a, o, n, cp := c.F[0].(*Term), c.F[1].(*Term), c.F[2].(*Term), c.F[3].(*Term)
		lo := opt(in.Low, Zero)
		hi := opt(in.High, n)
		mx := opt(in.Max, cp)
		x.safety(st, And(Le(Zero, lo), Le(lo, hi), Le(hi, mx), Le(mx, cp)), "slice bounds", in.Pos())
		no := o
		if lo != Zero {
			no = ix(o, lo)
			if o == Zero {
				no = lo
			}
		}
		return &Comp{T: in.Type(), F: []Val{a, no, Sub(hi, lo), Sub(mx, lo)}}
	case *types.Pointer:
		at := underlying(u.Elem()).(*types.Array)
		r, ok := v.(*Term)
		if !ok {
			// array field of a struct, e.g. backing store: opaque contents
			x.unsupported(in.Pos(), "slice of interior array")
		}
		n := IntT(at.Len())
		lo := opt(in.Low, Zero)
		hi := opt(in.High, n)
		x.safety(st, And(Le(Zero, lo), Le(lo, hi), Le(hi, n)), "slice bounds", in.Pos())
		return &Comp{T: in.Type(), F: []Val{r, lo, Sub(hi, lo), Sub(n, lo)}}
	}
	x.unsupported(in.Pos(), "slice of %s", in.X.Type())
	return nil
}

// appendVal models append(s, src...).
func (x *Exec) appendVal(st *State, s *Comp, t types.Type, srcLen *Term, srcIsStr *Term, src *Comp) *Comp {
	el := underlying(t).(*types.Slice).Elem()
	a, o, n, cp := s.F[0].(*Term), s.F[1].(*Term), s.F[2].(*Term), s.F[3].(*Term)
	if srcLen == Zero {
		return s
	}
	key := x.elemKey(el)
	keys := x.leafKeys(key, el, 2)
	newN := Add(n, srcLen)
	st.assume(Le(newN, IntT(maxLen)))
	fits := Le(newN, cp)
	fr := st.newMem(el)
	arr := fr
	newCap := x.freshSym("cap", SInt)
	if a == Zero || cp == Zero || x.valid(st, Not(fits), 200) {
		st.assume(And(Le(newN, newCap), Le(newCap, IntT(2*maxLen))))
	} else if x.valid(st, fits, 200) {
		arr = a
		st.assume(Eq(newCap, cp))
	} else {
		st.sealAlloc()
		x.nFresh++
		nm2 := Sym(fmt.Sprintf("%s!apparr!%d@e%d", x.uid, x.nFresh, epochNum(st.A)), SInt)
		st.assume(Eq(nm2, Ite(fits, a, fr)))
		st.assume(Lt(Zero, nm2))
		st.nonnil[nm2] = true
		st.assume(Implies(fits, Eq(newCap, cp)))
		st.assume(And(Le(newN, newCap), Le(newCap, IntT(2*maxLen))))
		arr = nm2
	}
	for _, k := range keys {
		h := st.H(k)
		var content *Term
		base := Select(h, a)
		if a == Zero {
			base = Select(h, fr) // arbitrary
		}
		if src != nil && srcLen.isInt() && srcLen.Val.Int64() <= 8 {
			content = base
			sb := Select(h, src.F[0].(*Term))
			for j := int64(0); j < srcLen.Val.Int64(); j++ {
				e := Select(sb, ix(src.F[1].(*Term), IntT(j)))
				content = Store(content, ix(o, Add(n, IntT(j))), e)
			}
		} else {
			// bulk append: fresh content with quantified relation
			content = x.freshSym("bulk", elemSort(h.Sort))
			j := Var("j", SInt)
			var srcElem func(*Term) *Term
			if srcIsStr != nil {
				srcElem = func(q *Term) *Term { return SAt(srcIsStr, q) }
			} else {
				sb := Select(h, src.F[0].(*Term))
				srcElem = func(q *Term) *Term { return Select(sb, ix(src.F[1].(*Term), q)) }
			}
			ci := mk("select", elemSort(content.Sort), content, ix(o, j))
			st.assume(Forall([]*Term{j}, [][]*Term{{ci}}, And(
				Implies(And(Le(Zero, j), Lt(j, n)), Eq(ci, Select(base, ix(o, j)))),
				Implies(And(Le(n, j), Lt(j, newN)), Eq(ci, srcElem(Sub(j, n)))))))
			se := srcElem(j)
			if len(se.fvs) > 0 {
				st.assume(Forall([]*Term{j}, [][]*Term{{se}}, Implies(And(Le(Zero, j), Lt(j, srcLen)),
					Eq(Select(content, ix(o, Add(n, j))), se))))
			}
			if k == "[]uint8" && o == Zero {
				// string view of the concatenation
				var s2 *Term
				if srcIsStr != nil {
					s2 = srcIsStr
				} else {
					s2 = SOfBytes(Select(h, src.F[0].(*Term)), src.F[1].(*Term), srcLen)
				}
				s1 := SOfBytes(base, o, n)
				if n == Zero {
					s1 = StrLit("")
				}
				st.assume(Eq(SOfBytes(content, o, newN), SConcat(s1, s2)))
			}
		}
		st.setH(k, Store(h, arr, content))
		st.writes = append(st.writes, heapWrite{k, arr, nil})
	}
	return &Comp{T: t, F: []Val{arr, o, newN, newCap}}
}

// ---------------------------------------------------------------- maps

func mapKeyName(mt *types.Map) string {
	return "M:" + typeName(mt.Key()) + ":" + typeName(mt.Elem())
}

func (x *Exec) mapKeys(mt *types.Map) (dom string, vals []string) {
	pre := mapKeyName(mt)
	ks := x.keySort(mt.Key())
	dom = pre + "#dom"
	if _, ok := x.keys[dom]; !ok {
		x.keys[dom] = keyInfo{ArrSort(SInt, ArrSort(ks, SBool)), false, false, nil}
	}
	for _, l := range leaves(mt.Elem()) {
		k := pre + "#val" + l.suffix
		if _, ok := x.keys[k]; !ok {
			x.keys[k] = keyInfo{ArrSort(SInt, ArrSort(ks, l.sort)), l.kind == 'a' || (l.kind == 0 && isRefType(l.typ)), l.typ != nil && isIfaceType(l.typ), l.typ}
		}
		vals = append(vals, k)
	}
	return
}

func (x *Exec) keySort(t types.Type) Sort {
	if !isScalar(t) {
		panic(unsupported{"map key type " + t.String()})
	}
	return sortOf(t)
}

func (x *Exec) boxKey(st *State, v Val, t types.Type) *Term { return asTerm(v) }

func cardT(dom *Term) *Term {
	if strings.Contains(dom.Sort, "Str") {
		return App("card", SInt, dom)
	}
	return App("card!"+dom.Sort, SInt, dom)
}

func (x *Exec) mapDom(st *State, mt *types.Map, m *Term) *Term {
	d, _ := x.mapKeys(mt)
	if m == Zero {
		return ConstArr(ArrSort(x.keySort(mt.Key()), SBool), False)
	}
	return Select(st.H(d), m)
}

func (x *Exec) makeMap(st *State, t types.Type) Val {
	mt := underlying(t).(*types.Map)
	r := st.newMem(t)
	d, vs := x.mapKeys(mt)
	h := st.H(d)
	e := ConstArr(elemSort(h.Sort), False)
	st.setH(d, Store(h, r, e))
	st.assume(Eq(cardT(e), Zero))
	for _, v := range vs {
		h := st.H(v)
		s := elemSort(h.Sort)
		st.setH(v, Store(h, r, ConstArr(s, zeroTerm(elemSort(s)))))
	}
	for _, g := range x.sp.ghostFields("map") {
		x.sp.regGhost(x, g)
		h := st.H(g.key)
		st.setH(g.key, Store(h, r, zeroTerm(elemSort(h.Sort))))
	}
	return r
}

func (st *State) cardStep(d, k *Term, add bool) *Term {
	nd := Store(d, k, BoolT(add))
	c, nc := cardT(d), cardT(nd)
	if add {
		st.assume(Eq(nc, Add(c, Ite(Select(d, k), Zero, One))))
	} else {
		st.assume(Eq(nc, Sub(c, Ite(Select(d, k), One, Zero))))
	}
	st.assume(Le(Zero, c))
	return nd
}

func (x *Exec) mapStore(st *State, mt *types.Map, m, k *Term, v Val) {
	d, vs := x.mapKeys(mt)
	h := st.H(d)
	nd := st.cardStep(Select(h, m), k, true)
	st.setH(d, Store(h, m, nd))
	st.writes = append(st.writes, heapWrite{d, m, nil})
	ts := flatten(v, mt.Elem())
	for i, vk := range vs {
		hv := st.H(vk)
		st.setH(vk, Store(hv, m, Store(Select(hv, m), k, ts[i])))
		st.writes = append(st.writes, heapWrite{vk, m, nil})
	}
}

func (x *Exec) mapDelete(st *State, mt *types.Map, m, k *Term) {
	if m == Zero {
		return
	}
	d, _ := x.mapKeys(mt)
	h := st.H(d)
	nd := st.cardStep(Select(h, m), k, false)
	// deleting from a nil map is a no-op; its domain is empty anyway
	st.setH(d, Store(h, m, nd))
	st.writes = append(st.writes, heapWrite{d, m, nil})
}

func (x *Exec) mapVal(st *State, mt *types.Map, m, k *Term) Val {
	_, vs := x.mapKeys(mt)
	i := 0
	return build(mt.Elem(), func(suf string, l leaf) *Term {
		t := Select(Select(st.H(vs[i]), m), k)
		i++
		return t
	})
}

func (x *Exec) lookup(st *State, fr *Frame, in *ssa.Lookup, k func(*State, Val)) {
	if isString(in.X.Type()) {
		s := x.term(st, fr, in.X)
		i := x.term(st, fr, in.Index)
		x.safety(st, And(Le(Zero, i), Lt(i, SLen(s))), "string index out of range", in.Pos())
		k(st, SAt(s, i))
		return
	}
	mt := underlying(in.X.Type()).(*types.Map)
	if g := x.constMap(fr, in.X); g != nil {
		key := x.term(st, fr, in.Index)
		x.constLookup(st, g, key, in, k)
		return
	}
	m := x.term(st, fr, in.X)
	x.mapGuard(st, m, false, in.Pos())
	key := x.boxKey(st, x.val(st, fr, in.Index), mt.Key())
	has := And(Neq(m, Zero), Select(x.mapDom(st, mt, m), key))
	present := func(s *State) Val {
		v := x.mapVal(s, mt, m, key)
		s.wfLoaded(v, mt.Elem())
		s.learn(v, mt.Elem())
		if in.CommaOk {
			return &Comp{T: in.Type(), F: []Val{v, True}}
		}
		return v
	}
	absent := func(s *State) Val {
		if in.CommaOk {
			return &Comp{T: in.Type(), F: []Val{zeroVal(mt.Elem()), False}}
		}
		return zeroVal(mt.Elem())
	}
	x.branch(st, has, func(s *State, t bool) {
		if t {
			k(s, present(s))
		} else {
			k(s, absent(s))
		}
	}, x.p.pos(in.Pos())+":has")
}

// ---------------------------------------------------------------- range

func (x *Exec) rangeStart(st *State, fr *Frame, in *ssa.Range) Val {
	mt, ok := underlying(in.X.Type()).(*types.Map)
	if !ok {
		x.unsupported(in.Pos(), "range over string")
	}
	m := x.term(st, fr, in.X)
	x.mapGuard(st, m, false, in.Pos())
	d := x.mapDom(st, mt, m)
	n := cardT(d)
	if m != Zero {
		n = Ite(Eq(m, Zero), Zero, n)
	}
	x.nIter++
	id := x.nIter
	ks := x.keySort(mt.Key())
	kf, pf := fmt.Sprintf("%s!rk!%d", x.uid, id), fmt.Sprintf("%s!rp!%d", x.uid, id)
	if isRefType(mt.Key()) {
		st.sealAlloc()
		kf = fmt.Sprintf("%s@e%d", kf, epochNum(st.A))
	}
	gdecls.fn(kf, ks, SInt)
	gdecls.fn(pf, SInt, ks)
	i := Var("ri", SInt)
	kv := Var("rkk", ks)
	ki := App(kf, ks, i)
	st.assume(Le(Zero, n))
	st.assume(Forall([]*Term{i}, [][]*Term{{ki}}, Implies(And(Le(Zero, i), Lt(i, n)), And(Select(d, ki), Eq(App(pf, SInt, ki), i)))))
	pk := App(pf, SInt, kv)
	dk := mk("select", SBool, d, kv)
	trigs := [][]*Term{{pk}}
	if d.Op != "constarr" {
		trigs = append(trigs, []*Term{dk})
	}
	st.assume(Forall([]*Term{kv}, trigs, Implies(And(Neq(m, Zero), Select(d, kv)), And(Le(Zero, pk), Lt(pk, n), Eq(App(kf, ks, pk), kv)))))
	st.iters[id] = &iterState{mapRef: m, mapT: mt, dom: d, keyFn: kf, posFn: pf, idx: Zero, n: n}
	return &IterVal{id}
}

func (x *Exec) next(st *State, fr *Frame, in *ssa.Next) Val {
	iv := x.val(st, fr, in.Iter).(*IterVal)
	it := st.iters[iv.id]
	d := x.mapDom(st, it.mapT, it.mapRef)
	if d != it.dom {
		if !x.valid(st, Eq(d, it.dom), 1000) {
			x.unsupported(in.Pos(), "map modified while ranged over")
		}
	}
	ks := x.keySort(it.mapT.Key())
	ok := Lt(it.idx, it.n)
	key := App(it.keyFn, ks, it.idx)
	v := x.mapVal(st, it.mapT, it.mapRef, key)
	// facts hold only when ok; values are used only then
	s2 := st
	if tv, isT := v.(*Term); isT && isRefType(it.mapT.Elem()) {
		if _, okk := refEpoch(tv); !okk {
			s2.assume(Implies(ok, Lt(tv, st.allocPtr())))
		}
		if !isIfaceType(it.mapT.Elem()) {
			if pt, okp := underlying(it.mapT.Elem()).(*types.Pointer); okp {
				if _, oks := underlying(pt.Elem()).(*types.Struct); oks {
					s2.assume(Implies(And(ok, Neq(tv, Zero)), Eq(App("tag", SInt, tv), IntT(int64(x.p.typeID(it.mapT.Elem()))))))
				}
			}
		}
	}
	it.idx = Ite(ok, Add(it.idx, One), it.idx)
	st.assume(Implies(ok, Select(it.dom, key)))
	// simplify idx on each branch lazily: keep ite
	tt := in.Type().(*types.Tuple)
	return &Comp{T: tt, F: []Val{ok, key, v}}
}

// ---------------------------------------------------------------- locks / guards / ghosts

func (x *Exec) ghostEvent(st *State, what string) {}

func sortedStrs(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
