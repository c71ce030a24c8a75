package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var funcMu sync.Mutex

// call dispatches a call instruction.
func (x *Exec) call(st *State, fr *Frame, instr ssa.Instruction, cc *ssa.CallCommon, k func(*State, Val)) {
	pos := instr.Pos()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		x.builtin(st, fr, b, cc, instr, k)
		return
	}
	var args []Val
	if cc.IsInvoke() {
		recv := x.term(st, fr, cc.Value)
		for _, a := range cc.Args {
			args = append(args, x.val(st, fr, a))
		}
		x.invoke(st, fr, recv, cc.Value.Type(), cc.Method, args, resultType(cc.Signature()), pos, k)
		return
	}
	for _, a := range cc.Args {
		args = append(args, x.val(st, fr, a))
	}
	if fn := cc.StaticCallee(); fn != nil {
		var bind []Val
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			fv := x.val(st, fr, mc).(*FuncVal)
			bind = fv.Bind
		}
		x.callFn(st, fr, fn, args, bind, pos, k)
		return
	}
	// dynamic function value
	v := x.val(st, fr, cc.Value)
	x.callDyn(st, fr, v, args, resultType(cc.Signature()), pos, k)
}

func resultType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return types.NewTuple()
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (x *Exec) callDyn(st *State, fr *Frame, v Val, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
	switch f := v.(type) {
	case *FuncVal:
		x.callFn(st, fr, f.Fn, args, f.Bind, pos, k)
		return
	case *Term:
		if f.Op == "sym" && strings.HasPrefix(f.Name, "fn!") {
			funcMu.Lock()
			fv := funcRefs[f.Name]
			funcMu.Unlock()
			if fv != nil {
				x.callFn(st, fr, fv.Fn, args, fv.Bind, pos, k)
				return
			}
		}
	}
	x.unsupported(pos, "call of unknown function value")
}

// callFn calls a known function.
func (x *Exec) callFn(st *State, fr *Frame, fn *ssa.Function, args []Val, bind []Val, pos token.Pos, k func(*State, Val)) {
	name := x.p.fnName(fn)
	if name == "" {
		name = fn.String()
	}
	if c := x.sp.con[name]; c != nil && !c.Inline && x.sees(c) && !(x.unit != nil && x.unit.con == c && fr == nil) {
		x.callContract(st, fr, c, fn, args, pos, k)
		return
	}
	if x.model(st, fr, fn, name, args, pos, k) {
		return
	}
	if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) || fn.Synthetic != "" || (fn.Parent() != nil) {
		if len(fn.Blocks) > 0 {
			x.inl[name] = true
			sig := fn.Signature
			x.runFunc(st, fn, args, bind, fr, func(s *State, rets []Val) {
				k(s, packResults(rets, resultType(sig)))
			})
			return
		}
	}
	x.unsupported(pos, "call of external function %s without a model", name)
}

func packResults(rets []Val, t types.Type) Val {
	if len(rets) == 1 {
		return rets[0]
	}
	return &Comp{T: t, F: rets}
}

// sees: the contract stands for the function where it is called; a scoped
// contract does so only in the units it names, elsewhere the code is inlined.
func (x *Exec) sees(c *Contract) bool {
	return c.Scope == nil || x.unit == nil || c.Scope.MatchString(x.unit.con.Name)
}

// invoke performs dynamic dispatch.
func (x *Exec) invoke(st *State, fr *Frame, recv *Term, it types.Type, m *types.Func, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
	iname := ifaceName(it)
	// interface-level contract or model first
	c := x.sp.con[iname+"."+m.Name()]
	if r := m.Type().(*types.Signature).Recv(); c == nil && r != nil {
		c = x.sp.con[typeName(r.Type())+"."+m.Name()] // the interface that declares the method
	}
	if c != nil && x.sees(c) {
		x.nilCheckTerm(st, recv, pos, "call of "+m.Name()+" on nil interface")
		x.callContractSig(st, fr, c, nil, m.Type().(*types.Signature), it, append([]Val{recv}, args...), pos, k)
		return
	}
	x.nilCheckTerm(st, recv, pos, "call of "+m.Name()+" on nil interface")
	if x.invokeModel(st, fr, recv, iname, m, args, rt, pos, k) {
		return
	}
	callOn := func(s *State, t types.Type) {
		sel := x.p.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
		if sel == nil {
			x.unsupported(pos, "method %s not found on %s", m.Name(), t)
		}
		fn := x.p.prog.MethodValue(sel)
		r := Val(recv)
		if _, isPtr := underlying(t).(*types.Pointer); !isPtr {
			if isScalar(t) {
				r = x.unbox(recv, t)
			} else {
				r = s.freshVal(t, "recv")
			}
		}
		x.callFn(s, fr, fn, append([]Val{r}, args...), nil, pos, k)
	}
	if t, ok := st.tags[recv]; ok {
		callOn(st, t)
		return
	}
	iface, _ := underlying(it).(*types.Interface)
	impls := x.p.implementers(iface)
	if len(impls) == 0 {
		x.unsupported(pos, "no implementation of %s for %s", iname, m.Name())
	}
	var alts []*Term
	for _, im := range impls {
		alts = append(alts, Eq(App("tag", SInt, recv), IntT(int64(x.p.typeID(im)))))
	}
	if !strings.HasPrefix(iname, "error") {
		st.assume(Or(alts...))
	}
	x.fork(st, alts, func(s *State, i int) {
		s.tags[recv] = impls[i]
		callOn(s, impls[i])
	})
}

func (x *Exec) nilCheckTerm(st *State, t *Term, pos token.Pos, what string) {
	if st.isNonNil(t) {
		return
	}
	x.safety(st, Neq(t, Zero), what, pos)
	st.nonnil[t] = true
}

func ifaceName(t types.Type) string {
	return typeName(t)
}

// ---------------------------------------------------------------- builtins

func (x *Exec) builtin(st *State, fr *Frame, b *ssa.Builtin, cc *ssa.CallCommon, instr ssa.Instruction, k func(*State, Val)) {
	pos := instr.Pos()
	arg := func(i int) Val { return x.val(st, fr, cc.Args[i]) }
	switch b.Name() {
	case "len":
		v := arg(0)
		switch u := underlying(cc.Args[0].Type()).(type) {
		case *types.Slice:
			k(st, v.(*Comp).F[2])
			return
		case *types.Map:
			m := v.(*Term)
			n := cardT(x.mapDom(st, u, m))
			st.assume(Implies(Eq(m, Zero), Eq(n, Zero)))
			st.assume(And(Le(Zero, n), Le(n, IntT(maxLen))))
			x.mapGuard(st, m, false, pos)
			k(st, n)
			return
		case *types.Basic:
			n := SLen(v.(*Term))
			st.assume(And(Le(Zero, n), Le(n, IntT(maxLen))))
			k(st, n)
			return
		case *types.Chan:
			n := x.freshSym("chanlen", SInt)
			st.assume(And(Le(Zero, n), Le(n, IntT(maxLen))))
			k(st, n)
			return
		case *types.Pointer:
			at := underlying(u.Elem()).(*types.Array)
			k(st, IntT(at.Len()))
			return
		}
	case "cap":
		if c, ok := arg(0).(*Comp); ok {
			k(st, c.F[3])
			return
		}
		n := x.freshSym("cap", SInt)
		st.assume(And(Le(Zero, n), Le(n, IntT(maxLen))))
		k(st, n)
		return
	case "append":
		s := arg(0).(*Comp)
		t := cc.Args[0].Type()
		switch v := arg(1).(type) {
		case *Comp:
			k(st, x.appendVal(st, s, t, v.F[2].(*Term), nil, v))
		case *Term: // append([]byte, string...)
			k(st, x.appendVal(st, s, t, SLen(v), v, nil))
		}
		return
	case "delete":
		mt := underlying(cc.Args[0].Type()).(*types.Map)
		m := asTerm(arg(0))
		x.mapGuard(st, m, true, pos)
		x.mapDelete(st, mt, m, asTerm(arg(1)))
		k(st, nil)
		return
	case "copy":
		x.copyBuiltin(st, arg(0), arg(1), cc, k, pos)
		return
	case "close":
		k(st, nil)
		return
	case "print", "println":
		k(st, nil)
		return
	case "recover":
		k(st, Zero)
		return
	case "min", "max":
		t := asTerm(arg(0))
		for i := 1; i < len(cc.Args); i++ {
			u := asTerm(arg(i))
			if b.Name() == "min" {
				t = Ite(Le(t, u), t, u)
			} else {
				t = Ite(Le(u, t), t, u)
			}
		}
		k(st, t)
		return
	case "ssa:wrapnilchk":
		x.nilCheck(st, arg(0), pos, "receiver")
		k(st, arg(0))
		return
	}
	x.unsupported(pos, "builtin %s", b.Name())
}

func (x *Exec) copyBuiltin(st *State, dv, sv Val, cc *ssa.CallCommon, k func(*State, Val), pos token.Pos) {
	d := dv.(*Comp)
	dt := underlying(cc.Args[0].Type()).(*types.Slice)
	dn := d.F[2].(*Term)
	var sn *Term
	var srcAt func(key string, q *Term) *Term
	switch s := sv.(type) {
	case *Comp:
		sn = s.F[2].(*Term)
		pre := map[string]*Term{}
		for _, kk := range x.leafKeys(x.elemKey(dt.Elem()), dt.Elem(), 2) {
			pre[kk] = Select(st.H(kk), s.F[0].(*Term))
		}
		srcAt = func(key string, q *Term) *Term { return Select(pre[key], ix(s.F[1].(*Term), q)) }
	case *Term:
		sn = SLen(s)
		srcAt = func(key string, q *Term) *Term { return SAt(s, q) }
	}
	n := Ite(Le(dn, sn), dn, sn)
	nn := x.freshSym("ncopy", SInt)
	st.assume(Eq(nn, n))
	st.assume(Le(Zero, nn))
	a, o := d.F[0].(*Term), d.F[1].(*Term)
	for _, kk := range x.leafKeys(x.elemKey(dt.Elem()), dt.Elem(), 2) {
		h := st.H(kk)
		base := Select(h, a)
		content := x.freshSym("copied", elemSort(h.Sort))
		j := Var("j", SInt)
		ci := mk("select", elemSort(content.Sort), content, ix(o, j))
		st.assume(Forall([]*Term{j}, [][]*Term{{ci}}, And(
			Implies(And(Le(Zero, j), Lt(j, nn)), Eq(ci, srcAt(kk, j))),
			Implies(Or(Lt(j, Zero), Le(nn, j)), Eq(ci, Select(base, ix(o, j)))))))
		if o != Zero {
			cj := mk("select", elemSort(content.Sort), content, j)
			st.assume(Forall([]*Term{j}, [][]*Term{{cj}}, Implies(Or(Lt(j, o), Le(Add(o, nn), j)), Eq(cj, Select(base, j)))))
		}
		se := srcAt(kk, j)
		if len(se.fvs) > 0 {
			st.assume(Forall([]*Term{j}, [][]*Term{{se}}, Implies(And(Le(Zero, j), Lt(j, nn)), Eq(Select(content, ix(o, j)), se))))
		}
		st.setH(kk, Store(h, a, content))
		st.writes = append(st.writes, heapWrite{kk, a, nil})
	}
	k(st, nn)
}

// ---------------------------------------------------------------- defers

func (x *Exec) runDefers(st *State, fr *Frame, k func(*State)) {
	ds := st.defers[fr.id]
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	st.defers[fr.id] = ds[:len(ds)-1]
	next := func(s *State, _ Val) { x.runDefers(s, fr, k) }
	cc := &d.call.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "delete" {
			mt := underlying(cc.Args[0].Type()).(*types.Map)
			x.mapDelete(st, mt, asTerm(d.args[0]), asTerm(d.args[1]))
		}
		next(st, nil)
		return
	}
	if cc.IsInvoke() {
		x.invoke(st, fr, asTerm(d.fn), cc.Value.Type(), cc.Method, d.args, resultType(cc.Signature()), d.call.Pos(), next)
		return
	}
	if fn := cc.StaticCallee(); fn != nil {
		var bind []Val
		if fv, ok := d.fn.(*FuncVal); ok {
			bind = fv.Bind
		}
		x.callFn(st, fr, fn, d.args, bind, d.call.Pos(), next)
		return
	}
	x.callDyn(st, fr, d.fn, d.args, resultType(cc.Signature()), d.call.Pos(), next)
}

// ---------------------------------------------------------------- contracts

func (x *Exec) bindContract(c *Contract, fn *ssa.Function, sig *types.Signature, recvT types.Type, args []Val) map[string]SVal {
	vars := map[string]SVal{}
	var ts []types.Type
	if sig.Recv() != nil {
		if recvT != nil {
			ts = append(ts, recvT)
		} else {
			ts = append(ts, sig.Recv().Type())
		}
	} else if recvT != nil {
		ts = append(ts, recvT)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	if len(ts) != len(args) {
		panic(specErr{fmt.Sprintf("contract %s: %d parameters, %d arguments", c.Name, len(ts), len(args))})
	}
	if len(c.Params) != len(ts) {
		panic(specErr{fmt.Sprintf("contract %s names %d parameters, function has %d", c.Name, len(c.Params), len(ts))})
	}
	for i, p := range c.Params {
		vars[p] = SVal{args[i], ts[i]}
	}
	return vars
}

func (c *Contract) bindResults(vars map[string]SVal, rets []Val, sig *types.Signature) {
	n := sig.Results().Len()
	if len(c.Results) != n {
		panic(specErr{fmt.Sprintf("contract %s names %d results, function has %d", c.Name, len(c.Results), n)})
	}
	for i, r := range c.Results {
		vars[r] = SVal{rets[i], sig.Results().At(i).Type()}
	}
}

func (x *Exec) callContract(st *State, fr *Frame, c *Contract, fn *ssa.Function, args []Val, pos token.Pos, k func(*State, Val)) {
	x.callContractSig(st, fr, c, fn, fn.Signature, nil, args, pos, k)
}

func copyHeap(m map[string]*Term) map[string]*Term {
	n := make(map[string]*Term, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

// evalBool evaluates a clause and the definitional facts it needs.
func (x *Exec) evalClause(e *SEnv, c *Clause) *Term {
	var facts []*Term
	n := *e
	n.facts = &facts
	t := n.bool(c.E)
	for _, f := range facts {
		e.h.st.assume(f)
	}
	return t
}

func (x *Exec) callContractSig(st *State, fr *Frame, c *Contract, fn *ssa.Function, sig *types.Signature, recvT types.Type, args []Val, pos token.Pos, k func(*State, Val)) {
	x.used[c.Name] = true
	if c.Trusted {
		x.trust["assumed contract: "+c.Name] = true
	}
	vars := x.bindContract(c, fn, sig, recvT, args)
	env := &SEnv{x: x, h: &heapView{st, nil, st.allocPtr()}, vars: vars}
	env.old = env.h
	for _, l := range c.Lets {
		vars[l.Label] = env.eval(l.E)
	}
	if fn != nil && sig.Recv() != nil && !c.Pure {
		if t, ok := args[0].(*Term); ok {
			x.nilCheck(st, t, pos, "receiver of "+c.Name)
		}
	}
	if x.unit != nil {
		for _, ac := range x.unit.con.AtCall {
			if ac.Callee != c.Name {
				continue
			}
			m := map[string]SVal{}
			for n, v := range x.args {
				m[n] = v
			}
			for i := range args {
				if i < len(c.Params) {
					m[fmt.Sprintf("arg%d", i)] = vars[c.Params[i]]
				}
			}
			e := &SEnv{x: x, h: &heapView{st, nil, st.allocPtr()}, old: x.unit.oldView(st), vars: m}
			g := x.evalClause(e, ac)
			x.prove(st, g, "atcall", x.unit.con.Name+" calls "+c.Name+" "+ac.Label, x.p.pos(pos), ac.Props)
		}
	}
	for _, r := range c.Requires {
		g := x.evalClause(env, r)
		x.prove(st, g, "requires", c.Name+" requires "+r.Label, x.p.pos(pos), nil)
	}
	for _, iv := range c.Invs {
		x.proveInv(st, iv, "call of "+c.Name, x.p.pos(pos))
	}
	if x.unit != nil && x.unit.con.Decr != nil && x.spec == 0 {
		d := x.unit.con.Decr
		switch {
		case c == x.unit.con:
			m0, _ := (&SEnv{x: x, h: x.unit.oldView(st), vars: x.args}).eval(d.E).V.(*Term)
			m1, _ := env.eval(d.E).V.(*Term)
			x.prove(st, And(Le(Zero, m1), Lt(m1, m0)), "terminates", "recursive call of "+c.Name+" makes progress", x.p.pos(pos), d.Props)
		case c.Decr == nil:
			x.prove(st, False, "terminates", "call of "+c.Name+", which has no measure", x.p.pos(pos), d.Props)
		case fn != nil && x.p.mayCall(fn, x.unit.fn):
			x.prove(st, False, "terminates", "call of "+c.Name+", which may call back", x.p.pos(pos), d.Props)
		}
	}
	// snapshot
	oldHeap := copyHeap(st.heap)
	oldA := st.allocPtr()
	if !c.Pure {
		st.bumpAlloc()
	}
	// havoc
	menv := &SEnv{x: x, h: &heapView{st, oldHeap, oldA}, vars: vars}
	menv.old = menv.h
	if x.unit != nil {
		x.regInvKeys(st, c.Invs)
	}
	for _, m := range c.Modifies {
		x.havocLoc(st, menv, m.E)
	}
	for _, kx := range c.ModAll {
		for _, key := range x.matchKeys(kx) {
			st.havocHeap(key)
			st.writes = append(st.writes, heapWrite{key, nil, nil})
		}
	}
	// results
	var rets []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		rv := st.freshVal(rt, "ret")
		st.learn(rv, rt)
		rets = append(rets, rv)
	}
	c.bindResults(vars, rets, sig)
	if len(rets) > 0 {
		for i, r := range rets {
			rk := c.Name
			if i > 0 {
				rk = fmt.Sprintf("%s#%d", c.Name, i)
			}
			st.lastRes[rk] = SVal{r, sig.Results().At(i).Type()}
		}
	}
	post := &SEnv{x: x, h: &heapView{st, nil, st.allocPtr()}, old: &heapView{st, oldHeap, oldA}, vars: vars}
	for _, en := range c.Ensures {
		st.assume(x.evalClause(post, en))
	}
	for _, iv := range c.Invs {
		x.assumeInv(st, iv)
	}
	if !c.Pure && x.unit != nil {
		// classes of this unit the callee has no invariant for: it creates no object of them
		for _, n := range x.unit.con.Invs {
			ci := x.invByName(n)
			if ci.Type == nil || x.p.mayAlloc(fn, ci.Type) {
				continue
			}
			o := Var("newo", SInt)
			tg := App("tag", SInt, o)
			st.assume(Forall([]*Term{o}, [][]*Term{{tg}}, Implies(And(Le(oldA, o), Lt(o, st.allocPtr())), Neq(tg, IntT(int64(x.p.typeID(ci.Type)))))))
		}
	}
	if st.dead {
		return
	}
	for _, r := range rets {
		if t, ok := r.(*Term); ok && t.Sort == SInt && st.knows(Neq(t, Zero)) {
			st.nonnil[t] = true
		}
	}
	k(st, packResults(rets, resultType(sig)))
}

// matchKeys expands a key pattern ("container.listNode.*").
func (x *Exec) matchKeys(pat string) []string {
	var out []string
	if !strings.HasSuffix(pat, "*") {
		x.ensureKey(pat)
		return []string{pat}
	}
	pre := strings.TrimSuffix(pat, "*")
	if t := x.p.lookupType(strings.TrimSuffix(pre, ".")); t != nil {
		if u, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < u.NumFields(); i++ {
				x.leafKeys(structKey(t)+"."+u.Field(i).Name(), u.Field(i).Type(), 1)
			}
			for _, g := range x.sp.ghostFields(structKey(t)) {
				x.sp.regGhost(x, g)
			}
		}
	}
	for k := range x.keys {
		if strings.HasPrefix(k, pre) && !strings.HasSuffix(k, "#lk") {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func (x *Exec) ensureKey(key string) {
	if _, ok := x.keys[key]; ok {
		return
	}
	if i := strings.Index(key, ".$"); i > 0 {
		for _, g := range x.sp.ghostFields(key[:i]) {
			if g.key == key {
				x.sp.regGhost(x, g)
				return
			}
		}
	}
	if i := strings.LastIndex(key, "."); i > 0 {
		if t := x.p.lookupType(key[:i]); t != nil {
			if u, ok := t.Underlying().(*types.Struct); ok {
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == key[i+1:] {
						x.leafKeys(key, u.Field(j).Type(), 1)
						return
					}
				}
			}
		}
	}
	// map keys "M:K:V#dom"
	panic(specErr{"unknown heap key " + key})
}

// havocLoc forgets the location denoted by a modifies expression.
func (x *Exec) havocLoc(st *State, env *SEnv, ex ast.Expr) {
	fresh := func(key string, base *Term) {
		h := st.H(key)
		s := elemSort(h.Sort)
		ki := x.keys[key]
		x.nFresh++
		nm := fmt.Sprintf("%s!hv!%s!%d", x.uid, key, x.nFresh)
		if ki.ref && !strings.HasPrefix(s, "(Array") {
			nm += fmt.Sprintf("@e%d", epochNum(st.A))
		}
		v := Sym(nm, s)
		if !strings.HasPrefix(s, "(Array") {
			if ki.ref {
				if ki.iface {
					st.assume(Lt(v, st.A))
				} else {
					st.assume(And(Le(Zero, v), Lt(v, st.A)))
				}
			} else if ki.elem != nil {
				if lo, hi, ok := intRange(ki.elem); ok {
					st.assume(And(Le(BigT(lo), v), Le(v, BigT(hi))))
				}
			}
		}
		st.setH(key, Store(h, base, v))
		st.writes = append(st.writes, heapWrite{key, base, nil})
	}
	x.locsOf(env, ex, fresh)
}

// locsOf enumerates the heap locations denoted by a modifies expression.
func (x *Exec) locsOf(env *SEnv, ex ast.Expr, fresh func(key string, base *Term)) {
	switch e := ex.(type) {
	case *ast.SelectorExpr:
		b := env.eval(e.X)
		if mt, ok := underlying(b.T).(*types.Map); ok {
			_ = mt
			for _, g := range x.sp.ghostFields("map") {
				if g.name == e.Sel.Name {
					x.sp.regGhost(x, g)
					fresh(g.key, b.V.(*Term))
					return
				}
			}
		}
		var st0 types.Type
		var base *Term
		var key string
		switch v := b.V.(type) {
		case *Addr:
			st0, base, key = v.T, v.Base, v.Key
		case *Term:
			pt, ok := underlying(b.T).(*types.Pointer)
			if !ok {
				if isIfaceType(b.T) {
					for _, g := range x.sp.ghostFields(typeName(b.T)) {
						if g.name == e.Sel.Name {
							x.sp.regGhost(x, g)
							fresh(g.key, v)
							return
						}
					}
				}
				env.fail("modifies %s", exprStr(ex))
			}
			st0, base, key = pt.Elem(), v, structKey(pt.Elem())
		}
		for _, g := range x.sp.ghostFields(structKey(st0)) {
			if g.name == e.Sel.Name {
				x.sp.regGhost(x, g)
				fresh(g.key, base)
				return
			}
		}
		u, ok := underlying(st0).(*types.Struct)
		if ok {
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == e.Sel.Name {
					if _, isS := underlying(u.Field(i).Type()).(*types.Struct); isS {
						lk := key + "." + e.Sel.Name + "#lk"
						x.regKey(lk, SInt, 1, false, false, nil)
						fresh(lk, base)
						return
					}
					for _, kk := range x.leafKeys(key+"."+e.Sel.Name, u.Field(i).Type(), 1) {
						fresh(kk, base)
					}
					return
				}
			}
		}
		env.fail("modifies %s: no such field", exprStr(ex))
	case *ast.CallExpr:
		switch exprStr(e.Fun) {
		case "content": // content of a map or slice
			b := env.eval(e.Args[0])
			if a, ok := b.V.(*Addr); ok {
				dk, vk, base := x.syncMapKeys(a)
				fresh(dk, base)
				fresh(vk, base)
				return
			}
			switch u := underlying(b.T).(type) {
			case *types.Map:
				d, vs := x.mapKeys(u)
				fresh(d, b.V.(*Term))
				for _, v := range vs {
					fresh(v, b.V.(*Term))
				}
				return
			case *types.Slice:
				for _, kk := range x.leafKeys(x.elemKey(u.Elem()), u.Elem(), 2) {
					fresh(kk, b.V.(*Comp).F[0].(*Term))
				}
				return
			}
		case "ghost":
			nm := strings.Trim(e.Args[0].(*ast.BasicLit).Value, "\"")
			g := x.sp.globalGhost(nm)
			if g == nil {
				env.fail("unknown ghost %s", nm)
			}
			x.sp.regGhost(x, g)
			fresh(g.key, memRef(env.eval(e.Args[1])))
			return
		case "globalvar":
			// globalvar(pkg.name)
			nm := exprStr(e.Args[0])
			for kk := range x.keys {
				if kk == "G:"+nm || strings.HasPrefix(kk, "G:"+nm+"#") {
					fresh(kk, Zero)
				}
			}
			return
		}
	}
	env.fail("unsupported modifies %s", exprStr(ex))
}

// ---------------------------------------------------------------- invariants

func (x *Exec) invByName(name string) *ClassInv {
	if ci := x.sp.invs[name]; ci != nil {
		return ci
	}
	for n, ci := range x.sp.invs {
		if strings.HasSuffix(n, "."+name) {
			return ci
		}
	}
	panic(specErr{"unknown class invariant " + name})
}

// invBody evaluates the class invariant for object o in the current heap.
func (x *Exec) invBody(st *State, ci *ClassInv, o *Term, reads map[string]bool) *Term {
	if ci.Type == nil {
		panic(specErr{"class " + ci.TypeSrc + " not found"})
	}
	e := &SEnv{x: x, h: &heapView{st, nil, st.allocPtr()}, vars: map[string]SVal{ci.Var: {o, ci.Type}}, reads: reads}
	e.old = e.h
	var cs []*Term
	for _, b := range ci.Body {
		cs = append(cs, e.bool(b.E))
	}
	return And(cs...)
}

func (x *Exec) invTrig(st *State, ci *ClassInv, o *Term) [][]*Term {
	e := &SEnv{x: x, h: &heapView{st, nil, st.allocPtr()}, vars: map[string]SVal{ci.Var: {o, ci.Type}}}
	e.old = e.h
	var out [][]*Term
	for _, t := range ci.Trig {
		ex, err := parseSpecExpr(t)
		if err != nil {
			panic(specErr{err.Error()})
		}
		tt := e.termOf(ex)
		// a store is not a usable pattern head: strip to select over the array
		if tt.Op == "select" || tt.Op == "app" {
			out = append(out, []*Term{tt})
		}
	}
	return out
}

// nameHeap replaces the current array of each key the invariant reads by a
// named symbol (definition assumed), so it can serve in patterns.
func (x *Exec) nameHeap(st *State, key string) {
	h := st.H(key)
	if h.Op == "sym" {
		return
	}
	x.nFresh++
	nm := fmt.Sprintf("%s!N!%s!%d", x.uid, key, x.nFresh)
	s := Sym(nm, h.Sort)
	st.assume(Eq(s, h))
	st.setH(key, s)
}

func (x *Exec) invReads(st *State, ci *ClassInv) []string {
	reads := map[string]bool{}
	x.invBody(st, ci, Var("invo", SInt), reads)
	return sortedKeys(reads)
}

func (x *Exec) regInvKeys(st *State, invs []string) {
	for _, n := range invs {
		x.invReads(st, x.invByName(n))
	}
}

func (x *Exec) assumeInv(st *State, name string) {
	ci := x.invByName(name)
	keys := x.invReads(st, ci)
	st.sealAlloc()
	st.wfKeys(keys)
	o := Var("invo", SInt)
	b := x.invBody(st, ci, o, nil)
	tr := x.invTrig(st, ci, o)
	var trs [][]*Term
	for _, g := range tr {
		ok := true
		for _, t := range g {
			if hasStore(t) {
				ok = false
			}
		}
		if ok {
			trs = append(trs, g)
		}
	}
	if len(trs) == 0 {
		trs = tr
	}
	isObj := And(Lt(Zero, o), Lt(o, st.A), Eq(App("tag", SInt, o), IntT(int64(x.p.typeID(ci.Type)))))
	isObj = And(append(localObjs(st, o, ci.Type), isObj)...)
	st.assume(Forall([]*Term{o}, trs, Implies(isObj, b)))
	x.noteInv(st, ci.Name, keys)
}

func hasStore(t *Term) bool {
	return hasSub(t, func(s *Term) bool { return s.Op == "store" })
}

type invMark struct {
	keys map[string]*Term
	A    *Term
	nf   int
}

func (x *Exec) noteInv(st *State, name string, keys []string) {
	m := &invMark{keys: map[string]*Term{}, A: st.A, nf: len(st.fresh)}
	for _, k := range keys {
		m.keys[k] = st.H(k)
	}
	if st.invOK == nil {
		st.invOK = map[string]*invMark{}
	}
	st.invOK[name] = m
}

// proveInv establishes the class invariant for all objects.
func (x *Exec) proveInv(st *State, name, what, pos string) {
	ci := x.invByName(name)
	keys := x.invReads(st, ci)
	st.wfKeys(keys)
	m := st.invOK[ci.Name]
	same := m != nil
	if m != nil {
		for _, k := range keys {
			if m.keys[k] != st.H(k) {
				same = false
			}
		}
	}
	tid := IntT(int64(x.p.typeID(ci.Type)))
	from := 0
	if m != nil {
		from = m.nf
	}
	lab := func(i int, b *Clause) string { return fmt.Sprintf("%s %s at %s", ci.Name, b.Label, what) }
	doFor := func(o *Term, guard *Term) {
		for _, g := range x.invTrig(st, ci, o) {
			for _, t := range g {
				guard = And(guard, touch(t))
			}
		}
		for i, b := range ci.Body {
			if b.Assumed {
				x.trust["assumed for every "+ci.Name+" ["+b.Label+"]: "+b.Src] = true
				continue
			}
			e := &SEnv{x: x, h: &heapView{st, nil, st.allocPtr()}, vars: map[string]SVal{ci.Var: {o, ci.Type}}}
			e.old = e.h
			x.proveQuiet(st, Implies(guard, e.bool(b.E)), "invariant", lab(i, b), pos, b.Props)
		}
	}
	atRet := strings.HasPrefix(what, "return of ")
	if same {
		for i, f := range st.fresh {
			if types.Identical(f.t, ci.Type) && (atRet && f.local || i >= from && !f.local) {
				doFor(f.ref, True)
			}
		}
	} else {
		// own fresh objects individually
		for _, f := range st.fresh {
			if types.Identical(f.t, ci.Type) && (atRet || !f.local) {
				doFor(f.ref, True)
			}
		}
		o := x.freshSym("anyobj", SInt)
		cs := []*Term{Lt(Zero, o), Lt(o, st.allocPtr()), Eq(App("tag", SInt, o), tid)}
		for _, f := range st.fresh {
			if types.Identical(f.t, ci.Type) {
				cs = append(cs, Neq(o, f.ref))
			}
		}
		// objects allocated by this function that are of other types
		cs = append(cs, x.otherFresh(st, o, ci.Type)...)
		doFor(o, And(cs...))
	}
	x.assumeInv(st, name)
}

// localObjs: o is none of the objects this unit is still constructing.
func localObjs(st *State, o *Term, t types.Type) []*Term {
	var cs []*Term
	for _, f := range st.fresh {
		if f.local && types.Identical(f.t, t) {
			cs = append(cs, Neq(o, f.ref))
		}
	}
	return cs
}

// otherFresh: o is none of the references this path allocated for other types.
func (x *Exec) otherFresh(st *State, o *Term, t types.Type) []*Term {
	var cs []*Term
	for _, r := range st.ownRefs {
		cs = append(cs, Neq(o, r))
	}
	for _, f := range st.fresh {
		if !types.Identical(f.t, t) {
			cs = append(cs, Neq(o, f.ref))
		}
	}
	return cs
}

// proveQuiet proves without adding the goal to the path.
func (x *Exec) proveQuiet(st *State, g *Term, kind, name, pos string, props map[string]bool) {
	if x.spec > 0 {
		return
	}
	s := st.clone()
	x.prove(s, g, kind, name, pos, props)
}

// ifaceMethod finds the signature of an interface method by its contract name.
func (p *Program) ifaceMethod(name string) *types.Signature {
	i := strings.LastIndexByte(name, '.')
	if i < 0 {
		return nil
	}
	t := p.lookupType(name[:i])
	if t == nil {
		return nil
	}
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for k := 0; k < it.NumMethods(); k++ {
		if m := it.Method(k); m.Name() == name[i+1:] {
			return m.Type().(*types.Signature)
		}
	}
	return nil
}
