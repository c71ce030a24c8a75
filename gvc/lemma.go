package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"
	"time"
)

// LemmaDef: a statement about specification functions, proved once by
// induction on one integer parameter and assumed where a contract says "use".
//
//	lemma name(p T, ...)
//	  induct p            (optional)
//	  requires E / ensures E / pat e1, e2 / use other / props ...
type LemmaDef struct {
	params []string
	types  []types.Type
	induct string
	pats   [][]ast.Expr
}

func (x *Exec) lemmaVars(l *LemmaDef, mk func(name string, s Sort) *Term) (map[string]SVal, map[string][]*Term) {
	vars := map[string]SVal{}
	flat := map[string][]*Term{}
	for i, p := range l.params {
		t := l.types[i]
		if sl, ok := underlying(t).(*types.Slice); ok {
			c := mk(p+"_c", ArrSort(SInt, sortOf(sl.Elem())))
			o := mk(p+"_o", SInt)
			n := mk(p+"_n", SInt)
			vars[p] = SVal{&Comp{F: []Val{c, o, n, n}}, t}
			flat[p] = []*Term{c, o}
			continue
		}
		v := mk(p, sortOf(t))
		vars[p] = SVal{v, t}
		flat[p] = []*Term{v}
	}
	return vars, flat
}

// lemmaAxiom is the lemma as a quantified fact.
func (x *Exec) lemmaAxiom(st *State, c *Contract) *Term {
	l := c.Lemma
	vars, flat := x.lemmaVars(l, func(n string, s Sort) *Term { return Var("L"+n, s) })
	env := &SEnv{x: x, h: &heapView{st, nil, st.allocPtr()}, vars: vars}
	env.old = env.h
	var vs []*Term
	for _, p := range l.params {
		vs = append(vs, flat[p]...)
	}
	body := x.lemmaBody(env, c)
	var trigs [][]*Term
	for _, p := range l.pats {
		var tr []*Term
		for _, e := range p {
			tr = append(tr, asTerm(env.eval(e).V))
		}
		trigs = append(trigs, tr)
	}
	return Forall(vs, trigs, body)
}

func (x *Exec) lemmaBody(env *SEnv, c *Contract) *Term {
	var rq, en []*Term
	for _, r := range c.Requires {
		rq = append(rq, x.evalClause(env, r))
	}
	for _, e := range c.Ensures {
		en = append(en, dropTouch(x.evalClause(env, e)))
	}
	return Implies(And(rq...), And(en...))
}

// dropTouch removes the mentions (which are true) from a conclusion.
func dropTouch(t *Term) *Term {
	switch {
	case isTouch(t):
		return True
	case t.Op == "and":
		var as []*Term
		for _, a := range t.Args {
			as = append(as, dropTouch(a))
		}
		return And(as...)
	case t.Op == "=>":
		return Implies(t.Args[0], dropTouch(t.Args[1]))
	}
	return t
}

func (x *Exec) useLemmas(st *State, c *Contract) {
	for _, n := range c.Uses {
		if l := x.sp.laws[n]; l != nil {
			st.assume(x.lawAxiom(st, l))
			continue
		}
		lc := x.sp.con["lemma."+n]
		if lc == nil {
			panic(specErr{"unknown lemma " + n})
		}
		x.used[lc.Name] = true
		st.assume(x.lemmaAxiom(st, lc))
	}
}

func (x *Exec) verifyLemma(u *Unit) {
	c := u.con
	l := c.Lemma
	st := newState(x)
	x.nPaths = 1
	st.assume(Lt(Zero, x.A0))
	for _, n := range c.Uses {
		if x.sp.laws[n] != nil {
			continue
		}
		lc := x.sp.con["lemma."+n]
		if lc == nil || lc.Seq >= c.Seq {
			panic(specErr{"lemma " + n + " is not proved before " + c.Name})
		}
	}
	x.useLemmas(st, c)
	vars, flat := x.lemmaVars(l, func(n string, s Sort) *Term { return x.freshSym("l"+n, s) })
	mkEnv := func(v map[string]SVal) *SEnv {
		e := &SEnv{x: x, h: &heapView{st, nil, x.A0}, vars: v}
		e.old = e.h
		var facts []*Term
		e.facts = &facts
		return e
	}
	env := mkEnv(vars)
	if l.induct != "" {
		// hypothesis: the statement at the predecessor, for all values of the
		// other integer parameters
		iv := flat[l.induct][0]
		hv := map[string]SVal{}
		var qs []*Term
		for i, p := range l.params {
			switch {
			case p == l.induct:
				hv[p] = SVal{Sub(iv, One), l.types[i]}
			default:
				if _, ok := underlying(l.types[i]).(*types.Slice); ok {
					hv[p] = vars[p]
					break
				}
				q := Var("H"+p, sortOf(l.types[i]))
				qs = append(qs, q)
				hv[p] = SVal{q, l.types[i]}
			}
		}
		he := mkEnv(hv)
		body := x.lemmaBody(he, c)
		var trigs [][]*Term
		for _, p := range l.pats {
			var tr []*Term
			for _, e := range p {
				t := asTerm(he.eval(e).V)
				if len(t.fvs) > 0 {
					tr = append(tr, t)
				}
			}
			if len(tr) > 0 {
				trigs = append(trigs, tr)
			}
		}
		if len(qs) > 0 {
			body = Forall(qs, trigs, body)
		}
		for _, f := range *he.facts {
			st.assume(f)
		}
		st.assume(Implies(Lt(Zero, iv), body))
	}
	for _, r := range c.Requires {
		st.assume(x.evalClause(env, r))
	}
	pat := func() {
		for _, p := range l.pats {
			for _, e := range p {
				st.assume(touch(asTerm(env.eval(e).V)))
			}
		}
	}
	pat()
	var gs []*Term
	for _, e := range c.Ensures {
		gs = append(gs, x.evalClause(env, e))
	}
	for _, f := range *env.facts {
		st.assume(f)
	}
	for i, g := range gs {
		x.proveKeep(st, g, "lemma", fmt.Sprintf("%s %s", c.Name, c.Ensures[i].Label), c.File, nil)
	}
}

func verifyLemmaUnit(p *Program, sp *Specs, pool *SolverPool, c *Contract, uid string, budget time.Duration) (res *UnitResult) {
	x := newExec(p, sp, pool, uid)
	x.start = time.Now()
	x.budget = budget
	u := &Unit{name: c.Name, con: c, x: x}
	x.unit = u
	res = &UnitResult{Name: c.Name, File: c.File, Props: c.allProps()}
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				res.Err = e.Error()
			case specErr:
				res.Err = "specification error: " + e.msg
			case abort:
				res.Err = e.msg
			default:
				panic(r)
			}
		}
		res.Obls = x.obls
		res.Used = sortedStrs(x.used)
		res.Backends = x.backends
		res.Paths = 1
		res.MS = time.Since(x.start).Milliseconds()
	}()
	x.verifyLemma(u)
	return
}

func (sp *Specs) parseLemma(rest, file string, line int) (*Contract, error) {
	c := &Contract{Props: map[string]bool{}, Safety: map[string]bool{}, Bind: map[string]string{}, File: fmt.Sprintf("%s:%d", file, line)}
	i := strings.IndexByte(rest, '(')
	j := strings.LastIndexByte(rest, ')')
	c.Name = "lemma." + strings.TrimSpace(rest[:i])
	l := &LemmaDef{}
	for _, part := range strings.Split(rest[i+1:j], ",") {
		w := strings.Fields(part)
		t := sp.parseType(strings.Join(w[1:], ""))
		if t == nil {
			return nil, fmt.Errorf("%s:%d: bad lemma parameter type", file, line)
		}
		l.params = append(l.params, w[0])
		l.types = append(l.types, t)
	}
	c.Lemma = l
	c.Seq = len(sp.order)
	return c, nil
}

func (x *Exec) lawBody(st *State, l *Law, o *Term) *Term {
	env := &SEnv{x: x, h: &heapView{st, nil, st.allocPtr()}, vars: map[string]SVal{l.v: {o, x.sp.parseType("ref")}}}
	env.old = env.h
	var bs []*Term
	for _, c := range l.body {
		bs = append(bs, x.evalClause(env, c))
	}
	return And(bs...)
}

func (x *Exec) lawAxiom(st *State, l *Law) *Term {
	o := Var("lo", SInt)
	a := App("attr!"+l.attr, SBool, o)
	return Forall([]*Term{o}, [][]*Term{{a}}, Implies(a, x.lawBody(st, l, o)))
}
