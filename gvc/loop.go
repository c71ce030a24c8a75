package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// loopRun is an activation of a loop analysis on the current path.
type loopRun struct {
	back func(st *State, fr *Frame, from *ssa.BasicBlock)
	exit func(st *State, fr *Frame, to, from *ssa.BasicBlock)
}

// LoopVar is a quantity that changes around the loop: a phi, a heap location
// at a loop-invariant base, or the position of a map range.
type LoopVar struct {
	name  string
	t     types.Type
	get   func(ls *loopState) Val
	entry Val
}

// loopState is a state at the loop header (entry, arbitrary iteration or back
// edge) together with the values of the phis there.
type loopState struct {
	st   *State
	phis map[*ssa.Phi]Val
}

type cand struct {
	name string
	f    func(ls *loopState) *Term
	keep bool // assumed structurally, not dropped
	once bool // no second chance
	// group: candidates of which at most one is expected to hold
	group string
	hyp   []*Term // what the candidate added to the header, if it has a group
}

// again: a candidate that ran out of time may be tried longer.
func (c *cand) again() bool { return !c.once && secondChance(c.name) }

type loopCtx struct {
	x       *Exec
	fr      *Frame
	lp      *Loop
	entry   *loopState
	phis    []*ssa.Phi
	modPhi  map[*ssa.Phi]map[int]bool // leaf index changed
	modKey  map[string]bool           // heap keys changed (full havoc)
	point   map[string]map[*Term]bool // heap keys changed only at these bases
	full    map[string]bool
	modIter map[int]bool
	written map[string]map[*Term]bool // invariant bases written, for frames
	entryA  *Term
	id      string
}

func loopID(fr *Frame, lp *Loop) string {
	s := ""
	for f := fr; f != nil; f = f.parent {
		s += f.fn.String() + "<"
	}
	return fmt.Sprintf("%s#%d", s, lp.index)
}

// enterExit intercepts control leaving active loops of this frame.
func (x *Exec) exitLoops(st *State, fr *Frame, b, from *ssa.BasicBlock) bool {
	var best *Loop
	var run *loopRun
	for key, lr := range st.active {
		if key.frame == fr.id && !key.loop.blocks[b] {
			if best == nil || len(key.loop.blocks) < len(best.blocks) {
				best, run = key.loop, lr
			}
		}
	}
	if run == nil {
		return false
	}
	delete(st.active, loopKey{fr.id, best})
	run.exit(st, fr, b, from)
	return true
}

func (x *Exec) startLoop(st *State, fr *Frame, lp *Loop, from *ssa.BasicBlock) {
	lc := &loopCtx{x: x, fr: fr, lp: lp, modPhi: map[*ssa.Phi]map[int]bool{}, modKey: map[string]bool{}, point: map[string]map[*Term]bool{}, full: map[string]bool{}, modIter: map[int]bool{}, written: map[string]map[*Term]bool{}}
	lc.id = loopID(fr, lp)
	for _, in := range lp.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		lc.phis = append(lc.phis, ph)
	}
	x.phis(st, fr, lp.head, from)
	st.sealAlloc()
	preA := st.A
	st.bumpAlloc()
	st.assume(Eq(st.A, preA)) // nothing is allocated between entry and here
	lc.entryA = st.A
	st.serial = x.nFresh
	lc.entry = lc.capture(st)
	debugf("loop %s: discover\n", lc.id)
	lc.discover()
	cands := lc.candidates()
	names := map[string]int{}
	for _, c := range cands {
		names[c.name]++
		if n := names[c.name]; n > 1 {
			c.name = fmt.Sprintf("%s #%d", c.name, n)
		}
	}
	debugf("loop %s: %d candidates, full=%v point=%d\n", lc.id, len(cands), sortedStrs(lc.full), len(lc.point))
	// entry filter
	cacheKey := lc.id
	prev := x.loopSum[cacheKey]
	var live []*cand
	x.spec++
	var ecs []*cand
	var egs []*Term
	for _, c := range cands {
		if prev != nil && !prev[c.name] {
			continue
		}
		t := lc.eval(c, lc.entry)
		if t == nil {
			continue
		}
		if c.keep {
			t = True
		}
		ecs = append(ecs, c)
		egs = append(egs, t)
	}
	for i, ok := range x.validMany(lc.entry.st, egs, 1500, ecs) {
		if ok {
			live = append(live, ecs[i])
		} else if os.Getenv("GVC_CAND") != "" {
			debugf("   entry-drop %s\n", ecs[i].name)
		}
	}
	debugf("loop %s: %d candidates hold on entry\n", lc.id, len(live))
	// Quantifier-free candidates are settled first, then the others, where a
	// candidate that ran out of time is kept for the moment; when nothing else
	// drops, those get a second chance. Nothing is kept unless every remaining
	// candidate was proved in one round (with its second chances).
	cheap := !lc.hasInner()
	settled := false
	for round := 0; round < 40 && !settled; round++ {
		hs := lc.header(live)
		var backs []*loopState
		lc.run(hs, func(ls *loopState) { backs = append(backs, ls) }, nil)
		bad := map[*cand]bool{}
		type lateQ struct {
			c *cand
			q string
		}
		var late []lateQ
		for _, b := range backs {
			if b.st.dead {
				continue
			}
			var cs []*cand
			var gs []*Term
			for _, c := range live {
				if bad[c] || c.keep {
					continue
				}
				t := lc.eval(c, b)
				if t == nil {
					bad[c] = true
					continue
				}
				if cheap && hasForall(t) || t.isTrue() {
					continue
				}
				cs = append(cs, c)
				gs = append(gs, t)
			}
			if len(gs) == 0 {
				continue
			}
			skip := make([]map[*Term]bool, len(cs))
			quick := make([]bool, len(cs))
			for i, c := range cs {
				quick[i] = !secondChance(c.name)
			}
			for i, c := range cs {
				if c.group == "" {
					continue
				}
				// proved without its rivals, most of which are false
				skip[i] = map[*Term]bool{}
				for _, o := range live {
					if o != c && o.group == c.group {
						for _, f := range o.hyp {
							skip[i][f] = true
						}
					}
				}
				for _, f := range c.hyp {
					delete(skip[i], f)
				}
			}
			ok, out := x.tryMany(b.st, gs, 2500, skip, quick)
			for i, c := range cs {
				switch {
				case ok[i]:
				case out[i] != "" && c.again():
					late = append(late, lateQ{c, out[i]})
				default:
					bad[c] = true
					if os.Getenv("GVC_CAND") != "" {
						debugf("   drop %s  :: %s\n", c.name, trunc(gs[i].String(), 300))
					}
				}
			}
		}
		settled = len(bad) == 0 && !cheap
		if settled && len(late) > 0 {
			out := map[*cand]bool{}
			for _, l := range late {
				out[l.c] = true
			}
			good := map[string]bool{}
			for _, c := range live {
				if c.group != "" && !out[c] {
					good[c.group] = true
				}
			}
			for i := 0; i < len(late); i++ {
				if g := late[i].c.group; g != "" && good[g] {
					bad[late[i].c] = true
					late = append(late[:i], late[i+1:]...)
					i--
				}
			}
			var mu sync.Mutex
			var wg sync.WaitGroup
			for _, l := range late {
				wg.Add(1)
				go func(l lateQ) {
					defer wg.Done()
					if x.retryQuery(l.q, 2500) {
						return
					}
					mu.Lock()
					bad[l.c] = true
					mu.Unlock()
					if os.Getenv("GVC_CAND") != "" {
						debugf("   drop (second chance) %s\n", l.c.name)
					}
				}(l)
			}
			wg.Wait()
			settled = len(bad) == 0
		}
		var next []*cand
		for _, c := range live {
			if !bad[c] {
				next = append(next, c)
			}
		}
		live = next
		if len(bad) == 0 {
			cheap = false
		}
	}
	if !settled {
		live = nil
	}
	x.spec--
	surv := map[string]bool{}
	for _, c := range live {
		surv[c.name] = true
	}
	x.loopSum[cacheKey] = surv
	if os.Getenv("GVC_DEBUG") != "" {
		var ns []string
		for _, c := range live {
			ns = append(ns, c.name)
		}
		debugf("loop %s: invariants %s\n", lc.id, strings.Join(ns, " ; "))
	}
	hs := lc.header(live)
	var backs []*loopState
	lc.run(hs, func(ls *loopState) {
		if x.spec == 0 && x.unit != nil && x.unit.con.Decr != nil && !ls.st.dead {
			backs = append(backs, ls)
		}
	}, func(s *State, to, frm *ssa.BasicBlock) {
		x.enter(s, fr, to, frm)
	})
	if len(backs) > 0 {
		lc.proveTerminates(hs, backs)
	}
}

// proveTerminates proves that some measure decreases around the loop: the
// measure of the unit, or the distance to the bound of the loop's condition.
func (lc *loopCtx) proveTerminates(hs *loopState, backs []*loopState) {
	x := lc.x
	for _, in := range lc.lp.head.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return // a range over a map or string visits finitely many entries
		}
	}
	var ms []func(b *loopState) *Term
	unit := x.unit.con.Decr
	ms = append(ms, func(b *loopState) *Term {
		v := func(ls *loopState) *Term {
			h := &heapView{ls.st, nil, ls.st.allocPtr()}
			e := &SEnv{x: x, h: h, old: x.unit.oldView(ls.st), vars: x.args}
			t, _ := e.eval(unit.E).V.(*Term)
			return t
		}
		m0, m1 := v(hs), v(b)
		return And(Le(Zero, m1), Lt(m1, m0))
	})
	if iff, ok := lc.lp.head.Instrs[len(lc.lp.head.Instrs)-1].(*ssa.If); ok {
		if bo, ok := iff.Cond.(*ssa.BinOp); ok && lc.lp.blocks[lc.lp.head.Succs[0]] && !lc.lp.blocks[lc.lp.head.Succs[1]] {
			add := func(l, r ssa.Value, up bool) {
				ph := lc.counter(l)
				if ph == nil || !lc.stable(r, 0) {
					return
				}
				ms = append(ms, func(b *loopState) *Term {
					i0, ok0 := hs.phis[ph].(*Term)
					i1, ok1 := b.phis[ph].(*Term)
					if !ok0 || !ok1 {
						return False
					}
					if up {
						return Lt(i0, i1)
					}
					return Lt(i1, i0)
				})
			}
			switch bo.Op {
			case token.LSS, token.LEQ:
				add(bo.X, bo.Y, true)
				add(bo.Y, bo.X, false)
			case token.GTR, token.GEQ:
				add(bo.X, bo.Y, false)
				add(bo.Y, bo.X, true)
			}
		}
	}
	pick := 0
search:
	for i := len(ms) - 1; i >= 0; i-- {
		for _, b := range backs {
			if !x.valid(b.st, ms[i](b), 4000) {
				continue search
			}
		}
		pick = i
		break
	}
	for _, b := range backs {
		x.prove(b.st, ms[pick](b), "terminates", "loop of "+lc.fr.fn.Name()+" makes progress", x.p.pos(loopPos(lc.lp)), unit.Props)
	}
}

func loopPos(lp *Loop) token.Pos {
	for _, in := range lp.head.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return lp.head.Parent().Pos()
}

// counter is the phi an expression counts with, up to a constant.
func (lc *loopCtx) counter(v ssa.Value) *ssa.Phi {
	switch v := v.(type) {
	case *ssa.Phi:
		if v.Block() == lc.lp.head && isIntType(v.Type()) {
			return v
		}
	case *ssa.BinOp:
		if _, ok := v.Y.(*ssa.Const); ok && v.Op == token.ADD {
			return lc.counter(v.X)
		}
	}
	return nil
}

// stable: the expression has the same value in every iteration.
func (lc *loopCtx) stable(v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	in, ok := v.(ssa.Instruction)
	if !ok || !lc.lp.blocks[in.Block()] {
		return true
	}
	switch v := v.(type) {
	case *ssa.Convert:
		return lc.stable(v.X, depth+1)
	case *ssa.BinOp:
		return lc.stable(v.X, depth+1) && lc.stable(v.Y, depth+1)
	case *ssa.Call:
		b, ok := v.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "len" || !lc.stable(v.Call.Args[0], depth+1) {
			return false
		}
		switch v.Call.Args[0].Type().Underlying().(type) {
		case *types.Slice, *types.Basic:
			return true
		}
	}
	return false
}

func secondChance(name string) bool {
	for _, p := range []string{"hint", "inv ", "nonew ", "mapping ", "each ", "keyed ", "sweep "} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func hasForall(t *Term) bool {
	switch t.Op {
	case "forall", "exists":
		return true
	}
	for _, a := range t.Args {
		if hasForall(a) {
			return true
		}
	}
	return false
}

// tryMany tries each goal on the path, in parallel. For a goal that ran out
// of time it also returns the query.
func (x *Exec) tryMany(st *State, gs []*Term, ms int, skip []map[*Term]bool, quick []bool) ([]bool, []string) {
	ok := make([]bool, len(gs))
	out := make([]string, len(gs))
	var wg sync.WaitGroup
	x.checkBudget()
	for i, g := range gs {
		if g.isTrue() || st.dead || st.knows(g) {
			ok[i] = true
			continue
		}
		n := x.negGoal(g)
		var sk map[*Term]bool
		if skip != nil {
			sk = skip[i]
		}
		q := x.queryWithout(st, sk, append([]*Term{n}, x.goalExt(st, n)...)...)
		if d := os.Getenv("GVC_DUMPALL"); d != "" {
			dumpN++
			os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, dumpN), []byte("; "+g.String()+"\n"+q), 0644)
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			t0 := time.Now()
			ms := ms
			if !hasForall(gs[i]) {
				ms = ms / 2
				if quick != nil && quick[i] {
					ms = ms / 2
				}
			}
			ok[i] = x.ask(q, ms) == Unsat
			profile("try", ok[i], time.Since(t0))
			if !ok[i] && time.Since(t0) > time.Duration(ms)*time.Millisecond*9/10 {
				out[i] = q
			}
		}(i)
	}
	wg.Wait()
	return ok, out
}

// retryQuery gives a query that ran out of time another chance.
func (x *Exec) retryQuery(q string, ms int) (won bool) {
	t0 := time.Now()
	defer func() { profile("retry", won, time.Since(t0)) }()
	res := make(chan bool, 2)
	go func() {
		r, _ := oneShot("z3", []string{"-in", "-smt2", fmt.Sprintf("-t:%d", 2*ms)}, q, 2*ms)
		res <- r == Unsat
	}()
	go func() { res <- z3Plain("z3-new", q, 3*ms) == Unsat }()
	if <-res {
		return true
	}
	return <-res
}

// validMany tries each goal on the path; hints get a second chance.
func (x *Exec) validMany(st *State, gs []*Term, ms int, cs []*cand) []bool {
	ok, out := x.tryMany(st, gs, ms, nil, nil)
	var wg sync.WaitGroup
	for i := range gs {
		if !ok[i] && out[i] != "" && cs[i].again() {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				ok[i] = x.retryQuery(out[i], ms)
			}(i)
		}
	}
	wg.Wait()
	return ok
}

// hasInner: another loop head is among the blocks.
func (lc *loopCtx) hasInner() bool {
	for b := range lc.lp.blocks {
		if b == lc.lp.head {
			continue
		}
		for _, s := range b.Succs {
			if lc.lp.blocks[s] && s != lc.lp.head && s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

func (lc *loopCtx) capture(st *State) *loopState {
	ls := &loopState{st: st, phis: map[*ssa.Phi]Val{}}
	for _, p := range lc.phis {
		ls.phis[p] = lc.x.val(st, lc.fr, p)
	}
	return ls
}

func (lc *loopCtx) eval(c *cand, ls *loopState) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case specErr:
				if os.Getenv("GVC_CAND") != "" {
					debugf("   cand %s: %s\n", c.name, e.msg)
				}
				t = nil
			case unsupported:
				t = nil
			default:
				panic(r)
			}
		}
	}()
	return c.f(ls)
}

// header builds the arbitrary-iteration state.
func (lc *loopCtx) header(cands []*cand) *loopState {
	x := lc.x
	st := lc.entry.st.clone()
	st.writes = nil
	st.bumpAlloc()
	var keys []string
	for k := range lc.full {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		st.havocHeap(k)
	}
	keys = nil
	for k := range lc.point {
		if !lc.full[k] {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		var bs []*Term
		for b := range lc.point[k] {
			bs = append(bs, b)
		}
		sort.Slice(bs, func(i, j int) bool { return bs[i].id < bs[j].id })
		for _, b := range bs {
			h := st.H(k)
			v := x.freshCell(st, k, elemSort(h.Sort))
			st.setH(k, Store(h, b, v))
		}
	}
	for _, p := range lc.phis {
		ch := lc.modPhi[p]
		if len(ch) == 0 {
			continue
		}
		cur := lc.entry.phis[p]
		if _, ok := cur.(*Comp); !ok {
			if _, ok := cur.(*Term); !ok {
				panic(unsupported{"loop-carried value of unsupported kind in " + lc.fr.fn.String()})
			}
		}
		ts := flatten(cur, p.Type())
		i := 0
		v := build(p.Type(), func(suf string, l leaf) *Term {
			j := i
			i++
			if !ch[j] {
				return ts[j]
			}
			x.nFresh++
			nm := fmt.Sprintf("%s!phi!%s%s!%d", x.uid, p.Comment, suf, x.nFresh)
			if l.kind == 'a' || (l.kind == 0 && isRefType(l.typ)) {
				nm = fmt.Sprintf("%s@e%d", nm, epochNum(st.A))
			}
			t := Sym(nm, l.sort)
			st.leafFacts(t, l)
			return t
		})
		st.wfLoaded(v, p.Type())
		st.learn(v, p.Type())
		st.set(lc.fr.id, p, v)
	}
	// calls made by earlier iterations
	called, any := lc.callees()
	if any {
		st.looped = true
	}
	for f := range called {
		if f != nil && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
			st.looped = true
		}
	}
	for n, v := range st.lastRes {
		if !lc.mayCallName(called, any, n) {
			continue
		}
		st.lastRes[n] = SVal{st.freshVal(v.T, "last"), v.T}
	}
	for id := range lc.modIter {
		it := st.iters[id]
		it.idx = x.freshSym("itidx", SInt)
		st.assume(And(Le(Zero, it.idx), Le(it.idx, it.n)))
	}
	ls := lc.capture(st)
	// class invariants lose their "same heap" marks
	for n, m := range st.invOK {
		for k := range m.keys {
			if lc.full[k] || lc.point[k] != nil {
				delete(st.invOK, n)
				break
			}
		}
	}
	for _, c := range cands {
		t := lc.eval(c, ls)
		if t != nil {
			at := st.pc
			st.assume(t)
			if c.group != "" {
				c.hyp = nil
				for p := st.pc; p != at; p = p.parent {
					c.hyp = append(c.hyp, p.fact)
				}
			}
		}
	}
	return ls
}

func (x *Exec) freshCell(st *State, key string, s Sort) *Term {
	ki := x.keys[key]
	x.nFresh++
	nm := fmt.Sprintf("%s!cell!%s!%d", x.uid, key, x.nFresh)
	scalar := !strings.HasPrefix(s, "(Array")
	if ki.ref && scalar {
		nm += fmt.Sprintf("@e%d", epochNum(st.A))
	}
	v := Sym(nm, s)
	if scalar {
		if ki.ref {
			if ki.iface {
				st.assume(Lt(v, st.A))
			} else {
				st.assume(And(Le(Zero, v), Lt(v, st.A)))
			}
		} else if ki.elem != nil {
			if lo, hi, ok := intRange(ki.elem); ok {
				st.assume(And(Le(BigT(lo), v), Le(v, BigT(hi))))
			}
		} else if strings.HasSuffix(key, "#n") || strings.HasSuffix(key, "#o") || strings.HasSuffix(key, "#c") {
			st.assume(And(Le(Zero, v), Le(v, IntT(maxLen))))
		}
	} else if ki.ref && strings.Count(s, "(Array") == 1 {
		// element refs are bounded by the current allocation
		k, e := splitArr(s)
		if e == SInt {
			kv := Var("cw", k)
			sel := mk("select", e, v, kv)
			if ki.iface {
				gdecls.axiom(nm, Forall([]*Term{kv}, [][]*Term{{sel}}, Lt(sel, st.A)))
			} else {
				gdecls.axiom(nm, Forall([]*Term{kv}, [][]*Term{{sel}}, And(Le(Zero, sel), Lt(sel, st.A))))
			}
		}
	} else if ki.elem != nil && strings.Count(s, "(Array") == 1 {
		if lo, hi, ok := intRange(ki.elem); ok && elemLeaf(s) == SInt {
			x.rangeAxiom(nm, v, func(t *Term) *Term { return And(Le(BigT(lo), t), Le(t, BigT(hi))) })
		}
	}
	return v
}

// run executes the loop body once from header state hs.
func (lc *loopCtx) run(hs *loopState, back func(*loopState), exit func(*State, *ssa.BasicBlock, *ssa.BasicBlock)) {
	x := lc.x
	st := hs.st.clone()
	key := loopKey{lc.fr.id, lc.lp}
	st.active[key] = &loopRun{
		back: func(s *State, fr *Frame, from *ssa.BasicBlock) {
			pi := predIndex(lc.lp.head, from)
			ls := &loopState{st: s, phis: map[*ssa.Phi]Val{}}
			for _, p := range lc.phis {
				ls.phis[p] = x.val(s, fr, p.Edges[pi])
			}
			back(ls)
		},
		exit: func(s *State, fr *Frame, to, from *ssa.BasicBlock) {
			if exit != nil {
				exit(s, to, from)
			}
		},
	}
	x.block(st, lc.fr, lc.lp.head, nphi(lc.lp.head))
}

// discover finds what changes around the loop.
func (lc *loopCtx) discover() {
	x := lc.x
	x.spec++
	defer func() { x.spec-- }()
	for round := 0; round < 10; round++ {
		hs := lc.header(nil)
		hdr := copyHeap(hs.st.heap)
		hA := hs.st.A
		changed := false
		mark := func(b *loopState) {
			for _, p := range lc.phis {
				if _, ok := b.phis[p].(*IterVal); ok {
					continue
				}
				if _, ok := b.phis[p].(*FuncVal); ok {
					continue
				}
				if b.phis[p] == nil {
					continue
				}
				nv, hv := flatten(b.phis[p], p.Type()), flatten(hs.phis[p], p.Type())
				for i := range nv {
					if nv[i] != hv[i] && !lc.modPhi[p][i] {
						if lc.modPhi[p] == nil {
							lc.modPhi[p] = map[int]bool{}
						}
						lc.modPhi[p][i] = true
						changed = true
					}
				}
			}
			for k, t := range b.st.heap {
				h0, ok := hdr[k]
				if !ok {
					// first touched inside: compare with the base symbol
					if x.keys[k].sort == "" {
						continue
					}
					h0 = x.heapSym(b.st, k, "0", 0, x.A0)
				}
				if t == h0 {
					continue
				}
				// classify writes
				cur := t
				okPoint := true
				bases := map[*Term]bool{}
				// common part: a store the body overwrote may have collapsed into
				// one already in the header's array
				inner := map[*Term]bool{}
				for c := h0; ; c = c.Args[0] {
					inner[c] = true
					if c.Op != "store" {
						break
					}
				}
				note := func(b *Term) {
					if lc.invariantTerm(b, hA) {
						bases[b] = true
					} else {
						okPoint = false
					}
				}
				for !inner[cur] {
					if cur.Op != "store" {
						okPoint = false
						break
					}
					note(cur.Args[1])
					cur = cur.Args[0]
				}
				if okPoint {
					for c := h0; c != cur; c = c.Args[0] {
						note(c.Args[1])
					}
				}
				if lc.written[k] == nil {
					lc.written[k] = map[*Term]bool{}
				}
				for b := range bases {
					lc.written[k][b] = true
				}
				if okPoint && !lc.full[k] {
					if lc.point[k] == nil {
						lc.point[k] = map[*Term]bool{}
					}
					for b := range bases {
						if !lc.point[k][b] {
							lc.point[k][b] = true
							changed = true
						}
					}
				} else if !lc.full[k] {
					debugf("full %s cur=%s h0=%s limit=%d\n", k, trunc(t.String(), 300), trunc(h0.String(), 200), epochNum(lc.entryA))
					lc.full[k] = true
					changed = true
				}
			}
			// new bases written through named arrays (invariant bases in the
			// write log, needed for frames)
			for _, w := range b.st.writes {
				if w.base == nil {
					continue
				}
				if lc.invariantTerm(w.base, hA) {
					if lc.written[w.key] == nil {
						lc.written[w.key] = map[*Term]bool{}
					}
					lc.written[w.key][w.base] = true
				}
			}
			for id, it := range b.st.iters {
				if h := hs.st.iters[id]; h != nil && h.idx != it.idx && !lc.modIter[id] {
					lc.modIter[id] = true
					changed = true
				}
			}
		}
		lc.run(hs, mark, nil)
		if !changed {
			return
		}
	}
	panic(unsupported{"loop modification set does not stabilise in " + lc.fr.fn.String()})
}

// invariantTerm: t does not depend on anything created at or after the header.
func (lc *loopCtx) invariantTerm(t *Term, hA *Term) bool {
	limit := epochNum(lc.entryA)
	ok := true
	collect(t, map[*Term]bool{}, func(s *Term) {
		if s.Op != "sym" {
			return
		}
		if strings.HasPrefix(s.Name, "A!") {
			if epochNum(s) > limit {
				ok = false
			}
			return
		}
		if n, found := symSerial(s.Name); found && n > lc.serial() {
			ok = false
		}
	})
	return ok
}

func (lc *loopCtx) serial() int { return lc.entrySerial() }

func (lc *loopCtx) entrySerial() int {
	// nFresh at entry, recorded as the epoch-insensitive creation counter
	return lc.entry.st.serial
}

// symSerial extracts the creation counter of a generated symbol.
func symSerial(name string) (int, bool) {
	if i := strings.LastIndex(name, "@e"); i >= 0 {
		name = name[:i]
	}
	i := strings.LastIndexByte(name, '!')
	if i < 0 {
		return 0, false
	}
	s := name[i+1:]
	if strings.HasPrefix(s, "h") {
		s = s[1:]
	}
	n, err := strconv.Atoi(s)
	if err != nil {
		return 0, false
	}
	return n, true
}

// ---------------------------------------------------------------- candidates

func (lc *loopCtx) vars() []*LoopVar {
	var out []*LoopVar
	x := lc.x
	for _, p := range lc.phis {
		p := p
		if len(lc.modPhi[p]) == 0 {
			continue
		}
		out = append(out, &LoopVar{name: phiName(p), t: p.Type(), get: func(ls *loopState) Val { return ls.phis[p] }, entry: lc.entry.phis[p]})
	}
	// heap locations
	type loc struct {
		prefix string
		base   *Term
	}
	seen := map[loc]bool{}
	var keys []string
	for k := range lc.point {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if lc.full[k] || strings.HasPrefix(k, "[]") || strings.HasPrefix(k, "M:") {
			continue
		}
		ki := x.keys[k]
		pre := k
		isSlice := false
		for _, s := range []string{"#a", "#o", "#n", "#c"} {
			if strings.HasSuffix(k, s) {
				pre = strings.TrimSuffix(k, s)
				isSlice = true
			}
		}
		var bs []*Term
		for b := range lc.point[k] {
			bs = append(bs, b)
		}
		sort.Slice(bs, func(i, j int) bool { return bs[i].id < bs[j].id })
		for _, b := range bs {
			b := b
			l := loc{pre, b}
			if seen[l] {
				continue
			}
			seen[l] = true
			if isSlice {
				ft := x.fieldTypeOf(pre)
				if ft == nil {
					continue
				}
				a := &Addr{Key: pre, Base: b, T: ft}
				get := func(ls *loopState) Val {
					return build(ft, func(suf string, lf leaf) *Term { return Select(ls.st.H(a.Key+suf), b) })
				}
				out = append(out, &LoopVar{name: pre, t: ft, get: get, entry: get(lc.entry)})
			} else if ki.elem != nil && isScalar(ki.elem) {
				k := k
				get := func(ls *loopState) Val { return Select(ls.st.H(k), b) }
				out = append(out, &LoopVar{name: k, t: ki.elem, get: get, entry: get(lc.entry)})
			} else if elemSort(ki.sort) == SStr {
				k := k
				get := func(ls *loopState) Val { return Select(ls.st.H(k), b) }
				out = append(out, &LoopVar{name: k, t: tString, get: get, entry: get(lc.entry)})
			}
		}
	}
	for id := range lc.modIter {
		id := id
		out = append(out, &LoopVar{name: fmt.Sprintf("iter%d", len(out)), t: tInt, get: func(ls *loopState) Val { return ls.st.iters[id].idx }, entry: lc.entry.st.iters[id].idx})
	}
	return out
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

// fieldTypeOf resolves "pkg.Type.f.g" or "*T" or "G:.." to the field type.
func (x *Exec) fieldTypeOf(key string) types.Type {
	if strings.HasPrefix(key, "*") {
		return x.p.lookupType(key[1:])
	}
	if strings.HasPrefix(key, "G:") {
		return nil
	}
	parts := strings.Split(key, ".")
	for n := 2; n < len(parts)+1 && n <= 3; n++ {
		t := x.p.lookupType(strings.Join(parts[:n], "."))
		if t == nil {
			continue
		}
		cur := t
		ok := true
		for _, f := range parts[n:] {
			u, isS := cur.Underlying().(*types.Struct)
			if !isS {
				ok = false
				break
			}
			found := false
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == f {
					cur = u.Field(i).Type()
					found = true
				}
			}
			if !found {
				ok = false
				break
			}
		}
		if ok {
			return cur
		}
	}
	return nil
}

type namedVal struct {
	name string
	t    types.Type
	v    Val
}

// invariants in scope: values of the frame defined before the loop.
func (lc *loopCtx) scope() []namedVal {
	var out []namedVal
	fe := lc.entry.st.frames[lc.fr.id]
	if fe == nil {
		return nil
	}
	isPhi := map[ssa.Value]bool{}
	for _, p := range lc.phis {
		isPhi[p] = true
	}
	type kv struct {
		k ssa.Value
		v Val
	}
	var kvs []kv
	for k, v := range fe.m {
		if isPhi[k] {
			continue
		}
		if in, ok := k.(ssa.Instruction); ok && lc.lp.blocks[in.Block()] {
			continue
		}
		kvs = append(kvs, kv{k, v})
	}
	sort.Slice(kvs, func(i, j int) bool { return kvs[i].k.Name() < kvs[j].k.Name() })
	for _, e := range kvs {
		out = append(out, namedVal{e.k.Name(), e.k.Type(), e.v})
	}
	// phis unchanged by the loop
	for _, p := range lc.phis {
		if len(lc.modPhi[p]) == 0 {
			out = append(out, namedVal{phiName(p), p.Type(), lc.entry.phis[p]})
		}
	}
	return out
}

// symNum: the numbering of symbols, which differs between visits of a loop.
var symNum = regexp.MustCompile(`![0-9]+(@e[0-9]+)?`)

func isIntType(t types.Type) bool {
	b, ok := underlying(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (lc *loopCtx) candidates() []*cand {
	x := lc.x
	var out []*cand
	add := func(name string, f func(ls *loopState) *Term) {
		out = append(out, &cand{name: name, f: f})
	}
	vars := lc.vars()
	scope := lc.scope()
	type lin struct {
		name  string
		get   func(ls *loopState) *Term
		entry *Term
	}
	var lins []lin
	for _, v := range vars {
		v := v
		if isIntType(v.t) {
			lins = append(lins, lin{v.name, func(ls *loopState) *Term { return v.get(ls).(*Term) }, v.entry.(*Term)})
		} else if _, ok := underlying(v.t).(*types.Slice); ok {
			lins = append(lins, lin{"len(" + v.name + ")", func(ls *loopState) *Term { return v.get(ls).(*Comp).F[2].(*Term) }, v.entry.(*Comp).F[2].(*Term)})
		}
	}
	// map sizes changed at invariant maps
	for k, bs := range lc.point {
		if !strings.HasPrefix(k, "M:") || !strings.HasSuffix(k, "#dom") || lc.full[k] {
			continue
		}
		k := k
		for b := range bs {
			b := b
			lins = append(lins, lin{"card(" + k + ")", func(ls *loopState) *Term { return cardT(Select(ls.st.H(k), b)) }, cardT(Select(lc.entry.st.H(k), b))})
		}
	}
	sort.SliceStable(lins, func(i, j int) bool { return lins[i].name < lins[j].name })
	for _, a := range lins {
		a := a
		add(a.name+">=entry", func(ls *loopState) *Term { return Le(a.entry, a.get(ls)) })
		add(a.name+"<=entry", func(ls *loopState) *Term { return Le(a.get(ls), a.entry) })
		add(a.name+">=0", func(ls *loopState) *Term { return Le(Zero, a.get(ls)) })
		add(a.name+"<=maxLen", func(ls *loopState) *Term { return Le(a.get(ls), IntT(maxLen)) })
	}
	for i, a := range lins {
		for j, b := range lins {
			a, b := a, b
			if i < j {
				add(a.name+"-"+b.name+" const", func(ls *loopState) *Term {
					return Eq(Sub(a.get(ls), b.get(ls)), Sub(a.entry, b.entry))
				})
				add(a.name+"+"+b.name+" const", func(ls *loopState) *Term {
					return Eq(Add(a.get(ls), b.get(ls)), Add(a.entry, b.entry))
				})
			}
			if i != j {
				add("d "+a.name+"<= d "+b.name, func(ls *loopState) *Term {
					return Le(Sub(a.get(ls), a.entry), Sub(b.get(ls), b.entry))
				})
			}
		}
	}
	// bounds
	bounds := map[*Term]bool{}
	for _, s := range scope {
		if isIntType(s.t) {
			if t, ok := s.v.(*Term); ok && t.Val == nil {
				bounds[t] = true
			}
		}
		if _, ok := underlying(s.t).(*types.Slice); ok {
			if c, ok := s.v.(*Comp); ok {
				bounds[c.F[2].(*Term)] = true
			}
		}
		if sortOfSafe(s.t) == SStr {
			if t, ok := s.v.(*Term); ok {
				bounds[SLen(t)] = true
			}
		}
	}
	for b := range lc.lp.blocks {
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok {
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
					for _, o := range []ssa.Value{bo.X, bo.Y} {
						if c, ok := o.(*ssa.Const); ok && isIntType(c.Type()) {
							bounds[x.constVal(c).(*Term)] = true
						}
					}
				}
			}
		}
	}
	for id := range lc.modIter {
		bounds[lc.entry.st.iters[id].n] = true
	}
	var bl []*Term
	for b := range bounds {
		if b.Sort == SInt {
			bl = append(bl, b)
		}
	}
	sort.Slice(bl, func(i, j int) bool { return bl[i].id < bl[j].id })
	for _, a := range lins {
		for _, b := range bl {
			a, b := a, b
			if b == a.entry {
				continue
			}
			nm := trunc(symNum.ReplaceAllString(b.String(), ""), 60)
			add(a.name+"<="+nm, func(ls *loopState) *Term { return Or(Le(a.get(ls), b), Eq(a.get(ls), a.entry)) })
			add(a.name+"<"+nm, func(ls *loopState) *Term { return Or(Lt(a.get(ls), b), Eq(a.get(ls), a.entry)) })
			add(a.name+">="+nm, func(ls *loopState) *Term { return Or(Le(b, a.get(ls)), Eq(a.get(ls), a.entry)) })
		}
	}
	// references and slices
	for _, v := range vars {
		v := v
		switch underlying(v.t).(type) {
		case *types.Slice:
			ent := v.entry.(*Comp).F[0].(*Term)
			arr := func(ls *loopState) *Term { return v.get(ls).(*Comp).F[0].(*Term) }
			eo := v.entry.(*Comp).F[1].(*Term)
			add(v.name+".off", func(ls *loopState) *Term { return Eq(v.get(ls).(*Comp).F[1].(*Term), eo) })
			add(v.name+".arr fresh", func(ls *loopState) *Term {
				return Or(Eq(arr(ls), Zero), Le(lc.entryA, arr(ls)))
			})
			if ent != Zero {
				add(v.name+".arr same or fresh", func(ls *loopState) *Term {
					return Or(Eq(arr(ls), ent), Le(lc.entryA, arr(ls)))
				})
				if isAllocTerm(ent) {
					add(v.name+".arr >= own", func(ls *loopState) *Term { return Le(ent, arr(ls)) })
				}
			}
			for _, w := range vars {
				w := w
				if w.name <= v.name || !types.Identical(w.t, v.t) {
					continue
				}
				add(v.name+".arr != "+w.name+".arr", func(ls *loopState) *Term {
					wc := w.get(ls).(*Comp).F[0].(*Term)
					return Or(Eq(arr(ls), Zero), Neq(arr(ls), wc))
				})
			}
			add(v.name+".arr<A", func(ls *loopState) *Term { return Lt(arr(ls), ls.st.allocPtr()) })
			add(v.name+".arr nonnil if nonempty", func(ls *loopState) *Term {
				return Or(Eq(v.get(ls).(*Comp).F[2].(*Term), Zero), Neq(arr(ls), Zero))
			})
			add(v.name+".n<=c", func(ls *loopState) *Term {
				c := v.get(ls).(*Comp)
				return Le(c.F[2].(*Term), c.F[3].(*Term))
			})
		default:
			if et, ok := v.entry.(*Term); ok && et.Sort != SInt {
				// a component of a reference type carried by point updates
				break
			}
			if isRefType(v.t) {
				add(v.name+"!=nil", func(ls *loopState) *Term { return Neq(asTerm(v.get(ls)), Zero) })
				add(v.name+"<A", func(ls *loopState) *Term { return Lt(asTerm(v.get(ls)), ls.st.allocPtr()) })
				add(v.name+">=0", func(ls *loopState) *Term { return Le(Zero, asTerm(v.get(ls))) })
				if et, ok := v.entry.(*Term); ok {
					if ct, ok := lc.entry.st.tags[et]; ok {
						add(v.name+" tag", func(ls *loopState) *Term {
							return Eq(App("tag", SInt, asTerm(v.get(ls))), IntT(int64(x.p.typeID(ct))))
						})
					}
				}
				if pt, ok := underlying(v.t).(*types.Pointer); ok {
					_ = pt
					add(v.name+" ptag", func(ls *loopState) *Term {
						t := asTerm(v.get(ls))
						return Or(Eq(t, Zero), Eq(App("tag", SInt, t), IntT(int64(x.p.typeID(v.t)))))
					})
				}
			}
		}
	}
	// frames for fully havocked keys
	var fks []string
	for k := range lc.full {
		fks = append(fks, k)
	}
	sort.Strings(fks)
	for _, k := range fks {
		k := k
		h0 := lc.entry.st.H(k)
		o := Var("fo", SInt)
		var bs []*Term
		for b := range lc.written[k] {
			bs = append(bs, b)
		}
		sort.Slice(bs, func(i, j int) bool { return bs[i].id < bs[j].id })
		mkFrame := func(ls *loopState, ex []*Term) *Term {
			h := ls.st.H(k)
			g := []*Term{Lt(o, lc.entryA)}
			for _, b := range ex {
				g = append(g, Neq(o, b))
			}
			sel := mk("select", elemSort(h.Sort), h, o)
			tr := [][]*Term{{sel}}
			if h.Op == "store" || h.Op == "ite" {
				tr = nil
			}
			return Forall([]*Term{o}, tr, Implies(And(g...), Eq(mk("select", elemSort(h.Sort), h, o), mk("select", elemSort(h0.Sort), h0, o))))
		}
		add("frame "+k, func(ls *loopState) *Term { return mkFrame(ls, nil) })
		if len(bs) > 0 {
			add("frame+ "+k, func(ls *loopState) *Term { return mkFrame(ls, bs) })
		}
	}
	// class invariants of the unit
	if x.unit != nil && x.unit.con != nil {
		for _, n := range x.unit.con.Invs {
			ci := x.invByName(n)
			keys := x.invReads(lc.entry.st, ci)
			once := ci.Type == nil || x.p.loopMayAlloc(lc.lp, ci.Type)
			add("nonew "+ci.Name, func(ls *loopState) *Term {
				o := Var("nn", SInt)
				tg := App("tag", SInt, o)
				return Forall([]*Term{o}, [][]*Term{{tg}}, Implies(And(Le(lc.entryA, o), Lt(o, ls.st.allocPtr())), Neq(tg, IntT(int64(x.p.typeID(ci.Type))))))
			})
			out[len(out)-1].once, out[len(out)-1].keep = once, !once
			add("inv "+ci.Name, func(ls *loopState) *Term {
				o := Var("invo", SInt)
				ls.st.wfKeys(keys)
				b := x.invBody(ls.st, ci, o, nil)
				cs := []*Term{Lt(Zero, o), Lt(o, ls.st.allocPtr()), Eq(App("tag", SInt, o), IntT(int64(x.p.typeID(ci.Type))))}
				cs = append(cs, x.otherFresh(ls.st, o, ci.Type)...)
				cs = append(cs, localObjs(ls.st, o, ci.Type)...)
				return Forall([]*Term{o}, x.invTrig(ls.st, ci, o), Implies(And(cs...), b))
			})
		}
	}
	out = append(out, lc.templates(vars, scope)...)
	out = append(out, lc.hints(vars, scope)...)
	return out
}

func sortOfSafe(t types.Type) (s Sort) {
	defer func() {
		if recover() != nil {
			s = ""
		}
	}()
	return sortOf(t)
}

// ---------------------------------------------------------------- templates

// collectors: slices that grow or are filled by the loop.
type dstInfo struct {
	name  string
	t     types.Type
	get   func(ls *loopState) *Comp
	bound []func(ls *loopState) *Term // candidates for the filled prefix
	bname []string
	first *Term // entry bound of each
}

func (lc *loopCtx) dsts(vars []*LoopVar, scope []namedVal) []*dstInfo {
	var out []*dstInfo
	for _, v := range vars {
		v := v
		if _, ok := underlying(v.t).(*types.Slice); ok {
			d := &dstInfo{name: v.name, t: v.t, get: func(ls *loopState) *Comp { return v.get(ls).(*Comp) }}
			d.bound = append(d.bound, func(ls *loopState) *Term { return v.get(ls).(*Comp).F[2].(*Term) })
			d.bname = append(d.bname, "len")
			out = append(out, d)
		}
	}
	for _, s := range scope {
		if _, ok := underlying(s.t).(*types.Slice); !ok {
			continue
		}
		c, ok := s.v.(*Comp)
		if !ok {
			continue
		}
		el := underlying(s.t).(*types.Slice).Elem()
		hit := false
		for _, k := range lc.x.leafKeys(lc.x.elemKey(el), el, 2) {
			if lc.point[k] != nil && lc.point[k][c.F[0].(*Term)] {
				hit = true
			}
			if lc.full[k] && lc.written[k] != nil && lc.written[k][c.F[0].(*Term)] {
				hit = true
			}
		}
		if !hit {
			continue
		}
		d := &dstInfo{name: s.name, t: s.t, get: func(ls *loopState) *Comp { return c }}
		lc.progressBounds(d, vars)
		out = append(out, d)
	}
	// slice fields loaded inside the loop from fixed objects (s.keys[idx] = ...)
	type fk struct {
		key  string
		base *Term
	}
	seen := map[fk]bool{}
	for b := range lc.lp.blocks {
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			ld, ok := ia.X.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL || !lc.lp.blocks[ld.Block()] {
				continue
			}
			fa, ok := ld.X.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			if in, ok := fa.X.(ssa.Instruction); ok && lc.lp.blocks[in.Block()] {
				continue
			}
			fe := lc.entry.st.frames[lc.fr.id]
			bv, ok := fe.m[fa.X]
			if !ok {
				continue
			}
			bt, ok := bv.(*Term)
			if !ok {
				continue
			}
			pt := underlying(fa.X.Type()).(*types.Pointer).Elem()
			f := underlying(pt).(*types.Struct).Field(fa.Field)
			if _, ok := underlying(f.Type()).(*types.Slice); !ok {
				continue
			}
			key := structKey(pt) + "." + f.Name()
			if seen[fk{key, bt}] {
				continue
			}
			seen[fk{key, bt}] = true
			ft := f.Type()
			d := &dstInfo{name: key, t: ft, get: func(ls *loopState) *Comp {
				return build(ft, func(suf string, lf leaf) *Term { return Select(ls.st.H(key+suf), bt) }).(*Comp)
			}}
			lc.x.leafKeys(key, ft, 1)
			lc.progressBounds(d, vars)
			out = append(out, d)
		}
	}
	return out
}

func (lc *loopCtx) progressBounds(d *dstInfo, vars []*LoopVar) {
	for _, v := range vars {
		v := v
		if isIntType(v.t) {
			// the number of finished iterations
			if v.name == "rangeindex" {
				d.bound = append(d.bound, func(ls *loopState) *Term { return Add(v.get(ls).(*Term), One) })
				d.bname = append(d.bname, v.name+"+1")
				continue
			}
			d.bound = append(d.bound, func(ls *loopState) *Term { return v.get(ls).(*Term) })
			d.bname = append(d.bname, v.name)
		}
	}
}

func (lc *loopCtx) elemAt(ls *loopState, c *Comp, t types.Type, i *Term) SVal {
	e := &SEnv{x: lc.x, h: &heapView{ls.st, nil, ls.st.allocPtr()}}
	return e.elem(c, underlying(t).(*types.Slice).Elem(), i)
}

// templates instantiates the generic loop hints of the specification:
//
//	mapping("dstElem", "srcElem", body over d, s)   each("dstElem", body over d)
//	keyed("dstElem", "K", "V", body over d, k, v)  for ranges over maps
func (lc *loopCtx) templates(vars []*LoopVar, scope []namedVal) []*cand {
	x := lc.x
	var out []*cand
	dsts := lc.dsts(vars, scope)
	typeArg := func(e ast.Expr) types.Type {
		s, _ := strconv.Unquote(e.(*ast.BasicLit).Value)
		return x.sp.parseType(s)
	}
	all := append([]*Clause(nil), x.sp.hints...)
	if x.unit != nil && x.unit.con != nil {
		for _, h := range x.unit.con.Hints {
			if h.elsewhere() {
				continue
			}
			if c, ok := h.E.(*ast.CallExpr); ok {
				switch exprStr(c.Fun) {
				case "mapping", "bimap", "each", "keyed", "sweep":
					all = append(all, h)
				}
			}
		}
	}
	for _, h := range all {
		h := h
		ce, ok := h.E.(*ast.CallExpr)
		if !ok {
			continue
		}
		kind := exprStr(ce.Fun)
		switch kind {
		case "each", "mapping", "bimap", "keyed":
			dt := typeArg(ce.Args[0])
			if dt == nil {
				continue
			}
			for _, d := range dsts {
				d := d
				if !types.Identical(underlying(d.t).(*types.Slice).Elem(), dt) {
					continue
				}
				for bi := range d.bound {
					bnd := d.bound[bi]
					build := func(name string, bodyArg int, bind func(ls *loopState, k *Term) map[string]SVal) {
						out = append(out, &cand{name: fmt.Sprintf("%s %s[%s] %s %s", kind, d.name, d.bname[bi], name, h.Label), f: func(ls *loopState) *Term {
							k := Var("tk", SInt)
							m := bind(ls, k)
							if m == nil {
								return nil
							}
							c := d.get(ls)
							dv := lc.elemAt(ls, c, d.t, k)
							m["d"] = dv
							for pn, pv := range lc.unitVars() {
								if _, ok := m[pn]; !ok {
									m[pn] = pv
								}
							}
							e := &SEnv{x: x, h: &heapView{ls.st, nil, ls.st.allocPtr()}, old: lc.entryView(), vars: m, bound: 50}
							body := e.bool(ce.Args[bodyArg])
							rng := And(Le(Zero, k), Lt(k, bnd(ls)))
							var tr [][]*Term
							if dt, ok := dv.V.(*Term); ok && dt.Op == "select" && !hasInterp(dt) && !hasStore(dt) {
								tr = [][]*Term{{dt}}
							}
							if kind == "keyed" {
								tr = append(tr, []*Term{m["k"].V.(*Term)})
							}
							fwd := Forall([]*Term{k}, tr, Implies(rng, body))
							if kind == "bimap" {
								// the same fact, found from the source's index
								if st, ok := m["s"].V.(*Term); ok && st.Op == "select" {
									w := Var("tw", SInt)
									at, arr := st.Args[1], st.Args[0]
									var ixf func(i *Term) *Term
									if at.Op == "app" && at.Name == "ix" && !occurs(at.Args[0], k) {
										off := at.Args[0]
										at, ixf = at.Args[1], func(i *Term) *Term { return App("ix", SInt, off, i) }
									} else {
										ixf = func(i *Term) *Term { return i }
									}
									rest := Sub(at, k)
									pat := Select(arr, ixf(w))
									if !occurs(rest, k) && !occurs(arr, k) && pat.Op == "select" && !hasInterp(pat) && !hasStore(pat) {
										bk := Subst(Implies(rng, body), map[*Term]*Term{k: Sub(w, rest)})
										return And(fwd, Forall([]*Term{w}, [][]*Term{{pat}}, bk))
									}
								}
							}
							return fwd
						}})
						if kind == "mapping" || kind == "bimap" {
							out[len(out)-1].group = fmt.Sprintf("%s[%s] %s", d.name, d.bname[bi], h.Label)
						}
					}
					switch kind {
					case "each":
						build("", 1, func(ls *loopState, k *Term) map[string]SVal { return map[string]SVal{} })
					case "keyed":
						kt, vt := typeArg(ce.Args[1]), typeArg(ce.Args[2])
						for id := range lc.modIter {
							it := lc.entry.st.iters[id]
							if !types.Identical(it.mapT.Key(), kt) || !types.Identical(it.mapT.Elem(), vt) {
								continue
							}
							build("iter", 3, func(ls *loopState, k *Term) map[string]SVal {
								key := App(it.keyFn, x.keySort(kt), k)
								return map[string]SVal{"k": {key, kt}, "v": {x.mapVal(ls.st, it.mapT, it.mapRef, key), vt}}
							})
						}
					case "mapping", "bimap":
						srcT := typeArg(ce.Args[1])
						if srcT == nil {
							continue
						}
						seen := map[string]bool{}
						for _, s := range lc.sources(scope) {
							s := s
							st0, ok := underlying(s.t).(*types.Slice)
							if !ok || !types.Identical(st0.Elem(), srcT) {
								continue
							}
							sc, ok := s.v.(*Comp)
							if !ok {
								continue
							}
							key := fmt.Sprint(flattenIDs(sc))
							if seen[key] {
								continue
							}
							seen[key] = true
							strides := []int64{1}
							if len(ce.Args) > 3 {
								strides = []int64{1, 2}
							}
							for _, stride := range strides {
								for c := int64(0); c <= 2; c++ {
									stride, c := stride, c
									build(fmt.Sprintf("src %s+%d*%d", s.name, c, stride), 2, func(ls *loopState, k *Term) map[string]SVal {
										return map[string]SVal{"s": lc.elemAt(ls, sc, s.t, Add(Mul(IntT(stride), k), IntT(c)))}
									})
								}
							}
						}
					}
				}
			}
		case "sweep":
			// sweep("srcElem", body over s): holds for all elements before i
			srcT := typeArg(ce.Args[0])
			seen := map[string]bool{}
			read := lc.readSlices()
			for _, s := range lc.sources(scope) {
				s := s
				st0, ok := underlying(s.t).(*types.Slice)
				if !ok || !types.Identical(st0.Elem(), srcT) {
					continue
				}
				sc, ok := s.v.(*Comp)
				if !ok {
					continue
				}
				key := fmt.Sprint(flattenIDs(sc))
				if seen[key] {
					continue
				}
				if !read[key] && !strings.Contains(s.name, ".") {
					continue // not looked at by the loop
				}
				seen[key] = true
				for _, v := range vars {
					v := v
					if !isIntType(v.t) {
						continue
					}
					for off := int64(0); off <= 1; off++ {
						off := off
						if (off == 1) != (v.name == "rangeindex") {
							continue // the number of finished iterations
						}
						for lo := int64(0); lo <= 1; lo++ {
							lo := lo
							out = append(out, &cand{name: fmt.Sprintf("sweep %s %d..%s+%d %s", s.name, lo, v.name, off, h.Label), f: func(ls *loopState) *Term {
								k := Var("tk", SInt)
								sv := lc.elemAt(ls, sc, s.t, k)
								m := map[string]SVal{"s": sv}
								for pn, pv := range lc.unitVars() {
									if _, ok := m[pn]; !ok {
										m[pn] = pv
									}
								}
								e := &SEnv{x: x, h: &heapView{ls.st, nil, ls.st.allocPtr()}, old: lc.entryView(), vars: m, bound: 50}
								body := e.bool(ce.Args[1])
								var tr [][]*Term
								if t, ok := sv.V.(*Term); ok && t.Op == "select" && !hasInterp(t) && !hasStore(t) {
									tr = [][]*Term{{t}}
								}
								return Forall([]*Term{k}, tr, Implies(And(Le(IntT(lo), k), Lt(k, Add(v.get(ls).(*Term), IntT(off)))), body))
							}})
						}
					}
				}
			}
		}
	}
	return out
}

func flattenIDs(c *Comp) []int64 {
	var out []int64
	for _, f := range c.F {
		if t, ok := f.(*Term); ok {
			out = append(out, t.id)
		}
	}
	return out
}

// sources: slices available as inputs.
func (lc *loopCtx) sources(scope []namedVal) []namedVal {
	out := append([]namedVal(nil), scope...)
	for n, v := range lc.unitVars() {
		if _, ok := underlying(v.T).(*types.Slice); ok {
			out = append(out, namedVal{"$" + n, v.T, v.V})
		}
	}
	// slices stored in object fields that the loop reads but does not change
	fe := lc.entry.st.frames[lc.fr.id]
	for b := range lc.lp.blocks {
		for _, in := range b.Instrs {
			ld, ok := in.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL {
				continue
			}
			fa, ok := ld.X.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			bv, ok := fe.m[fa.X]
			if !ok {
				continue
			}
			bt, ok := bv.(*Term)
			if !ok {
				continue
			}
			pt := underlying(fa.X.Type()).(*types.Pointer).Elem()
			f := underlying(pt).(*types.Struct).Field(fa.Field)
			if _, ok := underlying(f.Type()).(*types.Slice); !ok {
				continue
			}
			key := structKey(pt) + "." + f.Name()
			lc.x.leafKeys(key, f.Type(), 1)
			if lc.full[key+"#a"] || lc.point[key+"#a"] != nil {
				continue
			}
			v := build(f.Type(), func(suf string, lf leaf) *Term { return Select(lc.entry.st.H(key+suf), bt) })
			out = append(out, namedVal{key, f.Type(), v})
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func (lc *loopCtx) entryView() *heapView {
	return &heapView{lc.entry.st, nil, lc.entryA}
}

func (lc *loopCtx) unitVars() map[string]SVal {
	if lc.x.unit == nil {
		return nil
	}
	return lc.x.args
}

// hints: explicit candidate invariants of the unit's contract; names resolve
// to loop phis by source name, then frame values, then contract parameters.
func (lc *loopCtx) hints(vars []*LoopVar, scope []namedVal) []*cand {
	x := lc.x
	var out []*cand
	if x.unit == nil || x.unit.con == nil {
		return nil
	}
	// metavariables: $i ranges over integer loop variables (written mv_i)
	var ints []*LoopVar
	for _, v := range vars {
		if isIntType(v.t) {
			ints = append(ints, v)
		}
	}
	var strs []*LoopVar
	for _, v := range vars {
		if b, ok := underlying(v.t).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			strs = append(strs, v)
		}
	}
	var lists []*LoopVar
	for _, v := range vars {
		if _, ok := underlying(v.t).(*types.Slice); ok {
			lists = append(lists, v)
		}
	}
	var ptrs []*LoopVar
	for _, v := range vars {
		if _, ok := underlying(v.t).(*types.Pointer); ok {
			ptrs = append(ptrs, v)
		}
	}
	for _, h := range x.unit.con.Hints {
		if h.elsewhere() {
			continue
		}
		h := h
		if c, ok := h.E.(*ast.CallExpr); ok {
			switch exprStr(c.Fun) {
			case "mapping", "bimap", "each", "keyed", "sweep":
				continue
			}
		}
		usesI, usesP, usesJ, usesIt, usesS, usesL, usesM, usesO, usesK := false, false, false, false, false, false, false, false, false
		usesR := false
		ast.Inspect(h.E, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				switch id.Name {
				case "mv_i":
					usesI = true
				case "mv_j":
					usesJ = true
				case "mv_p":
					usesP = true
				case "mv_s":
					usesS = true
				case "mv_l":
					usesL = true
				case "mv_m":
					usesM = true
				case "mv_k":
					usesK = true
				case "mv_o":
					usesO = true
				case "mv_r":
					usesR = true
				case "iterkey", "iterpos", "iteridx":
					usesIt = true
				}
			}
			return true
		})
		type bind struct {
			name string
			m    map[string]func(ls *loopState) SVal
		}
		binds := []bind{{"", map[string]func(ls *loopState) SVal{}}}
		expand := func(mv string, opts []*LoopVar, offs []int64) {
			var nb []bind
			for _, b := range binds {
				for _, o := range opts {
					for _, off := range offs {
						if len(offs) > 1 && (off == 1) != (o.name == "rangeindex") {
							// the number of finished iterations
							continue
						}
						o, off := o, off
						m := map[string]func(ls *loopState) SVal{}
						for k, v := range b.m {
							m[k] = v
						}
						m[mv] = func(ls *loopState) SVal {
							v := o.get(ls)
							if off != 0 {
								v = Add(v.(*Term), IntT(off))
							}
							return SVal{v, o.t}
						}
						nb = append(nb, bind{fmt.Sprintf("%s %s=%s+%d", b.name, mv, o.name, off), m})
					}
				}
			}
			binds = nb
		}
		if usesI {
			expand("mv_i", ints, []int64{0, 1})
		}
		if usesJ {
			expand("mv_j", ints, []int64{0})
		}
		if usesP {
			expand("mv_p", ptrs, []int64{0})
		}
		if usesS {
			expand("mv_s", strs, []int64{0})
		}
		if usesL {
			expand("mv_l", lists, []int64{0})
		}
		// mv_m, mv_o: slices and objects that the loop does not change
		params := map[*Term]bool{}
		for _, v := range lc.unitVars() {
			if t, ok := v.V.(*Term); ok {
				params[t] = true
			}
		}
		fixed := func(mv string, keep func(t types.Type) bool) {
			var nb []bind
			seen := map[string]bool{}
			for _, src := range lc.sources(scope) {
				src := src
				if !keep(underlying(src.t)) {
					continue
				}
				id := fmt.Sprint(src.t)
				if c, ok := src.v.(*Comp); ok {
					id += fmt.Sprint(flattenIDs(c))
				} else if t, ok := src.v.(*Term); ok {
					// parameters can be named by the contract itself
					if t.Sort != SInt || t == Zero || params[t] {
						continue
					}
					id += fmt.Sprint(t.id)
				} else {
					continue
				}
				if seen[id] {
					continue
				}
				seen[id] = true
				for _, b := range binds {
					m := map[string]func(ls *loopState) SVal{}
					for k, v := range b.m {
						m[k] = v
					}
					m[mv] = func(ls *loopState) SVal { return SVal{src.v, src.t} }
					nb = append(nb, bind{fmt.Sprintf("%s %s=%s", b.name, mv, src.name), m})
				}
			}
			binds = nb
		}
		if usesM {
			var lt types.Type
			if usesL && len(lists) > 0 {
				lt = underlying(lists[0].t)
			}
			fixed("mv_m", func(t types.Type) bool {
				_, ok := t.(*types.Slice)
				return ok && (lt == nil || types.Identical(lt, t))
			})
		}
		// mv_k: slices of another type than mv_l
		if usesK && len(lists) > 0 {
			lt := underlying(lists[0].t)
			fixed("mv_k", func(t types.Type) bool {
				_, ok := t.(*types.Slice)
				return ok && !types.Identical(lt, t)
			})
		}
		if usesO {
			fixed("mv_o", func(t types.Type) bool {
				switch t.(type) {
				case *types.Pointer, *types.Interface:
					return true
				}
				return false
			})
		}
		// mv_r: the objects whose stream position the loop moves
		if usesR {
			var bases []*Term
			for b := range lc.point["stream.$pos"] {
				bases = append(bases, b)
			}
			sort.Slice(bases, func(i, j int) bool { return bases[i].id < bases[j].id })
			var nb []bind
			for _, b := range binds {
				for _, o := range bases {
					o := o
					if o == Zero {
						continue
					}
					m := map[string]func(ls *loopState) SVal{}
					for k, v := range b.m {
						m[k] = v
					}
					m["mv_r"] = func(ls *loopState) SVal { return SVal{o, tInt} }
					nb = append(nb, bind{fmt.Sprintf("%s mv_r=%s", b.name, o), m})
				}
			}
			binds = nb
		}
		if usesIt {
			var nb []bind
			for _, b := range binds {
				for id := range lc.modIter {
					id := id
					it := lc.entry.st.iters[id]
					m := map[string]func(ls *loopState) SVal{}
					for k, v := range b.m {
						m[k] = v
					}
					m["iteridx"] = func(ls *loopState) SVal { return SVal{ls.st.iters[id].idx, tInt} }
					_ = it
					m["iterid"] = func(ls *loopState) SVal { return SVal{IntT(int64(id)), tInt} }
					nb = append(nb, bind{b.name + " it", m})
				}
			}
			binds = nb
		}
		for _, b := range binds {
			b := b
			out = append(out, &cand{name: "hint " + h.Label + b.name, f: func(ls *loopState) *Term {
				m := map[string]SVal{}
				for n, v := range lc.unitVars() {
					m[n] = v
				}
				for _, s := range scope {
					if _, ok := m[s.name]; !ok {
						m[s.name] = SVal{s.v, s.t}
					}
				}
				for _, v := range vars {
					m[v.name] = SVal{v.get(ls), v.t}
				}
				for k, f := range b.m {
					m[k] = f(ls)
				}
				var facts []*Term
				e := &SEnv{x: x, h: &heapView{ls.st, nil, ls.st.allocPtr()}, old: x.unit.oldView(ls.st), vars: m, bound: 50, facts: &facts}
				e.loopEntry = lc.entryView()
				e.iters = ls.st.iters
				t := e.bool(h.E)
				for _, f := range facts {
					ls.st.assume(f)
				}
				return t
			}})
		}
	}
	return out
}

// occurs reports whether the variable k occurs in t.
func occurs(t, k *Term) bool {
	return Subst(t, map[*Term]*Term{k: Var("occurs?", k.Sort)}) != t
}

// readSlices: the slices whose elements the loop, or a function inlined into
// it, addresses.
func (lc *loopCtx) readSlices() map[string]bool {
	out := map[string]bool{}
	fe := lc.entry.st.frames[lc.fr.id]
	if fe == nil {
		return out
	}
	for b := range lc.lp.blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				if _, ok := underlying((*op).Type()).(*types.Slice); !ok {
					continue
				}
				if c, ok := fe.m[*op].(*Comp); ok {
					out[fmt.Sprint(flattenIDs(c))] = true
				}
			}
		}
	}
	return out
}

// elsewhere: the clause names properties and not the one being checked.
func (c *Clause) elsewhere() bool {
	return onlyProp != "" && len(c.Props) > 0 && !c.Props[onlyProp]
}

var profMu sync.Mutex
var profT = map[string]time.Duration{}
var profN = map[string]int{}

func profile(k string, ok bool, d time.Duration) {
	profMu.Lock()
	k = fmt.Sprintf("%s %v", k, ok)
	profT[k] += d
	profN[k]++
	profMu.Unlock()
}
