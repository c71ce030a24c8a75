package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type PC struct {
	parent *PC
	fact   *Term
	n      int
}

type loopKey struct {
	frame int
	loop  *Loop
}

type iterState struct {
	mapRef *Term
	mapT   *types.Map
	dom    *Term // domain at range time
	keyFn  string
	posFn  string
	idx    *Term // next position
	n      *Term
	pre    string // heap key prefix
}

type frameEnv struct {
	m      map[ssa.Value]Val
	shared bool
}

type heapWrite struct {
	key  string
	base *Term
	idx  *Term
}

// State is one symbolic path state.
type State struct {
	x       *Exec
	heap    map[string]*Term
	pc      *PC
	A       *Term
	k       int64
	frames  map[int]*frameEnv
	tags    map[*Term]types.Type
	nonnil  map[*Term]bool
	active  map[loopKey]*loopRun
	iters   map[int]*iterState
	looped  bool            // the path went through a loop
	lastRes map[string]SVal // first result of the last call of each contract
	defers  map[int][]*deferred
	writes  []heapWrite
	fresh   []freshObj // objects allocated on this path
	dead    bool
	steps   []string // path description
	invOK   map[string]*invMark
	serial  int
	ownRefs []*Term         // non-object references allocated on this path
	guardOf map[*Term]*Addr // map references loaded from guarded fields
}

type freshObj struct {
	ref   *Term
	t     types.Type
	local bool // still under construction: not visible to any callee before the unit returns
}

type deferred struct {
	call *ssa.Defer
	args []Val
	fn   Val
}

func (s *State) clone() *State {
	n := &State{x: s.x, pc: s.pc, A: s.A, k: s.k, serial: s.serial}
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.frames = make(map[int]*frameEnv, len(s.frames))
	for k, v := range s.frames {
		v.shared = true
		n.frames[k] = &frameEnv{v.m, true}
	}
	n.tags = make(map[*Term]types.Type, len(s.tags))
	for k, v := range s.tags {
		n.tags[k] = v
	}
	n.nonnil = make(map[*Term]bool, len(s.nonnil))
	for k, v := range s.nonnil {
		n.nonnil[k] = v
	}
	n.active = make(map[loopKey]*loopRun, len(s.active))
	for k, v := range s.active {
		n.active[k] = v
	}
	n.lastRes = make(map[string]SVal, len(s.lastRes))
	for k, v := range s.lastRes {
		n.lastRes[k] = v
	}
	n.iters = make(map[int]*iterState, len(s.iters))
	for k, v := range s.iters {
		c := *v
		n.iters[k] = &c
	}
	n.defers = make(map[int][]*deferred, len(s.defers))
	for k, v := range s.defers {
		n.defers[k] = append([]*deferred(nil), v...)
	}
	n.writes = append([]heapWrite(nil), s.writes...)
	n.fresh = append([]freshObj(nil), s.fresh...)
	n.steps = append([]string(nil), s.steps...)
	n.ownRefs = append([]*Term(nil), s.ownRefs...)
	n.invOK = make(map[string]*invMark, len(s.invOK))
	for k, v := range s.invOK {
		n.invOK[k] = v
	}
	if s.guardOf != nil {
		n.guardOf = make(map[*Term]*Addr, len(s.guardOf))
		for k, v := range s.guardOf {
			n.guardOf[k] = v
		}
	}
	return n
}

func (s *State) set(frame int, v ssa.Value, val Val) {
	fe := s.frames[frame]
	if fe == nil {
		fe = &frameEnv{m: map[ssa.Value]Val{}}
		s.frames[frame] = fe
	}
	if fe.shared {
		m := make(map[ssa.Value]Val, len(fe.m)+8)
		for k, v := range fe.m {
			m[k] = v
		}
		fe = &frameEnv{m: m}
		s.frames[frame] = fe
	}
	fe.m[v] = val
}

func (s *State) assume(f *Term) {
	if f.isTrue() {
		return
	}
	if f.isFalse() {
		s.dead = true
	}
	if f.Op == "and" {
		for _, a := range f.Args {
			s.assume(a)
		}
		return
	}
	if s.knows(f) {
		return
	}
	n := 0
	if s.pc != nil {
		n = s.pc.n + 1
	}
	s.pc = &PC{s.pc, f, n}
	// learn non-nil facts
	if f.Op == "not" && f.Args[0].Op == "=" {
		e := f.Args[0]
		if e.Args[0] == Zero {
			s.nonnil[e.Args[1]] = true
		} else if e.Args[1] == Zero {
			s.nonnil[e.Args[0]] = true
		}
	}
	if f.Op == "<" && f.Args[0] == Zero {
		s.nonnil[f.Args[1]] = true
	}
}

func (s *State) knows(f *Term) bool {
	for p := s.pc; p != nil; p = p.parent {
		if p.fact == f {
			return true
		}
	}
	return false
}

func (s *State) facts() []*Term {
	var out []*Term
	for p := s.pc; p != nil; p = p.parent {
		out = append(out, p.fact)
	}
	return out
}

// ---------------------------------------------------------------- heap

type keyInfo struct {
	sort  Sort // full array sort
	ref   bool // element values are references
	iface bool
	elem  types.Type
}

func (x *Exec) regKey(key string, leafSort Sort, dims int, ref, iface bool, elem types.Type) {
	if _, ok := x.keys[key]; ok {
		return
	}
	s := leafSort
	for i := 0; i < dims; i++ {
		s = ArrSort(SInt, s)
	}
	x.keys[key] = keyInfo{s, ref, iface, elem}
}

// heapSym creates a fresh heap symbol with its well-formedness axiom.
func (x *Exec) heapSym(st *State, key, tag string, ep int, A *Term) *Term {
	ki := x.keys[key]
	name := fmt.Sprintf("%s!H!%s!%s", x.uid, key, tag)
	if !ki.ref {
		t := Sym(name, ki.sort)
		if strings.HasSuffix(key, "#n") || strings.HasSuffix(key, "#o") || strings.HasSuffix(key, "#c") {
			x.rangeAxiom(name, t, func(v *Term) *Term { return And(Le(Zero, v), Le(v, IntT(maxLen))) })
		} else if ki.elem != nil {
			if lo, hi, ok := intRange(ki.elem); ok && elemLeaf(ki.sort) == SInt {
				x.rangeAxiom(name, t, func(v *Term) *Term { return And(Le(BigT(lo), v), Le(v, BigT(hi))) })
			}
		}
		return t
	}
	name = fmt.Sprintf("%s@e%d", name, ep)
	t := Sym(name, ki.sort)
	x.rangeAxiomB(name, t, A, func(v *Term) *Term {
		if ki.iface {
			return Lt(v, A)
		}
		return And(Le(Zero, v), Lt(v, A))
	})
	return t
}

func elemLeaf(s Sort) Sort {
	for strings.HasPrefix(s, "(Array") {
		s = elemSort(s)
	}
	return s
}

func (x *Exec) rangeAxiom(name string, t *Term, p func(*Term) *Term) {
	x.rangeAxiomB(name, t, nil, p)
}

func (x *Exec) rangeAxiomB(name string, t *Term, A *Term, p func(*Term) *Term) {
	var vars []*Term
	cur := t
	s := t.Sort
	i := 0
	for strings.HasPrefix(s, "(Array") {
		k, v := splitArr(s)
		va := Var(fmt.Sprintf("w%d", i), k)
		vars = append(vars, va)
		cur = mk("select", v, cur, va)
		s = v
		i++
	}
	body := p(cur)
	if A != nil {
		body = Implies(Lt(vars[0], A), body)
	}
	gdecls.axiom(name, Forall(vars, [][]*Term{{cur}}, body))
}

// H returns the current heap array of key.
func (s *State) H(key string) *Term {
	if t, ok := s.heap[key]; ok {
		return t
	}
	if _, ok := s.x.keys[key]; !ok {
		panic(unsupported{"unknown heap key " + key})
	}
	t := s.x.heapSym(s, key, "0", 0, s.x.A0)
	s.heap[key] = t
	return t
}

// wfKeys assumes, for the reference-valued keys, that every object allocated so
// far holds only references allocated so far (true of any state).
func (s *State) wfKeys(keys []string) {
	x := s.x
	A := s.allocPtr()
	for _, k := range keys {
		ki, ok := x.keys[k]
		if !ok || !ki.ref || !strings.HasPrefix(ki.sort, "(Array Int") {
			continue
		}
		h := s.H(k)
		base := h
		for base.Op == "store" {
			base = base.Args[0]
		}
		if base.Op != "sym" {
			continue
		}
		var vars []*Term
		cur, pat := h, base
		so := h.Sort
		for i := 0; strings.HasPrefix(so, "(Array"); i++ {
			kk, v := splitArr(so)
			va := Var(fmt.Sprintf("w%d", i), kk)
			vars = append(vars, va)
			cur, pat = mk("select", v, cur, va), mk("select", v, pat, va)
			so = v
		}
		b := Lt(cur, A)
		if !ki.iface {
			b = And(Le(Zero, cur), b)
		}
		s.assume(Forall(vars, [][]*Term{{pat}}, Implies(Lt(vars[0], A), b)))
	}
}

func (s *State) setH(key string, t *Term) { s.heap[key] = t }

func (x *Exec) epoch() int {
	x.nEpoch++
	return x.nEpoch
}

// havocHeap gives key a fresh unknown array (bounded by the current alloc).
func (s *State) havocHeap(key string) *Term {
	s.x.nFresh++
	t := s.x.heapSym(s, key, fmt.Sprintf("h%d", s.x.nFresh), epochNum(s.A), s.A)
	s.heap[key] = t
	return t
}

// bumpAlloc starts a new allocation epoch (unknown number of allocations).
func (s *State) bumpAlloc() {
	e := s.x.epoch()
	n := Sym(fmt.Sprintf("A!%s!%d", s.x.uid, e), SInt)
	s.assume(Le(Add(s.A, IntT(s.k)), n))
	s.A = n
	s.k = 0
}

// sealAlloc makes the current allocation pointer an epoch symbol, so heap
// symbols created now can be bounded by it.
func (s *State) sealAlloc() {
	if s.k > 0 {
		old := s.allocPtr()
		s.bumpAlloc()
		s.assume(Eq(s.A, old)) // nothing was allocated in between
	}
}

func (s *State) allocPtr() *Term { return Add(s.A, IntT(s.k)) }

// newMem reserves a reference for a slice's memory or a map.
func (s *State) newMem(elems ...types.Type) *Term {
	r := s.newRef(nil)
	for _, t := range elems {
		if isRefType(t) {
			// new memory has no owner
			s.assume(Eq(s.x.ghostGet(s, "mem", "own", r), Zero))
			break
		}
	}
	s.assume(Eq(App("tag", SInt, r), IntT(int64(s.x.p.typeIDByName("mem")))))
	return r
}

func (s *State) newRef(t types.Type) *Term {
	r := Add(s.A, IntT(s.k))
	s.k++
	s.nonnil[r] = true
	if t != nil {
		s.fresh = append(s.fresh, freshObj{ref: r, t: t})
	} else {
		s.ownRefs = append(s.ownRefs, r)
	}
	return r
}

// ---------------------------------------------------------------- loc access

func structKey(t types.Type) string { return typeName(t) }

func (x *Exec) elemKey(t types.Type) string {
	if b, ok := t.(*types.Basic); ok {
		return "[]" + types.Typ[b.Kind()].Name()
	}
	return "[]" + typeName(t)
}

// keyFor registers and returns heap keys for the leaves of t at prefix.
func (x *Exec) leafKeys(prefix string, t types.Type, dims int) []string {
	var out []string
	for _, l := range leaves(t) {
		k := prefix + l.suffix
		if l.kind != 0 {
			x.regKey(k, SInt, dims, l.kind == 'a', false, nil)
		} else {
			x.regKey(k, l.sort, dims, isRefType(l.typ), isIfaceType(l.typ), l.typ)
		}
		out = append(out, k)
	}
	return out
}

func (s *State) loadAddr(a *Addr) Val {
	dims := 1
	if a.Idx != nil {
		dims = 2
	}
	s.x.leafKeys(a.Key, a.T, dims)
	v := build(a.T, func(suf string, l leaf) *Term {
		h := s.H(a.Key + suf)
		t := Select(h, a.Base)
		if a.Idx != nil {
			t = Select(t, a.Idx)
		}
		return t
	})
	s.wfLoaded(v, a.T)
	return v
}

// wfLoaded adds facts every stored Go value satisfies.
func (s *State) wfLoaded(v Val, t types.Type) {
	switch u := underlying(t).(type) {
	case *types.Slice:
		c := v.(*Comp)
		n, cp, ar := c.F[2].(*Term), c.F[3].(*Term), c.F[0].(*Term)
		s.assume(Le(n, cp))
		s.assume(Le(Zero, n))
		s.assume(Implies(Eq(ar, Zero), Eq(cp, Zero)))
		_ = u
	case *types.Struct:
		c := v.(*Comp)
		if isOpaqueStruct(t) {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			s.wfLoaded(c.F[i], u.Field(i).Type())
		}
	}
}

func (s *State) storeAddr(a *Addr, v Val) {
	dims := 1
	if a.Idx != nil {
		dims = 2
	}
	keys := s.x.leafKeys(a.Key, a.T, dims)
	ts := flatten(v, a.T)
	if len(keys) != len(ts) {
		panic(unsupported{fmt.Sprintf("store %s: %d leaves vs %d", a.Key, len(keys), len(ts))})
	}
	for i, k := range keys {
		h := s.H(k)
		if a.Idx != nil {
			s.setH(k, Store(h, a.Base, Store(Select(h, a.Base), a.Idx, ts[i])))
		} else {
			s.setH(k, Store(h, a.Base, ts[i]))
		}
		s.writes = append(s.writes, heapWrite{k, a.Base, a.Idx})
	}
}

// ---------------------------------------------------------------- fresh values

func (x *Exec) freshSym(name string, s Sort) *Term {
	x.nFresh++
	return Sym(fmt.Sprintf("%s!%s!%d", x.uid, name, x.nFresh), s)
}

// freshVal is an arbitrary well-formed value of type t existing now.
func (s *State) freshVal(t types.Type, name string) Val {
	s.sealAlloc()
	v := build(t, func(suf string, l leaf) *Term {
		s.x.nFresh++
		nm := fmt.Sprintf("%s!%s%s!%d", s.x.uid, name, suf, s.x.nFresh)
		if l.kind == 'a' || (l.kind == 0 && isRefType(l.typ)) {
			nm = fmt.Sprintf("%s@e%d", nm, epochNum(s.A))
		}
		t := Sym(nm, l.sort)
		s.leafFacts(t, l)
		return t
	})
	s.wfLoaded(v, t)
	return v
}

func (s *State) leafFacts(t *Term, l leaf) {
	switch l.kind {
	case 'a':
		s.assume(And(Le(Zero, t), Lt(t, s.A)))
		return
	case 'o', 'n', 'c':
		s.assume(And(Le(Zero, t), Le(t, IntT(maxLen))))
		return
	}
	if isRefType(l.typ) {
		if isIfaceType(l.typ) {
			s.assume(Lt(t, s.A))
		} else {
			s.assume(And(Le(Zero, t), Lt(t, s.A)))
		}
		return
	}
	if lo, hi, ok := intRange(l.typ); ok {
		s.assume(And(Le(BigT(lo), t), Le(t, BigT(hi))))
	}
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func debugf(f string, a ...interface{}) {
	if os.Getenv("GVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "%s ", time.Now().Format("05.000"))
		fmt.Fprintf(os.Stderr, f, a...)
	}
}
