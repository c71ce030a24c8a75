package main

import (
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Static reachability: which classes a function can allocate objects of.

var reachMu sync.Mutex
var reachMemo = map[*ssa.Function]map[string]bool{}

// mayAlloc: fn or anything it may call can create an object of type t (a
// pointer to a repository struct).
func (p *Program) mayAlloc(fn *ssa.Function, t types.Type) bool {
	if fn == nil {
		return true
	}
	reachMu.Lock()
	defer reachMu.Unlock()
	m := reachMemo[fn]
	if m == nil {
		m = map[string]bool{}
		seen := map[*ssa.Function]bool{}
		p.collectAllocs(fn, seen, m)
		reachMemo[fn] = m
	}
	pt, ok := t.(*types.Pointer)
	if !ok {
		return true
	}
	return m["*"] || m[typeName(pt.Elem())]
}

func (p *Program) collectAllocs(fn *ssa.Function, seen map[*ssa.Function]bool, out map[string]bool) {
	if fn == nil || seen[fn] {
		return
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			p.collectInstr(in, seen, out)
		}
	}
}

func (p *Program) collectInstr(in ssa.Instruction, seen map[*ssa.Function]bool, out map[string]bool) {
	switch in := in.(type) {
	case *ssa.Alloc:
		p.addAlloc(in.Type().(*types.Pointer).Elem(), out)
	case *ssa.MakeSlice:
		p.addAlloc(in.Type().Underlying().(*types.Slice).Elem(), out)
	case *ssa.MakeClosure:
		p.collectAllocs(in.Fn.(*ssa.Function), seen, out)
	case ssa.CallInstruction:
		cc := in.Common()
		if cc.IsInvoke() {
			it, _ := cc.Value.Type().Underlying().(*types.Interface)
			for _, im := range p.implementers(it) {
				if sel := p.prog.MethodSets.MethodSet(im).Lookup(cc.Method.Pkg(), cc.Method.Name()); sel != nil {
					p.collectAllocs(p.prog.MethodValue(sel), seen, out)
				}
			}
			return
		}
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			return
		}
		if c := cc.StaticCallee(); c != nil {
			p.collectAllocs(c, seen, out)
			return
		}
		out["*"] = true // unknown function value
	}
	for _, op := range in.Operands(nil) {
		if f, ok := (*op).(*ssa.Function); ok {
			p.collectAllocs(f, seen, out)
		}
	}
}

// loopMayAlloc: an iteration may create an object of the class of t.
func (p *Program) loopMayAlloc(lp *Loop, t types.Type) bool {
	pt, ok := t.(*types.Pointer)
	if !ok {
		return true
	}
	reachMu.Lock()
	defer reachMu.Unlock()
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			p.collectInstr(in, seen, out)
		}
	}
	return out["*"] || out[typeName(pt.Elem())]
}

func (p *Program) addAlloc(t types.Type, out map[string]bool) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		out[typeName(t)] = true
	case *types.Array:
		p.addAlloc(u.Elem(), out)
	}
}

// mayCall: fn may, directly or not, call target (statically or by interface).
func (p *Program) mayCall(fn, target *ssa.Function) bool {
	reachMu.Lock()
	defer reachMu.Unlock()
	seen := map[*ssa.Function]bool{}
	p.collectAllocs(fn, seen, map[string]bool{})
	return seen[target]
}

// mayCallName reports whether running the loop may call the function of
// the contract.
func (lc *loopCtx) mayCallName(seen map[*ssa.Function]bool, any bool, name string) bool {
	if any {
		return true
	}
	if i := strings.IndexByte(name, '#'); i >= 0 {
		name = name[:i]
	}
	m := name[strings.LastIndexByte(name, '.')+1:]
	for f := range seen {
		if f != nil && f.Name() == m {
			return true
		}
	}
	return false
}

func (lc *loopCtx) callees() (seen map[*ssa.Function]bool, any bool) {
	seen = map[*ssa.Function]bool{}
	reachMu.Lock()
	defer reachMu.Unlock()
	for b := range lc.lp.blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := c.Common()
			if _, ok := cc.Value.(*ssa.Builtin); ok {
				continue
			}
			f := cc.StaticCallee()
			if f == nil {
				return seen, true
			}
			lc.x.p.collectAllocs(f, seen, map[string]bool{})
		}
	}
	return seen, false
}
