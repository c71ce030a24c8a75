package main

import (
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Loop is a natural loop.
type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	index  int
}

type LoopInfo struct {
	head  map[*ssa.BasicBlock]*Loop
	loops []*Loop
}

var loopCache sync.Map

func loopsOf(fn *ssa.Function) *LoopInfo {
	if v, ok := loopCache.Load(fn); ok {
		return v.(*LoopInfo)
	}
	li := &LoopInfo{head: map[*ssa.BasicBlock]*Loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge
				lp := li.head[s]
				if lp == nil {
					lp = &Loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}, index: len(li.loops)}
					li.head[s] = lp
					li.loops = append(li.loops, lp)
				}
				var work []*ssa.BasicBlock
				if !lp.blocks[b] {
					lp.blocks[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					n := work[len(work)-1]
					work = work[:len(work)-1]
					for _, p := range n.Preds {
						if !lp.blocks[p] {
							lp.blocks[p] = true
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	loopCache.Store(fn, li)
	return li
}
