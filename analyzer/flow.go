package main

import (
	"golang.org/x/tools/go/ssa"
)

// instrIndex is the position of an instruction in its block.
func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// pathAvoid says whether some path leads from just after `from` to `to` without
// executing an instruction for which avoid holds (to itself is not tested).
func pathAvoid(from, to ssa.Instruction, avoid func(ssa.Instruction) bool) bool {
	return reachFrom(from.Block(), instrIndex(from)+1, func(in ssa.Instruction) int {
		if in == to {
			return 1
		}
		if avoid != nil && avoid(in) {
			return -1
		}
		return 0
	}) != nil
}

// reachFrom walks forward from instruction index i of block b. visit returns 1
// to stop with success, -1 to cut this path, 0 to go on. It returns the
// instruction that succeeded, or nil.
func reachFrom(b *ssa.BasicBlock, i int, visit func(ssa.Instruction) int) ssa.Instruction {
	type pt struct {
		b *ssa.BasicBlock
		i int
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []pt{{b, i}}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		cut := false
		for k := p.i; k < len(p.b.Instrs); k++ {
			switch visit(p.b.Instrs[k]) {
			case 1:
				return p.b.Instrs[k]
			case -1:
				cut = true
			}
			if cut {
				break
			}
		}
		if cut {
			continue
		}
		for _, s := range p.b.Succs {
			if !seen[s] {
				seen[s] = true
				work = append(work, pt{s, 0})
			}
		}
	}
	return nil
}

// instrs calls f for every instruction of a function.
func instrs(fn *ssa.Function, f func(ssa.Instruction)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			f(in)
		}
	}
}

// dominatesInstr says whether a is executed before b on every path to b.
func dominatesInstr(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return instrIndex(a) < instrIndex(b)
	}
	return a.Block().Dominates(b.Block())
}
