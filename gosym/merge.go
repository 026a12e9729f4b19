package main

// Merging of small side-effect-free regions: `a && b`, conditional assignments and the
// like become ite terms instead of forked paths.

import (
	"go/token"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type mergeAbort struct{}

type mergeRegion struct {
	join *ssa.BasicBlock
}

var mergeMu sync.RWMutex
var mergeCache = map[*ssa.BasicBlock]*mergeRegion{}

func pureInstr(ins ssa.Instruction) bool {
	switch ins := ins.(type) {
	case *ssa.DebugRef, *ssa.Phi, *ssa.Jump, *ssa.If, *ssa.BinOp, *ssa.Field, *ssa.FieldAddr, *ssa.Index, *ssa.IndexAddr,
		*ssa.Convert, *ssa.ChangeType, *ssa.MakeInterface, *ssa.Extract, *ssa.Lookup, *ssa.ChangeInterface, *ssa.TypeAssert:
		return true
	case *ssa.UnOp:
		return ins.Op != token.ARROW
	case *ssa.Call:
		if b, ok := ins.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap"
		}
	}
	return false
}

// findRegion looks for the nearest join block that every path from b reaches through pure blocks.
func findRegion(b *ssa.BasicBlock) *mergeRegion {
	mergeMu.RLock()
	r, ok := mergeCache[b]
	mergeMu.RUnlock()
	if ok {
		return r
	}
	r = computeRegion(b)
	mergeMu.Lock()
	mergeCache[b] = r
	mergeMu.Unlock()
	return r
}

func computeRegion(b *ssa.BasicBlock) *mergeRegion {
	// candidate joins: blocks reachable within a small pure region
	type st struct{ blk *ssa.BasicBlock }
	pure := func(x *ssa.BasicBlock) bool {
		if len(x.Instrs) > 24 {
			return false
		}
		for _, ins := range x.Instrs {
			if !pureInstr(ins) {
				return false
			}
		}
		return true
	}
	// try each candidate join in BFS order
	var cands []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{b: true}
	q := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(q) > 0 && len(cands) < 16 {
		x := q[0]
		q = q[1:]
		if seen[x] {
			continue
		}
		seen[x] = true
		cands = append(cands, x)
		if pure(x) {
			q = append(q, x.Succs...)
		}
	}
	for _, j := range cands {
		if len(j.Preds) < 2 {
			continue
		}
		// all paths from b must hit j, via pure blocks, acyclically, with <= 12 paths
		paths := 0
		ok := true
		var dfs func(x *ssa.BasicBlock, depth int)
		dfs = func(x *ssa.BasicBlock, depth int) {
			if !ok || paths > 12 {
				ok = false
				return
			}
			if x == j {
				paths++
				return
			}
			if x == b || depth > 8 || !pure(x) || len(x.Succs) == 0 {
				ok = false
				return
			}
			for _, s := range x.Succs {
				dfs(s, depth+1)
			}
		}
		for _, s := range b.Succs {
			dfs(s, 0)
		}
		if ok && paths >= 2 {
			return &mergeRegion{join: j}
		}
	}
	return nil
}

type mergeArm struct {
	g    *Expr
	vals []value
}

// tryMerge evaluates both sides of the If at the end of fr.block and merges at the join.
func (fr *frame) tryMerge(c *Expr) (ok bool) {
	m := fr.m
	if m.inMerge {
		return false // handled by the recursive walk
	}
	r := findRegion(fr.block)
	if r == nil {
		return false
	}
	saveBlock, savePrev := fr.block, fr.prev
	var touched []int
	var saved []value
	var arms []mergeArm
	m.inMerge = true
	aborted := false
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, isA := e.(mergeAbort); isA {
					aborted = true
					return
				}
				if _, isA := e.(unsupportedErr); isA {
					aborted = true
					return
				}
				panic(e)
			}
		}()
		defer func() { m.inMerge = false }()
		var walk func(blk, prev *ssa.BasicBlock, g *Expr)
		walk = func(blk, prev *ssa.BasicBlock, g *Expr) {
			if g.isFalse() {
				return
			}
			fr.prev, fr.block = prev, blk
			if blk == r.join {
				var vals []value
				for _, ins := range blk.Instrs {
					phi, isPhi := ins.(*ssa.Phi)
					if !isPhi {
						break
					}
					for i, p := range blk.Preds {
						if p == prev {
							vals = append(vals, fr.get(phi.Edges[i]))
							break
						}
					}
				}
				arms = append(arms, mergeArm{g, vals})
				return
			}
			for _, ins := range blk.Instrs {
				if v, isV := ins.(ssa.Value); isV {
					i := fr.info.idx[v]
					touched = append(touched, i)
					saved = append(saved, fr.env[i])
				}
			}
			fr.doPhis()
			for _, ins := range blk.Instrs {
				m.steps++
				switch ins := ins.(type) {
				case *ssa.Phi:
				case *ssa.If:
					cc := fr.get(ins.Cond).(*Expr)
					t, f := m.x.And(g, cc), m.x.And(g, m.x.Not(cc))
					walk(blk.Succs[0], blk, t)
					walk(blk.Succs[1], blk, f)
					return
				case *ssa.Jump:
					walk(blk.Succs[0], blk, g)
					return
				default:
					fr.instr = ins
					fr.visit(ins)
				}
			}
		}
		walk(saveBlock.Succs[0], saveBlock, c)
		walk(saveBlock.Succs[1], saveBlock, m.x.Not(c))
	}()
	restore := func() {
		for i := len(touched) - 1; i >= 0; i-- {
			fr.env[touched[i]] = saved[i]
		}
		fr.block, fr.prev = saveBlock, savePrev
	}
	if aborted || len(arms) == 0 {
		restore()
		return false
	}
	// merge phi values
	n := len(arms[0].vals)
	out := make([]value, n)
	for k := 0; k < n; k++ {
		v, good := m.mergeVals(arms, k)
		if !good {
			restore()
			return false
		}
		out[k] = v
	}
	restore()
	fr.prev, fr.block = saveBlock, r.join
	k := 0
	for _, ins := range r.join.Instrs {
		phi, isPhi := ins.(*ssa.Phi)
		if !isPhi {
			break
		}
		fr.set(phi, out[k])
		k++
	}
	return true
}

func (m *machine) mergeVals(arms []mergeArm, k int) (value, bool) {
	switch arms[0].vals[k].(type) {
	case *Expr:
		r := arms[len(arms)-1].vals[k].(*Expr)
		for i := len(arms) - 2; i >= 0; i-- {
			r = m.x.Ite(arms[i].g, arms[i].vals[k].(*Expr), r)
		}
		return r, true
	case *Str:
		var cs []strCase
		same := true
		first := arms[0].vals[k].(*Str)
		for _, a := range arms {
			s := a.vals[k].(*Str)
			if s != first {
				same = false
			}
			if s.doc != nil || s.blob != nil {
				if !same {
					return nil, false
				}
				continue
			}
		}
		if same {
			return first, true
		}
		for _, a := range arms {
			s := a.vals[k].(*Str)
			if s.doc != nil || s.blob != nil {
				return nil, false
			}
			for _, c := range m.strCases(s) {
				cs = append(cs, strCase{m.x.And(a.g, c.g), c.s})
			}
		}
		if len(cs) > 64 {
			return nil, false
		}
		return m.normCases(cs), true
	case *value:
		first := arms[0].vals[k].(*value)
		for _, a := range arms {
			if p, ok := a.vals[k].(*value); !ok || p != first {
				return nil, false
			}
		}
		return first, true
	}
	return nil, false
}
