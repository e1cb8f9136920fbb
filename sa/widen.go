package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What a call or an event finds may be the result of any number of earlier
// ones: a counter that goes up or down with each stands for any number of
// steps, a map that outlives it may hold any number of further entries, and a
// channel that is left fuller than it was found is full at last. An era is what
// lies between two waits of a loop, or one call.

// newEra: what exists by now outlives what follows.
func (s *State) newEra(sel *ssa.Select) {
	s.era = s.in.objSeq
	if sel != nil {
		s.eraSel = sel
	}
}

// anyCount widens a counter that was stepped from old to val.
func (s *State) anyCount(old, val Val, by ssa.Value) Val {
	a, ok1 := constInt(old)
	b, ok2 := constInt(val)
	if !ok1 || !ok2 || a.Cmp(b) == 0 || by != nil && !steps(by, new(big.Int).Sub(b, a), map[ssa.Value]bool{}) {
		return val
	}
	t := val.(*Term)
	s.widened++
	n := Sym(fmt.Sprintf("count%d", s.widened), t.T)
	if b.Cmp(a) > 0 {
		s.must(ltT(n, t), false)
	} else {
		s.must(ltT(t, n), false)
	}
	return n
}

// steps: the value is another one plus or minus a constant of this size.
func steps(v ssa.Value, d *big.Int, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if steps(e, d, seen) {
				return true
			}
		}
	case *ssa.Convert:
		return steps(x.X, d, seen)
	case *ssa.BinOp:
		if x.Op != token.ADD && x.Op != token.SUB {
			return false
		}
		for _, o := range []ssa.Value{x.X, x.Y} {
			if k, ok := o.(*ssa.Const); ok && k.Value != nil && isInteger(k.Type()) {
				if n, ok := constInt(ConstT(k.Value, k.Type())); ok && n.CmpAbs(d) == 0 {
					return true
				}
			}
		}
	}
	return false
}

// loopCount tells whether a phi carries a value from one event of the loop to
// the next.
func (s *State) loopCount(p *ssa.Phi, from *ssa.BasicBlock) bool {
	if s.eraSel == nil || s.eraSel.Parent() != p.Parent() || !isInteger(p.Type()) || !p.Block().Dominates(s.eraSel.Block()) {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{p.Block(): true}
	l := append([]*ssa.BasicBlock(nil), s.eraSel.Block().Succs...)
	for len(l) > 0 {
		b := l[len(l)-1]
		l = l[:len(l)-1]
		if b == from {
			return true
		}
		if seen[b] {
			continue
		}
		seen[b] = true
		l = append(l, b.Succs...)
	}
	return false
}

// counted: the count a map that outlives the event keeps for a key it is not
// known to have, if it has counts that go up.
func (s *State) counted(m Val, vt types.Type) *Term {
	r, ok := m.(*MapRef)
	if !ok || r.Obj > s.era || !isInteger(vt) {
		return nil
	}
	for _, e := range s.heap[r.Obj].(*MapV).Ents {
		if t, ok := e.V.(*Term); ok {
			for c := range toLin(t).co {
				if c.Op == "sym" && strings.HasPrefix(c.S, "count") {
					s.widened++
					n := Sym(fmt.Sprintf("count%d", s.widened), vt)
					s.must(ltT(n, IntT(0)), false)
					return n
				}
			}
		}
	}
	return nil
}

// others is the number of entries that earlier calls may have left in a map.
func (s *State) others(obj int) *Term {
	t := Sym(fmt.Sprintf("others%d", obj), types.Typ[types.Int])
	s.must(ltT(t, IntT(0)), false)
	return t
}
