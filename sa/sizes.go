package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Sizes. The analyses enumerate the sizes of the collections a call is given
// up to a small bound and treat the elements alike. That says something about
// every size as long as the code does not tell sizes apart beyond the bound,
// which it can only do by comparing a count with something: sizes returns,
// for the packages named, every constant some count is compared with (or cut
// at), and the two after it, so that both sides of each such limit are
// analysed too.

const sizeCap = 1100

// sizes are the sizes above lo to analyse besides those up to lo, none of
// them above hi: one that is larger than the small ones, and both sides of
// every limit in the packages.
func (c *Ctx) sizes(lo, hi int, pkgs ...string) []int {
	set := map[int]bool{}
	if lo+4 <= hi {
		set[lo+4] = true
	}
	for _, k := range c.R.limits(pkgs...) {
		for _, n := range []int{k, k + 1, k + 2} {
			if n > lo && n <= hi {
				set[n] = true
			}
		}
	}
	var ns []int
	for n := range set {
		ns = append(ns, n)
	}
	sort.Ints(ns)
	if os.Getenv("SA_SIZES") != "" {
		fmt.Println("sizes", lo, hi, pkgs, ns)
	}
	if len(ns) > 12 {
		ns = ns[:12]
	}
	return ns
}

func (r *Repo) limits(pkgs ...string) []int {
	set := map[int]bool{}
	add := func(v ssa.Value) {
		if k, ok := r.smallConst(v); ok && k >= 0 && k <= sizeCap {
			set[k] = true
		}
	}
	in := map[string]bool{}
	for _, p := range pkgs {
		in[p] = true
	}
	{
		for _, fn := range r.Funcs {
			if !in[strings.TrimPrefix(fn.Pkg.Pkg.Path(), Mod+"/")] || !r.shipped(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					switch x := ins.(type) {
					case *ssa.BinOp:
						switch x.Op {
						case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ, token.REM, token.QUO, token.AND, token.SHR:
							if isCount(x.X, nil) {
								add(x.Y)
							}
							if isCount(x.Y, nil) {
								add(x.X)
							}
						}
					case *ssa.Slice:
						for _, v := range []ssa.Value{x.Low, x.High, x.Max} {
							if v != nil {
								add(v)
							}
						}
					case *ssa.Call:
						for _, a := range x.Call.Args {
							if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
								add(a)
							}
						}
					case *ssa.MakeSlice:
						add(x.Len)
					case *ssa.Phi:
						// A count that starts from, or ends at, a constant.
						if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
							for _, e := range x.Edges {
								add(e)
							}
						}
					case *ssa.Store:
						if b, ok := x.Val.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
							add(x.Val)
						}
					}
				}
			}
		}
	}
	var out []int
	for k := range set {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// smallConst is the value of a constant, or of a package variable that starts
// as one.
func (r *Repo) smallConst(v ssa.Value) (int, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			k, ok := constant.Int64Val(x.Value)
			if ok && k >= -1 && k <= sizeCap*4 {
				return int(k), true
			}
		}
	case *ssa.Convert:
		return r.smallConst(x.X)
	case *ssa.ChangeType:
		return r.smallConst(x.X)
	case *ssa.BinOp:
		a, ok := r.smallConst(x.X)
		b, ok2 := r.smallConst(x.Y)
		if ok && ok2 {
			switch x.Op {
			case token.ADD:
				return a + b, true
			case token.SUB:
				return a - b, true
			case token.MUL:
				return a * b, true
			}
		}
	case *ssa.UnOp:
		g, ok := x.X.(*ssa.Global)
		if !ok || x.Op != token.MUL || g.Pkg == nil {
			return 0, false
		}
		init := g.Pkg.Func("init")
		if init == nil {
			return 0, false
		}
		for _, b := range init.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok && st.Addr == g {
					return r.smallConst(st.Val)
				}
			}
		}
	}
	return 0, false
}

// isCount tells whether a value may count something: a length, a loop's
// counter, an int from elsewhere, or what is computed from these.
func isCount(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	if _, ok := v.(*ssa.Const); ok {
		return false
	}
	b, ok := v.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	if b.Kind() == types.Int {
		return true
	}
	if seen == nil {
		seen = map[ssa.Value]bool{}
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Convert:
		return isCount(x.X, seen)
	case *ssa.ChangeType:
		return isCount(x.X, seen)
	case *ssa.BinOp:
		return isCount(x.X, seen) || isCount(x.Y, seen)
	case *ssa.Phi:
		// A counter of some other type.
		for _, e := range x.Edges {
			if y, ok := e.(*ssa.BinOp); ok && y.Op == token.ADD && (y.X == v || y.Y == v) || isCount(e, seen) {
				return true
			}
		}
	}
	return false
}
