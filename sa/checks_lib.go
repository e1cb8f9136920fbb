package main

import (
	"fmt"
	"go/token"
	"go/types"
	"hash/fnv"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// How hashes compare: by the text of their terms, by its reverse, or (from
// anyOrder on) in one of many arbitrary orders.
const (
	byText = 1 + iota
	byTextRev
	anyOrder
)

func orderOf(reverse bool) int {
	if reverse {
		return byTextRev
	}
	return byText
}

// cmpBytes compares two byte strings in an order.
func cmpBytes(a, b *Term, order int) int64 {
	if a == b {
		return 0
	}
	less := a.String() < b.String() || a.String() == b.String() && a.id < b.id
	if order >= anyOrder {
		h := func(t *Term) uint64 {
			f := fnv.New64a()
			fmt.Fprintf(f, "%d/%s", order, t.String())
			return f.Sum64()
		}
		if x, y := h(a), h(b); x != y {
			less = x < y
		}
	}
	if less == (order != byTextRev) {
		return -1
	}
	return 1
}

// firstDiff is the index of the first byte two distinct hashes differ in.
func firstDiff(order int) int64 {
	if order%2 == 0 {
		return 31
	}
	return 0
}

// hashOf unwraps the conversions around a hash.
func hashOf(t *Term) (*Term, bool) {
	for {
		switch {
		case t.IsApp("TaggedHash"):
			return t, true
		case t.Op == "arr" || t.Op == "deref" || t.Op == "conv":
			t = t.Args[0]
		default:
			return nil, false
		}
	}
}

// ordered decides a comparison of hashes, or of their bytes, if the scenario
// fixes the order of hashes.
func (s *State) ordered(op string, a, b *Term) (val, ok bool) {
	o := s.in.sc.Order
	if o == 0 {
		return false, false
	}
	for a.Op == "conv" {
		a = a.Args[0]
	}
	for b.Op == "conv" {
		b = b.Args[0]
	}
	if a.Op == "elem" && b.Op == "elem" && len(a.Args) == 2 && len(b.Args) == 2 && a.Args[1] == b.Args[1] {
		i, okI := constInt(a.Args[1])
		x, okX := hashOf(a.Args[0])
		y, okY := hashOf(b.Args[0])
		if !okI || !okX || !okY || i.Cmp(big.NewInt(firstDiff(o))) > 0 && x != y {
			return false, false
		}
		if x == y || i.Cmp(big.NewInt(firstDiff(o))) < 0 {
			return op == "eq", true
		}
		return op == "lt" && cmpBytes(x, y, o) < 0, true
	}
	if a.Op == b.Op && a.Op == "enc" && a.S == b.S && a.S == "hex" {
		a, b = a.Args[0], b.Args[0]
	}
	if a.IsApp("hashString") && b.IsApp("hashString") {
		// The bytes are reversed, any order of the texts is possible.
		a, b = b.Args[0], a.Args[0]
	}
	x, okX := hashOf(a)
	y, okY := hashOf(b)
	if !okX || !okY || x == y {
		return false, false
	}
	return op == "lt" && cmpBytes(x, y, o) < 0, true
}

// hooks combines call hooks, the first that answers wins.
func hooks(hs ...func(in *Interp, s *State, ci *CallInfo) ([]Out, bool)) func(in *Interp, s *State, ci *CallInfo) ([]Out, bool) {
	return func(in *Interp, s *State, ci *CallInfo) ([]Out, bool) {
		for _, h := range hs {
			if o, ok := h(in, s, ci); ok {
				return o, ok
			}
		}
		return nil, false
	}
}

// run analyses a call and requires that every path returns.
func (c *Ctx) run(rule string, s *State, fn *ssa.Function, args []Val, bind ...Val) []Out {
	var r []Out
	defer func(m int) { c.In.callMark = m }(c.In.callMark)
	c.In.callMark = c.In.objSeq
	s.era, s.eraSel = 0, nil
	if n := fn.Name(); n != "Start" && n != "Stop" {
		s.newEra(nil)
	}
	sems := s.semaphores()
	for _, o := range c.In.Call(s, fn, args, bind...) {
		switch o.Kind {
		case Ret:
			r = append(r, o)
			if sems != nil {
				if c.slots == nil {
					c.slots = slotUse{}
				}
				c.slots.leave(fn, sems, o)
			}
			c.owned(rule, fnName(fn), o.Pos, o)
			c.notice(fnName(fn), o)
		case Truncated:
			c.undecided(rule, fnName(fn), o.Pos, o.Why)
		default:
			c.Ob(false, rule, fnName(fn), o.Pos, "a path ends in %v (%s) when %s", o.Kind, o.Why, o.St.FactString())
		}
	}
	return r
}

// liveCtx: nothing is called with a context that was cancelled by the code
// before.
func (c *Ctx) liveCtx(rule, site string, evs []*Event) {
	dead := map[*Term]bool{}
	for _, e := range evs {
		if e.Kind != "call" || e.Name == "invoke Done" || e.Name == "invoke Err" {
			continue
		}
		if e.Name == "cancel" && len(e.Args) > 0 {
			dead[e.Args[0]] = true
			continue
		}
		for _, a := range e.Args {
			for x := a; len(dead) > 0 && x != nil && x.Op == "ctx"; x = x.Args[0] {
				if dead[x] {
					c.Ob(false, rule, site, e.Pos, "%s is called with a context that was cancelled before", short(e.Name))
				}
				if len(x.Args) == 0 {
					break
				}
			}
		}
	}
}

// errVal is the error result of an outcome (its last value).
func errVal(o Out) Val { return o.Vals[len(o.Vals)-1] }

func failed(o Out) bool {
	v := errVal(o)
	if isNilV(v) {
		return false
	}
	if t, ok := v.(*Term); ok {
		if isn, known := o.St.null(t); known {
			return !isn
		}
	}
	return true
}

// mayBeNil: the error value is not known to be non-nil.
func mayBeNil(o Out) bool {
	v := errVal(o)
	if isNilV(v) {
		return true
	}
	if t, ok := v.(*Term); ok {
		isn, known := o.St.null(t)
		return !known || isn
	}
	return false
}

// split separates succeeding from failing outcomes.
func split(outs []Out) (ok, bad []Out) {
	for _, o := range outs {
		if failed(o) {
			bad = append(bad, o)
		} else {
			ok = append(ok, o)
		}
	}
	return
}

// errT is an outcome's error as a term.
func errT(o Out) *Term { return o.St.Freeze(errVal(o)) }

// noSilentFailure: no path on which a call failed reports success.
func (c *Ctx) noSilentFailure(rule string, fn *ssa.Function, outs []Out, allow func(*Event) bool) {
	for _, o := range outs {
		if failed(o) {
			continue
		}
		for _, e := range o.St.Events() {
			if e.Failed && (allow == nil || !allow(e)) {
				c.Ob(false, rule, fnName(fn), e.Pos, "%s fails but success is reported", e.Name)
				break
			}
		}
	}
}

func (s *State) withAll(fs ...func(*State)) *State {
	n := s.fork()
	for _, f := range fs {
		f(n)
	}
	return n
}

// must assumes a fact that has to be consistent.
func (s *State) must(t *Term, v bool) {
	if t.Op == "not" {
		s.must(t.Args[0], !v)
		return
	}
	if b, known := s.evalBool(t); known {
		if b != v {
			panic(Undecided{fmt.Sprintf("inconsistent scenario: %v must be %v", t, v)})
		}
		return
	}
	if !s.assume(t, v) {
		panic(Undecided{fmt.Sprintf("inconsistent scenario: %v must be %v", t, v)})
	}
}

// rec is the wire form of a tlv record.
func rec(typ int64, v *Term) []*Term { return recT(typT(typ), v) }

func recT(typ, v *Term) []*Term {
	return []*Term{encT("varint", typ), encT("varint", lenT(v)), v}
}

func recsT(rs ...[]*Term) *Term {
	var p []*Term
	for _, r := range rs {
		p = append(p, r...)
	}
	return catT(p...)
}

// bsym is a symbolic byte string of a known (n >= 0) or unknown length.
func bsym(name string, n int64) *Term {
	if n >= 0 {
		return Sym(fmt.Sprintf("%s[%d]", name, n), types.NewArray(types.Typ[types.Byte], n))
	}
	return Sym(name, bytesT)
}

// psym is a non-nil symbolic pointer.
func (c *Ctx) psym(name string, t types.Type) *Term {
	p := Sym(name, types.NewPointer(t))
	c.In.nonNil[p.id] = true
	return p
}

// derefAll strips address-of from a frozen value.
func derefAll(t *Term) *Term {
	for t != nil && t.Op == "&" {
		t = t.Args[0]
	}
	return t
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// diffStr shows where two terms differ.
func diffStr(got, want *Term) string {
	if got == nil || want == nil {
		return fmt.Sprintf("got %v, want %v", got, want)
	}
	gp, wp := contentParts(got), contentParts(want)
	if got.Op == "cat" || want.Op == "cat" {
		for i := 0; i < len(gp) || i < len(wp); i++ {
			switch {
			case i >= len(gp):
				return fmt.Sprintf("missing %s", trunc(catT(wp[i:]...).String(), 300))
			case i >= len(wp):
				return fmt.Sprintf("extra %s", trunc(catT(gp[i:]...).String(), 300))
			case gp[i] != wp[i]:
				return fmt.Sprintf("got %s, want %s", trunc(catT(gp[i:]...).String(), 300), trunc(catT(wp[i:]...).String(), 300))
			}
		}
	}
	if got.Op == want.Op && got.S == want.S && len(got.Args) == len(want.Args) && len(got.Args) > 0 {
		for i := range got.Args {
			if got.Args[i] != want.Args[i] {
				n := got.Op
				if got.Op == "struct" {
					n = strings.Split(got.S, ";")[i+1]
				} else if got.S != "" {
					n = got.S
				}
				return n + ": " + diffStr(got.Args[i], want.Args[i])
			}
		}
	}
	return fmt.Sprintf("got %s, want %s", trunc(got.String(), 400), trunc(want.String(), 400))
}

// callees lists the functions statically reachable from the roots through
// calls, closures and method values inside of the code base.
func (c *Ctx) callees(roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && c.In.isRepo(g) {
						walk(g)
					}
				}
			}
		}
	}
	for _, r := range roots {
		walk(r)
	}
	return seen
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var r []*ssa.Function
	for f := range m {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

var noPos = token.NoPos

type posT = token.Pos

var uint64T = types.Typ[types.Uint64]
var stringT = types.Typ[types.String]

var big1e9 = big.NewInt(1_000_000_000)

// obj allocates a struct with the given fields.
func (s *State) obj(t types.Type, fields map[string]Val) *Ptr {
	v := zero(t).(*StructV)
	st := structOf(t)
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		if x, ok := fields[st.Field(i).Name()]; ok {
			v.Fields[i] = x
			n++
		}
	}
	if n != len(fields) {
		panic(Undecided{fmt.Sprintf("%s lacks one of the fields %v", typeName(t), fields)})
	}
	return s.newPtr(v)
}

// newSlice allocates a slice of the given elements.
func (s *State) newSlice(elem types.Type, vs ...Val) *SliceV {
	a := &ArrayV{Elem: elem, N: int64(len(vs)), E: map[int64]Val{}}
	for i, v := range vs {
		a.E[int64(i)] = v
	}
	n := IntT(a.N)
	return &SliceV{Base: s.newPtr(a), Len: n, Cap: n, Elem: elem}
}

// key is a non-nil symbolic public key.
func (c *Ctx) key(name string) *Term {
	return c.psym(name, c.R.ExtType("github.com/btcsuite/btcd/btcec/v2", "PublicKey"))
}

// expectErr requires that every outcome fails, with the given sentinel if one
// is named.
func (c *Ctx) expectErr(rule, site string, pos token.Pos, outs []Out, sentinel, what string) {
	c.Ob(len(outs) > 0, rule, site, pos, "%s: no path returns", what)
	for _, o := range outs {
		if !failed(o) {
			c.Ob(false, rule, site, pos, "%s is accepted (%s)", what, o.St.FactString())
			continue
		}
		if sentinel != "" {
			c.Ob(c.In.IsErr(errT(o), sentinel), rule, site, pos, "%s fails with %v, want %s", what, errT(o), sentinel)
			continue
		}
		c.Ob(true, rule, site, pos, "")
	}
}

// permutations of 0..n-1 (all for n <= 3, a selection above).
func perms(n int) [][]int {
	var r [][]int
	var rec func(cur []int, used int)
	rec = func(cur []int, used int) {
		if len(cur) == n {
			r = append(r, append([]int(nil), cur...))
			return
		}
		for i := 0; i < n; i++ {
			if used&(1<<i) == 0 {
				rec(append(cur, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	return r
}

// envErr is an error of the environment: non-nil, and nothing else is known
// about it; it may be, or wrap, any error there is.
func (in *Interp) envErr(name string) *Term {
	e := App(errorT, "err:"+name)
	in.nonNil[e.id] = true
	return e
}

// extErr is an error of another program or library, which knows nothing of
// this repository's own error values.
func (in *Interp) extErr(name string) *Term { return in.envErr("ext " + name) }

// foreign: e comes from outside and target is one of the repository's errors.
func foreign(e, target *Term) bool {
	return e.Op == "app" && strings.HasPrefix(e.S, "err:ext ") && target.Op == "global" && (strings.HasPrefix(target.S, "@/") || strings.HasPrefix(target.S, "@."))
}
