package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Iv is an integer interval with a few excluded points.
type Iv struct {
	Lo, Hi *big.Int // nil: unbounded
	Ne     []*big.Int
}

func (i Iv) String() string {
	f := func(b *big.Int) string {
		if b == nil {
			return "∞"
		}
		return b.String()
	}
	s := "[" + f(i.Lo) + "," + f(i.Hi) + "]"
	for _, n := range i.Ne {
		s += "\\" + n.String()
	}
	return s
}

// Event is something the code did on a path: a call that is not inlined, a
// channel operation, a goroutine start, a lossy conversion...
type Event struct {
	Kind  string // call, go, send, recv, close, select, panic, narrow, defer
	Name  string
	Args  []*Term
	Raw   []Val
	Res   []Val
	Pos   token.Pos
	Fn    *ssa.Function
	Instr ssa.Instruction
	Seq   int
	prev  *Event
	// Failed is set when the modelled call returned an error on this path.
	Failed bool
	acc    *acc
	locks  map[string]bool
}

// Arg returns the i-th frozen argument or nil.
func (e *Event) Arg(i int) *Term {
	if i < 0 || i >= len(e.Args) {
		return nil
	}
	return e.Args[i]
}

// State is one abstract state of a trace partition.
type State struct {
	in    *Interp
	heap  map[int]Val
	heapS bool // shared: copy before writing
	sym   map[int]int
	orig  map[int]*Term
	symS  bool
	iv    map[int]Iv
	bools map[int]bool
	// lins are linear forms over two or more unknowns known to be >= 0.
	lins []lin
	// chars are the sets byte inputs have been narrowed to.
	chars    map[int]byteSet
	charNots []*Term
	facS     bool
	ghost    map[string]Val
	ghS      bool
	last     *Event
	nev      int
	depth    int
	stack    []*ssa.Function
	// era is the newest object that outlives the event or call being looked
	// at (0: all are looked at as they are), eraSel the wait between events.
	era     int
	eraSel  *ssa.Select
	widened int
}

func newState(in *Interp) *State {
	return &State{
		in: in, heap: map[int]Val{}, sym: map[int]int{},
		orig: map[int]*Term{}, iv: map[int]Iv{}, bools: map[int]bool{},
		ghost: map[string]Val{},
	}
}

func (s *State) fork() *State {
	s.heapS, s.symS, s.facS, s.ghS = true, true, true, true
	n := *s
	return &n
}

func (s *State) setHeap(o int, v Val) {
	if s.heapS {
		m := make(map[int]Val, len(s.heap)+4)
		for k, x := range s.heap {
			m[k] = x
		}
		s.heap, s.heapS = m, false
	}
	s.heap[o] = v
}

func (s *State) ownFacts() {
	if s.facS {
		a := make(map[int]Iv, len(s.iv)+2)
		for k, x := range s.iv {
			a[k] = x
		}
		b := make(map[int]bool, len(s.bools)+2)
		for k, x := range s.bools {
			b[k] = x
		}
		s.iv, s.bools, s.facS = a, b, false
	}
}

func (s *State) setGhost(k string, v Val) {
	if s.ghS {
		m := make(map[string]Val, len(s.ghost)+2)
		for a, x := range s.ghost {
			m[a] = x
		}
		s.ghost, s.ghS = m, false
	}
	s.ghost[k] = v
}

func (s *State) alloc(v Val) int {
	s.in.objSeq++
	s.setHeap(s.in.objSeq, v)
	return s.in.objSeq
}

func (s *State) newPtr(v Val) *Ptr { return &Ptr{Obj: s.alloc(v)} }

// symObj materialises the object a symbolic pointer or slice refers to.
func (s *State) symObj(t *Term, init Val) int {
	if o, ok := s.sym[t.id]; ok {
		return o
	}
	o := s.alloc(init)
	if s.symS {
		a := make(map[int]int, len(s.sym)+2)
		for k, x := range s.sym {
			a[k] = x
		}
		b := make(map[int]*Term, len(s.orig)+2)
		for k, x := range s.orig {
			b[k] = x
		}
		s.sym, s.orig, s.symS = a, b, false
	}
	s.sym[t.id] = o
	s.orig[o] = t
	return o
}

func (s *State) event(e *Event) *Event {
	if s.in.race != nil && (e.Kind == "close" || e.Kind == "send" || e.Kind == "sel-send") {
		e.locks = s.locksHeld()
	}
	e.prev = s.last
	e.Seq = s.nev
	s.nev++
	s.last = e
	return e
}

// Events lists the path's events, oldest first.
func (s *State) Events() []*Event {
	var r []*Event
	for e := s.last; e != nil; e = e.prev {
		r = append(r, e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// EventsSince lists the events after the marker.
func (s *State) EventsSince(m *Event) []*Event {
	var r []*Event
	for e := s.last; e != nil && e != m; e = e.prev {
		r = append(r, e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// ---- loads and stores ----

func (in *Interp) getPath(s *State, v Val, path []PathElem, t types.Type) Val {
	for _, p := range path {
		if p.Field >= 0 {
			v = in.fieldOf(s, v, p.Field, nil)
		} else {
			v = in.elemOf(s, v, p.Idx)
		}
	}
	return v
}

func fieldTerm(x *Term, st *types.Struct, i int) *Term {
	if x.Op == "deref" {
		return mk(st.Field(i).Type(), "field", st.Field(i).Name(), x.Args[0])
	}
	if x.Op == "zero" {
		if z, ok := zero(st.Field(i).Type()).(*Term); ok {
			return z
		}
	}
	return mk(st.Field(i).Type(), "field", st.Field(i).Name(), x)
}

// fieldOf selects a field of a struct value.
func (in *Interp) fieldOf(s *State, v Val, i int, t types.Type) Val {
	switch x := v.(type) {
	case *StructV:
		return x.Fields[i]
	case *Term:
		st := structOf(x.T)
		if st == nil {
			st = structOf(t)
		}
		if st == nil {
			panic(Undecided{fmt.Sprintf("field of %s (type %v)", x, x.T)})
		}
		if x.Op == "struct" {
			return x.Args[i]
		}
		return fieldTerm(x, st, i)
	case *TupleV:
		return x.V[i]
	}
	panic(Undecided{fmt.Sprintf("field of %T", v)})
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Basic:
		return types.Typ[types.Byte]
	case *types.Map:
		return u.Elem()
	}
	return nil
}

func (in *Interp) elemOf(s *State, v Val, idx *Term) Val {
	switch x := v.(type) {
	case *ArrayV:
		if i, ok := constInt64(idx); ok {
			if x.N >= 0 && (i < 0 || i >= x.N) {
				return nil
			}
			if e, ok := x.E[i]; ok {
				return e
			}
			if x.Base == nil {
				return zero(x.Elem)
			}
			return in.elemOf(s, x.Base, idx)
		}
		if x.Base != nil && len(x.E) == 0 {
			return in.elemOf(s, x.Base, idx)
		}
		if in.charOp(idx) && isInteger(x.Elem) && x.Base == nil {
			return chTab(x.Elem, idx, func(v int) string {
				if x.N >= 0 && int64(v) >= x.N {
					return "?"
				}
				e, ok := x.E[int64(v)]
				if !ok {
					return "0"
				}
				if t, ok := e.(*Term); ok {
					if b, ok := constInt(t); ok {
						return b.String()
					}
				}
				return "?"
			})
		}
		return mk(x.Elem, "elem", "", s.Freeze(x), idx)
	case *Term:
		if x.Op == "list" {
			if i, ok := constInt64(idx); ok && i >= 0 && i < int64(len(x.Args)) {
				return x.Args[i]
			}
		}
		if x.Op == "arr" {
			return mk(elemType(x.T), "elem", "", x.Args[0], idx)
		}
		if c, ok := constStr(x); ok {
			if i, ok := constInt64(idx); ok {
				if i < 0 || i >= int64(len(c)) {
					return nil
				}
				return ConstT(constant.MakeInt64(int64(c[i])), types.Typ[types.Byte])
			}
			if in.charOp(idx) {
				return chTab(types.Typ[types.Byte], idx, func(v int) string {
					if v < len(c) {
						return fmt.Sprint(c[v])
					}
					return "?"
				})
			}
		}
		if x.Op == "cat" || x.Op == "enc" && x.S == "be8" {
			if i, ok := constInt64(idx); ok {
				if i < 0 {
					return nil
				}
				off := int64(0)
				for _, p := range contentParts(x) {
					w, ok := constInt64(lenT(p))
					if !ok {
						break
					}
					if i < off+w {
						if p.Op == "enc" && p.S == "be8" {
							return p.Args[0]
						}
						if _, ok := constStr(p); ok {
							return in.elemOf(s, p, IntT(i-off))
						}
						break
					}
					off += w
				}
				if n, ok := constInt64(lenT(x)); ok && i >= n {
					return nil
				}
			}
		}
		return mk(elemType(x.T), "elem", "", x, idx)
	}
	panic(Undecided{fmt.Sprintf("element of %T", v)})
}

func (in *Interp) setPath(s *State, v Val, path []PathElem, nv Val, t types.Type) Val {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	if p.Field >= 0 {
		st := in.toStruct(s, v, t)
		fs := append([]Val(nil), st.Fields...)
		var ft types.Type
		if ss := structOf(st.T); ss != nil {
			ft = ss.Field(p.Field).Type()
		}
		fs[p.Field] = in.setPath(s, fs[p.Field], path[1:], nv, ft)
		return &StructV{T: st.T, Fields: fs}
	}
	a := in.toArray(s, v, t)
	n := &ArrayV{Elem: a.Elem, N: a.N, Base: a.Base, E: map[int64]Val{}}
	for k, e := range a.E {
		n.E[k] = e
	}
	i, ok := constInt64(p.Idx)
	if !ok {
		n.Base = mk(nil, "upd", "", s.Freeze(a), p.Idx, s.Freeze(nv))
		n.Base.T = types.NewSlice(a.Elem)
		n.E = nil
		return n
	}
	old := in.elemOf(s, a, p.Idx)
	n.E[i] = in.setPath(s, old, path[1:], nv, a.Elem)
	return n
}

func (in *Interp) toStruct(s *State, v Val, t types.Type) *StructV {
	switch x := v.(type) {
	case *StructV:
		return x
	case *Term:
		tt := x.T
		if structOf(tt) == nil {
			tt = t
		}
		st := structOf(tt)
		if st == nil {
			panic(Undecided{fmt.Sprintf("struct of %s (%v)", x, x.T)})
		}
		r := &StructV{T: tt, Fields: make([]Val, st.NumFields())}
		for i := range r.Fields {
			if x.Op == "struct" {
				r.Fields[i] = x.Args[i]
				continue
			}
			r.Fields[i] = fieldTerm(x, st, i)
		}
		return r
	}
	panic(Undecided{fmt.Sprintf("struct of %T", v)})
}

func (in *Interp) toArray(s *State, v Val, t types.Type) *ArrayV {
	switch x := v.(type) {
	case *ArrayV:
		return x
	case *Term:
		tt := x.T
		if tt == nil || elemType(tt) == nil {
			tt = t
		}
		a := &ArrayV{Elem: elemType(tt), N: -1, Base: x}
		if tt != nil {
			if at, ok := tt.Underlying().(*types.Array); ok {
				a.N = at.Len()
			}
		}
		if a.Elem == nil {
			a.Elem = types.Typ[types.Byte]
		}
		return a
	}
	panic(Undecided{fmt.Sprintf("array of %T", v)})
}

// resolve turns a pointer-like value into a concrete pointer, materialising
// symbolic targets. ok is false for nil.
func (in *Interp) resolve(s *State, v Val, pointee types.Type) (*Ptr, bool) {
	switch x := v.(type) {
	case *Ptr:
		return x, true
	case *Term:
		if x.Op == "nil" {
			return nil, false
		}
		if x.Op == "&" {
			o := s.symObj(x, x.Args[0])
			return &Ptr{Obj: o}, true
		}
		if b, known := s.null(x); known && b {
			return nil, false
		}
		o := s.symObj(x, mk(pointee, "deref", "", x))
		return &Ptr{Obj: o}, true
	case *IfaceV:
		return in.resolve(s, x.V, pointee)
	}
	panic(Undecided{fmt.Sprintf("pointer %T", v)})
}

func (in *Interp) load(s *State, p *Ptr) Val {
	v, ok := s.heap[p.Obj]
	if !ok {
		panic(Undecided{"load of unknown object"})
	}
	v = in.getPath(s, v, p.Path, nil)
	if in.race != nil {
		in.access(s, p.Obj, p.Path, false, v)
	}
	return v
}

func (in *Interp) store(s *State, p *Ptr, v Val, pointee types.Type) {
	if in.race != nil {
		in.access(s, p.Obj, p.Path, true, v)
	}
	if len(p.Path) == 0 {
		s.setHeap(p.Obj, v)
		return
	}
	old := s.heap[p.Obj]
	var t types.Type
	if x, ok := old.(*Term); ok {
		t = x.T
	}
	s.setHeap(p.Obj, in.setPath(s, old, p.Path, v, t))
}

// ---- freezing: a value's provenance as one term ----

func (s *State) Freeze(v Val) *Term {
	if r := s.in.race; r != nil {
		r.off++
		defer func() { r.off-- }()
	}
	return s.freeze(v, 0)
}

func (s *State) FreezeAll(vs []Val) []*Term {
	var r []*Term
	for _, v := range vs {
		r = append(r, s.Freeze(v))
	}
	return r
}

func (s *State) freeze(v Val, d int) *Term {
	if d > 24 {
		return mk(nil, "sym", "…")
	}
	in := s.in
	switch x := v.(type) {
	case nil:
		return mk(nil, "sym", "⊥")
	case *Term:
		// A symbolic pointer whose target was written to.
		if o, ok := s.sym[x.id]; ok && x.Op != "&" {
			if t, isT := s.heap[o].(*Term); !isT || (t.Op != "deref" && t.Op != "arr") {
				if _, isBuf := s.heap[o].(*BufV); !isBuf && !s.in.freezing[o] {
					s.in.freezing[o] = true
					in := s.freeze(s.heap[o], d+1)
					delete(s.in.freezing, o)
					if in == x || in.Op == "deref" && in.Args[0] == x {
						return x
					}
					return mk(x.T, "&", "", in)
				}
			}
		}
		return x
	case *Ptr:
		if o, ok := s.orig[x.Obj]; ok && len(x.Path) == 0 {
			return s.freeze(o, d)
		}
		if s.in.freezing[x.Obj] {
			return mk(nil, "sym", "…")
		}
		s.in.freezing[x.Obj] = true
		c := s.freeze(in.load(s, x), d+1)
		delete(s.in.freezing, x.Obj)
		if c.Op == "deref" {
			return c.Args[0]
		}
		return mk(nil, "&", "", c)
	case *StructV:
		st := structOf(x.T)
		name := typeName(x.T)
		var as []*Term
		var whole *Term
		same := len(x.Fields) > 0
		for i, f := range x.Fields {
			a := s.freeze(f, d+1)
			as = append(as, a)
			name += ";" + st.Field(i).Name()
			if a.Op == "field" && a.S == st.Field(i).Name() &&
				(whole == nil || whole == a.Args[0]) {
				whole = a.Args[0]
			} else {
				same = false
			}
		}
		if same {
			return mk(x.T, "deref", "", whole)
		}
		return mk(x.T, "struct", name, as...)
	case *ArrayV:
		if len(x.E) == 0 {
			if x.Base == nil {
				if isByte(x.Elem) {
					return zerosT(x.N)
				}
			} else {
				if x.Base.Op == "arr" {
					return x.Base.Args[0]
				}
				return x.Base
			}
		}
		if isByte(x.Elem) {
			return s.bytesOfArray(x, 0, x.N)
		}
		if x.N > 300 || x.N < 0 {
			return mk(nil, "sym", "array")
		}
		var as []*Term
		for i := int64(0); i < x.N; i++ {
			as = append(as, s.freeze(in.elemOf(s, x, IntT(i)), d+1))
		}
		return mk(nil, "list", "", as...)
	case *SliceV:
		if isByte(x.Elem) {
			return s.Content(x)
		}
		n, ok := s.intOf(x.Len)
		if !ok || n > 1200 {
			return mk(nil, "app", "slice", s.freeze(x.Base, d+1), x.Len)
		}
		var as []*Term
		arr := in.load(s, x.Base)
		for i := int64(0); i < n; i++ {
			as = append(as, s.freeze(in.elemOf(s, arr, IntT(x.Lo+i)), d+1))
		}
		return mk(nil, "list", "", as...)
	case *MapRef:
		m := s.heap[x.Obj].(*MapV)
		var as []*Term
		for _, e := range m.Ents {
			as = append(as, mk(nil, "list", "", s.freeze(e.K, d+1), s.freeze(e.V, d+1)))
		}
		if m.Base != nil {
			as = append(as, m.Base)
		}
		return mk(nil, "app", "map", as...)
	case *ChanRef:
		return mk(nil, "sym", fmt.Sprintf("chan#%d", x.Obj))
	case *IfaceV:
		return s.freeze(x.V, d)
	case *FuncV:
		name := x.Ext
		if x.Fn != nil {
			name = short(x.Fn.String())
		}
		var as []*Term
		for _, b := range x.Bind {
			as = append(as, s.freeze(b, d+1))
		}
		for _, b := range x.Env {
			as = append(as, s.freeze(b, d+1))
		}
		return mk(nil, "app", "func:"+name, as...)
	case *TupleV:
		var as []*Term
		for _, b := range x.V {
			as = append(as, s.freeze(b, d+1))
		}
		return mk(nil, "list", "", as...)
	case *BufV:
		return catT(x.Parts...)
	}
	panic(Undecided{fmt.Sprintf("freeze %T", v)})
}

// ---- byte contents ----

func zerosT(n int64) *Term {
	if n == 0 {
		return StrT("")
	}
	return mk(types.NewArray(types.Typ[types.Byte], n), "zero", fmt.Sprint(n))
}

func catT(parts ...*Term) *Term {
	var ps []*Term
	var addp func(p *Term)
	addp = func(p *Term) {
		if p.Op == "nil" {
			return
		}
		if p.Op == "cat" {
			for _, a := range p.Args {
				addp(a)
			}
			return
		}
		if c, ok := constStr(p); ok {
			if c == "" {
				return
			}
			if len(ps) > 0 {
				if q, ok := constStr(ps[len(ps)-1]); ok {
					ps[len(ps)-1] = StrT(q + c)
					return
				}
			}
		}
		// x[0:n] ++ x[n:] is x again.
		if len(ps) > 0 {
			if m := mergeSub(ps[len(ps)-1], p); m != nil {
				ps[len(ps)-1] = m
				return
			}
		}
		ps = append(ps, p)
	}
	for _, p := range parts {
		addp(p)
	}
	switch len(ps) {
	case 0:
		return StrT("")
	case 1:
		return ps[0]
	}
	return mk(nil, "cat", "", ps...)
}

func mergeSub(a, b *Term) *Term {
	if a.Op != "sub" || b.Op != "sub" || a.Args[0] != b.Args[0] {
		return nil
	}
	if addT(a.Args[1], a.Args[2], nil) != b.Args[1] {
		return nil
	}
	return subBytes(a.Args[0], a.Args[1], addT(a.Args[2], b.Args[2], nil))
}

// subBytes is content[lo:lo+n].
func subBytes(c, lo, n *Term) *Term {
	if k, ok := constInt64(n); ok && k == 0 {
		return StrT("")
	}
	if z, ok := constInt64(lo); ok && z == 0 && n == lenT(c) {
		return c
	}
	if c.Op == "sub" {
		return subBytes(c.Args[0], addT(c.Args[1], lo, nil), n)
	}
	// A compressed key is its parity followed by its x coordinate.
	if c.Op == "enc" && c.S == "pub33" {
		l, ok1 := constInt64(lo)
		k, ok2 := constInt64(n)
		if ok1 && ok2 && l == 1 && k == 32 {
			return encT("xonly", c.Args...)
		}
	}
	if str, ok := constStr(c); ok {
		l, ok1 := constInt64(lo)
		k, ok2 := constInt64(n)
		if ok1 && ok2 && l >= 0 && l+k <= int64(len(str)) {
			return StrT(str[l : l+k])
		}
	}
	if c.Op == "zero" || c.Op == "zeros" {
		if k, ok := constInt64(n); ok {
			return zerosT(k)
		}
		return mk(types.NewSlice(types.Typ[types.Byte]), "zeros", "", n)
	}
	if c.Op == "cat" {
		// Whole-part selections.
		off := IntT(0)
		for i, p := range c.Args {
			if off == lo || sameInt(off, lo) {
				end := off
				for j := i; j < len(c.Args); j++ {
					end = addT(end, lenT(c.Args[j]), nil)
					if sameInt(subT(end, lo, nil), n) {
						return catT(c.Args[i : j+1]...)
					}
				}
			}
			off = addT(off, lenT(p), nil)
		}
		if r := cutParts(c.Args, lo, n); r != nil {
			return r
		}
	}
	return mk(types.NewSlice(types.Typ[types.Byte]), "sub", "", c, lo, n)
}

// cutParts is a window of parts that all have known lengths, if its bounds fall
// on parts' bounds or inside of constants.
func cutParts(parts []*Term, lo, n *Term) *Term {
	l, ok1 := constInt64(lo)
	k, ok2 := constInt64(n)
	if !ok1 || !ok2 {
		return nil
	}
	var r []*Term
	off := int64(0)
	for _, p := range parts {
		w, ok := constInt64(lenT(p))
		if !ok {
			return nil
		}
		a, b := max(l-off, 0), min(l+k-off, w)
		if a < b {
			if a != 0 || b != w {
				if _, isC := constStr(p); !isC {
					return nil
				}
				p = subBytes(p, IntT(a), IntT(b-a))
			}
			r = append(r, p)
		}
		off += w
	}
	if off < l+k {
		return nil
	}
	return catT(r...)
}

func sameInt(a, b *Term) bool {
	if a == b {
		return true
	}
	x, ok1 := constInt(a)
	y, ok2 := constInt(b)
	return ok1 && ok2 && x.Cmp(y) == 0
}

// widthOf: fixed widths of encoded items.
var widthOf = map[string]int64{
	"be8": 1, "be16": 2, "be32": 4, "be64": 8, "pub33": 33, "xonly": 32,
}

// lenT is the length of a content or collection term.
func lenT(c *Term) *Term {
	if s, ok := constStr(c); ok {
		return IntT(int64(len(s)))
	}
	switch c.Op {
	case "nil":
		return IntT(0)
	case "zero":
		if n, err := fmt.Sscan(c.S, new(int64)); n == 1 && err == nil {
			var k int64
			fmt.Sscan(c.S, &k)
			return IntT(k)
		}
	case "cat":
		r := IntT(0)
		for _, a := range c.Args {
			r = addT(r, lenT(a), types.Typ[types.Int])
		}
		return r
	case "sub":
		return c.Args[2]
	case "zeros":
		return c.Args[0]
	case "list":
		return IntT(int64(len(c.Args)))
	case "enc":
		if w, ok := widthOf[c.S]; ok {
			return IntT(w)
		}
	case "app":
		switch c.S {
		case "slice":
			return c.Args[1]
		case "hex":
			n := lenT(c.Args[0])
			return addT(n, n, types.Typ[types.Int])
		}
	}
	if c.T != nil {
		if a, ok := c.T.Underlying().(*types.Array); ok {
			return IntT(a.Len())
		}
	}
	return mk(types.Typ[types.Int], "len", "", c)
}

func (s *State) bytesOfArray(x *ArrayV, lo, n int64) *Term {
	var parts []*Term
	i := lo
	for i < lo+n {
		e, ok := x.E[i]
		if ok {
			ft := s.Freeze(e)
			if c, isC := constInt64(ft); isC {
				parts = append(parts, StrT(string([]byte{byte(c)})))
			} else {
				parts = append(parts, mk(nil, "enc", "be8", ft))
			}
			i++
			continue
		}
		j := i
		for j < lo+n {
			if _, ok := x.E[j]; ok {
				break
			}
			j++
		}
		if x.Base == nil {
			parts = append(parts, zerosT(j-i))
		} else {
			parts = append(parts, subBytes(x.Base, IntT(i), IntT(j-i)))
		}
		i = j
	}
	return catT(parts...)
}

// Content is the byte content of a []byte, string or byte array value.
func (s *State) Content(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		if x.Op == "nil" {
			return StrT("")
		}
		if o, ok := s.sym[x.id]; ok {
			if c, isT := s.heap[o].(*Term); isT && c.Op == "arr" {
				return x
			}
			if _, isPtr := x.T.Underlying().(*types.Pointer); !isPtr {
				return s.arrContent(s.heap[o], IntT(0), lenT(x))
			}
		}
		if x.Op == "&" {
			return x.Args[0]
		}
		return x
	case *SliceV:
		return s.arrContent(s.in.load(s, x.Base), IntT(x.Lo), x.Len)
	case *ArrayV:
		return s.freeze(x, 0)
	case *Ptr:
		return s.Content(s.in.load(s, x))
	case *IfaceV:
		return s.Content(x.V)
	case *BufV:
		return catT(x.Parts...)
	}
	panic(Undecided{fmt.Sprintf("content of %T", v)})
}

func (s *State) arrContent(cell Val, lo, n *Term) *Term {
	switch c := cell.(type) {
	case *Term:
		if c.Op == "arr" {
			c = c.Args[0]
		}
		return subBytes(c, lo, n)
	case *ArrayV:
		l, ok1 := constInt64(lo)
		k, ok2 := constInt64(n)
		if ok1 && ok2 {
			return s.bytesOfArray(c, l, k)
		}
		if len(c.E) == 0 {
			if c.Base == nil {
				return mk(types.NewSlice(types.Typ[types.Byte]), "zeros", "", n)
			}
			return subBytes(c.Base, lo, n)
		}
		return mk(nil, "app", "bytes", s.freeze(c, 1), lo, n)
	}
	panic(Undecided{fmt.Sprintf("content of array %T", cell)})
}

// newBytes allocates a byte slice with the given content.
func (s *State) newBytes(c *Term) *SliceV {
	p := s.newPtr(c)
	l := lenT(c)
	return &SliceV{Base: p, Len: l, Cap: l, Elem: types.Typ[types.Byte]}
}

// ---- facts ----

// lenOf is the length of a slice, string, map or array value.
func (s *State) lenOf(v Val) *Term {
	switch x := v.(type) {
	case *SliceV:
		return x.Len
	case *ArrayV:
		return IntT(x.N)
	case *Ptr:
		return s.lenOf(s.in.load(s, x))
	case *MapRef:
		m := s.heap[x.Obj].(*MapV)
		if m.Base == nil {
			if n := int64(len(m.Ents)); x.Obj <= s.era {
				return addT(s.others(x.Obj), IntT(n), types.Typ[types.Int])
			} else {
				return IntT(n)
			}
		}
		return mk(types.Typ[types.Int], "len", "", s.Freeze(x))
	case *ChanRef:
		return IntT(int64(len(s.heap[x.Obj].(*ChanV).Queue)))
	case *Term:
		if x.Op == "nil" {
			return IntT(0)
		}
		if x.T != nil {
			if p, ok := x.T.Underlying().(*types.Pointer); ok {
				if a, ok := p.Elem().Underlying().(*types.Array); ok {
					return IntT(a.Len())
				}
			}
		}
		l := lenT(x)
		if l.Op == "len" {
			if n, ok := s.in.sc.Lens[x.String()]; ok {
				return IntT(n)
			}
			if b, ok := s.null(x); ok && b && x.T != nil && !isString(x.T) {
				return IntT(0)
			}
			if iv := s.interval(l); iv.Lo != nil && iv.Hi != nil && iv.Lo.Cmp(iv.Hi) == 0 {
				return bigT(iv.Lo)
			}
		}
		return l
	}
	panic(Undecided{fmt.Sprintf("len of %T", v)})
}

// null tells whether a term is nil, if known.
func (s *State) null(t *Term) (bool, bool) {
	switch t.Op {
	case "nil":
		return true, true
	case "const", "&", "struct", "list", "cat", "lin", "errorf", "status", "errnew", "enc", "zero":
		return false, true
	}
	if b, ok := s.bools[mk(nil, "isnil", "", t).id]; ok {
		return b, true
	}
	if b, ok := s.in.sc.Nulls[t.String()]; ok {
		return b, true
	}
	if s.in.nonNil[t.id] {
		return false, true
	}
	if iv, ok := s.iv[lenT(t).id]; ok && iv.Lo != nil && iv.Lo.Sign() > 0 {
		return false, true
	}
	if n, ok := s.in.sc.Lens[t.String()]; ok && n > 0 {
		return false, true
	}
	if t.Op == "global" && isErrorType(t.T) {
		return false, true
	}
	return false, false
}

func (s *State) interval(t *Term) Iv {
	if c, ok := constInt(t); ok {
		return Iv{Lo: c, Hi: c}
	}
	if s.in.sc.Chars != nil && len(charVars(t)) > 0 {
		if iv, ok := s.charInterval(t); ok {
			return iv
		}
	}
	if iv, ok := s.iv[t.id]; ok {
		return iv
	}
	if r, ok := s.in.sc.Ranges[t.String()]; ok {
		return r
	}
	if t.Op == "lin" {
		l := toLin(t)
		lo, hi := new(big.Int).Set(l.c), new(big.Int).Set(l.c)
		for a, k := range l.co {
			iv := s.interval(a)
			x, y := iv.Lo, iv.Hi
			if k.Sign() < 0 {
				x, y = y, x
			}
			if x == nil {
				lo = nil
			} else if lo != nil {
				lo.Add(lo, new(big.Int).Mul(x, k))
			}
			if y == nil {
				hi = nil
			} else if hi != nil {
				hi.Add(hi, new(big.Int).Mul(y, k))
			}
		}
		return Iv{Lo: lo, Hi: hi}
	}
	if t.Op == "len" && t.Args[0].Op == "enc" {
		e := t.Args[0]
		switch e.S {
		case "tu16", "tu32", "tu64":
			hi := map[string]int64{"tu16": 2, "tu32": 4, "tu64": 8}[e.S]
			lo := int64(0)
			v := s.interval(e.Args[0])
			if v.Lo != nil && v.Lo.Sign() > 0 {
				lo = 1
			}
			for _, n := range v.Ne {
				if n.Sign() == 0 {
					lo = 1
				}
			}
			if v.Hi != nil {
				if w := int64(v.Hi.BitLen()+7) / 8; w < hi {
					hi = w
				}
			}
			if v.Lo != nil && v.Lo.Sign() > 0 {
				if w := int64(v.Lo.BitLen()+7) / 8; w > lo {
					lo = w
				}
			}
			return Iv{Lo: big.NewInt(lo), Hi: big.NewInt(hi)}
		case "varint":
			return Iv{Lo: big.NewInt(1), Hi: big.NewInt(9)}
		}
		return Iv{Lo: new(big.Int), Hi: new(big.Int).Lsh(big.NewInt(1), 16)}
	}
	if t.Op == "len" {
		hi := big.NewInt(s.in.sc.MaxLen)
		if isByteSlice(t.Args[0].T) || isString(t.Args[0].T) || t.Args[0].T == nil {
			hi = new(big.Int).Lsh(big.NewInt(1), 40)
		}
		lo := new(big.Int)
		return Iv{Lo: lo, Hi: hi}
	}
	if t.Op == "conv" {
		iv := s.interval(t.Args[0])
		lo, hi, ok := intRange(t.T)
		if ok {
			if iv.Lo != nil && iv.Hi != nil && iv.Lo.Cmp(lo) >= 0 && iv.Hi.Cmp(hi) <= 0 {
				return iv
			}
			return Iv{Lo: lo, Hi: hi}
		}
	}
	if t.IsApp("bytes.Compare") {
		return Iv{Lo: big.NewInt(-1), Hi: big.NewInt(1)}
	}
	if lo, hi, ok := intRange(t.T); ok {
		return Iv{Lo: lo, Hi: hi}
	}
	return Iv{}
}

// evalBool decides a condition term from the facts, if it can.
func (s *State) evalBool(t *Term) (bool, bool) {
	if b, ok := constBool(t); ok {
		return b, true
	}
	if s.in.sc.Chars != nil && t.Op != "not" {
		if v, known, applies := s.charBool(t); applies {
			if !known {
				if b, ok := s.bools[t.id]; ok {
					return b, true
				}
			}
			return v, known
		}
	}
	switch t.Op {
	case "not":
		b, ok := s.evalBool(t.Args[0])
		return !b, ok
	case "isnil":
		return s.null(t.Args[0])
	case "lt", "eq":
		if b, ok := s.evalCmp(t.Op, t.Args[0], t.Args[1]); ok {
			return b, true
		}
	}
	if b, ok := s.bools[t.id]; ok {
		return b, true
	}
	if b, ok := s.in.sc.Bools[t.String()]; ok {
		return b, true
	}
	return false, false
}

func (s *State) rank(t *Term) (int, bool) {
	if len(s.in.sc.Ranks) == 0 {
		return 0, false
	}
	if r, ok := s.in.sc.Ranks[t.String()]; ok {
		return r, true
	}
	if t.Op == "conv" {
		return s.rank(t.Args[0])
	}
	return 0, false
}

func (s *State) evalCmp(op string, a, b *Term) (bool, bool) {
	if ra, ok := s.rank(a); ok {
		if rb, ok := s.rank(b); ok {
			if op == "lt" {
				return ra < rb, true
			}
			return ra == rb, true
		}
	}
	if a == b {
		return op == "eq", true
	}
	if v, ok := s.ordered(op, a, b); ok {
		return v, true
	}
	if op == "eq" && (a.Op == b.Op) && eraTwins(a, b) && !isInteger(a.T) {
		return false, true
	}
	isInt := isInteger(a.T) || isInteger(b.T)
	if !isInt {
		x, okX := constStr(a)
		y, okY := constStr(b)
		if okX && okY {
			if op == "lt" {
				return x < y, true
			}
			return x == y, true
		}
		return false, false
	}
	d := toLin(a).add(toLin(b), -1)
	iv := s.interval(d.term(nil))
	if len(d.co) == 1 && d.c != nil {
		// Single unknown: use its own interval with excluded points.
		for t, k := range d.co {
			if k.CmpAbs(big.NewInt(1)) == 0 && op == "eq" {
				v := new(big.Int).Mul(d.c, new(big.Int).Neg(k))
				ti := s.interval(t)
				for _, n := range ti.Ne {
					if n.Cmp(v) == 0 {
						return false, true
					}
				}
			}
		}
	}
	if op == "lt" {
		if iv.Hi != nil && iv.Hi.Sign() < 0 {
			return true, true
		}
		if iv.Lo != nil && iv.Lo.Sign() >= 0 {
			return false, true
		}
		if len(s.lins) > 0 {
			if s.nonNeg(d.scale(minusOne).plus(-1)) {
				return true, true
			}
			if s.nonNeg(d) {
				return false, true
			}
		}
		return false, false
	}
	if iv.Lo != nil && iv.Lo.Sign() > 0 || iv.Hi != nil && iv.Hi.Sign() < 0 {
		return false, true
	}
	if iv.Lo != nil && iv.Hi != nil && iv.Lo.Sign() == 0 && iv.Hi.Sign() == 0 {
		return true, true
	}
	if len(s.lins) > 0 {
		n := d.scale(minusOne)
		if s.nonNeg(d.plus(-1)) || s.nonNeg(n.plus(-1)) {
			return false, true
		}
		if s.nonNeg(d) && s.nonNeg(n) {
			return true, true
		}
	}
	return false, false
}

var minusOne = big.NewInt(-1)

func (l lin) plus(k int64) lin {
	return lin{c: new(big.Int).Add(l.c, big.NewInt(k)), co: l.co}
}

// nonNeg decides whether a linear form is >= 0 from intervals and at most two
// of the relations known on this path.
func (s *State) nonNeg(l lin) bool {
	lo := func(x lin) bool {
		iv := s.interval(x.term(nil))
		return iv.Lo != nil && iv.Lo.Sign() >= 0
	}
	if lo(l) {
		return true
	}
	for i, f := range s.lins {
		r := l.add(f, -1)
		if lo(r) {
			return true
		}
		if len(s.lins) > 12 {
			continue
		}
		for _, g := range s.lins[i+1:] {
			if lo(r.add(g, -1)) {
				return true
			}
		}
	}
	return false
}

// relate records that a linear form is >= 0.
func (s *State) relate(l lin) {
	if len(l.co) < 2 {
		return
	}
	s.lins = append(s.lins[:len(s.lins):len(s.lins)], l)
}

// assume adds a condition to the facts; false means contradiction.
func (s *State) assume(t *Term, val bool) bool {
	if b, ok := s.evalBool(t); ok {
		return b == val
	}
	if t.Op == "not" {
		return s.assume(t.Args[0], !val)
	}
	if s.in.sc.Chars != nil {
		if ok, applies := s.charAssume(t, val); applies {
			return ok
		}
	}
	s.ownFacts()
	s.bools[t.id] = val
	switch t.Op {
	case "lt", "eq":
		s.refine(t.Op, t.Args[0], t.Args[1], val)
	}
	return true
}

func (s *State) refine(op string, a, b *Term, val bool) {
	if !isInteger(a.T) && !isInteger(b.T) {
		return
	}
	d := toLin(a).add(toLin(b), -1)
	if len(d.co) != 1 {
		n := d.scale(minusOne)
		switch {
		case op == "lt" && val:
			s.relate(n.plus(-1))
		case op == "lt":
			s.relate(d)
		case val:
			s.relate(d)
			s.relate(n)
		}
		return
	}
	for t, k := range d.co {
		if k.CmpAbs(big.NewInt(1)) != 0 {
			return
		}
		// k*t + c  (op)  0
		iv := s.interval(t)
		lo, hi := iv.Lo, iv.Hi
		one := big.NewInt(1)
		setHi := func(v *big.Int) {
			if hi == nil || v.Cmp(hi) < 0 {
				hi = v
			}
		}
		setLo := func(v *big.Int) {
			if lo == nil || v.Cmp(lo) > 0 {
				lo = v
			}
		}
		pos := k.Sign() > 0
		negc := new(big.Int).Neg(d.c)
		switch {
		case op == "eq" && val:
			v := negc
			if !pos {
				v = d.c
			}
			setLo(v)
			setHi(v)
		case op == "eq":
			v := negc
			if !pos {
				v = d.c
			}
			ne := append([]*big.Int(nil), iv.Ne...)
			ne = append(ne, v)
			for changed := true; changed; {
				changed = false
				for _, n := range ne {
					if lo != nil && n.Cmp(lo) == 0 {
						lo = new(big.Int).Add(lo, one)
						changed = true
					}
					if hi != nil && n.Cmp(hi) == 0 {
						hi = new(big.Int).Sub(hi, one)
						changed = true
					}
				}
			}
			s.iv[t.id] = Iv{Lo: lo, Hi: hi, Ne: ne}
			return
		case op == "lt" && val: // k t + c < 0
			if pos {
				setHi(new(big.Int).Sub(negc, one))
			} else {
				setLo(new(big.Int).Add(d.c, one))
			}
		default: // k t + c >= 0
			if pos {
				setLo(negc)
			} else {
				setHi(d.c)
			}
		}
		s.iv[t.id] = Iv{Lo: lo, Hi: hi, Ne: iv.Ne}
	}
}

// branch splits a state on a condition.
func (s *State) branch(c *Term) (yes, no *State) {
	if b, ok := s.evalBool(c); ok {
		if b {
			return s, nil
		}
		return nil, s
	}
	y := s.fork()
	n := s.fork()
	if !y.assume(c, true) {
		y = nil
	}
	if !n.assume(c, false) {
		n = nil
	}
	return y, n
}

func notT(t *Term) *Term {
	if b, ok := constBool(t); ok {
		return BoolT(!b)
	}
	if t.Op == "not" {
		return t.Args[0]
	}
	return mk(types.Typ[types.Bool], "not", "", t)
}

func eqT(a, b *Term) *Term {
	if a == b {
		return BoolT(true)
	}
	if a.id > b.id {
		a, b = b, a
	}
	if a.Op == "const" && b.Op != "const" {
		a, b = b, a
	}
	return mk(types.Typ[types.Bool], "eq", "", a, b)
}

func ltT(a, b *Term) *Term { return mk(types.Typ[types.Bool], "lt", "", a, b) }

func isnilT(a *Term) *Term { return mk(types.Typ[types.Bool], "isnil", "", a) }

// FactString renders the facts of a path for reports.
func (s *State) FactString() string {
	var p []string
	byID := map[int]*Term{}
	for _, t := range termTab {
		byID[t.id] = t
	}
	for k, v := range s.bools {
		t := byID[k]
		if v {
			p = append(p, t.String())
		} else {
			p = append(p, "!"+t.String())
		}
	}
	return strings.Join(p, " && ")
}
