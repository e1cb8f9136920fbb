package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Scenario fixes the abstract inputs of one analysis: which optional inputs
// are present, abstract collection lengths, orderings, and how the
// environment's calls behave.
type Scenario struct {
	Lens   map[string]int64
	Nulls  map[string]bool
	Bools  map[string]bool
	Ranks  map[string]int
	Ranges map[string]Iv
	MaxLen int64
	LoopK  int
	// ExtOK suppresses the error outcome of calls that leave the code base.
	ExtOK bool
	// Call may take over any call.
	Call func(in *Interp, s *State, c *CallInfo) ([]Out, bool)
	// Select may decide what a select statement does.
	Select func(in *Interp, s *State, sel *SelInfo) ([]SelChoice, bool)
	// Recv may decide what a plain receive yields.
	Recv func(in *Interp, s *State, ch Val, commaOk bool, t types.Type) ([]RecvChoice, bool)
	// MapOrder permutes map iteration (nil: insertion order).
	MapOrder func(n int) []int
	// OnClose sees a channel before it is closed.
	OnClose func(s *State, ch Val)
	// UTypes: symbolic unknown record types a decoded tlv stream carries.
	UTypes int
	// Order fixes how hashes compare.
	Order int
	// Chars are the byte inputs of the byte domain and their sets (by id).
	Chars map[int]byteSet
}

type CallInfo struct {
	Name   string
	Fn     *ssa.Function
	Method string // interface method name for invokes
	Args   []Val
	Sig    *types.Signature
	Pos    token.Pos
	Instr  ssa.Instruction
	Caller *ssa.Function
}

type SelCase struct {
	Send bool
	Chan Val
	Val  Val
	T    types.Type
}
type SelInfo struct {
	Cases    []SelCase
	Blocking bool
	Instr    *ssa.Select
	Fn       *ssa.Function
}
type SelChoice struct {
	St  *State
	Idx int // -1: default
	Val Val
	Ok  bool
	// Stop ends the path here (the goroutine stays parked).
	Stop bool
}
type RecvChoice struct {
	St   *State
	Val  Val
	Ok   bool
	Stop bool
}

type OutKind int

const (
	Ret OutKind = iota
	Panicked
	Parked
	Truncated
)

func (k OutKind) String() string {
	return [...]string{"return", "panic", "parked", "truncated"}[k]
}

type Out struct {
	St   *State
	Vals []Val
	Kind OutKind
	Pos  token.Pos
	Why  string
}

// Interp is the abstract interpreter: a trace-partitioned forward analysis of
// the SSA form with callees analysed in context.
type Interp struct {
	scalar    map[*ssa.Function]bool
	R         *Repo
	sc        *Scenario
	objSeq    int
	steps     int
	stepLimit int
	// ScenarioSteps and Deadline bound the analysis of one scenario and
	// of a whole check.
	ScenarioSteps int
	Deadline      time.Time
	OnUndecided   func(why string)
	MostSteps     int
	MostOuts      int
	maxDepth      int
	globals       map[*ssa.Global]Val
	globalInit    map[string]*Term
	initDone      map[*ssa.Package]bool
	initing       bool
	info          map[*ssa.Function]*fnInfo
	nonNil        map[int]bool
	mayEnd        []Out           // paths that the current instruction may end
	unk           map[string]bool // calls without a model
	Taint         string          // how such a call influenced the paths taken
	freezing      map[int]bool
	Visited       map[*ssa.Function]bool
	base          *State
	// callMark: objects up to it are older than the call that is analysed.
	callMark int
	Paths    int
	race     *raceRec
	// cover collects the instructions that are interpreted, onPanic and onSink
	// are told of calls that panic and of what leaves the code base.
	cover   map[ssa.Instruction]bool
	onPanic func(fn *ssa.Function, o Out)
	onLeave func(fn *ssa.Function, entry *State, given []Val, o Out)
	onSink  func(s *State, kind string, ci *CallInfo, args []Val)
}

type fnInfo struct {
	num map[ssa.Value]int
	n   int
}

func NewInterp(r *Repo) *Interp {
	in := &Interp{
		R: r, sc: &Scenario{MaxLen: 3}, stepLimit: math.MaxInt,
		globals: map[*ssa.Global]Val{}, globalInit: map[string]*Term{},
		initDone: map[*ssa.Package]bool{}, info: map[*ssa.Function]*fnInfo{},
		nonNil: map[int]bool{}, freezing: map[int]bool{},
		Visited: map[*ssa.Function]bool{},
	}
	in.base = newState(in)
	var paths []string
	for path := range r.SSA {
		switch path[strings.LastIndex(path, "/")+1:] {
		case "offersrpc", "itest", "testutils":
			continue
		}
		paths = append(paths, path)
	}
	sort.Strings(paths)
	for _, path := range paths {
		in.initPkg(r.SSA[path])
	}
	return in
}

// With runs f under a scenario.
func (in *Interp) With(sc *Scenario, f func()) {
	old := in.sc
	if sc.MaxLen == 0 {
		sc.MaxLen = 3
	}
	if sc.LoopK == 0 {
		sc.LoopK = 6
	}
	in.sc = sc
	steps, over := in.steps, in.stepLimit
	if in.ScenarioSteps > 0 {
		in.stepLimit = steps + in.ScenarioSteps
	}
	defer func() {
		in.sc, in.stepLimit = old, over
		if n := in.steps - steps; n > in.MostSteps {
			in.MostSteps = n
		}
		e := recover()
		if e == nil {
			return
		}
		// A scenario that is beyond the analysis leaves the others as
		// they are.
		u, ok := e.(Undecided)
		if !ok || in.OnUndecided == nil {
			panic(e)
		}
		in.OnUndecided(u.Why)
	}()
	f()
}

// Start returns a fresh state that shares the initialised globals.
func (in *Interp) Start() *State {
	return in.base.fork()
}

func (in *Interp) fnInfo(fn *ssa.Function) *fnInfo {
	if i, ok := in.info[fn]; ok {
		return i
	}
	i := &fnInfo{num: map[ssa.Value]int{}}
	add := func(v ssa.Value) { i.num[v] = i.n; i.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
		}
	}
	in.info[fn] = i
	return i
}

type deferred struct {
	instr *ssa.Defer
	fn    Val
	args  []Val
	call  *ssa.CallCommon
}

type frame struct {
	fn     *ssa.Function
	info   *fnInfo
	env    []Val
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	i      int
	defers []deferred
	forks  map[ssa.Instruction]int
}

func (f *frame) clone() *frame {
	n := *f
	n.env = append([]Val(nil), f.env...)
	n.defers = append([]deferred(nil), f.defers...)
	if f.forks != nil {
		n.forks = make(map[ssa.Instruction]int, len(f.forks))
		for k, v := range f.forks {
			n.forks[k] = v
		}
	}
	return &n
}

type work struct {
	f *frame
	s *State
}

// Call analyses fn in the given state.
func (in *Interp) Call(s *State, fn *ssa.Function, args []Val, bind ...Val) []Out {
	in.Visited[fn] = true
	if len(s.stack) > 120 {
		panic(Undecided{"call depth: " + fn.String()})
	}
	info := in.fnInfo(fn)
	f := &frame{fn: fn, info: info, env: make([]Val, info.n), blk: fn.Blocks[0]}
	if len(args) != len(fn.Params) {
		panic(Undecided{fmt.Sprintf("%s called with %d args", fn, len(args))})
	}
	copy(f.env, args)
	copy(f.env[len(fn.Params):], bind)

	var entry *State
	if in.onLeave != nil && len(s.stack) == 0 {
		entry = s.fork()
	}
	stack := s.stack
	s.stack = append(stack[:len(stack):len(stack)], fn)
	var outs []Out
	wl := []work{{f, s}}
	for len(wl) > 0 {
		w := wl[len(wl)-1]
		wl = wl[:len(wl)-1]
		more, o := in.run(w.f, w.s)
		wl = append(wl, more...)
		for i := range o {
			o[i].St.stack = stack
		}
		if in.onPanic != nil && len(stack) == 0 {
			for i := range o {
				if o[i].Kind == Panicked {
					in.onPanic(fn, o[i])
				}
			}
		}
		if entry != nil {
			given := append(append([]Val(nil), args...), bind...)
			for i := range o {
				in.onLeave(fn, entry, given, o[i])
			}
		}
		outs = append(outs, o...)
		if len(outs) > in.MostOuts {
			in.MostOuts = len(outs)
		}
		if len(outs) > 4000 {
			panic(Undecided{"too many paths in " + fn.String()})
		}
	}
	return outs
}

func (in *Interp) val(s *State, f *frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zero(x.Type())
		}
		c := x.Value
		return ConstT(c, x.Type())
	case *ssa.Function:
		return &FuncV{Fn: x}
	case *ssa.Global:
		return in.global(s, x)
	case *ssa.Builtin:
		return &FuncV{Ext: "builtin " + x.Name()}
	}
	i, ok := f.info.num[v]
	if !ok {
		panic(Undecided{fmt.Sprintf("value %s in %s", v.Name(), f.fn)})
	}
	r := f.env[i]
	if r == nil {
		panic(Undecided{fmt.Sprintf("unset value %s in %s", v.Name(), f.fn)})
	}
	return r
}

// global returns the address of a package variable. The variables of the code
// base hold what their package initialiser stores; others are opaque.
func (in *Interp) global(s *State, g *ssa.Global) Val {
	if v, ok := in.globals[g]; ok {
		if p := v.(*Ptr); s.heap[p.Obj] == nil {
			s.setHeap(p.Obj, in.base.heap[p.Obj])
		}
		return v
	}
	name := short(g.String())
	t := g.Type().(*types.Pointer).Elem()
	if in.R.SSA[g.Pkg.Pkg.Path()] == g.Pkg {
		in.initPkg(g.Pkg)
		if v, ok := in.globals[g]; ok {
			// s was forked before the object existed.
			p := v.(*Ptr)
			if _, ok := s.heap[p.Obj]; !ok {
				s.setHeap(p.Obj, in.base.heap[p.Obj])
			}
			return v
		}
	}
	var init Val = mk(t, "global", name)
	if k := in.constant(g); k != nil && k.Value != nil {
		init = ConstT(k.Value, t)
	}
	if name == "lnd/lntypes.ZeroHash" {
		init = zero(t)
	}
	p := &Ptr{Obj: in.base.alloc(init)}
	in.globals[g] = p
	s.setHeap(p.Obj, init)
	return p
}

func (in *Interp) initPkg(p *ssa.Package) {
	if in.initDone[p] {
		return
	}
	in.initDone[p] = true
	defer func(r *raceRec) { in.race = r }(in.race)
	in.race = nil
	fn := p.Func("init")
	st := in.base
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			t := g.Type().(*types.Pointer).Elem()
			in.globals[g] = &Ptr{Obj: st.alloc(zero(t))}
		}
	}
	oldSc := in.sc
	in.sc = &Scenario{MaxLen: 3, LoopK: 6, ExtOK: true}
	oldInit := in.initing
	in.initing = true
	defer func() { in.sc = oldSc; in.initing = oldInit }()
	s := st.fork()
	s.stack = nil
	s.setHeap(in.globals[p.Members["init$guard"].(*ssa.Global)].(*Ptr).Obj, BoolT(false))
	outs := in.Call(s, fn, nil)
	var fin *State
	for _, o := range outs {
		if o.Kind == Ret {
			fin = o.St
		}
	}
	if fin == nil {
		panic(Undecided{"initialiser of " + p.Pkg.Path()})
	}
	for _, m := range p.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		ptr := in.globals[g].(*Ptr)
		v := fin.heap[ptr.Obj]
		t := g.Type().(*types.Pointer).Elem()
		if isErrorType(t) {
			name := short(g.String())
			in.globalInit[name] = fin.Freeze(v)
			gt := mk(t, "global", name)
			fin.setHeap(ptr.Obj, gt)
		}
	}
	// Keep the initialised heap, drop events.
	in.base.heap = fin.heap
	in.base.sym, in.base.orig = fin.sym, fin.orig
	in.base.heapS, in.base.symS = true, true
}

// isLocalPkg tells whether a function belongs to the analysed code base.
func (in *Interp) isRepo(fn *ssa.Function) bool {
	f := fn
	if o := f.Origin(); o != nil && f.Pkg == nil {
		f = o
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), Mod)
		}
		return len(fn.Blocks) > 0
	}
	return in.R.SSA[f.Pkg.Pkg.Path()] == f.Pkg
}

func (in *Interp) setv(f *frame, v ssa.Value, x Val) { f.env[f.info.num[v]] = x }

// run executes a frame until it forks or ends.
func (in *Interp) run(f *frame, s *State) ([]work, []Out) {
	for {
		if f.i >= len(f.blk.Instrs) {
			panic(Undecided{"fell off block in " + f.fn.String()})
		}
		in.steps++
		if in.steps > in.stepLimit || in.steps&0xfff == 0 && !in.Deadline.IsZero() && time.Now().After(in.Deadline) {
			panic(Undecided{"analysis budget exceeded in " + f.fn.String()})
		}
		ins := f.blk.Instrs[f.i]
		if in.cover != nil {
			in.cover[ins] = true
		}
		if in.race != nil {
			in.race.fn = f.fn
			if p := ins.Pos(); p.IsValid() {
				in.race.pos = p
			}
		}
		switch x := ins.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			// Evaluate all phis of the block at once.
			var idx int
			for i, p := range f.blk.Preds {
				if p == f.prev {
					idx = i
				}
			}
			var vals []Val
			var phis []*ssa.Phi
			for j := f.i; j < len(f.blk.Instrs); j++ {
				p, ok := f.blk.Instrs[j].(*ssa.Phi)
				if !ok {
					break
				}
				phis = append(phis, p)
				vals = append(vals, in.val(s, f, p.Edges[idx]))
			}
			for j, p := range phis {
				if s.eraSel != nil && s.loopCount(p, f.prev) {
					if old := f.env[f.info.num[p]]; old != nil {
						vals[j] = s.anyCount(old, vals[j], p.Edges[idx])
					}
				}
				in.setv(f, p, vals[j])
			}
			f.i += len(phis)
			continue
		case *ssa.Jump:
			in.jump(f, f.blk.Succs[0])
			continue
		case *ssa.If:
			c := in.val(s, f, x.Cond).(*Term)
			if b, ok := s.evalBool(c); ok {
				if b {
					in.jump(f, f.blk.Succs[0])
				} else {
					in.jump(f, f.blk.Succs[1])
				}
				continue
			}
			if f.forks == nil {
				f.forks = map[ssa.Instruction]int{}
			}
			f.forks[ins]++
			if f.forks[ins] > in.sc.LoopK+2 {
				return nil, []Out{{St: s, Kind: Truncated, Pos: x.Cond.Pos(), Why: "loop bound"}}
			}
			if len(in.unk) > 0 && in.Taint == "" {
				if n := in.dependsOnUnknown(c); n != "" {
					in.Taint = "the path depends on " + n
				}
			}
			y, n := s.branch(c)
			var wl []work
			if n != nil {
				g := f.clone()
				in.jump(g, f.blk.Succs[1])
				wl = append(wl, work{g, n})
			}
			if y != nil {
				g := f.clone()
				in.jump(g, f.blk.Succs[0])
				wl = append(wl, work{g, y})
			}
			in.Paths++
			return wl, nil
		case *ssa.Return:
			var vals []Val
			for _, r := range x.Results {
				vals = append(vals, in.val(s, f, r))
			}
			return nil, []Out{{St: s, Vals: vals, Kind: Ret, Pos: x.Pos()}}
		case *ssa.Panic:
			v := in.val(s, f, x.X)
			in.ev(s, f, &Event{Kind: "panic", Name: "panic", Args: []*Term{s.Freeze(v)}, Pos: x.Pos()})
			return nil, []Out{{St: s, Kind: Panicked, Pos: x.Pos(), Why: "explicit panic"}}
		case *ssa.RunDefers:
			if len(f.defers) > 0 {
				d := f.defers[len(f.defers)-1]
				f.defers = f.defers[:len(f.defers)-1]
				outs := in.call(s, f, d.call, d.fn, d.args, d.instr)
				return in.cont(f, outs, func(g *frame, o Out) {})
			}
		case *ssa.Call:
			fnv, args := in.callArgs(s, f, &x.Call)
			outs := in.call(s, f, &x.Call, fnv, args, x)
			if len(outs) == 1 && outs[0].Kind == Ret {
				s = outs[0].St
				in.setv(f, x, tupleOf(outs[0].Vals, x.Type()))
				break
			}
			return in.cont(f, outs, func(g *frame, o Out) {
				in.setv(g, x, tupleOf(o.Vals, x.Type()))
				g.i++
			})
		case *ssa.Defer:
			fnv, args := in.callArgs(s, f, &x.Call)
			f.defers = append(f.defers, deferred{x, fnv, args, &x.Call})
		case *ssa.Go:
			fnv, args := in.callArgs(s, f, &x.Call)
			raw := append([]Val{fnv}, args...)
			e := in.ev(s, f, &Event{Kind: "go", Name: "go", Raw: raw, Args: s.FreezeAll(raw), Pos: x.Pos(), Instr: x})
			in.spawned(s, "goroutine", fnv, args, e)
		case *ssa.Send:
			ch := in.val(s, f, x.Chan)
			v := in.val(s, f, x.X)
			in.ev(s, f, &Event{Kind: "send", Name: "send", Raw: []Val{ch, v}, Args: []*Term{s.Freeze(ch), s.Freeze(v)}, Pos: x.Pos(), Instr: x})
			if c, ok := ch.(*ChanRef); ok {
				cv := s.heap[c.Obj].(*ChanV)
				if cv.Closed {
					return nil, []Out{{St: s, Kind: Panicked, Pos: x.Pos(), Why: "send on closed channel"}}
				}
				if c.Obj <= s.era && len(cv.Queue) > 0 {
					return nil, []Out{{St: s, Kind: Parked, Pos: x.Pos(), Why: "send on a channel that earlier events have filled"}}
				}
				if n, ok := constInt64(cv.Cap); ok && int64(len(cv.Queue)) < n {
					nc := *cv
					nc.Queue = append(append([]Val(nil), cv.Queue...), v)
					s.setHeap(c.Obj, &nc)
				}
			}
		case *ssa.Store:
			p, ok := in.resolve(s, in.val(s, f, x.Addr), x.Val.Type())
			if !ok {
				return nil, []Out{in.nilPanic(s, f, x.Pos())}
			}
			v := in.val(s, f, x.Val)
			if p.Obj <= s.era && isInteger(x.Val.Type()) {
				v = s.anyCount(in.load(s, p), v, x.Val)
			}
			in.store(s, p, v, x.Val.Type())
		case *ssa.MapUpdate:
			m := in.val(s, f, x.Map)
			if t, ok := m.(*Term); ok && t.Op == "nil" {
				return nil, []Out{in.nilPanic(s, f, x.Pos())}
			}
			in.ev(s, f, &Event{Kind: "mapupdate", Name: "mapupdate", Args: []*Term{s.Freeze(m), s.Freeze(in.val(s, f, x.Key)), s.Freeze(in.val(s, f, x.Value))}, Pos: x.Pos(), Instr: x})
			v := in.val(s, f, x.Value)
			if r, ok := m.(*MapRef); ok && r.Obj <= s.era && isInteger(x.Value.Type()) {
				if b, ok := constInt(v); ok {
					d := big.NewInt(1)
					if b.Sign() < 0 {
						d = big.NewInt(-1)
					}
					v = s.anyCount(bigT(new(big.Int).Sub(b, d)), v, x.Value)
				}
			}
			ws := in.mapUpdate(s, m, in.val(s, f, x.Key), v, x.Map.Type())
			if len(ws) != 1 {
				var wl []work
				for _, w := range ws {
					g := f.clone()
					g.i++
					wl = append(wl, work{g, w})
				}
				return wl, nil
			}
			s = ws[0]
		case *ssa.Select:
			return in.selectStmt(s, f, x)
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return in.recv(s, f, x)
			}
			v, ok := in.unop(s, f, x)
			if !ok {
				return nil, []Out{in.nilPanic(s, f, x.Pos())}
			}
			in.setv(f, x, v)
		case *ssa.TypeAssert:
			ws, outs := in.typeAssert(s, f, x)
			if len(ws) == 1 && len(outs) == 0 {
				f, s = ws[0].f, ws[0].s
				continue
			}
			return ws, outs
		case *ssa.Lookup:
			vs := in.lookup(s, f, x)
			if len(vs) == 1 {
				s = vs[0].s
				in.setv(f, x, vs[0].v)
				break
			}
			var wl []work
			for _, w := range vs {
				g := f.clone()
				in.setv(g, x, w.v)
				g.i++
				wl = append(wl, work{g, w.s})
			}
			return wl, nil
		case *ssa.Next:
			vs := in.next(s, f, x)
			if len(vs) == 1 {
				s = vs[0].s
				in.setv(f, x, vs[0].v)
				break
			}
			var wl []work
			for _, w := range vs {
				g := f.clone()
				in.setv(g, x, w.v)
				g.i++
				wl = append(wl, work{g, w.s})
			}
			return wl, nil
		case ssa.Value:
			in.mayEnd = in.mayEnd[:0]
			v, why := in.pure(s, f, x)
			if why != "" {
				in.ev(s, f, &Event{Kind: "panic", Name: why, Pos: x.Pos()})
				return nil, []Out{{St: s, Kind: Panicked, Pos: x.Pos(), Why: why}}
			}
			in.setv(f, x, v)
			if len(in.mayEnd) > 0 {
				var ends []Out
				for _, o := range in.mayEnd {
					o.Pos = x.Pos()
					in.ev(o.St, f, &Event{Kind: "panic", Name: o.Why, Pos: x.Pos()})
					ends = append(ends, o)
				}
				in.mayEnd = nil
				f.i++
				return []work{{f, s}}, ends
			}
		default:
			panic(Undecided{fmt.Sprintf("instruction %T", ins)})
		}
		f.i++
	}
}

func tupleOf(vs []Val, t types.Type) Val {
	if tt, ok := t.(*types.Tuple); ok {
		if tt.Len() == 0 {
			return &TupleV{}
		}
		return &TupleV{V: vs}
	}
	if len(vs) == 0 {
		return &TupleV{}
	}
	return vs[0]
}

func (in *Interp) cont(f *frame, outs []Out, set func(*frame, Out)) ([]work, []Out) {
	var wl []work
	var rest []Out
	for _, o := range outs {
		if o.Kind != Ret {
			rest = append(rest, o)
			continue
		}
		g := f.clone()
		set(g, o)
		wl = append(wl, work{g, o.St})
	}
	in.Paths += len(wl)
	return wl, rest
}

func (in *Interp) jump(f *frame, to *ssa.BasicBlock) {
	f.prev, f.blk, f.i = f.blk, to, 0
}

func (in *Interp) nilPanic(s *State, f *frame, pos token.Pos) Out {
	in.ev(s, f, &Event{Kind: "panic", Name: "nil dereference", Pos: pos})
	return Out{St: s, Kind: Panicked, Pos: pos, Why: "nil dereference"}
}

func (in *Interp) ev(s *State, f *frame, e *Event) *Event {
	if f != nil {
		e.Fn = f.fn
	}
	return s.event(e)
}

func (in *Interp) callArgs(s *State, f *frame, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, in.val(s, f, a))
	}
	return in.val(s, f, c.Value), args
}

// call dispatches a call.
func (in *Interp) call(s *State, f *frame, c *ssa.CallCommon, fnv Val, args []Val, instr ssa.Instruction) []Out {
	ci := &CallInfo{Args: args, Sig: c.Signature(), Pos: instr.Pos(), Instr: instr, Caller: f.fn}
	if c.IsInvoke() {
		ci.Method = c.Method.Name()
		return in.invoke(s, fnv, c.Value.Type(), c.Method, ci)
	}
	return in.callVal(s, fnv, ci)
}

func (in *Interp) invoke(s *State, recv Val, it types.Type, m *types.Func, ci *CallInfo) []Out {
	// Logging has no effect.
	if strings.Contains(types.TypeString(it, nil), "btclog.Logger") ||
		m.Pkg() != nil && m.Pkg().Path() == "github.com/btcsuite/btclog" {

		if in.onSink != nil {
			in.onSink(s, "log", ci, ci.Args)
		}
		return []Out{{St: s, Vals: zeros(ci.Sig)}}
	}
	if t, ok := recv.(*Term); ok && t.Op == "nil" {
		return []Out{in.panicOut(s, ci, "nil interface call "+m.Name())}
	}
	if i, ok := recv.(*IfaceV); ok {
		fn := in.R.Prog.LookupMethod(i.T, m.Pkg(), m.Name())
		if fn == nil {
			// Not in the program: a method of a dependency's type.
			ci.Name = "(" + typeName(i.T) + ")." + m.Name()
			ci.Args = append([]Val{i.V}, ci.Args...)
			return in.dispatch(s, ci)
		}
		ci.Args = append([]Val{i.V}, ci.Args...)
		ci.Fn = fn
		ci.Name = short(fn.String())
		if len(fn.Blocks) > 0 {
			// A method whose code is known is no different from a function.
			ci.Method = ""
		}
		return in.dispatch(s, ci)
	}
	ci.Name = "invoke " + m.Name()
	if in.onSink != nil && m.Pkg() != nil {
		in.onSink(s, "to "+m.Pkg().Path(), ci, ci.Args)
	}
	ci.Args = append([]Val{recv}, ci.Args...)
	return in.dispatch(s, ci)
}

func (in *Interp) panicOut(s *State, ci *CallInfo, why string) Out {
	s.event(&Event{Kind: "panic", Name: why, Pos: ci.Pos, Fn: ci.Caller})
	return Out{St: s, Kind: Panicked, Pos: ci.Pos, Why: why}
}

func (in *Interp) callVal(s *State, fnv Val, ci *CallInfo) []Out {
	switch x := fnv.(type) {
	case *FuncV:
		if x.Fn == nil {
			ci.Name = x.Ext
			if strings.HasPrefix(x.Ext, "builtin ") {
				return in.builtin(s, x.Ext[8:], ci)
			}
			ci.Args = append(append([]Val(nil), x.Env...), ci.Args...)
			return in.dispatch(s, ci)
		}
		ci.Fn = x.Fn
		ci.Name = short(x.Fn.String())
		if len(x.Bind) > 0 && len(x.Fn.Blocks) > 0 {
			if in.sc.Call != nil {
				if o, ok := in.sc.Call(in, s, ci); ok {
					return o
				}
			}
			return in.Call(s, x.Fn, ci.Args, x.Bind...)
		}
		return in.dispatch(s, ci)
	case *Term:
		if x.Op == "nil" {
			return []Out{in.panicOut(s, ci, "nil function call")}
		}
		if b, k := s.null(x); k && b {
			return []Out{in.panicOut(s, ci, "nil function call")}
		}
		ci.Name = "dyn " + x.String()
		return in.dispatch(s, ci)
	}
	panic(Undecided{fmt.Sprintf("call of %T", fnv)})
}

func (in *Interp) dispatch(s *State, ci *CallInfo) []Out {
	if in.onSink != nil {
		in.onSink(s, "call", ci, ci.Args)
	}
	if in.sc.Call != nil {
		if o, ok := in.sc.Call(in, s, ci); ok {
			return o
		}
	}
	if in.race != nil && strings.HasPrefix(ci.Name, "lnd/tlv.") {
		// The tlv codecs write to the scratch space they are given.
		for _, a := range ci.Args {
			if p, ok := a.(*Ptr); ok {
				if x, ok := s.heap[p.Obj]; ok {
					if arr, ok := in.getPath(s, x, p.Path, nil).(*ArrayV); ok && arr.N == 8 && isByte(arr.Elem) {
						in.access(s, p.Obj, p.Path, true, nil)
					}
				}
			}
		}
	}
	if m, ok := models[ci.Name]; ok {
		return m(in, s, ci)
	}
	if ci.Fn != nil && len(ci.Fn.Blocks) > 0 && (in.isRepo(ci.Fn) || in.isScalar(ci.Fn)) {
		if in.initing && ci.Fn.Name() == "init" && ci.Fn.Pkg != nil {
			return []Out{{St: s}}
		}
		return in.Call(s, ci.Fn, ci.Args)
	}
	if ci.Fn != nil && ci.Fn.Name() == "init" && ci.Fn.Signature.Params().Len() == 0 {
		return []Out{{St: s}}
	}
	if o, ok := in.patternModel(s, ci); ok {
		return o
	}
	return in.external(s, ci)
}

func zeros(sig *types.Signature) []Val {
	var r []Val
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, zero(sig.Results().At(i).Type()))
	}
	return r
}

// external is the default treatment of a call that leaves the code base: the
// results are terms over the call, error results fork.
func (in *Interp) external(s *State, ci *CallInfo) []Out {
	in.unknown(s, ci)
	fa := s.FreezeAll(ci.Args)
	// A method of a dependency called on a nil receiver.
	if ci.Sig.Recv() != nil && len(ci.Args) > 0 && ci.Method == "" {
		if _, isPtr := ci.Sig.Recv().Type().Underlying().(*types.Pointer); isPtr {
			if t, ok := ci.Args[0].(*Term); ok {
				if b, known := s.null(t); known && b {
					return []Out{in.panicOut(s, ci, "nil receiver: "+ci.Name)}
				}
			}
		}
	}
	return in.extResult(s, ci, ci.Name, fa, !in.isImpure(ci))
}

// isScalar tells whether a function of a dependency computes plain values from
// plain values, so that it is read from its source.
func (in *Interp) isScalar(fn *ssa.Function) bool {
	if v, ok := in.scalar[fn]; ok {
		return v
	}
	if in.scalar == nil {
		in.scalar = map[*ssa.Function]bool{}
	}
	in.scalar[fn] = false
	in.scalar[fn] = in.scalarFn(fn)
	return in.scalar[fn]
}

// constant returns the value of a dependency's package variable that is only
// ever set to a constant, by its initialiser.
func (in *Interp) constant(g *ssa.Global) *ssa.Const {
	if g.Pkg == nil || ast.IsExported(g.Name()) || in.R.SSA[g.Pkg.Pkg.Path()] == g.Pkg {
		return nil
	}
	var c *ssa.Const
	n := 0
	for fn := range in.R.All {
		if fn.Pkg != g.Pkg && (fn.Parent() == nil || fn.Pkg != nil) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if *op != g {
						continue
					}
					switch x := ins.(type) {
					case *ssa.Store:
						n++
						if k, ok := x.Val.(*ssa.Const); ok && fn.Name() == "init" && x.Addr == g {
							c = k
						}
					case *ssa.UnOp:
					default:
						n += 2
					}
				}
			}
		}
	}
	if n != 1 {
		return nil
	}
	return c
}

func (in *Interp) scalarFn(fn *ssa.Function) bool {
	plain := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&(types.IsFloat|types.IsComplex) == 0
	}
	for _, p := range fn.Params {
		if !plain(p.Type()) {
			return false
		}
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		if !plain(fn.Signature.Results().At(i).Type()) {
			return false
		}
	}
	if len(fn.Params) == 0 || len(fn.FreeVars) > 0 || len(fn.Blocks) > 16 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, d := range b.Succs {
			if d.Dominates(b) {
				return false
			}
		}
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.BinOp, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Phi, *ssa.DebugRef:
			case *ssa.Convert:
				if !plain(x.X.Type()) || !plain(x.Type()) {
					return false
				}
			case *ssa.ChangeType:
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return false
				}
				if g, ok := x.X.(*ssa.Global); x.Op == token.MUL && (!ok || in.constant(g) == nil) {
					return false
				}
			case *ssa.Call:
				g := x.Call.StaticCallee()
				if g == nil || len(g.Blocks) == 0 || models[short(g.String())] != nil || !in.isScalar(g) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

// understood are the calls that leave the code base and need no model: all
// that is known of them is that they leave their arguments alone, and each
// result is a value of its own.
var understood = map[string]bool{
	"(*sphinx.Router).Start": true, "(*sphinx.Router).Stop": true,
	"sphinx.NewRouter": true, "sphinx.NewMemoryReplayLog": true, "sphinx.NewOnionPacket": true,
	"btcec.NewPrivateKey": true, "lndclient.AssertVersionCompatible": true,
	"path/filepath.Join": true,

	// What the surroundings are like, which may be anything.
	"time.Now": true, "os.Getenv": true, "os.Getpid": true, "os.LookupEnv": true, "os.Hostname": true,
	"runtime.NumGoroutine": true, "runtime.NumCPU": true, "runtime.GOMAXPROCS": true,

	"(secp.PrivateKey).Serialize": true, "(*secp.PrivateKey).Serialize": true,
	"(secp.ModNScalar).String": true, "(*secp.ModNScalar).String": true,
	"(secp.ModNScalar).Bytes": true, "(*secp.ModNScalar).Bytes": true,
}

// changing are pure functions whose result is not always their argument.
func changing(n string) bool {
	for _, p := range []string{"math/rand.", "(time.Time).Hour", "(time.Time).Minute", "(time.Time).Second", "(time.Time).Nano", "(time.Time).Week", "(time.Time).Year", "(time.Time).Day", "(time.Time).Month", "(time.Time).Equal", "(time.Time).Compare", "strings.Trim", "strings.To", "strings.Title", "strings.Replace", "bytes.Trim", "bytes.To", "bytes.Replace",
		"(time.Time).Add", "(time.Time).Truncate", "(time.Time).Round", "(time.Time).Sub", "(time.Duration).", "math.",
		"strings.Has", "strings.Contains", "bytes.Has", "bytes.Contains", "(time.Time).Before", "(time.Time).After", "(time.Time).Unix"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// unknown notes a call of a function nothing is known about. What it does to
// its arguments is not seen, nor is what its results are, so nothing that
// depends on it counts as a violation.
func (in *Interp) unknown(s *State, ci *CallInfo) {
	n := ci.Name
	if understood[n] || changing(n) || strings.HasPrefix(n, "invoke ") || strings.HasPrefix(n, "dyn ") {
		return
	}
	in.note(n)
	sig := ci.Sig
	if k := sig.Results().Len(); k > 0 && isErrorType(sig.Results().At(k-1).Type()) && !in.sc.ExtOK {
		in.Taint = n + " may fail"
	}
	for _, a := range ci.Args {
		switch x := a.(type) {
		case *Ptr:
			in.Taint = n + " may change its argument"
		case *SliceV:
			if x.Base != nil {
				in.Taint = n + " may change its argument"
			}
		case *IfaceV:
			if _, ok := x.V.(*Ptr); ok {
				in.Taint = n + " may change its argument"
			}
		}
	}
}

func (in *Interp) note(n string) {
	if in.unk == nil {
		in.unk = map[string]bool{}
	}
	in.unk[n] = true
}

// dependsOnUnknown: the value comes from a call without a model.
func (in *Interp) dependsOnUnknown(v interface{}) string {
	if len(in.unk) == 0 {
		return ""
	}
	var why string
	switch x := v.(type) {
	case *Term:
		x.Walk(func(t *Term) bool {
			if t.Op == "app" && (in.unk[t.S] || in.unk[strings.TrimPrefix(strings.Split(t.S, "#")[0], "err:")]) {
				why = t.S
			}
			return why == ""
		})
	case string:
		for n := range in.unk {
			if strings.Contains(x, n) {
				why = n
			}
		}
	}
	return why
}

// extResult forks ok/err outcomes with results named after the operation.
func (in *Interp) extResult(s *State, ci *CallInfo, opName string, fa []*Term, pure bool) []Out {
	args := fa
	if !pure {
		k := "n:" + opName
		n := int64(0)
		if v, ok := s.ghost[k]; ok {
			n, _ = constInt64(v)
		}
		s.setGhost(k, IntT(n+1))
		args = append(append([]*Term(nil), fa...), mk(nil, "occ", fmt.Sprint(n)))
	}
	e := s.event(&Event{Kind: "call", Name: ci.Name, Args: fa, Raw: ci.Args, Pos: ci.Pos, Fn: ci.Caller, Instr: ci.Instr})
	res := ci.Sig.Results()
	var vals []Val
	errIdx := -1
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		name := opName
		if res.Len() > 1 && i > 0 {
			name += fmt.Sprintf("#%d", i)
		}
		if isErrorType(t) && i == res.Len()-1 {
			errIdx = i
			vals = append(vals, NilT)
			continue
		}
		r := App(t, name, args...)
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Chan, *types.Signature:
			in.nonNil[r.id] = true
		}
		vals = append(vals, r)
	}
	e.Res = vals
	outs := []Out{{St: s, Vals: vals}}
	if errIdx >= 0 && !in.extOK(ci) {
		f := s.fork()
		errT := App(res.At(errIdx).Type(), "err:"+opName, args...)
		in.nonNil[errT.id] = true
		ev := make([]Val, res.Len())
		for i := range ev {
			ev[i] = zero(res.At(i).Type())
		}
		ev[errIdx] = errT
		// The event of the failing path is a separate record.
		fe := *e
		fe.Failed = true
		fe.Res = ev
		f.last = &fe
		outs = append(outs, Out{St: f, Vals: ev})
	}
	return outs
}

func (in *Interp) extOK(ci *CallInfo) bool { return in.sc.ExtOK }

// ---- expressions without control flow ----

func (in *Interp) unop(s *State, f *frame, x *ssa.UnOp) (Val, bool) {
	switch x.Op {
	case token.MUL:
		p := in.val(s, f, x.X)
		if fv, ok := p.(*FuncV); ok {
			return fv, true
		}
		ptr, ok := in.resolve(s, p, x.Type())
		if !ok {
			return nil, false
		}
		return in.load(s, ptr), true
	case token.NOT:
		return notT(in.val(s, f, x.X).(*Term)), true
	case token.SUB:
		t := in.val(s, f, x.X).(*Term)
		if t.Op == "const" {
			return ConstT(constant.UnaryOp(token.SUB, t.C, 0), x.Type()), true
		}
		return toLin(t).scale(big.NewInt(-1)).term(x.Type()), true
	case token.XOR:
		t := in.val(s, f, x.X).(*Term)
		return App(x.Type(), "^", t), true
	}
	panic(Undecided{"unop " + x.Op.String()})
}

func (in *Interp) pure(s *State, f *frame, v ssa.Value) (Val, string) {
	switch x := v.(type) {
	case *ssa.Alloc:
		return s.newPtr(zero(derefType(x.Type()))), ""
	case *ssa.BinOp:
		if y, ok := in.val(s, f, x.Y).(*Term); ok && (x.Op == token.QUO || x.Op == token.REM) && isInteger(x.Type()) && y.Op != "const" {
			if why := in.byZero(s, y); why != "" {
				return nil, why
			}
		}
		return in.binop(s, x.Op, in.val(s, f, x.X), in.val(s, f, x.Y), x.X.Type(), x.Type())
	case *ssa.ChangeInterface:
		return in.val(s, f, x.X), ""
	case *ssa.ChangeType:
		return in.val(s, f, x.X), ""
	case *ssa.Convert:
		return in.convert(s, f, in.val(s, f, x.X), x.X.Type(), x.Type(), x), ""
	case *ssa.MultiConvert:
		return in.convert(s, f, in.val(s, f, x.X), x.X.Type(), x.Type(), x), ""
	case *ssa.Extract:
		t := in.val(s, f, x.Tuple).(*TupleV)
		return t.V[x.Index], ""
	case *ssa.Field:
		return in.fieldOf(s, in.val(s, f, x.X), x.Field, x.X.Type()), ""
	case *ssa.FieldAddr:
		base := in.val(s, f, x.X)
		p, ok := in.resolve(s, base, derefType(x.X.Type()))
		if !ok {
			return nil, "nil dereference"
		}
		np := append(append([]PathElem(nil), p.Path...), PathElem{Field: x.Field})
		return &Ptr{Obj: p.Obj, Path: np}, ""
	case *ssa.Index:
		c := in.val(s, f, x.X)
		idx := in.val(s, f, x.Index).(*Term)
		e := in.elemOf(s, c, idx)
		if e == nil {
			return nil, "index out of range"
		}
		return e, ""
	case *ssa.IndexAddr:
		return in.indexAddr(s, in.val(s, f, x.X), in.val(s, f, x.Index).(*Term), x.X.Type())
	case *ssa.MakeChan:
		n := in.val(s, f, x.Size).(*Term)
		return &ChanRef{Obj: s.alloc(&ChanV{Cap: n, Elem: x.Type().Underlying().(*types.Chan).Elem(), Label: in.R.Pos(x.Pos())})}, ""
	case *ssa.MakeClosure:
		var b []Val
		for _, y := range x.Bindings {
			b = append(b, in.val(s, f, y))
		}
		return &FuncV{Fn: x.Fn.(*ssa.Function), Bind: b}, ""
	case *ssa.MakeInterface:
		v := in.val(s, f, x.X)
		return &IfaceV{T: x.X.Type(), V: v}, ""
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		return &MapRef{Obj: s.alloc(&MapV{KT: mt.Key(), VT: mt.Elem()})}, ""
	case *ssa.MakeSlice:
		et := elemType(x.Type())
		l := in.val(s, f, x.Len).(*Term)
		for n := range toLin(l).co {
			if why := in.fromEnd(s, l, n, "makeslice: len out of range"); why != "" {
				return nil, why
			}
		}
		c := in.val(s, f, x.Cap).(*Term)
		arr := &ArrayV{Elem: et, N: -1}
		if n, ok := constInt64(c); ok {
			arr.N = n
			if n < 0 {
				return nil, "makeslice: len out of range"
			}
		}
		if _, ok := constInt64(l); !ok && isByte(et) {
			p := s.newPtr(mk(x.Type(), "zeros", "", l))
			return &SliceV{Base: p, Len: l, Cap: l, Elem: et}, ""
		}
		return &SliceV{Base: s.newPtr(arr), Len: l, Cap: c, Elem: et}, ""
	case *ssa.Range:
		return in.rangeOver(s, in.val(s, f, x.X), x.X.Type()), ""
	case *ssa.Slice:
		return in.slice(s, f, x)
	case *ssa.SliceToArrayPointer:
		v := in.val(s, f, x.X)
		if sl, ok := v.(*SliceV); ok && sl.Lo == 0 {
			return sl.Base, ""
		}
		return s.newPtr(s.Content(v)), ""
	}
	panic(Undecided{fmt.Sprintf("value %T in %s", v, f.fn)})
}

// mayPanic: the path goes on if the condition holds. If nothing else is known
// of the input whose length decides that, it may as well not hold, and another
// path ends here.
func (in *Interp) mayPanic(s *State, cond, idx, n *Term, why string) {
	if _, ok := constInt64(idx); ok && s.freeLen(n) {
		o := s.fork()
		if o.assume(cond, false) {
			in.mayEnd = append(in.mayEnd, Out{St: o, Kind: Panicked, Why: why})
		}
	}
	s.assume(cond, true)
}

// fromEnd: the bound counts from the end of something with n elements, and that
// may be too short for it.
func (in *Interp) fromEnd(s *State, bound, n *Term, why string) string {
	if _, ok := constInt64(bound); ok {
		return ""
	}
	if b, ok := s.evalBool(ltT(bound, IntT(0))); ok {
		if b {
			return why
		}
		return ""
	}
	k, ok := constInt64(subT(n, bound, types.Typ[types.Int]))
	if !ok || k <= 0 {
		return ""
	}
	short := ltT(n, IntT(k))
	if s.freeLen(n) {
		o := s.fork()
		if o.assume(short, true) {
			in.mayEnd = append(in.mayEnd, Out{St: o, Kind: Panicked, Why: why})
		}
	}
	s.assume(short, false)
	return ""
}

// byZero: dividing by the term may panic.
func (in *Interp) byZero(s *State, y *Term) string {
	z := eqT(y, IntT(0))
	b, ok := s.evalBool(z)
	switch {
	case ok && b:
		return "division by zero"
	case !ok:
		if s.freeLen(y) {
			o := s.fork()
			if o.assume(z, true) {
				in.mayEnd = append(in.mayEnd, Out{St: o, Kind: Panicked, Why: "division by zero"})
			}
		}
		s.assume(z, false)
	}
	return ""
}

// freeLen: the term is the length of an input, and nothing is known of that
// input that could have to do with its length.
func (s *State) freeLen(n *Term) bool {
	if n.Op != "len" || len(n.Args) != 1 {
		return false
	}
	x := n.Args[0]
	for y := x; ; y = y.Args[0] {
		switch y.Op {
		case "field", "elem", "deref", "arr":
			continue
		case "sym":
		default:
			return false
		}
		break
	}
	for _, t := range termTab {
		if _, ok := s.bools[t.id]; !ok {
			continue
		}
		free := true
		if t.Op == "eq" && (t.Args[0] == x && t.Args[1] == NilT || t.Args[1] == x && t.Args[0] == NilT) {
			continue
		}
		t.Walk(func(y *Term) bool {
			if y == n {
				return false
			}
			free = free && y != x
			return true
		})
		if !free {
			return false
		}
	}
	for _, l := range s.lins {
		if l.co[n] != nil {
			return false
		}
	}
	return true
}

// sliceOf makes the elements of a slice-like value addressable.
func (in *Interp) sliceOf(s *State, v Val, t types.Type) *SliceV {
	switch x := v.(type) {
	case *SliceV:
		return x
	case *Term:
		if x.Op == "nil" {
			return nil
		}
		et := elemType(x.T)
		if et == nil {
			et = elemType(t)
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			// pointer to array
			ptr, ok2 := in.resolve(s, x, p.Elem())
			if !ok2 {
				return nil
			}
			n := p.Elem().Underlying().(*types.Array).Len()
			return &SliceV{Base: ptr, Len: IntT(n), Cap: IntT(n), Elem: et}
		}
		if x.Op == "list" {
			a := &ArrayV{Elem: et, N: int64(len(x.Args)), E: map[int64]Val{}}
			for i, e := range x.Args {
				a.E[int64(i)] = e
			}
			n := IntT(a.N)
			return &SliceV{Base: s.newPtr(a), Len: n, Cap: n, Elem: et}
		}
		o := s.symObj(x, mk(x.T, "arr", "", x))
		l := s.lenOf(x)
		return &SliceV{Base: &Ptr{Obj: o}, Len: l, Cap: l, Elem: et}
	case *Ptr:
		a, ok := derefType(t).Underlying().(*types.Array)
		if !ok {
			break
		}
		n := IntT(a.Len())
		return &SliceV{Base: x, Len: n, Cap: n, Elem: a.Elem()}
	case *IfaceV:
		return in.sliceOf(s, x.V, x.T)
	}
	panic(Undecided{fmt.Sprintf("slice of %T", v)})
}

func (in *Interp) indexAddr(s *State, v Val, idx *Term, t types.Type) (Val, string) {
	sl := in.sliceOf(s, v, t)
	if sl == nil {
		return nil, "index out of range"
	}
	// Bounds: a definite or possible violation is a crash.
	inb := ltT(idx, sl.Len)
	if b, ok := s.evalBool(inb); ok && !b {
		return nil, "index out of range"
	} else if !ok {
		// Unknown: this path goes on with an index that is in range.
		in.mayPanic(s, inb, idx, sl.Len, "index out of range")
	}
	if i, ok := constInt64(idx); ok && i < 0 {
		return nil, "index out of range"
	}
	if why := in.fromEnd(s, idx, sl.Len, "index out of range"); why != "" {
		return nil, why
	}
	pi := idx
	if sl.Lo != 0 {
		pi = addT(idx, IntT(sl.Lo), types.Typ[types.Int])
	}
	np := append(append([]PathElem(nil), sl.Base.Path...), PathElem{Field: -1, Idx: pi})
	return &Ptr{Obj: sl.Base.Obj, Path: np}, ""
}

func (in *Interp) slice(s *State, f *frame, x *ssa.Slice) (Val, string) {
	v := in.val(s, f, x.X)
	get := func(y ssa.Value) *Term {
		if y == nil {
			return nil
		}
		return in.val(s, f, y).(*Term)
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		// The array that a nil pointer points to can not be sliced.
		if _, ok := in.resolve(s, v, derefType(x.X.Type())); !ok {
			return nil, "nil dereference"
		}
	}
	return in.sliceVal(s, v, x.X.Type(), lo, hi, mx)
}

func (in *Interp) sliceVal(s *State, v Val, t types.Type, lo, hi, mx *Term) (Val, string) {
	if isString(t) {
		c := s.Content(v)
		if lo == nil {
			lo = IntT(0)
		}
		if hi == nil {
			hi = s.lenOf(v)
		}
		if b, ok := s.evalBool(ltT(hi, lo)); ok && b {
			return nil, "slice bounds"
		}
		n := s.lenOf(v)
		if b, ok := s.evalBool(ltT(n, hi)); ok && b {
			return nil, "slice bounds"
		} else if !ok {
			in.mayPanic(s, notT(ltT(n, hi)), hi, n, "slice bounds")
		} else if hi == n {
			if _, ok := s.evalBool(ltT(hi, lo)); !ok {
				in.mayPanic(s, notT(ltT(hi, lo)), lo, n, "slice bounds")
			}
		}
		for _, b := range []*Term{lo, hi} {
			if why := in.fromEnd(s, b, n, "slice bounds"); why != "" {
				return nil, why
			}
		}
		r := subBytes(c, lo, subT(hi, lo, types.Typ[types.Int]))
		if r.T == nil || !isString(r.T) {
			return mkStr(r), ""
		}
		return r, ""
	}
	sl := in.sliceOf(s, v, t)
	if sl == nil {
		for _, b := range []*Term{lo, hi} {
			if b == nil {
				continue
			}
			if z, ok := constInt64(b); !ok || z != 0 {
				return nil, "slice bounds"
			}
		}
		return NilT, ""
	}
	if lo == nil {
		lo = IntT(0)
	}
	if hi == nil {
		hi = sl.Len
	}
	limit := sl.Cap
	if b, ok := s.evalBool(ltT(limit, hi)); ok && b {
		return nil, "slice bounds"
	} else if !ok && limit == sl.Len {
		in.mayPanic(s, notT(ltT(limit, hi)), hi, limit, "slice bounds")
	}
	if b, ok := s.evalBool(ltT(hi, lo)); ok && b {
		return nil, "slice bounds"
	} else if !ok && hi == sl.Len {
		in.mayPanic(s, notT(ltT(hi, lo)), lo, hi, "slice bounds")
	}
	for _, b := range []*Term{lo, hi} {
		if why := in.fromEnd(s, b, sl.Len, "slice bounds"); why != "" {
			return nil, why
		}
	}
	l, ok := constInt64(lo)
	if !ok {
		if isByte(sl.Elem) {
			return s.newBytes(subBytes(s.Content(sl), lo, subT(hi, lo, types.Typ[types.Int]))), ""
		}
		return nil, "symbolic slice bound"
	}
	if l < 0 {
		return nil, "slice bounds"
	}
	c := subT(sl.Cap, lo, types.Typ[types.Int])
	if mx != nil {
		c = subT(mx, lo, types.Typ[types.Int])
	}
	return &SliceV{Base: sl.Base, Lo: sl.Lo + l, Len: subT(hi, lo, types.Typ[types.Int]), Cap: c, Elem: sl.Elem}, ""
}

func mkStr(t *Term) *Term {
	if t.T == nil {
		t.T = types.Typ[types.String]
	}
	return t
}

func (in *Interp) convert(s *State, f *frame, v Val, from, to types.Type, x ssa.Value) Val {
	switch {
	case isInteger(from) && isInteger(to):
		t := v.(*Term)
		lo, hi, _ := intRange(to)
		if c, ok := constInt(t); ok {
			if c.Cmp(lo) >= 0 && c.Cmp(hi) <= 0 {
				return ConstT(t.C, to)
			}
			span := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
			r := new(big.Int).Sub(c, lo)
			r.Mod(r, span)
			r.Add(r, lo)
			return ConstT(constant.Make(r), to)
		}
		iv := s.interval(t)
		if iv.Lo != nil && iv.Hi != nil && iv.Lo.Cmp(lo) >= 0 && iv.Hi.Cmp(hi) <= 0 {
			return t
		}
		if _, ok := s.rank(t); ok {
			return t
		}
		// Undo a same-width conversion.
		if t.Op == "conv" {
			u := t.Args[0]
			iu := s.interval(u)
			ulo, uhi, ok := intRange(t.T)
			if ok && iu.Lo != nil && iu.Hi != nil &&
				iu.Lo.Cmp(lo) >= 0 && iu.Hi.Cmp(hi) <= 0 {
				span1 := new(big.Int).Sub(uhi, ulo)
				span2 := new(big.Int).Sub(hi, lo)
				if span1.Cmp(span2) >= 0 {
					return u
				}
			}
		}
		in.ev(s, f, &Event{Kind: "narrow", Name: typeName(to), Args: []*Term{t}, Pos: x.Pos()})
		return mk(to, "conv", typeName(to.Underlying()), t)
	case isString(to) && isByteSlice(from):
		c := s.Content(v)
		return mkStr(c)
	case isString(from) && isByteSlice(to):
		t := v.(*Term)
		return s.newBytes(t)
	case isString(to) && isString(from):
		return v
	case isString(to) && isInteger(from):
		if t := v.(*Term); in.charOp(t) {
			if iv := s.interval(t); iv.Hi != nil && iv.Hi.IsInt64() && iv.Hi.Int64() < 128 {
				return mkStr(encT("be8", t))
			}
			panic(Undecided{"a string of an unknown rune outside of ascii"})
		}
		return App(to, "string", v.(*Term))
	}
	if t, ok := v.(*Term); ok {
		if _, isB := to.Underlying().(*types.Basic); isB {
			if t.Op == "const" {
				if isInteger(to) {
					return ConstT(constant.ToInt(t.C), to)
				}
				return ConstT(constant.ToFloat(t.C), to)
			}
			if t.Op == "secs" && isInteger(to) {
				// float seconds to integer: exact for whole seconds that
				// fit.
				lo, hi, ok := intRange(to)
				iv := s.interval(t.Args[0])
				if !ok || hi.BitLen() >= 63 || iv.Lo != nil && iv.Hi != nil && iv.Lo.Cmp(lo) >= 0 && iv.Hi.Cmp(hi) <= 0 {
					return t.Args[0]
				}
				return mk(to, "conv", typeName(to.Underlying()), t.Args[0])
			}
			return App(to, "conv:"+typeName(to.Underlying()), t)
		}
	}
	return v
}

func (in *Interp) binop(s *State, op token.Token, a, b Val, xt, rt types.Type) (Val, string) {
	switch op {
	case token.EQL:
		return in.equal(s, a, b, xt), ""
	case token.NEQ:
		return notT(in.equal(s, a, b, xt)), ""
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(Undecided{fmt.Sprintf("binop %s on %T %T", op, a, b)})
	}
	cmp := false
	switch op {
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		cmp = true
	}
	if x.Op == "const" && y.Op == "const" && op != token.SHL && op != token.SHR {
		if cmp {
			return BoolT(constant.Compare(x.C, op, y.C)), ""
		}
		o := op
		if op == token.QUO && isInteger(xt) {
			if constant.Sign(y.C) == 0 {
				return nil, "division by zero"
			}
			o = token.QUO_ASSIGN
		}
		if op == token.REM && constant.Sign(y.C) == 0 {
			return nil, "division by zero"
		}
		c := constant.BinaryOp(x.C, o, y.C)
		if isInteger(rt) {
			t := ConstT(c, rt)
			return in.wrapConst(t, rt), ""
		}
		return ConstT(c, rt), ""
	}
	if cmp {
		switch op {
		case token.LSS:
			return in.decided(s, ltT(x, y)), ""
		case token.GTR:
			return in.decided(s, ltT(y, x)), ""
		case token.LEQ:
			return in.decided(s, notT(ltT(y, x))), ""
		case token.GEQ:
			return in.decided(s, notT(ltT(x, y))), ""
		}
	}
	if isString(rt) && op == token.ADD {
		return mkStr(catT(x, y)), ""
	}
	if isInteger(rt) {
		if in.sc.Chars != nil && (in.charOp(x) || in.charOp(y)) {
			if c, ok := constInt(y); (op == token.QUO || op == token.REM) && ok && c.Sign() == 0 {
				return nil, "division by zero"
			}
			return mk(rt, "chop", op.String(), x, y), ""
		}
		switch op {
		case token.ADD:
			return addT(x, y, rt), ""
		case token.SUB:
			return subT(x, y, rt), ""
		case token.MUL:
			if c, ok := constInt(x); ok {
				return toLin(y).scale(c).term(rt), ""
			}
			if c, ok := constInt(y); ok {
				return toLin(x).scale(c).term(rt), ""
			}
		case token.QUO:
			if c, ok := constInt(y); ok && c.Sign() == 0 {
				return nil, "division by zero"
			}
		case token.SHL, token.SHR:
			if x.Op == "const" && y.Op == "const" {
				n, _ := constInt64(y)
				return in.wrapConst(ConstT(constant.Shift(x.C, op, uint(n)), rt), rt), ""
			}
		}
	}
	return App(rt, op.String(), x, y), ""
}

func (in *Interp) wrapConst(t *Term, to types.Type) *Term {
	lo, hi, ok := intRange(to)
	c, ok2 := constInt(t)
	if !ok || !ok2 || (c.Cmp(lo) >= 0 && c.Cmp(hi) <= 0) {
		return t
	}
	span := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	r := new(big.Int).Sub(c, lo)
	r.Mod(r, span)
	r.Add(r, lo)
	return ConstT(constant.Make(r), to)
}

func (in *Interp) decided(s *State, t *Term) *Term {
	if b, ok := s.evalBool(t); ok {
		return BoolT(b)
	}
	return t
}

func distinctKind(t *Term) bool {
	switch t.Op {
	case "global", "errorf", "errnew", "status":
		return true
	}
	return false
}

// equal builds the condition a == b.
func (in *Interp) equal(s *State, a, b Val, t types.Type) *Term {
	if isNilV(b) {
		a, b = b, a
	}
	if isNilV(a) {
		switch y := b.(type) {
		case *Term:
			return in.decided(s, isnilT(y))
		default:
			return BoolT(false)
		}
	}
	pa, ok1 := a.(*Ptr)
	pb, ok2 := b.(*Ptr)
	if ok1 && ok2 {
		if pa.Obj == pb.Obj && len(pa.Path) == len(pb.Path) {
			same := true
			for i := range pa.Path {
				if pa.Path[i] != pb.Path[i] {
					same = false
				}
			}
			if same {
				return BoolT(true)
			}
		}
		_, sa := s.orig[pa.Obj]
		_, sb := s.orig[pb.Obj]
		if !sa || !sb {
			return BoolT(false)
		}
	}
	if ca, ok := a.(*ChanRef); ok {
		if cb, ok := b.(*ChanRef); ok {
			return BoolT(ca.Obj == cb.Obj)
		}
	}
	// Zero tests.
	if z, known := isZeroVal(b); known && z {
		a, b = b, a
	}
	if z, known := isZeroVal(a); known && z {
		if zb, kb := isZeroVal(b); kb {
			return BoolT(zb)
		}
		fb := s.Freeze(b)
		switch {
		case isString(t):
			return in.equal(s, s.lenOf(fb), IntT(0), types.Typ[types.Int])
		case isInteger(t):
			// fallthrough to the comparison below
		case isBool(t):
			return in.decided(s, notT(fb))
		default:
			return in.decided(s, iszeroT(fb))
		}
	}
	if isBool(t) {
		x, y := s.Freeze(a), s.Freeze(b)
		if v, ok := constBool(x); ok {
			x, y = y, x
			_ = v
		}
		if v, ok := constBool(y); ok {
			if v {
				return in.decided(s, x)
			}
			return in.decided(s, notT(x))
		}
	}
	x, y := s.Freeze(a), s.Freeze(b)
	if x == y {
		return BoolT(true)
	}
	if foreign(x, y) || foreign(y, x) {
		return BoolT(false)
	}
	if x.Op == "const" && y.Op == "const" {
		if x.C.Kind() == y.C.Kind() {
			return BoolT(constant.Compare(x.C, token.EQL, y.C))
		}
	}
	if isString(t) {
		if e, ok := in.strEqChars(s, x, y); ok {
			return in.decided(s, e)
		}
	}
	if isErrorType(t) || isIface(t) {
		if ia, ok := a.(*IfaceV); ok {
			if ib, ok := b.(*IfaceV); ok && !types.Identical(ia.T, ib.T) {
				return BoolT(false)
			}
		}
		if distinctKind(x) && distinctKind(y) {
			return BoolT(false)
		}
	}
	// A freshly allocated thing never equals an input.
	if x.Op == "&" && ok1 || y.Op == "&" && ok2 {
		return BoolT(false)
	}
	return in.decided(s, eqT(x, y))
}

func iszeroT(t *Term) *Term {
	if t.Op == "zero" {
		return BoolT(true)
	}
	return mk(types.Typ[types.Bool], "iszero", "", t)
}

func isNilV(v Val) bool {
	t, ok := v.(*Term)
	return ok && t.Op == "nil"
}

type vs struct {
	s *State
	v Val
}

// ---- maps ----

func (in *Interp) keyEq(s *State, a, b Val) (bool, bool) {
	x, y := s.Freeze(a), s.Freeze(b)
	if x == y {
		return true, true
	}
	// Distinct entries of one map have distinct keys.
	if x.Op == "key" && y.Op == "key" && x.Args[0] == y.Args[0] {
		return false, true
	}
	// Unknown types of a decoded stream differ from every known type.
	if x.Op == "utype" || y.Op == "utype" {
		if x.Op == "const" || y.Op == "const" || x.Op == y.Op {
			return false, true
		}
	}
	return s.evalBool(eqT(x, y))
}

// find looks a key up; it forks when membership is unknown.
func (in *Interp) find(s *State, m Val, key Val, vt types.Type) []struct {
	s   *State
	idx int // -1: absent, -2: symbolic value
	v   Val
} {
	type R = struct {
		s   *State
		idx int
		v   Val
	}
	switch x := m.(type) {
	case *Term:
		if x.Op == "nil" {
			return []R{{s, -1, nil}}
		}
		k := s.Freeze(key)
		if b, ok := s.null(x); ok && b {
			return []R{{s, -1, nil}}
		}
		v := mk(vt, "mapval", "", x, k)
		y, n := s.branch(mk(types.Typ[types.Bool], "has", "", x, k))
		var r []R
		if y != nil {
			r = append(r, R{y, -2, v})
		}
		if n != nil {
			r = append(r, R{n, -1, nil})
		}
		return r
	case *MapRef:
		var r []R
		cur := s
		mv := s.heap[x.Obj].(*MapV)
		for i, e := range mv.Ents {
			eq, known := in.keyEq(cur, e.K, key)
			if known && eq {
				return append(r, R{cur, i, e.V})
			}
			if known {
				continue
			}
			// What is kept from call to call: different inputs.
			if k, l := cur.Freeze(e.K), cur.Freeze(key); x.Obj <= in.callMark && !isInteger(k.T) && twins(k, l, func(a, b string) bool { return true }) {
				continue
			}
			y, n := cur.branch(eqT(cur.Freeze(e.K), cur.Freeze(key)))
			if y != nil {
				r = append(r, R{y, i, e.V})
			}
			if n == nil {
				return r
			}
			cur = n
		}
		if mv.Base != nil {
			for _, d := range mv.Del {
				if eq, known := in.keyEq(cur, d, key); known && eq {
					return append(r, R{cur, -1, nil})
				}
			}
			for _, z := range in.find(cur, mv.Base, key, vt) {
				r = append(r, z)
			}
			return r
		}
		return append(r, R{cur, -1, nil})
	}
	panic(Undecided{fmt.Sprintf("map %T", m)})
}

func (in *Interp) lookup(s *State, f *frame, x *ssa.Lookup) []vs {
	m := in.val(s, f, x.X)
	key := in.val(s, f, x.Index)
	if isString(x.X.Type()) {
		e := in.elemOf(s, s.Content(m), key.(*Term))
		if e == nil {
			return []vs{{s, ConstT(constant.MakeInt64(0), x.Type())}}
		}
		return []vs{{s, e}}
	}
	vt := elemType(x.X.Type())
	if v, ok, tab := in.charLookup(s, m, key, vt); tab {
		if x.CommaOk {
			return []vs{{s, &TupleV{V: []Val{v, ok}}}}
		}
		return []vs{{s, v}}
	}
	var r []vs
	if ref, ok := m.(*MapRef); ok {
		in.access(s, ref.Obj, nil, false, nil)
	}
	for _, h := range in.find(s, m, key, vt) {
		v := h.v
		ok := BoolT(true)
		if h.idx == -1 {
			v, ok = zero(vt), BoolT(false)
			if n := h.s.counted(m, vt); n != nil {
				v, ok = n, ltT(IntT(0), n)
			}
		}
		if x.CommaOk {
			r = append(r, vs{h.s, &TupleV{V: []Val{v, ok}}})
		} else {
			r = append(r, vs{h.s, v})
		}
	}
	return r
}

func (in *Interp) mapUpdate(s *State, m Val, k, v Val, mt types.Type) []*State {
	var r []*State
	ref, isRef := m.(*MapRef)
	if !isRef {
		t := m.(*Term)
		u := mt.Underlying().(*types.Map)
		mv := &MapV{KT: u.Key(), VT: u.Elem(), Base: t}
		o := s.symObj(t, mv)
		ref = &MapRef{Obj: o}
	}
	in.access(s, ref.Obj, nil, true, nil)
	vt := s.heap[ref.Obj].(*MapV).VT
	for _, h := range in.find(s, ref, k, vt) {
		mv := h.s.heap[ref.Obj].(*MapV)
		n := *mv
		n.Ents = append([]MapEnt(nil), mv.Ents...)
		if h.idx >= 0 {
			n.Ents[h.idx].V = v
		} else {
			n.Ents = append(n.Ents, MapEnt{k, v})
		}
		h.s.setHeap(ref.Obj, &n)
		r = append(r, h.s)
	}
	return r
}

func (in *Interp) mapDelete(s *State, m Val, k Val) []*State {
	ref, isRef := m.(*MapRef)
	if !isRef {
		return []*State{s}
	}
	var r []*State
	in.access(s, ref.Obj, nil, true, nil)
	vt := s.heap[ref.Obj].(*MapV).VT
	for _, h := range in.find(s, ref, k, vt) {
		mv := h.s.heap[ref.Obj].(*MapV)
		n := *mv
		n.Ents = nil
		for i, e := range mv.Ents {
			if i != h.idx {
				n.Ents = append(n.Ents, e)
			}
		}
		if h.idx == -2 {
			n.Del = append(append([]Val(nil), mv.Del...), k)
		}
		h.s.setHeap(ref.Obj, &n)
		r = append(r, h.s)
	}
	return r
}

func (in *Interp) rangeOver(s *State, v Val, t types.Type) Val {
	switch x := v.(type) {
	case *MapRef:
		mv := s.heap[x.Obj].(*MapV)
		in.access(s, x.Obj, nil, false, nil)
		ents := append([]MapEnt(nil), mv.Ents...)
		if mv.Base != nil {
			panic(Undecided{"range over partly symbolic map"})
		}
		if in.sc.MapOrder != nil {
			var p []MapEnt
			for _, i := range in.sc.MapOrder(len(ents)) {
				p = append(p, ents[i])
			}
			ents = p
		}
		return &Iter{Map: v, Ents: ents}
	case *Term:
		if isString(t) {
			return &Iter{Str: v}
		}
		if x.Op == "nil" {
			return &Iter{}
		}
		n, ok := constInt64(s.lenOf(x))
		if !ok {
			n = 2
		}
		var ents []MapEnt
		mt := t.Underlying().(*types.Map)
		for i := int64(0); i < n; i++ {
			k := mk(mt.Key(), "key", fmt.Sprint(i), x)
			val := mk(mt.Elem(), "mapval", "", x, k)
			ents = append(ents, MapEnt{k, val})
		}
		if in.sc.MapOrder != nil {
			var p []MapEnt
			for _, i := range in.sc.MapOrder(len(ents)) {
				p = append(p, ents[i])
			}
			ents = p
		}
		return &Iter{Map: v, Ents: ents}
	}
	panic(Undecided{fmt.Sprintf("range over %T", v)})
}

func (in *Interp) next(s *State, f *frame, x *ssa.Next) []vs {
	it := in.val(s, f, x.Iter).(*Iter)
	tt := x.Type().(*types.Tuple)
	if x.IsString {
		// One unknown rune, or the end.
		t := it.Str.(*Term)
		if us, ok := in.strUnits(s, t); ok {
			var r []vs
			for _, d := range decodeRunes(s, us) {
				done := true
				for _, u := range d.rs {
					if u.at >= it.Pos {
						r = append(r, vs{d.s, &TupleV{V: []Val{BoolT(true), IntT(int64(u.at)), u.r}}})
						if len(r) > 1 && u.at+u.size != f.env[f.info.num[x.Iter]].(*Iter).Pos {
							panic(Undecided{"runes of different widths"})
						}
						it2 := *it
						it2.Pos = u.at + u.size
						f.env[f.info.num[x.Iter]] = &it2
						done = false
						break
					}
				}
				if done {
					r = append(r, vs{d.s, &TupleV{V: []Val{BoolT(false), IntT(0), ConstT(constant.MakeInt64(0), types.Typ[types.Rune])}}})
				}
			}
			return r
		}
		idx := IntT(int64(it.Pos))
		more := ltT(idx, s.lenOf(t))
		y, n := s.branch(more)
		var r []vs
		if y != nil {
			// Advance a private copy of the iterator.
			r = append(r, vs{y, &TupleV{V: []Val{BoolT(true), idx, mk(types.Typ[types.Rune], "rune", "", t, idx)}}})
			it2 := *it
			it2.Pos++
			f.env[f.info.num[x.Iter]] = &it2
		}
		if n != nil {
			r = append(r, vs{n, &TupleV{V: []Val{BoolT(false), IntT(0), ConstT(constant.MakeInt64(0), types.Typ[types.Rune])}}})
		}
		return r
	}
	if it.Pos >= len(it.Ents) {
		z := func(t types.Type) Val {
			if t == nil || t == types.Typ[types.Invalid] {
				return NilT
			}
			return zero(t)
		}
		return []vs{{s, &TupleV{V: []Val{BoolT(false), z(tt.At(1).Type()), z(tt.At(2).Type())}}}}
	}
	e := it.Ents[it.Pos]
	it2 := *it
	it2.Pos++
	f.env[f.info.num[x.Iter]] = &it2
	// The current value, in case the loop changed the map.
	v := e.V
	if ref, ok := it.Map.(*MapRef); ok {
		for _, c := range s.heap[ref.Obj].(*MapV).Ents {
			if eq, known := in.keyEq(s, c.K, e.K); known && eq {
				v = c.V
			}
		}
	}
	return []vs{{s, &TupleV{V: []Val{BoolT(true), e.K, v}}}}
}

// ---- interfaces ----

func (in *Interp) typeAssert(s *State, f *frame, x *ssa.TypeAssert) ([]work, []Out) {
	v := in.val(s, f, x.X)
	give := func(g *frame, st *State, val Val, ok bool) work {
		if x.CommaOk {
			in.setv(g, x, &TupleV{V: []Val{val, BoolT(ok)}})
		} else {
			in.setv(g, x, val)
		}
		g.i++
		return work{g, st}
	}
	fail := func(st *State) ([]work, []Out) {
		if x.CommaOk {
			return []work{give(f, st, zero(x.AssertedType), false)}, nil
		}
		in.ev(st, f, &Event{Kind: "panic", Name: "type assertion", Pos: x.Pos()})
		return nil, []Out{{St: st, Kind: Panicked, Pos: x.Pos(), Why: "type assertion"}}
	}
	if isNilV(v) {
		return fail(s)
	}
	toIface := isIface(x.AssertedType)
	if i, ok := v.(*IfaceV); ok {
		match := false
		if toIface {
			match = types.Implements(i.T, x.AssertedType.Underlying().(*types.Interface))
		} else {
			match = types.Identical(i.T, x.AssertedType)
		}
		if !match {
			return fail(s)
		}
		if toIface {
			return []work{give(f, s, v, true)}, nil
		}
		return []work{give(f, s, i.V, true)}, nil
	}
	t := v.(*Term)
	if toIface && types.Implements(x.X.Type(), x.AssertedType.Underlying().(*types.Interface)) {
		// Only a nil check.
		y, n := s.branch(isnilT(t))
		var wl []work
		var outs []Out
		if n != nil {
			wl = append(wl, give(f.clone(), n, t, true))
		}
		if y != nil {
			w, o := fail(y)
			wl, outs = append(wl, w...), append(outs, o...)
		}
		return wl, outs
	}
	cond := mk(types.Typ[types.Bool], "is", typeName(x.AssertedType), t)
	y, n := s.branch(cond)
	var wl []work
	var outs []Out
	if y != nil {
		g := f.clone()
		var r Val = mk(x.AssertedType, "assert", typeName(x.AssertedType), t)
		if toIface {
			r = t
		}
		wl = append(wl, give(g, y, r, true))
	}
	if n != nil {
		g := f.clone()
		if x.CommaOk {
			wl = append(wl, give(g, n, zero(x.AssertedType), false))
		} else {
			in.ev(n, f, &Event{Kind: "panic", Name: "type assertion", Pos: x.Pos()})
			outs = append(outs, Out{St: n, Kind: Panicked, Pos: x.Pos(), Why: "type assertion"})
		}
	}
	return wl, outs
}

// ---- channels ----

func (s *State) fresh(base string, t types.Type) *Term {
	k := "fresh:" + base
	n := int64(0)
	if v, ok := s.ghost[k]; ok {
		n, _ = constInt64(v)
	}
	s.setGhost(k, IntT(n+1))
	name := base
	if n > 0 {
		name = fmt.Sprintf("%s%d", base, n+1)
	}
	return Sym(name, t)
}

// recvChoices enumerates what a receive can yield.
func (in *Interp) recvChoices(s *State, ch Val, et types.Type) []RecvChoice {
	switch c := ch.(type) {
	case *ChanRef:
		cv := s.heap[c.Obj].(*ChanV)
		if len(cv.Queue) > 0 {
			st := s.fork()
			n := *cv
			n.Queue = append([]Val(nil), cv.Queue[1:]...)
			st.setHeap(c.Obj, &n)
			return []RecvChoice{{St: st, Val: cv.Queue[0], Ok: true}}
		}
		if cv.Closed {
			return []RecvChoice{{St: s.fork(), Val: zero(et), Ok: false}}
		}
	case *Term:
		if c.Op == "nil" {
			return nil
		}
		if c.Op == "done" {
			// A context's channel is only ever closed.
			if !s.ctxClosed(c.Args[0]) && !ctxCanClose(c.Args[0]) {
				return nil
			}
			b := s.fork()
			b.ownFacts()
			b.bools[mk(nil, "closed", "", c).id] = true
			return []RecvChoice{{St: b, Val: zero(et), Ok: false}}
		}
		if c.Op == "timer" {
			a := s.fork()
			return []RecvChoice{{St: a, Val: a.fresh("now", et), Ok: true}}
		}
		if b, ok := s.bools[mk(nil, "closed", "", c).id]; ok && b {
			return []RecvChoice{{St: s.fork(), Val: zero(et), Ok: false}}
		}
	}
	a := s.fork()
	v := a.fresh("recv("+s.Freeze(ch).String()+")", et)
	b := s.fork()
	ft := s.Freeze(ch)
	b.ownFacts()
	b.bools[mk(nil, "closed", "", ft).id] = true
	return []RecvChoice{{St: a, Val: v, Ok: true}, {St: b, Val: zero(et), Ok: false}}
}

func (in *Interp) recv(s *State, f *frame, x *ssa.UnOp) ([]work, []Out) {
	ch := in.val(s, f, x.X)
	et := x.X.Type().Underlying().(*types.Chan).Elem()
	in.ev(s, f, &Event{Kind: "recv", Name: "recv", Raw: []Val{ch}, Args: []*Term{s.Freeze(ch)}, Pos: x.Pos(), Instr: x})
	var cs []RecvChoice
	handled := false
	if in.sc.Recv != nil {
		cs, handled = in.sc.Recv(in, s, ch, x.CommaOk, et)
	}
	if !handled {
		cs = in.recvChoices(s, ch, et)
	}
	var wl []work
	var outs []Out
	for _, c := range cs {
		if c.Stop {
			outs = append(outs, Out{St: c.St, Kind: Parked, Pos: x.Pos(), Why: "recv"})
			continue
		}
		g := f.clone()
		if x.CommaOk {
			in.setv(g, x, &TupleV{V: []Val{c.Val, BoolT(c.Ok)}})
		} else {
			in.setv(g, x, c.Val)
		}
		g.i++
		wl = append(wl, work{g, c.St})
	}
	if len(cs) == 0 {
		outs = append(outs, Out{St: s, Kind: Parked, Pos: x.Pos(), Why: "recv on nil channel"})
	}
	return wl, outs
}

func (in *Interp) selectStmt(s *State, f *frame, x *ssa.Select) ([]work, []Out) {
	sel := &SelInfo{Blocking: x.Blocking, Instr: x, Fn: f.fn}
	for _, st := range x.States {
		c := SelCase{Send: st.Dir == types.SendOnly, Chan: in.val(s, f, st.Chan), T: st.Chan.Type().Underlying().(*types.Chan).Elem()}
		if c.Send {
			c.Val = in.val(s, f, st.Send)
		}
		sel.Cases = append(sel.Cases, c)
	}
	var args []*Term
	for _, c := range sel.Cases {
		d := "recv"
		if c.Send {
			d = "send"
		}
		args = append(args, mk(nil, "case", d, s.Freeze(c.Chan)))
	}
	name := "select"
	if !x.Blocking {
		name = "select-default"
	}
	in.ev(s, f, &Event{Kind: "select", Name: name, Args: args, Pos: x.Pos(), Instr: x})
	var cs []SelChoice
	handled := false
	if in.sc.Select != nil {
		cs, handled = in.sc.Select(in, s, sel)
	}
	if !handled {
		cs = in.selectDefault(s, sel)
	}
	if f.forks == nil {
		f.forks = map[ssa.Instruction]int{}
	}
	f.forks[x]++
	if f.forks[x] > in.sc.LoopK {
		return nil, []Out{{St: s, Kind: Truncated, Pos: x.Pos(), Why: "select bound"}}
	}
	var wl []work
	var outs []Out
	for _, c := range cs {
		if c.Stop {
			outs = append(outs, Out{St: c.St, Kind: Parked, Pos: x.Pos(), Why: "select"})
			continue
		}
		g := f.clone()
		tt := x.Type().(*types.Tuple)
		tv := &TupleV{V: []Val{IntT(int64(c.Idx)), BoolT(c.Ok)}}
		k := 2
		for i, sc := range sel.Cases {
			if sc.Send {
				continue
			}
			if i == c.Idx && c.Val != nil {
				tv.V = append(tv.V, c.Val)
			} else {
				tv.V = append(tv.V, zero(tt.At(k).Type()))
			}
			k++
		}
		if c.Idx >= 0 {
			cc := sel.Cases[c.Idx]
			kind := "sel-recv"
			raw := []Val{cc.Chan, c.Val}
			if cc.Send {
				kind = "sel-send"
				raw = []Val{cc.Chan, cc.Val}
			}
			in.ev(c.St, f, &Event{Kind: kind, Name: kind, Raw: raw, Args: []*Term{c.St.Freeze(cc.Chan), c.St.Freeze(raw[1])}, Pos: x.Pos(), Instr: x})
		} else {
			in.ev(c.St, f, &Event{Kind: "sel-default", Name: "sel-default", Pos: x.Pos(), Instr: x})
		}
		in.setv(g, x, tv)
		g.i++
		wl = append(wl, work{g, c.St})
	}
	if len(cs) == 0 {
		outs = append(outs, Out{St: s, Kind: Parked, Pos: x.Pos(), Why: "select"})
	}
	return wl, outs
}

// selectDefault: the environment may make any case ready.
func (in *Interp) selectDefault(s *State, sel *SelInfo) []SelChoice {
	var r []SelChoice
	for i, c := range sel.Cases {
		if c.Send {
			if isNilV(c.Chan) {
				continue
			}
			st := s.fork()
			if ref, ok := c.Chan.(*ChanRef); ok {
				cv := st.heap[ref.Obj].(*ChanV)
				if n, ok := constInt64(cv.Cap); ok && int64(len(cv.Queue)) < n {
					nc := *cv
					nc.Queue = append(append([]Val(nil), cv.Queue...), c.Val)
					st.setHeap(ref.Obj, &nc)
				}
			}
			r = append(r, SelChoice{St: st, Idx: i, Ok: false})
			continue
		}
		for _, rc := range in.recvChoices(s, c.Chan, c.T) {
			r = append(r, SelChoice{St: rc.St, Idx: i, Val: rc.Val, Ok: rc.Ok})
		}
	}
	if !sel.Blocking {
		r = append(r, SelChoice{St: s.fork(), Idx: -1})
	}
	return r
}
