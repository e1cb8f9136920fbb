package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// What one call leaves behind for the next: package variables, pools, and
// memory that is handed out while somebody else keeps it.

// earlierPrefix starts the names of what belongs to an earlier call.
const earlierPrefix = "early."

// eraTwins: the two terms are the same function of the inputs of different
// calls, and one that tells any two inputs apart. The inputs of an earlier
// call are others than those of the one that is looked at, so the terms differ;
// calls with inputs in common are scenarios of their own.
func eraTwins(a, b *Term) bool { return twins(a, b, twinNames) }

func twins(a, b *Term, names func(a, b string) bool) bool {
	differ := false
	var same func(a, b *Term, d int) bool
	same = func(a, b *Term, d int) bool {
		if a == b {
			return true
		}
		if d > 12 || a.Op != b.Op || len(a.Args) != len(b.Args) {
			return false
		}
		if a.Op == "sym" {
			if !names(a.S, b.S) {
				return false
			}
			differ = true
			return true
		}
		if a.S != b.S {
			return false
		}
		switch a.Op {
		case "enc":
			// Two keys share an x coordinate.
			if x := a.Args[0]; a.S == "xonly" && !x.IsApp("xonly.ParsePubKey") {
				return false
			}
		case "conv":
			if width(a.T) < width(a.Args[0].T) {
				return false
			}
		case "cat", "struct", "arr", "&":
		case "app":
			switch a.S {
			case "hex", "hashString", "sha256", "TaggedHash", "ParsePubKey", "xonly.ParsePubKey", "bytes", "unix":
			default:
				return false
			}
		default:
			return false
		}
		for i := range a.Args {
			if !same(a.Args[i], b.Args[i], d+1) {
				return false
			}
		}
		return true
	}
	return same(a, b, 0) && differ
}

func twinNames(a, b string) bool {
	if a == earlierPrefix+b || b == earlierPrefix+a {
		return true
	}
	// Messages of a history: msg0.x, msg1.x.
	i, j := strings.IndexByte(a, '.'), strings.IndexByte(b, '.')
	return i > 0 && j > 0 && a[i:] == b[j:] && strings.HasPrefix(a, "msg") && strings.HasPrefix(b, "msg") && a != b
}

// ---- pools ----

func poolKey(p *Ptr) string { return fmt.Sprintf("pool:%d%v", p.Obj, p.Path) }

func init() {
	m := models
	m["(*sync.Pool).Put"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		p, ok := in.resolve(s, ci.Args[0], nil)
		if !ok {
			return []Out{in.panicOut(s, ci, "nil dereference")}
		}
		in.syncEv(s, "rel", p.Obj, p.Path)
		if isNilV(ci.Args[1]) {
			return ret(s)
		}
		k := poolKey(p)
		var vs []Val
		if t, ok := s.ghost[k].(*TupleV); ok {
			vs = append(vs, t.V...)
		}
		s.setGhost(k, &TupleV{V: append(vs, ci.Args[1])})
		return ret(s)
	}
	m["(*sync.Pool).Get"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		p, ok := in.resolve(s, ci.Args[0], nil)
		if !ok {
			return []Out{in.panicOut(s, ci, "nil dereference")}
		}
		in.syncEv(s, "acq", p.Obj, p.Path)
		// What was given back last; a new object if there is nothing.
		k := poolKey(p)
		if t, ok := s.ghost[k].(*TupleV); ok && len(t.V) > 0 {
			n := len(t.V) - 1
			s.setGhost(k, &TupleV{V: t.V[:n:n]})
			return ret(s, t.V[n])
		}
		sv, ok := in.load(s, p).(*StructV)
		if !ok {
			panic(Undecided{"a pool of unknown origin"})
		}
		var nf Val = NilT
		for i, f := range sv.Fields {
			if structOf(sv.T).Field(i).Name() == "New" {
				nf = f
			}
		}
		if isNilV(nf) {
			return ret(s, NilT)
		}
		return in.callVal(s, nf, &CallInfo{Sig: ci.Sig, Pos: ci.Pos, Instr: ci.Instr, Caller: ci.Caller})
	}
}

// ---- buffers whose memory is handed out ----

func bufKey(k string, p *Ptr) string { return fmt.Sprintf("%s:%d%v", k, p.Obj, p.Path) }

// handOut records that a slice shares a buffer's memory.
func (s *State) handOut(p *Ptr, sl *SliceV) {
	k := bufKey("shared", p)
	var vs []Val
	if t, ok := s.ghost[k].(*TupleV); ok {
		vs = append(vs, t.V...)
	}
	s.setGhost(k, &TupleV{V: append(vs, sl.Base)})
	s.setGhost(fmt.Sprintf("buffer:%d", sl.Base.Obj), p)
}

// rewind: what is written to the buffer next goes where its content is now.
func (s *State) rewind(p *Ptr) {
	if k := bufKey("shared", p); s.ghost[k] != nil {
		s.setGhost(bufKey("rewound", p), BoolT(true))
	}
}

// overwrite: a buffer is written to.
func (s *State) overwrite(p *Ptr, c *Term) {
	k := bufKey("rewound", p)
	if s.ghost[k] == nil || lenT(c) == IntT(0) {
		return
	}
	s.setGhost(k, nil)
	k = bufKey("shared", p)
	t, ok := s.ghost[k].(*TupleV)
	if !ok {
		return
	}
	s.setGhost(k, nil)
	for _, v := range t.V {
		q := v.(*Ptr)
		if old, ok := s.in.load(s, q).(*Term); ok && lenT(old) != IntT(0) {
			s.in.store(s, q, App(bytesT, "overwritten", old, c), nil)
		}
	}
}

// ---- ownership of results ----

// walkVal visits what a value leads to.
func (s *State) walkVal(v Val, f func(obj int)) {
	seen := map[int]bool{}
	var rec func(v Val, d int)
	obj := func(o, d int) {
		if seen[o] {
			return
		}
		seen[o] = true
		f(o)
		if h, ok := s.heap[o]; ok {
			rec(h, d+1)
		}
	}
	rec = func(v Val, d int) {
		if d > 10 {
			return
		}
		switch x := v.(type) {
		case *Ptr:
			obj(x.Obj, d)
		case *MapRef:
			obj(x.Obj, d)
		case *SliceV:
			if x.Base != nil {
				obj(x.Base.Obj, d)
			}
		case *IfaceV:
			rec(x.V, d+1)
		case *StructV:
			for _, e := range x.Fields {
				if e != nil {
					rec(e, d+1)
				}
			}
		case *ArrayV:
			for _, e := range x.E {
				rec(e, d+1)
			}
		case *MapV:
			for _, e := range x.Ents {
				rec(e.K, d+1)
				rec(e.V, d+1)
			}
		case *TupleV:
			for _, e := range x.V {
				rec(e, d+1)
			}
		}
	}
	rec(v, 0)
}

// owned: the caller has what it is given to itself.
func (c *Ctx) owned(rule, site string, pos token.Pos, o Out) {
	s := o.St
	pooled := map[int]bool{}
	for k, g := range s.ghost {
		if strings.HasPrefix(k, "pool:") && g != nil {
			s.walkVal(g, func(o int) { pooled[o] = true })
		}
	}
	if len(pooled) == 0 && c.residue == nil {
		return
	}
	for _, v := range o.Vals {
		s.walkVal(v, func(x int) {
			b := x
			if p, ok := s.ghost[fmt.Sprintf("buffer:%d", x)].(*Ptr); ok {
				b = p.Obj
			}
			if pooled[x] || pooled[b] {
				c.Ob(false, rule, site, pos, "the result shares memory with an object that was given back to a pool: the next user of the pool overwrites it")
			}
			if old, ok := c.residue[b]; ok && s.heap[b] != old {
				switch s.heap[b].(type) {
				case *Term, *ArrayV, *BufV:
					c.Ob(false, rule, site, pos, "the result shares memory that the next call overwrites")
				}
			}
		})
	}
}

// ---- package variables ----

// leftover is what a call has left in package variables.
type leftover struct {
	site string
	st   *State
}

// notice looks for package variables that a call has changed.
func (c *Ctx) notice(site string, o Out) {
	what := site
	if n := len(o.Vals); n > 0 {
		if iv, ok := o.Vals[n-1].(*IfaceV); ok && isErrorType(iv.T) || o.Vals[n-1] != nil && isErrTerm(o.Vals[n-1]) {
			what += ", which failed"
		}
	}
	if c.residue != nil || c.left[what] != nil || len(c.left) > 5 {
		return
	}
	in := c.In
	changed := false
	for _, v := range in.globals {
		p, ok := v.(*Ptr)
		if !ok {
			continue
		}
		changed = changed || o.St.changed(p.Obj, in.base, 0)
	}
	for k, g := range o.St.ghost {
		if g != nil && in.base.ghost[k] == nil && strings.HasPrefix(k, "pool:") {
			var id int
			fmt.Sscanf(k, "pool:%d", &id)
			if _, ok := in.base.heap[id]; ok {
				changed = true
			}
		}
	}
	if changed {
		if c.left == nil {
			c.left = map[string]*leftover{}
		}
		c.left[what] = &leftover{what, o.St}
	}
}

func isErrTerm(v Val) bool {
	t, ok := v.(*Term)
	return ok && t != NilT && t.T != nil && isErrorType(t.T)
}

// changed: what is reachable from an object is not what it was in base.
func (s *State) changed(o int, base *State, d int) bool {
	v, ok := s.heap[o]
	if !ok || d > 4 {
		return false
	}
	if w, ok := base.heap[o]; !ok || w == v {
		if !ok {
			return true
		}
		switch x := v.(type) {
		case *Ptr:
			return s.changed(x.Obj, base, d+1)
		case *MapRef:
			return s.changed(x.Obj, base, d+1)
		case *SliceV:
			return x.Base != nil && s.changed(x.Base.Obj, base, d+1)
		}
		return false
	} else if a, ok := v.(*Term); ok {
		if b, ok := w.(*Term); ok && a == b {
			return false
		}
	}
	if p, ok := v.(*MapV); ok {
		if q, ok := base.heap[o].(*MapV); ok && len(p.Ents) == len(q.Ents) && len(p.Ents) == 0 {
			return false
		}
	}
	return true
}

// renameTerm renames the inputs in a term.
func (in *Interp) renameTerm(t *Term, memo map[*Term]*Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = t
	r := t
	switch {
	case t.Op == "sym":
		r = mk(t.T, "sym", earlierPrefix+t.S, t.Args...)
	case len(t.Args) > 0:
		args := make([]*Term, len(t.Args))
		diff := false
		for i, a := range t.Args {
			args[i] = in.renameTerm(a, memo)
			diff = diff || args[i] != a
		}
		if diff {
			r = mk(t.T, t.Op, t.S, args...)
		}
	}
	if r != t && in.nonNil[t.id] {
		in.nonNil[r.id] = true
	}
	memo[t] = r
	return r
}

func (in *Interp) renameVal(v Val, memo map[*Term]*Term) Val {
	rv := func(v Val) Val { return in.renameVal(v, memo) }
	list := func(vs []Val) []Val {
		var r []Val
		for _, v := range vs {
			r = append(r, rv(v))
		}
		return r
	}
	switch x := v.(type) {
	case nil:
		return nil
	case *Term:
		return in.renameTerm(x, memo)
	case *SliceV:
		n := *x
		n.Len, n.Cap = in.renameTerm(x.Len, memo), in.renameTerm(x.Cap, memo)
		return &n
	case *StructV:
		return &StructV{T: x.T, Fields: list(x.Fields)}
	case *ArrayV:
		n := *x
		n.Base = in.renameTerm(x.Base, memo)
		n.E = map[int64]Val{}
		for k, e := range x.E {
			n.E[k] = rv(e)
		}
		return &n
	case *MapV:
		n := *x
		n.Ents, n.Base, n.Del = nil, in.renameTerm(x.Base, memo), list(x.Del)
		for _, e := range x.Ents {
			n.Ents = append(n.Ents, MapEnt{rv(e.K), rv(e.V)})
		}
		return &n
	case *ChanV:
		n := *x
		n.Cap, n.Queue = in.renameTerm(x.Cap, memo), list(x.Queue)
		return &n
	case *IfaceV:
		return &IfaceV{T: x.T, V: rv(x.V)}
	case *FuncV:
		n := *x
		n.Bind, n.Env = list(x.Bind), list(x.Env)
		return &n
	case *TupleV:
		return &TupleV{V: list(x.V)}
	case *BufV:
		n := &BufV{}
		for _, p := range x.Parts {
			n.Parts = append(n.Parts, in.renameTerm(p, memo))
		}
		return n
	}
	return v
}

// again runs a check in a program that has done something before: every
// execution begins with what an earlier one, with other inputs, left in the
// package variables.
func (c *Ctx) afterwards(run func()) {
	for _, site := range sortedKeys(c.left) {
		l := c.left[site]
		in := c.In
		memo := map[*Term]*Term{}
		undo := map[int]Val{}
		residue := map[int]Val{}
		put := func(o int) {
			v := l.st.heap[o]
			if v == nil {
				return
			}
			if old, ok := in.base.heap[o]; ok {
				undo[o] = old
			}
			n := in.renameVal(v, memo)
			in.base.setHeap(o, n)
			residue[o] = n
		}
		seen := map[int]bool{}
		visit := func(o int) {
			if !seen[o] {
				seen[o] = true
				put(o)
			}
		}
		for _, v := range in.globals {
			if p, ok := v.(*Ptr); ok {
				visit(p.Obj)
				if h := l.st.heap[p.Obj]; h != nil {
					l.st.walkVal(h, visit)
				}
			}
		}
		oldGhost := in.base.ghost
		for k, g := range l.st.ghost {
			for _, p := range []string{"pool:", "once:", "shared:", "buffer:", "rewound:", "syncmap:"} {
				if g != nil && strings.HasPrefix(k, p) {
					l.st.walkVal(g, visit)
					in.base.ghS = true
					in.base.setGhost(k, in.renameVal(g, memo))
				}
			}
		}
		// Objects that symbolic pointers of the earlier inputs lead to.
		oldSym, oldOrig := in.base.sym, in.base.orig
		sym, orig := map[int]int{}, map[int]*Term{}
		for k, v := range oldSym {
			sym[k] = v
		}
		for k, v := range oldOrig {
			orig[k] = v
		}
		for o, t := range l.st.orig {
			r := in.renameTerm(t, memo)
			if r == t {
				continue
			}
			if h := l.st.heap[o]; h != nil && !seen[o] {
				visit(o)
				l.st.walkVal(h, visit)
			}
			sym[r.id], orig[o] = o, r
		}
		in.base.sym, in.base.orig = sym, orig
		c.residue = residue
		c.how = " (after an earlier call of " + site + ")"
		run()
		c.residue, c.how = nil, ""
		in.base.sym, in.base.orig, in.base.ghost = oldSym, oldOrig, oldGhost
		in.base.heapS = true
		for o, v := range undo {
			in.base.setHeap(o, v)
		}
	}
}

func sortedKeys(m map[string]*leftover) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	for i := range r {
		for j := i + 1; j < len(r); j++ {
			if r[j] < r[i] {
				r[i], r[j] = r[j], r[i]
			}
		}
	}
	return r
}

// width is an integer type's width, 0 for other types.
func width(t types.Type) int64 {
	if t == nil || !isInteger(t) {
		return 0
	}
	return types.SizesFor("gc", "amd64").Sizeof(t) * 8
}

// ---- sync.Map ----

func init() {
	m := models
	// table is the map behind a sync.Map.
	table := func(in *Interp, s *State, ci *CallInfo) (*MapRef, bool) {
		p, ok := in.resolve(s, ci.Args[0], nil)
		if !ok {
			return nil, false
		}
		in.syncEv(s, "acq", p.Obj, p.Path)
		in.syncEv(s, "rel", p.Obj, p.Path)
		k := fmt.Sprintf("syncmap:%d%v", p.Obj, p.Path)
		if r, ok := s.ghost[k].(*MapRef); ok {
			return r, true
		}
		if t, isT := in.load(s, p).(*Term); isT && t.Op != "zero" && t.Op != "nil" {
			panic(Undecided{"a sync.Map of unknown content"})
		}
		any := types.NewInterfaceType(nil, nil)
		r := &MapRef{Obj: s.alloc(&MapV{KT: any, VT: any})}
		s.setGhost(k, r)
		return r, true
	}
	quiet := func(in *Interp, f func()) {
		if in.race != nil {
			in.race.off++
			defer func() { in.race.off-- }()
		}
		f()
	}
	put := func(in *Interp, s *State, r *MapRef, k, v Val) (outs []*State) {
		quiet(in, func() {
			outs = in.mapUpdate(s, r, k, v, types.NewMap(s.heap[r.Obj].(*MapV).KT, s.heap[r.Obj].(*MapV).VT))
		})
		return
	}
	del := func(in *Interp, s *State, r *MapRef, k Val) (outs []*State) {
		quiet(in, func() { outs = in.mapDelete(s, r, k) })
		return
	}
	with := func(f func(in *Interp, s *State, ci *CallInfo, r *MapRef) []Out) model {
		return func(in *Interp, s *State, ci *CallInfo) []Out {
			r, ok := table(in, s, ci)
			if !ok {
				return []Out{in.panicOut(s, ci, "nil dereference")}
			}
			return f(in, s, ci, r)
		}
	}
	look := func(f func(in *Interp, s *State, ci *CallInfo, r *MapRef, old Val, found bool) []Out) model {
		return with(func(in *Interp, s *State, ci *CallInfo, r *MapRef) []Out {
			var outs []Out
			for _, h := range in.find(s, r, ci.Args[1], s.heap[r.Obj].(*MapV).VT) {
				if h.idx == -1 {
					outs = append(outs, f(in, h.s, ci, r, NilT, false)...)
				} else {
					outs = append(outs, f(in, h.s, ci, r, h.v, true)...)
				}
			}
			return outs
		})
	}
	m["(*sync.Map).Load"] = look(func(in *Interp, s *State, ci *CallInfo, r *MapRef, old Val, found bool) []Out {
		return ret(s, old, BoolT(found))
	})
	m["(*sync.Map).Store"] = with(func(in *Interp, s *State, ci *CallInfo, r *MapRef) []Out {
		var outs []Out
		for _, st := range put(in, s, r, ci.Args[1], ci.Args[2]) {
			outs = append(outs, ret(st)...)
		}
		return outs
	})
	m["(*sync.Map).Swap"] = look(func(in *Interp, s *State, ci *CallInfo, r *MapRef, old Val, found bool) []Out {
		var outs []Out
		for _, st := range put(in, s, r, ci.Args[1], ci.Args[2]) {
			outs = append(outs, ret(st, old, BoolT(found))...)
		}
		return outs
	})
	m["(*sync.Map).LoadOrStore"] = look(func(in *Interp, s *State, ci *CallInfo, r *MapRef, old Val, found bool) []Out {
		if found {
			return ret(s, old, BoolT(true))
		}
		var outs []Out
		for _, st := range put(in, s, r, ci.Args[1], ci.Args[2]) {
			outs = append(outs, ret(st, ci.Args[2], BoolT(false))...)
		}
		return outs
	})
	m["(*sync.Map).Delete"] = with(func(in *Interp, s *State, ci *CallInfo, r *MapRef) []Out {
		var outs []Out
		for _, st := range del(in, s, r, ci.Args[1]) {
			outs = append(outs, ret(st)...)
		}
		return outs
	})
	m["(*sync.Map).LoadAndDelete"] = look(func(in *Interp, s *State, ci *CallInfo, r *MapRef, old Val, found bool) []Out {
		var outs []Out
		for _, st := range del(in, s, r, ci.Args[1]) {
			outs = append(outs, ret(st, old, BoolT(found))...)
		}
		return outs
	})
}
