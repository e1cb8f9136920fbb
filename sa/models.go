package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// Models of the operations that leave the code base. Everything that is not
// listed here is an uninterpreted operation (see Interp.external).

type model = func(in *Interp, s *State, ci *CallInfo) []Out

var models map[string]model

var errorT = types.Universe.Lookup("error").Type()
var bytesT = types.NewSlice(types.Typ[types.Byte])
var boolT = types.Typ[types.Bool]
var intTy = types.Typ[types.Int]

func ret(s *State, vals ...Val) []Out { return []Out{{St: s, Vals: vals, Kind: Ret}} }

func globalErr(name string) *Term { return mk(errorT, "global", name) }

var (
	eofT   = globalErr("io.EOF")
	uneofT = globalErr("io.ErrUnexpectedEOF")
)

func (in *Interp) isImpure(ci *CallInfo) bool {
	n := ci.Name
	if strings.HasPrefix(n, "dyn ") {
		return true
	}
	if strings.HasPrefix(n, "invoke ") {
		switch n[7:] {
		case "Context", "Done", "Error", "String", "PubKey", "MsgType":
			return false
		}
		return true
	}
	switch n {
	case "btcec.NewPrivateKey", "secp.GeneratePrivateKey",
		"(*sphinx.Router).ProcessOnionPacket", "lndclient.NewLndServices",
		"time.Now", "crypto/rand.Read":
		return true
	}
	return false
}

// intOf is the value of an integer term, if it is fixed on this path.
func (s *State) intOf(t *Term) (int64, bool) {
	if i, ok := constInt64(t); ok {
		return i, true
	}
	iv := s.interval(t)
	if iv.Lo != nil && iv.Hi != nil && iv.Lo.Cmp(iv.Hi) == 0 && iv.Lo.IsInt64() {
		return iv.Lo.Int64(), true
	}
	return 0, false
}

// pin replaces an integer term by its value if that is fixed on this path.
func (s *State) pin(t *Term) *Term {
	if i, ok := s.intOf(t); ok {
		return IntT(i)
	}
	if t.Op == "lin" {
		l := toLin(t)
		r := lin{c: new(big.Int).Set(l.c), co: map[*Term]*big.Int{}}
		for a, k := range l.co {
			if i, ok := s.intOf(a); ok {
				r.c.Add(r.c, new(big.Int).Mul(k, big.NewInt(i)))
			} else {
				r.co[a] = k
			}
		}
		return r.term(t.T)
	}
	return t
}

// splitContent cuts a content after n bytes.
func (s *State) splitContent(parts []*Term, n *Term) (head, tail []*Term) {
	need := s.pin(n)
	for i, p := range parts {
		if z, ok := s.intOf(need); ok && z == 0 {
			return head, parts[i:]
		}
		l := s.pin(lenT(p))
		if sameInt(l, need) || s.pin(subT(l, need, nil)) == IntT(0) {
			return append(head, p), parts[i+1:]
		}
		rest := s.pin(subT(need, l, nil))
		if b, ok := s.evalBool(ltT(rest, IntT(0))); ok && b || !ok {
			// The cut is (or may be) inside of this part.
			h := subBytes(p, IntT(0), need)
			t := subBytes(p, need, subT(l, need, intTy))
			return append(head, h), append([]*Term{t}, parts[i+1:]...)
		}
		head = append(head, p)
		need = rest
	}
	return head, nil
}

func contentParts(c *Term) []*Term {
	if c.Op == "cat" {
		return c.Args
	}
	if x, ok := constStr(c); ok && x == "" {
		return nil
	}
	return []*Term{c}
}

// setBytes overwrites part of a byte slice.
func (in *Interp) setBytes(s *State, sl *SliceV, off, content *Term) {
	n := lenT(content)
	cell := in.load(s, sl.Base)
	var whole, total *Term
	switch c := cell.(type) {
	case *ArrayV:
		if c.N >= 0 {
			total = IntT(c.N)
			whole = s.bytesOfArray(c, 0, c.N)
		} else {
			total = sl.Cap
			whole = s.arrContent(c, IntT(0), total)
		}
	case *Term:
		whole = s.arrContent(c, IntT(0), s.cellLen(c))
		total = s.cellLen(c)
	default:
		panic(Undecided{fmt.Sprintf("write to bytes of %T", cell)})
	}
	lo := addT(IntT(sl.Lo), off, intTy)
	h, rest := s.splitContent(contentParts(whole), lo)
	_, t := s.splitContent(rest, n)
	res := catT(append(append(append([]*Term{}, h...), content), t...)...)
	if a, ok := cell.(*ArrayV); ok {
		in.store(s, sl.Base, &ArrayV{Elem: a.Elem, N: a.N, Base: res}, nil)
		return
	}
	_ = total
	if len(sl.Base.Path) == 0 {
		if t, ok := s.orig[sl.Base.Obj]; ok {
			_ = t
		}
	}
	in.store(s, sl.Base, res, nil)
}

func (s *State) cellLen(c *Term) *Term {
	if c.Op == "arr" {
		return s.lenOf(c.Args[0])
	}
	return lenT(c)
}

// ---- readers and writers ----

type ioOut struct {
	St  *State
	C   *Term // bytes read
	Err Val
}

// bufPtr finds the in-memory buffer behind a reader or writer value, nil if
// it is something else.
func (in *Interp) bufPtr(s *State, v Val) *Ptr {
	switch x := v.(type) {
	case *IfaceV:
		switch typeName(x.T) {
		case "*bytes.Buffer", "*bytes.Reader", "*strings.Reader",
			"*strings.Builder", "*bufio.Reader", "*bufio.Writer":
			return in.bufPtr(s, x.V)
		}
		return nil
	case *Ptr:
		switch c := in.load(s, x).(type) {
		case *BufV:
			return x
		case *StructV:
			switch typeName(c.T) {
			case "bytes.Buffer", "bytes.Reader", "strings.Reader", "strings.Builder":
				in.store(s, x, &BufV{}, nil)
				return x
			}
		}
		return nil
	case *Term:
		if x.Op == "nil" {
			return nil
		}
		if x.T != nil {
			switch typeName(x.T) {
			case "*bytes.Buffer", "*bytes.Reader", "*strings.Reader":
				o := s.symObj(x, &BufV{Parts: []*Term{App(bytesT, "buffered", x)}})
				return &Ptr{Obj: o}
			}
		}
	}
	return nil
}

func (in *Interp) limited(s *State, v Val) *Ptr {
	i, ok := v.(*IfaceV)
	if ok {
		v = i.V
	}
	p, ok := v.(*Ptr)
	if !ok {
		return nil
	}
	if c, ok := in.load(s, p).(*StructV); ok && typeName(c.T) == "io.LimitedReader" {
		return p
	}
	return nil
}

// readN reads exactly n bytes, as io.ReadFull does.
func (in *Interp) readN(s *State, r Val, n *Term, ci *CallInfo) []ioOut {
	n = s.pin(n)
	if z, ok := constInt64(n); ok && z == 0 {
		return []ioOut{{s, StrT(""), NilT}}
	}
	if p := in.limited(s, r); p != nil {
		st := in.load(s, p).(*StructV)
		lim := st.Fields[1].(*Term)
		short, enough := s.branch(ltT(lim, n))
		var outs []ioOut
		if enough != nil {
			for _, o := range in.readN(enough, st.Fields[0], n, ci) {
				if isNilV(o.Err) {
					cur := in.load(o.St, p).(*StructV)
					nf := append([]Val(nil), cur.Fields...)
					nf[1] = subT(lim, n, types.Typ[types.Int64])
					in.store(o.St, p, &StructV{T: cur.T, Fields: nf}, nil)
				}
				outs = append(outs, o)
			}
		}
		if short != nil {
			none, some := short.branch(ltT(lim, IntT(1)))
			if none != nil {
				outs = append(outs, ioOut{none, StrT(""), eofT})
			}
			if some != nil {
				for _, o := range in.readN(some, st.Fields[0], lim, ci) {
					cur := in.load(o.St, p).(*StructV)
					nf := append([]Val(nil), cur.Fields...)
					nf[1] = ConstT(constant.MakeInt64(0), types.Typ[types.Int64])
					in.store(o.St, p, &StructV{T: cur.T, Fields: nf}, nil)
					if isNilV(o.Err) {
						o.Err = uneofT
					}
					outs = append(outs, o)
				}
			}
		}
		return outs
	}
	if p := in.bufPtr(s, r); p != nil {
		b := in.load(s, p).(*BufV)
		avail := IntT(0)
		for _, q := range b.Parts {
			avail = addT(avail, lenT(q), intTy)
		}
		avail = s.pin(avail)
		short, enough := s.branch(ltT(avail, n))
		var outs []ioOut
		if enough != nil {
			h, t := enough.splitContent(b.Parts, n)
			in.store(enough, p, &BufV{Parts: append([]*Term(nil), t...)}, nil)
			outs = append(outs, ioOut{enough, catT(h...), NilT})
		}
		if short != nil {
			none, some := short.branch(ltT(avail, IntT(1)))
			if none != nil {
				outs = append(outs, ioOut{none, StrT(""), eofT})
			}
			if some != nil {
				in.store(some, p, &BufV{}, nil)
				outs = append(outs, ioOut{some, catT(b.Parts...), uneofT})
			}
		}
		return outs
	}
	// An unknown reader yields unknown bytes or fails.
	ft := s.Freeze(r)
	s.event(&Event{Kind: "call", Name: "read", Args: []*Term{ft, n}, Pos: ci.Pos, Fn: ci.Caller})
	c := s.fresh("read("+ft.String()+")", bytesT)
	y := s.fork()
	e := s.fork()
	y.assume(eqT(lenT(c), n), true)
	if k, ok := constInt(n); ok {
		y.ownFacts()
		y.iv[lenT(c).id] = Iv{Lo: k, Hi: k}
	}
	et := App(errorT, "err:read", ft)
	in.nonNil[et.id] = true
	return []ioOut{{y, c, NilT}, {e, StrT(""), et}}
}

// readAll drains a reader.
func (in *Interp) readAll(s *State, r Val) (*Term, bool) {
	if p := in.limited(s, r); p != nil {
		return nil, false
	}
	if p := in.bufPtr(s, r); p != nil {
		b := in.load(s, p).(*BufV)
		in.store(s, p, &BufV{}, nil)
		return catT(b.Parts...), true
	}
	return nil, false
}

// write appends to a writer.
func (in *Interp) write(s *State, w Val, c *Term, ci *CallInfo) []ioOut {
	if p := in.bufPtr(s, w); p != nil {
		b := in.load(s, p).(*BufV)
		s.overwrite(p, c)
		in.store(s, p, &BufV{Parts: append([]*Term(nil), contentParts(catT(append(append([]*Term(nil), b.Parts...), c)...))...)}, nil)
		return []ioOut{{s, c, NilT}}
	}
	if i, ok := w.(*IfaceV); ok {
		if fn := in.R.lookupMethod(i.T, "Write"); fn != nil && len(fn.Blocks) > 0 {
			var outs []ioOut
			for _, o := range in.Call(s, fn, []Val{i.V, s.newBytes(c)}) {
				if o.Kind == Ret {
					outs = append(outs, ioOut{o.St, c, o.Vals[1]})
				}
			}
			return outs
		}
		if typeName(i.T) == "io.discard" {
			return []ioOut{{s, c, NilT}}
		}
	}
	ft := s.Freeze(w)
	if ft.Op == "global" && strings.HasSuffix(ft.S, ".Discard") {
		return []ioOut{{s, c, NilT}}
	}
	s.event(&Event{Kind: "call", Name: "write", Args: []*Term{ft, c}, Pos: ci.Pos, Fn: ci.Caller})
	outs := []ioOut{{s, c, NilT}}
	if !in.sc.ExtOK {
		e := s.fork()
		et := App(errorT, "err:write", ft, c)
		in.nonNil[et.id] = true
		outs = append(outs, ioOut{e, c, et})
	}
	return outs
}

func writeOuts(os []ioOut) []Out {
	var r []Out
	for _, o := range os {
		r = append(r, Out{St: o.St, Vals: []Val{o.Err}, Kind: Ret})
	}
	return r
}

// errFork returns the ok results and, unless suppressed, an error outcome.
func (in *Interp) errFork(s *State, ci *CallInfo, op string, args []*Term, ok ...Val) []Out {
	outs := []Out{}
	if !in.extOK(ci) {
		f := s.fork()
		et := App(errorT, "err:"+op, args...)
		in.nonNil[et.id] = true
		f.event(&Event{Kind: "call", Name: op, Args: args, Pos: ci.Pos, Fn: ci.Caller, Instr: ci.Instr, Failed: true})
		vals := make([]Val, len(ok)+1)
		for i := range ok {
			vals[i] = zero(ci.Sig.Results().At(i).Type())
		}
		vals[len(ok)] = et
		outs = append(outs, Out{St: f, Vals: vals, Kind: Ret})
	}
	s.event(&Event{Kind: "call", Name: op, Args: args, Pos: ci.Pos, Fn: ci.Caller, Instr: ci.Instr, Res: ok})
	return append(outs, Out{St: s, Vals: append(ok, NilT), Kind: Ret})
}

func (in *Interp) byteArr(c *Term, n int64) *ArrayV {
	return &ArrayV{Elem: types.Typ[types.Byte], N: n, Base: c}
}

func encT(kind string, args ...*Term) *Term { return mk(bytesT, "enc", kind, args...) }

// pubTerm is the identity of a public key: the pointer it was reached by.
func pubTerm(t *Term) *Term {
	for t.Op == "deref" || t.Op == "&" {
		t = t.Args[0]
	}
	return t
}

// ---- errors ----

// wraps lists the operands of %w verbs.
func wrapArgs(format string, args []Val) []Val {
	var r []Val
	idx := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.[]*", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' && idx < len(args) {
			r = append(r, args[idx])
		}
		idx++
	}
	return r
}

func (in *Interp) sliceElems(s *State, v Val) ([]Val, bool) {
	if isNilV(v) {
		return nil, true
	}
	sl, ok := v.(*SliceV)
	if !ok {
		if t, isT := v.(*Term); isT {
			n, k := s.intOf(s.lenOf(t))
			if !k {
				return nil, false
			}
			sl = in.sliceOf(s, t, t.T)
			_ = n
		}
	}
	if sl == nil {
		return nil, true
	}
	n, ok := s.intOf(sl.Len)
	if !ok {
		return nil, false
	}
	arr := in.load(s, sl.Base)
	var r []Val
	for i := int64(0); i < n; i++ {
		r = append(r, in.elemOf(s, arr, IntT(sl.Lo+i)))
	}
	return r, true
}

// errIs: does err's chain contain target? Unknown parts of the chain yield
// conditions.
func (in *Interp) errIs(e, target *Term) (bool, []*Term) {
	if e == target {
		return true, nil
	}
	if foreign(e, target) {
		return false, nil
	}
	switch e.Op {
	case "nil", "errnew", "status":
		return false, nil
	case "errorf":
		var conds []*Term
		for _, a := range e.Args {
			y, c := in.errIs(a, target)
			if y {
				return true, nil
			}
			conds = append(conds, c...)
		}
		return false, conds
	case "global":
		if i, ok := in.globalInit[e.S]; ok && i.Op == "errorf" {
			return in.errIs(i, target)
		}
		if target.Op == "global" {
			return false, nil
		}
	}
	return false, []*Term{mk(boolT, "is-err", "", e, target)}
}

// IsErr reports whether an error value certainly wraps a sentinel.
func (in *Interp) IsErr(e *Term, sentinel string) bool {
	y, _ := in.errIs(e, globalErr(sentinel))
	return y
}

func (in *Interp) codeOf(e *Term) (code *Term, has bool, known bool) {
	switch e.Op {
	case "nil":
		return IntT(0), true, true
	case "status":
		return e.Args[0], true, true
	case "errorf", "errnew":
		return IntT(2), false, true
	case "global":
		if i, ok := in.globalInit[e.S]; ok {
			return in.codeOf(i)
		}
		if strings.HasPrefix(e.S, "io.") || strings.HasPrefix(e.S, "context.") || strings.HasPrefix(e.S, "lndclient.") {
			return IntT(2), false, true
		}
	}
	return nil, false, false
}

// ---- contexts ----

func (s *State) ctxClosed(c *Term) bool {
	for c != nil && (c.Op == "ctx" || c.Op == "sym" || c.Op == "app" || c.Op == "field") {
		if s.bools[mk(nil, "closed", "", mk(nil, "done", "", c)).id] {
			return true
		}
		if c.Op != "ctx" || len(c.Args) == 0 {
			return false
		}
		c = c.Args[0]
	}
	return false
}

// ctxCanClose: may the environment end this context?
func ctxCanClose(c *Term) bool {
	for c.Op == "ctx" {
		if c.S == "background" {
			return false
		}
		if strings.HasPrefix(c.S, "timeout") {
			return true
		}
		c = c.Args[0]
	}
	return true
}

func (in *Interp) newCtx(s *State, kind string, ci *CallInfo) (Val, Val) {
	n := int64(0)
	if v, ok := s.ghost["ctxn"]; ok {
		n, _ = constInt64(v)
	}
	s.setGhost("ctxn", IntT(n+1))
	parent := s.Freeze(ci.Args[0])
	t := ci.Sig.Results().At(0).Type()
	c := mk(t, "ctx", fmt.Sprintf("%s%d", kind, n), parent)
	if kind == "timeout" && len(ci.Args) > 1 {
		c = mk(t, "ctx", fmt.Sprintf("%s%d", kind, n), parent, s.Freeze(ci.Args[1]))
	}
	s.opened("context "+c.S, c, ci)
	return c, &FuncV{Ext: "cancel", Env: []Val{c}}
}

func chanOf(t types.Type) types.Type { return types.NewChan(types.RecvOnly, t) }

// boolFork returns a condition's two outcomes as constants when it is
// undecided: callers see a plain boolean.
func boolRet(s *State, t *Term) []Out { return ret(s, t) }

func (in *Interp) sortSlice(s *State, v Val, less Val, ci *CallInfo) []Out {
	if i, ok := v.(*IfaceV); ok {
		v = i.V
	}
	if isNilV(v) {
		return ret(s)
	}
	sl, ok := v.(*SliceV)
	if !ok {
		if t, isT := v.(*Term); isT {
			sl = in.sliceOf(s, t, t.T)
		}
	}
	if sl == nil {
		return ret(s)
	}
	n, ok := s.intOf(sl.Len)
	if !ok {
		panic(Undecided{"sort of a slice of unknown length"})
	}
	get := func(st *State, i int64) Val {
		return in.elemOf(st, in.load(st, sl.Base), IntT(sl.Lo+i))
	}
	put := func(st *State, i int64, x Val) {
		p := &Ptr{Obj: sl.Base.Obj, Path: append(append([]PathElem(nil), sl.Base.Path...), PathElem{Field: -1, Idx: IntT(sl.Lo + i)})}
		in.store(st, p, x, nil)
	}
	sts := []*State{s}
	// Insertion sort: stable, and the only comparisons it needs are those of
	// neighbours.
	for i := int64(1); i < n; i++ {
		type item struct {
			st *State
			j  int64
		}
		var done []*State
		wl := []item{}
		for _, st := range sts {
			wl = append(wl, item{st, i})
		}
		for len(wl) > 0 {
			it := wl[len(wl)-1]
			wl = wl[:len(wl)-1]
			if it.j == 0 {
				done = append(done, it.st)
				continue
			}
			c := &CallInfo{Args: []Val{IntT(it.j), IntT(it.j - 1)}, Sig: lessSig, Pos: ci.Pos, Instr: ci.Instr, Caller: ci.Caller}
			for _, o := range in.callVal(it.st, less, c) {
				if o.Kind != Ret {
					return []Out{o}
				}
				y, no := o.St.branch(o.Vals[0].(*Term))
				if no != nil {
					done = append(done, no)
				}
				if y != nil {
					a, b := get(y, it.j), get(y, it.j-1)
					put(y, it.j, b)
					put(y, it.j-1, a)
					wl = append(wl, item{y, it.j - 1})
				}
			}
		}
		sts = done
	}
	var outs []Out
	for _, st := range sts {
		outs = append(outs, Out{St: st, Kind: Ret})
	}
	return outs
}

var lessSig = types.NewSignatureType(nil, nil, nil,
	types.NewTuple(types.NewVar(0, nil, "i", intTy), types.NewVar(0, nil, "j", intTy)),
	types.NewTuple(types.NewVar(0, nil, "", boolT)), false)

// closeChan models close().
func (in *Interp) closeChan(s *State, v Val, ci *CallInfo) []Out {
	ft := s.Freeze(v)
	s.event(&Event{Kind: "close", Name: "close", Raw: []Val{v}, Args: []*Term{ft}, Pos: ci.Pos, Fn: ci.Caller, Instr: ci.Instr})
	if in.sc.OnClose != nil {
		in.sc.OnClose(s, v)
	}
	switch c := v.(type) {
	case *ChanRef:
		cv := s.heap[c.Obj].(*ChanV)
		if cv.Closed {
			return []Out{in.panicOut(s, ci, "close of closed channel")}
		}
		n := *cv
		n.Closed = true
		s.setHeap(c.Obj, &n)
	case *Term:
		if c.Op == "nil" {
			return []Out{in.panicOut(s, ci, "close of nil channel")}
		}
		k := mk(nil, "closed", "", c)
		if s.bools[k.id] {
			return []Out{in.panicOut(s, ci, "close of closed channel")}
		}
		s.ownFacts()
		s.bools[k.id] = true
	}
	return ret(s)
}

func (in *Interp) appendV(s *State, ci *CallInfo) []Out {
	dst := ci.Args[0]
	if len(ci.Args) < 2 {
		return ret(s, dst)
	}
	src := ci.Args[1]
	rt := ci.Sig.Results().At(0).Type()
	et := elemType(rt)
	if isNilV(src) {
		return ret(s, dst)
	}
	if isByte(et) {
		add := s.Content(src)
		if d, ok := dst.(*SliceV); ok {
			ln, ok1 := s.intOf(d.Len)
			cp, ok2 := s.intOf(d.Cap)
			k, ok3 := s.intOf(lenT(add))
			if ok1 && ok2 && ok3 && ln+k <= cp {
				ext := &SliceV{Base: d.Base, Lo: d.Lo, Len: IntT(ln + k), Cap: d.Cap, Elem: d.Elem}
				in.setBytes(s, ext, IntT(ln), add)
				return ret(s, ext)
			}
		}
		c := catT(s.Content(dst), add)
		if lenT(c) == IntT(0) && isNilV(dst) {
			return ret(s, dst)
		}
		return ret(s, s.newBytes(c))
	}
	elems, ok := in.sliceElems(s, src)
	if !ok {
		t := App(rt, "append", s.Freeze(dst), s.Freeze(src))
		return ret(s, t)
	}
	if len(elems) == 0 {
		return ret(s, dst)
	}
	d := in.sliceOf(s, dst, rt)
	if d == nil {
		a := &ArrayV{Elem: et, N: int64(len(elems)), E: map[int64]Val{}}
		for i, e := range elems {
			a.E[int64(i)] = e
		}
		n := IntT(a.N)
		return ret(s, &SliceV{Base: s.newPtr(a), Len: n, Cap: n, Elem: et})
	}
	ln, ok1 := s.intOf(d.Len)
	if !ok1 {
		return ret(s, App(rt, "append", s.Freeze(dst), s.Freeze(src)))
	}
	cp, ok2 := s.intOf(d.Cap)
	n := ln + int64(len(elems))
	if ok2 && n <= cp {
		for i, e := range elems {
			p := &Ptr{Obj: d.Base.Obj, Path: append(append([]PathElem(nil), d.Base.Path...), PathElem{Field: -1, Idx: IntT(d.Lo + ln + int64(i))})}
			in.store(s, p, e, nil)
		}
		return ret(s, &SliceV{Base: d.Base, Lo: d.Lo, Len: IntT(n), Cap: d.Cap, Elem: et})
	}
	ncap := n
	if ok2 && 2*cp > n {
		ncap = 2 * cp
	}
	a := &ArrayV{Elem: et, N: ncap, E: map[int64]Val{}}
	arr := in.load(s, d.Base)
	for i := int64(0); i < ln; i++ {
		a.E[i] = in.elemOf(s, arr, IntT(d.Lo+i))
	}
	for i, e := range elems {
		a.E[ln+int64(i)] = e
	}
	return ret(s, &SliceV{Base: s.newPtr(a), Len: IntT(n), Cap: IntT(ncap), Elem: et})
}

func (in *Interp) copyV(s *State, ci *CallInfo) []Out {
	dst, src := ci.Args[0], ci.Args[1]
	if isNilV(dst) || isNilV(src) {
		return ret(s, IntT(0))
	}
	d := in.sliceOf(s, dst, ci.Sig.Params().At(0).Type())
	if d == nil {
		return ret(s, IntT(0))
	}
	if isByte(d.Elem) {
		c := s.Content(src)
		n := s.pin(lenT(c))
		dl := s.pin(d.Len)
		// min of the two lengths
		less, ge := s.branch(ltT(n, dl))
		var outs []Out
		if less != nil {
			in.setBytes(less, d, IntT(0), c)
			outs = append(outs, ret(less, n)...)
		}
		if ge != nil {
			h, _ := ge.splitContent(contentParts(c), dl)
			in.setBytes(ge, d, IntT(0), catT(h...))
			outs = append(outs, ret(ge, dl)...)
		}
		return outs
	}
	elems, ok := in.sliceElems(s, src)
	dl, ok2 := s.intOf(d.Len)
	if !ok || !ok2 {
		panic(Undecided{"copy of unknown length"})
	}
	n := int64(len(elems))
	if dl < n {
		n = dl
	}
	for i := int64(0); i < n; i++ {
		p := &Ptr{Obj: d.Base.Obj, Path: append(append([]PathElem(nil), d.Base.Path...), PathElem{Field: -1, Idx: IntT(d.Lo + i)})}
		in.store(s, p, elems[i], nil)
	}
	return ret(s, IntT(n))
}

func (in *Interp) builtin(s *State, name string, ci *CallInfo) []Out {
	switch name {
	case "len":
		if t, ok := ci.Args[0].(*Term); ok && t.Op != "nil" && t.T != nil {
			if _, isC := t.T.Underlying().(*types.Chan); isC {
				// Whatever waits in somebody else's channel.
				s.widened++
				n := Sym(fmt.Sprintf("waiting%d", s.widened), types.Typ[types.Int])
				s.must(ltT(n, IntT(0)), false)
				return ret(s, n)
			}
		}
		return ret(s, s.pin(s.lenOf(ci.Args[0])))
	case "cap":
		if sl, ok := ci.Args[0].(*SliceV); ok {
			return ret(s, sl.Cap)
		}
		if c, ok := ci.Args[0].(*ChanRef); ok {
			return ret(s, s.heap[c.Obj].(*ChanV).Cap)
		}
		return ret(s, s.lenOf(ci.Args[0]))
	case "append":
		return in.appendV(s, ci)
	case "copy":
		return in.copyV(s, ci)
	case "close":
		return in.closeChan(s, ci.Args[0], ci)
	case "delete":
		s.event(&Event{Kind: "mapdelete", Name: "delete", Args: s.FreezeAll(ci.Args), Pos: ci.Pos, Fn: ci.Caller, Instr: ci.Instr})
		var outs []Out
		for _, st := range in.mapDelete(s, ci.Args[0], ci.Args[1]) {
			outs = append(outs, Out{St: st, Kind: Ret})
		}
		return outs
	case "min", "max":
		cur := []Out{{St: s, Vals: []Val{ci.Args[0]}}}
		for _, a := range ci.Args[1:] {
			var nx []Out
			for _, o := range cur {
				x, y := o.Vals[0].(*Term), a.(*Term)
				c := ltT(x, y)
				if name == "max" {
					c = ltT(y, x)
				}
				yes, no := o.St.branch(in.decided(o.St, c))
				if yes != nil {
					nx = append(nx, Out{St: yes, Vals: []Val{x}})
				}
				if no != nil {
					nx = append(nx, Out{St: no, Vals: []Val{y}})
				}
			}
			cur = nx
		}
		return cur
	case "recover":
		return ret(s, NilT)
	case "print", "println", "clear":
		return ret(s)
	case "ssa:wrapnilchk":
		if isNilV(ci.Args[0]) {
			return []Out{in.panicOut(s, ci, "nil dereference")}
		}
		return ret(s, ci.Args[0])
	}
	panic(Undecided{"builtin " + name})
}

func strModel(f func(string) (constant.Value, bool)) model {
	return nil
}

// purely named results without an event: formatting and the like.
func pureApp(in *Interp, s *State, ci *CallInfo) []Out {
	if !understood[ci.Name] && !changing(ci.Name) && !strings.HasPrefix(ci.Name, "invoke ") {
		in.note(ci.Name)
	}
	fa := s.FreezeAll(ci.Args)
	var vals []Val
	for i := 0; i < ci.Sig.Results().Len(); i++ {
		n := ci.Name
		if i > 0 {
			n += fmt.Sprintf("#%d", i)
		}
		vals = append(vals, App(ci.Sig.Results().At(i).Type(), n, fa...))
	}
	return ret(s, vals...)
}

func dInt(bits int64, kind string, set bool) model {
	return func(in *Interp, s *State, ci *CallInfo) []Out {
		if i, ok := ci.Args[1].(*IfaceV); !ok || typeName(i.T) != "*uint"+fmt.Sprint(bits) {
			return ret(s, mk(errorT, "errnew", "tlv type for decoding"))
		}
		l := ci.Args[3].(*Term)
		w := bits / 8
		yes, no := s.branch(in.decided(s, eqT(l, IntT(w))))
		var outs []Out
		if no != nil {
			outs = append(outs, ret(no, mk(errorT, "errnew", "tlv length"))...)
		}
		if yes == nil {
			return outs
		}
		p := ci.Args[1].(*IfaceV).V
		for _, o := range in.readN(yes, ci.Args[0], IntT(w), ci) {
			if isNilV(o.Err) {
				ptr, _ := in.resolve(o.St, p, nil)
				in.store(o.St, ptr, decBE(o.C, kind, types.Typ[uintKind(bits)]), nil)
			}
			outs = append(outs, Out{St: o.St, Vals: []Val{o.Err}})
		}
		return outs
	}
}

func uintKind(bits int64) types.BasicKind {
	switch bits {
	case 8:
		return types.Uint8
	case 16:
		return types.Uint16
	case 32:
		return types.Uint32
	}
	return types.Uint64
}

func decBE(c *Term, kind string, t types.Type) *Term {
	if c.Op == "enc" && c.S == kind {
		return c.Args[0]
	}
	if s, ok := constStr(c); ok {
		v := new(big.Int).SetBytes([]byte(s))
		return ConstT(constant.Make(v), t)
	}
	if c.Op == "zero" {
		return ConstT(constant.MakeInt64(0), t)
	}
	return mk(t, "app", "dec:"+kind, c)
}

func encBE(kind string, v *Term) *Term {
	if i, ok := constInt(v); ok {
		n := widthOf[kind]
		b := make([]byte, n)
		i.FillBytes(b)
		_ = b
	}
	return encT(kind, v)
}

func eInt(bits int64, kind string) model {
	return func(in *Interp, s *State, ci *CallInfo) []Out {
		i, ok := ci.Args[1].(*IfaceV)
		if !ok || typeName(i.T) != "*uint"+fmt.Sprint(bits) {
			return ret(s, mk(errorT, "errnew", "tlv type for encoding"))
		}
		ptr, ok := in.resolve(s, i.V, nil)
		if !ok {
			return []Out{in.panicOut(s, ci, "nil dereference")}
		}
		v := s.Freeze(in.load(s, ptr))
		return writeOuts(in.write(s, ci.Args[0], encBE(kind, v), ci))
	}
}

func eIntT(kind string) model {
	return func(in *Interp, s *State, ci *CallInfo) []Out {
		return writeOuts(in.write(s, ci.Args[0], encBE(kind, s.Freeze(ci.Args[1])), ci))
	}
}

func eTU(kind string) model {
	return func(in *Interp, s *State, ci *CallInfo) []Out {
		v := ci.Args[1]
		if i, ok := v.(*IfaceV); ok {
			p, ok := in.resolve(s, i.V, nil)
			if !ok {
				return []Out{in.panicOut(s, ci, "nil dereference")}
			}
			v = in.load(s, p)
		}
		return writeOuts(in.write(s, ci.Args[0], encT(kind, s.Freeze(v)), ci))
	}
}

func dTU(bits int64, kind string) model {
	return func(in *Interp, s *State, ci *CallInfo) []Out {
		i, ok := ci.Args[1].(*IfaceV)
		if !ok || typeName(i.T) != "*uint"+fmt.Sprint(bits) {
			return ret(s, mk(errorT, "errnew", "tlv type for decoding"))
		}
		l := ci.Args[3].(*Term)
		over, okS := s.branch(in.decided(s, ltT(IntT(bits/8), l)))
		var outs []Out
		if over != nil {
			outs = append(outs, ret(over, mk(errorT, "errnew", "tlv length"))...)
		}
		if okS == nil {
			return outs
		}
		for _, o := range in.readN(okS, ci.Args[0], l, ci) {
			if !isNilV(o.Err) {
				outs = append(outs, Out{St: o.St, Vals: []Val{o.Err}})
				continue
			}
			ptr, _ := in.resolve(o.St, i.V, nil)
			if o.C.Op == "enc" && o.C.S == kind {
				in.store(o.St, ptr, o.C.Args[0], nil)
				outs = append(outs, ret(o.St, NilT)...)
				continue
			}
			if k, known := o.St.intOf(l); known && k == 0 {
				in.store(o.St, ptr, ConstT(constant.MakeInt64(0), types.Typ[uintKind(bits)]), nil)
				outs = append(outs, ret(o.St, NilT)...)
				continue
			}
			bad := o.St.fork()
			v := App(types.Typ[uintKind(bits)], "dec:"+kind, o.C)
			in.store(o.St, ptr, v, nil)
			outs = append(outs, ret(o.St, NilT)...)
			if !in.sc.ExtOK {
				outs = append(outs, ret(bad, mk(errorT, "global", "lnd/tlv.ErrTUintNotMinimal"))...)
			}
		}
		return outs
	}
}

func init() {
	models = map[string]model{}
	m := models

	// ---- errors, formatting ----
	m["errors.New"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		t := s.Freeze(ci.Args[0])
		str, _ := constStr(t)
		return ret(s, mk(errorT, "errnew", str))
	}
	m["fmt.Errorf"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		f, ok := constStr(s.Freeze(ci.Args[0]))
		if !ok {
			f = "?"
		}
		args, _ := in.sliceElems(s, ci.Args[1])
		w := wrapArgs(f, args)
		var ws []*Term
		for _, a := range w {
			ws = append(ws, s.Freeze(a))
		}
		return ret(s, mk(errorT, "errorf", f, ws...))
	}
	m["errors.Is"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		e, t := s.Freeze(ci.Args[0]), s.Freeze(ci.Args[1])
		if b, ok := s.null(e); ok && b {
			return ret(s, BoolT(e == t))
		}
		y, conds := in.errIs(e, t)
		if y {
			return ret(s, BoolT(true))
		}
		var outs []Out
		cur := s
		for _, c := range conds {
			a, b := cur.branch(c)
			if a != nil {
				outs = append(outs, ret(a, BoolT(true))...)
			}
			cur = b
			if cur == nil {
				return outs
			}
		}
		return append(outs, ret(cur, BoolT(false))...)
	}
	m["errors.Unwrap"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		e := s.Freeze(ci.Args[0])
		if e.Op == "global" {
			if i, ok := in.globalInit[e.S]; ok {
				e = i
			} else {
				return ret(s, NilT)
			}
		}
		switch e.Op {
		case "errorf":
			if len(e.Args) == 1 {
				return ret(s, e.Args[0])
			}
			return ret(s, NilT)
		case "errnew", "status", "nil":
			return ret(s, NilT)
		}
		return ret(s, App(errorT, "unwrap", e))
	}
	m["errors.As"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		return ret(s, App(boolT, "errors.As", s.FreezeAll(ci.Args)...))
	}
	for _, n := range []string{"fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "strconv.Itoa", "strconv.Quote", "strconv.FormatInt", "strconv.FormatUint"} {
		m[n] = pureApp
	}
	m["fmt.Sprintf"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		// A single verb %x of bytes is their hex string.
		if f, ok := constStr(s.Freeze(ci.Args[0])); ok && f == "%x" {
			if vs, ok := in.sliceElems(s, ci.Args[1]); ok && len(vs) == 1 {
				if i, ok := vs[0].(*IfaceV); ok && isByteSlice(i.T) {
					return ret(s, App(types.Typ[types.String], "hex", s.Content(i.V)))
				}
			}
		}
		return pureApp(in, s, ci)
	}
	m["invoke Error"] = pureApp
	m["invoke String"] = pureApp

	// ---- grpc status ----
	st := func(in *Interp, s *State, ci *CallInfo) []Out {
		c := s.Freeze(ci.Args[0])
		if z, ok := constInt64(c); ok && z == 0 {
			return ret(s, NilT)
		}
		return ret(s, mk(errorT, "status", "", c))
	}
	m["grpc/status.Error"] = st
	m["grpc/status.Errorf"] = st
	m["grpc/status.New"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		t := mk(ci.Sig.Results().At(0).Type(), "app", "statusOf", mk(errorT, "status", "", s.Freeze(ci.Args[0])))
		in.nonNil[t.id] = true
		return ret(s, t)
	}
	m["grpc/status.Newf"] = m["grpc/status.New"]
	m["(*grpc/internal/status.Status).Err"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		t := s.Freeze(ci.Args[0])
		if t.IsApp("statusOf") {
			if z, ok := constInt64(t.Args[0].Args[0]); ok && z == 0 {
				return ret(s, NilT)
			}
			return ret(s, t.Args[0])
		}
		return pureApp(in, s, ci)
	}
	from := func(in *Interp, s *State, ci *CallInfo) []Out {
		e := s.Freeze(ci.Args[0])
		rt := ci.Sig.Results().At(0).Type()
		two := ci.Sig.Results().Len() == 2
		give := func(st *State, code *Term, ok bool) []Out {
			t := mk(rt, "app", "statusOf", mk(errorT, "status", "", code))
			in.nonNil[t.id] = true
			if two {
				return ret(st, t, BoolT(ok))
			}
			return ret(st, t)
		}
		if e.Op == "nil" {
			return give(s, IntT(0), true)
		}
		if c, has, known := in.codeOf(e); known {
			return give(s, c, has)
		}
		y, n := s.branch(mk(boolT, "hasstatus", "", e))
		var outs []Out
		if y != nil {
			outs = append(outs, give(y, App(types.Typ[types.Uint32], "codeOf", e), true)...)
		}
		if n != nil {
			outs = append(outs, give(n, IntT(2), false)...)
		}
		return outs
	}
	m["grpc/status.FromContextError"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		e := s.Freeze(ci.Args[0])
		rt := ci.Sig.Results().At(0).Type()
		give := func(st *State, code int64) []Out {
			t := mk(rt, "app", "statusOf", mk(errorT, "status", "", IntT(code)))
			in.nonNil[t.id] = true
			return ret(st, t)
		}
		if b, ok := s.null(e); ok && b {
			return give(s, 0)
		}
		var outs []Out
		cur := s
		for _, g := range []struct {
			n string
			c int64
		}{{"context.DeadlineExceeded", 4}, {"context.Canceled", 1}} {
			y, conds := in.errIs(e, mk(errorT, "global", g.n))
			if y {
				return append(outs, give(cur, g.c)...)
			}
			for _, c := range conds {
				a, b := cur.branch(c)
				if a != nil {
					outs = append(outs, give(a, g.c)...)
				}
				if cur = b; cur == nil {
					return outs
				}
			}
		}
		return append(outs, give(cur, 2)...)
	}
	m["grpc/status.FromError"] = from
	m["grpc/status.Convert"] = from
	m["(*grpc/internal/status.Status).Code"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		t := s.Freeze(ci.Args[0])
		if t.IsApp("statusOf") {
			return ret(s, t.Args[0].Args[0])
		}
		return pureApp(in, s, ci)
	}
	m["grpc/status.Code"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		e := s.Freeze(ci.Args[0])
		if c, _, known := in.codeOf(e); known {
			return ret(s, c)
		}
		y, n := s.branch(mk(boolT, "hasstatus", "", e))
		var outs []Out
		if y != nil {
			outs = append(outs, ret(y, App(types.Typ[types.Uint32], "codeOf", e))...)
		}
		if n != nil {
			outs = append(outs, ret(n, IntT(2))...)
		}
		return outs
	}

	// ---- context ----
	bg := func(in *Interp, s *State, ci *CallInfo) []Out {
		return ret(s, mk(ci.Sig.Results().At(0).Type(), "ctx", "background"))
	}
	m["context.Background"] = bg
	m["context.TODO"] = bg
	m["context.WithCancel"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		c, f := in.newCtx(s, "cancel", ci)
		return ret(s, c, f)
	}
	tmo := func(in *Interp, s *State, ci *CallInfo) []Out {
		c, f := in.newCtx(s, "timeout", ci)
		return ret(s, c, f)
	}
	m["context.WithTimeout"] = tmo
	m["context.WithDeadline"] = tmo
	m["cancel"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		c := ci.Args[0].(*Term)
		s.closed("context " + c.S)
		s.event(&Event{Kind: "call", Name: "cancel", Args: []*Term{c}, Pos: ci.Pos, Fn: ci.Caller, Instr: ci.Instr})
		s.ownFacts()
		s.bools[mk(nil, "closed", "", mk(nil, "done", "", c)).id] = true
		return ret(s)
	}
	m["invoke Done"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		c := s.Freeze(ci.Args[0])
		if c.Op == "ctx" && c.S == "background" {
			return ret(s, NilT)
		}
		d := mk(ci.Sig.Results().At(0).Type(), "done", "", c)
		in.nonNil[d.id] = true
		return ret(s, d)
	}
	m["invoke Err"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		c := s.Freeze(ci.Args[0])
		e := App(errorT, "ctxerr", c)
		if s.ctxClosed(c) {
			in.nonNil[e.id] = true
			return ret(s, e)
		}
		if !ctxCanClose(c) {
			return ret(s, NilT)
		}
		f := s.fork()
		f.ownFacts()
		f.bools[mk(nil, "closed", "", mk(nil, "done", "", c)).id] = true
		in.nonNil[e.id] = true
		return append(ret(s.fork(), NilT), Out{St: f, Vals: []Val{e}})
	}

	// ---- buffers ----
	newBuf := func(in *Interp, s *State, ci *CallInfo) []Out {
		c := s.Content(ci.Args[0])
		return ret(s, s.newPtr(&BufV{Parts: contentParts(c)}))
	}
	m["bytes.NewBuffer"] = newBuf
	m["bytes.NewReader"] = newBuf
	m["bytes.NewBufferString"] = newBuf
	m["strings.NewReader"] = newBuf
	bufBytes := func(in *Interp, s *State, ci *CallInfo) []Out {
		p := in.bufPtr(s, ci.Args[0])
		if p == nil {
			return []Out{in.panicOut(s, ci, "nil buffer")}
		}
		c := catT(in.load(s, p).(*BufV).Parts...)
		if isString(ci.Sig.Results().At(0).Type()) {
			return ret(s, mkStr(c))
		}
		b := s.newBytes(c)
		s.handOut(p, b)
		return ret(s, b)
	}
	m["(*bytes.Buffer).Bytes"] = bufBytes
	m["(*bytes.Buffer).String"] = bufBytes
	m["(*strings.Builder).String"] = bufBytes
	bufLen := func(in *Interp, s *State, ci *CallInfo) []Out {
		p := in.bufPtr(s, ci.Args[0])
		if p == nil {
			return []Out{in.panicOut(s, ci, "nil buffer")}
		}
		n := IntT(0)
		for _, q := range in.load(s, p).(*BufV).Parts {
			n = addT(n, lenT(q), intTy)
		}
		return ret(s, s.pin(n))
	}
	m["(*bytes.Buffer).Len"] = bufLen
	m["(*bytes.Reader).Len"] = bufLen
	m["(*strings.Builder).Len"] = bufLen
	m["(*bytes.Buffer).Reset"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		p := in.bufPtr(s, ci.Args[0])
		in.store(s, p, &BufV{}, nil)
		s.rewind(p)
		return ret(s)
	}
	m["(*bytes.Buffer).Grow"] = func(in *Interp, s *State, ci *CallInfo) []Out { return ret(s) }
	m["(*strings.Builder).Grow"] = m["(*bytes.Buffer).Grow"]
	bufWrite := func(in *Interp, s *State, ci *CallInfo) []Out {
		var c *Term
		if t, ok := ci.Args[1].(*Term); ok && isInteger(t.T) && !isString(t.T) {
			if k, isC := constInt64(t); isC {
				c = StrT(string([]byte{byte(k)}))
			} else {
				c = encT("be8", t)
			}
		} else {
			c = s.Content(ci.Args[1])
		}
		var outs []Out
		for _, o := range in.write(s, ci.Args[0], c, ci) {
			if ci.Sig.Results().Len() == 1 {
				outs = append(outs, ret(o.St, o.Err)...)
			} else {
				outs = append(outs, ret(o.St, lenT(c), o.Err)...)
			}
		}
		return outs
	}
	m["(*bytes.Buffer).Write"] = bufWrite
	m["(*bytes.Buffer).WriteString"] = bufWrite
	m["(*bytes.Buffer).WriteByte"] = bufWrite
	m["(*strings.Builder).Write"] = bufWrite
	m["(*strings.Builder).WriteString"] = bufWrite
	m["(*strings.Builder).WriteByte"] = bufWrite
	writeRune := func(in *Interp, s *State, ci *CallInfo) []Out {
		r := s.Freeze(ci.Args[1])
		us := encodeRune(nil, r)
		if _, ok := constInt64(r); !ok {
			if iv := s.interval(r); iv.Hi == nil || iv.Hi.Cmp(big.NewInt(127)) > 0 {
				us = []*Term{App(types.Typ[types.Byte], "utf8", r)}
			}
		}
		c := joinUnits(us)
		var outs []Out
		for _, o := range in.write(s, ci.Args[0], c, ci) {
			outs = append(outs, ret(o.St, lenT(c), o.Err)...)
		}
		return outs
	}
	m["(*strings.Builder).WriteRune"] = writeRune
	m["(*bytes.Buffer).WriteRune"] = writeRune
	m["invoke Write"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		c := s.Content(ci.Args[1])
		var outs []Out
		for _, o := range in.write(s, ci.Args[0], c, ci) {
			outs = append(outs, ret(o.St, lenT(c), o.Err)...)
		}
		return outs
	}
	m["io.WriteString"] = m["invoke Write"]
	readInto := func(in *Interp, s *State, ci *CallInfo) []Out {
		sl := in.sliceOf(s, ci.Args[1], bytesT)
		if sl == nil {
			return ret(s, IntT(0), NilT)
		}
		var outs []Out
		for _, o := range in.readN(s, ci.Args[0], sl.Len, ci) {
			if lenT(o.C) != IntT(0) {
				in.setBytes(o.St, sl, IntT(0), o.C)
			}
			outs = append(outs, ret(o.St, lenT(o.C), o.Err)...)
		}
		return outs
	}
	m["io.ReadFull"] = readInto
	m["(*bytes.Buffer).Read"] = readInto
	m["(*bytes.Reader).Read"] = readInto
	all := func(in *Interp, s *State, ci *CallInfo) []Out {
		if c, ok := in.readAll(s, ci.Args[0]); ok {
			return ret(s, s.newBytes(c), NilT)
		}
		return in.external(s, ci)
	}
	m["io.ReadAll"] = all
	m["io/ioutil.ReadAll"] = all
	m["io.CopyN"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		var outs []Out
		n := ci.Args[2].(*Term)
		for _, o := range in.readN(s, ci.Args[1], n, ci) {
			if !isNilV(o.Err) {
				e := o.Err
				if e == Val(uneofT) {
					e = eofT
				}
				outs = append(outs, ret(o.St, lenT(o.C), e)...)
				continue
			}
			for _, w := range in.write(o.St, ci.Args[0], o.C, ci) {
				outs = append(outs, ret(w.St, n, w.Err)...)
			}
		}
		return outs
	}
	m["io.LimitReader"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		t := in.R.ExtType("io", "LimitedReader")
		p := s.newPtr(&StructV{T: t, Fields: []Val{ci.Args[0], ci.Args[1]}})
		return ret(s, &IfaceV{T: types.NewPointer(t), V: p})
	}

	// ---- bytes, strings ----
	m["bytes.Equal"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		a, b := s.Content(ci.Args[0]), s.Content(ci.Args[1])
		return ret(s, in.bytesEq(s, a, b))
	}
	m["bytes.Compare"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		a, b := s.Content(ci.Args[0]), s.Content(ci.Args[1])
		if a == b {
			return ret(s, IntT(0))
		}
		if o := in.sc.Order; o != 0 {
			return ret(s, IntT(cmpBytes(a, b, o)))
		}
		if ra, ok := s.rank(a); ok {
			if rb, ok := s.rank(b); ok {
				c := int64(0)
				if ra < rb {
					c = -1
				} else if ra > rb {
					c = 1
				}
				return ret(s, IntT(c))
			}
		}
		if a.id < b.id {
			return ret(s, App(intTy, "bytes.Compare", a, b))
		}
		return ret(s, toLin(App(intTy, "bytes.Compare", b, a)).scale(big.NewInt(-1)).term(intTy))
	}
	m["bytes.Join"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		el, ok := in.sliceElems(s, ci.Args[0])
		if !ok {
			return in.external(s, ci)
		}
		sep := s.Content(ci.Args[1])
		var parts []*Term
		for i, e := range el {
			if i > 0 {
				parts = append(parts, sep)
			}
			parts = append(parts, s.Content(e))
		}
		return ret(s, s.newBytes(catT(parts...)))
	}
	m["strings.Join"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		el, ok := in.sliceElems(s, ci.Args[0])
		if !ok {
			return in.external(s, ci)
		}
		sep := s.Content(ci.Args[1])
		var parts []*Term
		for i, e := range el {
			if i > 0 {
				parts = append(parts, sep)
			}
			parts = append(parts, s.Content(e))
		}
		return ret(s, mkStr(catT(parts...)))
	}
	str1 := func(f func(string) string) model {
		return func(in *Interp, s *State, ci *CallInfo) []Out {
			if c, ok := constStr(s.Freeze(ci.Args[0])); ok {
				return ret(s, StrT(f(c)))
			}
			return pureApp(in, s, ci)
		}
	}
	m["strings.ToLower"] = str1(strings.ToLower)
	m["strings.ToUpper"] = str1(strings.ToUpper)
	m["strings.TrimSpace"] = str1(strings.TrimSpace)
	m["strings.Split"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		a, ok1 := constStr(s.Freeze(ci.Args[0]))
		b, ok2 := constStr(s.Freeze(ci.Args[1]))
		if !ok1 || !ok2 {
			return pureApp(in, s, ci)
		}
		arr := &ArrayV{Elem: types.Typ[types.String], E: map[int64]Val{}}
		for i, p := range strings.Split(a, b) {
			arr.E[int64(i)] = StrT(p)
			arr.N++
		}
		n := IntT(arr.N)
		return ret(s, &SliceV{Base: s.newPtr(arr), Len: n, Cap: n, Elem: arr.Elem})
	}
	str2i := func(f func(a, b string) int) model {
		return func(in *Interp, s *State, ci *CallInfo) []Out {
			a, ok1 := constStr(s.Freeze(ci.Args[0]))
			bt := s.Freeze(ci.Args[1])
			b, ok2 := constStr(bt)
			if i, ok := constInt64(bt); ok {
				b, ok2 = string([]byte{byte(i)}), true
			}
			if ok1 && ok2 {
				return ret(s, IntT(int64(f(a, b))))
			}
			fa := s.FreezeAll(ci.Args)
			t := App(intTy, ci.Name, fa...)
			s.ownFacts()
			if _, done := s.iv[t.id]; !done {
				hi := new(big.Int).Lsh(big.NewInt(1), 40)
				if ok1 {
					hi = big.NewInt(int64(len(a)) - 1)
				}
				s.iv[t.id] = Iv{Lo: big.NewInt(-1), Hi: hi}
			}
			return ret(s, t)
		}
	}
	m["strings.IndexByte"] = str2i(strings.Index)
	m["strings.Index"] = str2i(strings.Index)
	m["strings.IndexRune"] = str2i(strings.Index)
	m["strings.LastIndexByte"] = str2i(strings.LastIndex)
	m["strings.LastIndex"] = str2i(strings.LastIndex)
	m["strings.Contains"] = pureApp
	m["strings.HasPrefix"] = pureApp
	m["strings.HasSuffix"] = pureApp
	m["encoding/hex.EncodeToString"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		return ret(s, App(types.Typ[types.String], "hex", s.Content(ci.Args[0])))
	}
	m["encoding/hex.EncodedLen"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		if n, ok := constInt64(s.Freeze(ci.Args[0])); ok {
			return ret(s, IntT(2*n))
		}
		return in.external(s, ci)
	}
	m["path/filepath.Join"] = pureApp

	// ---- sorting ----
	srt := func(in *Interp, s *State, ci *CallInfo) []Out {
		return in.sortSlice(s, ci.Args[0], ci.Args[1], ci)
	}
	m["sort.Slice"] = srt
	m["sort.SliceStable"] = srt
	ifaceSort := func(in *Interp, s *State, ci *CallInfo) []Out {
		i, ok := ci.Args[0].(*IfaceV)
		if !ok {
			panic(Undecided{"sort.Sort of unknown"})
		}
		less := in.R.lookupMethod(i.T, "Less")
		if less == nil {
			panic(Undecided{"sort.Sort: no Less"})
		}
		return in.sortSlice(s, i.V, &FuncV{Ext: "sort-less", Env: []Val{&FuncV{Fn: less}, i}}, ci)
	}
	m["sort.Sort"] = ifaceSort
	m["sort.Stable"] = ifaceSort
	m["sort-less"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		fn := ci.Args[0].(*FuncV).Fn
		return in.Call(s, fn, []Val{ci.Args[1].(*IfaceV).V, ci.Args[2], ci.Args[3]})
	}

	// ---- sync, time ----
	ev := func(name string) model {
		return func(in *Interp, s *State, ci *CallInfo) []Out {
			s.event(&Event{Kind: "call", Name: ci.Name, Args: s.FreezeAll(ci.Args[1:]), Raw: ci.Args, Pos: ci.Pos, Fn: ci.Caller, Instr: ci.Instr})
			return ret(s, zeros(ci.Sig)...)
		}
	}
	for _, n := range []string{"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait"} {
		m[n] = ev(n)
	}
	// A lock counts its readers, -1 stands for a writer. Whoever waits for a
	// lock that this very execution holds waits as long as it does.
	lock := func(read, release, try bool) model {
		return func(in *Interp, s *State, ci *CallInfo) []Out {
			p, ok := in.resolve(s, ci.Args[0], nil)
			if !ok {
				return []Out{in.panicOut(s, ci, "nil dereference")}
			}
			s.event(&Event{Kind: "call", Name: ci.Name, Raw: ci.Args, Pos: ci.Pos, Fn: ci.Caller, Instr: ci.Instr})
			k := fmt.Sprintf("lock:%d%v", p.Obj, p.Path)
			if release {
				s.closed(k)
			} else {
				defer func() {
					if v, ok := s.ghost[k]; ok && v != nil {
						if n, _ := constInt64(v); n != 0 {
							s.opened(k, p, ci)
						}
					}
				}()
			}
			var n int64
			if v, ok := s.ghost[k]; ok && v != nil {
				n, _ = constInt64(v)
			}
			set := func(n int64) { s.setGhost(k, IntT(n)) }
			switch {
			case release && read:
				if n < 1 {
					return []Out{in.panicOut(s, ci, "unlock of an unlocked lock")}
				}
				set(n - 1)
				return ret(s)
			case release:
				if n >= 0 {
					return []Out{in.panicOut(s, ci, "unlock of an unlocked lock")}
				}
				set(0)
				return ret(s)
			}
			free := n == 0 || read && n > 0
			switch {
			case free && read:
				set(n + 1)
			case free:
				set(-1)
			case !try:
				return []Out{{St: s, Kind: Parked, Pos: ci.Pos, Why: "lock"}}
			}
			if try {
				return ret(s, BoolT(free))
			}
			return ret(s)
		}
	}
	for _, t := range []string{"Mutex", "RWMutex"} {
		m["(*sync."+t+").Lock"] = lock(false, false, false)
		m["(*sync."+t+").TryLock"] = lock(false, false, true)
		m["(*sync."+t+").Unlock"] = lock(false, true, false)
	}
	m["(*sync.RWMutex).RLock"] = lock(true, false, false)
	m["(*sync.RWMutex).TryRLock"] = lock(true, false, true)
	m["(*sync.RWMutex).RUnlock"] = lock(true, true, false)
	m["(*sync.Once).Do"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		p, ok := in.resolve(s, ci.Args[0], nil)
		if !ok {
			return []Out{in.panicOut(s, ci, "nil dereference")}
		}
		s.event(&Event{Kind: "call", Name: ci.Name, Raw: ci.Args, Pos: ci.Pos, Fn: ci.Caller, Instr: ci.Instr})
		k := fmt.Sprintf("once:%d%v", p.Obj, p.Path)
		if _, done := s.ghost[k]; done {
			in.syncEv(s, "acq", p.Obj, p.Path)
			return ret(s)
		}
		s.setGhost(k, BoolT(true))
		// No other execution gets here.
		in.syncEv(s, "excl", p.Obj, p.Path)
		old := s.ghost["inonce"]
		s.setGhost("inonce", Sym(k, nil))
		outs := in.callVal(s, ci.Args[1], &CallInfo{Sig: types.NewSignatureType(nil, nil, nil, nil, nil, false), Pos: ci.Pos, Instr: ci.Instr, Caller: ci.Caller})
		for _, o := range outs {
			o.St.setGhost("inonce", old)
			in.syncEv(o.St, "rel", p.Obj, p.Path)
			in.syncEv(o.St, "acq", p.Obj, p.Path)
		}
		return outs
	}
	atomicCAS, atomicLoad, atomicStore, atomicSwap, atomicAdd := atomically(atomicCAS), atomically(atomicLoad), atomically(atomicStore), atomically(atomicSwap), atomically(atomicAdd)
	for _, t := range []string{"Int32", "Uint32", "Int64", "Uint64"} {
		m["sync/atomic.CompareAndSwap"+t] = atomicCAS
		m["sync/atomic.Load"+t] = atomicLoad
		m["sync/atomic.Store"+t] = atomicStore
		m["sync/atomic.Swap"+t] = atomicSwap
		m["sync/atomic.Add"+t] = atomicAdd
	}
	for _, t := range []string{"Int32", "Uint32", "Int64", "Uint64", "Bool"} {
		w := func(f model) model {
			return func(in *Interp, s *State, ci *CallInfo) []Out {
				p, ok := in.resolve(s, ci.Args[0], nil)
				if !ok {
					return []Out{in.panicOut(s, ci, "nil dereference")}
				}
				st := structOf(derefType(ci.Sig.Recv().Type()))
				idx := -1
				for i := 0; st != nil && i < st.NumFields(); i++ {
					if st.Field(i).Name() == "v" {
						idx = i
					}
				}
				if idx < 0 {
					panic(Undecided{"atomic type"})
				}
				np := &Ptr{Obj: p.Obj, Path: append(append([]PathElem(nil), p.Path...), PathElem{Field: idx})}
				c2 := *ci
				c2.Args = append([]Val{np}, ci.Args[1:]...)
				return f(in, s, &c2)
			}
		}
		m["(*sync/atomic."+t+").CompareAndSwap"] = w(atomicCAS)
		m["(*sync/atomic."+t+").Load"] = w(atomicLoad)
		m["(*sync/atomic."+t+").Store"] = w(atomicStore)
		m["(*sync/atomic."+t+").Swap"] = w(atomicSwap)
		m["(*sync/atomic."+t+").Add"] = w(atomicAdd)
	}
	m["time.Sleep"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		s.event(&Event{Kind: "call", Name: ci.Name, Args: s.FreezeAll(ci.Args), Pos: ci.Pos, Fn: ci.Caller, Instr: ci.Instr})
		return ret(s)
	}
	timer := func(in *Interp, s *State, ct types.Type, d Val) *Term {
		n := int64(0)
		if v, ok := s.ghost["timern"]; ok {
			n, _ = constInt64(v)
		}
		s.setGhost("timern", IntT(n+1))
		t := mk(ct, "timer", fmt.Sprint(n), s.Freeze(d))
		in.nonNil[t.id] = true
		return t
	}
	m["time.After"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		return ret(s, timer(in, s, ci.Sig.Results().At(0).Type(), ci.Args[0]))
	}
	m["time.Tick"] = m["time.After"]
	newTimer := func(in *Interp, s *State, ci *CallInfo) []Out {
		T := derefType(ci.Sig.Results().At(0).Type())
		v := zero(T).(*StructV)
		v.Fields[0] = timer(in, s, T.Underlying().(*types.Struct).Field(0).Type(), ci.Args[0])
		return ret(s, s.newPtr(v))
	}
	m["time.NewTimer"] = newTimer
	m["time.NewTicker"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		outs := newTimer(in, s, ci)
		for _, o := range outs {
			p := o.Vals[0].(*Ptr)
			o.St.opened(fmt.Sprintf("ticker %d", p.Obj), p, ci)
		}
		return outs
	}
	m["(*time.Timer).Stop"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		return ret(s, s.fresh("timerstop", boolT))
	}
	m["(*time.Timer).Reset"] = m["(*time.Timer).Stop"]
	m["(*time.Ticker).Reset"] = func(in *Interp, s *State, ci *CallInfo) []Out { return ret(s) }
	m["(*time.Ticker).Stop"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		if p, ok := in.resolve(s, ci.Args[0], nil); ok {
			s.closed(fmt.Sprintf("ticker %d", p.Obj))
		}
		return ret(s)
	}
	m["time.Unix"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		sec, ns := s.Freeze(ci.Args[0]), s.Freeze(ci.Args[1])
		t := ci.Sig.Results().At(0).Type()
		if z, ok := constInt64(ns); ok && z == 0 && sec.IsApp("unix") {
			return ret(s, App(t, "wholesec", sec.Args[0]))
		}
		return ret(s, App(t, "time.Unix", sec, ns))
	}
	// The same instant in another zone.
	for _, n := range []string{"UTC", "Local", "In"} {
		m["(time.Time)."+n] = func(in *Interp, s *State, ci *CallInfo) []Out { return ret(s, ci.Args[0]) }
	}
	m["(time.Time).Unix"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		t := s.Freeze(ci.Args[0])
		if t.IsApp("time.Unix") {
			if z, ok := constInt64(t.Args[1]); ok && z == 0 {
				return ret(s, t.Args[0])
			}
		}
		if t.IsApp("wholesec") {
			t = t.Args[0]
		}
		return ret(s, App(types.Typ[types.Int64], "unix", t))
	}
	m["(time.Time).IsZero"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		if z, k := isZeroVal(ci.Args[0]); k {
			return ret(s, BoolT(z))
		}
		t := s.Freeze(ci.Args[0])
		// The zero time is at second granularity, so dropping the
		// nanoseconds of a nonzero time can hit it only within its first
		// second.
		if t.IsApp("wholesec") {
			t = t.Args[0]
		}
		if t.IsApp("time.Unix") {
			return ret(s, in.decided(s, mk(boolT, "iszero", "", t)))
		}
		return ret(s, in.decided(s, iszeroT(t)))
	}
	m["(time.Duration).Seconds"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		d := ci.Args[0].(*Term)
		l := toLin(d)
		g := big.NewInt(1_000_000_000)
		r := lin{c: new(big.Int), co: map[*Term]*big.Int{}}
		exact := true
		q, rem := new(big.Int).QuoRem(l.c, g, new(big.Int))
		if rem.Sign() != 0 {
			exact = false
		}
		r.c = q
		for k, v := range l.co {
			q, rem := new(big.Int).QuoRem(v, g, new(big.Int))
			if rem.Sign() != 0 {
				exact = false
			}
			r.co[k] = q
		}
		var x *Term
		if exact {
			x = r.term(types.Typ[types.Int64])
		} else {
			x = App(types.Typ[types.Int64], "wholeseconds", d)
		}
		return ret(s, mk(types.Typ[types.Float64], "secs", "", x))
	}

	// ---- tlv primitives (the record and stream logic itself is analysed
	// from source) ----
	m["lnd/tlv.WriteVarInt"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		return writeOuts(in.write(s, ci.Args[0], encT("varint", s.Freeze(ci.Args[1])), ci))
	}
	m["lnd/tlv.ReadVarInt"] = readVarInt
	for _, b := range []int64{8, 16, 32, 64} {
		k := fmt.Sprintf("be%d", b)
		m[fmt.Sprintf("lnd/tlv.EUint%d", b)] = eInt(b, k)
		m[fmt.Sprintf("lnd/tlv.DUint%d", b)] = dInt(b, k, true)
		m[fmt.Sprintf("lnd/tlv.EUint%dT", b)] = eIntT(k)
		if b > 8 {
			tk := fmt.Sprintf("tu%d", b)
			m[fmt.Sprintf("lnd/tlv.ETUint%d", b)] = eTU(tk)
			m[fmt.Sprintf("lnd/tlv.ETUint%dT", b)] = eTU(tk)
			m[fmt.Sprintf("lnd/tlv.DTUint%d", b)] = dTU(b, tk)
			m[fmt.Sprintf("lnd/tlv.SizeTUint%d", b)] = func(in *Interp, s *State, ci *CallInfo) []Out {
				return ret(s, lenT(encT(tk, s.Freeze(ci.Args[0]))))
			}
		}
	}
	// big endian helpers
	for _, b := range []int64{16, 32, 64} {
		k := fmt.Sprintf("be%d", b)
		w := b / 8
		bt := types.Typ[uintKind(b)]
		m[fmt.Sprintf("(encoding/binary.bigEndian).PutUint%d", b)] = func(in *Interp, s *State, ci *CallInfo) []Out {
			sl := in.sliceOf(s, ci.Args[1], bytesT)
			if sl == nil {
				return []Out{in.panicOut(s, ci, "index out of range")}
			}
			in.setBytes(s, sl, IntT(0), encBE(k, s.Freeze(ci.Args[2])))
			return ret(s)
		}
		m[fmt.Sprintf("(encoding/binary.bigEndian).Uint%d", b)] = func(in *Interp, s *State, ci *CallInfo) []Out {
			c := s.Content(ci.Args[1])
			h, _ := s.splitContent(contentParts(c), IntT(w))
			return ret(s, decBE(catT(h...), k, bt))
		}
		m[fmt.Sprintf("(encoding/binary.bigEndian).AppendUint%d", b)] = func(in *Interp, s *State, ci *CallInfo) []Out {
			return ret(s, s.newBytes(catT(s.Content(ci.Args[1]), encBE(k, s.Freeze(ci.Args[2])))))
		}
	}

	// ---- lnwire elements ----
	m["lnd/lnwire.WriteElement"] = writeElement
	m["lnd/lnwire.ReadElement"] = readElement
	each := func(one model) model {
		return func(in *Interp, s *State, ci *CallInfo) []Out {
			vs, ok := in.sliceElems(s, ci.Args[1])
			if !ok {
				return in.external(s, ci)
			}
			outs := ret(s, NilT)
			for _, v := range vs {
				var next []Out
				for _, o := range outs {
					if o.Kind != Ret || !isNilV(o.Vals[0]) {
						next = append(next, o)
						continue
					}
					c := *ci
					c.Args = []Val{ci.Args[0], v}
					next = append(next, one(in, o.St, &c)...)
				}
				outs = next
			}
			return outs
		}
	}
	m["lnd/lnwire.WriteElements"] = each(writeElement)
	m["lnd/lnwire.ReadElements"] = each(readElement)
	for _, n := range []string{"Bytes", "Uint8", "Uint16", "Uint32", "Uint64", "PublicKey"} {
		m["lnd/lnwire.Write"+n] = func(in *Interp, s *State, ci *CallInfo) []Out {
			c := *ci
			c.Args = []Val{ci.Args[0], &IfaceV{T: ci.Sig.Params().At(1).Type(), V: ci.Args[1]}}
			return writeElement(in, s, &c)
		}
	}
	m["lnd/lnwire.NewRawFeatureVector"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		t := derefType(ci.Sig.Results().At(0).Type())
		return ret(s, s.newPtr(App(t, "RawFeatureVector", s.Freeze(ci.Args[0]))))
	}
	m["lnd/lnwire.NewFeatureVector"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		t := derefType(ci.Sig.Results().At(0).Type())
		v := zero(t).(*StructV)
		st := structOf(t)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "RawFeatureVector" {
				v.Fields[i] = ci.Args[0]
			} else {
				v.Fields[i] = ci.Args[1]
			}
		}
		return ret(s, s.newPtr(v))
	}
	featEnc := func(in *Interp, s *State, ci *CallInfo) []Out {
		c := in.featOf(s, ci.Args[0])
		if c == nil {
			return []Out{in.panicOut(s, ci, "nil feature vector")}
		}
		var outs []Out
		for _, o := range in.write(s, ci.Args[1], encT("feat", c), ci) {
			outs = append(outs, in.errForkTail(o, ci, "(*lnd/lnwire.RawFeatureVector).Encode", c)...)
		}
		return outs
	}
	m["(*lnd/lnwire.RawFeatureVector).EncodeBase256"] = featEnc
	// Encode prefixes the bits with their length (two bytes).
	m["(*lnd/lnwire.RawFeatureVector).Encode"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		c := in.featOf(s, ci.Args[0])
		if c == nil {
			return []Out{in.panicOut(s, ci, "nil feature vector")}
		}
		f := encT("feat", c)
		var outs []Out
		for _, o := range in.write(s, ci.Args[1], catT(encT("be16", lenT(f)), f), ci) {
			outs = append(outs, in.errForkTail(o, ci, "(*lnd/lnwire.RawFeatureVector).Encode", c)...)
		}
		return outs
	}
	m["(*lnd/lnwire.RawFeatureVector).DecodeBase256"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		var outs []Out
		for _, o := range in.readN(s, ci.Args[1], s.Freeze(ci.Args[2]), ci) {
			if !isNilV(o.Err) {
				outs = append(outs, Out{St: o.St, Vals: []Val{o.Err}})
				continue
			}
			p, ok := in.resolve(o.St, ci.Args[0], nil)
			if !ok {
				outs = append(outs, in.panicOut(o.St, ci, "nil feature vector"))
				continue
			}
			v := App(derefType(ci.Sig.Recv().Type()), "featdec", o.C)
			if o.C.Op == "enc" && o.C.S == "feat" {
				v = o.C.Args[0]
			}
			in.store(o.St, p, v, nil)
			outs = append(outs, ret(o.St, NilT)...)
		}
		return outs
	}
	m["(*lnd/lnwire.RawFeatureVector).Decode"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		c, ok := in.readAll(s, ci.Args[1])
		if !ok {
			return in.external(s, ci)
		}
		p, ok := in.resolve(s, ci.Args[0], nil)
		if !ok {
			return []Out{in.panicOut(s, ci, "nil feature vector")}
		}
		t := derefType(ci.Sig.Recv().Type())
		outs := in.errFork(s, ci, "featdec16", []*Term{c})
		for _, o := range outs {
			if isNilV(o.Vals[0]) {
				in.store(o.St, p, App(t, "featdec16", c), nil)
			}
		}
		return outs
	}
	isEmpty := func(in *Interp, s *State, ci *CallInfo) []Out {
		c := in.featOf(s, ci.Args[0])
		if c == nil {
			return []Out{in.panicOut(s, ci, "nil feature vector")}
		}
		if c.IsApp("RawFeatureVector") {
			if el, ok := c.Args[0].Elems(); ok {
				return ret(s, BoolT(len(el) == 0))
			}
		}
		return ret(s, in.decided(s, App(boolT, "featempty", c)))
	}
	m["(lnd/lnwire.RawFeatureVector).IsEmpty"] = isEmpty
	m["(*lnd/lnwire.RawFeatureVector).IsEmpty"] = isEmpty
	m["(*lnd/lnwire.RawFeatureVector).IsSet"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		c := in.featOf(s, ci.Args[0])
		if c == nil {
			return []Out{in.panicOut(s, ci, "nil feature vector")}
		}
		bit := s.Freeze(ci.Args[1])
		if b, ok := constInt64(bit); ok && c.IsApp("RawFeatureVector") {
			if el, ok := c.Args[0].Elems(); ok {
				has, unknown := false, false
				for _, e := range el {
					n, isC := constInt64(e)
					has = has || isC && n == b
					unknown = unknown || !isC
				}
				if has || !unknown {
					return ret(s, BoolT(has))
				}
			}
		}
		return ret(s, in.decided(s, App(boolT, "featset", c, bit)))
	}
	m["(*lnd/lnwire.FeatureVector).IsSet"] = m["(*lnd/lnwire.RawFeatureVector).IsSet"]
	m["(lnd/lnwire.FeatureBit).IsRequired"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		t := ci.Args[0].(*Term)
		if i, ok := constInt64(t); ok {
			return ret(s, BoolT(i%2 == 0))
		}
		return ret(s, in.decided(s, App(boolT, "required", t)))
	}

	// ---- keys, hashes, signatures ----
	ser := func(kind string) model {
		return func(in *Interp, s *State, ci *CallInfo) []Out {
			if isNilV(ci.Args[0]) {
				return []Out{in.panicOut(s, ci, "nil dereference")}
			}
			return ret(s, s.newBytes(encT(kind, pubTerm(s.Freeze(ci.Args[0])))))
		}
	}
	m["(secp.PublicKey).SerializeCompressed"] = ser("pub33")
	m["(*secp.PublicKey).SerializeCompressed"] = ser("pub33")
	m["(*btcec.PublicKey).SerializeCompressed"] = ser("pub33")
	m["(btcec.PublicKey).SerializeCompressed"] = ser("pub33")
	m["schnorr.SerializePubKey"] = ser("xonly")
	m["lnd/routing/route.NewVertex"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		if isNilV(ci.Args[0]) {
			return []Out{in.panicOut(s, ci, "nil dereference")}
		}
		return ret(s, in.byteArr(encT("pub33", pubTerm(s.Freeze(ci.Args[0]))), 33))
	}
	isEq := func(in *Interp, s *State, ci *CallInfo) []Out {
		a, b := pubTerm(s.Freeze(ci.Args[0])), pubTerm(s.Freeze(ci.Args[1]))
		return ret(s, in.bytesEq(s, encT("pub33", a), encT("pub33", b)))
	}
	m["(*secp.PublicKey).IsEqual"] = isEq
	m["(secp.PublicKey).IsEqual"] = isEq
	parse := func(kind, name, norm string) model {
		return func(in *Interp, s *State, ci *CallInfo) []Out {
			c := s.Content(ci.Args[0])
			rt := ci.Sig.Results().At(0).Type()
			if c.Op == "enc" && c.S == kind {
				p := c.Args[0]
				if norm != "" {
					p = App(rt, norm, p)
					in.nonNil[p.id] = true
				}
				return ret(s, p, NilT)
			}
			p := App(rt, name, c)
			in.nonNil[p.id] = true
			return in.errFork(s, ci, name, []*Term{c}, p)
		}
	}
	m["btcec.ParsePubKey"] = parse("pub33", "ParsePubKey", "")
	m["secp.ParsePubKey"] = m["btcec.ParsePubKey"]
	m["schnorr.ParsePubKey"] = parse("xonly", "xonly.ParsePubKey", "evenY")
	m["schnorr.ParseSignature"] = parse("-", "ParseSignature", "")
	m["(*schnorr.Signature).Verify"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		sig := s.Freeze(ci.Args[0])
		dig := s.Content(ci.Args[1])
		key := pubTerm(s.Freeze(ci.Args[2]))
		s.event(&Event{Kind: "call", Name: "Verify", Args: []*Term{sig, dig, key}, Pos: ci.Pos, Fn: ci.Caller, Instr: ci.Instr})
		return ret(s, in.decided(s, App(boolT, "Verify", sig, dig, key)))
	}
	m["(btcd/chaincfg/chainhash.Hash).String"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		return ret(s, App(stringT, "hashString", s.Content(ci.Args[0])))
	}
	m["btcd/chaincfg/chainhash.TaggedHash"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		tag := s.Content(ci.Args[0])
		el, ok := in.sliceElems(s, ci.Args[1])
		if !ok {
			return in.external(s, ci)
		}
		var parts []*Term
		for _, e := range el {
			parts = append(parts, s.Content(e))
		}
		t := derefType(ci.Sig.Results().At(0).Type())
		h := App(t, "TaggedHash", tag, catT(parts...))
		return ret(s, s.newPtr(in.byteArr(h, 32)))
	}
	m["lnd/lntypes.MakeHash"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		c := s.Content(ci.Args[0])
		yes, no := s.branch(in.decided(s, eqT(s.pin(lenT(c)), IntT(32))))
		var outs []Out
		if yes != nil {
			outs = append(outs, ret(yes, in.byteArr(c, 32), NilT)...)
		}
		if no != nil {
			outs = append(outs, ret(no, zero(ci.Sig.Results().At(0).Type()), mk(errorT, "errnew", "invalid hash length"))...)
		}
		return outs
	}
	for _, n := range []string{"(secp.PrivateKey).Serialize", "(*secp.PrivateKey).Serialize", "(secp.ModNScalar).String", "(*secp.ModNScalar).String", "(secp.ModNScalar).Bytes", "(*secp.ModNScalar).Bytes"} {
		m[n] = pureApp
	}
	m["(*secp.PrivateKey).PubKey"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		t := App(ci.Sig.Results().At(0).Type(), "PubKey", s.Freeze(ci.Args[0]))
		in.nonNil[t.id] = true
		return ret(s, t)
	}
	m["invoke PubKey"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		t := App(ci.Sig.Results().At(0).Type(), "PubKey", s.Freeze(ci.Args[0]))
		in.nonNil[t.id] = true
		return ret(s, t)
	}
	m["btcd/btcutil/bech32.ConvertBits"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		fa := s.FreezeAll(ci.Args)
		return in.errFork(s, ci, "ConvertBits", fa, s.newBytes(App(bytesT, "ConvertBits", fa...)))
	}

	// ---- sphinx ----
	m["sphinx.BuildBlindedPath"] = buildBlindedPath
	m["(*sphinx.OnionPacket).Encode"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		if isNilV(ci.Args[0]) {
			return []Out{in.panicOut(s, ci, "nil dereference")}
		}
		c := pubTerm(s.Freeze(ci.Args[0]))
		var outs []Out
		for _, o := range in.write(s, ci.Args[1], encT("onionpkt", c), ci) {
			outs = append(outs, in.errForkTail(o, ci, "(*sphinx.OnionPacket).Encode", c)...)
		}
		return outs
	}
	m["(*sphinx.OnionPacket).Decode"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		c, ok := in.readAll(s, ci.Args[1])
		if !ok {
			return in.external(s, ci)
		}
		p, ok := in.resolve(s, ci.Args[0], nil)
		if !ok {
			return []Out{in.panicOut(s, ci, "nil dereference")}
		}
		t := derefType(ci.Sig.Recv().Type())
		outs := in.errFork(s, ci, "(*sphinx.OnionPacket).Decode", []*Term{c})
		for _, o := range outs {
			if isNilV(o.Vals[0]) {
				in.store(o.St, p, App(t, "onionpkt", c), nil)
			}
		}
		return outs
	}
	initChars()
}

// errForkTail adds a failing outcome to an encode step.
func (in *Interp) errForkTail(o ioOut, ci *CallInfo, op string, args ...*Term) []Out {
	if !isNilV(o.Err) || in.sc.ExtOK {
		return []Out{{St: o.St, Vals: []Val{o.Err}}}
	}
	f := o.St.fork()
	et := App(errorT, "err:"+op, args...)
	in.nonNil[et.id] = true
	f.event(&Event{Kind: "call", Name: op, Args: args, Pos: ci.Pos, Fn: ci.Caller, Instr: ci.Instr, Failed: true})
	return []Out{{St: o.St, Vals: []Val{NilT}}, {St: f, Vals: []Val{et}}}
}

// featOf is the provenance of a feature vector's bits, nil for a nil pointer.
func (in *Interp) featOf(s *State, v Val) *Term {
	if isNilV(v) {
		return nil
	}
	t := s.Freeze(v)
	for t.Op == "&" || t.Op == "struct" {
		if t.Op == "struct" {
			f := t.Field("RawFeatureVector")
			if f == nil {
				break
			}
			t = f
			continue
		}
		t = t.Args[0]
	}
	// A pointer stands for what it points to.
	if t.Op == "deref" {
		return t
	}
	if t.IsApp("RawFeatureVector") || t.IsApp("featdec") || t.IsApp("featdec16") {
		return t
	}
	return mk(nil, "deref", "", t)
}

func (in *Interp) bytesEq(s *State, a, b *Term) *Term {
	if a == b {
		return BoolT(true)
	}
	x, ok1 := constStr(a)
	y, ok2 := constStr(b)
	if ok1 && ok2 {
		return BoolT(x == y)
	}
	if a.Op == "enc" && b.Op == "enc" && a.S == b.S && a.S == "pub33" {
		// Key equality.
		return in.decided(s, eqT(a, b))
	}
	return in.decided(s, eqT(a, b))
}

func readVarInt(in *Interp, s *State, ci *CallInfo) []Out {
	u64 := types.Typ[types.Uint64]
	z := ConstT(constant.MakeInt64(0), u64)
	r := ci.Args[0]
	if p := in.bufPtr(s, r); p != nil {
		b := in.load(s, p).(*BufV)
		if len(b.Parts) == 0 {
			return ret(s, z, eofT)
		}
		h := b.Parts[0]
		if h.Op == "enc" && h.S == "varint" {
			in.store(s, p, &BufV{Parts: append([]*Term(nil), b.Parts[1:]...)}, nil)
			v := h.Args[0]
			if v.T == nil || !isInteger(v.T) {
				v.T = u64
			}
			return ret(s, v, NilT)
		}
		// Unknown bytes: end of stream, a value, or garbage.
		empty, some := s.branch(in.decided(s, eqT(lenT(h), IntT(0))))
		var outs []Out
		if empty != nil {
			in.store(empty, p, &BufV{Parts: append([]*Term(nil), b.Parts[1:]...)}, nil)
			outs = append(outs, readVarInt(in, empty, ci)...)
		}
		if some != nil {
			bad := some.fork()
			v := App(u64, "varint", h)
			rest := App(bytesT, "aftervarint", h)
			in.store(some, p, &BufV{Parts: append([]*Term{rest}, b.Parts[1:]...)}, nil)
			outs = append(outs, ret(some, v, NilT)...)
			et := App(errorT, "err:varint", h)
			in.nonNil[et.id] = true
			outs = append(outs, ret(bad, z, et)...)
		}
		return outs
	}
	ft := s.Freeze(r)
	v := s.fresh("varint("+ft.String()+")", u64)
	e := s.fork()
	et := App(errorT, "err:varint", ft)
	in.nonNil[et.id] = true
	return append(ret(s, v, NilT), ret(e, z, et)...)
}

func writeElement(in *Interp, s *State, ci *CallInfo) []Out {
	i, ok := ci.Args[1].(*IfaceV)
	if !ok {
		return in.external(s, ci)
	}
	var c *Term
	u, _ := i.T.Underlying().(*types.Basic)
	switch {
	case strings.HasSuffix(typeName(i.T), "PublicKey"):
		if isNilV(i.V) {
			return ret(s, mk(errorT, "errnew", "cannot write nil pubkey"))
		}
		if t, ok := i.V.(*Term); ok {
			if b, known := s.null(t); known && b {
				return ret(s, mk(errorT, "errnew", "cannot write nil pubkey"))
			}
		}
		c = encT("pub33", pubTerm(s.Freeze(i.V)))
	case isByteSlice(i.T):
		c = s.Content(i.V)
	case u != nil && u.Info()&types.IsInteger != 0:
		bits := map[types.BasicKind]string{types.Uint8: "be8", types.Uint16: "be16", types.Uint32: "be32", types.Uint64: "be64"}
		k, ok := bits[u.Kind()]
		if !ok {
			return in.external(s, ci)
		}
		c = encBE(k, s.Freeze(i.V))
	default:
		if a, ok := i.T.Underlying().(*types.Array); ok && isByte(a.Elem()) {
			c = s.Content(i.V)
			break
		}
		return in.external(s, ci)
	}
	return writeOuts(in.write(s, ci.Args[0], c, ci))
}

func readElement(in *Interp, s *State, ci *CallInfo) []Out {
	i, ok := ci.Args[1].(*IfaceV)
	if !ok {
		return in.external(s, ci)
	}
	tn := typeName(i.T)
	var outs []Out
	fixed := func(w int64, kind string, t types.Type) []Out {
		p, ok := in.resolve(s, i.V, nil)
		if !ok {
			return []Out{in.panicOut(s, ci, "nil dereference")}
		}
		for _, o := range in.readN(s, ci.Args[0], IntT(w), ci) {
			if isNilV(o.Err) {
				in.store(o.St, p, decBE(o.C, kind, t), nil)
			}
			outs = append(outs, ret(o.St, o.Err)...)
		}
		return outs
	}
	switch {
	case tn == "*uint8":
		return fixed(1, "be8", types.Typ[types.Uint8])
	case tn == "*uint16":
		return fixed(2, "be16", types.Typ[types.Uint16])
	case tn == "*uint32":
		return fixed(4, "be32", types.Typ[types.Uint32])
	case tn == "*uint64":
		return fixed(8, "be64", types.Typ[types.Uint64])
	case strings.HasPrefix(tn, "**") && strings.HasSuffix(tn, "PublicKey"):
		p, ok := in.resolve(s, i.V, nil)
		if !ok {
			return []Out{in.panicOut(s, ci, "nil dereference")}
		}
		pt := derefType(i.T)
		for _, o := range in.readN(s, ci.Args[0], IntT(33), ci) {
			if !isNilV(o.Err) {
				outs = append(outs, ret(o.St, o.Err)...)
				continue
			}
			if o.C.Op == "enc" && o.C.S == "pub33" {
				in.store(o.St, p, o.C.Args[0], nil)
				outs = append(outs, ret(o.St, NilT)...)
				continue
			}
			if !in.sc.ExtOK {
				f := o.St.fork()
				et := App(errorT, "err:ParsePubKey", o.C)
				in.nonNil[et.id] = true
				f.event(&Event{Kind: "call", Name: "ParsePubKey", Args: []*Term{o.C}, Pos: ci.Pos, Fn: ci.Caller, Instr: ci.Instr, Failed: true})
				outs = append(outs, ret(f, et)...)
			}
			k := App(pt, "ParsePubKey", o.C)
			in.nonNil[k.id] = true
			in.store(o.St, p, k, nil)
			outs = append(outs, ret(o.St, NilT)...)
		}
		return outs
	case isByteSlice(i.T):
		sl := in.sliceOf(s, i.V, i.T)
		if sl == nil {
			return ret(s, NilT)
		}
		for _, o := range in.readN(s, ci.Args[0], sl.Len, ci) {
			if lenT(o.C) != IntT(0) {
				in.setBytes(o.St, sl, IntT(0), o.C)
			}
			outs = append(outs, ret(o.St, o.Err)...)
		}
		return outs
	}
	return in.external(s, ci)
}

func buildBlindedPath(in *Interp, s *State, ci *CallInfo) []Out {
	hops, ok := in.sliceElems(s, ci.Args[1])
	if !ok {
		return in.external(s, ci)
	}
	if len(hops) == 0 {
		return []Out{in.panicOut(s, ci, "blinded path without hops")}
	}
	pt := derefType(ci.Sig.Results().At(0).Type())
	st := structOf(pt)
	sk := s.Freeze(ci.Args[0])
	frozen := s.FreezeAll(hops)
	v := zero(pt).(*StructV)
	keyT := types.Type(nil)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "IntroductionPoint" {
			keyT = st.Field(i).Type()
		}
	}
	pub := func(t *Term) *Term { in.nonNil[t.id] = true; return t }
	intro := frozen[0].Field("NodePub")
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "IntroductionPoint":
			v.Fields[i] = intro
		case "BlindingPoint":
			v.Fields[i] = pub(App(keyT, "PubKey", sk))
		case "BlindedHops":
			a := &ArrayV{Elem: keyT, N: int64(len(hops)), E: map[int64]Val{}}
			for j := range hops {
				a.E[int64(j)] = pub(App(keyT, "blindedID", sk, IntT(int64(j)), mk(nil, "list", "", frozen...)))
			}
			n := IntT(a.N)
			v.Fields[i] = &SliceV{Base: s.newPtr(a), Len: n, Cap: n, Elem: keyT}
		case "EncryptedData":
			a := &ArrayV{Elem: bytesT, N: int64(len(hops)), E: map[int64]Val{}}
			for j := range hops {
				d := App(bytesT, "blindedData", sk, IntT(int64(j)), mk(nil, "list", "", frozen...))
				// Encryption appends an authentication tag.
				s.assume(ltT(lenT(d), IntT(16)), false)
				s.assume(ltT(IntT(65535), lenT(d)), false)
				a.E[int64(j)] = s.newBytes(d)
			}
			n := IntT(a.N)
			v.Fields[i] = &SliceV{Base: s.newPtr(a), Len: n, Cap: n, Elem: bytesT}
		}
	}
	return in.errFork(s, ci, "sphinx.BuildBlindedPath", append([]*Term{sk}, frozen...), s.newPtr(v))
}

// ---- atomics ----

// atomically marks the accesses of an operation as atomic.
func atomically(f model) model {
	return func(in *Interp, s *State, ci *CallInfo) []Out {
		if in.race != nil {
			in.race.op++
			in.race.atomic++
			defer func() { in.race.atomic-- }()
		}
		return f(in, s, ci)
	}
}

func atomEv(s *State, ci *CallInfo, kind string) {
	s.event(&Event{Kind: "atomic", Name: kind, Raw: ci.Args, Args: s.FreezeAll(ci.Args[1:]), Pos: ci.Pos, Fn: ci.Caller, Instr: ci.Instr})
}

func asInt(v Val) *Term {
	t := v.(*Term)
	if b, ok := constBool(t); ok {
		if b {
			return IntT(1)
		}
		return IntT(0)
	}
	return t
}

func atomicCAS(in *Interp, s *State, ci *CallInfo) []Out {
	p, ok := in.resolve(s, ci.Args[0], nil)
	if !ok {
		return []Out{in.panicOut(s, ci, "nil dereference")}
	}
	atomEv(s, ci, "cas")
	cur := in.load(s, p)
	eq := in.equal(s, cur, asInt(ci.Args[1]), types.Typ[types.Int32])
	y, n := s.branch(eq)
	var outs []Out
	if y != nil {
		in.store(y, p, asInt(ci.Args[2]), nil)
		outs = append(outs, ret(y, BoolT(true))...)
	}
	if n != nil {
		outs = append(outs, ret(n, BoolT(false))...)
	}
	return outs
}

func atomicLoad(in *Interp, s *State, ci *CallInfo) []Out {
	p, ok := in.resolve(s, ci.Args[0], nil)
	if !ok {
		return []Out{in.panicOut(s, ci, "nil dereference")}
	}
	atomEv(s, ci, "load")
	v := in.load(s, p)
	if isBool(ci.Sig.Results().At(0).Type()) {
		return ret(s, notT(in.equal(s, v, IntT(0), types.Typ[types.Uint32])))
	}
	return ret(s, v)
}

func atomicStore(in *Interp, s *State, ci *CallInfo) []Out {
	p, ok := in.resolve(s, ci.Args[0], nil)
	if !ok {
		return []Out{in.panicOut(s, ci, "nil dereference")}
	}
	atomEv(s, ci, "store")
	in.store(s, p, asInt(ci.Args[1]), nil)
	return ret(s)
}

func atomicSwap(in *Interp, s *State, ci *CallInfo) []Out {
	p, ok := in.resolve(s, ci.Args[0], nil)
	if !ok {
		return []Out{in.panicOut(s, ci, "nil dereference")}
	}
	atomEv(s, ci, "swap")
	v := in.load(s, p)
	in.store(s, p, asInt(ci.Args[1]), nil)
	if isBool(ci.Sig.Results().At(0).Type()) {
		return ret(s, notT(in.equal(s, v, IntT(0), types.Typ[types.Uint32])))
	}
	return ret(s, v)
}

func atomicAdd(in *Interp, s *State, ci *CallInfo) []Out {
	p, ok := in.resolve(s, ci.Args[0], nil)
	if !ok {
		return []Out{in.panicOut(s, ci, "nil dereference")}
	}
	atomEv(s, ci, "add")
	v := addT(in.load(s, p).(*Term), ci.Args[1].(*Term), ci.Sig.Results().At(0).Type())
	if p.Obj <= s.era {
		v = s.anyCount(in.load(s, p), v, nil).(*Term)
	}
	in.store(s, p, v, nil)
	return ret(s, v)
}

// patternModel handles families of external operations.
func (in *Interp) patternModel(s *State, ci *CallInfo) ([]Out, bool) {
	n := ci.Name
	switch {
	case strings.HasPrefix(n, "strings."), strings.HasPrefix(n, "strconv."),
		strings.HasPrefix(n, "unicode"), strings.HasPrefix(n, "math"),
		strings.HasPrefix(n, "bytes."), strings.HasPrefix(n, "(time."):
		if ci.Sig.Results().Len() > 0 && !isErrorType(ci.Sig.Results().At(ci.Sig.Results().Len()-1).Type()) {
			return pureApp(in, s, ci), true
		}
	}
	return nil, false
}

var _ = sort.Strings
var _ = constant.Int
