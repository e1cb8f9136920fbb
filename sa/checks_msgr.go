package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const sphinxPath = "github.com/lightningnetwork/lightning-onion"
const lndclientPath = "github.com/lightninglabs/lndclient"

func init() {
	register(&Check{
		ID: "M01", Title: "messages for this node reach exactly their handler", Floor: 60,
		Rule: "Abstract interpretation of the messenger's own event loop (as started by its public constructor and Start) over histories of registrations and incoming messages of every kind; the handler calls each message causes are compared with the registrations in force.",
		Run: func(c *Ctx) {
			c.Guard("deliver", func() { msgrDeliver(c) })
		},
	})
	register(&Check{
		ID: "M02", Title: "forwarding of onion messages", Floor: 60,
		Rule: "Abstract interpretation of the messenger's event loop on a message for another node: provenance of every part of what is sent on, and the refusals.",
		Run: func(c *Ctx) {
			c.Guard("forward", func() { msgrForward(c) })
			c.Guard("refuse", func() { msgrForwardRefuse(c) })
		},
	})
	register(&Check{
		ID: "M03", Title: "a message never stops the messenger", Floor: 60,
		Rule: "Abstract interpretation of the messenger's event loop: after every message, whatever its type and whichever step of its processing fails, every path is back at waiting for events; messages of other types cause no call at all.",
		Run: func(c *Ctx) {
			c.Guard("survive", func() { msgrSurvive(c) })
			c.Guard("foreign", func() { msgrForeign(c) })
		},
	})
	register(&Check{
		ID: "M04", Title: "handler registration", Floor: 60,
		Rule: "Abstract interpretation of the registration calls composed with the event loop that serves them, over all histories of registrations up to the bound; plus a census of every access to the handler table.",
		Run: func(c *Ctx) {
			c.Guard("history", func() { msgrRegister(c) })
			c.Guard("refuse", func() { msgrRegisterRefuse(c) })
			c.Guard("return", func() { msgrRegisterReturns(c) })
		},
	})
}

// ---- the messenger under analysis ----

type op struct {
	kind string // reg, dereg, msg
	typ  int64
	h    string // the handler's name
	m    *inMsg
}

func (o op) String() string {
	switch o.kind {
	case "reg":
		return fmt.Sprintf("register(%d,%s)", o.typ, o.h)
	case "dereg":
		return fmt.Sprintf("deregister(%d)", o.typ)
	case "msg":
		return o.m.String()
	}
	return o.kind
}

// inMsg is an incoming peer message and what becomes of it.
type inMsg struct {
	id      int
	msgType *Term  // nil: 513
	stage   string // the step that fails: envelope, onion, process, payload; else ""
	action  string // ExitNode, MoreHops, Failure, other
	finals  []int64
	reply   int // hops of the reply path (0: none)
	encd    bool
	hfail   map[int64]bool // handlers that fail
	next    bool           // NextPacket set
	nextID  bool           // the route data has a next node
	over    bool           // and a blinding override
	fwfail  string         // decrypt, routedata, ephemeral, encode, send
	same    string         // what it has in common with message 0
}

func (m *inMsg) String() string {
	if m.msgType != nil {
		return fmt.Sprintf("message of type %v", m.msgType)
	}
	if m.stage == "replay" {
		return "message that was seen before"
	}
	if m.stage != "" {
		return "message whose " + m.stage + " fails"
	}
	s := "message for " + m.action
	if len(m.finals) > 0 {
		s += fmt.Sprintf(" with payloads %v", m.finals)
	}
	if m.fwfail != "" {
		s += " whose " + m.fwfail + " fails"
	}
	return s
}

func (m *inMsg) sym(n string, l int64) *Term {
	id := m.id
	if m.same == n {
		id = 0
	}
	return bsym(fmt.Sprintf("msg%d.%s", id, n), l)
}

// data is the message's wire form.
func (m *inMsg) data(s *State) *Term {
	switch m.stage {
	case "envelope":
		return m.sym("junk", 20)
	case "nothing":
		return StrT("")
	case "anything":
		// Of a type that is none of the node's business.
		return m.sym("junk", -1)
	}
	blob := m.sym("onion", -1)
	s.must(ltT(IntT(65535), lenT(blob)), false)
	return catT(m.sym("blinding", 33), encT("be16", lenT(blob)), blob)
}

// payload is the wire form of the payload inside of the onion.
func (m *inMsg) payload(s *State) *Term {
	if m.stage == "payload" {
		return catT(encT("varint", IntT(64)), encT("varint", IntT(9)), m.sym("cut", 5))
	}
	var w [][]*Term
	if m.reply > 0 {
		p, _ := m.path(s)
		w = append(w, rec(2, p))
	}
	if m.encd {
		e := m.sym("encrypted", -1)
		s.must(ltT(IntT(65535), lenT(e)), false)
		s.must(eqT(lenT(e), IntT(0)), false)
		w = append(w, rec(4, e))
	}
	ts := append([]int64(nil), m.finals...)
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	for _, t := range ts {
		v := m.sym(fmt.Sprintf("final%d", t), -1)
		s.must(ltT(IntT(65535), lenT(v)), false)
		w = append(w, rec(t, v))
	}
	return recsT(w...)
}

func (m *inMsg) path(s *State) (*Term, *pathSpec) {
	p := &pathSpec{first: m.sym("reply.first", 33), point: m.sym("reply.point", 33)}
	parts := []*Term{p.first, p.point, encT("be8", IntT(int64(m.reply)))}
	for i := 0; i < m.reply; i++ {
		id, d := m.sym(fmt.Sprintf("reply.hop%d", i), 33), m.sym(fmt.Sprintf("reply.data%d", i), -1)
		s.must(ltT(IntT(300), lenT(d)), false)
		p.ids, p.data = append(p.ids, id), append(p.data, d)
		parts = append(parts, id, encT("be16", lenT(d)), d)
	}
	return catT(parts...), p
}

func (m *inMsg) routeData() *Term {
	var w [][]*Term
	if m.nextID {
		w = append(w, rec(4, m.sym("next", 33)))
	}
	if m.over {
		w = append(w, rec(8, m.sym("override", 33)))
	}
	return recsT(w...)
}

// msgr drives a messenger through a history.
type msgr struct {
	c      *Ctx
	m      Val
	st     *State
	loop   *FuncV
	args   []Val
	script []op
	client func(in *Interp, s *State, sel *SelInfo) ([]SelChoice, bool)
	// free explores more than the history: quit at any point.
	lnd, ecdh, shut *Term
	rule, site      string
	subErr          bool
	started, ended  *Event
}

// newMessenger makes and starts a messenger through its public functions.
func (c *Ctx) newMessenger(rule string) *msgr {
	in := c.In
	nm := c.R.Func("onionmsg", "NewOnionMessenger")
	start := c.R.Method("onionmsg", "Messenger", "Start")
	w := &msgr{c: c, rule: rule, site: fnName(c.R.Method("onionmsg", "Messenger", "Start"))}
	s := in.Start()
	var args []Val
	for i := 0; i < nm.Signature.Params().Len(); i++ {
		p := nm.Signature.Params().At(i)
		a := Sym(p.Name(), p.Type())
		in.nonNil[a.id] = true
		args = append(args, a)
		switch typeName(p.Type()) {
		case "@/onionmsg.LndOnionMsg":
			w.lnd = a
		case "sphinx.SingleKeyECDH":
			w.ecdh = a
		case "func(error)":
			w.shut = a
		}
	}
	if w.lnd == nil || w.ecdh == nil || w.shut == nil {
		panic(Undecided{"the messenger's constructor"})
	}
	outs := c.run(rule, s, nm, args)
	if len(outs) != 1 {
		panic(Undecided{"the messenger's constructor has more than one outcome"})
	}
	w.m, w.st = outs[0].Vals[0], outs[0].St
	outs = c.run(rule, w.st, start, []Val{w.m})
	ok, _ := split(outs)
	if len(ok) != 1 {
		panic(Undecided{"the messenger's start has no single successful outcome"})
	}
	w.st = ok[0].St
	var gos []*Event
	for _, e := range w.st.Events() {
		if e.Kind == "go" {
			gos = append(gos, e)
		}
	}
	if len(gos) != 1 {
		panic(Undecided{fmt.Sprintf("%d goroutines are started", len(gos))})
	}
	f, isF := gos[0].Raw[0].(*FuncV)
	if !isF || f.Fn == nil {
		panic(Undecided{"the messenger's goroutine"})
	}
	w.loop, w.args = f, gos[0].Raw[1:]
	w.started = w.st.last
	// An onion packet has a fixed size.
	for i := 0; i < 4; i++ {
		n := Sym(fmt.Sprintf("msg%d.nextpacket", i), structField(c.R.ExtType(sphinxPath, "ProcessedPacket"), "NextPacket"))
		w.st.must(ltT(IntT(65535), lenT(encT("onionpkt", pubTerm(n)))), false)
	}
	return w
}

func (w *msgr) step(s *State) int {
	if v, ok := s.ghost["step"]; ok {
		n, _ := constInt64(v)
		return int(n)
	}
	return 0
}

// cur is the operation that is being processed.
func (w *msgr) cur(s *State) *op {
	k := w.step(s)
	if k == 0 || k > len(w.script) {
		return nil
	}
	return &w.script[k-1]
}

// ready: a receive from the channel does not block.
func ready(s *State, ch Val) bool {
	c, ok := ch.(*ChanRef)
	if !ok {
		return false
	}
	cv := s.heap[c.Obj].(*ChanV)
	return cv.Closed || len(cv.Queue) > 0
}

func sameChan(a, b Val) bool {
	x, ok1 := a.(*ChanRef)
	y, ok2 := b.(*ChanRef)
	return ok1 && ok2 && x.Obj == y.Obj
}

func caseOf(sel *SelInfo, pred func(SelCase) bool) int {
	for i, c := range sel.Cases {
		if pred(c) {
			return i
		}
	}
	return -1
}

func isElem(name string) func(SelCase) bool {
	return func(c SelCase) bool { return !c.Send && typeName(c.T) == name }
}

// sel drives the event loop's select.
func (w *msgr) sel(in *Interp, s *State, sel *SelInfo) ([]SelChoice, bool) {
	if w.client != nil {
		return w.client(in, s, sel)
	}
	msgCase := caseOf(sel, isElem("lndclient.CustomMessage"))
	if msgCase < 0 {
		return nil, false
	}
	st := s.fork()
	st.newEra(sel.Instr)
	// Settle the registration that is pending.
	if req, ok := st.ghost["request"]; ok && req != nil {
		for _, o := range w.callRegistration(st, sel, *w.cur(st), req) {
			w.c.Ob(o.Kind == Ret, w.rule, w.site, sel.Instr.Pos(), "%v: the caller is left waiting for an answer", w.cur(st))
			if o.Kind == Ret {
				st.event(&Event{Kind: "client", Name: "answer", Args: []*Term{o.St.Freeze(errVal(o))}})
			}
		}
		st.setGhost("request", nil)
	}
	var out []SelChoice
	w.next(in, st, sel, msgCase, &out)
	return out, true
}

func (w *msgr) next(in *Interp, st *State, sel *SelInfo, msgCase int, out *[]SelChoice) {
	k := w.step(st)
	if k >= len(w.script) {
		*out = append(*out, SelChoice{St: st, Stop: true})
		return
	}
	o := w.script[k]
	st.setGhost("step", IntT(int64(k+1)))
	st.event(&Event{Kind: "mark", Name: fmt.Sprint(k), Pos: sel.Instr.Pos()})
	switch o.kind {
	case "msg":
		cm := sel.Cases[msgCase].T
		mt := o.m.msgType
		if mt == nil {
			mt = IntT(513)
		}
		v := zero(cm).(*StructV)
		ct := structOf(cm)
		for i := 0; i < ct.NumFields(); i++ {
			switch ct.Field(i).Name() {
			case "Peer":
				v.Fields[i] = Sym(fmt.Sprintf("msg%d.peer", o.m.id), ct.Field(i).Type())
			case "MsgType":
				v.Fields[i] = ConstOr(mt, ct.Field(i).Type())
			case "Data":
				v.Fields[i] = st.newBytes(o.m.data(st))
			}
		}
		*out = append(*out, SelChoice{St: st, Idx: msgCase, Val: v, Ok: true})
	case "reg", "dereg":
		for _, r := range w.callRegistration(st, sel, o, nil) {
			if r.Kind == Ret {
				// Answered without the loop.
				n := r.St
				n.event(&Event{Kind: "client", Name: "answer", Args: []*Term{n.Freeze(errVal(r))}})
				w.next(in, n, sel, msgCase, out)
				continue
			}
			req, okR := r.St.ghost["sent"].(Val)
			if !okR || req == nil {
				w.c.Ob(false, w.rule, w.site, r.Pos, "%v: the caller blocks (%s)", o, r.Why)
				continue
			}
			idx, _ := constInt64(r.St.ghost["case"])
			n := r.St
			n.setGhost("request", req)
			n.setGhost("sent", nil)
			*out = append(*out, SelChoice{St: n, Idx: int(idx), Val: req, Ok: true})
		}
	default:
		panic(Undecided{"operation " + o.kind})
	}
}

// ConstOr gives a constant the named type.
func ConstOr(t *Term, ty types.Type) *Term {
	if t.C != nil {
		return ConstT(t.C, ty)
	}
	return t
}

func (w *msgr) handler(name string, t types.Type) Val {
	h := Sym(name, t)
	w.c.In.nonNil[h.id] = true
	return h
}

// callRegistration runs a client's call. With sent == nil it ends where the
// client hands its request to the loop; otherwise the client's own request is
// taken for the one the loop has processed and the call runs to its end.
func (w *msgr) callRegistration(st *State, loop *SelInfo, o op, sent Val) []Out {
	in := w.c.In
	name := "RegisterHandler"
	if o.kind == "dereg" {
		name = "DeregisterHandler"
	}
	fn := w.c.R.Method("onionmsg", "Messenger", name)
	args := []Val{w.m, ConstT(IntT(o.typ).C, fn.Params[1].Type())}
	if o.kind == "reg" {
		args = append(args, w.handler(o.h, fn.Params[2].Type()))
	}
	old := w.client
	defer func() { w.client = old }()
	var alias map[int]int // the client's channels -> the served request's
	w.client = func(in *Interp, s *State, sel *SelInfo) ([]SelChoice, bool) {
		var out []SelChoice
		for i, c := range sel.Cases {
			if c.Send {
				idx := -1
				if loop != nil {
					idx = caseOf(loop, func(l SelCase) bool { return !l.Send && sameChan(l.Chan, c.Chan) })
				}
				if idx < 0 || s.ghost["handed"] != nil && s.ghost["handed"] != Val(NilT) {
					continue
				}
				n := s.fork()
				if sent == nil {
					n.setGhost("sent", c.Val)
					n.setGhost("case", IntT(int64(idx)))
					out = append(out, SelChoice{St: n, Idx: i, Stop: true})
					continue
				}
				n.setGhost("handed", BoolT(true))
				alias = map[int]int{}
				in.pairChans(n, c.Val, sent, alias, 0)
				out = append(out, SelChoice{St: n, Idx: i})
				continue
			}
			ch := c.Chan
			if r, ok := ch.(*ChanRef); ok {
				if a, ok := alias[r.Obj]; ok {
					ch = &ChanRef{Obj: a}
				}
			}
			if ready(s, ch) {
				for _, rc := range in.recvChoices(s, ch, c.T) {
					out = append(out, SelChoice{St: rc.St, Idx: i, Val: rc.Val, Ok: rc.Ok})
				}
			}
		}
		return out, true
	}
	s := st.fork()
	s.setGhost("handed", NilT)
	s.setGhost("sent", nil)
	var outs []Out
	in.muted(func() { outs = in.Call(s, fn, args) })
	return outs
}

// pairChans pairs the channels of two values of one type.
func (in *Interp) pairChans(s *State, a, b Val, m map[int]int, d int) {
	if d > 6 {
		return
	}
	switch x := a.(type) {
	case *ChanRef:
		if y, ok := b.(*ChanRef); ok && x.Obj != y.Obj {
			m[x.Obj] = y.Obj
		}
	case *Ptr:
		if y, ok := b.(*Ptr); ok && x.Obj != y.Obj {
			in.pairChans(s, s.heap[x.Obj], s.heap[y.Obj], m, d+1)
		}
	case *StructV:
		if y, ok := b.(*StructV); ok {
			for i := range x.Fields {
				if i < len(y.Fields) {
					in.pairChans(s, x.Fields[i], y.Fields[i], m, d+1)
				}
			}
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			in.pairChans(s, x.V, y.V, m, d+1)
		}
	}
}

// calls models the messenger's surroundings.
func (w *msgr) calls(in *Interp, s *State, ci *CallInfo) ([]Out, bool) {
	fail := func(name string) ([]Out, bool) {
		// A handler may fail with anything, a library does not know our errors.
		e := in.extErr(name)
		if strings.HasPrefix(name, "dyn ") {
			e = in.envErr(name)
		}
		s.event(&Event{Kind: "call", Name: ci.Name, Args: s.FreezeAll(ci.Args), Raw: ci.Args, Pos: ci.Pos, Fn: ci.Caller, Instr: ci.Instr, Failed: true})
		vs := zeros(ci.Sig)
		vs[len(vs)-1] = e
		return ret(s, vs...), true
	}
	ok := func(vals ...Val) ([]Out, bool) {
		s.event(&Event{Kind: "call", Name: ci.Name, Args: s.FreezeAll(ci.Args), Raw: ci.Args, Res: vals, Pos: ci.Pos, Fn: ci.Caller, Instr: ci.Instr})
		return ret(s, vals...), true
	}
	o := w.cur(s)
	var m *inMsg
	if o != nil {
		m = o.m
	}
	switch {
	case ci.Method == "SubscribeCustomMessages":
		if w.subErr {
			return fail("subscribe")
		}
		r := ci.Sig.Results()
		a, b := Sym("messages", r.At(0).Type()), Sym("errors", r.At(1).Type())
		in.nonNil[a.id], in.nonNil[b.id] = true, true
		return ok(a, b, NilT)
	case ci.Name == "dyn "+w.shut.S:
		return ok()
	case strings.HasPrefix(ci.Name, "dyn h"):
		if m != nil {
			for t, f := range m.hfail {
				if f && w.table(s)[t] == ci.Name[4:] {
					return fail(ci.Name)
				}
			}
		}
		return ok(NilT)
	case m == nil:
		return nil, false
	case ci.Name == "(*sphinx.OnionPacket).Decode" && m.stage == "onion":
		return fail("onion")
	case ci.Name == "(*sphinx.Router).ProcessOnionPacket", ci.Name == "(*sphinx.Router).ReconstructOnionPacket":
		// Both open the onion, only the first looks for a replay.
		if m.stage == "process" {
			return fail("process")
		}
		if m.stage == "replay" && strings.HasSuffix(ci.Name, "ProcessOnionPacket") {
			os, _ := fail("process")
			os[0].Vals[len(os[0].Vals)-1] = mk(errorT, "global", "sphinx.ErrReplayedPacket")
			return os, true
		}
		pt := w.c.R.ExtType(sphinxPath, "ProcessedPacket")
		ht := w.c.R.ExtType(sphinxPath, "HopPayload")
		f := map[string]Val{"Action": w.action(m, structField(pt, "Action"))}
		hop := zero(ht).(*StructV)
		for i := 0; i < structOf(ht).NumFields(); i++ {
			if structOf(ht).Field(i).Name() == "Payload" {
				hop.Fields[i] = s.newBytes(m.payload(s))
			}
		}
		f["Payload"] = hop
		if m.next {
			n := Sym(fmt.Sprintf("msg%d.nextpacket", m.id), structField(pt, "NextPacket"))
			in.nonNil[n.id] = true
			f["NextPacket"] = n
		}
		return ok(s.obj(pt, f), NilT)
	case ci.Name == "sphinx.DecryptBlindedData":
		if m.fwfail == "decrypt" {
			return fail("decrypt")
		}
		d := m.routeData()
		if m.fwfail == "routedata" {
			d = catT(encT("varint", IntT(4)), encT("varint", IntT(33)), m.sym("cut", 7))
		}
		return ok(s.newBytes(d), NilT)
	case ci.Name == "sphinx.NextEphemeral":
		if m.fwfail == "ephemeral" {
			return fail("ephemeral")
		}
		k := App(ci.Sig.Results().At(0).Type(), "NextEphemeral", s.FreezeAll(ci.Args)...)
		in.nonNil[k.id] = true
		return ok(k, NilT)
	case ci.Name == "(*sphinx.OnionPacket).Encode" && m.fwfail == "encode":
		return fail("encode")
	case ci.Method == "SendCustomMessage":
		if m.fwfail == "send" {
			return fail("send")
		}
		return ok(NilT)
	}
	return nil, false
}

func (w *msgr) action(m *inMsg, t types.Type) *Term {
	switch m.action {
	case "":
		return w.action(&inMsg{action: "ExitNode"}, t)
	case "other":
		return Sym("action", t)
	}
	k, ok := w.c.R.Types[sphinxPath].Scope().Lookup(m.action).(*types.Const)
	if !ok {
		panic(Undecided{"sphinx." + m.action})
	}
	return ConstT(k.Val(), t)
}

// table is the handler table the answered registrations have led to.
func (w *msgr) table(s *State) map[int64]string {
	t := map[int64]string{}
	for _, o := range w.script[:w.step(s)] {
		switch {
		case o.kind == "reg" && t[o.typ] == "" && o.typ >= 64:
			t[o.typ] = o.h
		case o.kind == "dereg":
			delete(t, o.typ)
		}
	}
	return t
}

// play runs a history; each is called with the events of every operation.
func (w *msgr) play(script []op, each func(o op, table map[int64]string, evs []*Event, st *State)) []Out {
	c := w.c
	w.script = script
	var outs []Out
	c.In.With(&Scenario{ExtOK: true, LoopK: len(script) + 4, Call: w.calls, Select: w.sel}, func() {
		st := w.st.fork()
		st.event(&Event{Kind: "mark", Name: "start"})
		st.newEra(nil)
		outs = c.In.Call(st, w.loop.Fn, w.args, w.loop.Bind...)
	})
	n := 0
	for _, o := range outs {
		switch o.Kind {
		case Truncated:
			c.undecided(w.rule, w.site, o.Pos, o.Why)
			continue
		case Panicked:
			c.Ob(false, w.rule, w.site, o.Pos, "history %v: %s", script, o.Why)
			continue
		case Ret:
			c.Ob(w.step(o.St) == len(script) && false, w.rule, w.site, o.Pos, "history %v: the event loop ends at operation %d", script, w.step(o.St))
			continue
		}
		if w.step(o.St) != len(script) {
			c.Ob(false, w.rule, w.site, o.Pos, "history %v: the event loop blocks at operation %d (%s)", script, w.step(o.St), o.Why)
			continue
		}
		n++
		if each == nil {
			continue
		}
		var seg []*Event
		cur := -1
		flush := func() {
			if cur >= 0 {
				t := map[int64]string{}
				for _, p := range script[:cur] {
					switch {
					case p.kind == "reg" && t[p.typ] == "" && p.typ >= 64:
						t[p.typ] = p.h
					case p.kind == "dereg":
						delete(t, p.typ)
					}
				}
				each(script[cur], t, seg, o.St)
			}
			seg = nil
		}
		for _, e := range o.St.EventsSince(w.started) {
			if e.Kind == "mark" && e.Name != "start" {
				flush()
				cur++
				continue
			}
			seg = append(seg, e)
		}
		flush()
	}
	c.Ob(n > 0, w.rule, w.site, w.loop.Fn.Pos(), "history %v: no path is back at waiting for events", script)
	return outs
}

// effects are the calls that leave the node or reach a handler.
func effects(evs []*Event) (handlers, sends, other []*Event) {
	for _, e := range evs {
		if e.Kind != "call" {
			continue
		}
		switch {
		case strings.HasPrefix(e.Name, "dyn h"):
			handlers = append(handlers, e)
		case e.Name == "invoke SendCustomMessage":
			sends = append(sends, e)
		case strings.HasPrefix(e.Name, "invoke ") || strings.HasPrefix(e.Name, "dyn "):
			other = append(other, e)
		}
	}
	return
}

// checkDelivery: a message for this node reaches exactly its handlers.
func (c *Ctx) checkDelivery(rule, site string, o op, table map[int64]string, evs []*Event, st *State) {
	m := o.m
	pos := noPos
	hs, sends, other := effects(evs)
	c.Ob(len(sends) == 0, rule, site, pos, "%v: it is sent on", o)
	c.Ob(len(other) == 0, rule, site, pos, "%v: it causes other calls", o)
	var want []int64
	for _, t := range m.finals {
		if table[t] != "" {
			want = append(want, t)
		}
	}
	sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
	// A handler that fails is no concern of the others.
	if !c.Ob(len(hs) == len(want), rule, site, pos, "%v with handlers %v: %d handler calls, want %d", o, table, len(hs), len(want)) {
		return
	}
	_, spec := m.path(st)
	for i, h := range hs {
		t := want[i]
		if !c.Ob(h.Name == "dyn "+table[t], rule, site, h.Pos, "%v with handlers %v: call %d goes to %s, want %s", o, table, i, h.Name[4:], table[t]) {
			continue
		}
		if len(h.Args) != 3 {
			c.Ob(false, rule, site, h.Pos, "a handler is called with %d values", len(h.Args))
			continue
		}
		rp := derefAll(h.Args[0])
		if m.reply == 0 {
			c.Ob(rp == NilT, rule, site, h.Pos, "%v: a reply path is handed over: %v", o, rp)
		} else {
			c.checkPath(rule, site, h.Pos, rp, spec)
		}
		if m.encd {
			c.Ob(h.Args[1] == m.sym("encrypted", -1), rule, site, h.Pos, "%v: the handler is given %v as encrypted data", o, h.Args[1])
		}
		c.Ob(h.Args[2] == m.sym(fmt.Sprintf("final%d", t), -1), rule, site, h.Pos, "%v: the handler for %d is given %v", o, t, h.Args[2])
	}
}

// checkProcessed: the onion is opened with the message's own blinding point,
// once, by the router that was started, which remembers all that it opened.
func (c *Ctx) checkProcessed(w *msgr, rule, site string, o op, evs []*Event, st *State) {
	n := 0
	var router *Term
	for _, e := range st.Events() {
		if e.Kind == "call" && e.Name == "(*sphinx.Router).Start" {
			router = e.Arg(0)
		}
	}
	for _, e := range evs {
		if e.Kind != "call" || e.Name != "(*sphinx.Router).ProcessOnionPacket" {
			continue
		}
		n++
		c.Ob(router != nil && e.Arg(0) == router, "replay", site, e.Pos, "%v: the onion is processed by router %v, %v was started", o, e.Arg(0), router)
		if router != nil && router.IsApp("sphinx.NewRouter") {
			c.Ob(router.Args[0] == w.ecdh, rule, site, e.Pos, "%v: the onion is processed with the key %v", o, router.Args[0])
		}
		pkt := derefAll(e.Arg(1))
		c.Ob(pkt.IsApp("onionpkt") && pkt.Args[0] == o.m.sym("onion", -1), rule, site, e.Pos, "%v: the onion that is processed is %s", o, trunc(fmt.Sprint(pkt), 200))
		c.Ob(e.Arg(2) == NilT || lenT(e.Arg(2)) == IntT(0), rule, site, e.Pos, "%v: the onion is bound to %v", o, e.Arg(2))
		c.Ob(isKeyOf(e.Arg(4), o.m.sym("blinding", 33)), rule, site, e.Pos, "%v: the onion is opened with %v", o, e.Arg(4))
	}
	c.Ob(n == 1, rule, site, noPos, "%v: the onion is processed %d times", o, n)
}

func msgrDeliver(c *Ctx) {
	w := c.newMessenger("deliver")
	reg := func(t int64, h string) op { return op{kind: "reg", typ: t, h: h} }
	dereg := func(t int64) op { return op{kind: "dereg", typ: t} }
	tables := [][]op{
		{}, {reg(64, "ha")}, {reg(66, "hb")}, {reg(64, "ha"), reg(66, "hb")}, {reg(66, "hb"), reg(64, "ha"), reg(70_001, "hc")},
		{reg(64, "ha"), reg(64, "hd")}, {reg(64, "ha"), dereg(64)}, {reg(64, "ha"), dereg(64), reg(64, "hd")},
		{reg(64, "ha"), reg(66, "hb"), dereg(64)}, {reg(64, "hs"), reg(66, "hs")}, {reg(65, "ha"), reg(67, "hb")},
	}
	finals := [][]int64{{}, {64}, {66}, {65}, {64, 66}, {64, 65, 66}, {64, 66, 70_001}, {66, 70_001}, {65, 67, 1000}}
	for ti, t := range tables {
		for fi, f := range finals {
			for shape := 0; shape < 4; shape++ {
				if shape > 0 && !c.Thorough && (ti+fi)%3 != 0 {
					continue
				}
				m := &inMsg{id: 0, action: "ExitNode", finals: f, encd: shape&1 != 0, reply: shape & 2}
				script := append(append([]op(nil), t...), op{kind: "msg", m: m})
				w.play(script, func(o op, table map[int64]string, evs []*Event, st *State) {
					if o.kind == "msg" {
						c.checkDelivery("deliver", w.site, o, table, evs, st)
						c.checkProcessed(w, "deliver", w.site, o, evs, st)
					}
				})
			}
		}
	}
	// A failing handler, and the messages after it.
	for _, bad := range []int64{64, 66, 70_001} {
		m := &inMsg{id: 0, action: "ExitNode", finals: []int64{64, 66, 70_001}, hfail: map[int64]bool{bad: true}}
		m2 := &inMsg{id: 1, action: "ExitNode", finals: []int64{64, 66, 70_001}, encd: true, reply: 1}
		script := []op{reg(66, "hb"), reg(64, "ha"), reg(70_001, "hc"), {kind: "msg", m: m}, {kind: "msg", m: m2}, dereg(66), {kind: "msg", m: m2}}
		w.play(script, func(o op, table map[int64]string, evs []*Event, st *State) {
			if o.kind == "msg" {
				c.checkDelivery("deliver", w.site, o, table, evs, st)
				c.checkProcessed(w, "deliver", w.site, o, evs, st)
			}
		})
	}
	// What is not for this node reaches no handler.
	for _, m := range []*inMsg{
		{action: "MoreHops", next: true, nextID: true, encd: true}, {action: "MoreHops", next: true, nextID: true, encd: true, finals: []int64{64}},
		{action: "MoreHops", finals: []int64{64, 66}, encd: true}, {action: "Failure", finals: []int64{64}},
		{stage: "process", finals: []int64{64}}, {stage: "replay", action: "ExitNode", finals: []int64{64}}, {stage: "replay", action: "MoreHops", next: true, nextID: true, encd: true}, {stage: "payload"}, {stage: "onion"}, {stage: "envelope"}, {stage: "nothing"},
	} {
		w.play([]op{reg(64, "ha"), reg(66, "hb"), {kind: "msg", m: m}}, func(o op, table map[int64]string, evs []*Event, st *State) {
			hs, _, _ := effects(evs)
			c.Ob(o.kind != "msg" || len(hs) == 0, "not-ours", w.site, noPos, "%v: a handler is called", o)
		})
	}
	// Many handlers, many payloads, long reply paths.
	for _, n := range c.sizes(3, 60, "onionmsg", "lnwire") {
		var regs []op
		var ts []int64
		for i := 0; i < n; i++ {
			ts = append(ts, int64(64+37*i))
			regs = append(regs, reg(ts[i], fmt.Sprintf("h%d", i)))
		}
		for _, m := range []*inMsg{{action: "ExitNode", finals: ts, encd: true}, {action: "ExitNode", finals: []int64{64, ts[n-1]}, reply: n}} {
			for _, t := range [][]op{regs, {regs[0], regs[n-1]}} {
				w.play(append(append([]op(nil), t...), op{kind: "msg", m: m}), func(o op, table map[int64]string, evs []*Event, st *State) {
					if o.kind == "msg" {
						c.checkDelivery("deliver", w.site, o, table, evs, st)
						c.checkProcessed(w, "deliver", w.site, o, evs, st)
					}
				})
			}
		}
	}
}

func msgrForward(c *Ctx) {
	w := c.newMessenger("forward")
	check := func(o op, table map[int64]string, evs []*Event, st *State) {
		if o.kind == "msg" && o.m.forwardable() {
			c.checkForward(w, o, evs, st)
		}
	}
	for _, over := range []bool{false, true} {
		for _, reply := range []int{0, 1} {
			m := &inMsg{action: "MoreHops", next: true, nextID: true, over: over, encd: true, reply: reply}
			for _, before := range [][]op{{}, {{kind: "reg", typ: 64, h: "ha"}}} {
				w.play(append(append([]op(nil), before...), op{kind: "msg", m: m}), check)
			}
			// The same after an earlier message.
			for _, e := range earlierMsgs() {
				// Most of what it consists of may be the same.
				for _, same := range []string{"", "next", "blinding", "encrypted", "onion", "override"} {
					n := *m
					n.id, n.same = 1, same
					w.play([]op{{kind: "reg", typ: 64, h: "ha"}, {kind: "msg", m: e}, {kind: "msg", m: &n}}, check)
				}
			}
		}
	}
}

// earlierMsgs: messages (with id 0) to handle before the one that is checked.
func earlierMsgs() []*inMsg {
	return []*inMsg{
		{action: "MoreHops", next: true, nextID: true, encd: true},
		{action: "MoreHops", next: true, nextID: true, encd: true, over: true, reply: 1},
		{action: "MoreHops", next: true, nextID: true, encd: true, fwfail: "send"},
		{action: "MoreHops", next: true, nextID: true, encd: true, fwfail: "ephemeral"},
		{action: "MoreHops", next: true, encd: true},
		{action: "ExitNode", finals: []int64{64}, encd: true, reply: 1},
	}
}

// forwardable: the message is one that has to be passed on.
func (m *inMsg) forwardable() bool {
	return m.stage == "" && m.action == "MoreHops" && m.next && m.nextID && m.encd && len(m.finals) == 0 && (m.fwfail == "" || m.fwfail == "send")
}

func (c *Ctx) checkForward(w *msgr, o op, evs []*Event, st *State) {
	m := o.m
	c.checkProcessed(w, "forward", w.site, o, evs, st)
	c.liveCtx("context", w.site, st.Events())
	hs, sends, other := effects(evs)
	c.Ob(len(hs) == 0 && len(other) == 0, "forward", w.site, noPos, "%v: other calls are made", o)
	if !c.Ob(len(sends) == 1, "forward", w.site, noPos, "%v: %d messages are sent", o, len(sends)) {
		return
	}
	point := func(k *Term) bool { return isKeyOf(k, m.sym("blinding", 33)) }
	var dec, eph *Event
	for _, e := range evs {
		if e.Name == "sphinx.DecryptBlindedData" {
			dec = e
		}
	}
	// It may have been derived before.
	for _, e := range st.Events() {
		if e.Name == "sphinx.NextEphemeral" && e.Arg(0) == w.ecdh && point(e.Arg(1)) && !e.Failed {
			eph = e
		}
	}
	if c.Ob(dec != nil, "forward", w.site, noPos, "%v: the route data is not decrypted", o) {
		c.Ob(dec.Arg(0) == w.ecdh && point(dec.Arg(1)) && dec.Arg(2) == m.sym("encrypted", -1), "decrypt", w.site, dec.Pos, "%v: the route data is decrypted from %v", o, dec.Args)
	}
	var blind *Term
	if m.over {
		blind = m.sym("override", 33)
	} else if c.Ob(eph != nil, "blinding", w.site, noPos, "%v: the next blinding point is not derived from the node's key and the message's blinding point", o) {
		blind = encT("pub33", st.Freeze(eph.Res[0]))
	} else {
		return
	}
	e := sends[0]
	msg := e.Args[len(e.Args)-1]
	peer := msg.Field("Peer")
	c.Ob(sameKeyBytes(peer, m.sym("next", 33)), "peer", w.site, e.Pos, "%v: sent to %v", o, peer)
	mt, isC := constInt64(msg.Field("MsgType"))
	c.Ob(isC && mt == 513, "type", w.site, e.Pos, "%v: sent as type %v", o, msg.Field("MsgType"))
	next := Sym(fmt.Sprintf("msg%d.nextpacket", m.id), structField(c.R.ExtType(sphinxPath, "ProcessedPacket"), "NextPacket"))
	pkt := encT("onionpkt", pubTerm(next))
	if ps := contentParts(msg.Field("Data")); m.over && len(ps) > 0 && sameKeyBytes(ps[0], blind) {
		blind = ps[0]
	}
	want := catT(blind, encT("be16", lenT(pkt)), pkt)
	got := msg.Field("Data")
	c.Ob(got == want, "content", w.site, e.Pos, "%v: %s", o, diffStr(got, want))
}

// sameKeyBytes: the 33 bytes are raw, or raw parsed and serialised again.
func sameKeyBytes(t, raw *Term) bool {
	return t == raw || t.Op == "enc" && t.S == "pub33" && isKeyOf(t.Args[0], raw)
}

func msgrForwardRefuse(c *Ctx) {
	w := c.newMessenger("refuse")
	full := func(f func(m *inMsg)) *inMsg {
		m := &inMsg{action: "MoreHops", next: true, nextID: true, encd: true}
		f(m)
		return m
	}
	cases := []struct {
		what string
		m    *inMsg
	}{
		{"with final payloads", full(func(m *inMsg) { m.finals = []int64{64} })},
		{"with final payloads and no other data", full(func(m *inMsg) { m.finals = []int64{65, 66}; m.encd = false })},
		{"without a next onion", full(func(m *inMsg) { m.next = false })},
		{"without encrypted data", full(func(m *inMsg) { m.encd = false })},
		{"without a next node", full(func(m *inMsg) { m.nextID = false })},
		{"with only an override", full(func(m *inMsg) { m.nextID = false; m.over = true })},
		{"that can not be decrypted", full(func(m *inMsg) { m.fwfail = "decrypt" })},
		{"whose route data is malformed", full(func(m *inMsg) { m.fwfail = "routedata" })},
		{"whose next blinding point can not be derived", full(func(m *inMsg) { m.fwfail = "ephemeral" })},
		{"whose next onion can not be encoded", full(func(m *inMsg) { m.fwfail = "encode" })},
		{"that failed", &inMsg{action: "Failure", next: true, nextID: true, encd: true}},
		{"for us", &inMsg{action: "ExitNode", next: true, nextID: true, encd: true}},
		{"whose processing failed", full(func(m *inMsg) { m.stage = "process" })},
		{"that was seen before", full(func(m *inMsg) { m.stage = "replay" })},
		{"whose payload is malformed", full(func(m *inMsg) { m.stage = "payload" })},
		{"whose onion is malformed", full(func(m *inMsg) { m.stage = "onion" })},
		{"that is malformed", full(func(m *inMsg) { m.stage = "envelope" })},
		{"that is empty", full(func(m *inMsg) { m.stage = "nothing" })},
	}
	for _, k := range cases {
		for _, before := range [][]op{{}, {{kind: "reg", typ: 64, h: "ha"}}} {
			w.play(append(append([]op(nil), before...), op{kind: "msg", m: k.m}), func(o op, table map[int64]string, evs []*Event, st *State) {
				if o.kind != "msg" {
					return
				}
				_, sends, _ := effects(evs)
				c.Ob(len(sends) == 0, "refuse", w.site, noPos, "a message %s is forwarded", k.what)
			})
		}
	}
}

// ---- robustness ----

func badMessages() []*inMsg {
	var ms []*inMsg
	for _, st := range []string{"nothing", "envelope", "onion", "process", "replay", "payload"} {
		ms = append(ms, &inMsg{stage: st, action: "ExitNode", encd: true})
	}
	for _, f := range []string{"decrypt", "routedata", "ephemeral", "encode", "send"} {
		ms = append(ms, &inMsg{action: "MoreHops", next: true, nextID: true, encd: true, fwfail: f})
	}
	ms = append(ms,
		&inMsg{action: "MoreHops", next: true, nextID: true, encd: true, finals: []int64{64}},
		&inMsg{action: "MoreHops", nextID: true, encd: true},
		&inMsg{action: "MoreHops", next: true},
		&inMsg{action: "MoreHops", next: true, encd: true},
		&inMsg{action: "Failure"}, &inMsg{action: "other"},
		&inMsg{action: "ExitNode", finals: []int64{64, 66}, hfail: map[int64]bool{64: true}},
		&inMsg{action: "ExitNode"},
		&inMsg{action: "ExitNode", finals: []int64{1000}},
	)
	return ms
}

func msgrSurvive(c *Ctx) {
	w := c.newMessenger("survive")
	good := &inMsg{id: 1, action: "ExitNode", finals: []int64{64}, encd: true}
	noShutdown := func(o op, table map[int64]string, evs []*Event, st *State) {
		for _, e := range evs {
			c.Ob(e.Name != "dyn "+w.shut.S, "survive", w.site, e.Pos, "%v: a shutdown is requested", o)
		}
		if o.kind == "msg" && o.m.id == 1 {
			c.checkDelivery("survive", w.site, o, table, evs, st)
		}
	}
	ms := badMessages()
	for i, m := range ms {
		w.play([]op{{kind: "reg", typ: 64, h: "ha"}, {kind: "msg", m: m}, {kind: "msg", m: good}}, noShutdown)
		w.play([]op{{kind: "msg", m: m}}, noShutdown)
		n := ms[(i+1)%len(ms)]
		w.play([]op{{kind: "msg", m: m}, {kind: "msg", m: m}, {kind: "msg", m: m}, {kind: "msg", m: n}, {kind: "reg", typ: 64, h: "ha"}, {kind: "msg", m: good}}, noShutdown)
		if c.Thorough {
			for _, n := range ms {
				w.play([]op{{kind: "reg", typ: 64, h: "ha"}, {kind: "msg", m: m}, {kind: "msg", m: n}, {kind: "msg", m: good}}, noShutdown)
			}
		}
	}
}

func msgrForeign(c *Ctx) {
	w := c.newMessenger("foreign")
	t := Sym("msgtype", types.Typ[types.Uint32])
	m := &inMsg{msgType: t, action: "ExitNode", finals: []int64{64}, encd: true}
	w.st.must(eqT(t, IntT(513)), false)
	for _, stage := range []string{"", "anything"} {
		m.stage = stage
		w.play([]op{{kind: "reg", typ: 64, h: "ha"}, {kind: "msg", m: m}}, func(o op, table map[int64]string, evs []*Event, st *State) {
			if o.kind != "msg" {
				return
			}
			for _, e := range evs {
				c.Ob(e.Kind != "call", "foreign", w.site, e.Pos, "a message of another type leads to %s", e.Name)
			}
			c.Ob(true, "foreign", w.site, noPos, "")
		})
	}
}

// ---- registration ----

func (c *Ctx) answers(evs []*Event) []*Term {
	var r []*Term
	for _, e := range evs {
		if e.Kind == "client" {
			r = append(r, e.Arg(0))
		}
	}
	return r
}

func msgrRegister(c *Ctx) {
	w := c.newMessenger("history")
	var ops []op
	for _, t := range []int64{64, 65} {
		ops = append(ops, op{kind: "reg", typ: t, h: fmt.Sprintf("h%d", t)}, op{kind: "dereg", typ: t})
	}
	check := func(o op, table map[int64]string, evs []*Event, st *State) {
		if o.kind == "msg" {
			c.checkDelivery("history", w.site, o, table, evs, st)
			return
		}
		as := c.answers(evs)
		if !c.Ob(len(as) == 1, "answer", w.site, noPos, "%v gets %d answers", o, len(as)) {
			return
		}
		a := as[0]
		switch {
		case o.kind == "reg" && table[o.typ] != "":
			c.Ob(c.In.IsErr(a, "@/onionmsg.ErrHandlerRegistered"), "answer", w.site, noPos, "%v with %v registered: %v", o, table, a)
		case o.kind == "dereg" && table[o.typ] == "":
			c.Ob(c.In.IsErr(a, "@/onionmsg.ErrHandlerNotFound"), "answer", w.site, noPos, "%v with %v registered: %v", o, table, a)
		default:
			c.Ob(a == NilT, "answer", w.site, noPos, "%v with %v registered: %v", o, table, a)
		}
		for _, e := range evs {
			c.Ob(e.Kind != "send" || e.Name == "send", "answer", w.site, e.Pos, "%v: the event loop waits for the caller to take its answer", o)
			c.Ob(e.Kind != "call" || !strings.HasPrefix(e.Name, "dyn h"), "answer", w.site, e.Pos, "%v: a handler is called", o)
		}
	}
	depth := 3
	if c.Thorough {
		depth = 5
	}
	probe := op{kind: "msg", m: &inMsg{action: "ExitNode", finals: []int64{64, 65}}}
	var rec func(h []op)
	rec = func(h []op) {
		if len(h) > 0 {
			w.play(append(append([]op(nil), h...), probe), check)
		}
		if len(h) == depth {
			return
		}
		for i, o := range ops {
			if o.kind == "reg" {
				o.h = fmt.Sprintf("h%d%c", o.typ, 'a'+len(h))
			}
			_ = i
			rec(append(append([]op(nil), h...), o))
		}
	}
	rec(nil)
}

func msgrRegisterRefuse(c *Ctx) {
	in := c.In
	w := c.newMessenger("refuse")
	for _, name := range []string{"RegisterHandler", "DeregisterHandler"} {
		fn := c.R.Method("onionmsg", "Messenger", name)
		t := Sym("type", fn.Params[1].Type())
		mkArgs := func(m Val) []Val {
			args := []Val{m, t}
			if len(fn.Params) > 2 {
				args = append(args, w.handler("ha", fn.Params[2].Type()))
			}
			return args
		}
		park := func(in *Interp, s *State, sel *SelInfo) ([]SelChoice, bool) {
			return []SelChoice{{St: s, Stop: true}}, true
		}
		in.With(&Scenario{ExtOK: true, Select: park}, func() {
			// Types outside of the range, on a messenger that runs.
			for _, o := range in.Call(w.st.fork(), fn, mkArgs(w.m)) {
				iv := o.St.interval(t)
				low := iv.Hi != nil && iv.Hi.Cmp(big.NewInt(64)) < 0
				high := iv.Lo != nil && iv.Lo.Cmp(big.NewInt(64)) >= 0
				if !c.Ob(low || high, "range", fnName(fn), fn.Pos(), "types %v are treated alike", iv) {
					continue
				}
				switch {
				case low:
					c.Ob(o.Kind == Ret && failed(o) && in.IsErr(errT(o), "@/lnwire.ErrNotFinalPayload"), "range", fnName(fn), fn.Pos(), "a type below 64 is not refused (%v)", o.Kind)
				default:
					c.Ob(o.Kind == Parked, "range", fnName(fn), fn.Pos(), "a type of 64 or above is not passed on (%v)", o.Kind)
				}
			}
			// Before the start.
			s := in.Start()
			nm := c.R.Func("onionmsg", "NewOnionMessenger")
			var args []Val
			for i := 0; i < nm.Signature.Params().Len(); i++ {
				p := nm.Signature.Params().At(i)
				args = append(args, Sym(p.Name(), p.Type()))
			}
			for _, n := range c.run("not-started", s, nm, args) {
				n.St.must(ltT(t, IntT(64)), false)
				for _, o := range in.Call(n.St, fn, mkArgs(n.Vals[0])) {
					c.Ob(o.Kind == Ret && failed(o) && in.IsErr(errT(o), "@/onionmsg.ErrNotStarted"), "not-started", fnName(fn), fn.Pos(), "before the start: %v", o.Kind)
				}
			}
		})
	}
}

// msgrRegisterReturns: once the loop has ended, or the messenger is stopped,
// registration calls still return.
func msgrRegisterReturns(c *Ctx) {
	in := c.In
	type ending struct {
		what string
		w    *msgr
		outs []Out
	}
	var ends []ending
	for _, how := range []string{"the subscription fails", "the message stream ends", "the error stream ends", "the stream fails"} {
		w := c.newMessenger("return")
		outs := w.end(how)
		ends = append(ends, ending{how, w, outs})
	}
	for _, e := range ends {
		c.Ob(len(e.outs) > 0, "return", e.w.site, noPos, "%s: the event loop does not end", e.what)
		for _, o := range e.outs {
			if !c.Ob(o.Kind == Ret, "return", e.w.site, o.Pos, "%s: the event loop ends with %v", e.what, o.Kind) {
				continue
			}
			for _, k := range []op{{kind: "reg", typ: 64, h: "ha"}, {kind: "dereg", typ: 64}} {
				in.With(&Scenario{ExtOK: true, Select: e.w.sel}, func() {
					rs := e.w.callRegistration(o.St, nil, k, nil)
					c.Ob(len(rs) > 0, "return", e.w.site, noPos, "%s: %v has no outcome", e.what, k)
					for _, r := range rs {
						if !c.Ob(r.Kind == Ret, "return", e.w.site, r.Pos, "%s: %v never returns", e.what, k) {
							continue
						}
						c.Ob(failed(r) && in.IsErr(errT(r), "@/onionmsg.ErrShuttingDown"), "return", e.w.site, r.Pos, "%s: %v reports %v", e.what, k, errT(r))
					}
				})
			}
		}
	}
	// Stopped: with the loop gone, or while it still runs.
	w := c.newMessenger("return")
	stop := c.R.Method("onionmsg", "Messenger", "Stop")
	in.With(&Scenario{ExtOK: true, Select: w.sel}, func() {
		for _, s := range c.run("return", w.st.fork(), stop, []Val{w.m}) {
			for _, k := range []op{{kind: "reg", typ: 64, h: "ha"}, {kind: "dereg", typ: 64}} {
				for _, r := range w.callRegistration(s.St, nil, k, nil) {
					if c.Ob(r.Kind == Ret, "return", w.site, r.Pos, "after the stop: %v never returns", k) {
						c.Ob(failed(r) && in.IsErr(errT(r), "@/onionmsg.ErrShuttingDown"), "return", w.site, r.Pos, "after the stop: %v reports %v", k, errT(r))
					}
				}
			}
		}
		// A request that was handed over when the messenger stops: the
		// caller must not wait for the loop.
		for _, k := range []op{{kind: "reg", typ: 64, h: "ha"}, {kind: "dereg", typ: 64}} {
			w.script = []op{k}
			handed := false
			in.With(&Scenario{ExtOK: true, Call: w.calls, Select: func(in *Interp, s *State, sel *SelInfo) ([]SelChoice, bool) {
				var out []SelChoice
				for i, cs := range sel.Cases {
					if cs.Send {
						for _, o := range in.Call(s.fork(), stop, []Val{w.m}) {
							if o.Kind == Ret {
								handed = true
								out = append(out, SelChoice{St: o.St, Idx: i})
							}
						}
						continue
					}
					if ready(s, cs.Chan) {
						for _, rc := range in.recvChoices(s, cs.Chan, cs.T) {
							out = append(out, SelChoice{St: rc.St, Idx: i, Val: rc.Val, Ok: rc.Ok})
						}
					}
				}
				return out, true
			}}, func() {
				fn := c.R.Method("onionmsg", "Messenger", map[string]string{"reg": "RegisterHandler", "dereg": "DeregisterHandler"}[k.kind])
				args := []Val{w.m, ConstT(IntT(64).C, fn.Params[1].Type())}
				if len(fn.Params) > 2 {
					args = append(args, w.handler("ha", fn.Params[2].Type()))
				}
				for _, o := range in.Call(w.st.fork(), fn, args) {
					c.Ob(o.Kind == Ret, "return", fnName(fn), o.Pos, "%v: a caller whose request was handed over when the messenger stops never returns", k)
				}
				c.Ob(handed, "return", fnName(fn), fn.Pos(), "the request is not handed over")
			})
		}
	})
}

// end runs the loop to its end.
func (w *msgr) end(how string) []Out {
	c, in := w.c, w.c.In
	w.script = nil
	w.subErr = how == "the subscription fails"
	sel := func(in *Interp, s *State, sel *SelInfo) ([]SelChoice, bool) {
		i := caseOf(sel, isElem("lndclient.CustomMessage"))
		if i < 0 {
			return nil, false
		}
		j := caseOf(sel, func(k SelCase) bool {
			_, sym := k.Chan.(*Term)
			return !k.Send && sym && typeName(k.T) == "error"
		})
		switch how {
		case "the message stream ends":
			return []SelChoice{{St: s.fork(), Idx: i, Val: zero(sel.Cases[i].T), Ok: false}}, true
		case "the error stream ends":
			if j >= 0 {
				return []SelChoice{{St: s.fork(), Idx: j, Val: NilT, Ok: false}}, true
			}
		case "the stream fails":
			if j >= 0 {
				e := c.In.extErr("stream error")
				in.nonNil[e.id] = true
				return []SelChoice{{St: s.fork(), Idx: j, Val: e, Ok: true}}, true
			}
		case "stop":
			var out []SelChoice
			for i, k := range sel.Cases {
				if !k.Send && ready(s, k.Chan) {
					for _, rc := range in.recvChoices(s, k.Chan, k.T) {
						out = append(out, SelChoice{St: rc.St, Idx: i, Val: rc.Val, Ok: rc.Ok})
					}
				}
			}
			return out, true
		}
		return nil, true
	}
	var outs []Out
	c.In.With(&Scenario{ExtOK: true, LoopK: 4, Call: w.calls, Select: sel}, func() {
		st := w.st.fork()
		if how == "stop" {
			var o []Out
			in.muted(func() { o = c.run(w.rule, st, c.R.Method("onionmsg", "Messenger", "Stop"), []Val{w.m}) })
			ok, _ := split(o)
			if len(ok) != 1 {
				panic(Undecided{"stop"})
			}
			st = ok[0].St
		}
		w.ended = st.event(&Event{Kind: "mark"})
		outs = c.In.Call(st, w.loop.Fn, w.args, w.loop.Bind...)
	})
	return outs
}

var _ *ssa.Function
