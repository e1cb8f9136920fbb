package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sub drives a subscription through a history: what happens whenever it waits.
type sub struct {
	*srv
	steps    []string // "message", "client gives up", "server stops"
	hops     int      // of the reply paths, 0: varied
	sendFail int      // the response whose sending fails, -1: none
	busy     int      // messages that arrive while the first response is sent
	typ      *Term
	atDereg  func(s *State)
	// site of the handler
	hsite string
	hpos  posT
}

func (c *Ctx) newSub(rule string) *sub {
	w := &sub{srv: c.newServer(rule).started(), sendFail: -1}
	w.call = w.hooks
	return w
}

func (w *sub) count(s *State, k string) int {
	if v, ok := s.ghost[k]; ok && v != nil {
		if n, ok := constInt64(v); ok {
			return int(n)
		}
	}
	return 0
}

func (w *sub) inc(s *State, k string) int {
	n := w.count(s, k)
	s.setGhost(k, IntT(int64(n+1)))
	return n
}

func (w *sub) message(s *State, i int) (replyPath Val, spec *pathSpec, payload *Term) {
	// Message 1 has no reply path; the others have two hops, none, three.
	payload = Sym(fmt.Sprintf("%spayload%d", w.era, i), bytesT)
	if i == 1 {
		return NilT, nil, payload
	}
	n := (i + 2) % 4
	if w.hops > 0 {
		n = w.hops
	}
	p, spec := w.c.namedPath(s, fmt.Sprintf("%sreply%d", w.era, i), n)
	return p, spec, payload
}

// deliver has the messenger call the subscription's handler.
func (w *sub) deliver(s *State, consumer *SelInfo) []Out {
	h, ok := s.ghost["handler"].(*FuncV)
	if !ok || h.Fn == nil {
		panic(Undecided{"the registered handler"})
	}
	st := s.fork()
	i := w.inc(st, "delivered")
	rp, _, pl := w.message(st, i)
	st.event(&Event{Kind: "mark", Name: "deliver", Args: []*Term{IntT(int64(i))}})
	w.hsite, w.hpos = fnName(w.c.R.Method("rpcserver", "Server", "SubscribeOnionPayload")), h.Fn.Pos()
	st.setGhost("handling", BoolT(true))
	old := w.c.In.sc.Select
	w.c.In.sc.Select = func(in *Interp, s *State, sel *SelInfo) ([]SelChoice, bool) {
		out := pick(in, s, sel, false)
		// A rendezvous with the waiting subscription.
		if consumer != nil && len(out) == 0 {
			for i, c := range sel.Cases {
				if c.Send && caseOf(consumer, func(l SelCase) bool { return !l.Send && sameChan(l.Chan, c.Chan) }) >= 0 {
					n := s.fork()
					if r, ok := c.Chan.(*ChanRef); ok {
						cv := *n.heap[r.Obj].(*ChanV)
						if len(cv.Queue) == 0 {
							cv.Queue = []Val{c.Val}
							n.setHeap(r.Obj, &cv)
							out = append(out, SelChoice{St: n, Idx: i})
						}
					}
				}
			}
		}
		if len(out) == 0 {
			// The handler waits.
			out = append(out, SelChoice{St: s.fork(), Stop: true})
		}
		return out, true
	}
	outs := w.c.In.Call(st, h.Fn, append(w.bound(h), rp, st.newBytes(Sym("encrypted", bytesT)), st.newBytes(pl)), h.Bind...)
	w.c.In.sc.Select = old
	for _, o := range outs {
		o.St.setGhost("handling", nil)
	}
	return outs
}

func (w *sub) bound(h *FuncV) []Val { return nil }

func (w *sub) hooks(in *Interp, s *State, ci *CallInfo) ([]Out, bool) {
	switch {
	case ci.Name == "(*@/onionmsg.Messenger).RegisterHandler":
		if w.fail == "register" {
			return nil, false
		}
		s.event(&Event{Kind: "call", Name: ci.Name, Args: s.FreezeAll(ci.Args), Raw: ci.Args, Pos: ci.Pos, Fn: ci.Caller, Instr: ci.Instr})
		s.setGhost("handler", ci.Args[2])
		return ret(s, NilT), true
	case ci.Name == "(*@/onionmsg.Messenger).DeregisterHandler":
		if w.atDereg != nil {
			w.atDereg(s)
		}
		return nil, false
	case ci.Method == "Send" || ci.Method == "SendMsg":
		k := w.inc(s, "sent")
		var outs []Out
		states := []*State{s}
		if k == 0 && w.busy > 0 {
			// Messages arrive while the response is on its way, until one
			// has to wait.
			var done []*State
			for i := 0; i < w.busy; i++ {
				var next []*State
				for _, st := range states {
					for _, o := range w.deliver(st, nil) {
						if o.Kind != Ret {
							done = append(done, st)
						} else if w.c.Ob(!failed(o), "deliver", w.hsite, o.Pos, "a message that arrives while a response is sent is refused with %v", errT(o)) {
							next = append(next, o.St)
						}
					}
				}
				states = next
			}
			states = append(done, states...)
		}
		for _, st := range states {
			bad := k == w.sendFail
			st.event(&Event{Kind: "call", Name: "Send", Args: st.FreezeAll(ci.Args), Raw: ci.Args, Pos: ci.Pos, Fn: ci.Caller, Instr: ci.Instr, Failed: bad})
			if bad {
				outs = append(outs, ret(st, in.envErr("stream failed"))...)
			} else {
				outs = append(outs, ret(st, NilT)...)
			}
		}
		return outs, true
	}
	return nil, false
}

// sel: the subscription waits.
func (w *sub) sel(in *Interp, s *State, sel *SelInfo) ([]SelChoice, bool) {
	states := []*State{s}
	var out []SelChoice
	for d := 0; len(states) > 0 && d < 20; d++ {
		var next []*State
		for _, st := range states {
			if cs := pick(in, st, sel, false); len(cs) > 0 {
				out = append(out, cs...)
				continue
			}
			st.newEra(sel.Instr)
			k := w.inc(st, "step")
			if k >= len(w.steps) {
				out = append(out, SelChoice{St: st, Stop: true})
				// Time passes, and limits that the code has set run out.
				if w.count(st, "late") == 0 {
					for _, c := range sel.Cases {
						if ch, ok := c.Chan.(*Term); ok && !c.Send && ch.Op == "done" && timed(ch.Args[0]) {
							n := st.fork()
							w.inc(n, "late")
							endCtx(n, ch.Args[0])
							next = append(next, n)
						}
					}
				}
				continue
			}
			next = append(next, w.step(st, w.steps[k], sel)...)
		}
		states = next
	}
	return out, true
}

// timed: the context ends by itself.
func timed(x *Term) bool {
	for x != nil && x.Op == "ctx" {
		if strings.HasPrefix(x.S, "timeout") {
			return true
		}
		if len(x.Args) == 0 {
			break
		}
		x = x.Args[0]
	}
	return false
}

func (w *sub) step(st *State, step string, sel *SelInfo) []*State {
	var next []*State
	switch step {
	case "message":
		for _, o := range w.deliver(st, sel) {
			if w.c.Ob(o.Kind == Ret, "deliver", w.hsite, o.Pos, "a message for a waiting subscription: the handler ends in %v (%s)", o.Kind, o.Why) {
				w.c.Ob(!failed(o), "deliver", w.hsite, o.Pos, "a message for a waiting subscription is refused with %v", errT(o))
				next = append(next, o.St)
			}
		}
	case "client gives up":
		n := st.fork()
		endCtx(n, w.ctx())
		next = append(next, n)
	case "server stops":
		n := st.fork()
		for _, o := range w.c.run(w.rule, n, w.c.R.Method("rpcserver", "Server", "Stop"), []Val{w.s}) {
			next = append(next, o.St)
		}
	default:
		panic(Undecided{step})
	}
	return next
}

func (w *sub) stream() *Term {
	fn := w.c.R.Method("rpcserver", "Server", "SubscribeOnionPayload")
	t := Sym(w.era+"stream", fn.Params[2].Type())
	w.c.In.nonNil[t.id] = true
	return t
}

// run has a client subscribe.
func (w *sub) run(typ *Term, each func(o Out, evs []*Event)) {
	fn := w.c.R.Method("rpcserver", "Server", "SubscribeOnionPayload")
	rt := w.c.R.Type("offersrpc", "SubscribeOnionPayloadRequest")
	s := w.st.fork()
	w.typ = typ
	req := s.obj(rt, map[string]Val{"TlvType": typ})
	w.c.In.With(&Scenario{Call: w.calls, Select: w.sel, Recv: recvPick(false), LoopK: 20}, func() {
		m := s.event(&Event{Kind: "mark"})
		s.newEra(nil)
		outs := w.c.In.Call(s, fn, []Val{w.s, req, w.stream()})
		w.c.Ob(len(outs) > 0, w.rule, fnName(fn), fn.Pos(), "the subscription has no outcome")
		for _, o := range outs {
			if o.Kind == Truncated {
				w.c.undecided(w.rule, fnName(fn), o.Pos, o.Why)
				continue
			}
			each(o, o.St.EventsSince(m))
		}
	})
}

// subEras are subscriptions that another one may find on the server.
var subEras = []string{"is waiting", "has a message waiting", "has ended", "has ended with a message waiting", "was refused", "for the same type has ended with a message waiting"}

// earlier is the server with another client's subscription.
func (w *sub) earlier(era string) *sub {
	if era == "" {
		return w
	}
	w.era = "early."
	typ := typeConst(w.c, 202)
	if strings.HasPrefix(era, "for the same type") {
		typ = typeConst(w.c, 101)
	}
	w.steps = []string{"message"}
	waiting := strings.HasSuffix(era, "message waiting")
	ended := strings.Contains(era, "has ended")
	switch {
	case era == "was refused":
		w.fail = "register"
	case ended && !waiting:
		w.steps = append(w.steps, "client gives up")
	case ended:
		// The message arrives while a response can not be sent.
		w.sendFail, w.busy = 0, 1
	}
	var found *State
	w.run(typ, func(o Out, evs []*Event) {
		if found == nil && (o.Kind == Parked) == !(ended || w.fail != "") {
			found = o.St
		}
	})
	if found == nil {
		panic(Undecided{"no subscription that " + era})
	}
	if waiting && !ended {
		// One that is not waited for.
		w.c.In.With(&Scenario{Call: w.calls, LoopK: 20}, func() {
			for _, o := range w.deliver(found, nil) {
				if o.Kind == Ret {
					found = o.St
				}
			}
		})
	}
	w.st = found
	for _, k := range []string{"step", "delivered", "sent", "late", "handler", "handling"} {
		w.st.setGhost(k, nil)
	}
	w.era, w.fail, w.steps, w.sendFail, w.busy = "", "", nil, -1, 0
	return w
}

func afterSub(era string) string {
	if era == "" {
		return ""
	}
	return ", with an earlier subscription that " + era
}

func typeConst(c *Ctx, n int64) *Term {
	return ConstT(IntT(n).C, structField(c.R.Type("offersrpc", "SubscribeOnionPayloadRequest"), "TlvType"))
}

const regH, deregH = "(*@/onionmsg.Messenger).RegisterHandler", "(*@/onionmsg.Messenger).DeregisterHandler"

func subRequest(c *Ctx) {
	site := fnName(c.R.Method("rpcserver", "Server", "SubscribeOnionPayload"))
	// Any type.
	typ := Sym("type", structField(c.R.Type("offersrpc", "SubscribeOnionPayloadRequest"), "TlvType"))
	ok, bad := 0, 0
	for _, low := range []bool{true, false} {
		w := c.newSub("request")
		w.st.must(ltT(typ, IntT(64)), low)
		w.run(typ, func(o Out, evs []*Event) {
			regs := find(evs, named(regH))
			switch {
			case low:
				bad++
				c.Ob(len(regs) == 0, "request", site, noPos, "a type that is reserved for hops is subscribed to")
				if c.Ob(o.Kind == Ret && failed(o), "request", site, noPos, "a type that is reserved for hops is accepted") {
					c.code("request", site, noPos, errT(o), 3, "a type that is reserved for hops")
				}
			default:
				if c.Ob(len(regs) == 1, "request", site, noPos, "a type in the final range is registered %d times (%v, %s)", len(regs), o.Kind, o.Why) {
					c.Ob(stripConv(regs[0].Arg(1)).String() == typ.String(), "request", site, regs[0].Pos, "%v is subscribed to", regs[0].Arg(1))
					ok++
				}
			}
		})
	}
	c.Ob(ok > 0 && bad > 0, "request", site, noPos, "types are not told apart")
	// A registration that is refused.
	w := c.newSub("request")
	w.fail = "register"
	w.run(typeConst(c, 101), func(o Out, evs []*Event) {
		if c.Ob(o.Kind == Ret && failed(o), "refused", site, o.Pos, "a subscription that is refused goes on (%v)", o.Kind) {
			_, has, known := c.In.codeOf(errT(o))
			c.Ob(known && has, "refused", site, o.Pos, "a subscription that is refused ends with %v, which carries no code", errT(o))
		}
		c.Ob(len(find(evs, named(deregH))) == 0, "refused", site, noPos, "a handler is removed that was not registered")
		c.Ob(len(find(evs, named("Send"))) == 0, "refused", site, noPos, "a response is sent without subscription")
	})
}

func (w *sub) responses(c *Ctx, what string, st *State, evs []*Event, want int) {
	site := fnName(c.R.Method("rpcserver", "Server", "SubscribeOnionPayload"))
	sends := find(evs, named("Send"))
	if !c.Ob(len(sends) == want, "deliver", site, noPos, "%s: %d responses to %d messages", what, len(sends), want) {
		return
	}
	for i, e := range sends {
		_, spec, pl := w.message(w.st.fork(), i)
		r := derefAll(e.Args[len(e.Args)-1])
		c.Ob(r.Field("Value") == pl, "value", site, e.Pos, "%s: response %d holds %v", what, i, r.Field("Value"))
		if spec == nil {
			c.Ob(r.Field("ReplyPath") == NilT, "reply-path", site, e.Pos, "%s: response %d has reply path %v", what, i, r.Field("ReplyPath"))
		} else if c.Ob(r.Field("ReplyPath") != NilT, "reply-path", site, e.Pos, "%s: response %d lacks the reply path", what, i) {
			c.checkRPCPath("reply-path", site, e.Pos, r.Field("ReplyPath"), spec, what)
		}
	}
}

// once: one registration and one removal, of the same type.
func (w *sub) once(c *Ctx, what string, evs []*Event) {
	site := fnName(c.R.Method("rpcserver", "Server", "SubscribeOnionPayload"))
	rs, ds := find(evs, named(regH)), find(evs, named(deregH))
	if c.Ob(len(rs) == 1 && len(ds) == 1, "pairing", site, noPos, "%s: %d registrations, %d removals", what, len(rs), len(ds)) {
		c.Ob(rs[0].Arg(1) == ds[0].Arg(1), "pairing", site, ds[0].Pos, "%s: %v is registered, %v removed", what, rs[0].Arg(1), ds[0].Arg(1))
		c.Ob(before(rs[0], ds[0]), "pairing", site, ds[0].Pos, "%s: removed before it is registered", what)
		for _, e := range find(evs, named("Send")) {
			c.Ob(before(e, ds[0]), "pairing", site, e.Pos, "%s: a response is sent after the handler's removal", what)
		}
	}
}

func subDeliver(c *Ctx) {
	max := 3
	if c.Thorough {
		max = 6
	}
	site := fnName(c.R.Method("rpcserver", "Server", "SubscribeOnionPayload"))
	for k := 0; k <= max+3*len(subEras); k++ {
		n, era := k, ""
		if k > max {
			n, era = (k-max-1)%3, subEras[(k-max-1)/3]
		}
		w := c.newSub("deliver").earlier(era)
		for i := 0; i < n; i++ {
			w.steps = append(w.steps, "message")
		}
		what := fmt.Sprintf("%d messages", n) + afterSub(era)
		w.run(typeConst(c, 101), func(o Out, evs []*Event) {
			c.Ob(o.Kind == Parked, "deliver", site, o.Pos, "%s: the subscription ends in %v", what, o.Kind)
			w.responses(c, what, o.St, evs, n)
			c.Ob(len(find(evs, named(deregH))) == 0, "deliver", site, o.Pos, "%s: the handler is removed while the subscription lives", what)
		})
	}
	// A message that arrives while a response is on its way.
	for busy := 1; busy <= 3; busy++ {
		w := c.newSub("deliver")
		w.steps = []string{"message"}
		w.busy = busy
		w.run(typeConst(c, 101), func(o Out, evs []*Event) {
			c.Ob(o.Kind == Parked, "deliver", site, o.Pos, "the subscription ends in %v", o.Kind)
			n := w.count(o.St, "delivered")
			c.Ob(n > 1, "absorb", site, o.Pos, "a message has to wait for the response to the previous one")
			w.responses(c, fmt.Sprintf("%d messages in a row", n), o.St, evs, n)
		})
	}
	// Long reply paths.
	for _, n := range c.sizes(3, 120, "rpcserver") {
		w := c.newSub("deliver")
		w.hops = n
		w.steps = []string{"message"}
		w.run(typeConst(c, 101), func(o Out, evs []*Event) {
			c.Ob(o.Kind == Parked, "deliver", site, o.Pos, "a reply path of %d hops: the subscription ends in %v", n, o.Kind)
			w.responses(c, fmt.Sprintf("a message with a reply path of %d hops", n), o.St, evs, 1)
		})
	}
}

func subEnd(c *Ctx) {
	site := fnName(c.R.Method("rpcserver", "Server", "SubscribeOnionPayload"))
	for k := 0; k <= 2+2*len(subEras); k++ {
		n, era := k, ""
		if k > 2 {
			n, era = (k-3)%2, subEras[(k-3)/2]
		}
		for _, how := range []string{"client gives up", "server stops", "the stream fails"} {
			for _, dereg := range []bool{false, true} {
				w := c.newSub("end").earlier(era)
				if dereg {
					w.fail = "deregister"
				}
				for i := 0; i < n; i++ {
					w.steps = append(w.steps, "message")
				}
				want := int64(1)
				switch how {
				case "server stops":
					want = 10
					w.steps = append(w.steps, how)
				case "client gives up":
					w.steps = append(w.steps, how)
				default:
					if n == 0 {
						continue
					}
					w.sendFail = n - 1
				}
				what := fmt.Sprintf("%s after %d messages", how, n) + afterSub(era)
				w.run(typeConst(c, 101), func(o Out, evs []*Event) {
					if !c.Ob(o.Kind == Ret, "end", site, o.Pos, "%s: the subscription does not end: %v", what, o.Kind) {
						return
					}
					w.once(c, what, evs)
					w.responses(c, what, o.St, evs, n)
					if !c.Ob(failed(o), "end", site, o.Pos, "%s: the subscription ends without an error", what) {
						return
					}
					if how == "the stream fails" {
						e := errT(o)
						for e.Op == "errorf" && len(e.Args) == 1 {
							e = e.Args[0]
						}
						_, has, _ := c.In.codeOf(errT(o))
						c.Ob(has || e == c.In.envErr("stream failed"), "end", site, o.Pos, "%s: the subscription ends with %v", what, errT(o))
					} else {
						c.code("end", site, o.Pos, errT(o), want, what)
					}
				})
			}
		}
	}
}

// subEscape: the handler runs on the messenger's event loop.
func subEscape(c *Ctx) {
	site := fnName(c.R.Method("rpcserver", "Server", "SubscribeOnionPayload"))
	probe := func(s *State, w *sub, what string, k int) {
		for i := 0; i < k; i++ {
			var n *State
			for _, o := range w.deliver(s, nil) {
				if !c.Ob(o.Kind == Ret, "escape", site, w.hpos, "%s: the handler of message %d blocks the messenger (%v)", what, i, o.Kind) {
					continue
				}
				n = o.St
			}
			if n == nil {
				return
			}
			s = n
		}
	}
	// While it is removed, however the subscription ends, and after it.
	for _, how := range []string{"client gives up", "server stops", "the stream fails"} {
		w := c.newSub("escape")
		w.steps = []string{"message", how}
		if how == "the stream fails" {
			w.steps = []string{"message"}
			w.sendFail = 0
		}
		probes := 0
		w.atDereg = func(s *State) {
			probes++
			probe(s.fork(), w, how+", while the handler is removed", 4)
		}
		w.run(typeConst(c, 101), func(o Out, evs []*Event) {
			if o.Kind == Ret {
				probe(o.St.fork(), w, how+", after the subscription has ended", 4)
			}
		})
		c.Ob(probes > 0, "escape", site, noPos, "%s: the handler is not removed", how)
	}
	// While a response is sent: messages that can not be taken wait at most
	// until the client or the server ends.
	for _, how := range []string{"client gives up", "server stops"} {
		w := c.newSub("escape")
		w.steps = []string{"message"}
		stalls := 0
		old := w.call
		w.call = func(in *Interp, s *State, ci *CallInfo) ([]Out, bool) {
			if ci.Method != "Send" {
				return old(in, s, ci)
			}
			st := s.fork()
			for i := 0; i < 3; i++ {
				var n *State
				for _, o := range w.deliver(st, nil) {
					switch o.Kind {
					case Ret:
						n = o.St
					case Parked:
						stalls++
						c.Ob(i > 0, "absorb", site, w.hpos, "the handler makes the messenger wait with the first message that arrives while a response is sent")
						for _, e := range w.step(o.St.fork(), how, nil) {
							if o.Why == "select" && w.escapes(e) {
								continue
							}
							c.Ob(false, "escape", site, w.hpos, "%s while a response is sent: the handler of another message never returns", how)
						}
					default:
						c.Ob(false, "escape", site, w.hpos, "a message while a response is sent: %v (%s)", o.Kind, o.Why)
					}
				}
				if n == nil {
					break
				}
				st = n
			}
			c.Ob(true, "escape", site, w.hpos, "")
			return old(in, s, ci)
		}
		w.run(typeConst(c, 101), func(o Out, evs []*Event) {})
		c.Ob(stalls == 0, "stall", site, w.hpos, "the handler makes the messenger wait while a subscriber takes its time to receive a response")
	}
}

// escapes: the select that a parked handler waits at has a case that is ready.
func (w *sub) escapes(s *State) bool {
	var last *Event
	for _, e := range s.Events() {
		switch {
		case e.Kind == "mark" && e.Name == "deliver":
			last = nil
		case e.Kind == "select":
			last = e
		}
	}
	if last == nil {
		return false
	}
	for _, a := range last.Args {
		if a.S != "recv" {
			continue
		}
		ch := a.Args[0]
		if ch.Op == "done" && s.ctxClosed(ch.Args[0]) {
			return true
		}
		if w.closedChan(s, ch) {
			return true
		}
	}
	return false
}

func (w *sub) closedChan(s *State, ch *Term) bool {
	for o, v := range s.heap {
		if cv, ok := v.(*ChanV); ok && cv.Closed && s.Freeze(&ChanRef{Obj: o}) == ch {
			return true
		}
	}
	return false
}

// ---- permissions ----

func rpcPermissions(c *Ctx) {
	it, ok := c.R.Type("offersrpc", "OffersServer").Underlying().(*types.Interface)
	if !ok {
		panic(Undecided{"the service interface"})
	}
	fn := c.R.Method("boltnd", "Boltnd", "Permissions")
	site := "rpc permissions"
	want := map[string]bool{}
	for i := 0; i < it.NumMethods(); i++ {
		if m := it.Method(i); m.Exported() {
			want["/offersrpc.Offers/"+m.Name()] = true
		}
	}
	c.In.With(&Scenario{}, func() {
		s := c.In.Start()
		b := s.obj(c.R.Type("boltnd", "Boltnd"), nil)
		for _, o := range c.run("table", s, fn, []Val{b}) {
			ref, ok := o.Vals[0].(*MapRef)
			if !ok {
				panic(Undecided{fmt.Sprintf("the permission table is %T", o.Vals[0])})
			}
			mv, ok := o.St.heap[ref.Obj].(*MapV)
			if !ok || mv.Base != nil {
				panic(Undecided{"the permission table is not constant"})
			}
			have := map[string]bool{}
			for _, e := range mv.Ents {
				k, ok := e.K.(*Term)
				name, isS := constStr(k)
				if !ok || !isS {
					panic(Undecided{"the permission table's keys"})
				}
				c.Ob(want[name], "table", site, fn.Pos(), "%s is no method of the service", name)
				have[name] = true
				ops, ok := o.St.Freeze(e.V).Elems()
				if !ok {
					panic(Undecided{"the permissions of " + name})
				}
				c.Ob(len(ops) > 0, "table", site, fn.Pos(), "%s can be called without any permission", name)
				wantEnt, wantAct := "offchain", "read"
				if strings.HasSuffix(name, "/SendOnionMessage") {
					wantEnt, wantAct = "peers", "write"
				}
				own := false
				for _, op := range ops {
					ent, ok1 := constStr(op.Field("Entity"))
					act, ok2 := constStr(op.Field("Action"))
					c.Ob(ok1 && ok2 && lndEntities[ent], "table", site, fn.Pos(), "%s requires a permission for the entity %q, which lnd does not have", name, ent)
					c.Ob(ok1 && ok2 && (act == "read" || act == "write" || act == "generate"), "table", site, fn.Pos(), "%s requires the action %q, which lnd does not have", name, act)
					own = own || ent == wantEnt && act == wantAct
				}
				c.Ob(own, "own", site, fn.Pos(), "%s can be called without permission to %s %s", name, wantAct, wantEnt)
			}
			for n := range want {
				c.Ob(have[n], "table", site, fn.Pos(), "%s has no permissions (%v)", n, have)
			}
		}
	})
	// The generated descriptor names the same methods.
	c.Ob(len(want) > 0, "table", site, noPos, "the service has no methods")
}

var lndEntities = map[string]bool{"onchain": true, "offchain": true, "address": true, "message": true, "peers": true, "info": true, "invoices": true, "signer": true, "macaroon": true, "uri": true}

func rpcValidate(c *Ctx) {
	fn := c.R.Method("boltnd", "Boltnd", "ValidateMacaroon")
	site := fnName(fn)
	c.In.With(&Scenario{Select: selPick(true)}, func() {
		s := c.In.Start()
		bt := c.R.Type("boltnd", "Boltnd")
		b := Sym("boltnd", types.NewPointer(bt))
		c.In.nonNil[b.id] = true
		args := []Val{b}
		var ctx *Term
		for _, p := range fn.Params[1:] {
			a := Sym("arg "+p.Type().String(), p.Type())
			c.In.nonNil[a.id] = true
			if typeName(p.Type()) == "context.Context" {
				ctx = a
			}
			args = append(args, a)
		}
		m := s.event(&Event{Kind: "mark"})
		for _, o := range c.run("validate", s, fn, args) {
			if failed(o) {
				continue
			}
			checked := false
			for _, e := range o.St.EventsSince(m) {
				if e.Kind != "call" || e.Failed {
					continue
				}
				for _, a := range e.Args {
					a.Walk(func(t *Term) bool { checked = checked || t == ctx; return true })
				}
			}
			c.Ob(checked, "validate", site, fn.Pos(), "a call is let through without looking at its macaroon")
		}
	})
}

var _ *ssa.Function
