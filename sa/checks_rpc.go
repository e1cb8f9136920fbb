package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "S01", Title: "rpc server life cycle", Floor: 40,
		Rule: "Abstract interpretation of every rpc before, during and after the server's start, and of the server's start and stop: order of effects, state at the moment readiness is announced, and the code of the refusal.",
		Run: func(c *Ctx) {
			c.Guard("not-ready", func() { rpcNotReady(c) })
			c.Guard("start", func() { rpcStart(c) })
			c.Guard("stop", func() { rpcStop(c) })
		},
	})
	register(&Check{
		ID: "S02", Title: "send rpc", Floor: 200,
		Rule: "Abstract interpretation of the send rpc for every shape of request and every answer of the messenger: provenance of each field of the internal request, code of each refusal, effects of refused requests.",
		Run: func(c *Ctx) {
			c.Guard("request", func() { rpcSend(c) })
			c.Guard("types", func() { rpcSendTypes(c) })
			c.Guard("result", func() { rpcSendResult(c) })
		},
	})
	register(&Check{
		ID: "S03", Title: "subscription rpc: what is delivered", Floor: 60,
		Rule: "Abstract interpretation of the subscription rpc driven by histories of deliveries, failures and cancellations: provenance of each response, registrations, and the code of the result.",
		Run: func(c *Ctx) {
			c.Guard("request", func() { subRequest(c) })
			c.Guard("deliver", func() { subDeliver(c) })
			c.Guard("end", func() { subEnd(c) })
		},
	})
	register(&Check{
		ID: "S04", Title: "subscription rpc: never blocks the messenger", Floor: 20,
		Rule: "Abstract interpretation of the subscription's handler at every point of the subscription's life, with nobody taking its messages: it has to return, or be waiting for channels that the client's and the server's end close.",
		Run: func(c *Ctx) {
			c.Guard("escape", func() { subEscape(c) })
		},
	})
	register(&Check{
		ID: "S05", Title: "offer decoding rpc", Floor: 60,
		Rule: "Abstract interpretation of the offer decoding rpc for every combination of the offer's optional fields: provenance of each field of the response, code of each failure.",
		Run: func(c *Ctx) {
			c.Guard("decode", func() { rpcDecode(c) })
		},
	})
	register(&Check{
		ID: "S06", Title: "route rpc", Floor: 40,
		Rule: "Abstract interpretation of the route rpc for feature lists of every length up to the bound with arbitrary values: provenance of the requested features and of each field of the response, code of each failure.",
		Run: func(c *Ctx) {
			c.Guard("route", func() { rpcRoute(c) })
		},
	})
	register(&Check{
		ID: "S07", Title: "permissions", Floor: 12,
		Rule: "Evaluation of the permission table on the program's initialisation, against the methods of the generated service interface; analysis of the macaroon validation for paths that accept without a check.",
		Run: func(c *Ctx) {
			c.Guard("table", func() { rpcPermissions(c) })
			c.Guard("validate", func() { rpcValidate(c) })
		},
	})
}

// srv is an rpc server made by its own constructor.
type srv struct {
	c    *Ctx
	rule string
	s    Val
	st   *State
	shut *Term
	lnd  Val
	args map[string]*Term
	// what the dependencies are
	msgr, gen, ecdh *Term
	// era starts the names of an earlier client's symbols.
	era string
	// fail names the dependency call that fails.
	fail string
	// more hooks, consulted first.
	call func(in *Interp, s *State, ci *CallInfo) ([]Out, bool)
}

func (c *Ctx) newServer(rule string) *srv {
	in := c.In
	w := &srv{c: c, rule: rule, args: map[string]*Term{}}
	nf := c.R.Func("rpcserver", "NewServer")
	s := in.Start()
	if nf.Signature.Params().Len() != 1 {
		panic(Undecided{"the server's constructor"})
	}
	w.shut = Sym("shutdown", nf.Signature.Params().At(0).Type())
	in.nonNil[w.shut.id] = true
	outs := c.run(rule, s, nf, []Val{w.shut})
	ok, bad := split(outs)
	if len(ok) != 1 || len(bad) != 0 {
		panic(Undecided{"the server's constructor has more than one outcome"})
	}
	w.s, w.st = ok[0].Vals[0], ok[0].St
	ls := c.R.ExtType(lndclientPath, "LndServices")
	f := map[string]Val{}
	for _, n := range []string{"Client", "Signer", "ChainParams"} {
		a := Sym("lnd."+n, structField(ls, n))
		in.nonNil[a.id] = true
		f[n], w.args[n] = a, a
	}
	w.lnd = w.st.obj(ls, f)
	w.msgr = c.psym("messenger", c.R.Type("onionmsg", "Messenger"))
	w.gen = c.psym("generator", c.R.Type("routes", "BlindedRouteGenerator"))
	w.ecdh = c.psym("nodekey", c.R.Type("onionmsg", "NodeECDH"))
	return w
}

// calls models the server's dependencies.
func (w *srv) calls(in *Interp, s *State, ci *CallInfo) ([]Out, bool) {
	if w.call != nil {
		if o, ok := w.call(in, s, ci); ok {
			return o, ok
		}
	}
	ev := func(vals ...Val) ([]Out, bool) {
		e := &Event{Kind: "call", Name: ci.Name, Args: s.FreezeAll(ci.Args), Raw: ci.Args, Res: vals, Pos: ci.Pos, Fn: ci.Caller, Instr: ci.Instr}
		s.event(e)
		return ret(s, vals...), true
	}
	mayFail := func(name string, vals ...Val) ([]Out, bool) {
		if w.fail == name {
			s.event(&Event{Kind: "call", Name: ci.Name, Args: s.FreezeAll(ci.Args), Raw: ci.Args, Pos: ci.Pos, Fn: ci.Caller, Instr: ci.Instr, Failed: true})
			vs := zeros(ci.Sig)
			vs[len(vs)-1] = in.envErr(name)
			return ret(s, vs...), true
		}
		return ev(append(vals, NilT)...)
	}
	switch ci.Name {
	case "@/onionmsg.NewNodeECDH":
		return mayFail("ecdh", w.ecdh)
	case "(*@/onionmsg.NodeECDH).PubKey":
		return ret(s, w.c.key("node")), true
	case "@/routes.NewBlindedRouteGenerator":
		return ev(w.gen)
	case "@/onionmsg.NewOnionMessenger":
		return ev(w.msgr)
	case "(*@/onionmsg.Messenger).Start":
		return mayFail("start")
	case "(*@/onionmsg.Messenger).Stop":
		return mayFail("stop")
	case "(*@/onionmsg.Messenger).SendMessage":
		return mayFail("send")
	case "(*@/onionmsg.Messenger).RegisterHandler":
		return mayFail("register")
	case "(*@/onionmsg.Messenger).DeregisterHandler":
		return mayFail("deregister")
	case "(*@/routes.BlindedRouteGenerator).ReplyPath":
		return mayFail("route", Sym("route", ci.Sig.Results().At(0).Type()))
	}
	if ci.Method == "Context" {
		return ret(s, w.ctx()), true
	}
	return nil, false
}

func (w *srv) ctx() *Term {
	t := w.c.R.Func("rpcserver", "handleSubscribeOnionPayload").Params[0].Type()
	x := Sym(w.era+"ctx", t)
	w.c.In.nonNil[x.id] = true
	return x
}

// started is the server after a successful start.
func (w *srv) started() *srv {
	fn := w.c.R.Method("rpcserver", "Server", "Start")
	w.c.In.With(&Scenario{Call: w.calls}, func() {
		ok, _ := split(w.c.run(w.rule, w.st, fn, []Val{w.s, w.lnd}))
		if len(ok) != 1 {
			panic(Undecided{fmt.Sprintf("the server's start has %d successful outcomes", len(ok))})
		}
		w.st = ok[0].St
	})
	return w
}

// pick chooses among the cases of a select that are ready. With ends the
// contexts may end now.
func pick(in *Interp, s *State, sel *SelInfo, ends bool) []SelChoice {
	var out []SelChoice
	for i, c := range sel.Cases {
		if c.Send {
			if r, ok := c.Chan.(*ChanRef); ok {
				cv := s.heap[r.Obj].(*ChanV)
				if n, isC := constInt64(cv.Cap); isC && int64(len(cv.Queue)) < n && !cv.Closed {
					st := s.fork()
					nc := *cv
					nc.Queue = append(append([]Val(nil), cv.Queue...), c.Val)
					st.setHeap(r.Obj, &nc)
					out = append(out, SelChoice{St: st, Idx: i})
				}
			}
			continue
		}
		switch ch := c.Chan.(type) {
		case *ChanRef:
			if !ready(s, ch) {
				continue
			}
		case *Term:
			switch {
			case ch.Op == "timer":
			case ch.Op == "done" && (ends || s.ctxClosed(ch.Args[0])):
			default:
				continue
			}
		}
		for _, rc := range in.recvChoices(s, c.Chan, c.T) {
			out = append(out, SelChoice{St: rc.St, Idx: i, Val: rc.Val, Ok: rc.Ok})
		}
	}
	if len(out) == 0 && !sel.Blocking {
		out = append(out, SelChoice{St: s.fork(), Idx: -1})
	}
	return out
}

func selPick(ends bool) func(in *Interp, s *State, sel *SelInfo) ([]SelChoice, bool) {
	return func(in *Interp, s *State, sel *SelInfo) ([]SelChoice, bool) { return pick(in, s, sel, ends), true }
}

// recvPick is the same for plain receives.
func recvPick(ends bool) func(in *Interp, s *State, ch Val, commaOk bool, t types.Type) ([]RecvChoice, bool) {
	return func(in *Interp, s *State, ch Val, commaOk bool, t types.Type) ([]RecvChoice, bool) {
		if _, ok := ch.(*ChanRef); ok && !ready(s, ch) {
			return nil, true
		}
		if x, ok := ch.(*Term); ok && x.Op == "done" && !ends && !s.ctxClosed(x.Args[0]) {
			return nil, true
		}
		return nil, false
	}
}

// endCtx ends a context.
func endCtx(s *State, ctx *Term) {
	s.ownFacts()
	s.bools[mk(nil, "closed", "", mk(nil, "done", "", ctx)).id] = true
}

// rpcs lists the service's methods.
func (c *Ctx) rpcs() []*ssa.Function {
	it, ok := c.R.Type("offersrpc", "OffersServer").Underlying().(*types.Interface)
	if !ok {
		panic(Undecided{"the service interface"})
	}
	var r []*ssa.Function
	for i := 0; i < it.NumMethods(); i++ {
		if m := it.Method(i); m.Exported() {
			r = append(r, c.R.Method("rpcserver", "Server", m.Name()))
		}
	}
	return r
}

// rpcArgs are arbitrary arguments for an rpc.
func (w *srv) rpcArgs(fn *ssa.Function) []Val {
	args := []Val{w.s}
	for _, p := range fn.Params[1:] {
		if typeName(p.Type()) == "context.Context" {
			args = append(args, w.ctx())
			continue
		}
		a := Sym(p.Name(), p.Type())
		w.c.In.nonNil[a.id] = true
		args = append(args, a)
	}
	return args
}

// effect: calls that leave the server.
func isEffect(e *Event) bool {
	if e.Kind == "go" || e.Kind == "send" || e.Kind == "sel-send" || e.Kind == "close" {
		return true
	}
	return e.Kind == "call" && (strings.Contains(e.Name, "onionmsg.") || strings.Contains(e.Name, "routes.") || strings.Contains(e.Name, "offers.") ||
		e.Name == "invoke Send" || strings.HasPrefix(e.Name, "dyn "))
}

func (c *Ctx) code(rule, site string, pos posT, e *Term, want int64, what string) {
	k, has, known := c.In.codeOf(e)
	if !known {
		// The error is passed on as it is.
		c.Ob(false, rule, site, pos, "%s: fails with %s, which carries no code", what, trunc(fmt.Sprint(e), 200))
		return
	}
	n, isC := constInt64(k)
	c.Ob(has && isC && n == want, rule, site, pos, "%s: fails with code %v of %s, want %d", what, k, trunc(fmt.Sprint(e), 200), want)
}

func rpcNotReady(c *Ctx) {
	fns := c.rpcs()
	c.Ob(len(fns) > 0, "not-ready", "service", noPos, "the service has no methods")
	for _, fn := range fns {
		site := fnName(fn)
		// Never started, started without success.
		for _, how := range []string{"", "ecdh", "start"} {
			w := c.newServer("not-ready")
			w.fail = how
			st := w.st
			if how != "" {
				c.In.With(&Scenario{Call: w.calls}, func() {
					start := c.R.Method("rpcserver", "Server", "Start")
					outs := c.run("not-ready", w.st, start, []Val{w.s, w.lnd})
					c.expectErr("start", fnName(start), start.Pos(), outs, "", "a start whose "+how+" step fails")
					if len(outs) != 1 {
						panic(Undecided{"start"})
					}
					st = outs[0].St
				})
			}
			c.In.With(&Scenario{Call: w.calls, Select: selPick(true), Recv: recvPick(true)}, func() {
				m := st.event(&Event{Kind: "mark"})
				outs := c.In.Call(st, fn, w.rpcArgs(fn))
				n := 0
				for _, o := range outs {
					c.Ob(o.Kind != Panicked, "not-ready", site, o.Pos, "before the server is ready: panics (%s)", o.Why)
					for _, e := range o.St.EventsSince(m) {
						c.Ob(!isEffect(e), "not-ready", site, e.Pos, "before the server is ready: %s", e.Name)
					}
					switch o.Kind {
					case Truncated:
						c.undecided("not-ready", site, o.Pos, o.Why)
					case Ret:
						if !c.Ob(failed(o), "not-ready", site, o.Pos, "before the server is ready: succeeds") {
							continue
						}
						c.code("not-ready", site, o.Pos, errT(o), 14, "before the server is ready")
						c.Ob(o.St.ctxClosed(w.ctx()), "not-ready", site, o.Pos, "before the server is ready: the rpc does not wait")
						n++
					}
				}
				c.Ob(n > 0, "not-ready", site, noPos, "a caller that gives up before the server is ready is not told that it is unavailable")
			})
		}
	}
}

func rpcStart(c *Ctx) {
	start := c.R.Method("rpcserver", "Server", "Start")
	site := fnName(start)
	w := c.newServer("start")
	srvT := structOf(c.R.Type("rpcserver", "Server"))
	fields := func(s *State) []Val {
		v, ok := c.In.load(s, w.s.(*Ptr)).(*StructV)
		if !ok {
			panic(Undecided{"the server's fields"})
		}
		return v.Fields
	}
	var at []Val
	closes := 0
	in := c.In
	in.With(&Scenario{Call: w.calls, OnClose: func(s *State, ch Val) {
		closes++
		at = append([]Val(nil), fields(s)...)
		c.Ob(len(find(s.Events(), named("(*@/onionmsg.Messenger).Start"))) == 1, "start", site, noPos, "readiness is announced before the messenger is started")
	}}, func() {
		m := w.st.event(&Event{Kind: "mark"})
		outs := c.run("start", w.st, start, []Val{w.s, w.lnd})
		ok, bad := split(outs)
		if !c.Ob(len(ok) == 1 && len(bad) == 0, "start", site, start.Pos(), "%d succeeding and %d failing paths", len(ok), len(bad)) {
			return
		}
		o := ok[0]
		evs := o.St.EventsSince(m)
		if c.Ob(closes == 1, "start", site, start.Pos(), "readiness is announced %d times", closes) {
			for i, v := range fields(o.St) {
				c.Ob(!isNilV(at[i]) || isNilV(v), "start", site, start.Pos(), "readiness is announced before %s is set", srvT.Field(i).Name())
			}
		}
		one := func(name string) *Event {
			es := find(evs, named(name))
			if c.Ob(len(es) == 1, "wiring", site, start.Pos(), "%s is called %d times", name, len(es)) {
				return es[0]
			}
			return nil
		}
		has := func(e *Event, what string, ts ...*Term) {
			for _, t := range ts {
				n := 0
				for _, a := range e.Args {
					if a == t {
						n++
					}
				}
				c.Ob(n == 1, "wiring", site, e.Pos, "%s is not given %v", what, t)
			}
		}
		if e := one("@/onionmsg.NewNodeECDH"); e != nil {
			has(e, "the node key", w.args["Client"], w.args["Signer"])
		}
		if e := one("@/routes.NewBlindedRouteGenerator"); e != nil {
			has(e, "the route generator", w.args["Client"], c.key("node"))
		}
		if e := one("@/onionmsg.NewOnionMessenger"); e != nil {
			has(e, "the messenger", w.args["Client"], w.args["ChainParams"], w.ecdh, w.shut)
		}
		one("(*@/onionmsg.Messenger).Start")
		rmw := find(evs, func(e *Event) bool { return isOnce(e) })
		c.Ob(len(rmw) > 0, "once", site, start.Pos(), "two concurrent starts are not told apart atomically")
		m2 := o.St.event(&Event{Kind: "mark"})
		again := c.run("start", o.St, start, []Val{w.s, w.lnd})
		c.expectErr("start", site, start.Pos(), again, "", "a second start")
		for _, p := range again {
			for _, e := range p.St.EventsSince(m2) {
				c.Ob(!isEffect(e), "start", site, e.Pos, "a second start has effects: %s", e.Name)
			}
		}
	})
	for _, f := range []string{"ecdh", "start"} {
		w := c.newServer("start")
		w.fail = f
		in.With(&Scenario{Call: w.calls, OnClose: func(s *State, ch Val) {
			c.Ob(false, "start", site, noPos, "a channel is closed by a start whose %s step fails", f)
		}}, func() {
			c.expectErr("start", site, start.Pos(), c.run("start", w.st, start, []Val{w.s, w.lnd}), "", "a start whose "+f+" step fails")
		})
	}
}

// isOnce: an operation that at most one of several concurrent callers passes.
func isOnce(e *Event) bool {
	n := e.Name
	if e.Kind == "atomic" {
		return strings.Contains(n, "cas") || strings.Contains(n, "swap") || strings.Contains(n, "add")
	}
	return e.Kind == "call" && (strings.Contains(n, "Mutex).Lock") || strings.Contains(n, "Once).Do"))
}

func rpcStop(c *Ctx) {
	stop := c.R.Method("rpcserver", "Server", "Stop")
	site := fnName(stop)
	for _, how := range []string{"never started", "started", "start failed", "messenger stop fails"} {
		w := c.newServer("stop")
		switch how {
		case "started":
			w.started()
		case "messenger stop fails":
			w.started()
			w.fail = "stop"
		case "start failed":
			w.fail = "start"
			c.In.With(&Scenario{Call: w.calls}, func() {
				outs := c.run("stop", w.st, c.R.Method("rpcserver", "Server", "Start"), []Val{w.s, w.lnd})
				if len(outs) != 1 {
					panic(Undecided{"start"})
				}
				w.st = outs[0].St
			})
		}
		c.In.With(&Scenario{Call: w.calls}, func() {
			m := w.st.event(&Event{Kind: "mark"})
			for _, o := range c.run("stop", w.st, stop, []Val{w.s}) {
				evs := o.St.EventsSince(m)
				cl := find(evs, func(e *Event) bool { return e.Kind == "close" })
				ms := find(evs, named("(*@/onionmsg.Messenger).Stop"))
				c.Ob(len(cl) == 1, "stop", site, stop.Pos(), "%s: %d channels are closed", how, len(cl))
				c.Ob(len(find(evs, isOnce)) > 0, "once", site, stop.Pos(), "two concurrent stops are not told apart atomically")
				if how == "never started" {
					c.Ob(len(ms) == 0 && !failed(o), "stop", site, stop.Pos(), "%s: %v", how, errT(o))
				} else {
					if c.Ob(len(ms) == 1, "stop", site, stop.Pos(), "%s: the messenger is stopped %d times", how, len(ms)) {
						c.Ob(before(first(cl), ms[0]), "stop", site, stop.Pos(), "%s: subscriptions are not ended before the messenger is stopped", how)
					}
					c.Ob(failed(o) == (how == "messenger stop fails"), "stop", site, stop.Pos(), "%s: %v", how, errT(o))
				}
				m2 := o.St.event(&Event{Kind: "mark"})
				again := c.run("stop", o.St, stop, []Val{w.s})
				c.expectErr("stop", site, stop.Pos(), again, "", "a second stop")
				for _, p := range again {
					for _, e := range p.St.EventsSince(m2) {
						c.Ob(!isEffect(e), "stop", site, e.Pos, "a second stop has effects: %s", e.Name)
					}
				}
			}
		})
	}
}

// ---- paths ----

// rpcPath makes a path as it arrives over rpc.
func (c *Ctx) rpcPath(s *State, name string, hops int) (Val, *pathSpec) {
	p := &pathSpec{first: Sym(name+".first", bytesT), point: Sym(name+".point", bytesT)}
	ht := c.R.Type("offersrpc", "BlindedHop")
	var vs []Val
	for i := 0; i < hops; i++ {
		id, d := Sym(fmt.Sprintf("%s.hop%d", name, i), bytesT), Sym(fmt.Sprintf("%s.data%d", name, i), bytesT)
		var dv Val = s.newBytes(d)
		if hops > 1 && i == hops-1 {
			// The last hop has no data of its own.
			d, dv = StrT(""), NilT
		}
		p.ids, p.data = append(p.ids, id), append(p.data, d)
		vs = append(vs, s.obj(ht, map[string]Val{"BlindedNodeId": s.newBytes(id), "EncryptedData": dv}))
	}
	return s.obj(c.R.Type("offersrpc", "BlindedPath"), map[string]Val{
		"IntroductionNode": s.newBytes(p.first), "BlindingPoint": s.newBytes(p.point),
		"Hops": s.newSlice(types.NewPointer(ht), vs...),
	}), p
}

// checkRPCPath compares a path of a response with the internal one.
func (c *Ctx) checkRPCPath(rule, site string, pos posT, got *Term, p *pathSpec, what string) {
	got = derefAll(got)
	ser := func(k *Term) *Term { return encT("pub33", k) }
	c.Ob(got.Field("IntroductionNode") == ser(p.first), rule, site, pos, "%s: introduction node %s", what, trunc(fmt.Sprint(got.Field("IntroductionNode")), 200))
	c.Ob(got.Field("BlindingPoint") == ser(p.point), rule, site, pos, "%s: blinding point %s", what, trunc(fmt.Sprint(got.Field("BlindingPoint")), 200))
	hs, ok := got.Field("Hops").Elems()
	if got.Field("Hops") == NilT {
		hs, ok = nil, true
	}
	if !c.Ob(ok && len(hs) == len(p.ids), rule, site, pos, "%s: %v instead of %d hops", what, got.Field("Hops"), len(p.ids)) {
		return
	}
	for i, h := range hs {
		h = derefAll(h)
		c.Ob(h.Field("BlindedNodeId") == ser(p.ids[i]), rule, site, pos, "%s: hop %d is %v", what, i, h.Field("BlindedNodeId"))
		c.Ob(sameData(h.Field("EncryptedData"), p.data[i]), rule, site, pos, "%s: data of hop %d is %v", what, i, h.Field("EncryptedData"))
	}
}

// ---- send ----

type sendShape struct {
	peer     string // "nil", "empty", "set"
	blinded  int    // hops, -1: absent
	reply    int
	payloads int
	direct   bool
	era      string
}

// rpcEras are the calls that an rpc may be preceded by.
var rpcEras = []string{"send", "send fails", "send to peer", "send to same peer", "send to same path", "send refused", "decode", "decode fails", "route", "route fails", "same route"}

func afterEra(era string) string {
	if era == "" {
		return ""
	}
	return ", after an earlier call (" + era + ")"
}

// earlier is the server after another call, with arguments of its own.
func (w *srv) earlier(era string) *srv {
	if era == "" {
		return w
	}
	c := w.c
	var fn *ssa.Function
	var req Val
	fails := strings.HasSuffix(era, "fails") || strings.HasSuffix(era, "refused")
	was := w.call
	defer func() { w.call, w.fail = was, "" }()
	switch {
	case strings.HasPrefix(era, "send"):
		fn = c.R.Method("rpcserver", "Server", "SendOnionMessage")
		sh := sendShape{"nil", 1, 1, 2, true, ""}
		peer, dest := "early.", "early."
		switch era {
		case "send to peer":
			sh.peer, sh.blinded = "set", -1
		case "send to same peer":
			sh.peer, sh.blinded, peer = "set", -1, ""
		case "send to same path":
			dest = ""
		case "send refused":
			sh.peer = "set"
		case "send fails":
			w.fail = "send"
		}
		req, _, _ = w.sendRequest(sh, peer, dest, "early.")
	case strings.HasPrefix(era, "decode"):
		fn = c.R.Method("rpcserver", "Server", "DecodeOffer")
		w.call = func(in *Interp, s *State, ci *CallInfo) ([]Out, bool) {
			if ci.Name != decodeOfferStr {
				return nil, false
			}
			v, _, _, _, _ := c.anOffer(s, 15, "early.")
			return in.errFork(s, ci, ci.Name, s.FreezeAll(ci.Args), v), true
		}
		str := Sym("early.offerstring", stringT)
		w.st.must(ltT(IntT(0), lenT(str)), true)
		req = w.st.obj(c.R.Type("offersrpc", "DecodeOfferRequest"), map[string]Val{"Offer": str})
	default:
		fn = c.R.Method("rpcserver", "Server", "GenerateBlindedRoute")
		w.call = func(in *Interp, s *State, ci *CallInfo) ([]Out, bool) {
			if ci.Name != replyPath {
				return nil, false
			}
			r, _ := c.aRoute(s, 2, "early.")
			return in.errFork(s, ci, ci.Name, s.FreezeAll(ci.Args), r), true
		}
		rt := c.R.Type("offersrpc", "GenerateBlindedRouteRequest")
		et := structField(rt, "Features").Underlying().(*types.Slice).Elem()
		t := Sym("early.feature", et)
		if era == "same route" {
			t = Sym("feature0", et)
		}
		w.st.must(ltT(IntT(65535), t), false)
		req = w.st.obj(rt, map[string]Val{"Features": w.st.newSlice(et, t)})
	}
	c.In.With(&Scenario{Call: w.calls, Select: selPick(false), LoopK: 20, MaxLen: 8}, func() {
		m := w.st.event(&Event{Kind: "mark"})
		for _, o := range c.run(w.rule, w.st, fn, []Val{w.s, w.ctx(), req}) {
			bad := len(find(o.St.EventsSince(m), func(e *Event) bool { return e.Failed })) > 0
			if failed(o) == fails && (bad == fails || era == "send refused") {
				w.st = o.St
				return
			}
		}
		panic(Undecided{"no earlier call: " + era})
	})
	return w
}

// sendRequest is a request to send a message; peer, to and pre start the names
// of what it consists of.
func (w *srv) sendRequest(sh sendShape, peer, to, pre string) (Val, *pathSpec, *pathSpec) {
	c, s := w.c, w.st
	f := map[string]Val{"DirectConnect": BoolT(sh.direct)}
	switch sh.peer {
	case "empty":
		f["Pubkey"] = s.newBytes(StrT(""))
	case "set":
		t := Sym(peer+"peer", bytesT)
		s.must(ltT(IntT(0), lenT(t)), true)
		f["Pubkey"] = s.newBytes(t)
	}
	var dest, reply *pathSpec
	if sh.blinded >= 0 {
		f["BlindedDestination"], dest = c.rpcPath(s, to+"dest", sh.blinded)
	}
	if sh.reply >= 0 {
		f["ReplyPath"], reply = c.rpcPath(s, pre+"reply", sh.reply)
	}
	rt := c.R.Type("offersrpc", "SendOnionMessageRequest")
	mt := structField(rt, "FinalPayloads").Underlying().(*types.Map)
	mv := &MapV{KT: mt.Key(), VT: mt.Elem()}
	for i := 0; i < sh.payloads; i++ {
		mv.Ents = append(mv.Ents, MapEnt{K: ConstT(IntT(int64(64+37*i)).C, mt.Key()), V: s.newBytes(Sym(fmt.Sprintf("%sfinal%d", pre, i), bytesT))})
	}
	if sh.payloads > 0 {
		f["FinalPayloads"] = &MapRef{Obj: s.alloc(mv)}
	}
	return s.obj(rt, f), dest, reply
}

const (
	decodeOfferStr = "@/offers.DecodeOfferStr"
	replyPath      = "(*@/routes.BlindedRouteGenerator).ReplyPath"
)

func rpcSend(c *Ctx) {
	fn := c.R.Method("rpcserver", "Server", "SendOnionMessage")
	site := fnName(fn)
	max := 2
	if c.Thorough {
		max = 4
	}
	var shapes []sendShape
	for _, peer := range []string{"nil", "empty", "set"} {
		for b := -1; b <= max; b++ {
			for _, r := range []int{-1, 0, 1, max} {
				for p := 0; p <= max; p++ {
					shapes = append(shapes, sendShape{peer, b, r, p, (b+r+p)%2 == 0, ""})
				}
			}
		}
	}
	for _, era := range rpcEras {
		for _, sh := range []sendShape{{"set", -1, 1, 1, false, era}, {"set", -1, -1, 0, true, era}, {"nil", 1, 1, 2, true, era}, {"nil", 2, -1, 0, false, era}, {"nil", -1, -1, 0, false, era}} {
			shapes = append(shapes, sh)
		}
	}
	for _, n := range c.sizes(4, 120, "rpcserver", "onionmsg") {
		shapes = append(shapes, sendShape{"set", -1, n, 1, true, ""}, sendShape{"nil", n, -1, 1, false, ""}, sendShape{"set", -1, -1, n, false, ""})
	}
	for _, sh := range shapes {
		sh := sh
		w := c.newServer("request").started().earlier(sh.era)
		s := w.st
		req, dest, reply := w.sendRequest(sh, "", "", "")
		peer := Sym("peer", bytesT)
		what := fmt.Sprintf("peer %s, %d blinded hops, reply path of %d hops, %d payloads", sh.peer, sh.blinded, sh.reply, sh.payloads) + afterEra(sh.era)
		valid := (sh.peer == "set") != (sh.blinded >= 0) && sh.blinded != 0
		c.In.With(&Scenario{Call: w.calls, Select: selPick(false), LoopK: 130, MaxLen: 130}, func() {
			m := s.event(&Event{Kind: "mark"})
			succeeded := 0
			for _, o := range c.run("request", s, fn, []Val{w.s, w.ctx(), req}) {
				evs := o.St.EventsSince(m)
				sends := find(evs, named("(*@/onionmsg.Messenger).SendMessage"))
				bad := len(find(evs, func(e *Event) bool { return e.Failed })) > 0
				if !valid || bad {
					c.Ob(len(sends) == 0, "refuse", site, noPos, "%s: an invalid request (%s) is sent", what, o.St.FactString())
					if c.Ob(failed(o), "refuse", site, noPos, "%s: an invalid request is accepted", what) {
						c.code("refuse", site, noPos, errT(o), 3, what)
					}
					continue
				}
				if !c.Ob(!failed(o) && len(sends) == 1, "request", site, noPos, "%s: %d messages are sent, result %v (%s)", what, len(sends), errT(o), o.St.FactString()) {
					continue
				}
				succeeded++
				c.Ob(!isNilV(o.Vals[0]), "request", site, noPos, "%s: no response", what)
				e := sends[0]
				c.Ob(e.Arg(1) == w.ctx() || ctxFrom(e.Arg(1), w.ctx()), "context", site, e.Pos, "%s: sent with %v", what, e.Arg(1))
				r := derefAll(e.Arg(2))
				if sh.peer == "set" {
					c.Ob(isKeyOf(r.Field("Peer"), peer), "peer", site, e.Pos, "%s: sent to %v", what, r.Field("Peer"))
				} else {
					c.Ob(r.Field("Peer") == NilT, "peer", site, e.Pos, "%s: sent to %v", what, r.Field("Peer"))
				}
				path := func(n string, p *pathSpec) {
					if p == nil {
						c.Ob(r.Field(n) == NilT, n, site, e.Pos, "%s: %s is %v", what, n, r.Field(n))
						return
					}
					if c.Ob(r.Field(n) != NilT, n, site, e.Pos, "%s: %s is missing", what, n) {
						c.checkPath(n, site, e.Pos, derefAll(r.Field(n)), p)
					}
				}
				path("BlindedDestination", dest)
				path("ReplyPath", reply)
				c.Ob(isBool2(r.Field("DirectConnect"), sh.direct), "direct", site, e.Pos, "%s: direct connection %v", what, r.Field("DirectConnect"))
				fs, ok := r.Field("FinalPayloads").Elems()
				if r.Field("FinalPayloads") == NilT {
					ok = true
				}
				var got []string
				for _, f := range fs {
					f = derefAll(f)
					got = append(got, fmt.Sprintf("%v=%v", f.Field("TLVType"), f.Field("Value")))
				}
				var want []string
				for i := 0; i < sh.payloads; i++ {
					want = append(want, fmt.Sprintf("%v=%v", IntT(int64(64+37*i)), Sym(fmt.Sprintf("final%d", i), bytesT)))
				}
				sort.Strings(got)
				sort.Strings(want)
				c.Ob(ok && strings.Join(got, " ") == strings.Join(want, " "), "payloads", site, e.Pos, "%s: the payloads are %v, want %v", what, got, want)
			}
			c.Ob(!valid || succeeded > 0, "request", site, noPos, "%s: the request never succeeds", what)
		})
	}
}

func isBool2(t *Term, b bool) bool {
	return t == BoolT(b) || t != nil && t.String() == BoolT(b).String()
}

// ctxFrom: the context ends when the other one does.
func ctxFrom(t, ctx *Term) bool {
	for t != nil && t.Op == "ctx" && len(t.Args) > 0 {
		t = t.Args[0]
	}
	return t == ctx
}

// rpcSendTypes: final payloads of any type.
func rpcSendTypes(c *Ctx) {
	fn := c.R.Method("rpcserver", "Server", "SendOnionMessage")
	site := fnName(fn)
	for mask := 0; mask < 6; mask++ {
		n, low := 1, mask&1 > 0
		if mask > 1 {
			n, low = 2, mask > 2
		}
		w := c.newServer("types").started()
		s := w.st
		rt := c.R.Type("offersrpc", "SendOnionMessageRequest")
		mt := structField(rt, "FinalPayloads").Underlying().(*types.Map)
		mv := &MapV{KT: mt.Key(), VT: mt.Elem()}
		var ts []*Term
		for i := 0; i < n; i++ {
			k := Sym(fmt.Sprintf("type%d", i), mt.Key())
			ts = append(ts, k)
			mv.Ents = append(mv.Ents, MapEnt{K: k, V: s.newBytes(Sym(fmt.Sprintf("final%d", i), bytesT))})
		}
		for i, t := range ts {
			s.must(ltT(t, IntT(64)), mask < 2 && low || mask >= 2 && (mask-2)>>i&1 > 0)
		}
		if n == 2 && (mask == 2 || mask == 5) {
			s.must(ltT(ts[0], ts[1]), true)
		}
		peer := Sym("peer", bytesT)
		s.must(ltT(IntT(0), lenT(peer)), true)
		req := s.obj(rt, map[string]Val{"Pubkey": s.newBytes(peer), "FinalPayloads": &MapRef{Obj: s.alloc(mv)}})
		c.In.With(&Scenario{Call: w.calls, Select: selPick(false), ExtOK: true, LoopK: 10}, func() {
			m := s.event(&Event{Kind: "mark"})
			for _, o := range c.run("types", s, fn, []Val{w.s, w.ctx(), req}) {
				sends := find(o.St.EventsSince(m), named("(*@/onionmsg.Messenger).SendMessage"))
				if !low {
					c.Ob(len(sends) == 1 && !failed(o), "types", site, noPos, "a payload type in the final range is refused with %v (%s)", errT(o), o.St.FactString())
					continue
				}
				c.Ob(len(sends) == 0, "types", site, noPos, "a payload type below the final range is sent (%s)", o.St.FactString())
				if c.Ob(failed(o), "types", site, noPos, "a payload type below the final range is accepted (%s)", o.St.FactString()) {
					c.code("types", site, noPos, errT(o), 3, "a payload type below the final range")
				}
			}
		})
	}
}

func rpcSendResult(c *Ctx) {
	fn := c.R.Method("rpcserver", "Server", "SendOnionMessage")
	site := fnName(fn)
	noPath := mk(errorT, "global", "@/onionmsg.ErrNoPath")
	for _, k := range []struct {
		what string
		err  *Term
		code int64
	}{
		{"no path", noPath, 5},
		{"a wrapped missing path", mk(errorT, "errorf", "", noPath), 5},
		{"a twice wrapped missing path", mk(errorT, "errorf", "", mk(errorT, "errorf", "x", noPath)), 5},
		{"another error", mk(errorT, "errnew", "lnd failed"), 13},
		{"no connection", mk(errorT, "global", "@/onionmsg.ErrNoConnection"), 13},
	} {
		w := c.newServer("result").started()
		w.call = func(in *Interp, s *State, ci *CallInfo) ([]Out, bool) {
			if ci.Name == "(*@/onionmsg.Messenger).SendMessage" {
				s.event(&Event{Kind: "call", Name: ci.Name, Args: s.FreezeAll(ci.Args), Pos: ci.Pos, Failed: true})
				return ret(s, k.err), true
			}
			return nil, false
		}
		peer := Sym("peer", bytesT)
		w.st.must(ltT(IntT(0), lenT(peer)), true)
		req := w.st.obj(c.R.Type("offersrpc", "SendOnionMessageRequest"), map[string]Val{"Pubkey": w.st.newBytes(peer)})
		c.In.With(&Scenario{Call: w.calls, Select: selPick(false), ExtOK: true}, func() {
			for _, o := range c.run("result", w.st, fn, []Val{w.s, w.ctx(), req}) {
				es := find(o.St.Events(), named("(*@/onionmsg.Messenger).SendMessage"))
				if len(es) == 0 {
					continue
				}
				c.Ob(len(es) == 1, "result", site, noPos, "%s: sent %d times", k.what, len(es))
				if c.Ob(failed(o), "result", site, noPos, "%s: success is reported", k.what) {
					c.code("result", site, noPos, errT(o), k.code, k.what)
				}
			}
		})
	}
}

// ---- decode ----

func rpcDecode(c *Ctx) {
	fn := c.R.Method("rpcserver", "Server", "DecodeOffer")
	site := fnName(fn)
	rt := c.R.Type("offersrpc", "DecodeOfferRequest")
	dec := decodeOfferStr
	str := Sym("offerstring", stringT)
	run := func(era string, offerStr Val, mkOffer func(s *State) Val, each func(o Out, evs []*Event)) {
		w := c.newServer("decode").started().earlier(era)
		w.call = func(in *Interp, s *State, ci *CallInfo) ([]Out, bool) {
			if ci.Name == dec {
				return in.errFork(s, ci, ci.Name, s.FreezeAll(ci.Args), mkOffer(s)), true
			}
			return nil, false
		}
		req := w.st.obj(rt, map[string]Val{"Offer": offerStr})
		c.In.With(&Scenario{Call: w.calls, Select: selPick(false)}, func() {
			m := w.st.event(&Event{Kind: "mark"})
			for _, o := range c.run("decode", w.st, fn, []Val{w.s, w.ctx(), req}) {
				each(o, o.St.EventsSince(m))
			}
		})
	}
	n := 0
	run("", StrT(""), func(s *State) Val { return s.obj(c.R.Type("lnwire", "Offer"), nil) }, func(o Out, evs []*Event) {
		n++
		if c.Ob(failed(o), "empty", site, noPos, "an empty offer is decoded") {
			c.code("empty", site, noPos, errT(o), 3, "an empty offer")
		}
	})
	c.Ob(n > 0, "empty", site, noPos, "no path returns")
	for k := 0; k < 16+2*len(rpcEras); k++ {
		mask, era := k, ""
		if k >= 16 {
			mask, era = 15*(k&1), rpcEras[(k-16)/2]
		}
		what := fmt.Sprintf("features %v, expiry %v, node id %v, signature %v", mask&1 > 0, mask&2 > 0, mask&4 > 0, mask&8 > 0) + afterEra(era)
		var fields map[string]*Term
		var feats, node, sig *Term
		good := 0
		run(era, str, func(s *State) Val {
			var v Val
			v, fields, feats, node, sig = c.anOffer(s, mask, "")
			return v
		}, func(o Out, evs []*Event) {
			ds := find(evs, named(dec))
			if !c.Ob(len(ds) <= 1, "decode", site, noPos, "%s: decoded %d times", what, len(ds)) {
				return
			}
			if len(ds) == 0 {
				c.Ob(failed(o), "decode", site, noPos, "%s: a response without decoding", what)
				b, known := o.St.evalBool(eqT(lenT(str), IntT(0)))
				if failed(o) && c.Ob(known && b, "decode", site, noPos, "%s: refused before it is decoded (%s)", what, o.St.FactString()) {
					c.code("decode", site, noPos, errT(o), 3, "an empty offer")
				}
				return
			}
			c.Ob(ds[0].Arg(0) == str, "decode", site, ds[0].Pos, "%s: %v is decoded", what, ds[0].Arg(0))
			if ds[0].Failed {
				if c.Ob(failed(o), "decode", site, ds[0].Pos, "%s: an invalid offer is reported as decoded", what) {
					c.code("decode", site, ds[0].Pos, errT(o), 3, "an invalid offer")
				}
				return
			}
			if len(find(evs, func(e *Event) bool { return e.Failed })) > 0 {
				if c.Ob(failed(o), "decode", site, noPos, "%s: a failing step is reported as success", what) {
					c.code("decode", site, noPos, errT(o), 13, "a response that can not be encoded")
				}
				return
			}
			if !c.Ob(!failed(o), "decode", site, noPos, "%s: fails with %v", what, errT(o)) {
				return
			}
			good++
			r := derefAll(derefAll(o.St.Freeze(o.Vals[0])).Field("Offer"))
			if !c.Ob(r != nil && r.Op == "struct", "decode", site, noPos, "%s: the response is %v", what, r) {
				return
			}
			same := func(n string, want *Term) {
				got := r.Field(n)
				c.Ob(got == want || got != nil && want != nil && stripConv(got) == stripConv(want), n, site, noPos, "%s: %s is %s, want %s", what, n, trunc(fmt.Sprint(got), 200), trunc(fmt.Sprint(want), 200))
			}
			same("MinAmountMsat", fields["MinimumAmount"])
			same("Description", fields["Description"])
			same("Issuer", fields["Issuer"])
			same("MinQuantity", fields["QuantityMin"])
			same("MaxQuantity", fields["QuantityMax"])
			if mask&1 > 0 {
				same("Features", encT("feat", c.In.featOf(o.St, feats)))
			} else {
				c.Ob(r.Field("Features") == NilT || lenT(r.Field("Features")) == IntT(0), "Features", site, noPos, "%s: features %v", what, r.Field("Features"))
			}
			if mask&2 > 0 {
				same("ExpiryUnixSeconds", App(types.Typ[types.Int64], "unix", fields["Expiry"]))
			} else {
				z, isC := constInt64(r.Field("ExpiryUnixSeconds"))
				c.Ob(isC && z == 0, "ExpiryUnixSeconds", site, noPos, "%s: expiry %v", what, r.Field("ExpiryUnixSeconds"))
			}
			hexOf := func(n string, b *Term) {
				got := r.Field(n)
				if b == nil {
					c.Ob(got == StrT(""), n, site, noPos, "%s: %s is %v", what, n, got)
					return
				}
				c.Ob(got != nil && got.String() == hexT(b).String(), n, site, noPos, "%s: %s is %v, want %v", what, n, got, hexT(b))
			}
			if mask&4 > 0 {
				hexOf("NodeId", encT("xonly", node))
			} else {
				hexOf("NodeId", nil)
			}
			if mask&8 > 0 {
				hexOf("Signature", sig)
			} else {
				hexOf("Signature", nil)
			}
		})
		c.Ob(good > 0, "decode", site, noPos, "%s: no valid offer is reported", what)
	}
}

// anOffer is what decoding an offer string results in.
func (c *Ctx) anOffer(s *State, mask int, pre string) (v Val, fields map[string]*Term, feats, node, sig *Term) {
	ot := c.R.Type("lnwire", "Offer")
	fields = map[string]*Term{}
	f := map[string]Val{}
	for _, n := range []string{"MinimumAmount", "Description", "Issuer", "QuantityMin", "QuantityMax"} {
		t := Sym(pre+"offer."+n, structField(ot, n))
		f[n], fields[n] = t, t
	}
	if mask&1 > 0 {
		ft := derefType(structField(ot, "Features"))
		feats = Sym(pre+"features", structField(ft, "RawFeatureVector"))
		c.In.nonNil[feats.id] = true
		f["Features"] = s.obj(ft, map[string]Val{"RawFeatureVector": feats})
	}
	if mask&2 > 0 {
		t := Sym(pre+"offer.Expiry", structField(ot, "Expiry"))
		s.must(iszeroT(t), false)
		f["Expiry"], fields["Expiry"] = t, t
	}
	if mask&4 > 0 {
		node = c.key(pre + "node")
		f["NodeID"] = node
	}
	if mask&8 > 0 {
		sig = bsym(pre+"signature", 64)
		f["Signature"] = s.newPtr(c.In.byteArr(sig, 64))
	}
	return s.obj(ot, f), fields, feats, node, sig
}

func hexT(b *Term) *Term { return App(types.Typ[types.String], "hex", b) }

// stripConv drops conversions between signed and unsigned, which keep every
// bit. Those that may cut the value off stay.
func stripConv(t *Term) *Term {
	for t != nil && t.Op == "conv" && bits(t.T) > 0 && bits(t.T) >= bits(t.Args[0].T) {
		t = t.Args[0]
	}
	return t
}

// bits is the width of an integer type.
func bits(t types.Type) int {
	lo, hi, ok := intRange(t)
	if !ok {
		return 0
	}
	return new(big.Int).Sub(hi, lo).BitLen()
}

// ---- route ----

func rpcRoute(c *Ctx) {
	fn := c.R.Method("rpcserver", "Server", "GenerateBlindedRoute")
	max := 2
	if c.Thorough {
		max = 3
	}
	for n := 0; n <= max; n++ {
		// Which of the features are feature bits; every value is covered by
		// one of the cases.
		for bad := 0; bad < 1<<n; bad++ {
			c.routeCase(fn, n, bad, 1, "")
		}
		for hops := 0; hops <= max+1; hops++ {
			c.routeCase(fn, n, 0, hops, "")
		}
	}
	for _, era := range rpcEras {
		c.routeCase(fn, 1, 0, 1, era)
		c.routeCase(fn, 0, 0, 2, era)
	}
	for _, n := range c.sizes(4, 120, "rpcserver") {
		c.routeCase(fn, n, 0, 1, "")
		c.routeCase(fn, n, onlyLast, 1, "")
		c.routeCase(fn, 1, 0, n, "")
	}
}

// aRoute is a route that the generator returns.
func (c *Ctx) aRoute(s *State, hops int, pre string) (Val, *pathSpec) {
	bt := c.R.ExtType(sphinxPath, "BlindedPath")
	spec := &pathSpec{first: c.key(pre + "intro"), point: c.key(pre + "point")}
	var hv, dv []Val
	ht := structField(bt, "BlindedHops").Underlying().(*types.Slice).Elem()
	dt := structField(bt, "EncryptedData").Underlying().(*types.Slice).Elem()
	for i := 0; i < hops; i++ {
		k, d := c.key(fmt.Sprintf("%shop%d", pre, i)), Sym(fmt.Sprintf("%sdata%d", pre, i), bytesT)
		var b Val = s.newBytes(d)
		if i > 0 && i == hops-1 {
			d, b = StrT(""), NilT
		}
		spec.ids, spec.data = append(spec.ids, k), append(spec.data, d)
		hv, dv = append(hv, k), append(dv, b)
	}
	return s.obj(bt, map[string]Val{
		"IntroductionPoint": spec.first, "BlindingPoint": spec.point,
		"BlindedHops": s.newSlice(ht, hv...), "EncryptedData": s.newSlice(dt, dv...),
	}), spec
}

// onlyLast: only the last feature is no feature bit.
const onlyLast = 1 << 40

func (c *Ctx) routeCase(fn *ssa.Function, n, bad, hops int, era string) {
	site := fnName(fn)
	rp := replyPath
	{
		{
			what := fmt.Sprintf("%d features (invalid: %b), route of %d hops", n, bad, hops) + afterEra(era)
			w := c.newServer("route").started().earlier(era)
			var spec *pathSpec
			w.call = func(in *Interp, s *State, ci *CallInfo) ([]Out, bool) {
				if ci.Name != rp {
					return nil, false
				}
				var r Val
				r, spec = c.aRoute(s, hops, "")
				return in.errFork(s, ci, ci.Name, s.FreezeAll(ci.Args), r), true
			}
			rt := c.R.Type("offersrpc", "GenerateBlindedRouteRequest")
			et := structField(rt, "Features").Underlying().(*types.Slice).Elem()
			var fv []Val
			var fs []*Term
			for i := 0; i < n; i++ {
				t := Sym(fmt.Sprintf("feature%d", i), et)
				w.st.must(ltT(IntT(65535), t), bad == onlyLast && i == n-1 || bad != onlyLast && i < 32 && bad>>i&1 > 0)
				fv, fs = append(fv, t), append(fs, t)
			}
			f := map[string]Val{}
			if n > 0 {
				f["Features"] = w.st.newSlice(et, fv...)
			}
			req := w.st.obj(rt, f)
			good := 0
			c.In.With(&Scenario{Call: w.calls, Select: selPick(false), LoopK: 130, MaxLen: 130}, func() {
				m := w.st.event(&Event{Kind: "mark"})
				for _, o := range c.run("route", w.st, fn, []Val{w.s, w.ctx(), req}) {
					es := find(o.St.EventsSince(m), named(rp))
					if bad > 0 {
						c.Ob(len(es) == 0, "features", site, noPos, "%s: a feature that is no feature bit is requested (%s)", what, o.St.FactString())
						if c.Ob(failed(o), "features", site, noPos, "%s: a feature that is no feature bit is accepted", what) {
							c.code("features", site, noPos, errT(o), 3, "a feature that is no feature bit")
						}
						continue
					}
					if !c.Ob(len(es) == 1, "route", site, noPos, "%s: %d routes are generated, result %v (%s)", what, len(es), errT(o), o.St.FactString()) {
						continue
					}
					e := es[0]
					c.Ob(ctxFrom(e.Arg(1), w.ctx()), "context", site, e.Pos, "%s: generated with %v", what, e.Arg(1))
					got, ok := e.Arg(2).Elems()
					if e.Arg(2) == NilT {
						ok = true
					}
					same := ok && len(got) == n
					for i := 0; same && i < n; i++ {
						same = stripConv(got[i]).String() == fs[i].String()
					}
					c.Ob(same, "features", site, e.Pos, "%s: features %v are requested", what, e.Arg(2))
					if e.Failed {
						if c.Ob(failed(o), "route", site, e.Pos, "%s: a route that can not be made is reported as success", what) {
							c.code("route", site, e.Pos, errT(o), 13, "a route that can not be made")
						}
						continue
					}
					if !c.Ob(!failed(o), "route", site, e.Pos, "%s: fails with %v", what, errT(o)) {
						continue
					}
					good++
					c.checkRPCPath("response", site, noPos, derefAll(o.St.Freeze(o.Vals[0])).Field("Route"), spec, what)
				}
			})
			c.Ob(good > 0 || bad > 0, "route", site, noPos, "%s: no route is returned", what)
		}
	}
}
