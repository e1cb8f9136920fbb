package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "M05", Title: "messenger life cycle", Floor: 30,
		Rule: "Abstract interpretation of starting, running and stopping the messenger: order of events on every path of the stop, effects of a second start or stop, and every way in which the event loop ends.",
		Run: func(c *Ctx) {
			c.Guard("start", func() { msgrStart(c) })
			c.Guard("stop", func() { msgrStop(c) })
			c.Guard("end", func() { msgrEnd(c) })
		},
	})
	register(&Check{
		ID: "M06", Title: "sending of onion messages", Floor: 100,
		Rule: "Abstract interpretation of sending, for every kind of destination and every answer of lnd: provenance of the route request, the keys and the message that is sent, and effects on failing paths.",
		Run: func(c *Ctx) {
			c.Guard("routed", func() { sendRouted(c) })
			c.Guard("errors", func() { sendErrors(c) })
		},
	})
	register(&Check{
		ID: "M07", Title: "direct connections", Floor: 60,
		Rule: "Abstract interpretation of sending with direct connection for every state of the connection and every answer of lnd: which connections are made and when the message is sent.",
		Run: func(c *Ctx) {
			c.Guard("direct", func() { sendDirect(c) })
		},
	})
	register(&Check{
		ID: "M08", Title: "node key operations", Floor: 12,
		Rule: "Abstract interpretation of the node key's constructor and operations: provenance of the key, the key locator and the deadlines.",
		Run: func(c *Ctx) {
			c.Guard("node-key", func() { nodeKey(c) })
		},
	})
}

func before(a, b *Event) bool { return a != nil && b != nil && a.Seq < b.Seq }

func find(evs []*Event, pred func(*Event) bool) []*Event {
	var r []*Event
	for _, e := range evs {
		if pred(e) {
			r = append(r, e)
		}
	}
	return r
}

func named(n string) func(*Event) bool {
	return func(e *Event) bool { return e.Kind == "call" && e.Name == n }
}

func first(es []*Event) *Event {
	if len(es) == 0 {
		return nil
	}
	return es[0]
}

func msgrStart(c *Ctx) {
	in := c.In
	w := c.newMessenger("start")
	fn := c.R.Method("onionmsg", "Messenger", "Start")
	site := fnName(fn)
	in.With(&Scenario{ExtOK: true}, func() {
		mark := w.st.fork()
		m := mark.event(&Event{Kind: "mark"})
		outs := c.run("start", mark, fn, []Val{w.m})
		c.expectErr("start", site, fn.Pos(), outs, "", "a second start")
		for _, o := range outs {
			c.Ob(len(o.St.EventsSince(m)) == 0 || len(find(o.St.EventsSince(m), func(e *Event) bool {
				return e.Kind == "go" || e.Kind == "call" && (strings.HasPrefix(e.Name, "(*sync.WaitGroup)") || strings.Contains(e.Name, "Router"))
			})) == 0, "start", site, fn.Pos(), "a second start has effects")
		}
		add, gos, rs := first(find(w.st.Events(), named("(*sync.WaitGroup).Add"))), find(w.st.Events(), func(e *Event) bool { return e.Kind == "go" }), first(find(w.st.Events(), named("(*sphinx.Router).Start")))
		c.Ob(before(add, gos[0]), "start", site, gos[0].Pos, "the event loop is not counted before it is started")
		c.Ob(before(rs, gos[0]), "start", site, gos[0].Pos, "the event loop runs before the onion router is started")
	})
	// A router that does not start.
	in.With(&Scenario{}, func() {
		s := in.Start()
		nm := c.R.Func("onionmsg", "NewOnionMessenger")
		var args []Val
		for i := 0; i < nm.Signature.Params().Len(); i++ {
			p := nm.Signature.Params().At(i)
			args = append(args, Sym(p.Name(), p.Type()))
		}
		for _, n := range c.run("start", s, nm, args) {
			for _, o := range c.run("start", n.St, fn, n.Vals) {
				bad := len(find(o.St.Events(), func(e *Event) bool { return e.Failed })) > 0
				g := len(find(o.St.Events(), func(e *Event) bool { return e.Kind == "go" }))
				c.Ob(failed(o) == bad && (g == 0) == bad, "start", site, fn.Pos(), "router failed %v: error %v, %d goroutines", bad, errT(o), g)
			}
		}
	})
}

func msgrStop(c *Ctx) {
	in := c.In
	w := c.newMessenger("stop")
	fn := c.R.Method("onionmsg", "Messenger", "Stop")
	site := fnName(fn)
	in.With(&Scenario{}, func() {
		s := w.st.fork()
		m := s.event(&Event{Kind: "mark"})
		outs := c.run("stop", s, fn, []Val{w.m})
		c.Ob(len(outs) > 0, "stop", site, fn.Pos(), "no path returns")
		for _, o := range outs {
			c.Ob(!failed(o), "stop", site, fn.Pos(), "the first stop fails with %v", errT(o))
			evs := o.St.EventsSince(m)
			cl := first(find(evs, func(e *Event) bool { return e.Kind == "close" }))
			wt := first(find(evs, named("(*sync.WaitGroup).Wait")))
			rt := first(find(evs, named("(*sphinx.Router).Stop")))
			c.Ob(before(cl, wt), "stop", site, fn.Pos(), "the event loop is not told to end before it is waited for")
			c.Ob(wt != nil, "stop", site, fn.Pos(), "the event loop is not waited for")
			c.Ob(before(wt, rt), "stop", site, fn.Pos(), "the onion router is not stopped after the event loop has ended")
			m2 := o.St.event(&Event{Kind: "mark"})
			again := c.run("stop", o.St, fn, []Val{w.m})
			c.expectErr("stop", site, fn.Pos(), again, "", "a second stop")
			for _, p := range again {
				c.Ob(len(find(p.St.EventsSince(m2), func(e *Event) bool { return e.Kind == "close" || named("(*sphinx.Router).Stop")(e) })) == 0, "stop", site, fn.Pos(), "a second stop has effects")
			}
		}
	})
	// The loop ends, without asking for a shutdown.
	outs := w.end("stop")
	c.Ob(len(outs) > 0, "stop", w.site, noPos, "the event loop does not end")
	for _, o := range outs {
		if !c.Ob(o.Kind == Ret, "stop", w.site, o.Pos, "the event loop does not end: %v (%s)", o.Kind, o.Why) {
			continue
		}
		c.Ob(len(find(o.St.Events(), named("dyn "+w.shut.S))) == 0, "stop", w.site, o.Pos, "a stop causes a shutdown request")
		c.checkLoopEnd("stop", w, o)
	}
}

// checkLoopEnd: however the loop ends, it is accounted for and lnd's streams
// are released.
func (c *Ctx) checkLoopEnd(rule string, w *msgr, o Out) {
	evs := o.St.EventsSince(w.started)
	c.liveCtx(rule, w.site, o.St.Events())
	done := find(evs, named("(*sync.WaitGroup).Done"))
	c.Ob(len(done) == 1, rule, w.site, o.Pos, "the end of the event loop is signalled %d times", len(done))
	for _, e := range find(evs, named("invoke SubscribeCustomMessages")) {
		ctx := e.Arg(1)
		c.Ob(o.St.ctxClosed(ctx), rule, w.site, e.Pos, "the message subscription outlives the event loop")
		c.Ob(!timed(ctx), rule, w.site, e.Pos, "the message subscription ends after %v", ctx)
	}
}

func msgrEnd(c *Ctx) {
	for _, how := range []string{"the subscription fails", "the message stream ends", "the error stream ends", "the stream fails"} {
		w := c.newMessenger("end")
		outs := w.end(how)
		c.Ob(len(outs) > 0, "end", w.site, noPos, "%s: the event loop does not end", how)
		for _, o := range outs {
			if !c.Ob(o.Kind == Ret, "end", w.site, o.Pos, "%s: the event loop goes on (%v)", how, o.Kind) {
				continue
			}
			sh := find(o.St.EventsSince(w.started), named("dyn "+w.shut.S))
			if c.Ob(len(sh) == 1, "end", w.site, o.Pos, "%s: %d shutdowns are requested", how, len(sh)) {
				e := sh[0].Arg(0)
				isnil, known := o.St.null(e)
				c.Ob(e != NilT && !(known && isnil), "end", w.site, sh[0].Pos, "%s: a shutdown is requested without an error", how)
				if strings.HasSuffix(how, "ends") {
					c.Ob(c.In.IsErr(e, "@/onionmsg.ErrLNDShutdown"), "end", w.site, sh[0].Pos, "%s: a shutdown is requested with %v", how, e)
				}
			}
			c.checkLoopEnd("end", w, o)
		}
	}
}

// ---- sending ----

// sendEnv is how lnd answers.
type sendEnv struct {
	hops      int // of the route, -1: no route is found
	nilHop    int // hop without a key, -1: none
	fail      string
	connected int // the poll (0: before connecting) that first lists the peer, -1: never
	others    int // other peers that are listed
	addrs     int
	era       string // tells the answers of different times apart
	// before is an earlier message, and how lnd answered then.
	before *sendEnv
	direct bool // the earlier message is sent directly
	other  bool // the earlier message is for another node
}

func vertexT(c *Ctx) types.Type {
	return c.R.ExtType("github.com/lightningnetwork/lnd/routing/route", "Vertex")
}

func (c *Ctx) sendCalls(e *sendEnv, target *Term) func(in *Interp, s *State, ci *CallInfo) ([]Out, bool) {
	return func(in *Interp, s *State, ci *CallInfo) ([]Out, bool) {
		ev := func(failed bool, vals ...Val) ([]Out, bool) {
			s.event(&Event{Kind: "call", Name: ci.Name, Args: s.FreezeAll(ci.Args), Raw: ci.Args, Res: vals, Pos: ci.Pos, Fn: ci.Caller, Instr: ci.Instr, Failed: failed})
			return ret(s, vals...), true
		}
		errOut := func(name string) ([]Out, bool) {
			x := in.extErr(name)
			if name == "QueryRoutes" {
				g := mk(errorT, "global", "lndclient.ErrNoRouteFound")
				s.must(eqT(x, g), false)
				s.must(mk(boolT, "is-err", "", x, g), false)
			}
			vs := zeros(ci.Sig)
			vs[len(vs)-1] = x
			return ev(true, vs...)
		}
		switch {
		case ci.Method == "QueryRoutes":
			if e.fail == "QueryRoutes" {
				return errOut("QueryRoutes")
			}
			if e.hops < 0 {
				vs := zeros(ci.Sig)
				vs[len(vs)-1] = mk(errorT, "global", "lndclient.ErrNoRouteFound")
				return ev(true, vs...)
			}
			rt := derefType(ci.Sig.Results().At(0).Type())
			hs := structField(rt, "Hops").Underlying().(*types.Slice)
			ht := hs.Elem()
			ptr := false
			if p, ok := ht.Underlying().(*types.Pointer); ok {
				ht, ptr = p.Elem(), true
			}
			var vs []Val
			for i := 0; i < e.hops; i++ {
				f := map[string]Val{}
				if i != e.nilHop {
					f["PubKey"] = s.newPtr(in.byteArr(bsym(fmt.Sprintf("%shop%d", e.era, i), 33), 33))
				}
				p := s.obj(ht, f)
				if ptr {
					vs = append(vs, p)
				} else {
					vs = append(vs, in.load(s, p))
				}
			}
			return ev(false, s.obj(rt, map[string]Val{"Hops": s.newSlice(hs.Elem(), vs...)}), NilT)
		case ci.Method == "ListPeers":
			n := 0
			if v, ok := s.ghost["polls"]; ok {
				k, _ := constInt64(v)
				n = int(k)
			}
			s.setGhost("polls", IntT(int64(n+1)))
			if e.fail == fmt.Sprintf("ListPeers%d", n) {
				return errOut("ListPeers")
			}
			pt := ci.Sig.Results().At(0).Type().Underlying().(*types.Slice).Elem()
			var vs []Val
			add := func(k *Term) {
				vs = append(vs, in.load(s, s.obj(pt, map[string]Val{"Pubkey": in.byteArr(k, 33)})))
			}
			for i := 0; i < e.others; i++ {
				add(bsym(fmt.Sprintf("other%d", i), 33))
			}
			if e.connected >= 0 && n >= e.connected {
				add(target)
			}
			return ev(false, s.newSlice(pt, vs...), NilT)
		case ci.Method == "GetNodeInfo":
			if e.fail == "GetNodeInfo" {
				return errOut("GetNodeInfo")
			}
			it, nt := c.R.ExtType(lndclientPath, "NodeInfo"), c.R.ExtType(lndclientPath, "Node")
			if e.addrs < 0 {
				// The node is only known by its channels.
				return ev(false, s.obj(it, map[string]Val{"Node": NilT}), NilT)
			}
			var vs []Val
			for i := 0; i < e.addrs; i++ {
				vs = append(vs, Sym(fmt.Sprintf("%saddress%d", e.era, i), stringT))
			}
			return ev(false, s.obj(it, map[string]Val{"Node": s.obj(nt, map[string]Val{"Addresses": s.newSlice(stringT, vs...)})}), NilT)
		case ci.Method == "Connect":
			if e.fail == "Connect" {
				return errOut("Connect")
			}
			return ev(false, NilT)
		case ci.Method == "SendCustomMessage":
			if e.fail == "SendCustomMessage" {
				return errOut("SendCustomMessage")
			}
			return ev(false, NilT)
		case ci.Name == "@/routes.CreateBlindedRoute":
			if e.fail == "CreateBlindedRoute" {
				return errOut("CreateBlindedRoute")
			}
			rt := c.R.Type("routes", "BlindedRouteResponse")
			mt := c.R.Type("lnwire", "OnionMessage")
			return ev(false, s.obj(rt, map[string]Val{
				"FirstNode":    c.key(e.era + "firstnode"),
				"OnionMessage": s.obj(mt, map[string]Val{"BlindingPoint": c.key(e.era + "firstpoint"), "OnionBlob": s.newBytes(Sym(e.era+"onion", bytesT))}),
			}), NilT)
		case ci.Name == "@/routes.NewBlindedRouteRequest":
			r := App(ci.Sig.Results().At(0).Type(), "RouteRequest", s.FreezeAll(ci.Args)...)
			in.nonNil[r.id] = true
			return ev(false, r)
		case ci.Name == "btcec.NewPrivateKey" && strings.HasPrefix(e.fail, "NewPrivateKey"):
			evs, _ := epoch(s)
			n := len(find(evs, named("btcec.NewPrivateKey")))
			if e.fail == fmt.Sprintf("NewPrivateKey%d", n) {
				return errOut("NewPrivateKey")
			}
		case ci.Name == "btcec.ParsePubKey":
			k := s.Content(ci.Args[0])
			if e.fail == "ParsePubKey" {
				return errOut("ParsePubKey")
			}
			if strings.HasPrefix(strings.TrimPrefix(k.S, e.era), "hop") {
				p := App(ci.Sig.Results().At(0).Type(), "ParsePubKey", k)
				in.nonNil[p.id] = true
				return ev(false, p, NilT)
			}
		}
		return nil, false
	}
}

// sendReq makes a request, and returns the key of the node it is sent to.
func (c *Ctx) sendReq(s *State, blinded, direct bool, finals, reply int) (Val, *Term, map[string]Val) {
	rt := c.R.Type("onionmsg", "SendMessageRequest")
	fin, _ := c.finalPayloads(s, finals)
	f := map[string]Val{"DirectConnect": BoolT(direct), "FinalPayloads": fin}
	target := c.key("peer")
	if blinded {
		p, spec := c.namedPath(s, "dest", 2)
		f["BlindedDestination"] = p
		target = spec.first
	} else {
		f["Peer"] = target
	}
	if reply > 0 {
		p, _ := c.namedPath(s, "reply", reply)
		f["ReplyPath"] = p
	}
	return s.obj(rt, f), target, f
}

func (c *Ctx) sendRun(rule string, e *sendEnv, blinded, direct bool, finals, reply int, f func(o Out, evs []*Event, target *Term, req map[string]Val)) {
	in := c.In
	w := c.newMessenger(rule)
	fn := c.R.Method("onionmsg", "Messenger", "SendMessage")
	s := w.st.fork()
	s.must(ltT(IntT(65535), lenT(Sym("onion", bytesT))), false)
	ctx := Sym("ctx", fn.Params[1].Type())
	in.nonNil[ctx.id] = true
	req, target, flds := c.sendReq(s, blinded, direct, finals, reply)
	for i := 0; i < e.others; i++ {
		s.must(eqT(bsym(fmt.Sprintf("other%d", i), 33), encT("pub33", target)), false)
	}
	states := []*State{s}
	if b := e.before; b != nil {
		b.era = "early."
		s.must(ltT(IntT(65535), lenT(Sym("early.onion", bytesT))), false)
		oreq, oname := req, target
		if e.other {
			oname = c.key("another")
			oreq = s.obj(c.R.Type("onionmsg", "SendMessageRequest"), map[string]Val{"DirectConnect": BoolT(b.direct), "Peer": oname})
			s.must(eqT(encT("pub33", oname), encT("pub33", target)), false)
			s.must(eqT(encT("pub33", target), encT("pub33", oname)), false)
			for i := 0; i < b.others; i++ {
				s.must(eqT(bsym(fmt.Sprintf("other%d", i), 33), encT("pub33", oname)), false)
			}
		}
		in.With(&Scenario{ExtOK: true, LoopK: 20, Call: c.sendCalls(b, encT("pub33", oname))}, func() {
			states = nil
			for _, o := range c.run(rule, s, fn, []Val{w.m, ctx, oreq}) {
				o.St.event(&Event{Kind: "mark", Name: "epoch"})
				o.St.setGhost("polls", IntT(0))
				states = append(states, o.St)
			}
		})
	}
	in.With(&Scenario{ExtOK: true, LoopK: 20, Call: c.sendCalls(e, encT("pub33", target))}, func() {
		for _, s := range states {
			m := s.event(&Event{Kind: "mark"})
			outs := c.run(rule, s, fn, []Val{w.m, ctx, req})
			c.Ob(len(outs) > 0, rule, fnName(fn), fn.Pos(), "no path returns")
			for _, o := range outs {
				f(o, o.St.EventsSince(m), target, flds)
			}
		}
	})
}

// callersCtx: a call to lnd ends when its caller gives up.
func (c *Ctx) callersCtx(site, what string, e *Event) {
	bound := false
	e.Arg(1).Walk(func(t *Term) bool { bound = bound || t.Op == "sym" && t.S == "ctx"; return true })
	c.Ob(bound, "context", site, e.Pos, "%s: %s does not end with the caller's context", what, strings.TrimPrefix(e.Name, "invoke "))
}

// checkSent: exactly one message, and the right one, was sent.
func (c *Ctx) checkSent(rule, site, what string, o Out, evs []*Event, path []*Term, req map[string]Val) {
	pos := noPos
	if !c.Ob(!failed(o), rule, site, pos, "%s: fails with %v", what, errT(o)) {
		return
	}
	c.liveCtx("context", site, evs)
	rr := find(evs, named("@/routes.NewBlindedRouteRequest"))
	cr := find(evs, named("@/routes.CreateBlindedRoute"))
	sd := find(evs, named("invoke SendCustomMessage"))
	if !c.Ob(len(rr) == 1 && len(cr) == 1 && len(sd) == 1, rule, site, pos, "%s: %d routes are built and %d messages sent", what, len(cr), len(sd)) {
		return
	}
	c.Ob(cr[0].Arg(0) == o.St.Freeze(rr[0].Res[0]), rule, site, cr[0].Pos, "%s: the route is not built from the request", what)
	a := rr[0].Args
	if !c.Ob(len(a) == 6, rule, site, rr[0].Pos, "%s: the route request takes %d values", what, len(a)) {
		return
	}
	k0, k1 := derefAll(a[0]), derefAll(a[1])
	c.Ob(isFreshKey(k0) && isFreshKey(k1), "keys", site, rr[0].Pos, "%s: the keys are %v and %v", what, k0, k1)
	c.Ob(a[0] != a[1], "keys", site, rr[0].Pos, "%s: one key is used to blind and to encrypt", what)
	_, old := epoch(o.St)
	for _, x := range find(old, named("@/routes.NewBlindedRouteRequest")) {
		for i := 0; i < 2; i++ {
			c.Ob(x.Arg(i) != a[0] && x.Arg(i) != a[1], "keys", site, rr[0].Pos, "%s: a key of an earlier message is used again", what)
		}
	}
	hs, ok := a[2].Elems()
	same := ok && len(hs) == len(path)
	for i := 0; same && i < len(hs); i++ {
		same = hs[i] == path[i] || isKeyOf(hs[i], path[i])
	}
	c.Ob(same, "path", site, rr[0].Pos, "%s: the route is %v, want %v", what, a[2], path)
	part := func(i int, name string) {
		want := NilT
		if v, ok := req[name]; ok {
			want = o.St.Freeze(v)
		}
		c.Ob(a[i] == want, "request", site, rr[0].Pos, "%s: %s is %s", what, name, trunc(fmt.Sprint(a[i]), 200))
	}
	part(3, "ReplyPath")
	part(4, "BlindedDestination")
	part(5, "FinalPayloads")
	e := sd[0]
	c.callersCtx(site, what, e)
	msg := e.Args[len(e.Args)-1]
	c.Ob(msg.Field("Peer") == encT("pub33", c.key("firstnode")), "sent", site, e.Pos, "%s: the message is sent to %v", what, msg.Field("Peer"))
	mt, isC := constInt64(msg.Field("MsgType"))
	c.Ob(isC && mt == 513, "sent", site, e.Pos, "%s: the message has type %v", what, msg.Field("MsgType"))
	b := Sym("onion", bytesT)
	want := catT(encT("pub33", c.key("firstpoint")), encT("be16", lenT(b)), b)
	c.Ob(msg.Field("Data") == want, "sent", site, e.Pos, "%s: %s", what, diffStr(msg.Field("Data"), want))
}

func notSent(evs []*Event) bool { return len(find(evs, named("invoke SendCustomMessage"))) == 0 }

func sendRouted(c *Ctx) {
	site := fnName(c.R.Method("onionmsg", "Messenger", "SendMessage"))
	max := 3
	if c.Thorough {
		max = 7
	}
	var lens []int
	for hops := -1; hops <= max; hops++ {
		lens = append(lens, hops)
	}
	lens = append(lens, c.sizes(max, 120, "onionmsg")...)
	for _, hops := range lens {
		for _, blinded := range []bool{false, true} {
			for shape := 0; shape < 12; shape++ {
				what := fmt.Sprintf("blinded destination %v, route of %d hops", blinded, hops)
				env := &sendEnv{hops: hops, nilHop: -1, connected: 0, addrs: 1}
				if shape >= 4 {
					// Messages do not depend on earlier ones.
					env.before = &sendEnv{hops: []int{1, 2, -1, 3}[shape%4], nilHop: -1, connected: 0, addrs: 1}
					env.other = shape >= 8
					if shape == 7 {
						env.before.fail = "SendCustomMessage"
					}
					what += fmt.Sprintf(", after a message along %d hops to the same node %v", env.before.hops, !env.other)
				}
				if hops > max && (shape&3 > 0 || shape > 3) {
					continue
				}
				c.sendRun("routed", env, blinded, false, shape&1, shape&2, func(o Out, evs []*Event, target *Term, req map[string]Val) {
					for _, e := range evs {
						if e.Kind != "call" {
							continue
						}
						c.Ob(e.Name != "invoke Connect", "private", site, e.Pos, "%s: a connection is made", what)
					}
					q := find(evs, named("invoke QueryRoutes"))
					if c.Ob(len(q) == 1, "query", site, noPos, "%s: %d route queries", what, len(q)) {
						c.callersCtx(site, what, q[0])
						r := q[0].Args[len(q[0].Args)-1]
						c.Ob(r.Field("PubKey") == encT("pub33", target), "query", site, q[0].Pos, "%s: a route to %v is requested", what, r.Field("PubKey"))
						fee, okF := constInt(r.Field("FeeLimitMsat"))
						c.Ob(okF && fee.Cmp(big.NewInt(1_000_000_000)) > 0, "query", site, q[0].Pos, "%s: the route's fees are limited to %v", what, r.Field("FeeLimitMsat"))
						amt, okA := constInt(r.Field("AmtMsat"))
						c.Ob(okA && amt.Cmp(big.NewInt(1000)) <= 0, "query", site, q[0].Pos, "%s: a route for %v msat is requested", what, r.Field("AmtMsat"))
						for _, n := range []string{"Source", "LastHop", "MaxCltv"} {
							c.Ob(r.Field(n) == NilT, "query", site, q[0].Pos, "%s: the route query restricts %s to %v", what, n, r.Field(n))
						}
					}
					if hops <= 0 {
						c.Ob(failed(o) && c.In.IsErr(errT(o), "@/onionmsg.ErrNoPath"), "no-path", site, noPos, "%s: the result is %v", what, errT(o))
						c.Ob(notSent(evs), "no-path", site, noPos, "%s: a message is sent", what)
						return
					}
					var path []*Term
					for i := 0; i < hops; i++ {
						path = append(path, bsym(fmt.Sprintf("hop%d", i), 33))
					}
					c.checkSent("sent", site, what, o, evs, path, req)
				})
			}
		}
	}
}

func sendErrors(c *Ctx) {
	site := fnName(c.R.Method("onionmsg", "Messenger", "SendMessage"))
	for _, f := range []string{"QueryRoutes", "CreateBlindedRoute", "SendCustomMessage", "NewPrivateKey0", "NewPrivateKey1", "ParsePubKey"} {
		for _, blinded := range []bool{false, true} {
			c.sendRun("errors", &sendEnv{hops: 2, nilHop: -1, fail: f, connected: 0}, blinded, false, 1, 1, func(o Out, evs []*Event, target *Term, req map[string]Val) {
				c.Ob(failed(o), "errors", site, noPos, "%s fails but success is reported", f)
				c.Ob(f == "SendCustomMessage" || notSent(evs), "errors", site, noPos, "%s fails but a message is sent", f)
				c.Ob(!c.In.IsErr(errT(o), "@/onionmsg.ErrNoPath"), "errors", site, noPos, "%s fails, which is reported as a missing path", f)
				if f == "SendCustomMessage" {
					c.Ob(len(find(evs, named("invoke SendCustomMessage"))) == 1, "errors", site, noPos, "a message that fails to send is sent again")
				}
			})
		}
	}
	for i := 0; i < 3; i++ {
		c.sendRun("errors", &sendEnv{hops: 3, nilHop: i, connected: 0}, false, false, 1, 0, func(o Out, evs []*Event, target *Term, req map[string]Val) {
			c.Ob(failed(o) && c.In.IsErr(errT(o), "@/onionmsg.ErrNilPubkeyInRoute") && notSent(evs), "errors", site, noPos, "a route whose hop %d has no key: %v", i, errT(o))
		})
	}
}

func sendDirect(c *Ctx) {
	site := fnName(c.R.Method("onionmsg", "Messenger", "SendMessage"))
	check := func(e *sendEnv, blinded bool) {
		what := fmt.Sprintf("blinded destination %v, peer listed from poll %d on among %d others, %d addresses, failing %q", blinded, e.connected, e.others, e.addrs, e.fail)
		if e.before != nil {
			what += fmt.Sprintf(", after a message when the peer was listed from poll %d on", e.before.connected)
		}
		c.sendRun("direct", e, blinded, true, 1, 1, func(o Out, evs []*Event, target *Term, req map[string]Val) {
			cn := find(evs, named("invoke Connect"))
			gi := find(evs, named("invoke GetNodeInfo"))
			lp := find(evs, named("invoke ListPeers"))
			c.Ob(len(find(evs, named("invoke QueryRoutes"))) == 0, "direct", site, noPos, "%s: a route is requested", what)
			done := find(evs, func(x *Event) bool { return x.Kind == "sel-recv" && x.Arg(0).Op == "done" })
			for _, x := range evs {
				if x.Kind == "call" && (x.Name == "invoke Connect" || x.Name == "invoke GetNodeInfo" || x.Name == "invoke ListPeers") {
					c.callersCtx(site, what, x)
				}
			}
			for _, x := range cn {
				a := x.Args
				c.Ob(len(a) == 5 && a[2] == encT("pub33", target), "connect", site, x.Pos, "%s: a connection to %v is made", what, a[2])
				c.Ob(len(a) == 5 && a[3] == Sym("address0", stringT), "connect", site, x.Pos, "%s: the connection is made to %v", what, a[3])
				c.Ob(len(a) == 5 && isTrue(a[4]), "connect", site, x.Pos, "%s: the connection is not kept", what)
			}
			for _, x := range gi {
				c.Ob(x.Arg(2) == encT("pub33", target), "connect", site, x.Pos, "%s: node %v is looked up", what, x.Arg(2))
			}
			if len(done) > 0 {
				c.Ob(failed(o) && notSent(evs), "cancel", site, noPos, "%s: the request is cancelled, yet %v", what, errT(o))
				return
			}
			sends := !notSent(evs)
			bad := len(find(evs, func(x *Event) bool { return x.Failed })) > 0
			if bad {
				c.Ob(failed(o) && !sends, "errors", site, noPos, "%s: %v, sent %v", what, errT(o), sends)
				return
			}
			switch {
			case e.connected == 0:
				c.Ob(len(cn) == 0 && len(lp) == 1, "connected", site, noPos, "%s: %d connections are made", what, len(cn))
				c.checkSent("direct", site, what, o, evs, []*Term{target}, req)
			case e.addrs < 0:
				c.Ob(len(cn) == 0 && !sends && failed(o), "no-address", site, noPos, "%s: %v", what, errT(o))
			case e.addrs == 0:
				c.Ob(len(cn) == 0 && !sends && failed(o) && c.In.IsErr(errT(o), "@/onionmsg.ErrNoAddresses"), "no-address", site, noPos, "%s: %v", what, errT(o))
			case e.connected < 0 || len(lp) < e.connected+1:
				c.Ob(len(cn) == 1, "connect", site, noPos, "%s: %d connections are made", what, len(cn))
				c.Ob(!sends && failed(o) && c.In.IsErr(errT(o), "@/onionmsg.ErrNoConnection"), "no-connection", site, noPos, "%s: %v after %d polls", what, errT(o), len(lp))
				// A peer that comes online while it is waited for is used.
				c.Ob(len(lp) >= 3, "patience", site, noPos, "%s: gives up after %d polls", what, len(lp))
				tm := find(evs, func(x *Event) bool { return x.Kind == "sel-recv" && x.Arg(0).Op == "timer" || named("time.Sleep")(x) })
				c.Ob(len(tm) >= len(lp)-2, "patience", site, noPos, "%s: the peer is polled %d times, waiting %d times", what, len(lp), len(tm))
			default:
				c.Ob(len(cn) == 1 && len(gi) == 1 && before(gi[0], cn[0]) && before(lp[0], cn[0]), "connect", site, noPos, "%s: %d connections are made", what, len(cn))
				sd := first(find(evs, named("invoke SendCustomMessage")))
				c.Ob(sd == nil || before(lp[len(lp)-1], sd), "connect", site, noPos, "%s: the message is sent before the peer is connected", what)
				c.checkSent("direct", site, what, o, evs, []*Term{target}, req)
			}
		})
	}
	for _, blinded := range []bool{false, true} {
		for _, others := range []int{0, 2} {
			for _, con := range []int{-1, 0, 1, 2, 3, 5} {
				for _, addrs := range []int{-1, 0, 1, 2} {
					check(&sendEnv{connected: con, others: others, addrs: addrs, nilHop: -1}, blinded)
				}
			}
			// A connection that was there earlier may be gone.
			for _, con := range []int{-1, 0, 2} {
				for _, old := range []int{-1, 0, 2} {
					for _, oth := range []bool{false, true} {
						check(&sendEnv{connected: con, others: others, addrs: 1, nilHop: -1, other: oth,
							before: &sendEnv{connected: old, others: others, addrs: 2, nilHop: -1, direct: true}}, blinded)
					}
				}
			}
			for _, f := range []string{"ListPeers0", "ListPeers1", "ListPeers3", "GetNodeInfo", "Connect", "CreateBlindedRoute"} {
				for _, con := range []int{-1, 0, 2} {
					check(&sendEnv{connected: con, others: others, addrs: 1, fail: f, nilHop: -1}, blinded)
				}
			}
		}
	}
	for _, n := range c.sizes(2, 120, "onionmsg") {
		check(&sendEnv{connected: 0, others: n, addrs: 1, nilHop: -1}, false)
		check(&sendEnv{connected: 1, others: n, addrs: 1, nilHop: -1}, false)
		check(&sendEnv{connected: 1, others: 0, addrs: n, nilHop: -1}, false)
	}
}

// again asks for a secret after another one: it is the one of the key asked for.
func (c *Ctx) again(ecdh *ssa.Function, o Out, node Val, key string, secret func(*Term) *Term) {
	for _, q := range c.run("ecdh", o.St.fork(), ecdh, []Val{node, c.key(key)}) {
		if failed(q) {
			continue
		}
		got := q.St.Freeze(q.Vals[0])
		same := got == secret(c.key(key))
		if !same && key != "remote" && got == secret(c.key("remote")) {
			// It may have been remembered for this very key.
			is, known := q.St.evalBool(eqT(encT("pub33", c.key(key)), encT("pub33", c.key("remote"))))
			same = is && known
		}
		c.Ob(same, "ecdh", fnName(ecdh), ecdh.Pos(), "after a secret for another key, the secret for key %q is %v", key, got)
	}
}

func nodeKey(c *Ctx) {
	in := c.In
	nw := c.R.Func("onionmsg", "NewNodeECDH")
	ecdh, pub := c.R.Method("onionmsg", "NodeECDH", "ECDH"), c.R.Method("onionmsg", "NodeECDH", "PubKey")
	timed := func(rule, site string, e *Event, st *State) {
		ctx := e.Arg(1)
		c.Ob(ctx != nil && ctx.Op == "ctx" && strings.HasPrefix(ctx.S, "timeout"), "deadline", site, e.Pos, "the call has no deadline: %v", ctx)
		if ctx != nil && len(ctx.Args) > 1 {
			d, ok := constInt(ctx.Args[1])
			c.Ob(ok && d.Sign() > 0 && d.Cmp(big.NewInt(600_000_000_000)) <= 0, "deadline", site, e.Pos, "the call's time limit is %v", ctx.Args[1])
		}
		c.Ob(st.ctxClosed(ctx), "deadline", site, e.Pos, "the deadline's resources are not released")
	}
	info := c.R.ExtType(lndclientPath, "Info")
	secret := func(key *Term) *Term {
		return App(types.NewArray(types.Typ[types.Byte], 32), "secret", key)
	}
	in.With(&Scenario{Call: func(in *Interp, s *State, ci *CallInfo) ([]Out, bool) {
		switch ci.Method {
		case "GetInfo":
			r := s.obj(info, map[string]Val{"IdentityPubkey": in.byteArr(bsym("identity", 33), 33)})
			return in.errFork(s, ci, ci.Name, s.FreezeAll(ci.Args), r), true
		case "DeriveSharedKey":
			r := in.byteArr(secret(s.Freeze(ci.Args[len(ci.Args)-2])), 32)
			return in.errFork(s, ci, ci.Name, s.FreezeAll(ci.Args), r), true
		}
		return nil, false
	}}, func() {
		s := in.Start()
		var args []Val
		for i := 0; i < nw.Signature.Params().Len(); i++ {
			p := nw.Signature.Params().At(i)
			a := Sym(p.Name(), p.Type())
			in.nonNil[a.id] = true
			args = append(args, a)
		}
		outs := c.run("new", s, nw, args)
		c.noSilentFailure("new", nw, outs, nil)
		ok, bad := split(outs)
		c.Ob(len(ok) == 1 && len(bad) >= 2, "new", fnName(nw), nw.Pos(), "%d succeeding and %d failing paths", len(ok), len(bad))
		for _, o := range outs {
			for _, e := range find(o.St.Events(), func(e *Event) bool { return strings.HasSuffix(e.Name, "GetInfo") && e.Kind == "call" }) {
				timed("new", fnName(nw), e, o.St)
			}
			c.liveCtx("new", fnName(nw), o.St.Events())
		}
		for _, o := range ok {
			for _, p := range c.run("pubkey", o.St.fork(), pub, o.Vals[:1]) {
				k := p.St.Freeze(p.Vals[0])
				c.Ob(isKeyOf(k, bsym("identity", 33)), "pubkey", fnName(pub), pub.Pos(), "the node's key is %v", k)
			}
			m := o.St.event(&Event{Kind: "mark"})
			eouts := c.run("ecdh", o.St.fork(), ecdh, []Val{o.Vals[0], c.key("remote")})
			c.noSilentFailure("ecdh", ecdh, eouts, nil)
			for _, p := range eouts {
				es := find(p.St.EventsSince(m), func(e *Event) bool { return e.Kind == "call" && strings.HasSuffix(e.Name, "DeriveSharedKey") })
				if !c.Ob(len(es) == 1, "ecdh", fnName(ecdh), ecdh.Pos(), "the signer is called %d times", len(es)) {
					continue
				}
				e := es[0]
				timed("ecdh", fnName(ecdh), e, p.St)
				c.liveCtx("ecdh", fnName(ecdh), p.St.Events())
				c.Ob(e.Arg(2) == c.key("remote"), "ecdh", fnName(ecdh), e.Pos, "the secret is shared with %v", e.Arg(2))
				loc := derefAll(e.Arg(3))
				fam, ok1 := constInt64(loc.Field("Family"))
				idx, ok2 := constInt64(loc.Field("Index"))
				c.Ob(ok1 && ok2 && fam == 6 && idx == 0, "ecdh", fnName(ecdh), e.Pos, "the secret is derived with key %v", loc)
				if !failed(p) {
					c.Ob(p.St.Freeze(p.Vals[0]) == secret(c.key("remote")), "ecdh", fnName(ecdh), e.Pos, "the secret is %v", p.St.Freeze(p.Vals[0]))
				}
				// Later calls are for their own key as well.
				for _, key := range []string{"remote", "other"} {
					c.again(ecdh, p, o.Vals[0], key, secret)
				}
			}
		}
	})
}
