package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "C01", Title: "concurrent use", Floor: 60,
		Rule: "Abstract interpretation of everything that may run at the same time (the rpcs, the start and stop, a subscription's handler, the messenger's event loop, registrations and sends, and every goroutine that is started) records which shared memory each path reads and writes, under which locks, and between which channel, wait group, once and atomic operations. Two accesses of the same memory, one of them a write, by threads that may run at the same time must be ordered by one of these.",
		Run: func(c *Ctx) {
			c.Guard("server", func() { raceServer(c) })
			c.Guard("messenger", func() { raceMessenger(c) })
			c.Guard("route", func() { raceRoutes(c) })
			c.Guard("variables", func() { raceGlobals(c) })
		},
	})
}

// recorded runs f while the memory that is accessed is recorded.
func (c *Ctx) recorded(f func()) *raceRec {
	in := c.In
	old := in.race
	in.race = &raceRec{}
	r := in.race
	defer func() { in.race = old }()
	f()
	return r
}

// threadOf runs a function beside others.
func (c *Ctx) threadOf(name string, sc *Scenario, s *State, n namer, fn *ssa.Function, args []Val, bind ...Val) (*thread, []Out, *raceRec, *Event) {
	t := &thread{name: name}
	var outs []Out
	var m *Event
	rec := c.recorded(func() {
		c.In.With(sc, func() {
			m = s.event(&Event{Kind: "mark"})
			outs = c.In.Call(s, fn, args, bind...)
			if strings.HasPrefix(name, "handler ") {
				// It is called again and again.
				var more []Out
				for _, o := range outs {
					if o.Kind == Ret {
						more = append(more, c.In.Call(o.St, fn, args, bind...)...)
					} else {
						more = append(more, o)
					}
				}
				outs = more
			}
		})
	})
	for _, o := range outs {
		if o.Kind != Panicked {
			t.runs = append(t.runs, shared(o.St, o.St.EventsSince(m), n))
		}
	}
	return t, outs, rec, m
}

// beside decides what is spawned during an execution against what the
// execution does afterwards, and hands the spawned threads back.
func (c *Ctx) beside(rule string, parent string, outs []Out, rec *raceRec, sc *Scenario, n namer, args func(sp spawn) []Val) []*thread {
	var ts []*thread
	seen := map[string]int{}
	for _, sp := range rec.spawns {
		k := fmt.Sprint(sp.fn.Fn, c.R.Pos(sp.ev.Pos))
		if seen[k]++; seen[k] > 40 {
			continue
		}
		since := sinceNames(sp.st)
		as := sp.args
		if args != nil {
			if as = args(sp); as == nil {
				continue
			}
		}
		name := sp.what + " " + fnName(sp.fn.Fn)
		st := sp.st.fork()
		t, child, _, m := c.threadOf(name, sc, st, n, sp.fn.Fn, as, sp.fn.Bind...)
		ts = append(ts, t)
		own := &thread{name: name, alone: true}
		for _, o := range child {
			if o.Kind != Panicked {
				own.runs = append(own.runs, shared(o.St, o.St.EventsSince(m), since))
			}
		}
		p := &thread{name: parent, alone: true}
		for _, o := range outs {
			if o.Kind == Panicked {
				continue
			}
			var after []*Event
			hit := false
			for _, e := range o.St.Events() {
				if hit {
					after = append(after, e)
				}
				hit = hit || e == sp.ev
			}
			if hit {
				p.runs = append(p.runs, shared(o.St, after, since))
			}
		}
		if len(p.runs) > 0 && len(own.runs) > 0 {
			c.conflicts(rule, []*thread{p, own}, nil, func(key string, x *site) string { return "memory " + accName(x) })
		}
	}
	return ts
}

// accName describes the memory of an access.
func accName(x *site) string {
	if strings.Contains(x.key, "#") {
		return "that both can reach"
	}
	return x.key
}

func fieldLabel(c *Ctx, roots map[string]types.Type) func(key string, x *site) string {
	return func(key string, x *site) string {
		l := key
		if t, ok := roots[key]; ok {
			for _, p := range x.path {
				st := structOf(t)
				if st == nil || p.Field < 0 || p.Field >= st.NumFields() {
					break
				}
				l += "." + st.Field(p.Field).Name()
				t = st.Field(p.Field).Type()
			}
		}
		return l
	}
}

// merge makes one thread of those that run the same code.
func merge(ts []*thread) []*thread {
	var r []*thread
	by := map[string]*thread{}
	for _, t := range ts {
		if o := by[t.name]; o != nil {
			o.runs = append(o.runs, t.runs...)
			continue
		}
		by[t.name] = t
		r = append(r, t)
	}
	return r
}

func raceServer(c *Ctx) {
	in := c.In
	start, stop := c.R.Method("rpcserver", "Server", "Start"), c.R.Method("rpcserver", "Server", "Stop")
	var ts []*thread
	srvT := c.R.Type("rpcserver", "Server")
	lab := fieldLabel(c, map[string]types.Type{"server": srvT})
	life := map[*thread]bool{}
	roots := func(w *srv) namer {
		return c.sharedNames(w.st, map[string]Val{"server": w.s, "messenger": w.msgr, "generator": w.gen, "nodekey": w.ecdh})
	}
	for _, how := range []string{"", "ecdh", "start"} {
		w := c.newServer("server")
		w.fail = how
		sc := &Scenario{Call: w.calls}
		t, outs, rec, _ := c.threadOf("start", sc, w.st, roots(w), start, []Val{w.s, w.lnd})
		ts = append(ts, t)
		ts = append(ts, c.beside("server", "start", outs, rec, sc, roots(w), nil)...)
	}
	{
		w := c.newServer("server").started()
		sc := &Scenario{Call: w.calls}
		t, outs, rec, _ := c.threadOf("stop", sc, w.st, roots(w), stop, []Val{w.s})
		ts = append(ts, t)
		ts = append(ts, c.beside("server", "stop", outs, rec, sc, roots(w), nil)...)
	}
	for _, fn := range c.rpcs() {
		w := c.newServer("server").started()
		var cur *raceRec
		w.call = func(in *Interp, s *State, ci *CallInfo) ([]Out, bool) {
			switch {
			case strings.HasSuffix(ci.Name, "onionmsg.Messenger).RegisterHandler"):
				e := s.event(&Event{Kind: "call", Name: ci.Name, Args: s.FreezeAll(ci.Args), Raw: ci.Args, Pos: ci.Pos, Fn: ci.Caller, Instr: ci.Instr})
				if len(ci.Args) == 3 {
					in.spawned(s, "handler", ci.Args[2], nil, e)
				}
				return ret(s, NilT), true
			case ci.Method == "Send":
				s.event(&Event{Kind: "call", Name: ci.Name, Args: s.FreezeAll(ci.Args), Raw: ci.Args, Pos: ci.Pos, Fn: ci.Caller, Instr: ci.Instr})
				return ret(s, NilT), true
			case ci.Name == "@/offers.DecodeOfferStr":
				rt := derefType(ci.Sig.Results().At(0).Type())
				return ret(s, s.newPtr(mk(rt, "sym", "offer")), NilT), true
			}
			return nil, false
		}
		_ = cur
		args := w.rpcArgs(fn)
		if fn.Name() == "SubscribeOnionPayload" {
			rt := c.R.Type("offersrpc", "SubscribeOnionPayloadRequest")
			for i, p := range fn.Params {
				if pt, ok := p.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), rt) {
					args[i] = w.st.obj(rt, map[string]Val{"TlvType": typeConst(c, 64)})
				}
			}
		}
		sc := &Scenario{Call: w.calls, LoopK: 3, ExtOK: true, MaxLen: 1, Select: func(in *Interp, s *State, sel *SelInfo) ([]SelChoice, bool) {
			// What others do to the channels is up to them.
			return nil, false
		}}
		n := roots(w)
		t, outs, rec, _ := c.threadOf("rpc "+fn.Name(), sc, w.st, n, fn, args)
		ts = append(ts, t)
		c.Ob(len(outs) > 0, "server", fnName(fn), fn.Pos(), "the rpc has no outcome")
		ts = append(ts, c.beside("server", "rpc "+fn.Name(), outs, rec, sc, n, func(sp spawn) []Val {
			if sp.what != "handler" {
				return sp.args
			}
			var as []Val
			k := len(sp.fn.Fn.Params)
			for i, p := range sp.fn.Fn.Params {
				if i < k-3 {
					continue
				}
				a := Sym(fmt.Sprintf("delivered%d", i), p.Type())
				switch k - i {
				case 3:
					as = append(as, NilT)
				default:
					as = append(as, sp.st.newBytes(Sym(fmt.Sprintf("delivered%d", i), bytesT)))
				}
				_ = a
			}
			return as
		})...)
	}
	ts = merge(ts)
	for _, t := range ts {
		life[t] = t.name == "start" || t.name == "stop"
	}
	c.conflicts("server", ts, func(a, b *thread) bool { return a != b && life[a] && life[b] }, lab)
	_ = in
}

func raceMessenger(c *Ctx) {
	in := c.In
	start, stop := c.R.Method("onionmsg", "Messenger", "Start"), c.R.Method("onionmsg", "Messenger", "Stop")
	lab := fieldLabel(c, map[string]types.Type{"messenger": c.R.Type("onionmsg", "Messenger")})
	var ts []*thread
	names := func(w *msgr, s *State) namer { return c.sharedNames(s, map[string]Val{"messenger": w.m}) }

	// The start and what it starts.
	var w *msgr
	rec := c.recorded(func() { w = c.newMessenger("messenger") })
	n := names(w, w.st)
	loop := &thread{name: "the event loop", alone: true}
	own := &thread{name: "the event loop", alone: true}
	var since namer
	var goEv *Event
	for _, sp := range rec.spawns {
		if sp.fn == w.loop {
			since, goEv = sinceNames(sp.st), sp.ev
		}
	}
	if goEv == nil {
		panic(Undecided{"the event loop's start"})
	}
	var evs, after []*Event
	hit := false
	for _, e := range w.st.Events() {
		evs = append(evs, e)
		if hit {
			after = append(after, e)
		}
		hit = hit || e == goEv
	}
	for _, h := range raceHistories() {
		var outs []Out
		rec := c.recorded(func() { outs = w.play(h, nil) })
		sc := &Scenario{ExtOK: true, LoopK: 4, Call: w.calls, Select: w.sel}
		ts = append(ts, c.beside("messenger", "the event loop", outs, rec, sc, n, nil)...)
		for _, o := range outs {
			if o.Kind == Panicked {
				continue
			}
			e := o.St.EventsSince(w.started)
			loop.runs = append(loop.runs, shared(o.St, e, n))
			own.runs = append(own.runs, shared(o.St, e, since))
		}
	}
	for _, how := range []string{"the subscription fails", "the message stream ends", "stop"} {
		var outs []Out
		c.recorded(func() { outs = w.end(how) })
		for _, o := range outs {
			if o.Kind != Panicked {
				e := o.St.EventsSince(w.ended)
				loop.runs = append(loop.runs, shared(o.St, e, n))
				own.runs = append(own.runs, shared(o.St, e, since))
			}
		}
	}
	st := &thread{name: "start", alone: true, runs: [][]rop{shared(w.st, after, since)}}
	c.conflicts("start", []*thread{st, own}, nil, func(key string, x *site) string { return "memory " + accName(x) })
	// The whole start, as seen by calls.
	fresh := w.st
	ts = append(ts, loop, &thread{name: "start", runs: [][]rop{shared(fresh, sinceStart(evs, start), n)}})

	life := map[*thread]bool{}
	add := func(name string, sc *Scenario, s *State, fn *ssa.Function, args []Val) {
		t, outs, rec, _ := c.threadOf(name, sc, s, n, fn, args)
		c.Ob(len(outs) > 0, "messenger", fnName(fn), fn.Pos(), "no outcome")
		ts = append(ts, t)
		ts = append(ts, c.beside("messenger", name, outs, rec, sc, n, nil)...)
	}
	add("stop", &Scenario{}, w.st.fork(), stop, []Val{w.m})
	for _, name := range []string{"RegisterHandler", "DeregisterHandler"} {
		fn := c.R.Method("onionmsg", "Messenger", name)
		for _, typ := range []int64{64, 12} {
			args := []Val{w.m, ConstT(IntT(typ).C, fn.Params[1].Type())}
			if len(fn.Params) > 2 {
				args = append(args, w.handler("h", fn.Params[2].Type()))
			}
			add(name, &Scenario{ExtOK: true}, w.st.fork(), fn, args)
		}
	}
	fn := c.R.Method("onionmsg", "Messenger", "SendMessage")
	for _, k := range []struct {
		e               sendEnv
		blinded, direct bool
		finals, reply   int
	}{
		{sendEnv{hops: 2, nilHop: -1}, false, false, 1, 1},
		{sendEnv{hops: 2, nilHop: -1}, true, false, 2, 0},
		{sendEnv{hops: -1, nilHop: -1}, false, false, 0, 0},
		{sendEnv{nilHop: -1, connected: 0}, false, true, 1, 0},
		{sendEnv{nilHop: -1, connected: 2, addrs: 1}, false, true, 1, 0},
		{sendEnv{nilHop: -1, connected: -1, addrs: 2}, true, true, 1, 1},
	} {
		s := w.st.fork()
		s.must(ltT(IntT(65535), lenT(Sym("onion", bytesT))), false)
		req, target, _ := c.sendReq(s, k.blinded, k.direct, k.finals, k.reply)
		e := k.e
		ctx := Sym("ctx", fn.Params[1].Type())
		in.nonNil[ctx.id] = true
		add("SendMessage", &Scenario{ExtOK: true, LoopK: 20, Call: c.sendCalls(&e, encT("pub33", target))}, s, fn, []Val{w.m, ctx, req})
	}
	ts = merge(ts)
	for _, t := range ts {
		life[t] = t.name == "start" || t.name == "stop"
	}
	c.conflicts("messenger", ts, func(a, b *thread) bool {
		// The start hands over to the loop, see above.
		return a != b && life[a] && life[b] || a == loop && b.name == "start"
	}, lab)
}

// sinceStart drops what happened before the start was called.
func sinceStart(evs []*Event, start *ssa.Function) []*Event {
	for i, e := range evs {
		if e.Fn == start || e.Fn != nil && e.Fn.Parent() == start {
			return evs[i:]
		}
	}
	return evs
}

// raceHistories let the event loop do everything it does.
func raceHistories() [][]op {
	reg := func(t int64, h string) op { return op{kind: "reg", typ: t, h: h} }
	msg := func(m *inMsg) op { return op{kind: "msg", m: m} }
	return [][]op{
		{reg(64, "ha"), reg(64, "hb"), msg(&inMsg{action: "ExitNode", finals: []int64{64, 66}, encd: true, reply: 1}), {kind: "dereg", typ: 64}, {kind: "dereg", typ: 64}},
		{reg(64, "ha"), msg(&inMsg{action: "ExitNode", finals: []int64{64}, hfail: map[int64]bool{64: true}}), msg(&inMsg{id: 1, action: "ExitNode", finals: []int64{64}})},
		{msg(&inMsg{action: "MoreHops", next: true, nextID: true, encd: true}), msg(&inMsg{id: 1, action: "MoreHops", next: true, nextID: true, encd: true, over: true})},
		{msg(&inMsg{action: "Failure"}), msg(&inMsg{id: 1, stage: "envelope"}), msg(&inMsg{id: 2, stage: "onion"})},
		{msg(&inMsg{stage: "process"}), msg(&inMsg{id: 1, stage: "payload"}), msg(&inMsg{id: 2, msgType: IntT(512)})},
	}
}

func raceRoutes(c *Ctx) {
	fn := c.R.Method("routes", "BlindedRouteGenerator", "ReplyPath")
	lab := fieldLabel(c, map[string]types.Type{"generator": c.R.Type("routes", "BlindedRouteGenerator")})
	var ts []*thread
	for _, peers := range [][]peerSpec{{}, {{chans: 1, feats: []int64{38}}, {chans: 2, feats: []int64{38, 41}}}, {{err: "notfound"}}, {{chans: 1, feats: []int64{38}}, {err: "plain"}}} {
		sc := &Scenario{ExtOK: true, Call: lndGraph(c, peers, nil)}
		c.In.With(sc, func() {
			s := c.In.Start()
			args := c.replyArgs(s, []int64{38})
			n := c.sharedNames(s, map[string]Val{"generator": args[0]})
			t, outs, rec, _ := c.threadOf("ReplyPath", sc, s, n, fn, args)
			c.Ob(len(outs) > 0, "routes", fnName(fn), fn.Pos(), "no outcome")
			ts = append(ts, t)
			ts = append(ts, c.beside("routes", "ReplyPath", outs, rec, sc, n, nil)...)
		})
	}
	c.conflicts("routes", merge(ts), nil, lab)

	// The node's key is used by the event loop and by whoever sends.
	ts = nil
	lab = fieldLabel(c, map[string]types.Type{"nodekey": c.R.Type("onionmsg", "NodeECDH")})
	nk := c.R.Func("onionmsg", "NewNodeECDH")
	c.In.With(&Scenario{ExtOK: true}, func() {
		s := c.In.Start()
		var args []Val
		for _, p := range nk.Params {
			a := Sym(p.Name(), p.Type())
			c.In.nonNil[a.id] = true
			args = append(args, a)
		}
		ok, _ := split(c.run("routes", s, nk, args))
		for _, o := range ok {
			n := c.sharedNames(o.St, map[string]Val{"nodekey": o.Vals[0]})
			for _, m := range []string{"PubKey", "ECDH"} {
				fn := c.R.Method("onionmsg", "NodeECDH", m)
				as := []Val{o.Vals[0]}
				for _, p := range fn.Params[1:] {
					a := Sym(p.Name(), p.Type())
					c.In.nonNil[a.id] = true
					as = append(as, a)
				}
				sc := &Scenario{ExtOK: true}
				t, outs, rec, _ := c.threadOf(m, sc, o.St.fork(), n, fn, as)
				c.Ob(len(outs) > 0, "routes", fnName(fn), fn.Pos(), "no outcome")
				ts = append(ts, t)
				ts = append(ts, c.beside("routes", m, outs, rec, sc, n, nil)...)
			}
		}
	})
	c.conflicts("routes", merge(ts), nil, lab)
}

// raceGlobals: everything is called from any goroutine, so no package variable
// may change without synchronisation.
func raceGlobals(c *Ctx) {
	in := c.In
	old := in.race
	defer func() { in.race = old }()
	in.race = &raceRec{globals: map[string]*acc{}, c: c}
	r := in.race
	n := 0
	for _, id := range []string{"W01", "W02", "W03", "W04", "W05", "W06", "W07", "W08", "W09", "W10", "W11", "R01", "R02", "R03", "M01", "M02", "M06", "M07", "M08", "S02", "S03", "S05", "S06", "O01"} {
		ck := checks[id]
		if ck == nil || id == "S02" && !c.Thorough {
			continue
		}
		sub := &Ctx{R: c.R, ID: c.ID, In: in, perRule: map[string]int{}, sites: map[string]bool{}}
		t := in.Taint
		sub.Guard("analysis", func() { ck.Run(sub) })
		in.Taint = t
		c.und = append(c.und, sub.und...)
		c.enough(sub.ob > 0, "variables", id, "nothing was analysed")
		n++
	}
	var ks []string
	for k := range r.globals {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		a := r.globals[k]
		at := "-"
		if a.fn != nil {
			at = fnName(a.fn)
		}
		c.Ob(false, "variables", at, a.pos, "%s is written without synchronisation, by whoever calls this", a.name)
	}
	c.enough(n > 10 && r.n > 0, "variables", "code base", "only %d analyses with %d accesses of package variables", n, r.n)
}
