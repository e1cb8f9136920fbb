package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

func init() {
	register(&Check{
		ID: "R01", Title: "onion route construction", Floor: 200,
		Rule: "Abstract interpretation of the route construction over every number of hops up to the bound, with and without a blinded destination, reply path and payloads: the provenance of every key and payload handed to the route blinding and the onion packet is compared with the specification's.",
		Run: func(c *Ctx) {
			c.Guard("assemble", func() { assemble(c) })
			c.Guard("errors", func() { assembleErrors(c) })
		},
	})
	register(&Check{
		ID: "R02", Title: "route requests that can not be served", Floor: 20,
		Rule: "Abstract interpretation of the route construction for requests that lack a part, whose path does not end at the destination's introduction node, or that exceed the capacity of an onion.",
		Run: func(c *Ctx) {
			c.Guard("validate", func() { routeValidate(c) })
			c.Guard("capacity", func() { routeCapacity(c) })
		},
	})
	register(&Check{
		ID: "R03", Title: "reply route selection", Floor: 300,
		Rule: "Abstract interpretation of the reply route generation over every combination of up to three channel peers and their graph states; the chosen introduction node and the blinded hops are compared with the selection rule.",
		Run: func(c *Ctx) {
			c.Guard("select", func() { replyRoute(c) })
			c.Guard("errors", func() {
				fn := c.R.Method("routes", "BlindedRouteGenerator", "ReplyPath")
				_ = fn
				c.In.With(&Scenario{Call: lndGraph(c, []peerSpec{{chans: 1, feats: []int64{38}}}, nil)}, func() {
					s := c.In.Start()
					outs := c.run("errors", s, fn, c.replyArgs(s, nil))
					c.Ob(len(outs) > 2, "errors", fnName(fn), fn.Pos(), "only %d outcomes", len(outs))
					c.noSilentFailure("errors", fn, outs, nil)
				})
			})
		},
	})
}

type routeCase struct {
	n      int // clear hops, including the introduction node if there is a destination
	dest   int // hops of the blinded destination, -1: none
	reply  bool
	finals int
	same   bool // the path ends at the introduction node
}

func (r routeCase) String() string {
	return fmt.Sprintf("%d hops, destination of %d hops, reply path %v, %d payloads", r.n, r.dest, r.reply, r.finals)
}

type builtCase struct {
	s           *State
	args        []Val
	hops        []*Term
	session     *Term
	blinding    *Term
	dest, reply *pathSpec
	finals      [][]*Term
}

// namedPath makes a reply path whose parts carry a prefix.
func (c *Ctx) namedPath(s *State, name string, n int) (*Ptr, *pathSpec) {
	p := &pathSpec{first: c.key(name + ".first"), point: c.key(name + ".point")}
	ht := c.R.Type("lnwire", "BlindedHop")
	var hops []Val
	for i := 0; i < n; i++ {
		id := c.key(fmt.Sprintf("%s.hop%d", name, i))
		if n > 1 && i == n-1 {
			// The last hop has no data of its own.
			p.ids, p.data = append(p.ids, id), append(p.data, StrT(""))
			hops = append(hops, s.obj(ht, map[string]Val{"BlindedNodeID": id, "EncryptedData": NilT}))
			continue
		}
		d := Sym(fmt.Sprintf("%s.data%d", name, i), bytesT)
		s.must(ltT(lenT(d), IntT(1)), false)
		s.must(ltT(IntT(65535), lenT(d)), false)
		p.ids, p.data = append(p.ids, id), append(p.data, d)
		hops = append(hops, s.obj(ht, map[string]Val{"BlindedNodeID": id, "EncryptedData": s.newBytes(d)}))
	}
	return s.obj(c.R.Type("lnwire", "ReplyPath"), map[string]Val{
		"FirstNodeID": p.first, "BlindingPoint": p.point,
		"Hops": s.newSlice(types.NewPointer(ht), hops...),
	}), p
}

func (c *Ctx) finalPayloads(s *State, n int) (Val, [][]*Term) {
	ft := c.R.Type("lnwire", "FinalHopPayload")
	tt := structField(ft, "TLVType")
	var vs []Val
	var want [][]*Term
	for i := 0; i < n; i++ {
		v := Sym(fmt.Sprintf("final%d", i), bytesT)
		t := int64(64 + 37*i)
		vs = append(vs, s.obj(ft, map[string]Val{"TLVType": ConstT(IntT(t).C, tt), "Value": s.newBytes(v)}))
		want = append(want, rec(t, v))
	}
	if n == 0 {
		return NilT, nil
	}
	return s.newSlice(types.NewPointer(ft), vs...), want
}

func (c *Ctx) buildCase(r routeCase) *builtCase {
	s := c.In.Start()
	b := &builtCase{s: s}
	newReq := c.R.Func("routes", "NewBlindedRouteRequest")
	kt := c.R.ExtType("github.com/btcsuite/btcd/btcec/v2", "PrivateKey")
	b.session, b.blinding = c.psym("session", kt), c.psym("blinding", kt)
	var dest, reply Val = NilT, NilT
	if r.dest >= 0 {
		dest, b.dest = c.namedPath(s, "dest", r.dest)
	}
	if r.reply {
		reply, b.reply = c.namedPath(s, "reply", 2)
	}
	var hv []Val
	for i := 0; i < r.n; i++ {
		k := c.key(fmt.Sprintf("hop%d", i))
		if r.dest >= 0 && i == r.n-1 && r.same {
			k = b.dest.first
		}
		b.hops = append(b.hops, k)
		hv = append(hv, k)
	}
	var finals Val
	finals, b.finals = c.finalPayloads(s, r.finals)
	hops := s.newSlice(newReq.Signature.Params().At(2).Type().Underlying().(*types.Slice).Elem(), hv...)
	outs := c.In.Call(s, newReq, []Val{b.session, b.blinding, hops, reply, dest, finals})
	if len(outs) != 1 || outs[0].Kind != Ret {
		panic(Undecided{"the request constructor has more than one outcome"})
	}
	b.s = outs[0].St
	b.args = outs[0].Vals
	return b
}

// payload is the specification's payload of a hop.
func (b *builtCase) payload(enc *Term, last bool) *Term {
	var rs [][]*Term
	if last && b.reply != nil {
		rs = append(rs, rec(2, b.reply.wire()))
	}
	if enc != StrT("") {
		rs = append(rs, rec(4, enc))
	}
	if last {
		rs = append(rs, b.finals...)
	}
	return recsT(rs...)
}

func assemble(c *Ctx) {
	in := c.In
	fn := c.R.Func("routes", "CreateBlindedRoute")
	pos := fn.Pos()
	site := fnName(fn)
	max, maxd := 4, 3
	if c.Thorough {
		max, maxd = 8, 6
	}
	for n := 1; n <= max; n++ {
		for d := -1; d <= maxd; d++ {
			if d == 0 {
				continue
			}
			for _, reply := range []bool{false, true} {
				for _, nf := range []int{0, 1, 2} {
					r := routeCase{n, d, reply, nf, true}
					in.With(&Scenario{ExtOK: true}, func() {
						b := c.buildCase(r)
						outs := c.run("assemble", b.s, fn, b.args)
						c.Ob(len(outs) > 0, "assemble", site, pos, "%v: no path returns", r)
						for _, o := range outs {
							if failed(o) {
								c.Ob(false, "assemble", site, pos, "%v: fails with %v", r, errT(o))
								continue
							}
							c.checkRoute(r, b, o, site, pos)
						}
					})
				}
			}
		}
	}
}

func (c *Ctx) checkRoute(r routeCase, b *builtCase, o Out, site string, pos posT) {
	var blind, packet []*Event
	for _, e := range o.St.Events() {
		if e.Kind != "call" {
			continue
		}
		switch e.Name {
		case "sphinx.BuildBlindedPath":
			blind = append(blind, e)
		case "sphinx.NewOnionPacket":
			packet = append(packet, e)
		}
	}
	clear := b.hops
	if r.dest >= 0 {
		clear = clear[:r.n-1]
	}
	// Which hops are blinded, and what they learn.
	var want []*Term
	if len(clear) == 0 {
		c.Ob(len(blind) == 0, "blinded-hops", site, pos, "%v: a path is blinded although the message goes straight to the destination", r)
	} else if c.Ob(len(blind) == 1, "blinded-hops", site, pos, "%v: %d paths are blinded", r, len(blind)) {
		e := blind[0]
		c.Ob(e.Arg(0) == b.blinding, "blinded-hops", site, pos, "%v: the path is blinded with %v", r, e.Arg(0))
		hs := e.Args[1:]
		if c.Ob(len(hs) == len(clear), "blinded-hops", site, pos, "%v: %d hops are blinded, want %d", r, len(hs), len(clear)) {
			for i, h := range hs {
				c.Ob(h.Field("NodePub") == clear[i], "blinded-hops", site, pos, "%v: hop %d is %v", r, i, h.Field("NodePub"))
				var x *Term
				switch {
				case i+1 < len(clear):
					x = recsT(rec(4, encT("pub33", clear[i+1])))
				case r.dest >= 0:
					x = recsT(rec(4, encT("pub33", b.dest.first)), rec(8, encT("pub33", b.dest.point)))
				default:
					x = NilT
				}
				got := h.Field("Payload")
				str, isS := constStr(got)
				c.Ob(got == x || x == NilT && isS && str == "", "route-data", site, pos, "%v: hop %d is told %s", r, i, diffStr(got, x))
			}
		}
		list := mk(nil, "list", "", hs...)
		for i := range clear {
			id := App(nil, "blindedID", b.blinding, IntT(int64(i)), list)
			data := App(bytesT, "blindedData", b.blinding, IntT(int64(i)), list)
			last := r.dest < 0 && i == len(clear)-1
			want = append(want, id, b.payload(data, last))
		}
	}
	if r.dest >= 0 {
		for i := range b.dest.ids {
			want = append(want, b.dest.ids[i], b.payload(b.dest.data[i], i == len(b.dest.ids)-1))
		}
	}
	// The onion.
	if !c.Ob(len(packet) == 1, "onion", site, pos, "%v: %d onions are built", r, len(packet)) {
		return
	}
	e := packet[0]
	c.Ob(e.Arg(1) == b.session, "onion-key", site, pos, "%v: the onion's session key is %v", r, e.Arg(1))
	ad, isS := constStr(e.Arg(2))
	c.Ob(e.Arg(2) == NilT || isS && ad == "", "onion-data", site, pos, "%v: the onion commits to %v", r, e.Arg(2))
	c.Ob(e.Arg(3).Op != "nil", "onion-filler", site, pos, "%v: no packet filler", r)
	hs, ok := derefAll(e.Arg(0)).Elems()
	if c.Ob(ok, "onion", site, pos, "%v: the onion's hops are %s", r, trunc(e.Arg(0).String(), 200)) {
		for i, h := range hs {
			pl := h.Field("HopPayload").Field("Payload")
			np := h.Field("NodePub")
			if 2*i >= len(want) {
				empty := pl == NilT && np != nil && np.Op != "deref"
				c.Ob(empty, "onion", site, pos, "%v: there is a hop %d: %s", r, i, trunc(h.String(), 200))
				continue
			}
			c.Ob(sameKey(np, want[2*i]), "onion-hops", site, pos, "%v: hop %d of the onion is for %s", r, i, trunc(fmt.Sprint(np), 200))
			c.Ob(sameData(pl, want[2*i+1]), "onion-payloads", site, pos, "%v: payload of hop %d: %s", r, i, diffStr(pl, want[2*i+1]))
			t, isC := constInt64(h.Field("HopPayload").Field("Type"))
			c.Ob(isC && t == 1, "onion-payloads", site, pos, "%v: payload of hop %d is not a tlv stream (type %v)", r, i, h.Field("HopPayload").Field("Type"))
		}
		c.Ob(2*len(hs) >= len(want), "onion", site, pos, "%v: the onion holds %d hops", r, len(hs))
	}
	// The message.
	resp := derefAll(o.St.Freeze(o.Vals[0]))
	first := b.hops[0]
	c.Ob(resp.Field("FirstNode") == first, "first-node", site, pos, "%v: the message is for %v", r, resp.Field("FirstNode"))
	msg := derefAll(resp.Field("OnionMessage"))
	var point *Term
	if len(clear) > 0 {
		point = App(nil, "PubKey", b.blinding)
	} else {
		point = b.dest.point
	}
	got := msg.Field("BlindingPoint")
	c.Ob(got == point || got != nil && got.IsApp("PubKey") && point.IsApp("PubKey") && got.Args[0] == point.Args[0], "blinding-point", site, pos, "%v: the message's blinding point is %v, want %v", r, got, point)
	blob := msg.Field("OnionBlob")
	c.Ob(blob != nil && blob.Op == "enc" && blob.S == "onionpkt" && len(e.Res) > 0 && (blob.Args[0] == o.St.Freeze(e.Res[0]) || blob.Args[0] == derefTerm(o.St.Freeze(e.Res[0]))), "onion-blob", site, pos, "%v: the message holds %s", r, trunc(fmt.Sprint(blob), 200))
}

// derefTerm is the content of a pointer term.
func derefTerm(t *Term) *Term {
	if t.Op == "&" {
		return t.Args[0]
	}
	return mk(nil, "deref", "", t)
}

// sameKey compares a key by value with a pointer to it.
func sameKey(val, ptr *Term) bool {
	if val == nil {
		return false
	}
	if val.Op == "deref" {
		val = val.Args[0]
	}
	return val == ptr || val.Op == "app" && val.S == ptr.S && len(val.Args) == len(ptr.Args) && sameArgs(val.Args, ptr.Args)
}

func sameArgs(a, b []*Term) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func assembleErrors(c *Ctx) {
	fn := c.R.Func("routes", "CreateBlindedRoute")
	for _, r := range []routeCase{{2, -1, true, 1, true}, {2, 1, true, 1, true}, {1, 2, true, 1, true}} {
		c.In.With(&Scenario{}, func() {
			b := c.buildCase(r)
			outs := c.run("errors", b.s, fn, b.args)
			c.noSilentFailure("errors", fn, outs, nil)
			n := 0
			for _, o := range outs {
				if failed(o) {
					n++
					c.Ob(isNilV(o.Vals[0]), "errors", fnName(fn), fn.Pos(), "%v: a failure comes with a result", r)
				}
			}
			c.Ob(n >= 2, "errors", fnName(fn), fn.Pos(), "%v: only %d failures are possible", r, n)
		})
	}
}

func routeValidate(c *Ctx) {
	in := c.In
	fn := c.R.Func("routes", "CreateBlindedRoute")
	newReq := c.R.Func("routes", "NewBlindedRouteRequest")
	kt := c.R.ExtType("github.com/btcsuite/btcd/btcec/v2", "PrivateKey")
	hopT := newReq.Signature.Params().At(2).Type().Underlying().(*types.Slice).Elem()
	try := func(what, sentinel string, mod func(s *State, a []Val)) {
		in.With(&Scenario{ExtOK: true}, func() {
			s := in.Start()
			a := []Val{c.psym("session", kt), c.psym("blinding", kt), s.newSlice(hopT, c.key("hop0"), c.key("hop1")), NilT, NilT, NilT}
			mod(s, a)
			outs := in.Call(s, newReq, a)
			if len(outs) != 1 || outs[0].Kind != Ret {
				panic(Undecided{"the request constructor has more than one outcome"})
			}
			c.expectErr("validate", fnName(fn), fn.Pos(), c.run("validate", outs[0].St, fn, outs[0].Vals), sentinel, what)
		})
	}
	for _, d := range []bool{false, true} {
		withDest := func(s *State, a []Val) {
			if d {
				a[4], _ = c.namedPath(s, "dest", 1)
				a[2] = s.newSlice(hopT, c.key("hop0"), c.key("dest.first"))
			}
		}
		try("a request without a session key", "@/routes.ErrSessionKeyRequired", func(s *State, a []Val) { withDest(s, a); a[0] = NilT })
		try("a request without a blinding key", "@/routes.ErrBlindingKeyRequired", func(s *State, a []Val) { withDest(s, a); a[1] = NilT })
		try("a request without hops", "@/routes.ErrNoPath", func(s *State, a []Val) { withDest(s, a); a[2] = NilT })
		try("a request with an empty path", "@/routes.ErrNoPath", func(s *State, a []Val) { withDest(s, a); a[2] = s.newSlice(hopT) })
	}
	// The path has to end at the introduction node.
	for n := 1; n <= 3; n++ {
		in.With(&Scenario{ExtOK: true}, func() {
			b := c.buildCase(routeCase{n, 2, true, 1, false})
			eq := eqT(encT("pub33", b.hops[n-1]), encT("pub33", b.dest.first))
			outs := c.run("introduction", b.s, fn, b.args)
			ok, bad := 0, 0
			for _, o := range outs {
				if failed(o) {
					bad++
					c.Ob(in.IsErr(errT(o), "@/routes.ErrNoIntroductionNode"), "introduction", fnName(fn), fn.Pos(), "fails with %v", errT(o))
					continue
				}
				ok++
				v, known := o.St.evalBool(eq)
				if !known {
					v, known = o.St.evalBool(eqT(encT("pub33", b.dest.first), encT("pub33", b.hops[n-1])))
				}
				c.Ob(known && v, "introduction", fnName(fn), fn.Pos(), "a path of %d hops is accepted although it may not end at the introduction node (%s)", n, o.St.FactString())
			}
			c.Ob(ok > 0 && bad > 0, "introduction", fnName(fn), fn.Pos(), "%d accepting and %d refusing paths", ok, bad)
		})
	}
}

func routeCapacity(c *Ctx) {
	in := c.In
	fn := c.R.Func("routes", "CreateBlindedRoute")
	cases := []routeCase{
		{27, -1, true, 1, true}, {26, -1, true, 1, true}, {28, -1, false, 0, true}, {29, -1, false, 0, true}, {40, -1, true, 1, true},
		{1, 27, true, 1, true}, {1, 28, true, 1, true}, {1, 29, false, 0, true}, {1, 255, false, 0, true},
		{2, 26, true, 1, true}, {2, 27, true, 1, true}, {2, 28, true, 1, true}, {28, 1, true, 1, true}, {27, 1, true, 1, true}, {14, 14, true, 1, true}, {15, 14, true, 1, true},
	}
	for _, n := range c.sizes(4, 27, "routes", "lnwire") {
		cases = append(cases, routeCase{n, -1, true, 2, true}, routeCase{1, n, true, 1, true}, routeCase{2, n, false, 0, true}, routeCase{1, -1, false, n, true}, routeCase{3, 2, true, n, true}, routeCase{n, 1, false, 0, true})
	}
	for _, r := range cases {
		total := r.n
		if r.dest >= 0 {
			total += r.dest - 1
		}
		in.With(&Scenario{ExtOK: true}, func() {
			b := c.buildCase(r)
			outs := c.run("capacity", b.s, fn, b.args)
			c.Ob(len(outs) > 0, "capacity", fnName(fn), fn.Pos(), "%v: no path returns", r)
			for _, o := range outs {
				if total > 27 {
					c.Ob(failed(o), "capacity", fnName(fn), fn.Pos(), "%v: more hops than an onion holds are accepted", r)
				} else if c.Ob(!failed(o), "capacity", fnName(fn), fn.Pos(), "%v: refused with %v", r, errT(o)) {
					c.checkRoute(r, b, o, fnName(fn), fn.Pos())
				}
			}
		})
	}
}

// peerSpec describes what the graph knows about the peer of a channel.
type peerSpec struct {
	chans  int
	feats  []int64
	noNode bool
	err    string // "", notfound, plain, code N
	twice  bool   // there are two channels with this peer
}

func (p peerSpec) String() string {
	if p.err != "" {
		return p.err
	}
	if p.noNode {
		return fmt.Sprintf("no-node/%d", p.chans)
	}
	return fmt.Sprintf("%d channels, features %v", p.chans, p.feats)
}

// lndGraph stands in for the node: it lists one channel per peer and knows the
// peers as specified.
func lndGraph(c *Ctx, peers []peerSpec, seen *[]string) func(in *Interp, s *State, ci *CallInfo) ([]Out, bool) {
	const lc = "github.com/lightninglabs/lndclient"
	return func(in *Interp, s *State, ci *CallInfo) ([]Out, bool) {
		switch ci.Method {
		case "ListChannels":
			st := c.R.ExtType(lc, "ChannelInfo")
			var vs []Val
			for i := range peers {
				p := s.obj(st, map[string]Val{"PubKeyBytes": in.byteArr(bsym(fmt.Sprintf("peer%d", i), 33), 33)})
				vs = append(vs, in.load(s, p))
				if peers[i].twice {
					vs = append(vs, in.load(s, p))
				}
			}
			var r Val = s.newSlice(st, vs...)
			if len(vs) == 0 {
				r = NilT
			}
			return in.errFork(s, ci, "ListChannels", s.FreezeAll(ci.Args), r), true
		case "GetNodeInfo":
			k := s.Freeze(ci.Args[2])
			for i, p := range peers {
				if k != bsym(fmt.Sprintf("peer%d", i), 33) {
					continue
				}
				fail := func(e *Term) ([]Out, bool) {
					s.event(&Event{Kind: "call", Name: "GetNodeInfo", Args: s.FreezeAll(ci.Args), Pos: ci.Pos, Fn: ci.Caller, Failed: true})
					return []Out{{St: s, Vals: []Val{NilT, e}}}, true
				}
				switch {
				case p.err == "notfound":
					return fail(mk(errorT, "status", "", IntT(5)))
				case p.err == "plain":
					return fail(mk(errorT, "errnew", "lnd failed"))
				case strings.HasPrefix(p.err, "code "):
					n, _ := strconv.ParseInt(p.err[5:], 10, 64)
					return fail(mk(errorT, "status", "", IntT(n)))
				}
				nt, it := c.R.ExtType(lc, "Node"), c.R.ExtType(lc, "NodeInfo")
				et := structField(it, "Channels").Underlying().(*types.Slice).Elem()
				var edges []Val
				for j := 0; j < p.chans; j++ {
					edges = append(edges, zero(et))
				}
				f := map[string]Val{"Channels": s.newSlice(et, edges...)}
				// The announced channel count is a separate number.
				if !p.noNode {
					bt := structField(nt, "Features").Underlying().(*types.Slice).Elem()
					var fs []Val
					for _, b := range p.feats {
						fs = append(fs, ConstT(IntT(b).C, bt))
					}
					f["Node"] = s.obj(nt, map[string]Val{
						"PubKey":   in.byteArr(bsym(fmt.Sprintf("node%d", i), 33), 33),
						"Features": s.newSlice(bt, fs...),
					})
				}
				return in.errFork(s, ci, "GetNodeInfo", s.FreezeAll(ci.Args), s.obj(it, f)), true
			}
			return nil, false
		}
		return nil, false
	}
}

// replyArgs are the arguments of a request for a reply route that requires
// feature 38 and prefers 41.
func (c *Ctx) replyArgs(s *State, feats []int64) []Val {
	gt := c.R.Type("routes", "BlindedRouteGenerator")
	fn := c.R.Method("routes", "BlindedRouteGenerator", "ReplyPath")
	newG := c.R.Func("routes", "NewBlindedRouteGenerator")
	_ = gt
	lnd := Sym("lnd", newG.Signature.Params().At(0).Type())
	c.In.nonNil[lnd.id] = true
	outs := c.In.Call(s, newG, []Val{lnd, c.key("us")})
	if len(outs) != 1 || outs[0].St != s {
		panic(Undecided{"the generator's constructor has more than one outcome"})
	}
	bt := fn.Signature.Params().At(1).Type().Underlying().(*types.Slice).Elem()
	var fs []Val
	for _, b := range feats {
		fs = append(fs, ConstT(IntT(b).C, bt))
	}
	var fv Val = NilT
	if len(fs) > 0 {
		fv = s.newSlice(bt, fs...)
	}
	return []Val{outs[0].Vals[0], Sym("ctx", fn.Signature.Params().At(0).Type()), fv}
}

func replyRoute(c *Ctx) {
	in := c.In
	fn := c.R.Method("routes", "BlindedRouteGenerator", "ReplyPath")
	site, pos := fnName(fn), fn.Pos()
	req := []int64{38, 41, 12}
	classes := []peerSpec{
		{chans: 1, feats: []int64{12, 38}}, {chans: 2, feats: []int64{38, 12, 41, 7}}, {chans: 0, feats: []int64{12, 38}},
		{chans: 2, feats: []int64{39, 12}}, {chans: 3, noNode: true}, {err: "notfound"}, {err: "code 13"}, {err: "plain"},
		{chans: 3, feats: []int64{12, 38}}, {chans: 3, feats: []int64{38}}, {chans: 1, feats: []int64{12}}, {err: "code 2"}, {chans: 2, feats: nil},
	}
	ok := func(p peerSpec) bool {
		for _, b := range req {
			if b%2 == 0 && !has(p.feats, b) {
				return false
			}
		}
		return p.err == "" && !p.noNode && p.chans > 0
	}
	try := func(peers []peerSpec, earlier ...[]peerSpec) {
		s := in.Start()
		for i := 0; i < 3 || i < len(peers) && i < 40; i++ {
			for j := 0; j < i; j++ {
				s.must(eqT(bsym(fmt.Sprintf("peer%d", i), 33), bsym(fmt.Sprintf("peer%d", j), 33)), false)
				s.must(eqT(bsym(fmt.Sprintf("peer%d", j), 33), bsym(fmt.Sprintf("peer%d", i), 33)), false)
			}
		}
		args := c.replyArgs(s, req)
		states := []*State{s}
		// The generator's earlier routes, for the peers of that time.
		for _, old := range earlier {
			in.With(&Scenario{ExtOK: true, Call: lndGraph(c, old, nil)}, func() {
				var next []*State
				for _, st := range states {
					for _, o := range c.run("earlier", st, fn, args) {
						o.St.event(&Event{Kind: "mark", Name: "epoch"})
						next = append(next, o.St)
					}
				}
				states = next
			})
		}
		in.With(&Scenario{ExtOK: true, Call: lndGraph(c, peers, nil)}, func() {
			var outs []Out
			for _, st := range states {
				outs = append(outs, c.run("select", st, fn, args)...)
			}
			c.Ob(len(outs) > 0, "select", site, pos, "no path returns")
			best, fail := -1, false
			for i, p := range peers {
				if p.err != "" && p.err != "notfound" {
					fail = true
				}
				if ok(p) && (best < 0 || p.chans > peers[best].chans) {
					best = i
				}
			}
			for _, o := range outs {
				switch {
				case len(peers) == 0:
					c.Ob(failed(o) && in.IsErr(errT(o), "@/routes.ErrNoChannels"), "select", site, pos, "without channels: %v", errT(o))
				case fail:
					c.Ob(failed(o), "select", site, pos, "peers %v: a failing lookup is not reported", peers)
				case best < 0:
					c.Ob(failed(o) && in.IsErr(errT(o), "@/routes.ErrNoRelayingPeers"), "select", site, pos, "peers %v: no peer can relay, yet the result is %v", peers, errT(o))
				default:
					if !c.Ob(!failed(o), "select", site, pos, "peers %v: fails with %v", peers, errT(o)) {
						continue
					}
					c.checkReply(o, peers, ok, best, site, pos)
				}
			}
		})
	}
	try(nil)
	// Every status a lookup can fail with, and one that is not defined.
	for n := 1; n <= 18; n++ {
		if n != 5 {
			p := peerSpec{err: fmt.Sprintf("code %d", n)}
			try([]peerSpec{p})
			try([]peerSpec{classes[0], p})
			try([]peerSpec{p, classes[0]})
			try([]peerSpec{classes[0], p, classes[5]})
		}
	}
	// Routes do not depend on earlier ones.
	for _, old := range classes {
		for _, now := range classes {
			try([]peerSpec{now}, []peerSpec{old})
			if c.Thorough {
				for _, oth := range classes {
					try([]peerSpec{now, classes[0]}, []peerSpec{oth, old})
					try([]peerSpec{now}, []peerSpec{oth}, []peerSpec{old})
				}
			}
		}
		try([]peerSpec{classes[0], classes[1]}, []peerSpec{classes[1], old})
		try([]peerSpec{classes[1], old}, []peerSpec{old, classes[1]})
		try([]peerSpec{old}, nil)
		try(nil, []peerSpec{old})
	}
	for _, a := range classes {
		try([]peerSpec{a})
		a2 := a
		a2.twice = true
		try([]peerSpec{a2})
		for _, b := range classes {
			try([]peerSpec{a2, b})
			try([]peerSpec{b, a2})
		}
		for _, b := range classes {
			try([]peerSpec{a, b})
			for i, d := range classes {
				if i < 6 || c.Thorough {
					try([]peerSpec{a, b, d})
				}
			}
		}
	}
	for _, n := range c.sizes(3, 120, "routes") {
		last := peerSpec{chans: 3, feats: []int64{12, 38}}
		many := func(p, q peerSpec) []peerSpec {
			ps := make([]peerSpec, n)
			for i := range ps {
				ps[i] = p
			}
			ps[n-1] = q
			return ps
		}
		try(many(classes[0], last))
		try(many(classes[4], last))
		try(many(classes[5], last))
		try(many(classes[0], classes[6]))
		large := peerSpec{chans: n, feats: []int64{12, 38}}
		try([]peerSpec{last, large})
		try([]peerSpec{large, last})
		for i := 0; len(large.feats) < n; i++ {
			large.feats = append([]int64{int64(100 + i)}, large.feats...)
		}
		try([]peerSpec{large})
		// Many features are required, the last of which a peer lacks.
		req = nil
		for i := 0; i < n-1; i++ {
			req = append(req, int64(100+2*i))
		}
		lacks := peerSpec{chans: n, feats: req}
		req = append(req, 38)
		has := peerSpec{chans: 1, feats: append([]int64{12}, req...)}
		try([]peerSpec{has})
		try([]peerSpec{lacks, has})
		req = []int64{38, 41, 12}
	}
}

// epoch splits a history: what happened since the last mark between calls, and
// before.
func epoch(s *State) (now, old []*Event) {
	evs := s.Events()
	for i := len(evs) - 1; i >= 0; i-- {
		if evs[i].Kind == "mark" && evs[i].Name == "epoch" {
			return evs[i+1:], evs[:i]
		}
	}
	return evs, nil
}

func has(fs []int64, b int64) bool {
	for _, f := range fs {
		if f == b {
			return true
		}
	}
	return false
}

func (c *Ctx) checkReply(o Out, peers []peerSpec, ok func(peerSpec) bool, best int, site string, pos posT) {
	var blind []*Event
	ctx := Sym("ctx", nil)
	evs, old := epoch(o.St)
	c.liveCtx("context", site, evs)
	for _, e := range evs {
		if e.Kind == "call" && e.Name == "sphinx.BuildBlindedPath" {
			blind = append(blind, e)
		}
		if e.Kind == "call" && (e.Name == "ListChannels" || e.Name == "GetNodeInfo") {
			bound := false
			e.Arg(1).Walk(func(t *Term) bool { bound = bound || t.Op == "sym" && t.S == ctx.S; return true })
			c.Ob(bound, "context", site, e.Pos, "%s does not end with the caller's context", e.Name)
		}
		if e.Kind == "call" && e.Name == "ListChannels" {
			c.Ob(e.Arg(2) != nil && isTrue(e.Arg(2)), "active", site, e.Pos, "channels are listed with activeOnly %v", e.Arg(2))
			c.Ob(e.Arg(3) != nil && !isTrue(e.Arg(3)), "private", site, e.Pos, "channels are listed with publicOnly %v", e.Arg(3))
		}
		if e.Kind == "call" && e.Name == "GetNodeInfo" {
			c.Ob(e.Arg(3) != nil && isTrue(e.Arg(3)), "channels", site, e.Pos, "peers are looked up without their channels")
		}
	}
	if !c.Ob(len(blind) == 1, "path", site, pos, "%d paths are blinded", len(blind)) {
		return
	}
	e := blind[0]
	c.Ob(e.Arg(0) != nil && e.Arg(0).Op == "app" && isFreshKey(e.Arg(0)), "fresh-key", site, pos, "the path is blinded with %v", e.Arg(0))
	for _, x := range old {
		if x.Kind == "call" && x.Name == "sphinx.BuildBlindedPath" {
			c.Ob(x.Arg(0) != e.Arg(0), "fresh-key", site, pos, "two paths are blinded with one key")
		}
	}
	hs := e.Args[1:]
	if !c.Ob(len(hs) == 2, "path", site, pos, "the path has %d hops", len(hs)) {
		return
	}
	intro := hs[0].Field("NodePub")
	c.Ob(isKeyOf(intro, bsym(fmt.Sprintf("node%d", best), 33)) || isKeyOf(intro, bsym(fmt.Sprintf("peer%d", best), 33)), "introduction", site, pos, "peers %v: the introduction node is %v, want peer %d", peers, intro, best)
	us := c.key("us")
	c.Ob(hs[1].Field("NodePub") == us, "destination", site, pos, "the path ends at %v", hs[1].Field("NodePub"))
	want := recsT(rec(4, encT("pub33", us)))
	got := hs[0].Field("Payload")
	c.Ob(got == want, "introduction-data", site, pos, "the introduction node is told %s", diffStr(got, want))
	p := hs[1].Field("Payload")
	str, isS := constStr(p)
	c.Ob(p == NilT || isS && str == "", "destination-data", site, pos, "the last hop's data is %v", p)
	c.Ob(o.St.Freeze(o.Vals[0]) == o.St.Freeze(e.Res[0]), "result", site, pos, "the result is not the blinded path")
}

func isTrue(t *Term) bool { b, ok := constBool(t); return ok && b }

// isFreshKey: the key was generated by this call.
func isFreshKey(t *Term) bool {
	if t.Op != "app" {
		return false
	}
	switch t.S {
	case "btcec.NewPrivateKey", "secp.GeneratePrivateKey":
		return true
	}
	return false
}
