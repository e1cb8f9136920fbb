package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"sort"
)

// clause is one condition of a decision: the alternatives under which it holds
// and those under which it is violated, with the error that reports it.
type clause struct {
	name     string
	holds    [][]fact
	violated [][]fact
	sentinel string
}

func feasible(s *State, facts ...fact) bool {
	n := s.fork()
	for _, f := range facts {
		if !n.assume(f.t, f.v) {
			return false
		}
	}
	// A later fact may contradict an earlier one through refinement.
	for _, f := range facts {
		if b, ok := n.evalBool(f.t); ok && b != f.v {
			return false
		}
	}
	return true
}

// decide checks outcomes against the clauses: success exactly when all hold.
func (c *Ctx) decide(rule, site string, pos posT, outs []Out, cs []clause) {
	nOK, nBad := 0, 0
	for _, o := range outs {
		if !failed(o) {
			nOK++
			for _, cl := range cs {
				bad := false
				for _, v := range cl.violated {
					bad = bad || feasible(o.St, v...)
				}
				c.Ob(!bad, rule, site, pos, "accepted although %q may not hold (%s)", cl.name, o.St.FactString())
			}
			continue
		}
		nBad++
		e := errT(o)
		// Every combination of satisfied clauses must be impossible.
		var all func(i int, acc []fact) bool
		all = func(i int, acc []fact) bool {
			if i == len(cs) {
				return feasible(o.St, acc...)
			}
			for _, h := range cs[i].holds {
				if feasible(o.St, append(append([]fact(nil), acc...), h...)...) && all(i+1, append(append([]fact(nil), acc...), h...)) {
					return true
				}
			}
			return false
		}
		c.Ob(!all(0, nil), rule, site, pos, "refused with %v although every condition may hold (%s)", e, o.St.FactString())
		named, match := false, false
		for _, cl := range cs {
			for _, v := range cl.violated {
				if feasible(o.St, v...) {
					if cl.sentinel == "" {
						match = true
					} else {
						named = true
						match = match || c.In.IsErr(e, cl.sentinel)
					}
				}
			}
		}
		c.Ob(match || !named, rule, site, pos, "refused with %v, which names none of the conditions that are violated when %s", e, o.St.FactString())
	}
	c.Ob(nOK > 0 && nBad > 0, rule, site, pos, "%d accepting and %d refusing paths", nOK, nBad)
}

func sigClause(m, key *Term, tag string, required bool) []clause {
	sig := mk(nil, "field", "Signature", m)
	raw := mk(types.NewArray(types.Typ[types.Byte], 64), "deref", "", sig)
	ps := App(nil, "ParseSignature", raw)
	ver := App(boolT, "Verify", ps, App(nil, "TaggedHash", StrT("lightning"+tag+"signature"), mk(nil, "field", "MerkleRoot", m)), key)
	perr := App(nil, "err:ParseSignature", raw)
	_ = perr
	cl := clause{
		name:     "the signature over the merkle root verifies with the message's own key and tag",
		violated: [][]fact{{{isnilT(sig), false}, {ver, false}}},
		holds:    [][]fact{{{isnilT(sig), false}, {ver, true}, {sigParses(raw), true}}},
	}
	if !required {
		cl.holds = append(cl.holds, []fact{{isnilT(sig), true}})
		return []clause{cl}
	}
	return []clause{cl, {
		name:     "signature present",
		holds:    [][]fact{{{isnilT(sig), false}}},
		violated: [][]fact{{{isnilT(sig), true}}},
		sentinel: "@/lnwire.ErrSignatureRequired",
	}}
}

// sigParses stands for the success of parsing the signature.
func sigParses(raw *Term) *Term { return App(boolT, "parses", raw) }

// markParse records on each outcome whether parsing the signature failed.
func markParse(outs []Out, raw *Term) []Out {
	for _, o := range outs {
		for _, e := range o.St.Events() {
			if e.Failed {
				o.St.assume(sigParses(raw), false)
			}
		}
	}
	return outs
}

func init() {
	register(&Check{
		ID: "W08", Title: "bolt 12 validation", Floor: 40,
		Rule: "Abstract interpretation of the three Validate methods on an unconstrained message; every accepting path must entail each condition and every refusing path must be inconsistent with all conditions holding.",
		Run: func(c *Ctx) {
			c.Guard("validate", func() { validate12(c) })
			c.Guard("digest", func() { digest12(c) })
		},
	})
	register(&Check{
		ID: "W09", Title: "invoice request construction", Floor: 30,
		Rule: "Abstract interpretation of the constructor with unconstrained amounts and quantities (interval and difference facts), and of the root it stores.",
		Run: func(c *Ctx) {
			c.Guard("construct", func() { newInvReq(c) })
		},
	})
	register(&Check{
		ID: "W10", Title: "merkle root construction", Floor: 60,
		Rule: "Abstract interpretation of the root calculation over record lists of every length up to the bound, in any order, compared with a tree built from the specification, for both outcomes of every hash comparison (one and two records) and two total orders of hashes above.",
		Run: func(c *Ctx) {
			c.Guard("root", func() { merkle(c) })
		},
	})
	register(&Check{
		ID: "W11", Title: "root of decoded messages", Floor: 60,
		Rule: "Abstract interpretation of the three decoders on raw records: the root must be the specification's root of exactly those records.",
		Run: func(c *Ctx) {
			c.Guard("decoded-root", func() { decodedRoot(c) })
		},
	})
}

func digest12(c *Ctx) {
	fn := c.R.Method("lnwire", "InvoiceRequest", "SignatureDigest")
	c.In.With(&Scenario{}, func() {
		m := c.psym("m", c.R.Type("lnwire", "InvoiceRequest"))
		for _, o := range c.run("digest", c.In.Start(), fn, []Val{m}) {
			got := o.St.Freeze(o.Vals[0])
			want := App(nil, "TaggedHash", StrT("lightninginvoice_requestsignature"), mk(nil, "field", "MerkleRoot", m))
			c.Ob(got == want, "digest", fnName(fn), fn.Pos(), "%s", diffStr(got, want))
		}
	})
}

func nonzero(t *Term) clause {
	return clause{holds: [][]fact{{{eqT(t, IntT(0)), false}}}, violated: [][]fact{{{eqT(t, IntT(0)), true}}}}
}

func nonNilC(name, sentinel string, t *Term) clause {
	return clause{name, [][]fact{{{isnilT(t), false}}}, [][]fact{{{isnilT(t), true}}}, sentinel}
}

func validate12(c *Ctx) {
	in := c.In
	each := func(typ string, cs func(m *Term, f func(string) *Term) []clause) {
		fn := c.R.Method("lnwire", typ, "Validate")
		t := c.R.Type("lnwire", typ)
		in.With(&Scenario{}, func() {
			m := c.psym("m", t)
			f := func(n string) *Term { return mk(structField(t, n), "field", n, m) }
			outs := c.run("validate", in.Start(), fn, []Val{m})
			raw := mk(types.NewArray(types.Typ[types.Byte], 64), "deref", "", f("Signature"))
			c.decide("validate", fnName(fn), fn.Pos(), markParse(outs, raw), cs(m, f))
			// Validation must not change the message.
			for _, o := range outs {
				c.Ob(o.St.Freeze(m) == m, "pure", fnName(fn), fn.Pos(), "the message is modified")
			}
		})
	}
	strC := func(name, sentinel string, t *Term) clause {
		x := nonzero(lenT(t))
		x.name, x.sentinel = name, sentinel
		return x
	}
	hashC := func(name, sentinel string, t *Term) clause {
		return clause{name, [][]fact{{{iszeroT(t), false}}}, [][]fact{{{iszeroT(t), true}}}, sentinel}
	}
	each("Offer", func(m *Term, f func(string) *Term) []clause {
		mn, mx := f("QuantityMin"), f("QuantityMax")
		return append(sigClause(m, f("NodeID"), "offer", false),
			nonNilC("node id", "@/lnwire.ErrNodeIDRequired", f("NodeID")),
			strC("description", "@/lnwire.ErrDescriptionRequried", f("Description")),
			clause{"minimum quantity not above the maximum",
				[][]fact{{{eqT(mn, IntT(0)), true}}, {{eqT(mx, IntT(0)), true}}, {{ltT(mx, mn), false}}},
				[][]fact{{{eqT(mn, IntT(0)), false}, {eqT(mx, IntT(0)), false}, {ltT(mx, mn), true}}},
				"@/lnwire.ErrQuantityRange"},
		)
	})
	each("Invoice", func(m *Term, f func(string) *Term) []clause {
		am := nonzero(f("Amount"))
		am.name, am.sentinel = "amount", "@/lnwire.ErrNoAmount"
		return append(sigClause(m, f("NodeID"), "invoice", false), am,
			hashC("payment hash", "@/lnwire.ErrNoPaymentHash", f("PaymentHash")),
			hashC("creation time", "@/lnwire.ErrNoCreationTime", f("CreatedAt")),
			nonNilC("node id", "@/lnwire.ErrNodeIDRequired", f("NodeID")),
			strC("description", "@/lnwire.ErrDescriptionRequried", f("Description")),
		)
	})
	each("InvoiceRequest", func(m *Term, f func(string) *Term) []clause {
		return append(sigClause(m, f("PayerKey"), "invoice_request", true),
			hashC("offer id", "@/lnwire.ErrOfferIDRequired", f("OfferID")),
			nonNilC("payer key", "@/lnwire.ErrPayerKeyRequired", f("PayerKey")),
		)
	})
}

// ---- merkle trees ----

func tagged(tag, msg *Term) *Term { return App(nil, "TaggedHash", tag, msg) }

type wrec struct {
	typ int64
	v   *Term
}

// typT is the constant of a type; negative ones stand for those beyond 2^63.
func typT(t int64) *Term { return bigT(new(big.Int).SetUint64(uint64(t))) }

func isSigType(t int64) bool { return t >= 240 && t <= 1000 }

// refRoot is the specification's root of a list of records.
func refRoot(rs []wrec, order int) *Term {
	var l []wrec
	for _, r := range rs {
		if !isSigType(r.typ) {
			l = append(l, r)
		}
	}
	sort.SliceStable(l, func(i, j int) bool { return uint64(l[i].typ) < uint64(l[j].typ) })
	var all []*Term
	for _, r := range l {
		all = append(all, rec(r.typ, r.v)...)
	}
	branch := func(a, b *Term) *Term {
		if cmpBytes(a, b, order) > 0 {
			a, b = b, a
		}
		return tagged(StrT("LnBranch"), catT(a, b))
	}
	var level []*Term
	for _, r := range l {
		e := catT(rec(r.typ, r.v)...)
		level = append(level, branch(tagged(StrT("LnLeaf"), e), tagged(catT(append([]*Term{StrT("LnAll")}, all...)...), e)))
	}
	for len(level) > 1 {
		var next []*Term
		for i := 0; i+1 < len(level); i += 2 {
			next = append(next, branch(level[i], level[i+1]))
		}
		if len(level)%2 == 1 {
			next = append(next, level[len(level)-1])
		}
		level = next
	}
	if len(level) == 0 {
		return nil
	}
	return level[0]
}

// primitive makes a library record of a byte string.
func (c *Ctx) primitive(s *State, typ int64, v *Term) Val {
	mp := c.R.ExtFunc("github.com/lightningnetwork/lnd/tlv", "MakePrimitiveRecord")
	tt := mp.Params[0].Type()
	p := s.newPtr(s.newBytes(v))
	outs := c.In.Call(s, mp, []Val{ConstT(typT(typ).C, tt), &IfaceV{T: types.NewPointer(bytesT), V: p}})
	if len(outs) != 1 || outs[0].Kind != Ret || outs[0].St != s {
		panic(Undecided{"MakePrimitiveRecord"})
	}
	return outs[0].Vals[0]
}

func merkle(c *Ctx) {
	in := c.In
	fn := c.R.Func("lnwire", "MerkleRoot")
	rt := c.R.ExtType("github.com/lightningnetwork/lnd/tlv", "Record")
	max := 8
	if c.Thorough {
		max = 17
	}
	try := func(ts []int64, cmp int, order func(n int) []int) {
		in.With(&Scenario{ExtOK: true, Order: cmp}, func() {
			s := in.Start()
			var rs []wrec
			var vs []Val
			for _, i := range order(len(ts)) {
				t := ts[i]
				v := Sym(fmt.Sprintf("v%d", t), bytesT)
				rs = append(rs, wrec{t, v})
				vs = append(vs, c.primitive(s, t, v))
			}
			want := refRoot(rs, cmp)
			outs := c.run("root", s, fn, []Val{s.newSlice(rt, vs...)})
			c.Ob(len(outs) > 0, "root", fnName(fn), fn.Pos(), "no path returns")
			for _, o := range outs {
				if want == nil {
					c.Ob(failed(o) && in.IsErr(errT(o), "@/lnwire.ErrNoTLVs"), "root", fnName(fn), fn.Pos(), "records %v: no root is expected, error %v", ts, errT(o))
					continue
				}
				if failed(o) {
					c.Ob(false, "root", fnName(fn), fn.Pos(), "records %v: fails with %v", ts, errT(o))
					continue
				}
				got := o.St.Freeze(o.Vals[0])
				c.Ob(got == want, "root", fnName(fn), fn.Pos(), "records %v: %s", ts, diffStr(got, want))
			}
		})
	}
	var lens []int
	for n := 1; n <= max; n++ {
		lens = append(lens, n)
	}
	hi := 40
	if c.Thorough {
		hi = 80
	}
	for _, n := range append(lens, c.sizes(max, hi, "lnwire")...) {
		var ts []int64
		for i := 0; i < n; i++ {
			ts = append(ts, int64(2*i+1))
		}
		for _, rev := range []bool{false, true} {
			for i, o := range orders(true)[:3] {
				if n > 17 && (i != 1 || rev) {
					continue
				}
				try(ts, orderOf(rev), o)
			}
		}
	}
	for _, ts := range [][]int64{{}, {240}, {1000}, {240, 500, 1000}, {2, 240}, {239, 240, 1000, 1001}, {2, 8, 10, 240, 300}, {239}, {1001}, {2, 999}, {1, 1001, 999_999},
		// Types that only differ, or look like signatures, in their low bits.
		{3, 1<<32 + 1}, {1<<32 + 240, 7}, {5, 1<<16 + 2, 1<<32 + 3, 1<<40 + 1}, {1 << 8, 3}, {1<<16 + 1000, 2}, {math.MaxInt64, 1}, {-1, 3, math.MaxInt64}, {-1 << 63, 1 << 62, 9}} {
		for _, rev := range []bool{false, true} {
			for _, o := range orders(true)[:2] {
				try(ts, orderOf(rev), o)
			}
		}
	}
	// Every outcome of the comparisons: with many arbitrary orders each pair
	// of hashes is met both ways, independently of the others.
	for n := 1; n <= 4; n++ {
		var ts []int64
		for i := 0; i < n; i++ {
			ts = append(ts, int64(i+1))
		}
		for o := anyOrder; o < anyOrder+16; o++ {
			try(ts, o, orders(true)[0])
		}
	}
}

func decodedRoot(c *Ctx) {
	in := c.In
	type msg struct {
		dec string
		fs  []field
	}
	for _, m := range []msg{{"DecodeOffer", offerFields}, {"DecodeInvoice", invoiceFields}, {"DecodeInvoiceRequest", invoiceRequestFields}} {
		fn := c.R.Func("lnwire", m.dec)
		try := func(what string, build func(s *State) []wrec) {
			for _, rev := range []bool{false, true} {
				for _, mo := range orders(c.Thorough) {
					in.With(&Scenario{ExtOK: true, Order: orderOf(rev), MapOrder: mo}, func() {
						s := in.Start()
						rs := build(s)
						sort.SliceStable(rs, func(i, j int) bool { return rs[i].typ < rs[j].typ })
						var w [][]*Term
						for _, r := range rs {
							w = append(w, rec(r.typ, r.v))
						}
						want := refRoot(rs, orderOf(rev))
						outs := c.run("decoded-root", s, fn, []Val{s.newBytes(recsT(w...))})
						c.Ob(len(outs) > 0, "decoded-root", fnName(fn), fn.Pos(), "no path returns")
						for _, o := range outs {
							if want == nil {
								c.Ob(failed(o), "decoded-root", fnName(fn), fn.Pos(), "%s: accepted", what)
								continue
							}
							if failed(o) {
								c.Ob(false, "decoded-root", fnName(fn), fn.Pos(), "%s: fails with %v", what, errT(o))
								continue
							}
							got := derefAll(o.St.Freeze(o.Vals[0])).Field("MerkleRoot")
							c.Ob(got == want, "decoded-root", fnName(fn), fn.Pos(), "%s: %s", what, diffStr(got, want))
						}
					})
				}
			}
		}
		known := func(s *State, sel func(i int, f field) bool) []wrec {
			var r []wrec
			for i, f := range m.fs {
				if sel(i, f) {
					r = append(r, wrec{f.typ, valueOf(s, f)})
				}
			}
			return r
		}
		unk := func(ts ...int64) []wrec {
			var r []wrec
			for _, t := range ts {
				v := bsym(fmt.Sprintf("unk%d", t), -1)
				r = append(r, wrec{t, v})
			}
			return r
		}
		lim := func(s *State, rs []wrec) []wrec {
			for _, r := range rs {
				if iv := s.interval(lenT(r.v)); iv.Hi == nil || iv.Hi.Int64() > 65535 {
					s.must(ltT(IntT(65535), lenT(r.v)), false)
				}
			}
			return rs
		}
		all := func(int, field) bool { return true }
		try("all fields", func(s *State) []wrec { return known(s, all) })
		for k := range m.fs {
			k := k
			try("single field "+m.fs[k].name, func(s *State) []wrec { return known(s, func(i int, _ field) bool { return i == k }) })
			try("field "+m.fs[k].name+" and an unknown record", func(s *State) []wrec {
				return append(known(s, func(i int, _ field) bool { return i == k }), lim(s, unk(5))...)
			})
		}
		try("unknown records of every range", func(s *State) []wrec {
			return append(known(s, all), lim(s, unk(1, 7, 239, 241, 999, 1001, 70_001))...)
		})
		for _, n := range c.sizes(8, 30, "lnwire") {
			var ts []int64
			for i := 0; i < n; i++ {
				ts = append(ts, int64(1001+i))
			}
			try(fmt.Sprintf("%d unknown records", n), func(s *State) []wrec { return lim(s, unk(ts...)) })
		}
		try("unknown records only", func(s *State) []wrec { return lim(s, unk(1, 7, 65)) })
		try("an empty unknown record", func(s *State) []wrec {
			return append(known(s, all), wrec{7, StrT("")}, wrec{1001, StrT("")})
		})
		try("only an empty unknown record", func(s *State) []wrec { return []wrec{{7, StrT("")}} })
		// Known fields with values the encoder would leave out.
		try("explicit empty and zero values", func(s *State) []wrec {
			var r []wrec
			for _, f := range m.fs {
				switch f.kind {
				case "hash":
					r = append(r, wrec{f.typ, zerosT(32)})
				case "str", "bytes", "feat":
					r = append(r, wrec{f.typ, StrT("")})
				default:
					if f.kind != "tu64" {
						r = append(r, wrec{f.typ, valueOf(s, f)})
					}
				}
			}
			return r
		})
	}
}

func newInvReq(c *Ctx) {
	in := c.In
	fn := c.R.Func("lnwire", "NewInvoiceRequest")
	ot := c.R.Type("lnwire", "Offer")
	m := c.psym("offer", ot)
	f := func(n string) *Term { return mk(structField(ot, n), "field", n, m) }
	amt := Sym("amount", structField(ot, "MinimumAmount"))
	q, note, key := Sym("quantity", uint64T), Sym("note", stringT), c.key("payer")
	mn, mx := f("QuantityMin"), f("QuantityMax")
	z := func(t *Term) *Term { return eqT(t, IntT(0)) }
	cs := []clause{
		{"amount not below the offer's minimum", [][]fact{{{ltT(amt, f("MinimumAmount")), false}}}, [][]fact{{{ltT(amt, f("MinimumAmount")), true}}}, "@/lnwire.ErrBelowMinAmount"},
		{"a quantity if the offer has a range", [][]fact{{{z(q), false}}, {{z(mn), true}, {z(mx), true}}}, [][]fact{{{z(q), true}, {z(mn), false}}, {{z(q), true}, {z(mx), false}}}, "@/lnwire.ErrQuantityRequired"},
		{"no quantity if the offer has no range", [][]fact{{{z(q), true}}, {{z(mn), false}}, {{z(mx), false}}}, [][]fact{{{z(q), false}, {z(mn), true}, {z(mx), true}}}, "@/lnwire.ErrNoQuantity"},
		{"quantity not below the minimum", [][]fact{{{z(mn), true}}, {{ltT(q, mn), false}}}, [][]fact{{{z(mn), false}, {ltT(q, mn), true}}}, "@/lnwire.ErrOutsideQuantityRange"},
		{"quantity not above the maximum", [][]fact{{{z(mx), true}}, {{ltT(mx, q), false}}}, [][]fact{{{z(mx), false}, {ltT(mx, q), true}}}, "@/lnwire.ErrOutsideQuantityRange"},
		{"the request has a record", [][]fact{{{iszeroT(f("MerkleRoot")), false}}}, nil, ""},
	}
	for _, rev := range []bool{false, true} {
		in.With(&Scenario{ExtOK: true, Order: orderOf(rev)}, func() {
			s := in.Start()
			s.must(iszeroT(f("MerkleRoot")), false)
			outs := c.run("conditions", s, fn, []Val{m, amt, q, key, note})
			c.decide("conditions", fnName(fn), fn.Pos(), outs, cs)
			for _, o := range outs {
				if failed(o) {
					continue
				}
				got := derefAll(o.St.Freeze(o.Vals[0]))
				want := map[string]*Term{
					"Chainhash": f("Chainhash"), "OfferID": f("MerkleRoot"), "Amount": amt,
					"Features": f("Features"), "Quantity": q, "PayerKey": key, "PayerNote": note,
				}
				for _, n := range []string{"Chainhash", "OfferID", "Amount", "Features", "Quantity", "PayerKey", "PayerNote"} {
					g := got.Field(n)
					ok := g == want[n]
					if !ok && n == "Quantity" {
						b, known := o.St.evalBool(eqT(g, q))
						ok = known && b
					}
					c.Ob(ok, "content", fnName(fn)+"."+n, fn.Pos(), "%s is %v", n, g)
				}
				// The root covers the request's own records.
				var rs []wrec
				for _, fl := range invoiceRequestFields {
					if fl.kind == "sig" || fl.name == "PayerInfo" {
						continue
					}
					v := want[fl.name]
					p, ab := fl.facts(v)
					gone := false
					for _, a := range ab {
						if !feasibleNot(o.St, a) {
							gone = true
						}
					}
					if gone {
						continue
					}
					c.Ob(!feasibleNot(o.St, p), "root", fnName(fn), fn.Pos(), "field %s: presence is not decided on a path", fl.name)
					rs = append(rs, wrec{fl.typ, c.wireOf(fl, v)[0]})
				}
				w := refRoot(rs, orderOf(rev))
				g := got.Field("MerkleRoot")
				c.Ob(g == w, "root", fnName(fn), fn.Pos(), "%s", diffStr(g, w))
			}
		})
	}
}

// feasibleNot: one of the facts may not hold.
func feasibleNot(s *State, fs []fact) bool {
	for _, f := range fs {
		if b, known := s.evalBool(f.t); !known || b != f.v {
			return true
		}
	}
	return false
}
