package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
)

// hopSpec is one blinded hop of a symbolic reply path.
type pathSpec struct {
	first, point *Term
	ids, data    []*Term
}

// newPath makes a symbolic reply path with n hops.
func (c *Ctx) newPath(s *State, n int) (*Ptr, *pathSpec) {
	p := &pathSpec{first: c.key("path.first"), point: c.key("path.point")}
	ht := c.R.Type("lnwire", "BlindedHop")
	var hops []Val
	for i := 0; i < n; i++ {
		id := c.key(fmt.Sprintf("path.hop%d", i))
		d := Sym(fmt.Sprintf("path.data%d", i), bytesT)
		p.ids, p.data = append(p.ids, id), append(p.data, d)
		hops = append(hops, s.obj(ht, map[string]Val{"BlindedNodeID": id, "EncryptedData": s.newBytes(d)}))
	}
	return s.obj(c.R.Type("lnwire", "ReplyPath"), map[string]Val{
		"FirstNodeID": p.first, "BlindingPoint": p.point,
		"Hops": s.newSlice(types.NewPointer(ht), hops...),
	}), p
}

// wire is the specification's encoding of the path.
func (p *pathSpec) wire() *Term {
	parts := []*Term{encT("pub33", p.first), encT("pub33", p.point), encT("be8", IntT(int64(len(p.ids))))}
	for i := range p.ids {
		parts = append(parts, encT("pub33", p.ids[i]), encT("be16", lenT(p.data[i])), p.data[i])
	}
	return catT(parts...)
}

// raw is the wire form of a path as it comes from the network.
func rawPath(s *State, n int) (*Term, *pathSpec) {
	p := &pathSpec{first: bsym("raw.first", 33), point: bsym("raw.point", 33)}
	parts := []*Term{p.first, p.point, encT("be8", IntT(int64(n)))}
	most := int64(300)
	if n > 100 {
		// All of it has to fit a record.
		most = 100
	}
	for i := 0; i < n; i++ {
		id, d := bsym(fmt.Sprintf("raw.hop%d", i), 33), bsym(fmt.Sprintf("raw.data%d", i), -1)
		s.must(ltT(IntT(most), lenT(d)), false)
		p.ids, p.data = append(p.ids, id), append(p.data, d)
		parts = append(parts, id, encT("be16", lenT(d)), d)
	}
	return catT(parts...), p
}

func isKeyOf(got, raw *Term) bool {
	return got != nil && got.IsApp("ParsePubKey") && got.Args[0] == raw
}

// checkPath compares a decoded (frozen) reply path with the wire form.
func (c *Ctx) checkPath(rule, site string, pos posT, got *Term, p *pathSpec) {
	c.Ob(isKeyOf(got.Field("FirstNodeID"), p.first), rule, site+".FirstNodeID", pos, "introduction node: %s", trunc(fmt.Sprint(got.Field("FirstNodeID")), 200))
	c.Ob(isKeyOf(got.Field("BlindingPoint"), p.point), rule, site+".BlindingPoint", pos, "blinding point: %s", trunc(fmt.Sprint(got.Field("BlindingPoint")), 200))
	hs, ok := got.Field("Hops").Elems()
	if !c.Ob(ok && len(hs) == len(p.ids), rule, site+".Hops", pos, "%d hops decoded, %d sent", len(hs), len(p.ids)) {
		return
	}
	for i, h := range hs {
		c.Ob(isKeyOf(h.Field("BlindedNodeID"), p.ids[i]), rule, site+".BlindedNodeID", pos, "hop %d of %d: id %s", i, len(hs), trunc(fmt.Sprint(h.Field("BlindedNodeID")), 200))
		c.Ob(sameData(h.Field("EncryptedData"), p.data[i]), rule, site+".EncryptedData", pos, "hop %d of %d: data %s", i, len(hs), trunc(fmt.Sprint(h.Field("EncryptedData")), 200))
	}
}

// sameData compares byte strings; nil and the empty one are the same.
func sameData(got, want *Term) bool {
	none := func(t *Term) bool { return t == NilT || t == StrT("") }
	return got == want || got != nil && none(got) && none(want)
}

func init() {
	register(&Check{
		ID: "W04", Title: "onion payload codec", Floor: 150,
		Rule: "Abstract interpretation of the payload encoder and decoder over every shape of optional parts and every order of final hop records.",
		Run: func(c *Ctx) {
			c.Guard("encode", func() { payloadEncode(c) })
			c.Guard("decode", func() { payloadDecode(c) })
		},
	})
	register(&Check{
		ID: "W05", Title: "reply path codec", Floor: 60,
		Rule: "Abstract interpretation of the reply path encoder and decoder, including its size function, for 0 to 3 hops with arbitrary data, the limits of the length prefixes and records whose length disagrees with their content.",
		Run: func(c *Ctx) {
			c.Guard("encode", func() { pathEncode(c) })
			c.Guard("decode", func() { pathDecode(c) })
		},
	})
	register(&Check{
		ID: "W06", Title: "route data codec", Floor: 20,
		Rule: "Abstract interpretation of the route data encoder and decoder.",
		Run: func(c *Ctx) {
			c.Guard("codec", func() { routeData(c) })
		},
	})
	register(&Check{
		ID: "W07", Title: "onion message envelope", Floor: 8,
		Rule: "Abstract interpretation of the message's wire encoder and decoder.",
		Run: func(c *Ctx) {
			c.Guard("codec", func() { envelope(c) })
		},
	})
}

func payloadEncode(c *Ctx) {
	in := c.In
	fn := c.R.Func("lnwire", "EncodeOnionMessagePayload")
	pt := c.R.Type("lnwire", "OnionMessagePayload")
	ft := c.R.Type("lnwire", "FinalHopPayload")
	tt := structField(ft, "TLVType")
	typesOf := [][]int64{{}, {64}, {66}, {101}, {64, 66}, {66, 64}}
	for _, p := range perms(3) {
		set := []int64{64, 66, 70_001}
		typesOf = append(typesOf, []int64{set[p[0]], set[p[1]], set[p[2]]})
	}
	hopsOf := []int{0, 1, 2}
	for _, n := range c.sizes(4, 120, "lnwire") {
		var ts []int64
		for i := 0; i < n; i++ {
			ts = append(ts, 64+37*int64((i*7+3)%n))
		}
		if n%7 > 0 {
			typesOf = append(typesOf, ts)
		}
		hopsOf = append(hopsOf, n)
	}
	// The reader's own record types and the reserved range below 64.
	for _, hops := range hopsOf {
		for _, enc := range []bool{true, false} {
			for _, ts := range typesOf {
				if hops > 2 && (!enc || len(ts) > 1) || len(ts) > 3 && (hops > 0 || !enc) {
					continue
				}
				in.With(&Scenario{ExtOK: true}, func() {
					s := in.Start()
					var want [][]*Term
					f := map[string]Val{}
					if hops > 0 {
						p, spec := c.newPath(s, hops)
						f["ReplyPath"] = p
						for _, d := range spec.data {
							s.must(ltT(IntT(65535), lenT(d)), false)
						}
						want = append(want, rec(2, spec.wire()))
					}
					d := Sym("encrypted", bytesT)
					s.must(eqT(lenT(d), IntT(0)), !enc)
					f["EncryptedData"] = s.newBytes(d)
					if enc {
						want = append(want, rec(4, d))
					}
					var fin []Val
					vals := map[int64]*Term{}
					for _, t := range ts {
						v := Sym(fmt.Sprintf("final%d", t), bytesT)
						vals[t] = v
						fin = append(fin, s.obj(ft, map[string]Val{
							"TLVType": ConstT(IntT(t).C, tt), "Value": s.newBytes(v),
						}))
					}
					sorted := append([]int64(nil), ts...)
					sort.Slice(sorted, func(i, j int) bool { return sorted[i] < sorted[j] })
					for _, t := range sorted {
						want = append(want, rec(t, vals[t]))
					}
					f["FinalHopPayloads"] = s.newSlice(types.NewPointer(ft), fin...)
					arg := s.obj(pt, f)
					x := recsT(want...)
					for _, o := range c.run("encode", s, fn, []Val{arg}) {
						if failed(o) {
							c.Ob(false, "encode", fnName(fn), fn.Pos(), "%d reply path hops, encrypted data %v, final records %v: fails with %v", hops, enc, ts, errT(o))
							continue
						}
						got := o.St.Content(o.Vals[0])
						c.Ob(got == x, "encode", fnName(fn), fn.Pos(), "%d reply path hops, encrypted data %v, final records %v: %s", hops, enc, ts, diffStr(got, x))
					}
				})
			}
		}
	}
	// Which final hop record types are accepted.
	in.With(&Scenario{ExtOK: true}, func() {
		s := in.Start()
		t := Sym("t", tt)
		v := Sym("v", bytesT)
		arg := s.obj(pt, map[string]Val{"FinalHopPayloads": s.newSlice(types.NewPointer(ft),
			s.obj(ft, map[string]Val{"TLVType": t, "Value": s.newBytes(v)}))})
		lo, hi := s.branch(ltT(t, IntT(64)))
		c.expectErr("final-range", fnName(fn), fn.Pos(), c.run("final-range", lo, fn, []Val{arg}), "@/lnwire.ErrNotFinalPayload", "a final hop record with a type below 64")
		for _, o := range c.run("final-range", hi, fn, []Val{arg}) {
			ok := !failed(o) && o.St.Content(o.Vals[0]) == recsT(recT(t, v))
			c.Ob(ok, "final-range", fnName(fn), fn.Pos(), "a final hop record with a type of 64 or above is not written: %v", errT(o))
		}
	})
	// Duplicate records can not be written.
	in.With(&Scenario{ExtOK: true}, func() {
		s := in.Start()
		mkf := func(n string) Val {
			return s.obj(ft, map[string]Val{"TLVType": ConstT(IntT(64).C, tt), "Value": s.newBytes(Sym(n, bytesT))})
		}
		arg := s.obj(pt, map[string]Val{"FinalHopPayloads": s.newSlice(types.NewPointer(ft), mkf("a"), mkf("b"))})
		c.expectErr("duplicates", fnName(fn), fn.Pos(), c.run("duplicates", s, fn, []Val{arg}), "", "two final hop records of one type")
	})
	// A failing part fails the whole.
	in.With(&Scenario{}, func() {
		s := in.Start()
		p, _ := c.newPath(s, 1)
		arg := s.obj(pt, map[string]Val{"ReplyPath": p})
		c.noSilentFailure("errors", fn, c.run("errors", s, fn, []Val{arg}), nil)
	})
}

func payloadDecode(c *Ctx) {
	in := c.In
	fn := c.R.Func("lnwire", "DecodeOnionMessagePayload")
	sets := [][]int64{{}, {64}, {66}, {65}, {64, 66}, {64, 65, 66}, {66, 67}, {65, 70_001}, {64, 65, 66, 70_001}, {1000}}
	hopsOf := []int{0, 1, 2}
	for _, n := range c.sizes(4, 120, "lnwire") {
		var ts []int64
		for i := 0; i < n; i++ {
			ts = append(ts, 64+37*int64(i))
		}
		sets = append(sets, ts)
		hopsOf = append(hopsOf, n)
	}
	for _, hops := range hopsOf {
		for _, encd := range []bool{true, false} {
			for _, low := range []bool{false, true} {
				if low && (hops == 1 || !encd) && !c.Thorough {
					continue
				}
				for _, ts := range sets {
					for _, empty := range []bool{false, true} {
						if hops > 2 && (!encd || len(ts) > 1) || len(ts) > 4 && (hops > 0 || !encd || low) {
							continue
						}
						if empty && (len(ts) == 0 || hops > 0) {
							continue
						}
						for _, mo := range orders(c.Thorough) {
							in.With(&Scenario{ExtOK: true, MapOrder: mo}, func() {
								s := in.Start()
								var w [][]*Term
								var path *pathSpec
								if hops > 0 {
									var pw *Term
									pw, path = rawPath(s, hops)
									w = append(w, rec(2, pw))
								}
								d := bsym("encrypted", -1)
								s.must(ltT(IntT(65535), lenT(d)), false)
								if encd {
									w = append(w, rec(4, d))
								}
								if low {
									w = append(w, rec(5, bsym("low5", 3)), rec(63, bsym("low63", 2)))
								}
								var vals []*Term
								for _, t := range ts {
									v := bsym(fmt.Sprintf("final%d", t), -1)
									if empty {
										v = StrT("")
									} else {
										s.must(ltT(IntT(65535), lenT(v)), false)
									}
									vals = append(vals, v)
									w = append(w, rec(t, v))
								}
								what := fmt.Sprintf("%d reply path hops, encrypted data %v, final records %v (empty %v)", hops, encd, ts, empty)
								pos := fn.Pos()
								outs := c.run("decode", s, fn, []Val{s.newBytes(recsT(w...))})
								c.Ob(len(outs) > 0, "decode", fnName(fn), pos, "no path returns")
								for _, o := range outs {
									if failed(o) {
										c.Ob(false, "decode", fnName(fn), pos, "%s: fails with %v", what, errT(o))
										continue
									}
									got := derefAll(o.St.Freeze(o.Vals[0]))
									if hops == 0 {
										c.Ob(got.Field("ReplyPath") == NilT, "decode", fnName(fn)+".ReplyPath", pos, "%s: a reply path is reported", what)
									} else {
										c.checkPath("decode", fnName(fn)+".ReplyPath", pos, derefAll(got.Field("ReplyPath")), path)
									}
									e := got.Field("EncryptedData")
									if encd {
										c.Ob(e == d, "decode", fnName(fn)+".EncryptedData", pos, "%s: encrypted data is %v", what, e)
									} else {
										str, isStr := constStr(e)
										c.Ob(e == NilT || isStr && str == "", "decode", fnName(fn)+".EncryptedData", pos, "%s: encrypted data is %v", what, e)
									}
									fs, ok := got.Field("FinalHopPayloads").Elems()
									if !c.Ob(ok && len(fs) == len(ts), "decode", fnName(fn)+".FinalHopPayloads", pos, "%s: %d records delivered: %s", what, len(fs), trunc(fmt.Sprint(got.Field("FinalHopPayloads")), 300)) {
										continue
									}
									for i, f := range fs {
										n, isC := constInt64(f.Field("TLVType"))
										c.Ob(isC && n == ts[i], "decode", fnName(fn)+".FinalHopPayloads", pos, "%s: record %d has type %v", what, i, f.Field("TLVType"))
										v := f.Field("Value")
										str, isStr := constStr(v)
										c.Ob(v == vals[i] || empty && (v == NilT || isStr && str == ""), "decode", fnName(fn)+".FinalHopPayloads", pos, "%s: record %d has value %v", what, ts[i], v)
									}
								}
							})
						}
					}
				}
			}
		}
	}
	// Truncated and unordered records.
	in.With(&Scenario{}, func() {
		for _, t := range []int64{2, 4, 64, 66, 101} {
			s := in.Start()
			v, n := Sym("v", bytesT), Sym("n", uint64T)
			s.must(ltT(lenT(v), n), true)
			if t == 2 {
				// The path's own structure is decided separately.
				continue
			}
			outs := c.run("malformed", s, fn, []Val{s.newBytes(catT(encT("varint", IntT(t)), encT("varint", n), v))})
			c.expectErr("malformed", fnName(fn), fn.Pos(), outs, "", fmt.Sprintf("a truncated record %d", t))
		}
		for _, p := range [][2]int64{{66, 64}, {64, 4}, {64, 64}, {101, 64}, {101, 101}} {
			s := in.Start()
			outs := c.run("malformed", s, fn, []Val{s.newBytes(recsT(rec(p[0], bsym("a", 4)), rec(p[1], bsym("b", 4))))})
			c.expectErr("malformed", fnName(fn), fn.Pos(), outs, "", fmt.Sprintf("record %d followed by %d", p[0], p[1]))
		}
	})
}

// orders are the map iteration orders explored.
func orders(thorough bool) []func(int) []int {
	id := func(n int) []int {
		r := make([]int, n)
		for i := range r {
			r[i] = i
		}
		return r
	}
	rev := func(n int) []int {
		r := make([]int, n)
		for i := range r {
			r[i] = n - 1 - i
		}
		return r
	}
	rot := func(k int) func(int) []int {
		return func(n int) []int {
			r := make([]int, n)
			for i := range r {
				r[i] = (i + k) % n
			}
			return r
		}
	}
	if thorough {
		return []func(int) []int{id, rev, rot(1), rot(2), rot(3)}
	}
	return []func(int) []int{id, rev}
}

func pathEncode(c *Ctx) {
	in := c.In
	pt := c.R.Type("lnwire", "OnionMessagePayload")
	fn := c.R.Func("lnwire", "EncodeOnionMessagePayload")
	for _, n := range append([]int{0, 1, 2, 3}, c.sizes(3, 120, "lnwire")...) {
		in.With(&Scenario{ExtOK: true}, func() {
			s := in.Start()
			p, spec := c.newPath(s, n)
			arg := s.obj(pt, map[string]Val{"ReplyPath": p})
			outs := c.run("encode", s, fn, []Val{arg})
			if n == 0 {
				c.expectErr("encode", fnName(fn), fn.Pos(), outs, "@/lnwire.ErrNoHops", "a reply path without hops")
				return
			}
			okN := 0
			for _, o := range outs {
				long := false
				for _, d := range spec.data {
					iv := o.St.interval(lenT(d))
					if iv.Lo != nil && iv.Lo.Cmp(big.NewInt(65535)) > 0 {
						long = true
					}
				}
				if failed(o) {
					c.Ob(long, "encode", fnName(fn), fn.Pos(), "%d hops: fails with %v when %s", n, errT(o), o.St.FactString())
					continue
				}
				okN++
				for i, d := range spec.data {
					iv := o.St.interval(lenT(d))
					c.Ob(iv.Hi != nil && iv.Hi.Cmp(big.NewInt(65535)) <= 0, "encode", fnName(fn), fn.Pos(),
						"hop %d of %d: %v bytes of data are written after a two byte length", i, n, iv)
				}
				got, x := o.St.Content(o.Vals[0]), recsT(rec(2, spec.wire()))
				c.Ob(got == x, "encode", fnName(fn), fn.Pos(), "%d hops: %s", n, diffStr(got, x))
			}
			c.Ob(okN > 0, "encode", fnName(fn), fn.Pos(), "%d hops can not be encoded", n)
		})
	}
	// The hop count is one byte.
	for _, n := range []int{255, 256, 257, 300} {
		in.With(&Scenario{ExtOK: true}, func() {
			s := in.Start()
			ht := c.R.Type("lnwire", "BlindedHop")
			hop := s.obj(ht, map[string]Val{"BlindedNodeID": c.key("hop"), "EncryptedData": s.newBytes(bsym("data", 16))})
			var hs []Val
			for i := 0; i < n; i++ {
				hs = append(hs, hop)
			}
			arg := s.obj(pt, map[string]Val{"ReplyPath": s.obj(c.R.Type("lnwire", "ReplyPath"), map[string]Val{
				"FirstNodeID": c.key("first"), "BlindingPoint": c.key("point"),
				"Hops": s.newSlice(types.NewPointer(ht), hs...),
			})})
			outs := c.run("hop-count", s, fn, []Val{arg})
			if n > 255 {
				c.expectErr("hop-count", fnName(fn), fn.Pos(), outs, "", fmt.Sprintf("a reply path with %d hops", n))
				return
			}
			for _, o := range outs {
				c.Ob(!failed(o), "hop-count", fnName(fn), fn.Pos(), "%d hops: fails with %v", n, errT(o))
			}
		})
	}
	// Failing parts surface.
	in.With(&Scenario{}, func() {
		s := in.Start()
		p, _ := c.newPath(s, 2)
		c.noSilentFailure("errors", fn, c.run("errors", s, fn, []Val{s.obj(pt, map[string]Val{"ReplyPath": p})}), nil)
	})
}

func pathDecode(c *Ctx) {
	in := c.In
	fn := c.R.Func("lnwire", "DecodeOnionMessagePayload")
	run := func(sc *Scenario, rule string, build func(s *State) *Term, f func(outs []Out)) {
		in.With(sc, func() {
			s := in.Start()
			w := build(s)
			f(c.run(rule, s, fn, []Val{s.newBytes(w)}))
		})
	}
	tail := rec(64, bsym("tail", 40))
	counts := append([]int{1, 2, 3}, c.sizes(3, 254, "lnwire")...)
	for _, n := range counts {
		for _, tl := range []bool{false, true} {
			var spec *pathSpec
			run(&Scenario{ExtOK: true}, "decode", func(s *State) *Term {
				var w *Term
				w, spec = rawPath(s, n)
				if tl {
					return recsT(rec(2, w), tail)
				}
				return recsT(rec(2, w))
			}, func(outs []Out) {
				c.Ob(len(outs) > 0, "decode", fnName(fn), fn.Pos(), "no path returns")
				for _, o := range outs {
					if failed(o) {
						c.Ob(false, "decode", fnName(fn), fn.Pos(), "%d hops: fails with %v", n, errT(o))
						continue
					}
					c.checkPath("decode", fnName(fn), fn.Pos(), derefAll(derefAll(o.St.Freeze(o.Vals[0])).Field("ReplyPath")), spec)
				}
			})
		}
		if n > 3 {
			continue
		}
		// A key that does not parse.
		run(&Scenario{}, "bad-key", func(s *State) *Term {
			w, _ := rawPath(s, n)
			return recsT(rec(2, w))
		}, func(outs []Out) { c.noSilentFailure("bad-key", fn, outs, nil) })
		// Bytes that are left over in the record, which make sense as
		// records of their own.
		for _, x := range [][][]*Term{{rec(66, bsym("extra", 3))}, {rec(70, bsym("none", 0))}, {rec(4, bsym("extra", 5)), rec(66, bsym("more", 1))}} {
			run(&Scenario{ExtOK: true}, "trailing", func(s *State) *Term {
				w, _ := rawPath(s, n)
				return recsT(rec(2, catT(w, recsT(x...))))
			}, func(outs []Out) {
				c.expectErr("trailing", fnName(fn), fn.Pos(), outs, "", fmt.Sprintf("a reply path record with %d hops and further records in it", n))
			})
		}
		// A record that is complete but cut off, anywhere in the last hop.
		for cut := int64(1); cut <= 40; cut++ {
			run(&Scenario{ExtOK: true}, "cut", func(s *State) *Term {
				w, _ := rawPath(s, n-1)
				ps := append([]*Term(nil), contentParts(w)...)
				ps[2] = encT("be8", IntT(int64(n)))
				last := []*Term{bsym("lastid", 33), encT("be16", IntT(5)), bsym("lastdata", 5)}
				h, _ := s.splitContent(last, IntT(40-cut))
				return recsT(rec(2, catT(append(ps, h...)...)))
			}, func(outs []Out) {
				c.expectErr("cut", fnName(fn), fn.Pos(), outs, "", fmt.Sprintf("a reply path with %d hops, cut off %d bytes before its end", n, cut))
			})
		}
		// Bytes that are left over in the record.
		for _, tl := range []bool{false, true} {
			run(&Scenario{ExtOK: true}, "trailing", func(s *State) *Term {
				w, _ := rawPath(s, n)
				x := Sym("x", bytesT)
				s.must(eqT(lenT(x), IntT(0)), false)
				s.must(ltT(IntT(300), lenT(x)), false)
				w = catT(w, x)
				if tl {
					return recsT(rec(2, w), tail)
				}
				return recsT(rec(2, w))
			}, func(outs []Out) {
				c.expectErr("trailing", fnName(fn), fn.Pos(), outs, "", fmt.Sprintf("a reply path record with %d hops and left over bytes", n))
			})
		}
		// A record that ends inside of the last hop: its data must not be
		// taken from the records that follow.
		// In the first cases the data ends where a later record ends, so
		// that a reader that takes it from there finds nothing amiss.
		for _, exact := range []bool{true, false} {
			for cut := int64(1); cut <= 3; cut++ {
				next := tail
				if exact {
					if cut == 1 {
						next = nil
					} else {
						next = rec(64, bsym("tail", cut-2))
					}
				}
				run(&Scenario{ExtOK: true}, "overrun", func(s *State) *Term {
					w, spec := rawPath(s, n)
					last := spec.data[n-1]
					s.must(ltT(lenT(last), IntT(8)), false)
					l := subT(lenT(w), IntT(cut), nil)
					return recsT([]*Term{encT("varint", IntT(2)), encT("varint", l), w}, next)
				}, func(outs []Out) {
					c.expectErr("overrun", fnName(fn), fn.Pos(), outs, "", fmt.Sprintf("a reply path with %d hops that overruns its record", n))
				})
			}
		}
	}
	// No hops.
	run(&Scenario{ExtOK: true}, "no-hops", func(s *State) *Term {
		w, _ := rawPath(s, 0)
		return recsT(rec(2, w))
	}, func(outs []Out) {
		c.expectErr("no-hops", fnName(fn), fn.Pos(), outs, "@/lnwire.ErrNoHops", "a reply path without hops")
	})
	// More hops announced than there are.
	run(&Scenario{ExtOK: true}, "missing-hops", func(s *State) *Term {
		w, _ := rawPath(s, 2)
		parts := append([]*Term(nil), contentParts(w)...)
		parts[2] = encT("be8", IntT(3))
		return recsT(rec(2, catT(parts...)), tail)
	}, func(outs []Out) {
		c.expectErr("missing-hops", fnName(fn), fn.Pos(), outs, "", "a reply path that announces more hops than it has")
	})
	// Arbitrary short records.
	for n := int64(0); n <= 67; n++ {
		run(&Scenario{}, "short", func(s *State) *Term {
			return recsT(rec(2, bsym("short", n)), tail)
		}, func(outs []Out) {
			c.expectErr("short", fnName(fn), fn.Pos(), outs, "", fmt.Sprintf("a reply path record of %d bytes", n))
		})
	}
}

func routeData(c *Ctx) {
	in := c.In
	e, d := c.R.Func("lnwire", "EncodeBlindedRouteData"), c.R.Func("lnwire", "DecodeBlindedRouteData")
	dt := c.R.Type("lnwire", "BlindedRouteData")
	for i := 0; i < 4; i++ {
		in.With(&Scenario{ExtOK: true}, func() {
			s := in.Start()
			f := map[string]Val{}
			var want [][]*Term
			if i&1 != 0 {
				f["NextNodeID"] = c.key("next")
				want = append(want, rec(4, encT("pub33", c.key("next"))))
			}
			if i&2 != 0 {
				f["NextBlindingOverride"] = c.key("override")
				want = append(want, rec(8, encT("pub33", c.key("override"))))
			}
			for _, o := range c.run("encode", s, e, []Val{s.obj(dt, f)}) {
				if failed(o) {
					c.Ob(false, "encode", fnName(e), e.Pos(), "fails with %v", errT(o))
					continue
				}
				got, x := o.St.Content(o.Vals[0]), recsT(want...)
				c.Ob(got == x, "encode", fnName(e), e.Pos(), "%s", diffStr(got, x))
			}
		})
		for _, unk := range []bool{false, true} {
			in.With(&Scenario{ExtOK: true}, func() {
				s := in.Start()
				a, b := bsym("raw.next", 33), bsym("raw.override", 33)
				var w [][]*Term
				if unk {
					w = append(w, rec(1, bsym("pad", 9)))
				}
				if i&1 != 0 {
					w = append(w, rec(4, a))
				}
				if unk {
					w = append(w, rec(5, bsym("u5", 9)))
				}
				if i&2 != 0 {
					w = append(w, rec(8, b))
				}
				if unk {
					w = append(w, rec(65537, bsym("u9", 9)))
				}
				for _, o := range c.run("decode", s, d, []Val{s.newBytes(recsT(w...))}) {
					if failed(o) {
						c.Ob(false, "decode", fnName(d), d.Pos(), "fails with %v", errT(o))
						continue
					}
					got := derefAll(o.St.Freeze(o.Vals[0]))
					one := func(name string, on bool, raw *Term) {
						g := got.Field(name)
						c.Ob(on && isKeyOf(g, raw) || !on && g == NilT, "decode", fnName(d)+"."+name, d.Pos(), "%s is %v", name, g)
					}
					one("NextNodeID", i&1 != 0, a)
					one("NextBlindingOverride", i&2 != 0, b)
				}
			})
		}
	}
	for _, t := range []int64{4, 8} {
		in.With(&Scenario{}, func() {
			s := in.Start()
			v := Sym("v", bytesT)
			outs := c.run("malformed", s, d, []Val{s.newBytes(recsT(rec(t, v)))})
			c.noSilentFailure("malformed", d, outs, nil)
			for _, o := range outs {
				iv := o.St.interval(lenT(v))
				c.Ob(failed(o) || iv.Lo.Int64() == 33 && iv.Hi.Int64() == 33, "malformed", fnName(d), d.Pos(), "a key of %v bytes is accepted", iv)
			}
			s = in.Start()
			n := Sym("n", uint64T)
			s.must(ltT(lenT(v), n), true)
			c.expectErr("malformed", fnName(d), d.Pos(), c.run("malformed", s, d, []Val{s.newBytes(catT(encT("varint", IntT(t)), encT("varint", n), v))}), "", "a truncated record")
		})
	}
	in.With(&Scenario{ExtOK: true}, func() {
		s := in.Start()
		w := recsT(rec(8, bsym("b", 33)), rec(4, bsym("a", 33)))
		c.expectErr("malformed", fnName(d), d.Pos(), c.run("malformed", s, d, []Val{s.newBytes(w)}), "", "unordered route data")
	})
}

func envelope(c *Ctx) {
	in := c.In
	mt := c.R.Type("lnwire", "OnionMessage")
	enc, dec := c.R.Method("lnwire", "OnionMessage", "Encode"), c.R.Method("lnwire", "OnionMessage", "Decode")
	typ := c.R.Method("lnwire", "OnionMessage", "MsgType")
	in.With(&Scenario{ExtOK: true}, func() {
		s := in.Start()
		bt := derefType(enc.Signature.Params().At(0).Type())
		buf := s.newPtr(&BufV{})
		k, b := c.key("point"), Sym("blob", bytesT)
		m := s.obj(mt, map[string]Val{"BlindingPoint": k, "OnionBlob": s.newBytes(b)})
		_ = bt
		n := 0
		for _, o := range c.run("encode", s, enc, []Val{m, buf, IntT(0)}) {
			iv := o.St.interval(lenT(b))
			if failed(o) {
				c.Ob(iv.Lo != nil && iv.Lo.Cmp(big.NewInt(65535)) > 0, "encode", fnName(enc), enc.Pos(), "fails with %v for a blob of %v bytes", errT(o), iv)
				continue
			}
			n++
			c.Ob(iv.Hi != nil && iv.Hi.Cmp(big.NewInt(65535)) <= 0, "encode", fnName(enc), enc.Pos(), "a blob of %v bytes is written after a two byte length", iv)
			got := o.St.Content(in.load(o.St, buf))
			x := catT(encT("pub33", k), encT("be16", lenT(b)), b)
			c.Ob(got == x, "encode", fnName(enc), enc.Pos(), "%s", diffStr(got, x))
		}
		c.Ob(n > 0, "encode", fnName(enc), enc.Pos(), "no message can be encoded")
		for _, o := range c.run("type", s.fork(), typ, []Val{m}) {
			t, ok := constInt64(o.Vals[0])
			c.Ob(ok && t == 513, "type", fnName(typ), typ.Pos(), "the message type is %v", o.St.Freeze(o.Vals[0]))
		}
	})
	decode := func(sc *Scenario, w func(s *State) *Term, f func(o Out, got *Term)) {
		in.With(sc, func() {
			s := in.Start()
			c0 := w(s)
			m := s.obj(mt, map[string]Val{})
			r := &IfaceV{T: types.NewPointer(c.R.ExtType("bytes", "Buffer")), V: s.newPtr(&BufV{Parts: contentParts(c0)})}
			outs := c.run("decode", s, dec, []Val{m, r, IntT(0)})
			c.Ob(len(outs) > 0, "decode", fnName(dec), dec.Pos(), "no path returns")
			for _, o := range outs {
				f(o, derefAll(o.St.Freeze(m)))
			}
		})
	}
	k, b := bsym("raw.point", 33), Sym("raw.blob", bytesT)
	decode(&Scenario{ExtOK: true}, func(s *State) *Term {
		s.must(ltT(IntT(65535), lenT(b)), false)
		return catT(k, encT("be16", lenT(b)), b)
	}, func(o Out, got *Term) {
		if !c.Ob(!failed(o), "decode", fnName(dec), dec.Pos(), "a well-formed message fails with %v", errT(o)) {
			return
		}
		c.Ob(isKeyOf(got.Field("BlindingPoint"), k), "decode", fnName(dec), dec.Pos(), "blinding point %v", got.Field("BlindingPoint"))
		c.Ob(got.Field("OnionBlob") == b, "decode", fnName(dec), dec.Pos(), "onion blob %v", got.Field("OnionBlob"))
	})
	decode(&Scenario{}, func(s *State) *Term {
		return catT(k, encT("be16", IntT(40)), bsym("raw.blob", 39))
	}, func(o Out, got *Term) {
		c.Ob(failed(o), "decode", fnName(dec), dec.Pos(), "a truncated blob is accepted: %v %v", got, o.St.FactString())
	})
	for n := int64(0); n < 35; n++ {
		decode(&Scenario{}, func(s *State) *Term { return bsym("raw", n) }, func(o Out, got *Term) {
			c.Ob(failed(o), "decode", fnName(dec), dec.Pos(), "a message of %d bytes is accepted", n)
		})
	}
	decode(&Scenario{}, func(s *State) *Term {
		return catT(k, encT("be16", IntT(0)))
	}, func(o Out, got *Term) {
		bad := false
		for _, e := range o.St.Events() {
			bad = bad || e.Failed
		}
		c.Ob(!bad || failed(o), "decode", fnName(dec), dec.Pos(), "a blinding point that does not parse is accepted")
	})
}
