package main

import (
	"fmt"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// field describes one record of a bolt 12 message, from the specification.
type field struct {
	typ  int64
	name string
	kind string // hash, tu64, str, feat, time, secs, xonly, point, bytes, sig
}

var offerFields = []field{
	{2, "Chainhash", "hash"},
	{8, "MinimumAmount", "tu64"},
	{10, "Description", "str"},
	{12, "Features", "feat"},
	{14, "Expiry", "time"},
	{20, "Issuer", "str"},
	{22, "QuantityMin", "tu64"},
	{24, "QuantityMax", "tu64"},
	{30, "NodeID", "xonly"},
	{240, "Signature", "sig"},
}

var invoiceFields = []field{
	{3, "Chainhash", "hash"},
	{4, "OfferID", "hash"},
	{8, "Amount", "tu64"},
	{10, "Description", "str"},
	{12, "Features", "feat"},
	{30, "NodeID", "point"},
	{32, "Quantity", "tu64"},
	{38, "PayerKey", "point"},
	{39, "PayerNote", "str"},
	{40, "CreatedAt", "time"},
	{42, "PaymentHash", "hash"},
	{44, "RelativeExpiry", "secs"},
	{46, "CLTVExpiry", "tu64"},
	{50, "PayerInfo", "bytes"},
	{240, "Signature", "sig"},
}

var invoiceRequestFields = []field{
	{3, "Chainhash", "hash"},
	{4, "OfferID", "hash"},
	{8, "Amount", "tu64"},
	{12, "Features", "feat"},
	{32, "Quantity", "tu64"},
	{38, "PayerKey", "xonly"},
	{39, "PayerNote", "str"},
	{50, "PayerInfo", "bytes"},
	{240, "Signature", "sig"},
}

// present lists the facts under which a field has to be written (first
// alternative of the first result) or left out (any alternative of the second).
type fact struct {
	t *Term
	v bool
}

func (f field) facts(v *Term) (present []fact, absent [][]fact) {
	switch f.kind {
	case "hash", "time":
		z := iszeroT(v)
		return []fact{{z, false}}, [][]fact{{{z, true}}}
	case "tu64", "secs":
		z := eqT(v, IntT(0))
		return []fact{{z, false}}, [][]fact{{{z, true}}}
	case "str", "bytes":
		z := eqT(lenT(v), IntT(0))
		return []fact{{z, false}}, [][]fact{{{z, true}}}
	case "feat":
		n := isnilT(v)
		e := App(boolT, "featempty", featBits(v))
		return []fact{{n, false}, {e, false}}, [][]fact{{{n, true}}, {{n, false}, {e, true}}}
	case "xonly", "point", "sig":
		n := isnilT(v)
		return []fact{{n, false}}, [][]fact{{{n, true}}}
	}
	panic(f.kind)
}

func featBits(v *Term) *Term {
	return mk(nil, "deref", "", mk(nil, "field", "RawFeatureVector", v))
}

// wire is the value a present field has to be written as.
func (c *Ctx) wireOf(f field, v *Term) []*Term {
	switch f.kind {
	case "hash", "str", "bytes":
		return []*Term{v}
	case "tu64":
		return []*Term{encT("tu64", v)}
	case "time":
		u := App(types.Typ[types.Int64], "unix", v)
		return []*Term{encT("tu64", mk(uint64T, "conv", "uint64", u))}
	case "secs":
		return nil
	case "feat":
		return []*Term{encT("feat", featBits(v))}
	case "xonly":
		return []*Term{encT("xonly", v)}
	case "point":
		return []*Term{encT("pub33", v)}
	case "sig":
		return []*Term{mk(types.NewArray(types.Typ[types.Byte], 64), "deref", "", v)}
	}
	panic(f.kind)
}

// in is a well-formed wire value of the field and the facts it needs.
func (f field) in(pfx string) (v *Term, facts []fact) {
	n := fmt.Sprintf("%s%d", pfx, f.typ)
	switch f.kind {
	case "hash":
		return bsym(n, 32), nil
	case "sig":
		return bsym(n, 64), nil
	case "xonly":
		return bsym(n, 32), nil
	case "point":
		return bsym(n, 33), nil
	case "tu64", "time":
		v = encT("tu64", Sym(n, uint64T))
		return v, nil
	case "secs":
		v = encT("tu64", Sym(n, uint64T))
		return v, []fact{{ltT(IntT(maxSecs), v.Args[0]), false}}
	}
	v = bsym(n, -1)
	return v, []fact{{ltT(IntT(65535), lenT(v)), false}}
}

// maxSecs is the longest duration, in seconds.
const maxSecs = math.MaxInt64 / 1_000_000_000

// want checks the decoded field against the record it was read from.
func (f field) want(got, v *Term, found bool) (bool, *Term) {
	eq := func(w *Term) (bool, *Term) { return got == w, w }
	if !found {
		switch f.kind {
		case "hash":
			return eq(zerosT(32))
		case "tu64", "secs":
			i, ok := constInt64(got)
			return ok && i == 0, IntT(0)
		case "str":
			return eq(StrT(""))
		case "bytes":
			if s, ok := constStr(got); ok && s == "" {
				return true, NilT
			}
			return eq(NilT)
		case "xonly", "point", "sig":
			return eq(NilT)
		case "time":
			if got.Op == "struct" {
				for _, a := range got.Args {
					if i, ok := constInt64(a); ok && i == 0 || a == NilT {
						continue
					}
					return false, Sym("zero time", nil)
				}
				return true, got
			}
			return false, Sym("zero time", nil)
		case "feat":
			b := got.Field("RawFeatureVector")
			for b != nil && b.Op == "&" {
				b = b.Args[0]
			}
			return b != nil && b.IsApp("RawFeatureVector") && (b.Args[0] == NilT || len(b.Args[0].Args) == 0), Sym("empty features", nil)
		}
	}
	switch f.kind {
	case "hash", "str", "bytes":
		return eq(v)
	case "tu64":
		return eq(v.Args[0])
	case "time":
		return eq(App(nil, "time.Unix", mk(types.Typ[types.Int64], "conv", "int64", v.Args[0]), IntT(0)))
	case "secs":
		w := toLin(v.Args[0]).scale(big1e9).term(nil)
		return eq(w)
	case "sig":
		w := mk(nil, "&", "", v)
		return eq(w)
	case "xonly":
		w := App(nil, "xonly.ParsePubKey", v)
		return got.IsApp("xonly.ParsePubKey") && got.Args[0] == v, w
	case "point":
		w := App(nil, "ParsePubKey", v)
		return got.IsApp("ParsePubKey") && got.Args[0] == v, w
	case "feat":
		b := got.Field("RawFeatureVector")
		for b != nil && b.Op == "&" {
			b = b.Args[0]
		}
		w := App(nil, "featdec", v)
		return b == w, w
	}
	panic(f.kind)
}

// shapes enumerates which of n optional parts are present: all, none, every
// single one and every single one missing; thorough adds all pairs.
func shapes(n int, thorough bool) [][]bool {
	var r [][]bool
	add := func(f func(i int) bool) {
		v := make([]bool, n)
		for i := range v {
			v[i] = f(i)
		}
		r = append(r, v)
	}
	add(func(int) bool { return true })
	add(func(int) bool { return false })
	for k := 0; k < n; k++ {
		k := k
		add(func(i int) bool { return i == k })
		add(func(i int) bool { return i != k })
	}
	for k := 0; thorough && k < n; k++ {
		for l := k + 1; l < n; l++ {
			k, l := k, l
			add(func(i int) bool { return i == k || i == l })
			add(func(i int) bool { return i != k && i != l })
		}
	}
	return r
}

func shapeStr(fs []field, v []bool) string {
	s := ""
	n := 0
	for i, f := range fs {
		if v[i] {
			n++
			s += fmt.Sprintf(" %s", f.name)
		}
	}
	if n == len(fs) {
		return "all fields set"
	}
	if n == 0 {
		return "no field set"
	}
	return "fields set:" + s
}

// encodeFields checks an encoder against the record table.
func (c *Ctx) encodeFields(rule string, fn *ssa.Function, typ types.Type, fs []field) {
	in := c.In
	m := c.psym("m", typ)
	for _, sh := range shapes(len(fs), c.Thorough) {
		featAlts := 1
		for i, f := range fs {
			if f.kind == "feat" && !sh[i] {
				featAlts = 2
			}
		}
		for alt := 0; alt < featAlts; alt++ {
			in.With(&Scenario{ExtOK: true}, func() {
				s := in.Start()
				var want [][]*Term
				for i, f := range fs {
					v := mk(structField(typ, f.name), "field", f.name, m)
					p, a := f.facts(v)
					if !sh[i] {
						p = a[0]
						if len(a) > 1 {
							p = a[alt]
						}
					}
					for _, x := range p {
						s.must(x.t, x.v)
					}
					if !sh[i] {
						continue
					}
					if f.kind == "secs" {
						want = append(want, []*Term{IntT(f.typ), nil, v})
						continue
					}
					want = append(want, rec(f.typ, c.wireOf(f, v)[0]))
				}
				outs := c.run(rule, s, fn, []Val{m})
				c.Ob(len(outs) > 0, rule, fnName(fn), fn.Pos(), "no path returns")
				for _, o := range outs {
					if failed(o) {
						c.Ob(false, rule, fnName(fn), fn.Pos(), "%s: fails with %v", shapeStr(fs, sh), errT(o))
						continue
					}
					got := o.St.Content(o.Vals[0])
					w := want
					for i, r := range w {
						if r[1] == nil {
							w = append([][]*Term(nil), w...)
							w[i] = rec(mustInt(r[0]), secsWire(got, mustInt(r[0]), r[2]))
						}
					}
					x := recsT(w...)
					c.Ob(got == x, rule, fnName(fn), fn.Pos(), "%s: %s", shapeStr(fs, sh), diffStr(got, x))
				}
			})
		}
	}
}

func mustInt(t *Term) int64 {
	i, ok := constInt64(t)
	if !ok {
		panic(Undecided{"not an integer constant: " + t.String()})
	}
	return i
}

// secsWire is the accepted wire form of a duration: a tu64 of the duration in
// whole seconds, however the division is expressed.
func secsWire(got *Term, typ int64, v *Term) *Term {
	parts := contentParts(got)
	for i := 0; i+2 < len(parts); i++ {
		if parts[i] == encT("varint", IntT(typ)) && parts[i+2].Op == "enc" && parts[i+2].S == "tu64" {
			if isSeconds(parts[i+2].Args[0], v) {
				return parts[i+2]
			}
		}
	}
	return encT("tu64", App(nil, "seconds", v))
}

func isSeconds(t, v *Term) bool {
	t = stripConv(t)
	if t.IsApp("wholeseconds") && t.Args[0] == v {
		return true
	}
	if (t.IsApp("quo") || t.IsApp("/")) && len(t.Args) == 2 && t.Args[0] == v {
		i, ok := constInt64(t.Args[1])
		return ok && i == 1_000_000_000
	}
	return false
}

func structField(t types.Type, name string) types.Type {
	st := structOf(t)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	panic(Undecided{fmt.Sprintf("%v has no field %s", t, name)})
}

// decodeFields checks a decoder against the record table.
func (c *Ctx) decodeFields(rule string, fn *ssa.Function, fs []field) {
	in := c.In
	type extra struct {
		name string
		typ  int64
	}
	for _, ex := range []extra{{"", 0}, {" and an unknown low record", 1}, {" and an unknown record in between", 13}, {" and an unknown high record", 1001}} {
		sets := shapes(len(fs), c.Thorough)
		if ex.typ != 0 && !c.Thorough {
			sets = sets[:2]
		}
		for _, sh := range sets {
			any := ex.typ != 0
			for _, b := range sh {
				any = any || b
			}
			if !any {
				// Nothing to decode: there is no merkle root.
				continue
			}
			onlySig := ex.typ == 0
			for i, f := range fs {
				if sh[i] && f.kind != "sig" {
					onlySig = false
				}
			}
			in.With(&Scenario{ExtOK: true, Order: byText}, func() {
				s := in.Start()
				var w [][]*Term
				vals := make([]*Term, len(fs))
				done := ex.typ == 0
				for i, f := range fs {
					if !done && f.typ > ex.typ {
						w = append(w, rec(ex.typ, bsym("unk", 5)))
						done = true
					}
					if !sh[i] {
						continue
					}
					v, facts := f.in("w")
					for _, x := range facts {
						s.must(x.t, x.v)
					}
					vals[i] = v
					w = append(w, rec(f.typ, v))
				}
				if !done {
					w = append(w, rec(ex.typ, bsym("unk", 5)))
				}
				desc := shapeStr(fs, sh) + ex.name
				outs := c.run(rule, s, fn, []Val{s.newBytes(recsT(w...))})
				c.Ob(len(outs) > 0, rule, fnName(fn), fn.Pos(), "no path returns")
				for _, o := range outs {
					if onlySig {
						c.Ob(failed(o), rule, fnName(fn), fn.Pos(), "%s: a message without records other than its signature is accepted", desc)
						continue
					}
					if failed(o) {
						c.Ob(false, rule, fnName(fn), fn.Pos(), "well-formed message, %s: fails with %v", desc, errT(o))
						continue
					}
					got := derefAll(o.St.Freeze(o.Vals[0]))
					for i, f := range fs {
						g := got.Field(f.name)
						if g == nil {
							c.Ob(false, rule, fnName(fn)+"."+f.name, fn.Pos(), "%s: no field %s", desc, f.name)
							continue
						}
						ok, want := f.want(g, vals[i], sh[i])
						c.Ob(ok, rule, fnName(fn)+"."+f.name, fn.Pos(), "%s: field %s: %s", desc, f.name, diffStr(g, want))
					}
				}
			})
		}
	}
}

// malformed checks that records of the wrong size, truncated records and
// failing conversions are refused and that no input makes the decoder panic.
func (c *Ctx) malformed(rule string, fn *ssa.Function, fs []field) {
	in := c.In
	fixed := map[string]int64{"hash": 32, "sig": 64, "xonly": 32, "point": 33}
	for _, f := range fs {
		site := fmt.Sprintf("%s.%s", fnName(fn), f.name)
		// Any length that matches the content.
		in.With(&Scenario{Order: byText}, func() {
			s := in.Start()
			v := Sym("v", bytesT)
			parts := recsT(rec(f.typ, v))
			if f.kind == "sig" {
				parts = recsT(rec(fs[0].typ, valueOf(s, fs[0])), rec(f.typ, v))
			}
			for _, o := range c.run(rule, s, fn, []Val{s.newBytes(parts)}) {
				if failed(o) {
					c.Ob(true, rule, site, fn.Pos(), "")
					continue
				}
				iv := o.St.interval(lenT(v))
				lim := int64(65535)
				switch f.kind {
				case "tu64", "time", "secs":
					lim = 8
				}
				if n, ok := fixed[f.kind]; ok {
					c.Ob(iv.Lo != nil && iv.Hi != nil && iv.Lo.Int64() == n && iv.Hi.Int64() == n, rule, site, fn.Pos(),
						"a record of %v bytes is accepted for a value of %d bytes", iv, n)
				} else {
					c.Ob(iv.Hi != nil && iv.Hi.IsInt64() && iv.Hi.Int64() <= lim, rule, site, fn.Pos(),
						"a record of %v bytes is accepted, the maximum is %d", iv, lim)
				}
				for _, e := range o.St.Events() {
					if e.Failed {
						c.Ob(false, rule, site, e.Pos, "%s fails but the message is accepted", e.Name)
						break
					}
				}
			}
		})
		// The record claims more bytes than there are.
		in.With(&Scenario{Order: byText}, func() {
			s := in.Start()
			v := Sym("v", bytesT)
			n := Sym("n", uint64T)
			s.must(ltT(lenT(v), n), true)
			parts := []*Term{encT("varint", IntT(f.typ)), encT("varint", n), v}
			if f.kind == "sig" {
				parts = append(rec(fs[0].typ, valueOf(s, fs[0])), parts...)
			}
			for _, o := range c.run(rule, s, fn, []Val{s.newBytes(catT(parts...))}) {
				c.Ob(failed(o), rule, site, fn.Pos(), "a truncated record is accepted")
			}
		})
	}
	// Durations that do not fit into one.
	for _, f := range fs {
		if f.kind != "secs" {
			continue
		}
		site := fmt.Sprintf("%s.%s", fnName(fn), f.name)
		in.With(&Scenario{Order: byText, ExtOK: true}, func() {
			s := in.Start()
			v := encT("tu64", Sym("w", uint64T))
			s.must(ltT(lenT(v), IntT(1)), false)
			s.must(ltT(IntT(maxSecs), v.Args[0]), true)
			outs := c.run(rule, s, fn, []Val{s.newBytes(recsT(rec(f.typ, v)))})
			c.Ob(len(outs) > 0, rule, site, fn.Pos(), "no path returns")
			for _, o := range outs {
				c.Ob(failed(o), rule, site, fn.Pos(), "more than %d seconds are accepted, which no duration can hold", maxSecs)
			}
		})
	}
	// Unordered and duplicate records.
	in.With(&Scenario{Order: byText, ExtOK: true}, func() {
		for i := 0; i+1 < len(fs); i++ {
			s := in.Start()
			a, b := valueOf(s, fs[i]), valueOf(s, fs[i+1])
			for _, p := range []*Term{recsT(rec(fs[i+1].typ, b), rec(fs[i].typ, a)), recsT(rec(fs[i].typ, a), rec(fs[i].typ, a))} {
				n := s.fork()
				for _, o := range c.run(rule, n, fn, []Val{n.newBytes(p)}) {
					c.Ob(failed(o), rule, fnName(fn)+"/order", fn.Pos(), "unordered or duplicate records %d, %d are accepted", fs[i+1].typ, fs[i].typ)
				}
			}
		}
	})
	// Arbitrary bytes.
	in.With(&Scenario{Order: byText}, func() {
		s := in.Start()
		for _, o := range c.run(rule, s, fn, []Val{s.newBytes(StrT(""))}) {
			c.Ob(failed(o), rule, fnName(fn)+"/empty", fn.Pos(), "an empty message is accepted")
		}
	})
}

func valueOf(s *State, f field) *Term {
	v, facts := f.in("w")
	for _, x := range facts {
		if _, known := s.evalBool(x.t); !known {
			s.must(x.t, x.v)
		}
	}
	return v
}
