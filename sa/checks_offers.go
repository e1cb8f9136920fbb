package main

import (
	"fmt"
	"strings"
	"unicode"
)

func init() {
	register(&Check{
		ID: "O01", Title: "offer strings", Floor: 2000,
		Rule: "Abstract interpretation of the decoding of offer strings over strings whose characters are sets of bytes, partitioned by the program's own conditions; each resulting set of strings is compared with the encoding's definition, and the provenance of the decoded bytes with their characters.",
		Run: func(c *Ctx) {
			c.Guard("strings", func() { offerStrings(c) })
		},
	})
}

const (
	bech32Chars = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
	joinSpace   = " \t\n\r"
)

// verdict is what the encoding's definition says about a string.
type verdict int

const (
	vAccept verdict = iota
	vEither         // both are fine
	vRefuse
	vSplit  // refuse, as a misplaced join
	vPrefix // refuse, as a wrong prefix
)

func (v verdict) String() string {
	return [...]string{"has to be accepted", "may be accepted", "has to be refused", "has to be refused as a misplaced join", "has to be refused for its prefix"}[v]
}

// judge applies the definition: parts joined by '+', each of them followed by
// optional whitespace; the prefix "lno", the last '1', and bech32 characters,
// all of them in one case.
func judge(str string) (verdict, string) {
	lenient, blank := false, false
	parts := strings.Split(str, "+")
	for i, p := range parts {
		t := strings.TrimFunc(p, unicode.IsSpace)
		if t == "" {
			blank = true
			parts[i] = ""
			continue
		}
		if lead := p[:strings.Index(p, t)]; lead != "" && (i == 0 || strings.Trim(lead, joinSpace) != "") {
			lenient = true
		}
		if !strings.HasSuffix(p, t) {
			lenient = true
		}
		parts[i] = t
	}
	all := strings.Join(parts, "")
	up, low := false, false
	for i := 0; i < len(all); i++ {
		c := all[i]
		if c < 33 || c > 126 {
			return vRefuse, ""
		}
		up = up || c >= 'A' && c <= 'Z'
		low = low || c >= 'a' && c <= 'z'
	}
	if blank && len(parts) > 1 {
		return vSplit, ""
	}
	if blank || up && low {
		return vRefuse, ""
	}
	all = strings.ToLower(all)
	one := strings.LastIndexByte(all, '1')
	if one < 1 {
		return vRefuse, ""
	}
	hrp, data := all[:one], all[one+1:]
	for i := 0; i < len(data); i++ {
		if strings.IndexByte(bech32Chars, data[i]) < 0 {
			return vRefuse, ""
		}
	}
	// No offer fits into so few characters.
	short := len(data) < 6
	if hrp != "lno" {
		if short || lenient || strings.Contains(hrp, "1") {
			return vRefuse, ""
		}
		return vPrefix, ""
	}
	if short || lenient {
		return vEither, data
	}
	return vAccept, data
}

// rightPrefix: there is nothing wrong with the prefix, whatever follows it.
func rightPrefix(str string) bool {
	one := strings.LastIndexByte(str, '1')
	return one > 0 && (str[:one] == "lno" || str[:one] == "LNO")
}

// tmpl is a family of strings.
type tmpl struct {
	name string
	us   []*Term
}

func offerStrings(c *Ctx) {
	fn := c.R.Func("offers", "DecodeOfferStr")
	site := fnName(fn)
	sets := map[int]byteSet{}
	seq := 0
	ch := func(b byteSet) *Term {
		seq++
		t := charT(fmt.Sprintf("c%d", seq))
		sets[t.id] = b
		return t
	}
	lit := func(str string) []*Term {
		var r []*Term
		for i := 0; i < len(str); i++ {
			r = append(r, ch(setOf(str[i:i+1])))
		}
		return r
	}
	// konst is a string that is fixed, e.g. characters outside of ascii.
	konst := func(str string) []*Term {
		us, _ := units(StrT(str))
		return us
	}
	base := func(n int, upper bool) []*Term {
		p, d := "lno1", bech32Chars
		if upper {
			p, d = strings.ToUpper(p), strings.ToUpper(d)
		}
		r := lit(p)
		for i := 0; i < n; i++ {
			// Digits, letters, or both.
			set := setOf(d)
			if i != 2 {
				set = byteSet{}
				for j := 0; j < len(d); j++ {
					if unicode.IsDigit(rune(d[j])) == (i%2 == 0) {
						set.add(int(d[j]))
					}
				}
			}
			r = append(r, ch(set))
		}
		return r
	}
	ins := func(us []*Term, at int, mid ...*Term) []*Term {
		return append(append(append([]*Term(nil), us[:at]...), mid...), us[at:]...)
	}
	space := func() *Term { return ch(setOf(asciiSpaces)) }
	var ts []tmpl
	add := func(name string, us []*Term) { ts = append(ts, tmpl{name, us}) }
	const data = 7
	for _, up := range []bool{false, true} {
		n := len(base(data, up))
		add("plain", base(data, up))
		for i := 0; i < n; i++ {
			us := base(data, up)
			us[i] = ch(anyByte())
			add(fmt.Sprintf("any byte instead of character %d", i), us)
		}
		for i := 0; i <= n; i++ {
			add(fmt.Sprintf("any byte before character %d", i), ins(base(data, up), i, ch(anyByte())))
			add(fmt.Sprintf("a join and any byte before character %d", i), ins(base(data, up), i, append(lit("+"), ch(anyByte()))...))
		}
	}
	n := len(base(data, false))
	for _, i := range []int{0, 1, 3, 4, 5, n - 1, n} {
		b := func() []*Term { return base(data, false) }
		add(fmt.Sprintf("any byte and a join before character %d", i), ins(b(), i, append([]*Term{ch(anyByte())}, lit("+")...)...))
		add(fmt.Sprintf("a join and two spaces before character %d", i), ins(b(), i, append(lit("+"), space(), space())...))
		add(fmt.Sprintf("two joins with a space between them before character %d", i), ins(b(), i, append(append(lit("+"), space()), lit("+")...)...))
		add(fmt.Sprintf("two joins with spaces around them before character %d", i), ins(b(), i, append(append(append(lit("+"), space(), space()), lit("+")...), space())...))
		add(fmt.Sprintf("three joins before character %d", i), ins(b(), i, lit("+++")...))
		for _, u := range []string{"\u00a0", "\u2003", "\u0085", "\u212a", "\u017f", "\u0131", "\u00e9", "\xff\xfe", "\u200b"} {
			add(fmt.Sprintf("%+q before character %d", u, i), ins(b(), i, konst(u)...))
			add(fmt.Sprintf("a join and %+q before character %d", u, i), ins(b(), i, append(lit("+"), konst(u)...)...))
		}
	}
	// A character outside of ascii that a change of case turns into one inside.
	for _, u := range []string{"\u212a", "\u017f", "\u0131"} {
		for _, up := range []bool{false, true} {
			us := base(data+1, up)
			add(fmt.Sprintf("%+q instead of a character", u), append(append(append([]*Term(nil), us[:6]...), konst(u)...), us[7:]...))
		}
	}
	for _, p := range [][2]int{{1, 3}, {2, 4}, {4, 5}, {5, n - 1}, {3, n}, {0, 5}} {
		us := ins(base(data, false), p[1], append(lit("+"), ch(setOf(joinSpace+"+")))...)
		add(fmt.Sprintf("joins before characters %d and %d", p[0], p[1]), ins(us, p[0], append(lit("+"), ch(setOf(joinSpace+"q")))...))
	}
	for i := 0; i < n; i++ {
		// Two characters of the other case, or any others.
		us := base(data, i%2 == 0)
		us[i] = ch(anyByte())
		us[(i+5)%n] = ch(setOf("aAbBqQ1+ \x7f\xc3"))
		add(fmt.Sprintf("any byte instead of character %d, some of characters %d", i, (i+5)%n), us)
	}
	for k := 0; k <= 7; k++ {
		add(fmt.Sprintf("%d characters of data", k), base(k, k%2 == 0))
		us := base(k, false)
		add(fmt.Sprintf("%d characters of data, any byte at the end", k), append(us, ch(anyByte())))
	}
	for k := 0; k <= 3; k++ {
		var us []*Term
		for i := 0; i < k; i++ {
			us = append(us, ch(setOf("+ 1lq\n\x00")))
		}
		add(fmt.Sprintf("%d bytes", k), us)
	}
	// Prefixes.
	for _, p := range []string{"lnr1", "lni1", "ln1", "lnoo1", "1", "lno", "lno11", "lnO1", "LNo1"} {
		us := lit(p)
		for i := 0; i < data; i++ {
			us = append(us, ch(setOf(bech32Chars)))
		}
		add("prefix "+p, us)
	}
	// Longer strings, with more joins.
	for _, k := range c.sizes(12, 1100, "offers") {
		for _, n := range []int{k - 4, k} {
			add(fmt.Sprintf("%d characters of data", n), base(n, n%2 == 0))
		}
		if k > 120 {
			continue
		}
		for _, n := range []int{k - 4, k, k + 6} {
			us := base(n, false)
			for i := n; i > 3; i-- {
				us = ins(us, i, lit("+ ")...)
			}
			add(fmt.Sprintf("%d characters of data, joins between all", n), us)
		}
		add(fmt.Sprintf("%d spaces after a join", k), ins(base(data, false), 6, append(lit("+"), lit(strings.Repeat(" ", k))...)...))
	}
	if c.Thorough {
		for i := 0; i <= n; i++ {
			for j := i; j <= n; j++ {
				us := ins(base(data, false), j, append(lit("+"), ch(anyByte()))...)
				add(fmt.Sprintf("joins before characters %d and %d, any byte after the second", i, j), ins(us, i, append(lit("+"), space())...))
				second := anyByte()
				second[2], second[3] = 0, 0
				us = ins(base(data, j%2 == 0), j, ch(second))
				add(fmt.Sprintf("any bytes before characters %d and %d", i, j), ins(us, i, ch(anyByte())))
			}
		}
	}

	sc := &Scenario{Chars: sets, LoopK: 1200, Call: offerHook}
	for _, t := range ts {
		c.In.With(sc, func() {
			s := c.In.Start()
			m := s.event(&Event{Kind: "mark"})
			for _, o := range c.run("returns", s, fn, []Val{joinUnits(t.us)}) {
				c.judgeOut(site, fn.Pos(), t, o, o.St.EventsSince(m))
			}
		})
	}
}

const asciiSpaces = "\t\n\v\f\r "

// offerHook: the steps after the string has been taken apart.
func offerHook(in *Interp, s *State, ci *CallInfo) ([]Out, bool) {
	name := ""
	switch {
	case strings.HasSuffix(ci.Name, "bech32.ConvertBits"):
		name = "convert"
	case ci.Fn != nil && ci.Name == "@/lnwire.DecodeOffer":
		name = "decode"
	case ci.Name == "(*@/lnwire.Offer).Validate":
		name = "validate"
	default:
		return nil, false
	}
	var args []*Term
	for i, a := range ci.Args {
		if i == 0 && name != "validate" {
			args = append(args, s.Content(a))
			continue
		}
		args = append(args, s.Freeze(a))
	}
	f := s.fork()
	e := in.envErr(name)
	in.nonNil[e.id] = true
	f.event(&Event{Kind: "call", Name: name, Args: args, Pos: ci.Pos, Fn: ci.Caller, Failed: true})
	s.event(&Event{Kind: "call", Name: name, Args: args, Pos: ci.Pos, Fn: ci.Caller})
	switch name {
	case "convert":
		return []Out{
			{St: f, Vals: []Val{NilT, e}, Kind: Ret},
			{St: s, Vals: []Val{s.newBytes(App(bytesT, "converted", args[0])), NilT}, Kind: Ret},
		}, true
	case "decode":
		o := App(ci.Sig.Results().At(0).Type(), "offer", args[0])
		in.nonNil[o.id] = true
		return []Out{
			{St: f, Vals: []Val{NilT, e}, Kind: Ret},
			{St: s, Vals: []Val{o, NilT}, Kind: Ret},
		}, true
	}
	return []Out{{St: f, Vals: []Val{e}, Kind: Ret}, {St: s, Vals: []Val{NilT}, Kind: Ret}}, true
}

// judgeOut compares the outcome for a set of strings with the definition.
func (c *Ctx) judgeOut(site string, pos posT, t tmpl, o Out, evs []*Event) {
	s := o.St
	in := c.In
	// The inputs that the outcome's strings range over: a single string per
	// character of bech32, every byte otherwise.
	type dim struct {
		at   int
		vals []int
	}
	var dims []dim
	lower, upper := setOf(bech32Chars), setOf(strings.ToUpper(bech32Chars))
	str := make([]byte, len(t.us))
	for i, u := range t.us {
		if v, ok := constInt64(u); ok {
			str[i] = byte(v)
			continue
		}
		set := s.charSet(u)
		vals := set.values()
		str[i] = byte(vals[0])
		if subset(set, lower) && subset(in.sc.Chars[u.id], lower) || subset(set, upper) && subset(in.sc.Chars[u.id], upper) {
			continue
		}
		if len(vals) > 1 {
			dims = append(dims, dim{i, vals})
		}
	}
	calls := func(n string) (r []*Event) {
		for _, e := range evs {
			if e.Name == n {
				r = append(r, e)
			}
		}
		return
	}
	later := ""
	for _, e := range evs {
		if e.Failed && (e.Name == "convert" || e.Name == "decode" || e.Name == "validate") {
			later = e.Name
		}
	}
	conv, dec, val := calls("convert"), calls("decode"), calls("validate")
	bad := failed(o)
	if !bad {
		// The offer is the decoded one, of the converted characters.
		ok := len(conv) == 1 && len(dec) == 1 && len(val) >= 1 && later == ""
		c.Ob(ok, "steps", site, pos, "%s: an offer is returned after %d conversions, %d decodings and %d validations (failed: %q)", t.name, len(conv), len(dec), len(val), later)
		if ok {
			off := App(nil, "offer", App(bytesT, "converted", conv[0].Args[0]))
			c.Ob(s.Freeze(o.Vals[0]) == off && dec[0].Args[0] == off.Args[0] && derefTo(val[0].Args[0], off), "result", site, pos, "%s: returns %v, decoded from %v, validated %v", t.name, s.Freeze(o.Vals[0]), dec[0].Args[0], val[0].Args[0])
			from, ok1 := constInt64(conv[0].Args[1])
			to, ok2 := constInt64(conv[0].Args[2])
			pad, ok3 := constBool(conv[0].Args[3])
			c.Ob(ok1 && ok2 && ok3 && from == 5 && to == 8 && !pad, "convert", site, conv[0].Pos, "%s: the characters are converted with %v", t.name, conv[0].Args[1:])
		}
	} else {
		c.Ob(isNilV(o.Vals[0]), "refused", site, pos, "%s: a failure returns an offer", t.name)
	}
	// Strings that the path excludes.
	free := map[*Term]bool{}
	for _, d := range dims {
		free[t.us[d.at]] = true
	}
	feasible := func() bool {
		env := map[*Term]int{}
		for i, u := range t.us {
			env[u] = int(str[i])
		}
	nots:
		for _, n := range s.charNots {
			for _, a := range n.Args {
				one := charVars(a)
				if len(one) == 1 && !free[one[0]] {
					if b, known := s.evalBool(a); !known || !b {
						continue nots
					}
					continue
				}
				if v, ok := evalChar(a, env); !ok || v.ExactString() == "false" {
					continue nots
				}
			}
			return false
		}
		return true
	}
	// Every string of the set.
	idx := make([]int, len(dims))
	for {
		for k, d := range dims {
			str[d.at] = byte(d.vals[idx[k]])
		}
		v, data := judge(string(str))
		switch {
		case !feasible():
			v = vRefuse
		case !bad:
			c.Ob(v <= vEither, "strict", site, pos, "%s: %q is accepted, but %s", t.name, str, v)
		case later == "":
			c.Ob(v != vAccept, "accept", site, pos, "%s: %q is refused with %v", t.name, str, errT(o))
			if v == vSplit {
				c.Ob(in.IsErr(errT(o), "@/offers.ErrIncorrectSplit"), "split", site, pos, "%s: %q fails with %v", t.name, str, errT(o))
			}
			if v != vPrefix && rightPrefix(string(str)) {
				c.Ob(!in.IsErr(errT(o), "@/offers.ErrBadHRP"), "prefix", site, pos, "%s: %q fails for its prefix: %v", t.name, str, errT(o))
			}
			if v == vPrefix {
				c.Ob(in.IsErr(errT(o), "@/offers.ErrBadHRP"), "prefix", site, pos, "%s: %q fails with %v", t.name, str, errT(o))
			}
		}
		if len(conv) == 1 && v <= vEither {
			c.charsConverted(site, t, s, str, data, conv[0])
		}
		k := 0
		for ; k < len(dims); k++ {
			idx[k]++
			if idx[k] < len(dims[k].vals) {
				break
			}
			idx[k] = 0
		}
		if k == len(dims) {
			break
		}
	}
}

// charsConverted: each 5 bit value is its own character's, for every value the
// character can have.
func (c *Ctx) charsConverted(site string, t tmpl, s *State, str []byte, data string, e *Event) {
	us, ok := units(e.Args[0])
	if !ok {
		panic(Undecided{"the values of an offer's characters"})
	}
	if !c.Ob(len(us) == len(data), "data", site, e.Pos, "%s: %d values are converted for the %d characters of %q", t.name, len(us), len(data), str) {
		return
	}
	// The data characters are the last ones of the input that are neither
	// joins nor whitespace.
	at := len(t.us)
	for i := len(us) - 1; i >= 0; i-- {
		at--
		for at >= 0 && (str[at] == '+' || str[at] >= 0x80 || unicode.IsSpace(rune(str[at]))) {
			at--
		}
		if at < 0 || len(charVars(us[i])) != 1 || charVars(us[i])[0] != t.us[at] {
			c.Ob(false, "data", site, e.Pos, "%s: value %d of %q is %v", t.name, i, str, us[i])
			return
		}
		u := t.us[at]
		vals := []int{int(str[at])}
		if subset(c.In.sc.Chars[u.id], setOf(bech32Chars)) || subset(c.In.sc.Chars[u.id], setOf(strings.ToUpper(bech32Chars))) {
			vals = s.charSet(u).values()
		}
		for _, v := range vals {
			want := strings.IndexByte(bech32Chars, byte(unicode.ToLower(rune(v))))
			got, ok := evalChar(us[i], map[*Term]int{u: v})
			if !c.Ob(ok && got.ExactString() == fmt.Sprint(want), "data", site, e.Pos, "%s: the character %q is converted as %v, its value is %d", t.name, byte(v), got, want) {
				return
			}
		}
	}
}

func subset(a, b byteSet) bool {
	for i := range a {
		if a[i]&^b[i] != 0 {
			return false
		}
	}
	return true
}

// derefTo: a receiver is (the address of) the given value.
func derefTo(t, want *Term) bool { return derefAll(t) == want || t == want }
