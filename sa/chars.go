package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"
	"unicode"
	"unicode/utf8"
)

// The byte domain: scenario inputs whose value is any byte of a set. A
// condition over one of them is decided by evaluating it on the whole set, and
// narrows the set on both sides of a branch. A string is a sequence of such
// bytes.

type byteSet [4]uint64

func (b byteSet) has(v int) bool { return b[v>>6]>>(uint(v)&63)&1 == 1 }
func (b *byteSet) add(v int)     { b[v>>6] |= 1 << (uint(v) & 63) }
func (b byteSet) empty() bool    { return b == byteSet{} }

func (b byteSet) values() []int {
	var r []int
	for v := 0; v < 256; v++ {
		if b.has(v) {
			r = append(r, v)
		}
	}
	return r
}

func setOf(s string) byteSet {
	var b byteSet
	for i := 0; i < len(s); i++ {
		b.add(int(s[i]))
	}
	return b
}

func anyByte() byteSet { return byteSet{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)} }

// charT is a byte input.
func charT(name string) *Term { return mk(types.Typ[types.Byte], "char", name) }

func (s *State) charSet(c *Term) byteSet {
	if b, ok := s.chars[c.id]; ok {
		return b
	}
	if b, ok := s.in.sc.Chars[c.id]; ok {
		return b
	}
	return anyByte()
}

func (s *State) setChar(c *Term, b byteSet) {
	m := make(map[int]byteSet, len(s.chars)+1)
	for k, v := range s.chars {
		m[k] = v
	}
	m[c.id] = b
	s.chars = m
}

// charTabs are the tables of chtab terms.
var charTabs = map[int][]constant.Value{}

var charVarMemo = map[int][]*Term{}

// charVars are the byte inputs a term depends on.
func charVars(t *Term) []*Term {
	if t.Op == "char" {
		return []*Term{t}
	}
	if len(t.Args) == 0 {
		return nil
	}
	if r, ok := charVarMemo[t.id]; ok {
		return r
	}
	var r []*Term
	for _, a := range t.Args {
	next:
		for _, v := range charVars(a) {
			for _, w := range r {
				if v == w {
					continue next
				}
			}
			r = append(r, v)
		}
	}
	charVarMemo[t.id] = r
	return r
}

func wrapInt(v *big.Int, t types.Type) *big.Int {
	lo, hi, ok := intRange(t)
	if !ok || v.Cmp(lo) >= 0 && v.Cmp(hi) <= 0 {
		return v
	}
	span := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	r := new(big.Int).Sub(v, lo)
	r.Mod(r, span)
	return r.Add(r, lo)
}

// evalChar evaluates a term for given bytes.
func evalChar(t *Term, env map[*Term]int) (constant.Value, bool) {
	num := func(a *Term) (*big.Int, bool) {
		c, ok := evalChar(a, env)
		if !ok || c.Kind() != constant.Int {
			return nil, false
		}
		if i, exact := constant.Int64Val(c); exact {
			return big.NewInt(i), true
		}
		b, ok := new(big.Int).SetString(c.ExactString(), 10)
		return b, ok
	}
	switch t.Op {
	case "char":
		v, ok := env[t]
		return constant.MakeInt64(int64(v)), ok
	case "const":
		return t.C, true
	case "lin":
		l := toLin(t)
		r := new(big.Int).Set(l.c)
		for a, k := range l.co {
			v, ok := num(a)
			if !ok {
				return nil, false
			}
			r.Add(r, new(big.Int).Mul(v, k))
		}
		return constant.Make(r), true
	case "conv":
		v, ok := num(t.Args[0])
		if !ok {
			return nil, false
		}
		return constant.Make(wrapInt(v, t.T)), true
	case "chtab":
		v, ok := num(t.Args[0])
		tab, have := charTabs[t.id]
		if !have {
			for _, e := range strings.Split(t.S, ",") {
				var k constant.Value
				switch e {
				case "t", "f":
					k = constant.MakeBool(e == "t")
				case "?":
				default:
					if b, ok := new(big.Int).SetString(e, 10); ok {
						k = constant.Make(b)
					}
				}
				tab = append(tab, k)
			}
			charTabs[t.id] = tab
		}
		if !ok || !v.IsInt64() || v.Int64() < 0 || v.Int64() >= int64(len(tab)) || tab[v.Int64()] == nil {
			return nil, false
		}
		return tab[v.Int64()], true
	case "chop":
		x, ok1 := num(t.Args[0])
		y, ok2 := num(t.Args[1])
		if !ok1 || !ok2 {
			return nil, false
		}
		r := new(big.Int)
		switch t.S {
		case "+":
			r.Add(x, y)
		case "-":
			r.Sub(x, y)
		case "*":
			r.Mul(x, y)
		case "/", "%":
			if y.Sign() == 0 {
				return nil, false
			}
			if t.S == "/" {
				r.Quo(x, y)
			} else {
				r.Rem(x, y)
			}
		case "&":
			r.And(x, y)
		case "|":
			r.Or(x, y)
		case "^":
			r.Xor(x, y)
		case "&^":
			r.AndNot(x, y)
		case "<<", ">>":
			if !y.IsInt64() || y.Sign() < 0 || y.Int64() > 64 {
				return nil, false
			}
			if t.S == "<<" {
				r.Lsh(x, uint(y.Int64()))
			} else {
				r.Rsh(x, uint(y.Int64()))
			}
		default:
			return nil, false
		}
		return constant.Make(wrapInt(r, t.T)), true
	case "not":
		v, ok := evalChar(t.Args[0], env)
		if !ok || v.Kind() != constant.Bool {
			return nil, false
		}
		return constant.MakeBool(!constant.BoolVal(v)), true
	case "and":
		r := true
		for _, a := range t.Args {
			v, ok := evalChar(a, env)
			if !ok || v.Kind() != constant.Bool {
				return nil, false
			}
			r = r && constant.BoolVal(v)
		}
		return constant.MakeBool(r), true
	case "lt", "eq":
		x, ok1 := num(t.Args[0])
		y, ok2 := num(t.Args[1])
		if !ok1 || !ok2 {
			return nil, false
		}
		if t.Op == "lt" {
			return constant.MakeBool(x.Cmp(y) < 0), true
		}
		return constant.MakeBool(x.Cmp(y) == 0), true
	}
	return nil, false
}

// chTab is the value of a function of a byte.
func chTab(t types.Type, arg *Term, f func(v int) string) *Term {
	if v, ok := constInt64(arg); ok && v >= 0 && v < 256 {
		switch e := f(int(v)); e {
		case "t", "f":
			return BoolT(e == "t")
		default:
			if b, ok := new(big.Int).SetString(e, 10); ok {
				return ConstT(constant.Make(b), t)
			}
		}
	}
	e := make([]string, 256)
	for i := range e {
		e[i] = f(i)
	}
	return mk(t, "chtab", strings.Join(e, ","), arg)
}

// charBool decides a condition over bytes, if it has one value on their sets.
func (s *State) charBool(t *Term) (val, known, applies bool) {
	if t.Op == "and" {
		all := true
		for _, a := range t.Args {
			b, ok := s.evalBool(a)
			if ok && !b {
				return false, true, true
			}
			all = all && ok
		}
		return true, all, true
	}
	vs := charVars(t)
	switch len(vs) {
	case 0:
		return false, false, false
	case 1:
		sawT, sawF := false, false
		for _, v := range s.charSet(vs[0]).values() {
			c, ok := evalChar(t, map[*Term]int{vs[0]: v})
			if !ok || c.Kind() != constant.Bool {
				return false, false, false
			}
			if constant.BoolVal(c) {
				sawT = true
			} else {
				sawF = true
			}
		}
		return sawT, sawT != sawF, true
	case 2:
		sawT, sawF := false, false
		for _, v := range s.charSet(vs[0]).values() {
			for _, w := range s.charSet(vs[1]).values() {
				c, ok := evalChar(t, map[*Term]int{vs[0]: v, vs[1]: w})
				if !ok || c.Kind() != constant.Bool {
					return false, false, false
				}
				if constant.BoolVal(c) {
					sawT = true
				} else {
					sawF = true
				}
				if sawT && sawF {
					return false, false, true
				}
			}
		}
		return sawT, sawT != sawF, true
	}
	return false, false, false
}

// charAssume narrows the sets; false in the first result: contradiction.
func (s *State) charAssume(t *Term, val bool) (ok, applies bool) {
	if t.Op == "and" {
		if val {
			for _, a := range t.Args {
				if !s.assume(a, true) {
					return false, true
				}
			}
			return true, true
		}
		var open []*Term
		for _, a := range t.Args {
			b, k := s.evalBool(a)
			if k && !b {
				return true, true
			}
			if !k {
				open = append(open, a)
			}
		}
		if len(open) == 1 {
			return s.assume(open[0], false), true
		}
		if len(open) > 1 {
			// Not all of them: kept for whoever enumerates the sets.
			s.ownFacts()
			s.bools[t.id] = false
			s.charNots = append(s.charNots[:len(s.charNots):len(s.charNots)], mk(boolT, "and", "", open...))
		}
		return len(open) > 0, true
	}
	vs := charVars(t)
	if len(vs) != 1 {
		return true, false
	}
	var n byteSet
	for _, v := range s.charSet(vs[0]).values() {
		c, ok := evalChar(t, map[*Term]int{vs[0]: v})
		if !ok || c.Kind() != constant.Bool {
			return true, false
		}
		if constant.BoolVal(c) == val {
			n.add(v)
		}
	}
	if n.empty() {
		return false, true
	}
	s.setChar(vs[0], n)
	return true, true
}

// charInterval bounds a term over bytes.
func (s *State) charInterval(t *Term) (Iv, bool) {
	vs := charVars(t)
	if len(vs) != 1 {
		return Iv{}, false
	}
	var iv Iv
	for _, v := range s.charSet(vs[0]).values() {
		c, ok := evalChar(t, map[*Term]int{vs[0]: v})
		if !ok || c.Kind() != constant.Int {
			return Iv{}, false
		}
		b, ok := new(big.Int).SetString(c.ExactString(), 10)
		if !ok {
			return Iv{}, false
		}
		if iv.Lo == nil || b.Cmp(iv.Lo) < 0 {
			iv.Lo = b
		}
		if iv.Hi == nil || b.Cmp(iv.Hi) > 0 {
			iv.Hi = b
		}
	}
	return iv, true
}

func (in *Interp) charOp(t *Term) bool { return in.sc.Chars != nil && len(charVars(t)) > 0 }

// charLookup looks a byte up in a map of constants.
func (in *Interp) charLookup(s *State, m, key Val, vt types.Type) (v, ok *Term, tab bool) {
	k, isT := key.(*Term)
	ref, isM := m.(*MapRef)
	if !isT || !isM || !in.charOp(k) || !(isInteger(vt) || isBool(vt)) {
		return nil, nil, false
	}
	mv, _ := s.heap[ref.Obj].(*MapV)
	if mv == nil || mv.Base != nil {
		return nil, nil, false
	}
	vals := map[int]string{}
	for _, e := range mv.Ents {
		i, ok := constInt64(e.K)
		if !ok {
			return nil, nil, false
		}
		if b, ok := constInt(e.V); ok {
			vals[int(i)] = b.String()
		} else if b, ok := constBool(e.V); ok {
			vals[int(i)] = tf(b)
		} else {
			return nil, nil, false
		}
	}
	none := "0"
	if isBool(vt) {
		none = "f"
	}
	return chTab(vt, k, func(c int) string {
			if e, ok := vals[c]; ok {
				return e
			}
			return none
		}), chTab(boolT, k, func(c int) string {
			_, ok := vals[c]
			return tf(ok)
		}), true
}

// units are the bytes of a string, each a constant or a term over bytes.
func units(c *Term) ([]*Term, bool) {
	var r []*Term
	for _, p := range contentParts(c) {
		if x, ok := constStr(p); ok {
			for i := 0; i < len(x); i++ {
				r = append(r, ConstT(constant.MakeInt64(int64(x[i])), types.Typ[types.Byte]))
			}
			continue
		}
		if p.Op == "enc" && p.S == "be8" {
			r = append(r, p.Args[0])
			continue
		}
		return nil, false
	}
	return r, true
}

// joinUnits is the string of some bytes.
func joinUnits(us []*Term) *Term {
	var p []*Term
	for _, u := range us {
		if v, ok := constInt64(u); ok {
			p = append(p, StrT(string([]byte{byte(v)})))
		} else {
			p = append(p, encT("be8", u))
		}
	}
	return mkStr(catT(p...))
}

type classed struct {
	s  *State
	cl []int
}

// classify splits a state until every byte has a known class.
func classify(s *State, us []*Term, class func(v int) int) []classed {
	cur := []classed{{s, nil}}
	for _, u := range us {
		var nx []classed
		for _, c := range cur {
			add := func(st *State, k int) {
				nx = append(nx, classed{st, append(append([]int(nil), c.cl...), k)})
			}
			if v, ok := constInt64(u); ok {
				add(c.s, class(int(v)))
				continue
			}
			vs := charVars(u)
			if len(vs) != 1 {
				panic(Undecided{"a character that depends on several others"})
			}
			var order []int
			sets := map[int]*byteSet{}
			for _, v := range c.s.charSet(vs[0]).values() {
				e, ok := evalChar(u, map[*Term]int{vs[0]: v})
				x, exact := int64(0), false
				if ok && e.Kind() == constant.Int {
					x, exact = constant.Int64Val(e)
				}
				if !exact || x < 0 || x > 255 {
					panic(Undecided{"a character outside of the byte range"})
				}
				k := class(int(x))
				if sets[k] == nil {
					sets[k] = &byteSet{}
					order = append(order, k)
				}
				sets[k].add(v)
			}
			if len(order) == 1 {
				add(c.s, order[0])
				continue
			}
			for _, k := range order {
				st := c.s.fork()
				st.setChar(vs[0], *sets[k])
				add(st, k)
			}
		}
		cur = nx
	}
	return cur
}

// proxies: strings that agree with the given one on every byte of interest,
// all others being a byte that is of no interest.
type proxy struct {
	s *State
	p string
}

func proxies(s *State, us []*Term, interest string) []proxy {
	fill := 0
	for strings.IndexByte(interest, byte(fill)) >= 0 {
		fill++
	}
	var r []proxy
	for _, c := range classify(s, us, func(v int) int {
		if strings.IndexByte(interest, byte(v)) >= 0 {
			return v
		}
		return fill
	}) {
		b := make([]byte, len(c.cl))
		for i, k := range c.cl {
			b[i] = byte(k)
		}
		r = append(r, proxy{c.s, string(b)})
	}
	return r
}

// runes decodes a string whose bytes outside of ascii are constant or stand
// alone. A rune is a term; size is the number of bytes it takes.
type runeU struct {
	r    *Term
	at   int
	size int
}

type runesOf struct {
	s  *State
	rs []runeU
}

func decodeRunes(s *State, us []*Term) []runesOf {
	var out []runesOf
	for _, c := range classify(s, us, func(v int) int {
		if v < utf8.RuneSelf {
			return 0
		}
		return 1
	}) {
		var rs []runeU
		for i := 0; i < len(us); {
			if c.cl[i] == 0 {
				rs = append(rs, runeU{us[i], i, 1})
				i++
				continue
			}
			j := i
			var b []byte
			allConst := true
			for ; j < len(us) && c.cl[j] == 1; j++ {
				v, ok := constInt64(us[j])
				allConst = allConst && ok
				b = append(b, byte(v))
			}
			switch {
			case allConst:
				for len(b) > 0 {
					r, n := utf8.DecodeRune(b)
					rs = append(rs, runeU{ConstT(constant.MakeInt64(int64(r)), types.Typ[types.Rune]), i, n})
					i += n
					b = b[n:]
				}
			case j == i+1:
				// A byte of a longer sequence, on its own.
				rs = append(rs, runeU{ConstT(constant.MakeInt64(utf8.RuneError), types.Typ[types.Rune]), i, 1})
				i++
			default:
				panic(Undecided{"adjacent unknown bytes outside of ascii"})
			}
		}
		out = append(out, runesOf{c.s, rs})
	}
	return out
}

// encodeRune appends the bytes of a rune.
func encodeRune(us []*Term, r *Term) []*Term {
	if v, ok := constInt64(r); ok {
		for _, b := range []byte(string(rune(v))) {
			us = append(us, ConstT(constant.MakeInt64(int64(b)), types.Typ[types.Byte]))
		}
		return us
	}
	return append(us, r)
}

// mapRunes applies a function to a rune term.
func runeFn(t types.Type, r *Term, f func(r rune) string) *Term {
	if v, ok := constInt64(r); ok {
		switch e := f(rune(v)); e {
		case "t", "f":
			return BoolT(e == "t")
		default:
			b, _ := new(big.Int).SetString(e, 10)
			return ConstT(constant.Make(b), t)
		}
	}
	return chTab(t, r, func(v int) string { return f(rune(v)) })
}

func tf(b bool) string {
	if b {
		return "t"
	}
	return "f"
}

// strEqChars is the equality of two strings, when either has unknown bytes.
func (in *Interp) strEqChars(s *State, a, b *Term) (*Term, bool) {
	if in.sc.Chars == nil {
		return nil, false
	}
	x, ok1 := units(a)
	y, ok2 := units(b)
	if !ok1 || !ok2 {
		return nil, false
	}
	if len(x) != len(y) {
		return BoolT(false), true
	}
	var open []*Term
	for i := range x {
		if x[i] == y[i] {
			continue
		}
		if len(charVars(x[i])) == 0 && len(charVars(y[i])) == 0 {
			p, okp := constInt64(x[i])
			q, okq := constInt64(y[i])
			if !okp || !okq {
				return nil, false
			}
			if p != q {
				return BoolT(false), true
			}
			continue
		}
		e := eqT(x[i], y[i])
		v, known := s.evalBool(e)
		if known && !v {
			return BoolT(false), true
		}
		if !known {
			open = append(open, e)
		}
	}
	switch len(open) {
	case 0:
		return BoolT(true), true
	case 1:
		return open[0], true
	}
	return mk(boolT, "and", "", open...), true
}

// ---- transfer functions of the string functions ----

// strUnits: the argument as bytes, if any of them is unknown.
func (in *Interp) strUnits(s *State, v Val) ([]*Term, bool) {
	if in.sc.Chars == nil {
		return nil, false
	}
	us, ok := units(s.Content(v))
	if !ok {
		return nil, false
	}
	return us, true
}

func allConstUnits(us []*Term) bool {
	for _, u := range us {
		if _, ok := constInt64(u); !ok {
			return false
		}
	}
	return true
}

// sepArg: a constant separator given as a string, a byte or a rune.
func sepArg(s *State, v Val) (string, bool) {
	t := s.Content(v)
	if x, ok := constStr(t); ok {
		return x, true
	}
	if i, ok := constInt64(t); ok && i >= 0 && i < utf8.RuneSelf {
		return string([]byte{byte(i)}), true
	}
	return "", false
}

func initChars() {
	// over wraps a model for strings of unknown bytes.
	over := func(names string, f func(in *Interp, s *State, ci *CallInfo, us []*Term) ([]Out, bool)) {
		for _, name := range strings.Fields(names) {
			old := models[name]
			name := name
			models[name] = func(in *Interp, s *State, ci *CallInfo) []Out {
				if in.sc.Chars != nil && len(ci.Args) > 0 {
					if us, ok := in.strUnits(s, ci.Args[0]); ok {
						if o, ok := f(in, s, ci, us); ok {
							return o
						}
					}
				}
				if old != nil {
					return old(in, s, ci)
				}
				if ci.Fn != nil && len(ci.Fn.Blocks) > 0 {
					return in.Call(s, ci.Fn, ci.Args)
				}
				if o, ok := in.patternModel(s, ci); ok {
					return o
				}
				return in.external(s, ci)
			}
		}
	}
	toInt := func(f func(a, b string) int) func(in *Interp, s *State, ci *CallInfo, us []*Term) ([]Out, bool) {
		return func(in *Interp, s *State, ci *CallInfo, us []*Term) ([]Out, bool) {
			sep, ok := sepArg(s, ci.Args[1])
			if !ok {
				// A constant string searched for an unknown byte.
				n := s.Freeze(ci.Args[1])
				if len(charVars(n)) == 0 || !allConstUnits(us) || !isInteger(n.T) {
					return nil, false
				}
				hay, _ := constStr(joinUnits(us))
				return ret(s, chTab(intTy, n, func(v int) string {
					if v >= utf8.RuneSelf && !isByte(n.T) {
						return fmt.Sprint(strings.IndexRune(hay, rune(v)))
					}
					return fmt.Sprint(f(hay, string([]byte{byte(v)})))
				})), true
			}
			var outs []Out
			for _, p := range proxies(s, us, sep) {
				outs = append(outs, Out{St: p.s, Vals: []Val{IntT(int64(f(p.p, sep)))}, Kind: Ret})
			}
			return outs, true
		}
	}
	over("strings.Index strings.IndexByte strings.IndexRune bytes.Index bytes.IndexByte bytes.IndexRune", toInt(strings.Index))
	over("strings.LastIndex strings.LastIndexByte bytes.LastIndex bytes.LastIndexByte", toInt(strings.LastIndex))
	over("strings.Count bytes.Count", toInt(strings.Count))
	over("strings.IndexAny strings.LastIndexAny", func(in *Interp, s *State, ci *CallInfo, us []*Term) ([]Out, bool) {
		f := strings.IndexAny
		if strings.HasSuffix(ci.Name, "LastIndexAny") {
			f = strings.LastIndexAny
		}
		return toInt(f)(in, s, ci, us)
	})
	toBool := func(f func(a, b string) bool) func(in *Interp, s *State, ci *CallInfo, us []*Term) ([]Out, bool) {
		return func(in *Interp, s *State, ci *CallInfo, us []*Term) ([]Out, bool) {
			sep, ok := sepArg(s, ci.Args[1])
			if !ok {
				n := s.Freeze(ci.Args[1])
				if isString(n.T) || isByteSlice(n.T) {
					// A constant string searched for an unknown one
					// of a single byte.
					if nu, ok := units(s.Content(ci.Args[1])); ok && len(nu) == 1 {
						n = nu[0]
					} else {
						return nil, false
					}
				}
				if len(charVars(n)) == 0 || !allConstUnits(us) {
					return nil, false
				}
				hay, _ := constStr(joinUnits(us))
				return ret(s, chTab(boolT, n, func(v int) string {
					return tf(f(hay, string([]byte{byte(v)})))
				})), true
			}
			var outs []Out
			for _, p := range proxies(s, us, sep) {
				outs = append(outs, Out{St: p.s, Vals: []Val{BoolT(f(p.p, sep))}, Kind: Ret})
			}
			return outs, true
		}
	}
	over("strings.Contains strings.ContainsRune bytes.Contains bytes.ContainsRune", toBool(strings.Contains))
	over("strings.HasPrefix bytes.HasPrefix", toBool(strings.HasPrefix))
	over("strings.HasSuffix bytes.HasSuffix", toBool(strings.HasSuffix))
	over("strings.ContainsAny bytes.ContainsAny", toBool(strings.ContainsAny))

	// Results that are parts of the string: f finds the windows.
	res := func(ci *CallInfo, s *State, us []*Term) Val {
		if strings.HasPrefix(ci.Name, "bytes.") {
			return s.newBytes(joinUnits(us))
		}
		return joinUnits(us)
	}
	trim := func(f func(p, cut string) (lo, hi int)) func(in *Interp, s *State, ci *CallInfo, us []*Term) ([]Out, bool) {
		return func(in *Interp, s *State, ci *CallInfo, us []*Term) ([]Out, bool) {
			cut, ok := sepArg(s, ci.Args[1])
			if !ok {
				return nil, false
			}
			for i := 0; i < len(cut); i++ {
				if cut[i] >= utf8.RuneSelf {
					return nil, false
				}
			}
			var outs []Out
			for _, p := range proxies(s, us, cut) {
				lo, hi := f(p.p, cut)
				outs = append(outs, Out{St: p.s, Vals: []Val{res(ci, p.s, us[lo:hi])}, Kind: Ret})
			}
			return outs, true
		}
	}
	left := func(g func(p, c string) string) func(p, c string) (int, int) {
		return func(p, c string) (int, int) { return len(p) - len(g(p, c)), len(p) }
	}
	right := func(g func(p, c string) string) func(p, c string) (int, int) {
		return func(p, c string) (int, int) { return 0, len(g(p, c)) }
	}
	over("strings.TrimLeft bytes.TrimLeft", trim(left(strings.TrimLeft)))
	over("strings.TrimRight bytes.TrimRight", trim(right(strings.TrimRight)))
	over("strings.TrimPrefix bytes.TrimPrefix", trim(left(strings.TrimPrefix)))
	over("strings.TrimSuffix bytes.TrimSuffix", trim(right(strings.TrimSuffix)))
	over("strings.Trim bytes.Trim", trim(func(p, c string) (int, int) {
		lo := len(p) - len(strings.TrimLeft(p, c))
		return lo, lo + len(strings.Trim(p, c))
	}))
	// bySpace: the bytes of each rune are space or not.
	isSpaceU := func(r runesOf, f func(*Term) *Term) []classedRunes {
		return classifyRunes(r, f)
	}
	spaceOf := func(r *Term) *Term {
		return runeFn(boolT, r, func(r rune) string { return tf(unicode.IsSpace(r)) })
	}
	over("strings.TrimSpace bytes.TrimSpace", func(in *Interp, s *State, ci *CallInfo, us []*Term) ([]Out, bool) {
		var outs []Out
		for _, r := range decodeRunes(s, us) {
			for _, c := range isSpaceU(r, spaceOf) {
				lo, hi := window(r.rs, c.b)
				outs = append(outs, Out{St: c.s, Vals: []Val{res(ci, c.s, us[lo:hi])}, Kind: Ret})
			}
		}
		return outs, true
	})
	strSlice := func(s *State, parts [][]*Term) Val {
		var vs []Val
		for _, p := range parts {
			vs = append(vs, joinUnits(p))
		}
		return s.newSlice(stringT, vs...)
	}
	over("strings.Fields", func(in *Interp, s *State, ci *CallInfo, us []*Term) ([]Out, bool) {
		var outs []Out
		for _, r := range decodeRunes(s, us) {
			for _, c := range isSpaceU(r, spaceOf) {
				outs = append(outs, Out{St: c.s, Vals: []Val{strSlice(c.s, fields(us, r.rs, c.b))}, Kind: Ret})
			}
		}
		return outs, true
	})
	over("strings.Split strings.SplitN strings.SplitAfter", func(in *Interp, s *State, ci *CallInfo, us []*Term) ([]Out, bool) {
		sep, ok := sepArg(s, ci.Args[1])
		if !ok || sep == "" {
			return nil, false
		}
		n := -1
		if len(ci.Args) > 2 {
			k, ok := constInt64(ci.Args[2])
			if !ok {
				return nil, false
			}
			n = int(k)
		}
		var outs []Out
		for _, p := range proxies(s, us, sep) {
			var parts [][]*Term
			at := 0
			var pieces []string
			if ci.Name == "strings.SplitAfter" {
				pieces = strings.SplitAfter(p.p, sep)
			} else {
				pieces = strings.SplitN(p.p, sep, n)
			}
			for _, q := range pieces {
				parts = append(parts, us[at:at+len(q)])
				at += len(q)
				if ci.Name != "strings.SplitAfter" {
					at += len(sep)
				}
			}
			outs = append(outs, Out{St: p.s, Vals: []Val{strSlice(p.s, parts)}, Kind: Ret})
		}
		return outs, true
	})
	over("strings.Cut", func(in *Interp, s *State, ci *CallInfo, us []*Term) ([]Out, bool) {
		sep, ok := sepArg(s, ci.Args[1])
		if !ok {
			return nil, false
		}
		var outs []Out
		for _, p := range proxies(s, us, sep) {
			i := strings.Index(p.p, sep)
			vals := []Val{joinUnits(us), StrT(""), BoolT(false)}
			if i >= 0 {
				vals = []Val{joinUnits(us[:i]), joinUnits(us[i+len(sep):]), BoolT(true)}
			}
			outs = append(outs, Out{St: p.s, Vals: vals, Kind: Ret})
		}
		return outs, true
	})
	over("strings.CutPrefix strings.CutSuffix", func(in *Interp, s *State, ci *CallInfo, us []*Term) ([]Out, bool) {
		sep, ok := sepArg(s, ci.Args[1])
		if !ok {
			return nil, false
		}
		var outs []Out
		for _, p := range proxies(s, us, sep) {
			vals := []Val{joinUnits(us), BoolT(false)}
			switch {
			case ci.Name == "strings.CutPrefix" && strings.HasPrefix(p.p, sep):
				vals = []Val{joinUnits(us[len(sep):]), BoolT(true)}
			case ci.Name == "strings.CutSuffix" && strings.HasSuffix(p.p, sep):
				vals = []Val{joinUnits(us[:len(us)-len(sep)]), BoolT(true)}
			}
			outs = append(outs, Out{St: p.s, Vals: vals, Kind: Ret})
		}
		return outs, true
	})
	over("strings.ReplaceAll strings.Replace", func(in *Interp, s *State, ci *CallInfo, us []*Term) ([]Out, bool) {
		from, ok := sepArg(s, ci.Args[1])
		to, ok2 := sepArg(s, ci.Args[2])
		if !ok || !ok2 || from == "" {
			return nil, false
		}
		n := -1
		if len(ci.Args) > 3 {
			k, ok := constInt64(ci.Args[3])
			if !ok {
				return nil, false
			}
			n = int(k)
		}
		tu, _ := units(StrT(to))
		var outs []Out
		for _, p := range proxies(s, us, from) {
			var r []*Term
			at := 0
			for k := 0; n < 0 || k < n; k++ {
				i := strings.Index(p.p[at:], from)
				if i < 0 {
					break
				}
				r = append(append(r, us[at:at+i]...), tu...)
				at += i + len(from)
			}
			r = append(r, us[at:]...)
			outs = append(outs, Out{St: p.s, Vals: []Val{joinUnits(r)}, Kind: Ret})
		}
		return outs, true
	})
	perRune := func(f func(r rune) rune) func(in *Interp, s *State, ci *CallInfo, us []*Term) ([]Out, bool) {
		return func(in *Interp, s *State, ci *CallInfo, us []*Term) ([]Out, bool) {
			var outs []Out
			for _, r := range decodeRunes(s, us) {
				var nu []*Term
				for _, x := range r.rs {
					nu = encodeRune(nu, runeFn(types.Typ[types.Byte], x.r, func(r rune) string { return fmt.Sprint(f(r)) }))
				}
				outs = append(outs, Out{St: r.s, Vals: []Val{res(ci, r.s, nu)}, Kind: Ret})
			}
			return outs, true
		}
	}
	over("strings.ToLower bytes.ToLower", perRune(unicode.ToLower))
	over("strings.ToUpper bytes.ToUpper", perRune(unicode.ToUpper))
	over("strings.EqualFold", func(in *Interp, s *State, ci *CallInfo, us []*Term) ([]Out, bool) {
		vs, ok := in.strUnits(s, ci.Args[1])
		if !ok {
			return nil, false
		}
		var outs []Out
		for _, a := range decodeRunes(s, us) {
			for _, b := range decodeRunes(a.s, vs) {
				if len(a.rs) != len(b.rs) {
					outs = append(outs, Out{St: b.s, Vals: []Val{BoolT(false)}, Kind: Ret})
					continue
				}
				fold := func(r *Term) *Term {
					return runeFn(types.Typ[types.Rune], r, func(r rune) string { return fmt.Sprint(unicode.ToLower(unicode.ToUpper(r))) })
				}
				var x, y []*Term
				for i := range a.rs {
					x, y = append(x, fold(a.rs[i].r)), append(y, fold(b.rs[i].r))
				}
				var conds []*Term
				for i := range x {
					conds = append(conds, eqT(x[i], y[i]))
				}
				outs = append(outs, Out{St: b.s, Vals: []Val{mk(boolT, "and", "", conds...)}, Kind: Ret})
			}
		}
		return outs, true
	})
	// Functions that take a predicate or a mapping.
	each := func(in *Interp, s *State, ci *CallInfo, fnv Val, us []*Term, got func(s *State, rs []runeU, vals []*Term) (Out, bool)) ([]Out, bool) {
		var outs []Out
		for _, r := range decodeRunes(s, us) {
			type cur struct {
				s    *State
				vals []*Term
			}
			cs := []cur{{r.s, nil}}
			for _, x := range r.rs {
				var nx []cur
				for _, c := range cs {
					sig := fnSig(fnv)
					if sig == nil {
						return nil, false
					}
					for _, o := range in.callVal(c.s, fnv, &CallInfo{Args: []Val{x.r}, Sig: sig, Pos: ci.Pos, Caller: ci.Caller, Instr: ci.Instr}) {
						if o.Kind != Ret {
							outs = append(outs, o)
							continue
						}
						v, ok := o.Vals[0].(*Term)
						if !ok {
							return nil, false
						}
						if isBool(sig.Results().At(0).Type()) {
							y, n := o.St.branch(v)
							if y != nil {
								nx = append(nx, cur{y, append(append([]*Term(nil), c.vals...), BoolT(true))})
							}
							if n != nil {
								nx = append(nx, cur{n, append(append([]*Term(nil), c.vals...), BoolT(false))})
							}
							continue
						}
						nx = append(nx, cur{o.St, append(append([]*Term(nil), c.vals...), v)})
					}
				}
				cs = nx
			}
			for _, c := range cs {
				o, ok := got(c.s, r.rs, c.vals)
				if !ok {
					return nil, false
				}
				outs = append(outs, o)
			}
		}
		return outs, true
	}
	bools := func(vals []*Term) []bool {
		r := make([]bool, len(vals))
		for i, v := range vals {
			r[i], _ = constBool(v)
		}
		return r
	}
	over("strings.IndexFunc strings.LastIndexFunc strings.ContainsFunc strings.FieldsFunc strings.TrimFunc strings.TrimLeftFunc strings.TrimRightFunc", func(in *Interp, s *State, ci *CallInfo, us []*Term) ([]Out, bool) {
		return each(in, s, ci, ci.Args[1], us, func(s *State, rs []runeU, vals []*Term) (Out, bool) {
			b := bools(vals)
			first, last := -1, -1
			for i, x := range b {
				if x {
					last = rs[i].at
					if first < 0 {
						first = rs[i].at
					}
				}
			}
			lo, hi := window(rs, b)
			var v Val
			switch ci.Name {
			case "strings.IndexFunc":
				v = IntT(int64(first))
			case "strings.LastIndexFunc":
				v = IntT(int64(last))
			case "strings.ContainsFunc":
				v = BoolT(first >= 0)
			case "strings.FieldsFunc":
				v = strSlice(s, fields(us, rs, b))
			case "strings.TrimFunc":
				v = joinUnits(us[lo:hi])
			case "strings.TrimLeftFunc":
				l, _ := window(rs, b)
				if allTrue(b) {
					l = len(us)
				}
				v = joinUnits(us[l:])
			case "strings.TrimRightFunc":
				h := hi
				if allTrue(b) {
					h = 0
				}
				v = joinUnits(us[:h])
			}
			return Out{St: s, Vals: []Val{v}, Kind: Ret}, true
		})
	})
	oldMap := models["strings.Map"]
	models["strings.Map"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		if in.sc.Chars != nil {
			if us, ok := in.strUnits(s, ci.Args[1]); ok {
				if o, ok := each(in, s, ci, ci.Args[0], us, func(s *State, rs []runeU, vals []*Term) (Out, bool) {
					var nu []*Term
					for _, v := range vals {
						if k, ok := constInt64(v); ok && k < 0 {
							continue
						}
						if iv := s.interval(v); iv.Lo == nil || iv.Lo.Sign() < 0 {
							return Out{}, false
						}
						nu = encodeRune(nu, v)
					}
					return Out{St: s, Vals: []Val{joinUnits(nu)}, Kind: Ret}, true
				}); ok {
					return o
				}
			}
		}
		if oldMap != nil {
			return oldMap(in, s, ci)
		}
		return pureApp(in, s, ci)
	}
	// Predicates and mappings of runes.
	rune1 := func(name string, f func(r rune) string) {
		old := models[name]
		models[name] = func(in *Interp, s *State, ci *CallInfo) []Out {
			if in.sc.Chars != nil {
				t := s.Freeze(ci.Args[0])
				if _, ok := constInt64(t); ok || len(charVars(t)) > 0 {
					return ret(s, runeFn(ci.Sig.Results().At(0).Type(), t, f))
				}
			}
			if old != nil {
				return old(in, s, ci)
			}
			return pureApp(in, s, ci)
		}
	}
	for n, f := range map[string]func(rune) bool{
		"unicode.IsSpace": unicode.IsSpace, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower,
		"unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsNumber": unicode.IsNumber,
		"unicode.IsPrint": unicode.IsPrint, "unicode.IsControl": unicode.IsControl, "unicode.IsGraphic": unicode.IsGraphic,
	} {
		f := f
		rune1(n, func(r rune) string { return tf(f(r)) })
	}
	for n, f := range map[string]func(rune) rune{"unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper} {
		f := f
		rune1(n, func(r rune) string { return fmt.Sprint(f(r)) })
	}
}

func fnSig(v Val) *types.Signature {
	if f, ok := v.(*FuncV); ok && f.Fn != nil {
		return f.Fn.Signature
	}
	return nil
}

func allTrue(b []bool) bool {
	for _, x := range b {
		if !x {
			return false
		}
	}
	return true
}

type classedRunes struct {
	s *State
	b []bool
}

// classifyRunes splits a state until a predicate is decided on every rune.
func classifyRunes(r runesOf, pred func(*Term) *Term) []classedRunes {
	cur := []classedRunes{{r.s, nil}}
	for _, x := range r.rs {
		p := pred(x.r)
		var nx []classedRunes
		for _, c := range cur {
			y, n := c.s.branch(p)
			if y != nil {
				nx = append(nx, classedRunes{y, append(append([]bool(nil), c.b...), true)})
			}
			if n != nil {
				nx = append(nx, classedRunes{n, append(append([]bool(nil), c.b...), false)})
			}
		}
		cur = nx
	}
	return cur
}

// window is what remains after trimming the marked runes at both ends.
func window(rs []runeU, b []bool) (lo, hi int) {
	i, j := 0, len(rs)
	for i < j && b[i] {
		i++
	}
	for j > i && b[j-1] {
		j--
	}
	if i == j {
		return 0, 0
	}
	return rs[i].at, rs[j-1].at + rs[j-1].size
}

// fields are the maximal runs of unmarked runes.
func fields(us []*Term, rs []runeU, b []bool) [][]*Term {
	var r [][]*Term
	start := -1
	for i, x := range rs {
		if b[i] {
			if start >= 0 {
				r = append(r, us[start:x.at])
				start = -1
			}
		} else if start < 0 {
			start = x.at
		}
	}
	if start >= 0 {
		r = append(r, us[start:])
	}
	return r
}
