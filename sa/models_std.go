package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

// More of the standard library: what a reasonable change of this code base
// may call instead of what it calls today.
func init() {
	m := models

	// ---- strings, on constants ----
	fold := func(f func(a []string) constant.Value) model {
		return func(in *Interp, s *State, ci *CallInfo) []Out {
			var a []string
			for _, x := range ci.Args {
				t := s.Freeze(x)
				c, ok := constStr(t)
				if k, isI := constInt64(t); !ok && isI {
					c, ok = string(rune(k)), true
				}
				if !ok {
					return pureApp(in, s, ci)
				}
				a = append(a, c)
			}
			return ret(s, ConstT(f(a), ci.Sig.Results().At(0).Type()))
		}
	}
	str := func(f func(a, b string) string) model {
		return fold(func(a []string) constant.Value { return constant.MakeString(f(a[0], a[1])) })
	}
	pred := func(f func(a, b string) bool) model {
		return fold(func(a []string) constant.Value { return constant.MakeBool(f(a[0], a[1])) })
	}
	m["strings.HasPrefix"] = pred(strings.HasPrefix)
	m["strings.HasSuffix"] = pred(strings.HasSuffix)
	m["strings.Contains"] = pred(strings.Contains)
	m["strings.ContainsAny"] = pred(strings.ContainsAny)
	m["strings.ContainsRune"] = pred(strings.Contains)
	m["strings.EqualFold"] = pred(strings.EqualFold)
	m["strings.TrimPrefix"] = str(strings.TrimPrefix)
	m["strings.TrimSuffix"] = str(strings.TrimSuffix)
	m["strings.Trim"] = str(strings.Trim)
	m["strings.TrimLeft"] = str(strings.TrimLeft)
	m["strings.TrimRight"] = str(strings.TrimRight)
	m["strings.Count"] = fold(func(a []string) constant.Value { return constant.MakeInt64(int64(strings.Count(a[0], a[1]))) })

	// ---- hashes ----
	h32 := types.NewArray(types.Typ[types.Byte], 32)
	sha := func(c *Term) *Term {
		// H(H(tag) || H(tag) || msg) is the tagged hash.
		if c.Op == "cat" && len(c.Args) >= 2 && c.Args[0] == c.Args[1] && c.Args[0].IsApp("sha256") {
			return App(h32, "TaggedHash", c.Args[0].Args[0], catT(c.Args[2:]...))
		}
		return App(h32, "sha256", c)
	}
	m["crypto/sha256.Sum256"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		return ret(s, in.byteArr(sha(s.Content(ci.Args[0])), 32))
	}
	m["btcd/chaincfg/chainhash.HashH"] = m["crypto/sha256.Sum256"]
	m["btcd/chaincfg/chainhash.HashB"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		return ret(s, s.newBytes(sha(s.Content(ci.Args[0]))))
	}
	m["btcd/chaincfg/chainhash.DoubleHashH"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		return ret(s, in.byteArr(sha(sha(s.Content(ci.Args[0]))), 32))
	}
	m["btcd/chaincfg/chainhash.DoubleHashB"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		return ret(s, s.newBytes(sha(sha(s.Content(ci.Args[0])))))
	}

	// ---- keys ----
	long := func(in *Interp, s *State, ci *CallInfo) []Out {
		return ret(s, s.newBytes(App(bytesT, "pub65", pubTerm(s.Freeze(ci.Args[0])))))
	}
	for _, r := range []string{"(*btcec.PublicKey)", "(btcec.PublicKey)", "(*secp.PublicKey)", "(secp.PublicKey)"} {
		m[r+".SerializeUncompressed"] = long
	}

	// ---- encoding/binary ----
	be := func(t types.Type) (string, bool) {
		u, ok := t.Underlying().(*types.Basic)
		if !ok {
			return "", false
		}
		switch u.Kind() {
		case types.Uint8:
			return "be8", true
		case types.Uint16:
			return "be16", true
		case types.Uint32:
			return "be32", true
		case types.Uint64:
			return "be64", true
		}
		return "", false
	}
	big := func(v Val) bool {
		i, ok := v.(*IfaceV)
		return ok && typeName(i.T) == "encoding/binary.bigEndian"
	}
	m["encoding/binary.Write"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		i, ok := ci.Args[2].(*IfaceV)
		if !ok || !big(ci.Args[1]) {
			return in.external(s, ci)
		}
		var c *Term
		if k, ok := be(i.T); ok {
			c = encBE(k, s.Freeze(i.V))
		} else if isByteSlice(i.T) {
			c = s.Content(i.V)
		} else if a, ok := i.T.Underlying().(*types.Array); ok && isByte(a.Elem()) {
			c = s.Content(i.V)
		} else {
			return in.external(s, ci)
		}
		return writeOuts(in.write(s, ci.Args[0], c, ci))
	}
	m["encoding/binary.Read"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		i, ok := ci.Args[2].(*IfaceV)
		if !ok || !big(ci.Args[1]) {
			return in.external(s, ci)
		}
		pt, ok := i.T.Underlying().(*types.Pointer)
		if !ok {
			return in.external(s, ci)
		}
		k, ok := be(pt.Elem())
		if !ok {
			return in.external(s, ci)
		}
		p, ok := in.resolve(s, i.V, nil)
		if !ok {
			return []Out{in.panicOut(s, ci, "nil dereference")}
		}
		var outs []Out
		for _, o := range in.readN(s, ci.Args[0], IntT(widthOf[k]), ci) {
			if isNilV(o.Err) {
				in.store(o.St, p, decBE(o.C, k, pt.Elem()), nil)
			}
			outs = append(outs, ret(o.St, o.Err)...)
		}
		return outs
	}

	// ---- io ----
	m["io.Copy"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		c, ok := in.readAll(s, ci.Args[1])
		if !ok {
			return in.external(s, ci)
		}
		var outs []Out
		for _, w := range in.write(s, ci.Args[0], c, ci) {
			outs = append(outs, ret(w.St, lenT(c), w.Err)...)
		}
		return outs
	}

	// ---- errors ----
	m["errors.Join"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		vs, ok := in.sliceElems(s, ci.Args[0])
		if !ok {
			return in.external(s, ci)
		}
		type st struct {
			s  *State
			ws []*Term
		}
		cur := []st{{s, nil}}
		for _, v := range vs {
			var next []st
			for _, c := range cur {
				e := c.s.Freeze(v)
				if b, known := c.s.null(e); known {
					if !b {
						c.ws = append(append([]*Term(nil), c.ws...), e)
					}
					next = append(next, c)
					continue
				}
				y, n := c.s.branch(isnilT(e))
				if y != nil {
					next = append(next, st{y, c.ws})
				}
				if n != nil {
					next = append(next, st{n, append(append([]*Term(nil), c.ws...), e)})
				}
			}
			cur = next
		}
		var outs []Out
		for _, c := range cur {
			if len(c.ws) == 0 {
				outs = append(outs, ret(c.s, NilT)...)
				continue
			}
			outs = append(outs, ret(c.s, mk(errorT, "errorf", "join", c.ws...))...)
		}
		return outs
	}

	// ---- hex ----
	m["encoding/hex.Encode"] = func(in *Interp, s *State, ci *CallInfo) []Out {
		sl := in.sliceOf(s, ci.Args[0], bytesT)
		c := s.Content(ci.Args[1])
		n, ok := constInt64(lenT(c))
		if sl == nil || !ok {
			return in.external(s, ci)
		}
		h := App(bytesT, "hex", c)
		in.setBytes(s, sl, IntT(0), h)
		return ret(s, IntT(2*n))
	}
}

func init() {
	// How much time has passed, or is left, is not known.
	for _, n := range []string{"Since", "Until"} {
		since := n == "Since"
		models["time."+n] = func(in *Interp, s *State, ci *CallInfo) []Out {
			s.widened++
			d := Sym(fmt.Sprintf("elapsed%d", s.widened), ci.Sig.Results().At(0).Type())
			if since {
				s.must(ltT(d, IntT(0)), false)
			}
			return ret(s, d)
		}
	}
}
