package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value. Scalars (constants, nil, unknowns and everything
// computed from them) are interned provenance terms, composite values keep
// their shape:
//
//	*Term, *Ptr, *StructV, *ArrayV, *SliceV, *MapRef, *ChanRef, *IfaceV,
//	*FuncV, *TupleV, *BufV (contents of readers and writers)
type Val interface{}

// Term is an interned provenance expression: where a value came from.
type Term struct {
	id   int
	Op   string
	S    string
	Args []*Term
	T    types.Type
	C    constant.Value
	str  string
}

var (
	termTab = map[string]*Term{}
	termSeq int
)

func mk(t types.Type, op, s string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(s)
	for _, a := range args {
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(a.id))
	}
	if op == "sym" && t != nil {
		b.WriteByte('|')
		b.WriteString(t.String())
	}
	k := b.String()
	if x, ok := termTab[k]; ok {
		if x.T == nil {
			x.T = t
		}
		return x
	}
	termSeq++
	x := &Term{id: termSeq, Op: op, S: s, Args: args, T: t}
	termTab[k] = x
	return x
}

// Sym is a scenario input.
func Sym(name string, t types.Type) *Term { return mk(t, "sym", name) }

// App is the result of applying an uninterpreted operation.
func App(t types.Type, fn string, args ...*Term) *Term {
	return mk(t, "app", fn, args...)
}

func ConstT(c constant.Value, t types.Type) *Term {
	k := "v"
	switch c.Kind() {
	case constant.Int:
		k = "i"
	case constant.String:
		k = "s"
	case constant.Bool:
		k = "b"
	case constant.Float:
		if ci := constant.ToInt(c); ci.Kind() == constant.Int {
			if isInteger(t) {
				c, k = ci, "i"
				break
			}
		}
		k = "f"
	}
	x := mk(t, "const", k+c.ExactString())
	if x.C == nil {
		x.C = c
	}
	return x
}

func IntT(i int64) *Term      { return ConstT(constant.MakeInt64(i), types.Typ[types.Int]) }
func BoolT(b bool) *Term      { return ConstT(constant.MakeBool(b), types.Typ[types.Bool]) }
func StrT(s string) *Term     { return ConstT(constant.MakeString(s), types.Typ[types.String]) }
func bigT(i *big.Int) *Term   { return ConstT(constant.Make(new(big.Int).Set(i)), nil) }
func (t *Term) IsConst() bool { return t.Op == "const" }

var NilT = mk(nil, "nil", "")

func constInt(v Val) (*big.Int, bool) {
	t, ok := v.(*Term)
	if !ok || t.Op != "const" || t.C == nil || t.C.Kind() != constant.Int {
		return nil, false
	}
	if i, exact := constant.Int64Val(t.C); exact {
		return big.NewInt(i), true
	}
	b, ok2 := new(big.Int).SetString(t.C.ExactString(), 10)
	return b, ok2
}

func constInt64(v Val) (int64, bool) {
	b, ok := constInt(v)
	if !ok || !b.IsInt64() {
		return 0, false
	}
	return b.Int64(), true
}

func constBool(v Val) (bool, bool) {
	t, ok := v.(*Term)
	if !ok || t.Op != "const" || t.C.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(t.C), true
}

func constStr(v Val) (string, bool) {
	t, ok := v.(*Term)
	if !ok || t == nil || t.Op != "const" || t.C.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(t.C), true
}

// String renders a term; scenario facts address terms by this rendering.
func (t *Term) String() string {
	if t.str != "" {
		return t.str
	}
	args := func(sep string, as []*Term) string {
		var p []string
		for _, a := range as {
			p = append(p, a.String())
		}
		return strings.Join(p, sep)
	}
	var s string
	switch t.Op {
	case "sym":
		s = t.S
	case "nil":
		s = "nil"
	case "const":
		s = t.S[1:]
	case "field":
		s = t.Args[0].String() + "." + t.S
	case "elem":
		s = t.Args[0].String() + "[" + t.Args[1].String() + "]"
	case "deref":
		s = "*" + t.Args[0].String()
	case "&":
		s = "&" + t.Args[0].String()
	case "struct":
		names := strings.Split(t.S, ";")
		var p []string
		for i, a := range t.Args {
			p = append(p, names[i+1]+": "+a.String())
		}
		s = names[0] + "{" + strings.Join(p, ", ") + "}"
	case "list":
		s = "[" + args(", ", t.Args) + "]"
	case "lin":
		var p []string
		cs := strings.Split(t.S, ",")
		for i, a := range t.Args {
			if cs[i+1] == "1" {
				p = append(p, a.String())
			} else {
				p = append(p, cs[i+1]+"*"+a.String())
			}
		}
		if cs[0] != "0" {
			p = append(p, cs[0])
		}
		s = "(" + strings.Join(p, " + ") + ")"
	case "app":
		s = t.S + "(" + args(", ", t.Args) + ")"
	default:
		s = t.Op
		if t.S != "" {
			s += ":" + t.S
		}
		s += "(" + args(", ", t.Args) + ")"
	}
	if len(s) > 4000 {
		s = s[:4000] + "…#" + strconv.Itoa(t.id)
	}
	t.str = s
	return s
}

// IsApp reports whether t applies the named operation.
func (t *Term) IsApp(fn string) bool { return t != nil && t.Op == "app" && t.S == fn }

// Field of a frozen struct (through pointers), nil if absent.
func (t *Term) Field(name string) *Term {
	for t != nil && t.Op == "&" {
		t = t.Args[0]
	}
	if t == nil {
		return nil
	}
	if t.Op == "struct" {
		names := strings.Split(t.S, ";")
		for i, a := range t.Args {
			if names[i+1] == name {
				return a
			}
		}
		return nil
	}
	if t.Op == "sym" || t.Op == "field" || t.Op == "elem" || t.Op == "app" {
		return mk(nil, "field", name, t)
	}
	return nil
}

// Elems of a frozen list.
func (t *Term) Elems() ([]*Term, bool) {
	for t != nil && t.Op == "&" {
		t = t.Args[0]
	}
	if t == nil {
		return nil, false
	}
	if t.Op == "nil" {
		return nil, true
	}
	if t.Op == "list" {
		return t.Args, true
	}
	return nil, false
}

// Walk visits every subterm.
func (t *Term) Walk(f func(*Term) bool) {
	if t == nil || !f(t) {
		return
	}
	for _, a := range t.Args {
		a.Walk(f)
	}
}

// Contains reports whether sub occurs in t.
func (t *Term) Contains(sub *Term) bool {
	found := false
	t.Walk(func(x *Term) bool {
		if x == sub {
			found = true
		}
		return !found
	})
	return found
}

// ---- composite values ----

type PathElem struct {
	Field int   // struct field, or -1
	Idx   *Term // array index otherwise
}

// Ptr is the address of (a part of) a heap object.
type Ptr struct {
	Obj  int
	Path []PathElem
}

type StructV struct {
	T      types.Type
	Fields []Val
}

// ArrayV is an array: Base supplies the elements that are not in E (nil Base:
// zero value of the element type).
type ArrayV struct {
	Elem types.Type
	N    int64 // -1: unknown
	Base *Term
	E    map[int64]Val
}

// SliceV is a window of an array object.
type SliceV struct {
	Base     *Ptr
	Lo       int64
	Len, Cap *Term
	Elem     types.Type
}

type MapRef struct{ Obj int }
type ChanRef struct{ Obj int }

type MapEnt struct {
	K, V Val
}
type MapV struct {
	Ents []MapEnt
	KT   types.Type
	VT   types.Type
	// Base: symbolic map that supplies further entries (may be nil).
	Base *Term
	Del  []Val
}

type ChanV struct {
	Cap    *Term
	Queue  []Val
	Closed bool
	Elem   types.Type
	Label  string
}

type IfaceV struct {
	T types.Type
	V Val
}

type FuncV struct {
	Fn   *ssa.Function
	Bind []Val
	Ext  string // named operation implemented by a model
	Env  []Val
}

type TupleV struct{ V []Val }

// BufV is the content of an in-memory reader/writer.
type BufV struct {
	Parts []*Term
}

// Iter is a map or string iterator.
type Iter struct {
	Map  Val
	Ents []MapEnt
	Pos  int
	Str  Val
}

// ---- linear integer normal form ----

type lin struct {
	c  *big.Int
	co map[*Term]*big.Int
}

func toLin(t *Term) lin {
	if i, ok := constInt(t); ok {
		return lin{c: i, co: map[*Term]*big.Int{}}
	}
	if t.Op == "lin" {
		cs := strings.Split(t.S, ",")
		l := lin{c: new(big.Int), co: map[*Term]*big.Int{}}
		l.c.SetString(cs[0], 10)
		for i, a := range t.Args {
			b, _ := new(big.Int).SetString(cs[i+1], 10)
			l.co[a] = b
		}
		return l
	}
	return lin{c: new(big.Int), co: map[*Term]*big.Int{t: big.NewInt(1)}}
}

func (l lin) add(o lin, sign int64) lin {
	s := big.NewInt(sign)
	r := lin{c: new(big.Int).Add(l.c, new(big.Int).Mul(o.c, s)), co: map[*Term]*big.Int{}}
	for k, v := range l.co {
		r.co[k] = new(big.Int).Set(v)
	}
	for k, v := range o.co {
		d := new(big.Int).Mul(v, s)
		if e, ok := r.co[k]; ok {
			d.Add(d, e)
		}
		if d.Sign() == 0 {
			delete(r.co, k)
		} else {
			r.co[k] = d
		}
	}
	return r
}

func (l lin) scale(k *big.Int) lin {
	r := lin{c: new(big.Int).Mul(l.c, k), co: map[*Term]*big.Int{}}
	if k.Sign() == 0 {
		return r
	}
	for t, v := range l.co {
		r.co[t] = new(big.Int).Mul(v, k)
	}
	return r
}

func (l lin) term(t types.Type) *Term {
	if len(l.co) == 0 {
		return ConstT(constant.Make(new(big.Int).Set(l.c)), t)
	}
	var ks []*Term
	for k := range l.co {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	if len(ks) == 1 && l.c.Sign() == 0 && l.co[ks[0]].Cmp(big.NewInt(1)) == 0 {
		return ks[0]
	}
	s := l.c.String()
	for _, k := range ks {
		s += "," + l.co[k].String()
	}
	return mk(t, "lin", s, ks...)
}

func addT(a, b *Term, t types.Type) *Term { return toLin(a).add(toLin(b), 1).term(t) }
func subT(a, b *Term, t types.Type) *Term { return toLin(a).add(toLin(b), -1).term(t) }

// ---- types ----

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}
func isByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}
func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}
func isIface(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	if t == nil {
		return nil, nil, false
	}
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	one := big.NewInt(1)
	bits := uint(64)
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	}
	if b.Info()&types.IsUnsigned != 0 {
		return new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(one, bits), one), true
	}
	h := new(big.Int).Lsh(one, bits-1)
	return new(big.Int).Neg(h), new(big.Int).Sub(h, one), true
}

// zero builds the zero value of a type.
func zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolT(false)
		case u.Info()&types.IsString != 0:
			return ConstT(constant.MakeString(""), t)
		case u.Info()&types.IsNumeric != 0:
			return ConstT(constant.MakeInt64(0), t)
		}
		return NilT
	case *types.Struct:
		s := &StructV{T: t, Fields: make([]Val, u.NumFields())}
		for i := range s.Fields {
			s.Fields[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		return &ArrayV{Elem: u.Elem(), N: u.Len()}
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.V = append(tv.V, zero(u.At(i).Type()))
		}
		return tv
	}
	return NilT
}

func isZeroVal(v Val) (bool, bool) {
	switch x := v.(type) {
	case *Term:
		if x.Op == "nil" {
			return true, true
		}
		if x.Op == "const" {
			switch x.C.Kind() {
			case constant.Int, constant.Float:
				return constant.Sign(x.C) == 0, true
			case constant.String:
				return constant.StringVal(x.C) == "", true
			case constant.Bool:
				return !constant.BoolVal(x.C), true
			}
		}
		return false, false
	case *StructV:
		all := true
		for _, f := range x.Fields {
			z, known := isZeroVal(f)
			if known && !z {
				return false, true
			}
			if !known {
				all = false
			}
		}
		return all, all
	case *ArrayV:
		if x.Base != nil {
			return false, false
		}
		for _, e := range x.E {
			z, known := isZeroVal(e)
			if !known {
				return false, false
			}
			if !z {
				return false, true
			}
		}
		return true, true
	case *Ptr, *SliceV, *MapRef, *ChanRef, *IfaceV, *FuncV:
		return false, true
	}
	return false, false
}

// structInfo of a possibly named struct type.
func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func typeName(t types.Type) string {
	if t == nil {
		return "?"
	}
	return short(types.TypeString(t, nil))
}

var _ = token.NoPos
var _ = fmt.Sprint
