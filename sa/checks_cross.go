package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "P01", Title: "no panics", Floor: 400,
		Rule: "Every analysis of the other properties is performed once more, and every path of an entry point that ends in a panic (a nil dereference, an index or slice bound that nothing guards, a failed assertion, a closed channel, a nil map, an explicit panic) is reported. The obligations are the instructions of the code base that can panic.",
		Run: func(c *Ctx) {
			c.Guard("panic", func() { noPanics(c) })
		},
	})
}

// others performs the analyses of other properties once more.
func (c *Ctx) others(rule string, ids []string) int {
	n := 0
	for _, id := range ids {
		ck := checks[id]
		if ck == nil {
			continue
		}
		sub := &Ctx{R: c.R, ID: c.ID, In: c.In, Thorough: c.Thorough, perRule: map[string]int{}, sites: map[string]bool{}}
		t := c.In.Taint
		sub.Guard("analysis", func() { ck.Run(sub) })
		c.In.Taint = t
		c.und = append(c.und, sub.und...)
		c.enough(sub.ob > 0, rule, id, "nothing was analysed")
		n++
	}
	return n
}

// enough is an obligation about the analysis itself: where a limit was reached
// that is what is reported, not a violation.
func (c *Ctx) enough(ok bool, rule, site, format string, args ...interface{}) {
	if !ok && len(c.und) > 0 {
		c.undecided(rule, site, noPos, fmt.Sprintf(format, args...))
		return
	}
	c.Ob(ok, rule, site, noPos, format, args...)
}

// canPanic tells how an instruction may panic.
func canPanic(ins ssa.Instruction) string {
	fresh := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.Alloc, *ssa.Global, *ssa.FreeVar, *ssa.FieldAddr, *ssa.IndexAddr:
				return true
			case *ssa.ChangeType:
				v = x.X
			default:
				return false
			}
		}
	}
	switch x := ins.(type) {
	case *ssa.Panic:
		if !x.Pos().IsValid() {
			// The end of a select without a default.
			return ""
		}
		return "panic"
	case *ssa.FieldAddr:
		if !fresh(x.X) {
			return "nil dereference"
		}
	case *ssa.UnOp:
		if x.Op == token.MUL && !fresh(x.X) {
			return "nil dereference"
		}
	case *ssa.Store:
		if !fresh(x.Addr) {
			return "nil dereference"
		}
	case *ssa.Index:
		return "index"
	case *ssa.IndexAddr:
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if _, isC := x.Index.(*ssa.Const); isC && fresh(x.X) {
				if _, ok := p.Elem().Underlying().(*types.Array); ok {
					return ""
				}
			}
		}
		return "index"
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			return ""
		}
		return "slice bounds"
	case *ssa.Lookup:
		if isString(x.X.Type()) {
			return "index"
		}
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return "type assertion"
		}
	case *ssa.SliceToArrayPointer:
		return "conversion"
	case *ssa.MapUpdate:
		return "nil map"
	case *ssa.Send:
		return "closed channel"
	case *ssa.BinOp:
		if (x.Op == token.QUO || x.Op == token.REM) && isInteger(x.Type()) {
			if k, ok := x.Y.(*ssa.Const); !ok || k.Value == nil {
				return "division"
			}
		}
	case *ssa.MakeSlice:
		if _, ok := x.Len.(*ssa.Const); !ok {
			return "makeslice"
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "close" {
				return "closed channel"
			}
			return ""
		}
		if x.Call.IsInvoke() {
			return "nil interface"
		}
		if x.Call.StaticCallee() == nil {
			return "nil function"
		}
	}
	return ""
}

// ownCode: the functions that make up boltnd, without generated code and what
// only tests use.
func (c *Ctx) ownCode() []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range c.R.Funcs {
		p := fn
		for p.Parent() != nil {
			p = p.Parent()
		}
		if p.Pkg == nil {
			continue
		}
		path := p.Pkg.Pkg.Path()
		switch path[strings.LastIndex(path, "/")+1:] {
		case "offersrpc", "itest", "testutils":
			continue
		}
		r = append(r, fn)
	}
	return r
}

func noPanics(c *Ctx) {
	in := c.In
	in.cover = map[ssa.Instruction]bool{}
	in.onPanic = func(fn *ssa.Function, o Out) {
		at := fn
		for e := o.St.last; e != nil; e = e.prev {
			if e.Kind == "panic" {
				if e.Fn != nil {
					at = e.Fn
				}
				break
			}
		}
		c.Ob(false, "panic", fnName(at), o.Pos, "%s panics: %s when %s", fnName(fn), o.Why, o.St.FactString())
	}
	defer func() { in.cover, in.onPanic = nil, nil }()
	n := c.others("panic", []string{"W01", "W02", "W03", "W04", "W05", "W06", "W07", "W08", "W09", "W10", "W11", "R01", "R02", "R03", "M01", "M02", "M03", "M04", "M05", "M06", "M07", "M08", "S01", "S02", "S03", "S04", "S05", "S06", "S07", "B01", "B02", "B03", "B04", "O01"})
	c.enough(n > 20, "panic", "code base", "only %d analyses", n)
	missed := map[string]int{}
	for _, fn := range c.ownCode() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				k := canPanic(ins)
				if k == "" {
					continue
				}
				if in.cover[ins] {
					c.Ob(true, k, fnName(fn), ins.Pos(), "")
				} else {
					missed[fnName(fn)+": "+k+" "+c.R.Pos(ins.Pos())]++
				}
			}
		}
	}
	var ms []string
	for k, v := range missed {
		ms = append(ms, fmt.Sprintf("%s (%d)", k, v))
	}
	sort.Strings(ms)
	c.notes = append(c.notes, fmt.Sprintf("%d instructions that can panic lie on no analysed path", len(ms)))
	c.notes = append(c.notes, ms...)
}

func init() {
	register(&Check{
		ID: "K01", Title: "secrets stay inside", Floor: 60,
		Rule: "Taint analysis along every analysed path of the sending, forwarding and route building code: private keys and shared secrets against what is logged, formatted into errors, given to lnd or a stream, or returned.",
		Run: func(c *Ctx) {
			c.Guard("secrets", func() { noSecrets(c) })
		},
	})
}

// secret follows a term through operations that keep its content readable.
// Pointers inside a larger value are printed as addresses, and encoded by
// nothing here.
func secret(t *Term, top bool, seen map[*Term]bool) *Term {
	if t == nil || seen[t] && !top {
		return nil
	}
	seen[t] = true
	if t.T != nil {
		n := typeName(t.T)
		ptr := strings.HasPrefix(n, "*")
		switch strings.TrimPrefix(n, "*") {
		case "secp.PrivateKey", "btcec.PrivateKey", "secp.ModNScalar", "btcec.ModNScalar":
			if top || !ptr {
				return t
			}
			return nil
		}
	}
	if t.Op == "app" {
		if i := strings.LastIndexAny(t.S, ". "); true {
			switch t.S[i+1:] {
			case "DeriveSharedKey", "ECDH", "GenerateSharedSecret", "secret":
				return t
			case "Serialize", "Bytes", "String", "Sprintf", "Sprint", "Sprintln", "hex", "EncodeToString", "Join", "Quote", "PutBytesUnchecked", "Error":
				top = true
			default:
				if !strings.HasPrefix(t.S, "conv:") {
					return nil
				}
			}
		}
		for _, a := range t.Args {
			if r := secret(a, top, seen); r != nil {
				return r
			}
		}
		return nil
	}
	switch t.Op {
	case "const", "sym", "nil", "global":
		return nil
	case "deref", "field", "elem", "conv", "&":
		if t.Op != "&" {
			// A part of a key is as secret as the key.
			for _, a := range t.Args {
				if a.T != nil && strings.HasSuffix(typeName(a.T), ".PrivateKey") {
					return t
				}
			}
		}
	default:
		top = false
	}
	for _, a := range t.Args {
		if r := secret(a, top, seen); r != nil {
			return r
		}
	}
	return nil
}

func noSecrets(c *Ctx) {
	in := c.In
	judged := map[string]bool{}
	one := func(s *State, rule, site string, pos token.Pos, v Val) {
		if i, ok := v.(*IfaceV); ok {
			v = i.V
		}
		t := s.Freeze(v)
		r := secret(t, true, map[*Term]bool{})
		if r == nil {
			if p, ok := v.(*Ptr); ok {
				v = in.load(s, p)
			}
			switch v.(type) {
			case *SliceV, *ArrayV, *BufV:
				r = secret(s.Content(v), false, map[*Term]bool{})
			case *StructV:
				r = secret(s.Freeze(v), true, map[*Term]bool{})
			}
		}
		if r != nil {
			c.sure = true
			defer func() { c.sure = false }()
			c.Ob(false, rule, site, pos, "%v carries the secret %v", t, r)
			return
		}
		k := fmt.Sprintf("%s %s %d", rule, site, pos)
		if !judged[k] {
			judged[k] = true
			c.Ob(true, rule, site, pos, "")
		}
	}
	judge := func(s *State, rule, site string, pos token.Pos, v Val) {
		if sl, ok := in.sliceElems(s, v); ok {
			for _, e := range sl {
				one(s, rule, site, pos, e)
			}
			if len(sl) > 0 {
				return
			}
		}
		one(s, rule, site, pos, v)
	}
	in.onSink = func(s *State, kind string, ci *CallInfo, args []Val) {
		site := "?"
		if ci.Caller != nil {
			site = fnName(ci.Caller)
		}
		if kind == "log" {
			for _, a := range args {
				judge(s, "logged", site, ci.Pos, a)
			}
			return
		}
		if strings.HasPrefix(kind, "to ") {
			if (strings.Contains(kind, Mod) || strings.Contains(kind, "lndclient") || strings.Contains(kind, "grpc")) && ci.Name != "invoke ECDH" {
				for _, a := range args {
					judge(s, "sent", site, ci.Pos, a)
				}
			}
			return
		}
		switch {
		case strings.HasPrefix(ci.Name, "fmt.Errorf"), strings.HasPrefix(ci.Name, "errors.New"),
			strings.HasPrefix(ci.Name, "grpc/status."), strings.Contains(ci.Name, "errors.Wrap"):
			for _, a := range args {
				judge(s, "error", site, ci.Pos, a)
			}
		case strings.HasPrefix(ci.Name, "fmt.Print"), strings.HasPrefix(ci.Name, "fmt.Fprint"), strings.HasPrefix(ci.Name, "log."),
			strings.HasPrefix(ci.Name, "os."), strings.Contains(ci.Name, "spew."):
			for _, a := range args {
				judge(s, "written", site, ci.Pos, a)
			}
		}
	}
	defer func() { in.onSink = nil }()
	n := c.others("secrets", []string{"R01", "R02", "R03", "M01", "M02", "M06", "M07", "M08"})
	c.enough(n == 8, "secrets", "code base", "only %d analyses", n)
}

// ---- L01: what is taken is given back ----

// opened notes that an execution has taken something that it is to give back.
func (s *State) opened(what string, v Val, ci *CallInfo) {
	s.setGhost("open:"+what, &opening{what: what, v: v, pos: ci.Pos, fn: ci.Caller})
}

func (s *State) closed(what string) {
	if _, ok := s.ghost["open:"+what]; ok {
		s.setGhost("open:"+what, nil)
	}
}

type opening struct {
	what string
	v    Val
	pos  token.Pos
	fn   *ssa.Function
}

func init() {
	register(&Check{
		ID: "L01", Title: "what is taken is given back", Floor: 12,
		Rule: "Every analysis of the other properties is performed once more, and at the end of every path of every entry point and goroutine, what the path took is looked at: each lock taken must have been released, each context derived must have been cancelled (or its parent must have ended) and each ticker must have been stopped, unless the means to do so are still reachable from what the path was given or returned, from a package variable, or from what it handed to a goroutine or another component.",
		Run: func(c *Ctx) {
			c.Guard("given back", func() { givenBack(c) })
		},
	})
}

// kept: the means to give a thing back can still be reached.
func (in *Interp) kept(o Out, entry *State, given []Val, op *opening) bool {
	if strings.HasPrefix(op.what, "lock:") {
		return false
	}
	s := o.St
	var q []Val
	seen := map[int]bool{}
	obj := func(id int) {
		if seen[id] {
			return
		}
		seen[id] = true
		if v, ok := s.heap[id]; ok {
			q = append(q, v)
		}
	}
	q = append(append(q, given...), o.Vals...)
	for id := range entry.heap {
		obj(id)
	}
	for _, id := range s.sym {
		obj(id)
	}
	for e := s.last; e != nil && e != entry.last; e = e.prev {
		if e.Kind == "go" || e.Kind == "send" || e.Kind == "call" && !strings.HasPrefix(e.Name, "(*sync.") {
			for _, v := range e.Raw {
				// A context alone is no means to end it.
				if t, ok := v.(*Term); !ok || t.Op != "ctx" {
					q = append(q, v)
				}
			}
		}
	}
	found := false
	visited := map[*FuncV]bool{}
	for len(q) > 0 && !found {
		v := q[0]
		q = q[1:]
		switch x := v.(type) {
		case *Ptr:
			if p, ok := op.v.(*Ptr); ok && p.Obj == x.Obj {
				found = true
			}
			obj(x.Obj)
		case *MapRef:
			obj(x.Obj)
		case *ChanRef:
			obj(x.Obj)
		case *SliceV:
			if x.Base != nil {
				obj(x.Base.Obj)
			}
		case *IfaceV:
			q = append(q, x.V)
		case *FuncV:
			if visited[x] {
				break
			}
			visited[x] = true
			if x.Ext == "cancel" && len(x.Env) > 0 {
				if t, ok := x.Env[0].(*Term); ok && t == op.v {
					found = true
				}
			}
			q = append(append(q, x.Bind...), x.Env...)
		case *StructV:
			q = append(q, x.Fields...)
		case *ArrayV:
			for _, e := range x.E {
				q = append(q, e)
			}
		case *MapV:
			for _, e := range x.Ents {
				q = append(q, e.V)
			}
		}
	}
	return found
}

// slotUse is, by function, what its paths do with the slots of a channel that
// is used as a semaphore.
type slotUse map[string]*struct {
	back bool
	leak *Out
}

// semaphores are the channels of a state that can limit something.
func (s *State) semaphores() map[int]*ChanV {
	var r map[int]*ChanV
	for id, v := range s.heap {
		a, ok := v.(*ChanV)
		if !ok || a.Elem == nil {
			continue
		}
		if st, isS := a.Elem.Underlying().(*types.Struct); !isS || st.NumFields() != 0 {
			continue
		}
		if n, ok := constInt64(a.Cap); ok && n > 0 {
			if r == nil {
				r = map[int]*ChanV{}
			}
			r[id] = a
		}
	}
	return r
}

func (u slotUse) leave(fn *ssa.Function, entry map[int]*ChanV, o Out) {
	for id, a := range entry {
		b, ok := o.St.heap[id].(*ChanV)
		if !ok || a == b || a.Closed || b.Closed {
			continue
		}
		k := fnName(fn)
		if u[k] == nil {
			u[k] = &struct {
				back bool
				leak *Out
			}{}
		}
		if len(a.Queue) == len(b.Queue) {
			u[k].back = true
		} else if u[k].leak == nil {
			x := o
			u[k].leak = &x
		}
	}
}

func (u slotUse) judge(c *Ctx) {
	var users []string
	for fn := range u {
		users = append(users, fn)
	}
	sort.Strings(users)
	for _, fn := range users {
		if x := u[fn]; x.back && x.leak != nil {
			c.Ob(false, "slot", fn, x.leak.Pos, "a slot of a channel that limits how often this runs at once, which other paths give back, is still taken when it ends although %s", x.leak.St.FactString())
		}
	}
}

func givenBack(c *Ctx) {
	in := c.In
	in.cover = map[ssa.Instruction]bool{}
	paths := 0
	slots := slotUse{}
	in.onLeave = func(fn *ssa.Function, entry *State, given []Val, o Out) {
		if o.Kind != Ret {
			return
		}
		paths++
		slots.leave(fn, entry.semaphores(), o)
		for k, g := range o.St.ghost {
			op, ok := g.(*opening)
			if !ok || entry.ghost[k] != nil {
				continue
			}
			if t, ok := op.v.(*Term); ok && t.Op == "ctx" && o.St.ctxClosed(t) || in.kept(o, entry, given, op) {
				continue
			}
			what, how := strings.Fields(op.what)[0], "neither cancelled nor kept"
			switch {
			case strings.HasPrefix(what, "lock:"):
				what, how = "lock", "still held"
			case what == "ticker":
				how = "neither stopped nor kept"
			}
			at := fn
			if op.fn != nil {
				at = op.fn
			}
			c.Ob(false, what, fnName(at), op.pos, "the %s is %s when %s ends although %s", what, how, fnName(fn), o.St.FactString())
		}
	}
	defer func() { in.cover, in.onLeave = nil, nil }()
	n := c.others("given back", []string{"R03", "M01", "M02", "M03", "M04", "M05", "M06", "M07", "M08", "S01", "S02", "S03", "S04", "S05", "S06", "B01", "B02", "B03", "B04", "W01", "W08", "W09", "W10", "W11", "O01"})
	slots.judge(c)
	c.enough(n > 20, "given back", "code base", "only %d analyses", n)
	c.enough(paths > 1000, "given back", "paths", "only %d paths were followed to their end", paths)
	// What takes something, and whether an analysed path does so.
	missed := 0
	for _, fn := range c.ownCode() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := call.Common().StaticCallee()
				if f == nil {
					continue
				}
				switch f.String() {
				case "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "time.NewTicker", "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
				default:
					continue
				}
				if in.cover[ins] {
					c.Ob(true, "given back", fnName(fn), ins.Pos(), "")
				} else {
					missed++
					c.notes = append(c.notes, fmt.Sprintf("no analysed path takes what %s takes at %s", fnName(fn), c.R.Pos(ins.Pos())))
				}
			}
		}
	}
	c.notes = append(c.notes, fmt.Sprintf("%d paths were followed to their end; %d instructions that take something lie on none", paths, missed))
}
