package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// raceRec makes the interpreter record the memory that is read and written as
// events, and the points where another thread of execution begins.
type raceRec struct {
	off    int // recording is suspended
	atomic int // inside of an atomic operation
	op     int // number of the last atomic operation
	spawns []spawn
	fn     *ssa.Function
	pos    token.Pos
	// globals collects the unsynchronised writes of package variables, and
	// nothing else is recorded.
	globals map[string]*acc
	c       *Ctx
	n       int
	names   map[int]string
	known   int
}

// spawn is a point of an execution from which another one runs beside it.
type spawn struct {
	st   *State
	fn   *FuncV
	args []Val
	ev   *Event
	what string
}

// acc is one access, as recorded in an event of kind acc.
type acc struct {
	obj    int
	path   []PathElem
	write  bool
	atomic int // number of the atomic operation, 0: none
	locks  map[string]bool
	val    *Term
	name   string
	pos    token.Pos
	fn     *ssa.Function
}

// locksHeld are the locks an execution holds, and whether exclusively.
func (s *State) locksHeld() map[string]bool {
	r := map[string]bool{}
	for k, g := range s.ghost {
		if !strings.HasPrefix(k, "lock:") || g == nil {
			continue
		}
		if n, ok := constInt64(g); ok && n != 0 {
			r[k] = n < 0 // exclusive
		}
	}
	if n, ok := s.ghost["inonce"]; ok && n != nil {
		if t, ok := n.(*Term); ok && t.Op == "sym" {
			r[t.S] = true
		}
	}
	return r
}

func (in *Interp) access(s *State, obj int, path []PathElem, write bool, v Val) {
	r := in.race
	if r == nil || r.off > 0 {
		return
	}
	if r.globals != nil {
		if r.known != len(in.globals) {
			r.known = len(in.globals)
			r.names = map[int]string{}
			for o := range in.base.heap {
				if n, ok := r.c.globalName(o); ok {
					r.names[o] = n
				}
			}
		}
		n := r.names[obj]
		if n == "" {
			return
		}
		r.n++
		if !write || r.atomic > 0 || s.ghost["inonce"] != nil && s.ghost["inonce"] != Val(NilT) {
			return
		}
		for k, g := range s.ghost {
			if strings.HasPrefix(k, "lock:") && g != nil {
				if n, ok := constInt64(g); ok && n < 0 {
					return
				}
			}
		}
		k := n + fmt.Sprint(r.pos)
		if r.globals[k] == nil {
			r.globals[k] = &acc{name: n, pos: r.pos, fn: r.fn}
		}
		return
	}
	a := &acc{obj: obj, path: path, write: write, locks: s.locksHeld()}
	if r.atomic > 0 {
		a.atomic = r.op
	}
	if t, ok := v.(*Term); ok && t.Op == "const" {
		a.val = t
	}
	s.event(&Event{Kind: "acc", Name: "acc", acc: a, Pos: r.pos, Fn: r.fn})
}

// syncEv records a release or an acquisition of an object.
func (in *Interp) syncEv(s *State, name string, obj int, path []PathElem) {
	if in.race == nil || in.race.globals != nil || in.race.off > 0 {
		return
	}
	s.event(&Event{Kind: "sync", Name: name, acc: &acc{obj: obj, path: path}, Pos: in.race.pos, Fn: in.race.fn})
}

func (in *Interp) spawned(s *State, what string, fv Val, args []Val, ev *Event) {
	if in.race == nil || in.race.globals != nil || in.race.off > 0 {
		return
	}
	f, ok := fv.(*FuncV)
	if !ok || f.Fn == nil {
		return
	}
	in.race.spawns = append(in.race.spawns, spawn{s.fork(), f, args, ev, what})
}

// muted runs f without recording.
func (in *Interp) muted(f func()) {
	if in.race != nil {
		in.race.off++
		defer func() { in.race.off-- }()
	}
	f()
}

// ---- threads ----

// rop is one operation of a run on something that is shared.
type rop struct {
	kind   string // acc, rel, acq
	key    string
	path   []PathElem
	write  bool
	atomic int
	locks  map[string]bool
	val    *Term
	chanOp string // send, close, recv
	pos    token.Pos
	fn     *ssa.Function
}

type thread struct {
	name  string
	alone bool // there is only one of it
	runs  [][]rop
}

// namer tells what an object is called, "" if it is not shared.
type namer func(s *State, obj int) string

// sharedNames names the objects that are reachable from the given values.
func (c *Ctx) sharedNames(s *State, roots map[string]Val) namer {
	names := map[int]string{}
	terms := map[int]string{}
	type item struct {
		n string
		v Val
	}
	var q []item
	var rs []string
	for n := range roots {
		rs = append(rs, n)
	}
	sort.Strings(rs)
	for _, n := range rs {
		q = append(q, item{n, roots[n]})
	}
	obj := func(n string, o int) {
		if _, ok := names[o]; ok {
			return
		}
		names[o] = n
		if v, ok := s.heap[o]; ok {
			q = append(q, item{n, v})
		}
	}
	for len(q) > 0 {
		i := q[0]
		q = q[1:]
		if strings.Count(i.n, ".") > 8 {
			continue
		}
		switch x := i.v.(type) {
		case *Ptr:
			obj(i.n, x.Obj)
		case *MapRef:
			obj(i.n+".map", x.Obj)
		case *ChanRef:
			obj(i.n+".chan", x.Obj)
		case *SliceV:
			if x.Base != nil {
				obj(i.n+".elems", x.Base.Obj)
			}
		case *IfaceV:
			q = append(q, item{i.n, x.V})
		case *FuncV:
			for k, b := range x.Bind {
				q = append(q, item{fmt.Sprintf("%s.bind%d", i.n, k), b})
			}
			for k, b := range x.Env {
				q = append(q, item{fmt.Sprintf("%s.env%d", i.n, k), b})
			}
		case *StructV:
			st := structOf(x.T)
			for k, f := range x.Fields {
				n := fmt.Sprint(k)
				if st != nil && k < st.NumFields() {
					n = st.Field(k).Name()
				}
				if f != nil {
					q = append(q, item{i.n + "." + n, f})
				}
			}
		case *ArrayV:
			for k, e := range x.E {
				q = append(q, item{fmt.Sprintf("%s.%d", i.n, k), e})
			}
		case *MapV:
			for k, e := range x.Ents {
				q = append(q, item{fmt.Sprintf("%s.e%d", i.n, k), e.V})
			}
		case *Term:
			if _, ok := terms[x.id]; !ok && x.Op == "sym" {
				terms[x.id] = i.n
			}
		}
	}
	return func(s *State, o int) string {
		if n, ok := names[o]; ok {
			return n
		}
		if n, ok := c.globalName(o); ok {
			return n
		}
		// What a shared symbolic pointer leads to.
		if t, ok := s.orig[o]; ok {
			n := ""
			t.Walk(func(t *Term) bool {
				if x, ok := terms[t.id]; ok {
					n = x
				}
				return n == ""
			})
			if n != "" {
				return n + ":" + t.String()
			}
		}
		return ""
	}
}

// globalName names the objects package variables consist of.
func (c *Ctx) globalName(o int) (string, bool) {
	in := c.In
	for g, v := range in.globals {
		if p, ok := v.(*Ptr); ok {
			if p.Obj == o {
				return "variable " + short(g.String()), true
			}
			switch x := in.base.heap[p.Obj].(type) {
			case *MapRef:
				if x.Obj == o {
					return "map " + short(g.String()), true
				}
			case *SliceV:
				if x.Base != nil && x.Base.Obj == o {
					return "elements of " + short(g.String()), true
				}
			case *Ptr:
				if x.Obj == o {
					return "target of " + short(g.String()), true
				}
			}
		}
	}
	return "", false
}

// sinceNames names what existed when an execution was spawned.
func sinceNames(st *State) namer {
	max := st.in.objSeq
	return func(s *State, o int) string {
		if o <= max {
			return fmt.Sprintf("#%d", o)
		}
		if t, ok := s.orig[o]; ok {
			return "term " + t.String()
		}
		return ""
	}
}

func chanKey(s *State, n namer, ch Val) string {
	switch x := ch.(type) {
	case *ChanRef:
		return n(s, x.Obj)
	case *Term:
		return "chan " + x.String()
	}
	return ""
}

// shared lists what a run does to things that are shared.
func shared(s *State, evs []*Event, n namer) []rop {
	var r []rop
	for _, e := range evs {
		add := func(kind, chanOp, key string) {
			if key != "" {
				r = append(r, rop{kind: kind, key: key, chanOp: chanOp, pos: e.Pos, fn: e.Fn})
			}
		}
		switch e.Kind {
		case "acc":
			k := n(s, e.acc.obj)
			if k == "" {
				continue
			}
			r = append(r, rop{kind: "acc", key: k, path: e.acc.path, write: e.acc.write, atomic: e.acc.atomic, val: e.acc.val, pos: e.Pos, fn: e.Fn, locks: held(s, n, e.acc.locks)})
		case "sync":
			k := n(s, e.acc.obj)
			if k != "" {
				add(e.Name, "", "sync "+k+fmt.Sprint(e.acc.path))
			}
		case "send", "sel-send":
			k := chanKey(s, n, e.Raw[0])
			if k != "" {
				r = append(r, rop{kind: "acc", key: "open " + k, locks: held(s, n, e.locks), pos: e.Pos, fn: e.Fn})
			}
			add("rel", "send", k)
		case "close":
			// Closing is a write of what sends rely on.
			k := chanKey(s, n, e.Raw[0])
			if k != "" {
				r = append(r, rop{kind: "acc", key: "open " + k, write: true, locks: held(s, n, e.locks), pos: e.Pos, fn: e.Fn})
			}
			add("rel", "close", k)
		case "recv", "sel-recv":
			add("acq", "recv", chanKey(s, n, e.Raw[0]))
		case "call":
			switch e.Name {
			case "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait":
				if p, ok := e.Raw[0].(*Ptr); ok {
					if k := n(s, p.Obj); k != "" {
						kind := "rel"
						if strings.HasSuffix(e.Name, "Wait") {
							kind = "acq"
						}
						add(kind, "", "wg "+k+fmt.Sprint(p.Path))
					}
				}
			case "cancel":
				if len(e.Args) > 0 {
					add("rel", "close", "chan "+mk(nil, "done", "", e.Args[0]).String())
				}
			}
		}
	}
	return r
}

// held names the locks.
func held(s *State, n namer, locks map[string]bool) map[string]bool {
	r := map[string]bool{}
	for l, x := range locks {
		var id int
		rest := ""
		for _, k := range []string{"lock", "once"} {
			if m, _ := fmt.Sscanf(l, k+":%d", &id); m == 1 {
				rest = strings.TrimPrefix(l, fmt.Sprintf("%s:%d", k, id))
				break
			}
		}
		if ln := n(s, id); ln != "" {
			r[ln+rest] = x
		}
	}
	return r
}

func overlap(a, b []PathElem) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i].Field != b[i].Field {
			return false
		}
		if a[i].Idx != nil && b[i].Idx != nil {
			x, ok := constInt64(a[i].Idx)
			y, ok2 := constInt64(b[i].Idx)
			if ok && ok2 && x != y {
				return false
			}
		}
	}
	return true
}

// site is one access together with what orders it.
type site struct {
	rop
	// The number of the next release of a thing and of the acquisitions
	// so far; channels hand over in order.
	relAfter, acqBefore map[string]int
	sendBefore, rcvLate map[string]int
	atomWr, atomRd      map[string]bool // atomic writes after it, reads before it
	excl                map[string]bool
	rels                map[string]bool // all that the run releases
}

func (x *site) sig() string {
	m := func(m map[string]bool) string {
		var r []string
		for k, v := range m {
			r = append(r, fmt.Sprint(k, v))
		}
		sort.Strings(r)
		return strings.Join(r, ",")
	}
	return fmt.Sprint(x.key, x.path, x.write, x.atomic > 0, x.pos, "|", m(x.locks), "|", x.relAfter, "|", x.acqBefore, "|", x.sendBefore, "|", x.rcvLate, "|", m(x.atomWr), "|", m(x.atomRd), "|", m(x.excl), "|", m(x.rels))
}

// sites are the accesses of a run.
func runSites(run []rop) []*site {
	all := map[string]bool{}
	for _, o := range run {
		if o.kind == "rel" {
			all[o.key] = true
		}
		if o.kind == "acc" && o.atomic > 0 && o.write {
			all["atomic "+o.key+fmt.Sprint(o.path)] = true
		}
	}
	var r []*site
	seen := map[string]bool{}
	for i, o := range run {
		if o.kind != "acc" {
			continue
		}
		x := &site{rop: o, relAfter: map[string]int{}, acqBefore: map[string]int{}, sendBefore: map[string]int{}, rcvLate: map[string]int{},
			atomWr: map[string]bool{}, atomRd: map[string]bool{}, excl: map[string]bool{}, rels: all}
		count := map[string]int{}
		for j, p := range run {
			k := p.key
			switch {
			case p.kind == "rel":
				// What is done for good needs to be seen once.
				n := 1
				if p.chanOp == "send" {
					count["s"+k]++
					n = count["s"+k]
				}
				if _, ok := x.relAfter[k]; j > i && (!ok || n < x.relAfter[k]) {
					x.relAfter[k] = n
				}
				if j < i && p.chanOp == "send" {
					x.sendBefore[k] = n
				}
			case p.kind == "acq":
				count["r"+k]++
				if j < i {
					x.acqBefore[k] = count["r"+k]
				} else if _, ok := x.rcvLate[k]; !ok {
					x.rcvLate[k] = count["r"+k]
				}
			case p.kind == "acc" && p.atomic > 0:
				k := "atomic " + k + fmt.Sprint(p.path)
				if p.write && j > i {
					x.atomWr[k] = true
				}
				if !p.write && j < i {
					x.atomRd[k] = true
				}
			}
		}
		// Taking a place that only one can take.
		for j := 0; j < i; j++ {
			a := run[j]
			if a.kind == "excl" {
				x.excl[a.key] = true
			}
			if a.kind != "acc" || a.write || a.val == nil {
				continue
			}
			for k := j + 1; k <= i; k++ {
				b := run[k]
				if b.kind != "acc" || !b.write || b.key != a.key || fmt.Sprint(a.path) != fmt.Sprint(b.path) || b.val == nil || b.val == a.val {
					continue
				}
				same := a.atomic > 0 && a.atomic == b.atomic
				for l, x := range a.locks {
					if x && b.locks[l] {
						same = true
					}
				}
				if same {
					x.excl[fmt.Sprint(a.key, a.path, a.val)] = true
				}
			}
		}
		if s := x.sig(); !seen[s] {
			seen[s] = true
			r = append(r, x)
		}
	}
	return r
}

func meet(a, b map[string]bool) bool {
	for k := range a {
		if b[k] {
			return true
		}
	}
	return false
}

// ordered: whatever the schedule, a comes before b.
func happensBefore(a, b *site) bool {
	return reaches(a.relAfter, b.acqBefore) || reaches(a.rcvLate, b.sendBefore) || meet(a.atomWr, b.atomRd)
}

// reaches: the n-th release has been seen after as many acquisitions.
func reaches(rel, acq map[string]int) bool {
	for k, n := range rel {
		if m, ok := acq[k]; ok && n <= m {
			return true
		}
	}
	return false
}

func (t *thread) releases() map[string]bool {
	r := map[string]bool{}
	for _, run := range t.runs {
		for _, o := range run {
			if o.kind == "rel" {
				r[o.key] = true
			}
			if o.kind == "acc" && o.atomic > 0 && o.write {
				r["atomic "+o.key+fmt.Sprint(o.path)] = true
			}
		}
	}
	return r
}

// conflicts reports the accesses of threads that may happen at the same time.
func (c *Ctx) conflicts(rule string, ts []*thread, skip func(a, b *thread) bool, label func(key string, x *site) string) {
	releasers := map[string]int{}
	sites := map[*thread][]*site{}
	for _, t := range ts {
		for k := range t.releases() {
			releasers[k]++
		}
		seen := map[string]bool{}
		for _, r := range t.runs {
			for _, x := range runSites(r) {
				if g := x.sig(); !seen[g] {
					seen[g] = true
					sites[t] = append(sites[t], x)
				}
			}
		}
	}
	// waits: b's run needs something that only a's thread provides and a's
	// run does not.
	waits := func(ta *thread, a, b *site) bool {
		rel := ta.releases()
		need := func(k string) bool { return releasers[k] == 1 && rel[k] && !a.rels[k] }
		for k := range b.acqBefore {
			if need(k) {
				return true
			}
		}
		for k := range b.atomRd {
			if need(k) {
				return true
			}
		}
		return false
	}
	for i, ta := range ts {
		for _, tb := range ts[i:] {
			if ta == tb && ta.alone || skip != nil && skip(ta, tb) {
				continue
			}
			for _, a := range sites[ta] {
				for _, b := range sites[tb] {
					if a.key != b.key || !a.write && !b.write || !overlap(a.path, b.path) {
						continue
					}
					ok := a.atomic > 0 && b.atomic > 0
					for l, x := range a.locks {
						if y, held := b.locks[l]; held && (x || !a.write) && (y || !b.write) && (x || y) {
							ok = true
						}
					}
					ok = ok || meet(a.excl, b.excl) || happensBefore(a, b) || happensBefore(b, a) || waits(ta, a, b) || waits(tb, b, a)
					w := a
					tw, o, to := ta, b, tb
					if !a.write {
						w, tw, o, to = b, tb, a, ta
					}
					do := "read"
					if o.write {
						do = "written"
					}
					at := "-"
					if o.fn != nil {
						at = fnName(o.fn)
					}
					site := tw.name
					if w.fn != nil {
						site = fnName(w.fn)
					}
					if strings.HasPrefix(w.key, "open ") {
						do := "sends on it"
						if o.write {
							do = "closes it too"
						}
						what := strings.TrimPrefix(w.key, "open ")
						if strings.Contains(what, "#") {
							what = "a channel that both can reach"
						}
						c.Ob(ok, rule, site, w.pos, "%s is closed by %s while %s %s in %s (%s), and nothing orders the two", what, tw.name, to.name, do, at, c.R.Pos(o.pos))
						continue
					}
					c.Ob(ok, rule, site, w.pos, "%s is written by %s while %s has it %s in %s (%s), and nothing orders the two", label(w.key, w), tw.name, to.name, do, at, c.R.Pos(o.pos))
				}
			}
		}
	}
}
