package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "B01", Title: "configuration", Floor: 40,
		Rule: "Abstract interpretation of the constructor for lists of options with arbitrary effects and failures, of the validation for every combination of its conditions, and of the options themselves: order of effects, provenance of each configured value.",
		Run: func(c *Ctx) {
			c.Guard("options", func() { cfgOptions(c) })
			c.Guard("validate", func() { cfgValidate(c) })
			c.Guard("lnd", func() { cfgLnd(c) })
			c.Guard("setters", func() { cfgSetters(c) })
			c.Guard("lndlogger", func() { cfgLndLogger(c) })
		},
	})
	register(&Check{
		ID: "B02", Title: "start and stop", Floor: 40,
		Rule: "Abstract interpretation of start and stop for every number of retries and failing attempts up to the bound and at the bounds of the type: number and order of connections, waits and effects.",
		Run: func(c *Ctx) {
			c.Guard("start", func() { bStart(c) })
			c.Guard("stop", func() { bStop(c) })
			c.Guard("shutdown", func() { bShutdown(c) })
		},
	})
	register(&Check{
		ID: "B03", Title: "logging", Floor: 12,
		Rule: "Enumeration of the program's packages that own a logger against the registrations that abstract interpretation of the constructor observes.",
		Run: func(c *Ctx) {
			c.Guard("loggers", func() { bLoggers(c) })
		},
	})
}

func init() {
	register(&Check{
		ID: "B04", Title: "service registration", Floor: 6,
		Rule: "Abstract interpretation of the registration callback, a start and a stop on a node that the constructor made: what is registered, where, and whether it is the object that start starts and stop stops.",
		Run: func(c *Ctx) {
			c.Guard("register", func() { bRegister(c) })
		},
	})
}

// bRegister: lnd serves boltnd's rpcs by the server that boltnd starts.
func bRegister(c *Ctx) {
	fn := c.R.Method("boltnd", "Boltnd", "RegisterGrpcSubserver")
	start, stop := c.R.Method("boltnd", "Boltnd", "Start"), c.R.Method("boltnd", "Boltnd", "Stop")
	site := fnName(fn)
	w := &bolt{c: c}
	desc, ok := c.R.SSA[Mod+"/offersrpc"].Members["Offers_ServiceDesc"].(*ssa.Global)
	if !ok {
		panic(Undecided{"no description of the service"})
	}
	descAt, _ := c.In.global(c.In.base, desc).(*Ptr)
	calls := hooks(func(in *Interp, s *State, ci *CallInfo) ([]Out, bool) {
		if !strings.HasSuffix(ci.Name, "RegisterService") {
			return nil, false
		}
		s.event(&Event{Kind: "call", Name: ci.Name, Raw: ci.Args, Args: s.FreezeAll(ci.Args[:1]), Pos: ci.Pos, Fn: ci.Caller, Instr: ci.Instr})
		return ret(s), true
	}, w.calls)
	reg := func(e *Event) bool { return e.Kind == "call" && strings.HasSuffix(e.Name, "RegisterService") }
	made := 0
	c.newBoltnd("register", []func(s *State, cfg *Ptr) *Term{func(s *State, cfg *Ptr) *Term { return NilT }}, func(o Out, evs []*Event) {
		if failed(o) {
			return
		}
		made++
		c.Ob(len(find(evs, reg)) == 0, "register", site, noPos, "the constructor registers a service")
		c.In.With(&Scenario{Call: calls, LoopK: 600, Recv: recvPick(false), Select: selPick(false)}, func() {
			states := []Out{{St: o.St.fork()}}
			step := func(rule string, f *ssa.Function, args ...Val) {
				var next []Out
				for _, x := range states {
					for _, y := range c.run(rule, x.St, f, append([]Val{o.Vals[0]}, args...)) {
						if !failed(y) {
							next = append(next, y)
						}
					}
				}
				states = next
			}
			srv := c.psym("grpcserver", derefType(fn.Params[1].Type()))
			step("register", fn, srv)
			step("register", start)
			step("register", stop)
			c.Ob(len(states) > 0, "register", site, fn.Pos(), "the service is never registered")
			for _, x := range states {
				evs := x.St.Events()
				rs := find(evs, reg)
				if !c.Ob(len(rs) == 1, "register", site, fn.Pos(), "%d services are registered", len(rs)) {
					continue
				}
				r := rs[0]
				n := len(r.Raw)
				c.Ob(n == 3 && r.Arg(0) == x.St.Freeze(srv), "register", site, r.Pos, "the service is registered with %v", r.Arg(0))
				d, ok := r.Raw[n-2].(*Ptr)
				c.Ob(ok && d.Obj == descAt.Obj && len(d.Path) == 0, "register", site, r.Pos, "the service is described otherwise than by its description")
				obj := func(v Val) int {
					if i, ok := v.(*IfaceV); ok {
						v = i.V
					}
					if p, ok := v.(*Ptr); ok && len(p.Path) == 0 {
						return p.Obj
					}
					return -1
				}
				impl := obj(r.Raw[n-1])
				ss, sp := find(evs, named("(*@/rpcserver.Server).Start")), find(evs, named("(*@/rpcserver.Server).Stop"))
				c.Ob(len(ss) == 1 && impl >= 0 && obj(ss[0].Raw[0]) == impl, "served", fnName(start), start.Pos(), "the server that is started is not the one that is registered")
				c.Ob(len(sp) == 1 && impl >= 0 && obj(sp[0].Raw[0]) == impl, "served", fnName(stop), stop.Pos(), "the server that is stopped is not the one that is registered")
			}
		})
	})
	c.Ob(made > 0, "register", site, fn.Pos(), "no node is constructed")
}

// newBoltnd runs the constructor with options that have the given effects.
func (c *Ctx) newBoltnd(rule string, effects []func(s *State, cfg *Ptr) *Term, each func(o Out, evs []*Event)) {
	in := c.In
	fn := c.R.Func("boltnd", "NewBoltnd")
	st, ok := fn.Params[0].Type().Underlying().(*types.Slice)
	if !ok {
		panic(Undecided{"the constructor's parameters"})
	}
	s := in.Start()
	var opts []Val
	for i := range effects {
		o := Sym(fmt.Sprintf("option%d", i), st.Elem())
		in.nonNil[o.id] = true
		opts = append(opts, o)
	}
	call := func(in *Interp, s *State, ci *CallInfo) ([]Out, bool) {
		if strings.HasPrefix(ci.Name, "dyn option") {
			var i int
			if _, err := fmt.Sscanf(ci.Name, "dyn option%d", &i); err != nil || i >= len(effects) {
				return nil, false
			}
			p, ok := ci.Args[0].(*Ptr)
			if !ok {
				panic(Undecided{"an option's configuration"})
			}
			err := effects[i](s, p)
			s.event(&Event{Kind: "call", Name: ci.Name, Args: s.FreezeAll(ci.Args), Raw: ci.Args, Pos: ci.Pos, Fn: ci.Caller, Failed: err != NilT})
			return ret(s, err), true
		}
		if ci.Name == "lndclient.AssertVersionCompatible" {
			return in.errFork(s, ci, ci.Name, s.FreezeAll(ci.Args)), true
		}
		return nil, false
	}
	in.With(&Scenario{Call: call, LoopK: 20}, func() {
		m := s.event(&Event{Kind: "mark"})
		outs := c.run(rule, s, fn, []Val{s.newSlice(st.Elem(), opts...)})
		c.Ob(len(outs) > 0, rule, fnName(fn), fn.Pos(), "no path returns")
		for _, o := range outs {
			each(o, o.St.EventsSince(m))
		}
	})
}

func noEffect(s *State, cfg *Ptr) *Term { return NilT }

// set stores a field of a struct.
func (c *Ctx) set(s *State, p *Ptr, t types.Type, field string, v Val) {
	sv, ok := c.In.load(s, p).(*StructV)
	if !ok {
		panic(Undecided{"a struct's fields"})
	}
	st := structOf(t)
	n := &StructV{T: sv.T, Fields: append([]Val(nil), sv.Fields...)}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			n.Fields[i] = v
			c.In.store(s, p, n, nil)
			return
		}
	}
	panic(Undecided{"field " + field})
}

func cfgOptions(c *Ctx) {
	site := fnName(c.R.Func("boltnd", "NewBoltnd"))
	ct := c.R.Type("boltnd", "Config")
	for n := 0; n <= 3; n++ {
		for bad := -1; bad < n; bad++ {
			var eff []func(s *State, cfg *Ptr) *Term
			for i := 0; i < n; i++ {
				e := noEffect
				if i == bad {
					e = func(s *State, cfg *Ptr) *Term { return c.In.envErr("option failed") }
				}
				eff = append(eff, e)
			}
			what := fmt.Sprintf("%d options, number %d fails", n, bad)
			okN := 0
			c.newBoltnd("options", eff, func(o Out, evs []*Event) {
				calls := find(evs, func(e *Event) bool { return strings.HasPrefix(e.Name, "dyn option") })
				want := n
				if bad >= 0 {
					want = bad + 1
				}
				if c.Ob(len(calls) == want, "options", site, noPos, "%s: %d are applied", what, len(calls)) {
					for i, e := range calls {
						c.Ob(e.Name == fmt.Sprintf("dyn option%d", i), "options", site, e.Pos, "%s: options are not applied in order", what)
						c.Ob(i == 0 || sameObj(e.Raw[0], calls[0].Raw[0]), "options", site, e.Pos, "%s: options are applied to different configurations", what)
					}
				}
				anyBad := len(find(evs, func(e *Event) bool { return e.Failed })) > 0
				c.Ob(failed(o) == anyBad, "options", site, noPos, "%s: a step fails (%v), the result is %v", what, anyBad, errT(o))
				if !failed(o) {
					okN++
				}
			})
			c.Ob((okN > 0) == (bad < 0), "options", site, noPos, "%s: %d successful outcomes", what, okN)
		}
	}
	// What the options leave is what is validated, and used.
	for _, k := range []string{"LndClientCfg", "LNDWait"} {
		c.newBoltnd("options", []func(s *State, cfg *Ptr) *Term{noEffect, func(s *State, cfg *Ptr) *Term {
			var v Val = NilT
			if k == "LNDWait" {
				v = ConstT(IntT(-1).C, structField(ct, k))
			}
			c.set(s, cfg, ct, k, v)
			return NilT
		}}, func(o Out, evs []*Event) {
			c.Ob(failed(o), "validated", site, noPos, "an invalid %s that an option sets is accepted", k)
		})
	}
	c.newBoltnd("options", []func(s *State, cfg *Ptr) *Term{func(s *State, cfg *Ptr) *Term {
		c.set(s, cfg, ct, "LNDRetires", ConstT(IntT(77).C, structField(ct, "LNDRetires")))
		return NilT
	}}, func(o Out, evs []*Event) {
		if failed(o) {
			return
		}
		b := derefAll(o.St.Freeze(o.Vals[0]))
		cfg := derefAll(b.Field("cfg"))
		n, isC := constInt64(cfg.Field("LNDRetires"))
		c.Ob(isC && n == 77, "used", site, noPos, "what an option sets is not used: %v", cfg.Field("LNDRetires"))
	})
}

func sameObj(a, b Val) bool {
	x, ok1 := a.(*Ptr)
	y, ok2 := b.(*Ptr)
	return ok1 && ok2 && x.Obj == y.Obj
}

func cfgValidate(c *Ctx) {
	fn := c.R.Method("boltnd", "Config", "Validate")
	site := fnName(fn)
	ct := c.R.Type("boltnd", "Config")
	lt := derefType(structField(ct, "LndClientCfg"))
	cv := Sym("version", structField(lt, "CheckVersion"))
	c.In.nonNil[cv.id] = true
	for mask := 0; mask < 4; mask++ {
		s := c.In.Start()
		f := map[string]Val{}
		if mask&1 > 0 {
			lf := map[string]Val{}
			if mask&2 > 0 {
				lf["CheckVersion"] = cv
			}
			f["LndClientCfg"] = s.obj(lt, lf)
		}
		wait := Sym("wait", structField(ct, "LNDWait"))
		f["LNDWait"] = wait
		cfg := s.obj(ct, f)
		okN := 0
		c.In.With(&Scenario{Call: func(in *Interp, s *State, ci *CallInfo) ([]Out, bool) {
			if ci.Name == "lndclient.AssertVersionCompatible" {
				return in.errFork(s, ci, ci.Name, s.FreezeAll(ci.Args)), true
			}
			return nil, false
		}}, func() {
			for _, o := range c.run("validate", s, fn, []Val{cfg}) {
				vs := find(o.St.Events(), named("lndclient.AssertVersionCompatible"))
				neg, known := o.St.evalBool(ltT(wait, IntT(0)))
				bad := len(find(o.St.Events(), func(e *Event) bool { return e.Failed })) > 0
				for _, e := range vs {
					c.Ob(e.Arg(0) == cv, "version", site, e.Pos, "the version %v is compared", e.Arg(0))
					min := c.minVersion(o.St)
					c.Ob(derefAll(e.Arg(1)) == min || e.Arg(1) == min, "version", site, e.Pos, "the version is compared to %v", e.Arg(1))
				}
				if !failed(o) {
					okN++
					c.Ob(mask == 3, "validate", site, noPos, "a configuration without lnd client (%v) or version (%v) is valid", mask&1 == 0, mask&2 == 0)
					c.Ob(known && !neg, "validate", site, noPos, "a negative wait is valid")
					c.Ob(len(vs) == 1 && !bad, "validate", site, noPos, "a version that is too low is valid")
				} else {
					c.Ob(mask != 3 || bad || known && neg, "validate", site, noPos, "a valid configuration is refused (%s)", o.St.FactString())
				}
			}
		})
		c.Ob((okN > 0) == (mask == 3), "validate", site, noPos, "%d valid outcomes", okN)
	}
	// The defaults are valid, and the minimum is a version.
	s := c.In.Start()
	c.In.With(&Scenario{ExtOK: true}, func() {
		df := c.R.Func("boltnd", "DefaultConfig")
		for _, d := range c.run("default", s, df, nil) {
			for _, o := range c.run("default", d.St, fn, d.Vals) {
				c.Ob(!failed(o), "default", fnName(df), df.Pos(), "the default configuration is refused with %v", errT(o))
			}
			l := derefAll(derefAll(d.St.Freeze(d.Vals[0])).Field("LndClientCfg"))
			c.Ob(isBool2(l.Field("BlockUntilChainSynced"), true) && isBool2(l.Field("BlockUntilUnlocked"), true), "default", fnName(df), df.Pos(), "the default configuration does not wait for lnd")
			for field, name := range map[string]string{"LNDRetires": "DefaultLNDRetries", "LNDWait": "DefaultLNDWait"} {
				if k, ok := c.R.SSA[Mod].Pkg.Scope().Lookup(name).(*types.Const); ok {
					got := derefAll(d.St.Freeze(d.Vals[0])).Field(field)
					want := ConstT(k.Val(), got.T)
					c.Ob(got == want, "default", fnName(df), df.Pos(), "%s is %v by default, not %v", field, got, want)
				}
			}
		}
		min := derefAll(c.minVersion(s))
		ma, ok1 := constInt64(min.Field("AppMajor"))
		mi, ok2 := constInt64(min.Field("AppMinor"))
		c.Ob(ok1 && ok2 && (ma > 0 || mi >= 15), "minimum", "MinimumLNDVersion", noPos, "the minimum version is %v.%v", min.Field("AppMajor"), min.Field("AppMinor"))
		var tags []string
		ts, _ := min.Field("BuildTags").Elems()
		for _, t := range ts {
			x, _ := constStr(t)
			tags = append(tags, x)
		}
		sort.Strings(tags)
		for _, w := range []string{"chainrpc", "invoicesrpc", "signrpc", "walletrpc"} {
			i := sort.SearchStrings(tags, w)
			c.Ob(i < len(tags) && tags[i] == w, "minimum", "MinimumLNDVersion", noPos, "lnd's %s is not required", w)
		}
	})
}

// minVersion is the frozen minimum version.
func (c *Ctx) minVersion(s *State) *Term {
	p := c.R.SSA[Mod]
	g, ok := p.Members["MinimumLNDVersion"].(*ssa.Global)
	if !ok {
		panic(Undecided{"the minimum version"})
	}
	c.In.initPkg(p)
	gp := c.In.globals[g].(*Ptr)
	v := s.heap[gp.Obj]
	if v == nil {
		v = c.In.base.heap[gp.Obj]
	}
	return c.In.Start().Freeze(v)
}

func cfgLnd(c *Ctx) {
	of := c.R.Func("boltnd", "OptionLNDConfig")
	site := fnName(of)
	ct := c.R.Type("boltnd", "Config")
	lt := derefType(of.Params[0].Type())
	chain := structField(lt, "Bitcoin")
	for listeners := 0; listeners <= 2; listeners++ {
		for _, net := range []string{"MainNet", "TestNet3", "RegTest", "SimNet", ""} {
			s := c.In.Start()
			et := structField(lt, "RPCListeners").Underlying().(*types.Slice).Elem()
			var ls []Val
			for i := 0; i < listeners; i++ {
				l := Sym(fmt.Sprintf("listener%d", i), et)
				c.In.nonNil[l.id] = true
				ls = append(ls, l)
			}
			b := map[string]Val{}
			if net != "" {
				b[net] = BoolT(true)
			}
			f := map[string]Val{
				"RPCListeners": s.newSlice(et, ls...),
				"Bitcoin":      s.obj(derefType(chain), b),
				"AdminMacPath": Sym("adminmac", stringT), "TLSCertPath": Sym("tlscert", stringT),
				"InvoiceMacPath": Sym("invoicemac", stringT), "ReadMacPath": Sym("readmac", stringT), "TLSKeyPath": Sym("tlskey", stringT),
			}
			cfgL := s.obj(lt, f)
			c.In.With(&Scenario{}, func() {
				outs := c.run("lnd", s, of, []Val{cfgL})
				if len(outs) != 1 {
					panic(Undecided{"the option has more than one outcome"})
				}
				fv, ok := outs[0].Vals[0].(*FuncV)
				if !ok {
					panic(Undecided{"the option"})
				}
				st := outs[0].St
				cfg := st.obj(ct, nil)
				for _, o := range c.run("lnd", st, fv.Fn, []Val{cfg}, fv.Bind...) {
					valid := listeners > 0 && (net == "MainNet" || net == "TestNet3" || net == "RegTest")
					what := fmt.Sprintf("%d listeners, network %q", listeners, net)
					if !c.Ob(failed(o) == !valid, "lnd", site, of.Pos(), "%s: %v", what, errT(o)) || !valid {
						continue
					}
					l := derefAll(derefAll(o.St.Freeze(cfg)).Field("LndClientCfg"))
					want := map[string]string{"MainNet": "mainnet", "TestNet3": "testnet", "RegTest": "regtest"}[net]
					got, _ := constStr(l.Field("Network"))
					c.Ob(got == want, "network", site, of.Pos(), "%s: connects to a %s node", what, l.Field("Network"))
					c.Ob(l.Field("CustomMacaroonPath") == Sym("adminmac", stringT), "macaroon", site, of.Pos(), "%s: uses the macaroon %v", what, l.Field("CustomMacaroonPath"))
					c.Ob(l.Field("TLSPath") == Sym("tlscert", stringT), "tls", site, of.Pos(), "%s: uses the certificate %v", what, l.Field("TLSPath"))
					addr := l.Field("LndAddress")
					from0, from1 := false, false
					addr.Walk(func(t *Term) bool {
						from0 = from0 || t.Op == "sym" && t.S == "listener0"
						from1 = from1 || t.Op == "sym" && t.S == "listener1"
						return true
					})
					c.Ob(from0 && !from1, "address", site, of.Pos(), "%s: connects to %v", what, addr)
					c.Ob(l.Field("CheckVersion") == c.minVersion(o.St) || derefAll(l.Field("CheckVersion")) == derefAll(c.minVersion(o.St)), "version", site, of.Pos(), "%s: requires version %v", what, l.Field("CheckVersion"))
					c.Ob(isBool2(l.Field("BlockUntilChainSynced"), true) && isBool2(l.Field("BlockUntilUnlocked"), true), "wait", site, of.Pos(), "%s: does not wait for lnd", what)
				}
			})
		}
	}
}

// cfgSetters: the other options set exactly their own value.
func cfgSetters(c *Ctx) {
	ct := c.R.Type("boltnd", "Config")
	for _, k := range []struct{ fn, field string }{
		{"OptionLNDClient", "LndClientCfg"}, {"OptionSetupLogger", "SetupLogger"}, {"OptionRequestShutdown", "RequestShutdown"},
	} {
		fn := c.R.Func("boltnd", k.fn)
		c.In.With(&Scenario{}, func() {
			s := c.In.Start()
			v := Sym("value", fn.Params[0].Type())
			c.In.nonNil[v.id] = true
			outs := c.run("setters", s, fn, []Val{v})
			if len(outs) != 1 {
				panic(Undecided{k.fn})
			}
			fv, ok := outs[0].Vals[0].(*FuncV)
			if !ok {
				panic(Undecided{k.fn})
			}
			st := outs[0].St
			f := map[string]Val{}
			stt := structOf(ct)
			for i := 0; i < stt.NumFields(); i++ {
				f[stt.Field(i).Name()] = Sym("old."+stt.Field(i).Name(), stt.Field(i).Type())
			}
			cfg := st.obj(ct, f)
			for _, o := range c.run("setters", st, fv.Fn, []Val{cfg}, fv.Bind...) {
				c.Ob(!failed(o), "setters", fnName(fn), fn.Pos(), "fails with %v", errT(o))
				got := derefAll(o.St.Freeze(cfg))
				for i := 0; i < stt.NumFields(); i++ {
					n := stt.Field(i).Name()
					want := o.St.Freeze(f[n])
					if n == k.field {
						want = v
					}
					c.Ob(got.Field(n) == want, "setters", fnName(fn), fn.Pos(), "%s becomes %v", n, got.Field(n))
				}
			}
		})
	}
}

// cfgLndLogger: lnd's own logging is what sets the loggers up.
func cfgLndLogger(c *Ctx) {
	fn := c.R.Func("boltnd", "OptionLNDLogger")
	ct := c.R.Type("boltnd", "Config")
	site := fnName(fn)
	const add = "lnd.AddSubLogger"
	c.In.With(&Scenario{Call: func(in *Interp, s *State, ci *CallInfo) ([]Out, bool) {
		if ci.Name != add {
			return nil, false
		}
		s.event(&Event{Kind: "call", Name: add, Args: s.FreezeAll(ci.Args), Pos: ci.Pos})
		return ret(s), true
	}}, func() {
		s := c.In.Start()
		var args []Val
		for _, p := range fn.Params {
			v := Sym(p.Name(), p.Type())
			c.In.nonNil[v.id] = true
			args = append(args, v)
		}
		outs := c.run("lndlogger", s, fn, args)
		if len(outs) != 1 {
			panic(Undecided{"OptionLNDLogger"})
		}
		opt, ok := outs[0].Vals[0].(*FuncV)
		if !ok {
			panic(Undecided{"OptionLNDLogger"})
		}
		st := outs[0].St
		f := map[string]Val{}
		stt := structOf(ct)
		for i := 0; i < stt.NumFields(); i++ {
			f[stt.Field(i).Name()] = Sym("old."+stt.Field(i).Name(), stt.Field(i).Type())
		}
		cfg := st.obj(ct, f)
		for _, o := range c.run("lndlogger", st, opt.Fn, []Val{cfg}, opt.Bind...) {
			if !c.Ob(!failed(o), "setters", site, fn.Pos(), "fails with %v", errT(o)) {
				continue
			}
			sv := c.In.load(o.St, cfg).(*StructV)
			var setup *FuncV
			for i := 0; i < stt.NumFields(); i++ {
				n := stt.Field(i).Name()
				if n == "SetupLogger" {
					setup, _ = sv.Fields[i].(*FuncV)
					continue
				}
				c.Ob(o.St.Freeze(sv.Fields[i]) == o.St.Freeze(f[n]), "setters", site, fn.Pos(), "%s becomes %v", n, sv.Fields[i])
			}
			if !c.Ob(setup != nil, "setters", site, fn.Pos(), "no logger setup is set") {
				continue
			}
			prefix, use := Sym("prefix", setup.Fn.Params[0].Type()), Sym("use", setup.Fn.Params[1].Type())
			c.In.nonNil[use.id] = true
			m := o.St.event(&Event{Kind: "mark"})
			for _, p := range c.run("lndlogger", o.St, setup.Fn, []Val{prefix, use}, setup.Bind...) {
				evs := find(p.St.EventsSince(m), named(add))
				if !c.Ob(len(evs) == 1 && p.Kind == Ret, "lndlogger", site, setup.Fn.Pos(), "a subsystem is added to lnd's loggers %d times", len(evs)) {
					continue
				}
				a := evs[0].Args
				c.Ob(a[0] == args[0] && a[1] == prefix && a[2] == args[1], "lndlogger", site, evs[0].Pos, "lnd's logger is asked for (%v, %v, %v)", a[0], a[1], a[2])
				uses := false
				if len(a) == 4 {
					a[3].Walk(func(t *Term) bool { uses = uses || t == use; return true })
				}
				c.Ob(uses, "lndlogger", site, evs[0].Pos, "what is registered is %v", a[3])
			}
		}
	})
}

// bolt is a boltnd whose surroundings are modelled.
type bolt struct {
	c        *Ctx
	b        Val
	cfg      *Ptr
	st       *State
	lndFails int // failing connection attempts
	fail     string
}

func (c *Ctx) newBolt(rule string, retries int64) *bolt {
	w := &bolt{c: c}
	s := c.In.Start()
	ct := c.R.Type("boltnd", "Config")
	bt := c.R.Type("boltnd", "Boltnd")
	client := Sym("clientcfg", structField(ct, "LndClientCfg"))
	c.In.nonNil[client.id] = true
	sh := Sym("graceful", structField(ct, "RequestShutdown"))
	c.In.nonNil[sh.id] = true
	w.cfg = s.obj(ct, map[string]Val{
		"LndClientCfg": client, "RequestShutdown": sh,
		"LNDRetires": ConstT(IntT(retries).C, structField(ct, "LNDRetires")),
		"LNDWait":    Sym("wait", structField(ct, "LNDWait")),
	})
	srv := c.psym("rpcserver", c.R.Type("rpcserver", "Server"))
	w.b = s.obj(bt, map[string]Val{"cfg": w.cfg, "rpcServer": srv})
	w.st = s
	return w
}

func (w *bolt) calls(in *Interp, s *State, ci *CallInfo) ([]Out, bool) {
	ev := func(failed bool, vals ...Val) ([]Out, bool) {
		s.event(&Event{Kind: "call", Name: ci.Name, Args: s.FreezeAll(ci.Args), Raw: ci.Args, Res: vals, Pos: ci.Pos, Fn: ci.Caller, Instr: ci.Instr, Failed: failed})
		return ret(s, vals...), true
	}
	switch ci.Name {
	case "lndclient.NewLndServices":
		n := len(find(s.Events(), named(ci.Name)))
		if n < w.lndFails {
			return ev(true, NilT, in.envErr("no lnd"))
		}
		return ev(false, s.obj(derefType(ci.Sig.Results().At(0).Type()), nil), NilT)
	case "(*@/rpcserver.Server).Start", "(*@/rpcserver.Server).Stop":
		if strings.HasSuffix(ci.Name, w.fail) && w.fail != "" {
			return ev(true, in.envErr("server"))
		}
		return ev(false, NilT)
	case "(*lndclient.GrpcLndServices).Close":
		return ev(false)
	case "time.Sleep":
		return ev(false)
	}
	return nil, false
}

func isWait(e *Event) bool {
	return named("time.Sleep")(e) || (e.Kind == "recv" || e.Kind == "sel-recv") && e.Arg(0).Op == "timer"
}

func bStart(c *Ctx) {
	fn := c.R.Method("boltnd", "Boltnd", "Start")
	site := fnName(fn)
	type kase struct{ retries, fails int64 }
	var ks []kase
	for r := int64(0); r <= 3; r++ {
		for f := int64(0); f <= r+2; f++ {
			ks = append(ks, kase{r, f})
		}
	}
	for _, r := range []int64{127, 128, 254, 255} {
		ks = append(ks, kase{r, 0}, kase{r, r}, kase{r, r + 1})
	}
	for _, k := range ks {
		for _, fail := range []string{"", "Start"} {
			w := c.newBolt("start", k.retries)
			w.lndFails, w.fail = int(k.fails), fail
			what := fmt.Sprintf("%d retries, %d failing attempts, server failing %v", k.retries, k.fails, fail != "")
			c.In.With(&Scenario{Call: w.calls, LoopK: 600, Recv: recvPick(false), Select: selPick(false)}, func() {
				m := w.st.event(&Event{Kind: "mark"})
				outs := c.run("start", w.st, fn, []Val{w.b})
				c.Ob(len(outs) > 0, "start", site, fn.Pos(), "%s: no path returns", what)
				for _, o := range outs {
					evs := o.St.EventsSince(m)
					at := find(evs, named("lndclient.NewLndServices"))
					ss := find(evs, named("(*@/rpcserver.Server).Start"))
					want := k.fails + 1
					connected := k.fails <= k.retries
					if !connected {
						want = k.retries + 1
					}
					c.Ob(int64(len(at)) == want, "attempts", site, fn.Pos(), "%s: %d connection attempts, want %d", what, len(at), want)
					for i, e := range at {
						c.Ob(e.Arg(0) == Sym("clientcfg", nil) || e.Arg(0).String() == "clientcfg", "attempts", site, e.Pos, "%s: connects with %v", what, e.Arg(0))
						if i > 0 {
							n := 0
							for _, x := range evs {
								if isWait(x) && before(at[i-1], x) && before(x, e) {
									n++
									bound := false
									for _, a := range x.Args {
										a.Walk(func(t *Term) bool { bound = bound || t.Op == "sym" && t.S == "wait"; return true })
									}
									c.Ob(bound, "wait", site, x.Pos, "%s: waits %v between attempts", what, x.Args)
								}
							}
							c.Ob(n == 1, "wait", site, e.Pos, "%s: %d waits between two attempts", what, n)
						}
					}
					c.Ob(failed(o) == (!connected || fail != ""), "start", site, fn.Pos(), "%s: %v", what, errT(o))
					if c.Ob(len(ss) == b2i(connected), "start", site, fn.Pos(), "%s: the rpc server is started %d times", what, len(ss)) && connected {
						last := at[len(at)-1]
						p, ok1 := ss[0].Raw[1].(*Ptr)
						q, ok2 := last.Res[0].(*Ptr)
						c.Ob(ok1 && ok2 && p.Obj == q.Obj, "start", site, ss[0].Pos, "%s: the rpc server does not get the connection", what)
					}
					c.Ob(len(find(evs, isOnce)) > 0, "once", site, fn.Pos(), "two concurrent starts are not told apart atomically")
					if k.retries > 1 {
						continue
					}
					m2 := o.St.event(&Event{Kind: "mark"})
					again := c.run("start", o.St, fn, []Val{w.b})
					c.expectErr("again", site, fn.Pos(), again, "", "a second start")
					for _, p := range again {
						c.Ob(len(find(p.St.EventsSince(m2), func(e *Event) bool { return e.Kind == "call" })) == 0, "again", site, fn.Pos(), "a second start has effects")
					}
				}
			})
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func bStop(c *Ctx) {
	fn := c.R.Method("boltnd", "Boltnd", "Stop")
	site := fnName(fn)
	for _, how := range []string{"not started", "not connected", "started", "server stop fails"} {
		w := c.newBolt("stop", 0)
		if how == "not connected" {
			w.lndFails = 1
		}
		c.In.With(&Scenario{Call: w.calls, LoopK: 20, Recv: recvPick(false), Select: selPick(false)}, func() {
			st := w.st
			if how != "not started" {
				outs := c.run("stop", st, c.R.Method("boltnd", "Boltnd", "Start"), []Val{w.b})
				if len(outs) != 1 {
					panic(Undecided{"start"})
				}
				st = outs[0].St
			}
			if how == "server stop fails" {
				w.fail = "Stop"
			}
			m := st.event(&Event{Kind: "mark"})
			for _, o := range c.run("stop", st, fn, []Val{w.b}) {
				evs := o.St.EventsSince(m)
				ss := find(evs, named("(*@/rpcserver.Server).Stop"))
				cl := find(evs, named("(*lndclient.GrpcLndServices).Close"))
				c.Ob(len(ss) == 1, "stop", site, fn.Pos(), "%s: the rpc server is stopped %d times", how, len(ss))
				c.Ob(failed(o) == (how == "server stop fails"), "stop", site, fn.Pos(), "%s: %v", how, errT(o))
				switch how {
				case "started", "server stop fails":
					if c.Ob(len(cl) == 1, "stop", site, fn.Pos(), "%s: the connection is closed %d times", how, len(cl)) {
						c.Ob(before(first(ss), cl[0]), "stop", site, cl[0].Pos, "%s: the connection is closed before the rpc server is stopped", how)
					}
				case "not started", "not connected":
					c.Ob(len(cl) == 0, "stop", site, fn.Pos(), "%s: the connection is closed %d times", how, len(cl))
				}
				c.Ob(len(find(evs, isOnce)) > 0, "once", site, fn.Pos(), "two concurrent stops are not told apart atomically")
				m2 := o.St.event(&Event{Kind: "mark"})
				again := c.run("stop", o.St, fn, []Val{w.b})
				c.expectErr("again", site, fn.Pos(), again, "", "a second stop")
				for _, p := range again {
					c.Ob(len(find(p.St.EventsSince(m2), func(e *Event) bool { return e.Kind == "call" })) == 0, "again", site, fn.Pos(), "a second stop has effects")
				}
			}
		})
	}
}

// bShutdown: what the rpc server is given asks the embedding program to end.
func bShutdown(c *Ctx) {
	site := "shutdown request"
	ct := c.R.Type("boltnd", "Config")
	for _, set := range []bool{true, false} {
		c.newBoltnd("shutdown", []func(s *State, cfg *Ptr) *Term{func(s *State, cfg *Ptr) *Term {
			if set {
				g := Sym("graceful", structField(ct, "RequestShutdown"))
				c.In.nonNil[g.id] = true
				c.set(s, cfg, ct, "RequestShutdown", g)
			}
			return NilT
		}}, func(o Out, evs []*Event) {
			if failed(o) {
				return
			}
			// Find the closure in the server.
			bp := o.Vals[0].(*Ptr)
			bv := c.In.load(o.St, bp).(*StructV)
			bt := structOf(c.R.Type("boltnd", "Boltnd"))
			var f *FuncV
			for i := 0; i < bt.NumFields(); i++ {
				if typeName(bt.Field(i).Type()) != "*@/rpcserver.Server" {
					continue
				}
				sp, ok := bv.Fields[i].(*Ptr)
				if !ok {
					panic(Undecided{"the rpc server"})
				}
				for _, x := range c.In.load(o.St, sp).(*StructV).Fields {
					if y, ok := x.(*FuncV); ok {
						f = y
					}
				}
			}
			if f == nil || f.Fn == nil {
				c.Ob(false, "shutdown", site, noPos, "the rpc server can not request a shutdown")
				return
			}
			m := o.St.event(&Event{Kind: "mark"})
			err := c.In.envErr("reason")
			for _, p := range c.run("shutdown", o.St, f.Fn, []Val{err}, f.Bind...) {
				n := len(find(p.St.EventsSince(m), named("dyn graceful")))
				c.Ob(n == b2i(set), "shutdown", site, f.Fn.Pos(), "a closure is configured (%v), it is called %d times", set, n)
			}
		})
	}
}

func bLoggers(c *Ctx) {
	site := fnName(c.R.Func("boltnd", "NewBoltnd"))
	ct := c.R.Type("boltnd", "Config")
	want := map[string]string{} // function -> subsystem
	for path, p := range c.R.SSA {
		ul, ok := p.Members["UseLogger"].(*ssa.Function)
		if !ok {
			continue
		}
		sub, ok := p.Members["Subsystem"].(*ssa.NamedConst)
		if !ok {
			panic(Undecided{"the subsystem of " + path})
		}
		x, _ := constStr(ConstT(sub.Value.Value, sub.Type()))
		want[fnName(ul)] = x
		// The function sets the package's own logger.
		c.In.With(&Scenario{}, func() {
			s := c.In.Start()
			c.In.initPkg(p)
			l := Sym("logger", ul.Params[0].Type())
			c.In.nonNil[l.id] = true
			for _, o := range c.run("sets", s, ul, []Val{l}) {
				n := 0
				for _, m := range p.Members {
					if g, ok := m.(*ssa.Global); ok {
						if gp, ok := c.In.globals[g].(*Ptr); ok {
							if v, ok := o.St.heap[gp.Obj].(*Term); ok && v == l {
								n++
							}
						}
					}
				}
				c.Ob(n == 1, "sets", fnName(ul), ul.Pos(), "%d of the package's loggers are set", n)
			}
		})
	}
	seen := map[string]bool{}
	for f, s := range want {
		c.Ob(!seen[s], "subsystem", f, noPos, "two packages log as %s", s)
		seen[s] = true
	}
	for _, set := range []bool{true, false} {
		c.newBoltnd("loggers", []func(s *State, cfg *Ptr) *Term{func(s *State, cfg *Ptr) *Term {
			if set {
				l := Sym("setup", structField(ct, "SetupLogger"))
				c.In.nonNil[l.id] = true
				c.set(s, cfg, ct, "SetupLogger", l)
			}
			return NilT
		}}, func(o Out, evs []*Event) {
			regs := find(evs, named("dyn setup"))
			if failed(o) {
				return
			}
			have := map[string]int{}
			for _, e := range regs {
				pre, _ := constStr(e.Arg(0))
				f, ok := e.Raw[1].(*FuncV)
				if !ok || f.Fn == nil {
					panic(Undecided{"a logger's registration"})
				}
				n := fnName(f.Fn)
				have[n]++
				c.Ob(want[n] == pre, "loggers", site, e.Pos, "%s is registered as %q", n, pre)
			}
			for f := range want {
				c.Ob(have[f] == b2i(set), "loggers", site, noPos, "%s is registered %d times, a setup function is given: %v", f, have[f], set)
			}
		})
	}
}
