package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C05: errors of the emitted Go client -------------------------------------------------

// sends are the calls of the runtime client.
func (k *clientRun2) sends(o *Outcome) []flatEv {
	var res []flatEv
	for _, e := range flatten(o.St.trace[k.baseLen:]) {
		if e.Kind == "call" && strings.HasSuffix(e.Callee, ").Call") && (strings.HasPrefix(e.Callee, "("+modPath+".") || strings.HasPrefix(e.Callee, "(*"+modPath+".")) {
			res = append(res, e)
		}
	}
	return res
}

func (c *Check) eachClient(f func(k *clientRun2)) {
	n := 0
	c.eachGen(func(g *genPkg) {
		for _, s := range g.services(g.tgt.tsrpc) {
			s := s
			c.section(g.in.name+" client "+s.name, func() {
				for _, k := range g.clientRuns(s) {
					n++
					f(k)
				}
			})
		}
	})
	c.require(n > 0 || c.limited(), "client-exists", "emitted clients", 0, "no method of an HTTP client is emitted")
}

func (c *Check) c05Generated() {
	c.eachClient(func(k *clientRun2) {
		what := k.s.id(k.m.name)
		for _, o := range splitNil(k.runs, k.fn.Signature.Results().Len()-1) {
			pos := posOf(o, k.fn.Pos())
			sends := k.sends(o)
			if o.Kind != "ret" || len(sends) != 1 {
				continue // G01
			}
			err := o.Rets[len(o.Rets)-1]
			res := sends[0].Res
			switch nilness(o.St.facts, res) {
			case 1:
				c.require(nilness(o.St.facts, err) == 1, "generated-client-nil", what, pos, "the client returns %s although the call succeeded", short(err))
			case -1:
				if nilness(o.St.facts, err) == 1 {
					c.fail("generated-client-nil", what, pos, "the client returns nil although the call failed")
					continue
				}
				c.require(inChain(c.errChain(o, err), res), "generated-client-chain", what, pos, "the error of the call is not reachable by unwrapping %s", short(err))
			default:
				c.undecided("generated-client-nil", what, pos, "the outcome of the call is not tested and %s returned", short(err))
			}
		}
	})
}

// ---- G01: agreement -----------------------------------------------------------------------

func init() {
	register("G01", 100, checkG01)
	register("S05", 100, checkS05)
}

func varTypes(vs []*types.Var) []types.Type {
	var res []types.Type
	for _, v := range vs {
		res = append(res, v.Type())
	}
	return res
}

func isContext(t types.Type) bool { return namedIs(t, "context", "Context") }

// signature: a method of a client has the types of the service method.
func (c *Check) signature(rule, what string, f *types.Signature, m *gmethod, ctx bool, at *ssa.Function) {
	c.signatureAt(rule, what, f, m, ctx, at.Pos())
}

func (c *Check) signatureAt(rule, what string, f *types.Signature, m *gmethod, ctx bool, pos token.Pos) {
	want := varTypes(m.data)
	var got []types.Type
	for i := 0; i < f.Params().Len(); i++ {
		t := f.Params().At(i).Type()
		if i == 0 && ctx {
			c.require(isContext(t), rule, what+" context", pos, "the first parameter of %s is %s, not a context", m.name, t)
			continue
		}
		got = append(got, t)
	}
	cmp := func(kind string, got, want []types.Type) {
		if !c.require(len(got) == len(want), rule, what+" "+kind+"s", pos, "%s has %d %ss, the service method has %d", m.name, len(got), kind, len(want)) {
			return
		}
		for i := range got {
			c.require(types.Identical(got[i], want[i]), rule, what+" "+kind+" "+itoa(i+1), pos, "%s %d of %s has type %s, in the service method it has type %s", kind, i+1, m.name, got[i], want[i])
		}
	}
	cmp("parameter", got, want)
	got = nil
	n := f.Results().Len()
	for i := 0; i < n-1; i++ {
		got = append(got, f.Results().At(i).Type())
	}
	cmp("result", got, varTypes(m.rets))
	c.require(n > 0 && isErrorType(f.Results().At(n-1).Type()), rule, what+" error", pos, "the last result of %s is not the client error", m.name)
}

func checkG01(c *Check) {
	c.eachGen(func(g *genPkg) {
		for _, s := range g.services(g.tgt.tsrpc) {
			s := s
			c.section(g.in.name+" "+s.name, func() {
				s.load()
				g.agreement(s)
			})
		}
		for _, s := range g.services(g.tgt.gorpc) {
			for _, m := range s.methods {
				f := g.method(s.name+"GoRPCClient", m.name)
				if c.require(f != nil, "gorpc-client-method", s.id(m.name), 0, "the GoRPC client has no method %s", m.name) {
					c.signature("gorpc-client-types", s.id(m.name), f.Signature, m, false, f)
				}
			}
			g.onlyMethods("gorpc-client-method", s, s.name+"GoRPCClient", []string{"Start", "Stop"})
		}
		// what is not configured is not emitted
		for _, svc := range g.tgt.services {
			has := map[string]bool{}
			for _, n := range g.tgt.tsrpc {
				has["ts "+n] = true
			}
			for _, n := range g.tgt.gorpc {
				has["go "+n] = true
			}
			c.require((g.named(svc+"GoTSRPCProxy") != nil) == has["ts "+svc], "configured-transport", g.in.name+":"+svc+" TSRPC", 0, "a TSRPC proxy is emitted: %v, configured: %v", !has["ts "+svc], has["ts "+svc])
			c.require((g.named(svc+"GoRPCProxy") != nil) == has["go "+svc], "configured-transport", g.in.name+":"+svc+" GoRPC", 0, "a GoRPC proxy is emitted: %v, configured: %v", !has["go "+svc], has["go "+svc])
		}
	})
	c.tsAgreement()
}

// onlyMethods: an emitted type has no exported methods but those of the service and some others.
func (g *genPkg) onlyMethods(rule string, s *gservice, typ string, others []string) {
	t := g.named(typ)
	if t == nil {
		return
	}
	ok := map[string]bool{}
	for _, o := range others {
		ok[o] = true
	}
	for _, m := range s.methods {
		ok[m.name] = true
	}
	ms := types.NewMethodSet(t)
	if !types.IsInterface(t) {
		ms = types.NewMethodSet(types.NewPointer(t))
	}
	for i := 0; i < ms.Len(); i++ {
		o := ms.At(i).Obj()
		if o.Exported() && !ok[o.Name()] {
			if len(others) > 0 && !isServiceLike(o, g) {
				continue
			}
			g.c.fail(rule, s.id(o.Name()), o.Pos(), "%s has a method %s that the service does not expose", typ, o.Name())
		}
	}
	g.c.ok(rule, s.id("no others"), 0)
}

// isServiceLike: the name occurs as a method or function in the schematic source.
func isServiceLike(o types.Object, g *genPkg) bool {
	return strings.Contains(strings.ToLower(o.Name()), "qz")
}

func (g *genPkg) agreement(s *gservice) {
	c := g.c
	// the interface
	it := g.named(s.name + "GoTSRPCClient")
	if (it != nil || !g.tgt.skip) && c.require(it != nil && types.IsInterface(it), "client-interface", s.id("exists"), 0, "no interface %sGoTSRPCClient is emitted", s.name) {
		i := it.Underlying().(*types.Interface)
		for _, m := range s.methods {
			o, _, _ := types.LookupFieldOrMethod(it, false, g.types, m.name)
			f, ok := o.(*types.Func)
			if c.require(ok, "client-interface", s.id(m.name), it.(*types.Named).Obj().Pos(), "the interface has no method %s", m.name) {
				c.signature("client-interface-types", s.id(m.name), f.Type().(*types.Signature), m, true, s.fn)
			}
		}
		g.onlyMethods("client-interface", s, s.name+"GoTSRPCClient", nil)
		runs := g.clientRuns(s)
		if len(runs) > 0 {
			rt := runs[0].fn.Signature.Recv().Type()
			c.require(types.Implements(rt, i), "client-implements", s.id("client"), runs[0].fn.Pos(), "%s does not implement %s", rt, it)
		}
		for _, k := range runs {
			c.signature("client-types", s.id(k.m.name), k.fn.Signature, k.m, true, k.fn)
			g.clientCall(s, k)
		}
	}
	// constructor with endpoint
	if f, o := g.construct("New"+s.name+"GoTSRPCProxy", nil, strTerm("/qz/elsewhere")); f != nil {
		p := *s
		p.recv, p.base, p.baseLen = o.Rets[0], o.St, len(o.St.trace)
		p.endpoint = "/qz/elsewhere"
		p.runs = g.evalWith(s.fn, []*Term{p.recv, paramT("w", s.fn.Params[1].Type()), paramT("r", s.fn.Params[2].Type())}, p.base)
		m := s.methods[0]
		n := 0
		for _, v := range p.serve("endpoint-configurable", m) {
			if v.call != nil {
				n++
			}
		}
		c.require(n > 0, "endpoint-configurable", s.id("proxy"), f.Pos(), "a proxy with another endpoint does not serve %s there", m.name)
	}
	if f := g.ssa.Func("New" + s.name + "GoTSRPCClientWithClient"); f != nil && len(f.Params) == 3 {
		m := s.methods[0]
		fn := c.P.methodOf(f.Signature.Results().At(0).Type(), g.types, m.name)
		ep := strTerm("/qz/elsewhere")
		url := paramT("qz:url", f.Params[0].Type())
		for _, o := range g.evalWith(f, []*Term{url, ep, paramT("qz:client", f.Params[2].Type())}, nil) {
			if o.Kind != "ret" || fn == nil {
				continue
			}
			k := &clientRun2{s: s, m: m, fn: fn, baseLen: len(o.St.trace)}
			args := []*Term{o.Rets[0]}
			for _, p := range fn.Params[1:] {
				args = append(args, paramT("qz:"+p.Name(), p.Type()))
			}
			for _, r := range g.evalWith(fn, args, o.St) {
				for _, e := range k.sends(r) {
					c.require(len(e.Args) > 3 && same(strip(e.Args[3]), ep), "endpoint-configurable", s.id("client"), f.Pos(), "a client with another endpoint calls %s", short(e.Args[3]))
					c.require(len(e.Args) > 2 && same(strip(e.Args[2]), url), "client-url", s.id("client"), f.Pos(), "a client for another URL calls %s", short(e.Args[2]))
				}
			}
		}
	}
}

// clientCall: a client method calls the method of the proxy that calls the service method of its name.
func (g *genPkg) clientCall(s *gservice, k *clientRun2) {
	c := g.c
	m := k.m
	for _, o := range k.runs {
		pos := posOf(o, k.fn.Pos())
		if o.Kind != "ret" {
			c.undecided("client-call", s.id(m.name), pos, "a path ends in a %s", o.Kind)
			continue
		}
		sends := k.sends(o)
		if !c.require(len(sends) == 1 && len(sends[0].Loop) == 0, "client-call", s.id(m.name), pos, "the client sends %d requests", len(sends)) {
			continue
		}
		e := sends[0]
		if len(e.Args) != 7 {
			c.undecided("client-call", s.id(m.name), e.Pos, "%d arguments", len(e.Args))
			continue
		}
		c.require(same(strip(e.Args[1]), k.ctx), "client-call", s.id(m.name+" context"), e.Pos, "the context is %s", short(e.Args[1]))
		if u := strip(e.Args[2]); u.Op != "param" {
			c.fail("client-call", s.id(m.name+" url"), e.Pos, "the URL is %s", short(u))
		}
		ep, ok1 := constStr(e.Args[3])
		name, ok2 := constStr(e.Args[4])
		if !ok1 || !ok2 {
			c.undecided("client-call", s.id(m.name), e.Pos, "endpoint %s, method %s", short(e.Args[3]), short(e.Args[4]))
		} else {
			c.require(ep == s.endpoint, "same-endpoint", s.id(m.name), e.Pos, "the client calls endpoint %q, the configured one is %q", ep, s.endpoint)
			outs, why := s.at("POST", ep+"/"+name)
			if why != "" {
				c.undecided("same-method", s.id(m.name), e.Pos, "depends on %s", why)
			}
			n := 0
			for _, u := range outs {
				for _, x := range s.serviceCalls(s.events(u)) {
					n++
					if calledMethod(x.Callee) != m.name {
						c.fail("same-method", s.id(m.name), e.Pos, "client method %s requests %q, for which the proxy calls %s", m.name, name, calledMethod(x.Callee))
					}
				}
			}
			if why == "" {
				c.require(n > 0, "same-method", s.id(m.name), e.Pos, "client method %s requests %q, which the proxy does not serve", m.name, name)
			}
		}
		if list := c.listOf(e.Args[5], e.Event); list == nil {
			c.undecided("argument-positions", s.id(m.name), e.Pos, "the arguments are %s", short(e.Args[5]))
		} else if c.require(len(list) == len(m.data), "argument-positions", s.id(m.name+" count"), e.Pos, "%d arguments are sent, %s has %d", len(list), m.name, len(m.data)) {
			for i, a := range list {
				what := s.id(m.name + " argument " + itoa(i+1))
				x := strip(a)
				if i >= len(k.args) {
					break
				}
				if !same(x, k.args[i]) && x.Op != "param" && x.Op != "const" && x.Op != "nil" && x.Op != "zero" {
					c.undecided("argument-positions", what, e.Pos, "argument %d is sent as %s", i, short(x))
					continue
				}
				c.require(same(x, k.args[i]), "argument-positions", what, e.Pos, "argument %d of %s is sent as %s", i, m.name, short(x))
			}
		}
		list := c.listOf(e.Args[6], e.Event)
		if list == nil {
			c.undecided("result-positions", s.id(m.name), e.Pos, "the reply slots are %s", short(e.Args[6]))
		} else if c.require(len(list) == len(m.rets), "result-positions", s.id(m.name+" count"), e.Pos, "%d reply slots for %d results of %s", len(list), len(m.rets), m.name) && len(o.Rets) == len(m.rets)+1 {
			for i := range list {
				what := s.id(m.name + " result " + itoa(i+1))
				x := o.Rets[i]
				if x.Op == "out" && same(x.Args[0], e.Res) {
					c.require(x.Name == "6."+itoa(i), "result-positions", what, pos, "result %d of %s is element %s of the reply", i, m.name, strings.TrimPrefix(x.Name, "6."))
					continue
				}
				if y := strip(x); y.Op == "nil" || y.Op == "zero" || y.Op == "const" || y.Op == "param" {
					if nilness(o.St.facts, e.Res) == -1 {
						continue // nothing was received
					}
					c.fail("result-positions", what, pos, "result %d of %s is %s, not an element of the reply", i, m.name, short(x))
					continue
				}
				c.undecided("result-positions", what, pos, "result %d of %s is %s", i, m.name, short(x))
			}
			// the slots have the types of the results
			for i, a := range list {
				if a.Op == "iface" {
					if p, ok := a.Typ.(*types.Pointer); ok {
						c.require(types.Identical(p.Elem(), m.rets[i].Type()), "result-positions", s.id(m.name+" slot type "+itoa(i+1)), e.Pos, "reply slot %d of %s is a %s", i, m.name, a.Typ)
					} else {
						c.fail("result-positions", s.id(m.name+" slot type "+itoa(i+1)), e.Pos, "reply slot %d of %s is a %s, not a pointer", i, m.name, a.Typ)
					}
				}
			}
		}
	}
}

// ---- S05: GoRPC ---------------------------------------------------------------------------

type gorpcRun struct {
	s       *gservice
	fn      *ssa.Function
	binds   []*Term
	params  []*Term // leading arguments of the handler
	st      *State
	baseLen int
	addr    *Term
}

// gorpcHandlers are the handlers a GoRPC proxy gives to its server.
func (s *gservice) gorpcHandlers() []*gorpcRun {
	g, c := s.g, s.g.c
	f := g.ssa.Func("New" + s.name + "GoRPCProxy")
	if f == nil || len(f.Params) != 3 {
		c.fail("gorpc-proxy-exists", s.id("constructor"), 0, "no constructor New%sGoRPCProxy(addr, service, tlsConfig) is emitted", s.name)
		return nil
	}
	addr, svc, tls := paramT("qz:addr", f.Params[0].Type()), paramT("service", f.Params[1].Type()), paramT("qz:tls", f.Params[2].Type())
	var res []*gorpcRun
	for _, o := range g.evalWith(f, []*Term{addr, svc, tls}, nil) {
		if o.Kind != "ret" {
			c.undecided("gorpc-server", s.id("constructor"), posOf(o, f.Pos()), "a path ends in a %s", o.Kind)
			continue
		}
		n := 0
		for _, e := range flatten(o.St.trace) {
			if e.Kind != "call" || !strings.HasPrefix(e.Callee, "github.com/valyala/gorpc.New") || len(e.Args) < 2 {
				continue
			}
			n++
			c.require(same(strip(e.Args[0]), addr), "gorpc-server", s.id("address"), e.Pos, "the server listens on %s", short(e.Args[0]))
			isTLS := strings.HasSuffix(e.Callee, "NewTLSServer")
			switch nilness(o.St.facts, tls) {
			case 1:
				c.require(!isTLS, "gorpc-tls", s.id("without"), e.Pos, "a TLS server is created without a TLS configuration")
			case -1:
				c.require(isTLS && len(e.Args) > 2 && same(strip(e.Args[2]), tls), "gorpc-tls", s.id("with"), e.Pos, "the TLS configuration is not used")
			}
			h := strip(e.Args[1])
			for h.Op == "conv" {
				h = strip(h.Args[0])
			}
			if h.Fn == nil {
				c.undecided("gorpc-server", s.id("handler"), e.Pos, "the handler is %s", short(h))
				continue
			}
			k := &gorpcRun{s: s, fn: h.Fn, binds: h.Args, st: o.St, baseLen: len(o.St.trace), addr: addr}
			// with a statistics handler
			rt := f.Signature.Results().At(0).Type()
			if set := c.P.methodOf(rt, g.types, "SetCallStatsHandler"); set != nil && len(set.Params) == 2 {
				outs := g.evalWith(set, []*Term{o.Rets[0], paramT("qz:stats", set.Params[1].Type())}, o.St)
				if len(outs) == 1 && outs[0].Kind == "ret" {
					k.st, k.baseLen = outs[0].St, len(outs[0].St.trace)
				}
			} else {
				c.fail("gorpc-statistics", s.id("SetCallStatsHandler"), f.Pos(), "the proxy has no method SetCallStatsHandler(handler)")
			}
			res = append(res, k)
		}
		c.require(n == 1, "gorpc-server", s.id("one server"), posOf(o, f.Pos()), "the constructor creates %d servers", n)
	}
	return res
}

// handle evaluates the handler for a request value.
func (k *gorpcRun) handle(req *Term) []*Outcome {
	g, c := k.s.g, k.s.g.c
	old := c.inline
	c.inline = g.inline
	defer func() { c.inline = old }()
	if len(k.fn.Params) < 2 {
		return nil
	}
	args := []*Term{paramT("qz:clientAddr", k.fn.Params[0].Type()), req}
	var res []*Outcome
	for _, o := range c.rootWith(k.fn, args, k.binds, k.st) {
		u := under(o, reflectNames)
		if u != nil {
			res = append(res, u)
		}
	}
	return res
}

// reflectNames evaluates names of known dynamic types and field accesses of known values.
func reflectNames(x *Term) *Term {
	switch {
	case x.Op == "as" && x.Args[0].Op == "iface" && x.Typ != nil && x.Args[0].Typ != nil && types.Identical(x.Typ, x.Args[0].Typ):
		return x.Args[0].Args[0]
	case x.Op == "call" && strings.HasPrefix(x.Name, "(reflect.Type).") && x.Args[0].Op == "call" && x.Args[0].Name == "reflect.TypeOf" && x.Args[0].Args[0].Op == "iface":
		t := x.Args[0].Args[0].Typ
		switch strings.TrimPrefix(x.Name, "(reflect.Type).") {
		case "String":
			return strTerm(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
		case "Name":
			if n, ok := t.(*types.Named); ok {
				return strTerm(n.Obj().Name())
			}
		case "PkgPath":
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
				return strTerm(n.Obj().Pkg().Path())
			}
		}
	}
	return canon(x)
}

func checkS05(c *Check) {
	c.eachGen(func(g *genPkg) {
		registered := g.registered()
		svcs := g.services(g.tgt.gorpc)
		requests := map[string]*Term{} // service.method -> request value
		for _, s := range svcs {
			s := s
			c.section(g.in.name+" "+s.name, func() {
				hs := s.gorpcHandlers()
				for _, m := range s.methods {
					f := g.method(s.name+"GoRPCClient", m.name)
					if !c.require(f != nil, "gorpc-client-method", s.id(m.name), 0, "the GoRPC client has no method %s", m.name) {
						continue
					}
					g.gorpcMethod(s, m, f, hs, registered, requests)
				}
			})
		}
		for _, s := range svcs {
			s := s
			c.section(g.in.name+" "+s.name, func() {
				for _, k := range s.gorpcHandlers() {
					probe := func(what string, req *Term) {
						for _, o := range k.handle(req) {
							pos := posOf(o, k.fn.Pos())
							evs := flatten(o.St.trace[k.baseLen:])
							calls := s.serviceCalls(evs)
							c.require(len(calls) == 0, "gorpc-unknown-request", s.id(what), pos, "a request of another type calls %s", s.name)
							if o.Kind == "panic" {
								c.fail("gorpc-unknown-request", s.id(what), pos, "a request of another type panics")
							}
						}
					}
					for _, t := range []string{"QzOther", "QzItem", "Request"} {
						if nt := g.named(t); nt != nil {
							probe(t, mk("iface", "", nt, mk("param", "qz:req", nt)))
						}
					}
					for _, o := range svcs {
						if o.name == s.name {
							continue
						}
						for _, m := range o.methods {
							if r := requests[o.name+"."+m.name]; r != nil {
								probe(o.name+"."+m.name, r)
							}
						}
					}
				}
			})
		}
	})
}

// registered are the types package initialisation registers for encoding.
func (g *genPkg) registered() map[string]bool {
	res := map[string]bool{}
	for name, mem := range g.ssa.Members {
		f, ok := mem.(*ssa.Function)
		if !ok || !strings.HasPrefix(name, "init#") || !g.isGen(f) {
			continue
		}
		var common map[string]bool
		for _, o := range g.eval(f) {
			if o.Kind != "ret" {
				continue
			}
			here := map[string]bool{}
			for _, e := range flatten(o.St.trace) {
				if !isCallTo(e.Event, "encoding/gob.Register", "encoding/gob.RegisterName", "github.com/valyala/gorpc.RegisterType") {
					continue
				}
				if a := e.Args[len(e.Args)-1]; a.Op == "iface" && len(e.Loop) == 0 {
					here[typeName(a.Typ)] = true
				}
				// a loop over a known list of values is unrolled by the evaluator
				for _, l := range e.Loop {
					for _, a := range l.Args {
						if a.Op == "iface" {
							here[typeName(a.Typ)] = true
						}
					}
				}
			}
			if common == nil {
				common = here
				continue
			}
			for k := range common {
				if !here[k] {
					delete(common, k)
				}
			}
		}
		for k := range common {
			res[k] = true
		}
	}
	return res
}

func (g *genPkg) gorpcMethod(s *gservice, m *gmethod, f *ssa.Function, hs []*gorpcRun, registered map[string]bool, requests map[string]*Term) {
	c := g.c
	recv := paramT("qz:recv", f.Params[0].Type())
	args := []*Term{recv}
	var data []*Term
	for _, p := range f.Params[1:] {
		t := paramT("qz:"+p.Name(), p.Type())
		args = append(args, t)
		data = append(data, t)
	}
	if len(data) != len(m.data) {
		return // G01
	}
	what := s.id(m.name)
	nOK, nErr := 0, 0
	for _, o := range splitNil(g.evalWith(f, args, nil), f.Signature.Results().Len()-1) {
		pos := posOf(o, f.Pos())
		var sends []flatEv
		for _, e := range flatten(o.St.trace) {
			if e.Kind == "call" && strings.HasPrefix(e.Callee, "(*github.com/valyala/gorpc.Client).") && e.Callee != "(*github.com/valyala/gorpc.Client).Start" {
				sends = append(sends, e)
			}
		}
		if !c.require(len(sends) == 1 && len(sends[0].Loop) == 0, "gorpc-one-request", what, pos, "the client sends %d requests", len(sends)) {
			continue
		}
		e := sends[0]
		if len(e.Args) < 2 || !strings.HasSuffix(e.Callee, "Call") && !strings.HasSuffix(e.Callee, "CallTimeout") {
			c.undecided("gorpc-one-request", what, e.Pos, "the request is sent with %s", e.Callee)
			continue
		}
		req := e.Args[1]
		if req.Op != "iface" || req.Args[0].Op != "struct" && req.Args[0].Op != "zero" {
			c.undecided("gorpc-request", what, e.Pos, "the request is %s", short(req))
			continue
		}
		requests[s.name+"."+m.name] = req
		c.require(registered[typeName(req.Typ)], "gorpc-registered", s.id(m.name+" request"), e.Pos, "%s is not registered for encoding", req.Typ)
		c.exportedFields("gorpc-fields", s.id(m.name+" request"), req.Args[0], e)
		if o.Kind == "panic" {
			continue // a response of another type; the composition below decides
		}
		errT := mk("res", "1", nil, e.Res)
		respT := mk("res", "0", nil, e.Res)
		ret := o.Rets[len(o.Rets)-1]
		switch nilness(o.St.facts, errT) {
		case -1:
			nErr++
			c.require(nilness(o.St.facts, ret) == -1 && inChain(c.errChain(o, ret), errT), "gorpc-client-error", what, pos, "a failed call returns %s", short(ret))
			continue
		case 0:
			c.fail("gorpc-client-error", what, pos, "the client ignores a failure of the call")
			continue
		}
		nOK++
		c.require(nilness(o.St.facts, ret) == 1, "gorpc-client-error", what, pos, "a successful call returns the error %s", short(ret))
		for _, k := range hs {
			served := 0
			for _, h := range k.handle(req) {
				hpos := posOf(h, k.fn.Pos())
				evs := flatten(h.St.trace[k.baseLen:])
				calls := s.serviceCalls(evs)
				if h.Kind != "ret" {
					c.fail("gorpc-dispatch", what, hpos, "the proxy ends in a %s for a request of %s", h.Kind, m.name)
					continue
				}
				stray := ""
				for _, key := range h.St.facts.order {
					a := h.St.facts.atoms[key]
					if hasTerm(a, func(x *Term) bool { return x.Op == "call" && strings.HasPrefix(x.Name, "reflect.") }) {
						stray = short(a)
					}
				}
				if stray != "" {
					c.undecided("gorpc-dispatch", what, hpos, "dispatch depends on %s", stray)
					continue
				}
				if !c.require(len(calls) == 1 && len(calls[0].Loop) == 0 && calledMethod(calls[0].Callee) == m.name, "gorpc-dispatch", what, hpos, "the request of client method %s (%s) makes the proxy call %s", m.name, typeName(req.Typ), calleesOf(calls)) {
					continue
				}
				call := calls[0]
				served++
				if r := strip(call.Args[0]); !(r.Op == "param" && r.Name == "service") {
					c.undecided("gorpc-dispatch", what, call.Pos, "the method is called on %s", short(r))
				}
				cargs := call.Args[1:]
				if m.session {
					cargs = cargs[2:]
				}
				for i, a := range cargs {
					w := s.id(m.name + " argument " + itoa(i+1))
					x := strip(a)
					if !same(x, data[i]) && x.Op != "param" && x.Op != "zero" && x.Op != "nil" && x.Op != "const" {
						c.undecided("gorpc-argument", w, call.Pos, "argument %d is %s", i, short(x))
						continue
					}
					c.require(same(x, data[i]), "gorpc-argument", w, call.Pos, "argument %d of %s arrives as %s", i, m.name, short(x))
				}
				if len(h.Rets) != 1 {
					continue
				}
				resp := h.Rets[0]
				if resp.Op != "iface" {
					if resp.Op == "nil" || resp.Op == "zero" {
						c.fail("gorpc-response", what, hpos, "the proxy answers a request of %s with %s", m.name, short(resp))
					} else {
						c.undecided("gorpc-response", what, hpos, "the response is %s", short(resp))
					}
					continue
				}
				c.require(registered[typeName(resp.Typ)], "gorpc-registered", s.id(m.name+" response"), hpos, "%s is not registered for encoding", resp.Typ)
				c.exportedFields("gorpc-fields", s.id(m.name+" response"), resp.Args[0], call)
				// the client on this response
				fold := func(x *Term) *Term {
					if same(x, respT) {
						return resp
					}
					return reflectNames(x)
				}
				u := under(o, fold)
				if u == nil {
					c.fail("gorpc-response", what, pos, "the client does not accept the response type %s of the proxy for %s", typeName(resp.Typ), m.name)
					continue
				}
				for i := range m.rets {
					w := s.id(m.name + " result " + itoa(i+1))
					got, want := strip(u.Rets[i]), resTerm(call.Event, i, len(m.rets))
					if same(got, want) {
						c.ok("gorpc-result", w, pos)
						continue
					}
					if got.Op == "res" || got.Op == "nil" || got.Op == "zero" || got.Op == "const" || got.Op == "call" && same(got, call.Res) {
						c.fail("gorpc-result", w, pos, "result %d of %s arrives as %s", i, m.name, short(got))
					} else {
						c.undecided("gorpc-result", w, pos, "result %d of %s arrives as %s", i, m.name, short(got))
					}
				}
				c.gorpcStats(s, m, h, evs, call)
			}
			c.require(served > 0, "gorpc-reachable", what, k.fn.Pos(), "the request of client method %s reaches no method", m.name)
		}
	}
	c.require(nOK > 0, "gorpc-success", what, f.Pos(), "no call of %s succeeds", m.name)
	c.require(nErr > 0, "gorpc-client-error", what, f.Pos(), "no failure of a call of %s is reported", m.name)
}

func calleesOf(evs []flatEv) string {
	if len(evs) == 0 {
		return "nothing"
	}
	var s []string
	for _, e := range evs {
		s = append(s, calledMethod(e.Callee))
	}
	return strings.Join(s, ", ")
}

// exportedFields: data in unexported fields would not be encoded.
func (c *Check) exportedFields(rule, what string, v *Term, e flatEv) {
	for _, a := range v.Args {
		if a.Op == "fv" {
			c.require(a.Name != "" && a.Name[0] >= 'A' && a.Name[0] <= 'Z', rule, what+" "+a.Name, e.Pos, "field %s is not exported, its value is not encoded", a.Name)
		}
	}
	c.ok(rule, what, e.Pos)
}

func (c *Check) gorpcStats(s *gservice, m *gmethod, h *Outcome, evs []flatEv, call flatEv) {
	what := s.id(m.name)
	var hits []flatEv
	for _, e := range evs {
		if e.Kind == "call" && e.Callee == "dynamic" && len(e.Args) > 0 && e.Args[0].Op == "param" && e.Args[0].Name == "qz:stats" {
			hits = append(hits, e)
		}
	}
	pos := posOf(h, call.Pos)
	switch nilness(h.St.facts, mk("param", "qz:stats", nil)) {
	case 1:
		c.require(len(hits) == 0, "gorpc-statistics", s.id(m.name+" without handler"), pos, "a missing statistics handler is called")
		return
	case 0:
		c.require(len(hits) == 0, "gorpc-statistics", s.id(m.name+" without handler"), pos, "a statistics handler is called without testing that there is one")
	}
	if !c.require(len(hits) == 1 && len(hits[0].Loop) == 0, "gorpc-statistics", what, pos, "the statistics handler is called %d times for a call of %s", len(hits), m.name) {
		return
	}
	e := hits[0]
	c.require(e.Seq > call.Seq, "gorpc-statistics", what, e.Pos, "the statistics are handed over before %s is called", m.name)
	p := strip(e.Args[1])
	str := types.Typ[types.String]
	for f, want := range map[string]string{"Package": s.g.path, "Service": s.name, "Func": m.name} {
		got := strip(c.fieldIn(e.Heap, p, f, str))
		v, ok := constStr(foldWith(got, reflectNames))
		if !ok {
			if got.Op == "zero" {
				c.fail("gorpc-statistics", s.id(m.name+" "+f), e.Pos, "%s is not set", f)
			} else {
				c.undecided("gorpc-statistics", s.id(m.name+" "+f), e.Pos, "%s is %s", f, short(got))
			}
			continue
		}
		c.require(v == want || f == "Func" && strings.Contains(v, want), "gorpc-statistics", s.id(m.name+" "+f), e.Pos, "%s of a call of %s is %q", f, m.name, v)
	}
	d := c.fieldIn(e.Heap, p, "Execution", nil)
	a, b, ok := timeSpan(evs, d)
	if !ok {
		if strip(d).Op == "zero" || strip(d).Op == "const" {
			c.fail("gorpc-statistics", s.id(m.name+" Execution"), e.Pos, "the execution time is not recorded")
		} else {
			c.undecided("gorpc-statistics", s.id(m.name+" Execution"), e.Pos, "the execution time is %s", short(d))
		}
		return
	}
	c.require(a < call.Seq && b > call.Seq, "gorpc-statistics", s.id(m.name+" Execution"), e.Pos, "the execution time does not span the call of %s", m.name)
}
