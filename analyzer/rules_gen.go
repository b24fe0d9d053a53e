package main

import (
	"fmt"
	"go/types"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- emitted code as analysis subject ---------------------------------------------------

func (g *genPkg) named(name string) types.Type {
	o, ok := g.types.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return nil
	}
	return o.Type()
}

func (g *genPkg) method(typ, name string) *ssa.Function {
	t := g.named(typ)
	if t == nil {
		return nil
	}
	return g.c.P.methodOf(types.NewPointer(t), g.types, name)
}

func (g *genPkg) isGen(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	p := f.Pkg
	if p == nil && f.Origin() != nil {
		p = f.Origin().Pkg
	}
	if p != g.ssa {
		return false
	}
	_, ok := g.gen[filepath.Base(g.c.P.fset.Position(f.Pos()).Filename)]
	return ok || f.Synthetic != ""
}

// runtimeOpaque are the functions of the runtime library that generated code is
// judged against; what they do is decided by other rules.
var runtimeOpaque = map[string]bool{"LoadArgs": true, "Reply": true, "GetStatsForRequest": true, "ClearStats": true}

func (g *genPkg) inline(f *ssa.Function) bool {
	if g.isGen(f) {
		return true
	}
	if f.Pkg == g.c.P.root && f.Signature.Recv() == nil && f.Parent() == nil {
		return !runtimeOpaque[f.Name()]
	}
	if f.Pkg == g.c.P.root && f.Signature.Recv() != nil && f.Name() == "Call" {
		return false // the client; what it does is decided by C01 and C02
	}
	if f.Pkg == g.c.P.root && f.Signature.Recv() != nil && strings.Contains(f.Signature.Recv().Type().String(), "gotsrpc/v2.ResponseWriter") {
		return false
	}
	return f.Pkg != g.ssa
}

// eval runs the abstract interpreter on a function of the emitted code.
func (g *genPkg) eval(f *ssa.Function) []*Outcome {
	c := g.c
	old := c.inline
	c.inline = g.inline
	defer func() { c.inline = old }()
	var args []*Term
	for _, p := range f.Params {
		args = append(args, paramT(p.Name(), p.Type()))
	}
	return c.rootWith(f, args, nil, nil)
}

// ---- the services of an emitted package -------------------------------------------------

// gmethod is a method of a service as its source declares it.
type gmethod struct {
	name    string
	sig     *types.Signature
	session bool
	data    []*types.Var // parameters that travel
	rets    []*types.Var
}

type gservice struct {
	g        *genPkg
	name     string
	endpoint string
	typ      types.Type
	methods  []*gmethod
	fn       *ssa.Function
	runs     []*Outcome
	recv     *Term
	base     *State
	baseLen  int
}

func namedIs(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

func isHTTPWriter(t types.Type) bool { return namedIs(t, "net/http", "ResponseWriter") }

func isHTTPRequest(t types.Type) bool {
	p, ok := types.Unalias(t).(*types.Pointer)
	return ok && namedIs(p.Elem(), "net/http", "Request")
}

// exposed are the methods a service has to expose, in the order of their names:
// the oracle is the type-checked source of the service.
func exposed(pkg *types.Package, service string) []*gmethod {
	tn, ok := pkg.Scope().Lookup(service).(*types.TypeName)
	if !ok {
		return nil
	}
	var fns []*types.Func
	if it, isI := tn.Type().Underlying().(*types.Interface); isI {
		for i := 0; i < it.NumExplicitMethods(); i++ {
			fns = append(fns, it.ExplicitMethod(i))
		}
	} else if n, isN := tn.Type().(*types.Named); isN {
		for i := 0; i < n.NumMethods(); i++ {
			if _, isP := n.Method(i).Type().(*types.Signature).Recv().Type().(*types.Pointer); isP {
				fns = append(fns, n.Method(i))
			}
		}
	}
	var res []*gmethod
	for _, f := range fns {
		if !f.Exported() {
			continue
		}
		sig := f.Type().(*types.Signature)
		m := &gmethod{name: f.Name(), sig: sig}
		ps := sig.Params()
		m.session = ps.Len() > 1 && isHTTPWriter(ps.At(0).Type()) && isHTTPRequest(ps.At(1).Type())
		for i := 0; i < ps.Len(); i++ {
			if m.session && i < 2 {
				continue
			}
			m.data = append(m.data, ps.At(i))
		}
		for i := 0; i < sig.Results().Len(); i++ {
			m.rets = append(m.rets, sig.Results().At(i))
		}
		res = append(res, m)
	}
	sort.Slice(res, func(i, j int) bool { return res[i].name < res[j].name })
	return res
}

// services of the target that have a transport.
func (g *genPkg) services(transport []string) []*gservice {
	var res []*gservice
	for _, name := range transport {
		s := &gservice{g: g, name: name}
		for ep, n := range g.tgt.services {
			if n == name {
				s.endpoint = ep
			}
		}
		if t := g.named(name); t != nil {
			s.typ = t
			s.methods = exposed(g.types, name)
		}
		if s.typ == nil || s.endpoint == "" || len(s.methods) == 0 {
			panic(Undecided{"schematic service " + name})
		}
		res = append(res, s)
	}
	return res
}

// cases are the schematic inputs the rules on emitted code are applied to.
var genCases = []*genInput{genShop, genSplit, genKit, genDuo, genEdge, genNames, genFar, genWide, genSpell, genPlace, genPlain}

// eachGen calls f for every target of the schematic inputs that generates without a failure.
func (c *Check) eachGen(f func(g *genPkg)) {
	for _, in := range genCases {
		in := in
		c.section("generated "+in.name, func() {
			o := c.single(in, "generates")
			if o == nil {
				return
			}
			for i := range in.targets {
				if g := c.emitted(in, o, &in.targets[i], "emitted-code-compiles"); g != nil {
					f(g)
				}
			}
		})
	}
}

// eachProxy calls f for every HTTP proxy emitted.
func (c *Check) eachProxy(f func(s *gservice)) {
	c.eachGen(func(g *genPkg) {
		for _, s := range g.services(g.tgt.tsrpc) {
			s := s
			c.section(g.in.name+" "+s.name, func() {
				if s.load() {
					f(s)
				}
			})
		}
	})
}

func (s *gservice) id(what string) string { return s.g.in.name + ":" + s.name + " " + what }

// call of a constructor of the emitted code on place holders.
func (g *genPkg) construct(name string, args ...*Term) (*ssa.Function, *Outcome) {
	f := g.ssa.Func(name)
	if f == nil || len(f.Params) != len(args) {
		return nil, nil
	}
	for i, p := range f.Params {
		if args[i] == nil {
			args[i] = paramT(p.Name(), p.Type())
		}
	}
	outs := g.evalWith(f, args, nil)
	if len(outs) != 1 || outs[0].Kind != "ret" || len(outs[0].Rets) != 1 {
		panic(Undecided{name + " has several paths"})
	}
	return f, outs[0]
}

func (g *genPkg) evalWith(f *ssa.Function, args []*Term, st *State) []*Outcome {
	c := g.c
	old := c.inline
	c.inline = g.inline
	defer func() { c.inline = old }()
	return c.rootWith(f, args, nil, st)
}

// load evaluates the proxy handler of the service as its default constructor builds it.
func (s *gservice) load() bool {
	g, c := s.g, s.g.c
	ctor, o := g.construct("NewDefault"+s.name+"GoTSRPCProxy", nil)
	if ctor == nil {
		c.fail("proxy-exists", s.id("constructor"), 0, "no constructor NewDefault%sGoTSRPCProxy(service) is emitted", s.name)
		return false
	}
	s.recv, s.base = o.Rets[0], o.St
	s.baseLen = len(o.St.trace)
	pt := ctor.Signature.Results().At(0).Type()
	s.fn = c.P.methodOf(pt, g.types, "ServeHTTP")
	if s.fn == nil || len(s.fn.Params) != 3 {
		c.fail("proxy-exists", s.id("ServeHTTP"), ctor.Pos(), "the proxy has no method ServeHTTP(w, r)")
		return false
	}
	if f, _ := g.construct("New"+s.name+"GoTSRPCProxy", nil, nil); f == nil {
		c.fail("proxy-exists", s.id("constructor with endpoint"), 0, "no constructor New%sGoTSRPCProxy(service, endpoint) is emitted", s.name)
	}
	c.ok("proxy-exists", s.id("ServeHTTP"), s.fn.Pos())
	s.runs = g.evalWith(s.fn, []*Term{s.recv, paramT("w", s.fn.Params[1].Type()), paramT("r", s.fn.Params[2].Type())}, s.base)
	return true
}

func (s *gservice) events(o *Outcome) []flatEv { return flatten(o.St.trace[s.baseLen:]) }

// at: the outcomes of a request with an HTTP method and a path. why is set if they
// still depend on the request in a way that is not understood.
func (s *gservice) at(method, path string) (res []*Outcome, why string) {
	f := func(x *Term) *Term {
		if x.Op == "fld" && len(x.Args) == 1 {
			a := x.Args[0]
			if x.Name == "Method" && a.Op == "param" && a.Name == "r" {
				return strTerm(method)
			}
			if x.Name == "Path" && a.Op == "fld" && a.Name == "URL" && a.Args[0].Op == "param" && a.Args[0].Name == "r" {
				return strTerm(path)
			}
		}
		return x
	}
	for _, o := range s.runs {
		u := under(o, f)
		if u == nil {
			continue
		}
		res = append(res, u)
		for _, k := range u.St.facts.order {
			a := u.St.facts.atoms[k]
			walk(a, func(x *Term) bool {
				if x.Op == "call" && strings.HasPrefix(x.Name, modPath+".") {
					return false
				}
				if x.Op == "call" && isServiceCallee(s, x.Name) {
					return false
				}
				if x.Op == "fld" && x.Args[0].Op == "param" && x.Args[0].Name == "r" {
					why = short(a)
				}
				if x.Op == "call" {
					for _, y := range x.Args {
						if v, ok := constStr(y); ok && (v == path || v == method) {
							why = short(a)
						}
					}
				}
				return true
			})
		}
	}
	if len(res) == 0 {
		why = "no path is possible"
	}
	return res, why
}

func isServiceCallee(s *gservice, name string) bool {
	p := s.g.path + "." + s.name + ")."
	return strings.HasPrefix(name, "("+p) || strings.HasPrefix(name, "(*"+p)
}

func (s *gservice) serviceCalls(evs []flatEv) []flatEv {
	var res []flatEv
	for _, e := range evs {
		if e.Kind == "call" && isServiceCallee(s, e.Callee) {
			res = append(res, e)
		}
	}
	return res
}

func calledMethod(callee string) string { return callee[strings.LastIndex(callee, ".")+1:] }

// statuses written to the response by the proxy itself.
func statuses(evs []flatEv) (codes []int64, known bool) {
	known = true
	for _, e := range evs {
		if e.Kind != "call" {
			continue
		}
		var t *Term
		switch {
		case isCallTo(e.Event, "net/http.Error") && len(e.Args) == 3:
			t = e.Args[2]
		case isCallTo(e.Event, "net/http.NotFound"):
			t = intTerm(404)
		case isCallTo(e.Event, "(net/http.ResponseWriter).WriteHeader", "*gotsrpc/v2.ResponseWriter).WriteHeader") && len(e.Args) == 2:
			t = e.Args[1]
		default:
			continue
		}
		n, ok := constInt(t)
		if !ok {
			known = false
			continue
		}
		codes = append(codes, n)
	}
	return codes, known
}

// answered: the only status the proxy writes is code.
func (s *gservice) answered(rule, what string, o *Outcome, evs []flatEv, code int64) {
	c := s.g.c
	pos := posOf(o, s.fn.Pos())
	codes, known := statuses(evs)
	if !known {
		c.undecided(rule, what, pos, "the status is not a constant")
		return
	}
	if len(codes) == 0 && code == 200 {
		c.ok(rule, what, pos)
		return
	}
	c.require(len(codes) == 1 && codes[0] == code, rule, what, pos, "the answer has status %v instead of %d", codes, code)
}

func rtCalls(evs []flatEv, name string) []flatEv {
	var res []flatEv
	for _, e := range evs {
		if isCallTo(e.Event, modPath+"."+name) {
			res = append(res, e)
		}
	}
	return res
}

func monitorCalls(evs []flatEv) []flatEv {
	var res []flatEv
	for _, e := range evs {
		if e.Kind == "call" && e.Callee == "dynamic" && len(e.Args) > 0 && e.Args[0].Op == "glob" && e.Args[0].Name == modPath+".Monitor" ||
			isCallTo(e.Event, modPath+".Monitor") {
			res = append(res, e)
		}
	}
	return res
}

// served are the outcomes of a request for a method of the service, split into
// those on which the method is called.
type served struct {
	o    *Outcome
	evs  []flatEv
	call *flatEv
}

func (s *gservice) serve(rule string, m *gmethod) []served {
	outs, why := s.at("POST", s.endpoint+"/"+m.name)
	if why != "" {
		s.g.c.undecided(rule, s.id(m.name), s.fn.Pos(), "a request for the method still depends on %s", why)
		return nil
	}
	var res []served
	for _, o := range outs {
		v := served{o: o, evs: s.events(o)}
		for i, e := range v.evs {
			if e.Kind == "call" && isServiceCallee(s, e.Callee) && calledMethod(e.Callee) == m.name {
				v.call = &v.evs[i]
				break
			}
		}
		res = append(res, v)
	}
	return res
}

// ---- S01: dispatch ----------------------------------------------------------------------

func init() { register("S01", 60, checkS01) }

func checkS01(c *Check) {
	c.section("cleared statistics", func() { c.s04Attach("cleared") })
	c.eachProxy(func(s *gservice) {
		for _, p := range []string{s.endpoint + "/" + s.methods[0].name, s.endpoint, s.endpoint + "/QzNothing", "/"} {
			outs, why := s.at("OPTIONS", p)
			if why != "" {
				c.undecided("options-answered", s.id(p), s.fn.Pos(), "depends on %s", why)
			}
			for _, o := range outs {
				evs := s.events(o)
				pos := posOf(o, s.fn.Pos())
				codes, known := statuses(evs)
				bad := false
				for _, n := range codes {
					bad = bad || n >= 300
				}
				if !known {
					c.undecided("options-answered", s.id(p), pos, "the status is not a constant")
				}
				c.require(!bad && len(s.serviceCalls(evs)) == 0 && len(rtCalls(evs, "LoadArgs")) == 0, "options-answered", s.id(p), pos, "an OPTIONS request reads arguments, calls the service or is rejected with status %v", codes)
			}
			for _, m := range []string{"GET", "PUT", "HEAD", "DELETE", "PATCH", "CONNECT", "TRACE", "QZMETHOD", "", "post", "options", "POSTX"} {
				outs, why := s.at(m, p)
				if why != "" {
					c.undecided("method-rejected", s.id(m), s.fn.Pos(), "depends on %s", why)
				}
				for _, o := range outs {
					evs := s.events(o)
					pos := posOf(o, s.fn.Pos())
					c.require(len(s.serviceCalls(evs)) == 0 && len(rtCalls(evs, "LoadArgs")) == 0, "method-rejected", s.id(m), pos, "a %s request reads arguments or calls the service", m)
					s.answered("method-rejected", s.id(m+" status"), o, evs, 405)
				}
			}
		}
		isMethod := map[string]bool{}
		for _, m := range s.methods {
			isMethod[m.name] = true
			n := 0
			for _, v := range s.serve("dispatch", m) {
				pos := posOf(v.o, s.fn.Pos())
				calls := s.serviceCalls(v.evs)
				for _, e := range calls {
					if calledMethod(e.Callee) != m.name {
						c.fail("dispatch", s.id(m.name), e.Pos, "a request for %s calls %s", m.name, calledMethod(e.Callee))
					}
					if len(e.Loop) > 0 {
						c.fail("dispatch", s.id(m.name), e.Pos, "a request for %s calls it in a loop", m.name)
					}
					if !s.isService(v.o, e.Event) {
						c.undecided("dispatch", s.id(m.name), e.Pos, "the receiver of the call is %s", short(e.Args[0]))
					}
				}
				if len(calls) > 1 {
					c.fail("dispatch", s.id(m.name), calls[1].Pos, "a request for %s calls the service %d times", m.name, len(calls))
				}
				if v.o.Kind != "ret" {
					c.undecided("dispatch", s.id(m.name), pos, "a path ends in a %s", v.o.Kind)
				}
				if v.call != nil {
					n++
					c.ok("dispatch", s.id(m.name), pos)
					continue
				}
				// not called: only if the arguments could not be loaded
				ok := false
				for _, l := range rtCalls(v.evs, "LoadArgs") {
					ok = ok || nilness(v.o.St.facts, l.Res) == -1
				}
				c.require(ok, "dispatch-complete", s.id(m.name), pos, "a request for %s can end without calling it although its arguments were loaded", m.name)
			}
			c.require(n > 0, "reachable", s.id(m.name), s.fn.Pos(), "no request reaches %s", m.name)
		}
		probes := map[string]bool{"": true, "QzNothing": true, "qzHidden": true, "QzForeign": true, "QzHelp": true, "QzFree": true, "QzOnlyInTests": true, "ServeHTTP": true}
		for _, m := range s.methods {
			n := m.name
			for _, p := range []string{strings.ToLower(n), strings.ToUpper(n), strings.ToLower(n[:1]) + n[1:], n + "x", n + "/", "/" + n, "x" + n, n[:len(n)-1], n + "/x", " " + n, s.name + n, s.name + "." + n, n + "Request"} {
				probes[p] = true
			}
		}
		for _, o := range s.runs {
			for _, k := range o.St.facts.order {
				walk(o.St.facts.atoms[k], func(x *Term) bool {
					if v, ok := constStr(x); ok && len(v) < 60 {
						probes[strings.TrimPrefix(v, "/")] = true
					}
					return x.Op != "call" || !strings.HasPrefix(x.Name, modPath)
				})
			}
		}
		paths := map[string]bool{s.endpoint: true, "/": true, s.endpoint + "x/" + s.methods[0].name: true, "/x" + s.endpoint + "/" + s.methods[0].name: true}
		for p := range probes {
			if !isMethod[p] {
				paths[s.endpoint+"/"+p] = true
			}
		}
		for p := range paths {
			outs, why := s.at("POST", p)
			if why != "" {
				c.undecided("unknown-name", s.id(""), s.fn.Pos(), "a request for %q depends on %s", p, why)
				continue
			}
			for _, o := range outs {
				evs := s.events(o)
				pos := posOf(o, s.fn.Pos())
				if len(s.serviceCalls(evs)) > 0 {
					c.fail("unknown-name", s.id("not called"), pos, "a request for %q calls %s", p, s.serviceCalls(evs)[0].Callee)
					continue
				}
				c.require(len(rtCalls(evs, "LoadArgs")) == 0, "unknown-name", s.id("not called"), pos, "a request for %q reads arguments", p)
				s.answered("unknown-name", s.id("status"), o, evs, 404)
				cl := rtCalls(evs, "ClearStats")
				c.require(len(cl) > 0 && same(cl[0].Args[0], sReq()), "unknown-name", s.id("stats"), pos, "a request for %q leaves statistics behind", p)
			}
		}
	})
}

// isService: the receiver of a call is the service the proxy was built with.
func (s *gservice) isService(o *Outcome, e *Event) bool {
	r := strip(e.Args[0])
	return r.Op == "param" && r.Name == "service" || r.Op == "param" && r.Typ != nil && (types.Identical(r.Typ, s.typ) || types.Identical(r.Typ, types.NewPointer(s.typ)))
}

// ---- S02: arguments ---------------------------------------------------------------------

func (c *Check) s02Generated() {
	c.eachProxy(func(s *gservice) {
		for _, m := range s.methods {
			for _, v := range s.serve("arguments-loaded", m) {
				pos := posOf(v.o, s.fn.Pos())
				facts := v.o.St.facts
				loads := rtCalls(v.evs, "LoadArgs")
				replies := rtCalls(v.evs, "Reply")
				failed := false
				for _, l := range loads {
					if nilness(facts, l.Res) == -1 {
						failed = true
						for _, e := range s.serviceCalls(v.evs) {
							c.fail("failed-load-calls-nothing", s.id(m.name), e.Pos, "%s is called although its arguments could not be loaded", calledMethod(e.Callee))
						}
						c.require(len(replies) == 0, "failed-load-calls-nothing", s.id(m.name), pos, "a reply is sent although the arguments could not be loaded")
						s.answered("failed-load-status", s.id(m.name), v.o, v.evs, 400)
					}
					c.require(same(strip(l.Args[2]), sReq()), "arguments-of-request", s.id(m.name), l.Pos, "the arguments are loaded from %s", short(l.Args[2]))
				}
				if v.call == nil {
					if !failed && len(loads) == 0 && v.o.Kind == "ret" {
						continue // S01 reports it
					}
					continue
				}
				args := v.call.Args[1:]
				if m.session {
					if len(args) < 2 {
						continue
					}
					args = args[2:]
				}
				if len(m.data) > 0 {
					var before []flatEv
					for _, l := range loads {
						if l.Seq < v.call.Seq {
							before = append(before, l)
						}
					}
					if !c.require(len(before) > 0, "loaded-before-call", s.id(m.name), v.call.Pos, "%s is called before its arguments are loaded", m.name) {
						continue
					}
					l := before[len(before)-1]
					if n := nilness(facts, l.Res); n == 0 {
						c.fail("loaded-before-call", s.id(m.name), v.call.Pos, "%s is called whether or not its arguments could be loaded", m.name)
					}
					if len(args) != len(m.data) {
						c.undecided("argument-position", s.id(m.name), v.call.Pos, "%d arguments", len(args))
						continue
					}
					for i, a := range args {
						x := strip(a)
						what := s.id(m.name + " argument " + itoa(i+1))
						if x.Op == "out" && len(x.Args) == 1 && same(x.Args[0], l.Res) {
							c.require(x.Name == "0."+itoa(i), "argument-position", what, v.call.Pos, "argument %d of %s is element %s of the argument list", i, m.name, strings.TrimPrefix(x.Name, "0."))
							continue
						}
						if x.Op == "zero" || x.Op == "const" || x.Op == "nil" {
							c.fail("argument-position", what, v.call.Pos, "argument %d of %s is %s instead of element %d of the argument list", i, m.name, short(x), i)
							continue
						}
						c.undecided("argument-position", what, v.call.Pos, "argument %d of %s is %s", i, m.name, short(x))
					}
					list := c.listOf(l.Args[0], l.Event)
					if list == nil {
						c.undecided("argument-count", s.id(m.name), l.Pos, "the argument list is %s", short(l.Args[0]))
					} else {
						c.require(len(list) == len(m.data), "argument-count", s.id(m.name), l.Pos, "the argument list of %s has %d elements for %d parameters", m.name, len(list), len(m.data))
					}
				}
				for _, r := range replies {
					switch nilness(facts, r.Res) {
					case -1:
						s.answered("failed-reply-status", s.id(m.name), v.o, v.evs, 500)
					case 0:
						c.fail("failed-reply-status", s.id(m.name), r.Pos, "the failure of the reply of %s is ignored", m.name)
					case 1:
						s.answered("success-status", s.id(m.name), v.o, v.evs, 200)
					}
				}
			}
		}
	})
}

// listOf is the list a slice (or the slice a pointer refers to) has at an event; nil if it is not known.
func (c *Check) listOf(t *Term, e *Event) []*Term {
	x := strip(t)
	if x.Op == "obj" || x.Op == "fieldaddr" {
		if v, ok := e.Heap[x.Key()]; ok {
			x = v
		} else {
			return nil
		}
	}
	x = strip(x)
	switch x.Op {
	case "list":
		return append([]*Term{}, x.Args...)
	case "nil", "zero":
		return []*Term{}
	}
	return nil
}

// ---- S03: session methods ---------------------------------------------------------------

func (c *Check) s03Generated() {
	sessions := 0
	c.eachProxy(func(s *gservice) {
		for _, m := range s.methods {
			for _, v := range s.serve("session", m) {
				if v.call == nil {
					continue
				}
				pos := posOf(v.o, s.fn.Pos())
				facts := v.o.St.facts
				replies := rtCalls(v.evs, "Reply")
				for _, r := range replies {
					if r.Seq < v.call.Seq {
						c.fail("reply-after-call", s.id(m.name), r.Pos, "the reply is sent before %s is called", m.name)
					}
					s.checkList("returns-in-order", m.name, r.Args[0], r.Event, v.call.Event, m)
					c.require(same(strip(r.Args[2]), sReq()), "reply-to-request", s.id(m.name), r.Pos, "the reply is sent for request %s", short(r.Args[2]))
					if w := strip(r.Args[3]); !same(w, sW()) && !s.wraps(v, w) {
						c.undecided("reply-to-request", s.id(m.name), r.Pos, "the reply is written to %s", short(w))
					}
				}
				if len(replies) > 1 {
					c.fail("one-reply", s.id(m.name), replies[1].Pos, "two replies are sent for one call of %s", m.name)
				}
				if !m.session {
					c.require(len(replies) > 0, "always-replies", s.id(m.name), pos, "a call of %s can end without a reply", m.name)
					continue
				}
				sessions++
				if len(v.call.Args) < 3 {
					c.undecided("session-arguments", s.id(m.name), v.call.Pos, "%d arguments", len(v.call.Args)-1)
					continue
				}
				w, r := strip(v.call.Args[1]), strip(v.call.Args[2])
				c.require(same(r, sReq()), "session-arguments", s.id(m.name+" request"), v.call.Pos, "%s gets %s as its request", m.name, short(r))
				if !same(w, sW()) {
					inner := s.inner(v, w)
					switch {
					case inner == nil:
						if w.Op == "nil" || w.Op == "zero" || w.Op == "const" {
							c.fail("session-arguments", s.id(m.name+" writer"), v.call.Pos, "%s gets %s as its response writer", m.name, short(w))
						} else {
							c.undecided("session-arguments", s.id(m.name+" writer"), v.call.Pos, "%s gets %s as its response writer", m.name, short(w))
						}
					default:
						c.require(same(inner, sW()), "session-arguments", s.id(m.name+" writer"), v.call.Pos, "%s gets a response writer around %s", m.name, short(inner))
					}
				} else {
					c.ok("session-arguments", s.id(m.name+" writer"), v.call.Pos)
				}
				// the status after the call
				st, late, any := 0, false, false
				var statusCall *Term
				consts := map[int64]bool{}
				for _, n := range []int64{100, 199, 200, 201, 204, 302, 399, 400, 401, 404, 499, 500, 503, 599} {
					consts[n] = true
				}
				for _, k := range facts.order {
					a := facts.atoms[k]
					walk(a, func(x *Term) bool {
						if x.Op == "call" && strings.HasSuffix(x.Name, "ResponseWriter).Status") && len(x.Args) > 0 && same(strip(x.Args[0]), w) {
							any, statusCall = true, x
							walk(a, func(k *Term) bool {
								if n, ok := constInt(k); ok && n > 99 && n < 1000 {
									consts[n-1], consts[n], consts[n+1] = true, true, true
								}
								return true
							})
							if n := decideEq(facts, x, intTerm(200)); n != 0 {
								st = n
							}
							late = true
							for _, e := range v.evs {
								if e.Kind == "call" && e.Res != nil && same(e.Res, x) && e.Seq < v.call.Seq {
									late = false
								}
							}
						}
						return true
					})
				}
				switch {
				case any && !late:
					c.fail("reply-on-200", s.id(m.name), pos, "the status is read before %s is called", m.name)
				case st == 1:
					c.require(len(replies) == 1, "reply-on-200", s.id(m.name), pos, "%s left the response at status 200 and no reply is sent", m.name)
				case st == -1:
					c.require(len(replies) == 0, "reply-on-200", s.id(m.name), pos, "a reply is sent although %s wrote another status than 200", m.name)
				case any:
					for _, n := range sortedInts(consts) {
						u := under(v.o, func(t *Term) *Term {
							if same(t, statusCall) {
								return intTerm(n)
							}
							return t
						})
						if u == nil {
							continue
						}
						if n == 200 {
							c.require(len(replies) == 1, "reply-on-200", s.id(m.name), pos, "%s left the response at status 200 and no reply is sent", m.name)
						} else {
							c.require(len(replies) == 0, "reply-on-200", s.id(m.name), pos, "a reply is sent although %s wrote status %d", m.name, n)
						}
					}
				default:
					// decided by something else?
					other := false
					for _, k := range facts.order {
						walk(facts.atoms[k], func(x *Term) bool {
							if x.Op == "out" || x.Op == "fld" && mentions(x, w) {
								other = other || mentions(x, v.call.Res)
							}
							return true
						})
					}
					if other {
						c.undecided("reply-on-200", s.id(m.name), pos, "whether a reply is sent depends on another test of the status")
					} else {
						c.fail("reply-on-200", s.id(m.name), pos, "whether a reply is sent does not depend on the status %s wrote", m.name)
					}
				}
			}
		}
	})
	c.require(sessions > 0 || c.limited(), "session-arguments", "emitted proxies", 0, "no session method is called by an emitted proxy")
}

// inner is the http.ResponseWriter that a response writer object wraps when the method is called.
func (s *gservice) inner(v served, w *Term) *Term {
	if w.Op != "obj" || w.Typ == nil {
		return nil
	}
	t := w.Typ
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if isHTTPWriter(st.Field(i).Type()) {
			return strip(s.g.c.fieldIn(v.call.Heap, w, st.Field(i).Name(), st.Field(i).Type()))
		}
	}
	return nil
}

func (s *gservice) wraps(v served, w *Term) bool {
	x := s.inner(v, w)
	return x != nil && same(x, sW())
}

// checkList: a list holds the results of a call in their order.
func (s *gservice) checkList(rule, what string, t *Term, at, call *Event, m *gmethod) {
	c := s.g.c
	list := c.listOf(t, at)
	if list == nil {
		c.undecided(rule, s.id(what), at.Pos, "the list is %s", short(t))
		return
	}
	if !c.require(len(list) == len(m.rets), rule, s.id(what+" count"), at.Pos, "%d values for %d results of %s", len(list), len(m.rets), m.name) {
		return
	}
	for i, x := range list {
		x = strip(x)
		want := resTerm(call, i, len(m.rets))
		if same(x, want) {
			c.ok(rule, s.id(what+" "+itoa(i)), at.Pos)
			continue
		}
		if x.Op == "out" || x.Op == "call" && x != call.Res && !same(x, call.Res) {
			c.undecided(rule, s.id(what+" "+itoa(i)), at.Pos, "value %d is %s", i, short(x))
			continue
		}
		c.fail(rule, s.id(what+" "+itoa(i)), at.Pos, "value %d is %s instead of result %d of %s", i, short(x), i, m.name)
	}
}

// ---- S04: statistics of a served call ----------------------------------------------------

func (c *Check) s04Generated() {
	c.eachProxy(func(s *gservice) {
		for _, m := range s.methods {
			for _, v := range s.serve("statistics", m) {
				if v.call == nil {
					continue
				}
				pos := posOf(v.o, s.fn.Pos())
				var stats *Term
				for _, e := range rtCalls(v.evs, "GetStatsForRequest") {
					stats = mk("res", "0", nil, e.Res)
				}
				last := map[string]*flatEv{}
				for i, e := range v.evs {
					if e.Kind == "store" && e.Args[0].Op == "fieldaddr" {
						b := strip(e.Args[0].Args[0])
						if b.Op == "res" && b.Name == "0" && b.Args[0].Op == "call" && b.Args[0].Name == modPath+".GetStatsForRequest" && same(b.Args[0].Args[0], sReq()) {
							last[e.Args[0].Name] = &v.evs[i]
							stats = b
						}
					}
				}
				want := map[string]string{"Func": m.name, "Package": s.g.path, "Service": s.name}
				for _, f := range sorted(want) {
					what := s.id(m.name + " " + f)
					e := last[f]
					if !c.require(e != nil, "call-statistics", what, pos, "%s is not set for a call of %s", f, m.name) {
						continue
					}
					got, ok := constStr(e.Args[1])
					if !ok {
						c.undecided("call-statistics", what, e.Pos, "%s is %s", f, short(e.Args[1]))
						continue
					}
					c.require(got == want[f], "call-statistics", what, e.Pos, "%s of a call of %s is %q", f, m.name, got)
				}
				what := s.id(m.name + " Execution")
				if e := last["Execution"]; c.require(e != nil, "call-statistics", what, pos, "the execution time of %s is not recorded", m.name) {
					a, b, ok := timeSpan(v.evs, e.Args[1])
					if !ok {
						c.undecided("call-statistics", what, e.Pos, "the execution time is %s", short(e.Args[1]))
					} else {
						c.require(a < v.call.Seq && b > v.call.Seq, "call-statistics", what, e.Pos, "the execution time does not span the call of %s", m.name)
						for _, x := range append(rtCalls(v.evs, "LoadArgs"), rtCalls(v.evs, "Reply")...) {
							c.require(!(x.Seq > a && x.Seq < b), "execution-only", what, e.Pos, "the execution time includes %s", calledMethod(x.Callee))
						}
					}
				}
				for _, x := range append(append(rtCalls(v.evs, "LoadArgs"), rtCalls(v.evs, "Reply")...), monitorCalls(v.evs)...) {
					has := false
					for _, a := range x.Args {
						has = has || stats != nil && same(strip(a), stats)
					}
					if !has && stats != nil {
						nilStats := false
						for _, a := range x.Args {
							nilStats = nilStats || a.Op == "nil"
						}
						if nilStats {
							c.fail("statistics-passed-on", s.id(m.name+" "+shortCallee(x.Callee)), x.Pos, "%s gets no statistics", x.Callee)
						} else {
							c.undecided("statistics-passed-on", s.id(m.name+" "+shortCallee(x.Callee)), x.Pos, "the statistics passed are not those of the request")
						}
						continue
					}
					c.ok("statistics-passed-on", s.id(m.name+" "+shortCallee(x.Callee)), x.Pos)
				}
				c.require(len(rtCalls(v.evs, "ClearStats")) == 0, "statistics-kept", s.id(m.name), pos, "the statistics of a call of %s are cleared", m.name)
			}
		}
	})
}

func shortCallee(callee string) string {
	if callee == "dynamic" {
		return "Monitor"
	}
	return calledMethod(callee)
}

func sorted[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// timeSpan is the interval of events a duration was measured over.
func timeSpan(evs []flatEv, t *Term) (from, to int, ok bool) {
	t = strip(t)
	seq := func(x *Term) int {
		for _, e := range evs {
			if e.Kind == "call" && e.Res != nil && same(e.Res, x) {
				return e.Seq
			}
		}
		return -1
	}
	if t.Op == "call" && t.Name == "time.Since" {
		a, b := seq(t.Args[0]), seq(t)
		return a, b, a >= 0 && b >= 0
	}
	if t.Op == "call" && t.Name == "(time.Time).Sub" {
		a, b := seq(t.Args[1]), seq(t.Args[0])
		return a, b, a >= 0 && b >= 0
	}
	return 0, 0, false
}

// ---- S06: the monitor -------------------------------------------------------------------

func init() { register("S06", 60, checkS06) }

func checkS06(c *Check) {
	c.eachProxy(func(s *gservice) {
		for _, m := range s.methods {
			for _, v := range s.serve("monitored", m) {
				pos := posOf(v.o, s.fn.Pos())
				facts := v.o.St.facts
				mon := monitorCalls(v.evs)
				replies := rtCalls(v.evs, "Reply")
				failed := false
				for _, r := range replies {
					failed = failed || nilness(facts, r.Res) == -1
				}
				if v.call == nil || failed {
					c.require(len(mon) == 0, "not-monitored", s.id(m.name), pos, "the monitor is called although %s", map[bool]string{true: "the reply failed", false: m.name + " was not called"}[v.call != nil])
					continue
				}
				if len(replies) == 0 && !m.session {
					continue // S03
				}
				if !c.require(len(mon) == 1 && len(mon[0].Loop) == 0, "monitored-once", s.id(m.name), pos, "the monitor is called %d times for a completed call of %s", len(mon), m.name) {
					continue
				}
				e := mon[0]
				if e.Defer {
					c.ok("monitored-after-reply", s.id(m.name), e.Pos)
				}
				for _, r := range replies {
					c.require(e.Seq > r.Seq, "monitored-after-reply", s.id(m.name), e.Pos, "the monitor is called before the reply is sent")
				}
				c.require(e.Seq > v.call.Seq, "monitored-after-reply", s.id(m.name), e.Pos, "the monitor is called before %s", m.name)
				args := e.Args
				if e.Callee == "dynamic" {
					args = args[1:]
				}
				if len(args) != 5 {
					c.undecided("monitor-arguments", s.id(m.name), e.Pos, "%d arguments", len(args))
					continue
				}
				if w := strip(args[0]); !same(w, sW()) && !s.wraps(v, w) {
					c.undecided("monitor-arguments", s.id(m.name+" writer"), e.Pos, "the writer is %s", short(w))
				}
				c.require(same(strip(args[1]), sReq()), "monitor-arguments", s.id(m.name+" request"), e.Pos, "the request is %s", short(args[1]))
				if len(replies) > 0 || strip(args[3]).Op == "list" {
					s.checkList("monitor-returns", m.name, args[3], e.Event, v.call.Event, m)
				}
				list := c.listOf(args[2], e.Event)
				if list == nil {
					c.undecided("monitor-arguments", s.id(m.name+" arguments"), e.Pos, "the arguments are %s", short(args[2]))
					continue
				}
				if !c.require(len(list) == len(m.data), "monitor-arguments", s.id(m.name+" arguments"), e.Pos, "%d arguments of %s are reported, it has %d", len(list), m.name, len(m.data)) {
					continue
				}
				loads := rtCalls(v.evs, "LoadArgs")
				for i, x := range list {
					ok := false
					for _, l := range loads {
						ll := c.listOf(l.Args[0], l.Event)
						ok = ok || i < len(ll) && same(strip(ll[i]), strip(x))
					}
					what := s.id(m.name + " argument " + itoa(i+1))
					if !ok && strip(x).Op == "out" {
						ok = strings.HasSuffix(strip(x).Name, "."+itoa(i))
					}
					c.require(ok, "monitor-arguments", what, e.Pos, "argument %d reported for %s is %s", i, m.name, short(x))
				}
			}
		}
		for _, p := range []string{s.endpoint + "/QzNothing", s.endpoint} {
			for _, hm := range []string{"POST", "OPTIONS", "GET"} {
				outs, _ := s.at(hm, p)
				for _, o := range outs {
					c.require(len(monitorCalls(s.events(o))) == 0, "not-monitored", s.id(hm), posOf(o, s.fn.Pos()), "the monitor is called for a request that reaches no method")
				}
			}
		}
	})
}

// ---- C03, C04: the emitted proxies --------------------------------------------------------

// limits: a reader that ends after a constant number of bytes.
func limits(t *Term) bool {
	if t.Name != "io.LimitReader" && t.Name != "net/http.MaxBytesReader" {
		return false
	}
	n, ok := constInt(t.Args[len(t.Args)-1])
	return ok && n < 1<<40
}

func partialRead(e *Event) bool {
	return e.Callee == "io.CopyN" || e.Res != nil && limits(e.Res)
}

// isReqBody: the body of the request, whatever a callee that was given the request did to it.
func isReqBody(t *Term) bool {
	t = strip(t)
	if t.Op != "fld" || t.Name != "Body" {
		return false
	}
	b := strip(t.Args[0])
	for b.Op == "out" && len(b.Args) == 1 {
		i, err := strconv.Atoi(b.Name)
		if err != nil || i >= len(b.Args[0].Args) {
			break
		}
		b = strip(b.Args[0].Args[i])
	}
	return same(b, sReq())
}

func (c *Check) c03Generated() {
	c.eachProxy(func(s *gservice) {
		n := 0
		drain := func(name string, outs []*Outcome) {
			for _, o := range outs {
				n++
				evs := s.events(o)
				ok, last := false, -1
				for _, e := range evs {
					if e.Kind != "call" {
						continue
					}
					if isCallTo(e.Event, "io.Copy", "io.ReadAll", "io.CopyBuffer", "io/ioutil.ReadAll") {
						for _, a := range e.Args {
							if isReqBody(a) {
								ok, last = true, e.Seq
							}
						}
					}
				}
				pos := posOf(o, s.fn.Pos())
				if !ok {
					for _, e := range evs {
						if e.Kind == "call" && !strings.HasPrefix(e.Callee, modPath) && !isServiceCallee(s, e.Callee) {
							for _, a := range e.Args {
								if partialRead(e.Event) || strip(a).Op == "call" && limits(strip(a)) {
									continue // reads a part of it at most
								}
								if hasTerm(a, isReqBody) {
									c.undecided("request-drained", s.id(name), e.Pos, "%s gets the request body", e.Callee)
									return
								}
							}
						}
					}
				}
				c.require(ok, "request-drained", s.id(name), pos, "a POST request for %s ends without draining the request body", name)
				for _, l := range rtCalls(evs, "LoadArgs") {
					if ok && l.Seq > last {
						c.fail("request-drained", s.id(name), l.Pos, "the arguments are read after the request body was drained")
					}
				}
			}
		}
		for _, m := range s.methods {
			outs, why := s.at("POST", s.endpoint+"/"+m.name)
			if why != "" {
				c.undecided("request-drained", s.id(m.name), s.fn.Pos(), "depends on %s", why)
				continue
			}
			drain(m.name, outs)
		}
		outs, _ := s.at("POST", s.endpoint+"/QzNothing")
		drain("unknown name", outs)
		c.require(n > 0, "request-drained", s.id(""), s.fn.Pos(), "no path of a POST request")
	})
}

func (c *Check) c04Generated() {
	c.eachProxy(func(s *gservice) {
		objs := outlives(s.base, s.recv)
		c.P.sharedObjs = objs
		defer func() { c.P.sharedObjs = nil }()
		for _, o := range s.runs {
			x := &effects{c: c, shared: map[string]bool{s.recv.Key(): true, paramT("service", nil).Key(): true}, objs: objs}
			x.check(s.id("ServeHTTP"), s.events(o), o.Rets)
		}
	})
	c.eachGen(func(g *genPkg) {
		for _, s := range g.services(g.tgt.tsrpc) {
			for _, k := range g.clientRuns(s) {
				objs := outlives(k.base, k.recv)
				c.P.sharedObjs = objs
				for _, o := range k.runs {
					x := &effects{c: c, shared: map[string]bool{k.recv.Key(): true, paramT("client", nil).Key(): true}, objs: objs}
					x.check(s.id("client "+k.m.name), flatten(o.St.trace[k.baseLen:]), o.Rets)
				}
				c.P.sharedObjs = nil
			}
		}
		for _, s := range g.services(g.tgt.gorpc) {
			for _, m := range s.methods {
				if f := g.method(s.name+"GoRPCClient", m.name); f != nil {
					for _, o := range g.eval(f) {
						x := &effects{c: c, shared: map[string]bool{paramT(f.Params[0].Name(), nil).Key(): true}}
						x.check(s.id("GoRPC client "+m.name), flatten(o.St.trace), o.Rets)
					}
				}
			}
			if f := g.method(s.name+"GoRPCProxy", "handler"); f != nil {
				for _, o := range g.eval(f) {
					x := &effects{c: c, shared: map[string]bool{paramT(f.Params[0].Name(), nil).Key(): true}}
					x.check(s.id("GoRPC handler"), flatten(o.St.trace), o.Rets)
				}
			}
		}
	})
}

// ---- the emitted Go client ----------------------------------------------------------------

type clientRun2 struct {
	s       *gservice
	m       *gmethod
	fn      *ssa.Function
	recv    *Term
	base    *State
	baseLen int
	runs    []*Outcome
	args    []*Term // terms of the data parameters
	ctx     *Term
}

// clientRuns evaluates every method of the HTTP client of a service as its default constructor builds it.
func (g *genPkg) clientRuns(s *gservice) []*clientRun2 {
	c := g.c
	ctor, o := g.construct("NewDefault"+s.name+"GoTSRPCClient", nil)
	if o == nil && g.tgt.skip {
		return nil
	}
	if o == nil {
		c.fail("client-exists", s.id("constructor"), 0, "no constructor NewDefault%sGoTSRPCClient(url) is emitted", s.name)
		return nil
	}
	rt := ctor.Signature.Results().At(0).Type()
	var res []*clientRun2
	for _, m := range s.methods {
		k := &clientRun2{s: s, m: m, recv: o.Rets[0], base: o.St, baseLen: len(o.St.trace)}
		k.fn = c.P.methodOf(rt, g.types, m.name)
		if k.fn == nil {
			c.fail("client-method", s.id(m.name), ctor.Pos(), "the client has no method %s", m.name)
			continue
		}
		args := []*Term{k.recv}
		for i, p := range k.fn.Params[1:] {
			t := paramT("qz:"+p.Name(), p.Type())
			args = append(args, t)
			if i == 0 {
				k.ctx = t
			} else {
				k.args = append(k.args, t)
			}
		}
		k.runs = g.evalWith(k.fn, args, o.St)
		res = append(res, k)
	}
	return res
}

var _ = fmt.Sprint

func sortedInts(m map[int64]bool) []int64 {
	var res []int64
	for n := range m {
		res = append(res, n)
	}
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	return res
}
