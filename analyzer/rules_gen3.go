package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("G03", 200, checkG03)
	register("G04", 100, checkG04)
	register("G05", 200, checkG05)
}

// ---- G03: what is exposed -----------------------------------------------------------------

// unknownNames are paths below the endpoint that are not the name of an exposed method.
func (s *gservice) unknownNames() []string {
	is := map[string]bool{}
	probes := map[string]bool{"": true}
	for _, m := range s.methods {
		is[m.name] = true
	}
	add := func(n string) {
		probes[n] = true
		probes[strings.ToUpper(n[:1])+n[1:]] = true
	}
	// everything the schematic package declares
	sc := s.g.src.Scope()
	for _, n := range sc.Names() {
		add(n)
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		if nt, ok := tn.Type().(*types.Named); ok {
			for i := 0; i < nt.NumMethods(); i++ {
				add(nt.Method(i).Name())
			}
			if it, ok := nt.Underlying().(*types.Interface); ok {
				for i := 0; i < it.NumMethods(); i++ {
					add(it.Method(i).Name())
				}
			}
		}
	}
	// everything the proxy has or compares a request with
	if nt, ok := types.Unalias(s.fn.Signature.Recv().Type()).(*types.Pointer); ok {
		ms := types.NewMethodSet(nt)
		for i := 0; i < ms.Len(); i++ {
			add(ms.At(i).Obj().Name())
		}
	}
	for _, o := range s.runs {
		for _, k := range o.St.facts.order {
			walk(o.St.facts.atoms[k], func(x *Term) bool {
				if v, ok := constStr(x); ok && len(v) < 60 {
					probes[strings.TrimPrefix(v, "/")] = true
				}
				return x.Op != "call" || !strings.HasPrefix(x.Name, modPath)
			})
		}
	}
	var res []string
	for n := range probes {
		if !is[n] {
			res = append(res, n)
		}
	}
	sort.Strings(res)
	return res
}

func checkG03(c *Check) {
	c.eachGen(func(g *genPkg) {
		for _, s := range g.services(g.tgt.tsrpc) {
			s := s
			c.section(g.in.name+" "+s.name, func() {
				if s.load() {
					s.exposedByProxy()
				}
				it := g.named(s.name + "GoTSRPCClient")
				if (it != nil || !g.tgt.skip) && c.require(it != nil && types.IsInterface(it), "client-exposes", s.id("exists"), 0, "no interface %sGoTSRPCClient is emitted", s.name) {
					for _, m := range s.methods {
						o, _, _ := types.LookupFieldOrMethod(it, false, g.types, m.name)
						f, ok := o.(*types.Func)
						if c.require(ok, "client-exposes", s.id(m.name), it.(*types.Named).Obj().Pos(), "the client interface has no method %s", m.name) {
							c.names("client-names", s.id(m.name), f, m, true)
						}
					}
					g.onlyMethods("client-exposes", s, s.name+"GoTSRPCClient", nil)
				}
				if f := g.ssa.Func("NewDefault" + s.name + "GoTSRPCClient"); f != nil {
					for _, m := range s.methods {
						if fn := c.P.methodOf(f.Signature.Results().At(0).Type(), g.types, m.name); fn != nil {
							c.names("client-names", s.id(m.name+" of the client"), fn.Object().(*types.Func), m, true)
						}
					}
				}
			})
		}
		for _, s := range g.services(g.tgt.gorpc) {
			for _, m := range s.methods {
				f := g.method(s.name+"GoRPCClient", m.name)
				if c.require(f != nil, "gorpc-exposes", s.id(m.name), 0, "the GoRPC client has no method %s", m.name) {
					c.names("gorpc-names", s.id(m.name), f.Object().(*types.Func), m, false)
				}
			}
			g.onlyMethods("gorpc-exposes", s, s.name+"GoRPCClient", []string{"Start", "Stop"})
			s.exposedByGoRPC()
		}
	})
	c.tsAgreement()
}

// exposedByProxy: a request reaches exactly the exposed methods.
func (s *gservice) exposedByProxy() {
	c := s.g.c
	for _, m := range s.methods {
		n := 0
		for _, v := range s.serve("exposed", m) {
			for _, e := range s.serviceCalls(v.evs) {
				if calledMethod(e.Callee) != m.name {
					c.fail("exposed", s.id(m.name), e.Pos, "a request for %s calls %s", m.name, calledMethod(e.Callee))
				}
			}
			if v.call == nil {
				continue
			}
			n++
			args := v.call.Args[1:]
			if m.session && len(args) > 1 {
				c.require(same(strip(args[1]), sReq()), "session-recognised", s.id(m.name), v.call.Pos, "the second argument of %s is %s, not the request", m.name, short(args[1]))
				args = args[2:]
			}
			// the arguments that travel are the declared ones, in their order
			var list []*Term
			var load *flatEv
			for _, l := range rtCalls(v.evs, "LoadArgs") {
				if l.Seq < v.call.Seq {
					l := l
					load, list = &l, c.listOf(l.Args[0], l.Event)
				}
			}
			if len(m.data) == 0 {
				c.require(len(list) == 0, "parameters", s.id(m.name), v.call.Pos, "%s has no parameters that travel, %d are read", m.name, len(list))
				continue
			}
			if !c.require(load != nil, "parameters", s.id(m.name), v.call.Pos, "%s has %d parameters that travel, none is read", m.name, len(m.data)) {
				continue
			}
			if list == nil {
				c.undecided("parameters", s.id(m.name), load.Pos, "the argument list is %s", short(load.Args[0]))
				continue
			}
			c.require(len(list) == len(m.data), "parameters", s.id(m.name), load.Pos, "%s has %d parameters that travel, %d are read", m.name, len(m.data), len(list))
			for i, a := range args {
				x := strip(a)
				what := s.id(m.name + " parameter " + itoa(i+1))
				switch {
				case x.Op == "out" && same(x.Args[0], load.Res):
					c.require(x.Name == "0."+itoa(i), "parameters", what, v.call.Pos, "parameter %d of %s is element %s of the arguments", i, m.name, strings.TrimPrefix(x.Name, "0."))
				case x.Op == "zero" || x.Op == "nil" || x.Op == "const" || same(x, sReq()) || same(x, sW()):
					c.fail("parameters", what, v.call.Pos, "parameter %d of %s is %s", i, m.name, short(x))
				default:
					c.undecided("parameters", what, v.call.Pos, "parameter %d of %s is %s", i, m.name, short(x))
				}
			}
		}
		c.require(n > 0, "exposed", s.id(m.name), s.fn.Pos(), "no request reaches %s", m.name)
	}
	for _, n := range s.unknownNames() {
		p := s.endpoint + "/" + n
		outs, why := s.at("POST", p)
		if why != "" {
			c.undecided("not-exposed", s.id(""), s.fn.Pos(), "a request for %q depends on %s", p, why)
			continue
		}
		for _, o := range outs {
			if calls := s.serviceCalls(s.events(o)); len(calls) > 0 {
				c.fail("not-exposed", s.id(n), calls[0].Pos, "a request for %q calls %s", p, calledMethod(calls[0].Callee))
			} else {
				c.ok("not-exposed", s.id(n), 0)
			}
		}
	}
}

// exposedByGoRPC: the handler of the server calls exactly the exposed methods.
func (s *gservice) exposedByGoRPC() {
	c := s.g.c
	hs := s.gorpcHandlers()
	is := map[string]bool{}
	for _, m := range s.methods {
		is[m.name] = false
	}
	for _, k := range hs {
		for _, o := range k.handle(paramT("qz:request", types.NewInterfaceType(nil, nil))) {
			for _, e := range flatten(o.St.trace[k.baseLen:]) {
				if e.Kind != "call" || !isServiceCallee(s, e.Callee) {
					continue
				}
				m := calledMethod(e.Callee)
				if _, ok := is[m]; !ok {
					c.fail("gorpc-exposes", s.id("handler "+m), e.Pos, "the GoRPC handler calls %s, which is not exposed", m)
				}
				is[m] = true
			}
		}
	}
	if len(hs) == 0 {
		return
	}
	for _, m := range s.methods {
		c.require(is[m.name], "gorpc-exposes", s.id("handler "+m.name), 0, "the GoRPC handler never calls %s", m.name)
	}
}

// names: the parameters and results of a client method have their declared names.
func (c *Check) names(rule, what string, f *types.Func, m *gmethod, ctx bool) {
	sig := f.Type().(*types.Signature)
	ps := sig.Params()
	off := 0
	if ctx && ps.Len() > 0 && isContext(ps.At(0).Type()) {
		off = 1
	}
	if c.require(ps.Len()-off == len(m.data), rule, what+" parameters", f.Pos(), "%s has %d parameters, the service method has %d that travel", m.name, ps.Len()-off, len(m.data)) {
		for i, v := range m.data {
			if n := v.Name(); n != "" && n != "_" {
				c.require(ps.At(i+off).Name() == n, rule, what+" parameter "+itoa(i+1), f.Pos(), "parameter %d of %s is named %s instead of %s", i+1, m.name, ps.At(i+off).Name(), n)
			}
		}
	}
	rs := sig.Results()
	if c.require(rs.Len() == len(m.rets)+1, rule, what+" results", f.Pos(), "%s has %d results, the service method has %d and the client error", m.name, rs.Len(), len(m.rets)) {
		for i, v := range m.rets {
			if n := v.Name(); n != "" && n != "_" {
				c.require(rs.At(i).Name() == n, rule, what+" result "+itoa(i+1), f.Pos(), "result %d of %s is named %s instead of %s", i+1, m.name, rs.At(i).Name(), n)
			}
		}
	}
}

// ---- the model that Read returns -----------------------------------------------------------

type mValue struct {
	ptr, iface bool
	builtin    string
	pkg, name  string
	elem       *mValue
	key        *mValue
	isMap      bool
	fields     []*mField
	anon       bool
}

type mField struct {
	name string
	v    *mValue
}

type mStruct struct {
	pkg, name string
	fields    []*mField
	v         *mValue // named slice or map
}

type mMethod struct {
	name       string
	args, rets []*mField
}

type mService struct {
	name, endpoint string
	methods        []*mMethod
	iface          bool
}

// model is what the reader found for a target.
type rmodel struct {
	in       *genInput
	tgt      *genTarget
	out      *pout
	services map[string]*mService
	structs  map[string]*mStruct
	scalars  map[string][2]string // package, name
	errs     bool
}

type modelReader struct {
	pe    *PE
	types map[string]types.Type
}

func (c *Check) modelReader(pe *PE) *modelReader {
	r := &modelReader{pe: pe, types: map[string]types.Type{}}
	for _, n := range []string{"Value", "Struct", "Scalar", "Field", "Method", "Service", "StructType", "Map", "Array"} {
		r.types[n] = pe.typ(modPath, n)
	}
	return r
}

func (r *modelReader) f(v any, typ, field string) any {
	x := r.pe.field(v, r.types[typ], field)
	return x
}

func (r *modelReader) s(v any, typ, field string) string {
	s, ok := r.f(v, typ, field).(string)
	if !ok {
		r.pe.undecided("%s.%s of the model is not known", typ, field)
	}
	return s
}

func (r *modelReader) b(v any, typ, field string) bool {
	s, ok := r.f(v, typ, field).(bool)
	if !ok {
		r.pe.undecided("%s.%s of the model is not known", typ, field)
	}
	return s
}

func (r *modelReader) list(v any) []any {
	switch x := v.(type) {
	case pslice:
		var res []any
		for _, e := range x.e {
			res = append(res, e.v)
		}
		return res
	case pnil:
		return nil
	}
	r.pe.undecided("a list of the model is %s", pkey(v))
	return nil
}

func (r *modelReader) fields(v any) []*mField {
	var res []*mField
	for _, f := range r.list(v) {
		res = append(res, &mField{name: r.s(f, "Field", "Name"), v: r.value(r.f(f, "Field", "Value"), 0)})
	}
	return res
}

func isPNil(v any) bool { _, ok := v.(pnil); return ok }

func (r *modelReader) value(v any, d int) *mValue {
	if isPNil(v) || d > 30 {
		return nil
	}
	m := &mValue{ptr: r.b(v, "Value", "IsPtr"), iface: r.b(v, "Value", "IsInterface")}
	m.builtin = r.s(v, "Value", "GoScalarType")
	if x := r.f(v, "Value", "Scalar"); !isPNil(x) {
		m.pkg, m.name = r.s(x, "Scalar", "Package"), r.s(x, "Scalar", "Name")
	}
	if x := r.f(v, "Value", "StructType"); !isPNil(x) {
		m.pkg, m.name = r.s(x, "StructType", "Package"), r.s(x, "StructType", "Name")
	}
	if x := r.f(v, "Value", "Array"); !isPNil(x) {
		m.elem = r.value(r.f(x, "Array", "Value"), d+1)
	}
	if x := r.f(v, "Value", "Map"); !isPNil(x) {
		m.isMap = true
		m.key, m.elem = r.value(r.f(x, "Map", "Key"), d+1), r.value(r.f(x, "Map", "Value"), d+1)
	}
	if x := r.f(v, "Value", "Struct"); !isPNil(x) {
		m.anon = true
		m.fields = append(m.fields, r.fields(r.f(x, "Struct", "Fields"))...)
		m.fields = append(m.fields, r.fields(r.f(x, "Struct", "UnionFields"))...)
	}
	return m
}

// goType is the Go type a value of the model denotes in a package.
func (m *mValue) goType(own string) string {
	if m == nil {
		return "?"
	}
	t := ""
	if m.ptr {
		t = "*"
	}
	switch {
	case m.isMap:
		return t + "map[" + m.key.goType(own) + "]" + m.elem.goType(own)
	case m.elem != nil:
		return t + "[]" + m.elem.goType(own)
	case m.anon:
		var fs []string
		for _, f := range m.fields {
			fs = append(fs, f.name+" "+f.v.goType(own))
		}
		sort.Strings(fs)
		return t + "struct{" + strings.Join(fs, "; ") + "}"
	case m.iface:
		return t + "interface{}"
	case m.name != "":
		return t + m.pkg + "." + m.name
	case m.builtin == "any":
		return t + "interface{}"
	case m.builtin == "byte":
		return t + "uint8"
	case m.builtin == "rune":
		return t + "int32"
	case m.builtin != "":
		if types.Universe.Lookup(m.builtin) == nil {
			return t + own + "." + m.builtin
		}
		return t + m.builtin
	}
	return t + "?"
}

// goTypeOf is the same for a type of the source.
func goTypeOf(t types.Type) string {
	switch x := types.Unalias(t).(type) {
	case *types.Pointer:
		return "*" + goTypeOf(x.Elem())
	case *types.Slice:
		return "[]" + goTypeOf(x.Elem())
	case *types.Map:
		return "map[" + goTypeOf(x.Key()) + "]" + goTypeOf(x.Elem())
	case *types.Named:
		if x.Obj().Pkg() == nil {
			return x.Obj().Name()
		}
		return x.Obj().Pkg().Path() + "." + x.Obj().Name()
	case *types.Basic:
		switch x.Kind() {
		case types.Byte:
			return "uint8"
		case types.Rune:
			return "int32"
		}
		return x.Name()
	case *types.Interface:
		return "interface{}"
	case *types.Struct:
		var fs []string
		for i := 0; i < x.NumFields(); i++ {
			if v := x.Field(i); v.Exported() && !v.Embedded() {
				fs = append(fs, v.Name()+" "+goTypeOf(v.Type()))
			}
		}
		sort.Strings(fs)
		return "struct{" + strings.Join(fs, "; ") + "}"
	}
	return t.String()
}

// read derives the model that the reader builds for every target of an input.
func (c *Check) read(in *genInput) []*rmodel {
	if r, ok := c.P.readCache[in]; ok {
		return r
	}
	key := fmt.Sprintf("read %p", in)
	c.P.once(key)
	defer c.P.failed(key)
	if in.goPath == "" {
		in.goPath = "/go"
	}
	var res []*rmodel
	for i := range in.targets {
		t := &in.targets[i]
		missing := map[string]any{}
		consts := map[string]any{}
		if i == 0 {
			for _, m := range in.mappings {
				for _, s := range m.structs {
					missing[s] = true
				}
				for _, s := range m.scalars {
					consts[s] = true
				}
			}
		}
		var pe0 *PE
		outs := c.explore(16, func(pe *PE) (*ssa.Function, []any) {
			pe.useGenWorld(in)
			pe0 = pe
			f := c.P.peFn("Read")
			if f == nil || f.Signature.Params().Len() != 6 {
				pe.undecided("func Read(goPaths, module, package, services, missing types, missing constants) does not exist")
			}
			svc := map[string]any{}
			for ep, n := range t.services {
				svc[ep] = n
			}
			cfg := in.conf(pe).(*pcell)
			ns := pe.field(cfg, pe.typ(modPath+"/config", "Config"), "Module")
			return f, []any{pstrs([]string{in.goPath, "/goroot"}), ns, t.pkg, pe.mkMap(svc), pe.mkMap(missing), pe.mkMap(consts)}
		})
		if len(outs) != 1 {
			panic(Undecided{fmt.Sprintf("%s: %d paths through the reader", in.name, len(outs))})
		}
		o := outs[0]
		m := &rmodel{in: in, tgt: t, out: o, services: map[string]*mService{}, structs: map[string]*mStruct{}, scalars: map[string][2]string{}}
		res = append(res, m)
		if o.kind != "ret" {
			m.errs = true
			continue
		}
		sig := c.P.peFn("Read").Signature.Results()
		r := c.modelReader(pe0)
		if len(o.rets) != sig.Len() || sig.Len() < 5 {
			panic(Undecided{"results of Read"})
		}
		if !isPNil(o.rets[sig.Len()-1]) {
			m.errs = true
			continue
		}
		for _, s := range r.list(o.rets[1]) {
			x := &mService{name: r.s(s, "Service", "Name"), endpoint: r.s(s, "Service", "Endpoint")}
			for _, y := range r.list(r.f(s, "Service", "Methods")) {
				x.methods = append(x.methods, &mMethod{name: r.s(y, "Method", "Name"), args: r.fields(r.f(y, "Method", "Args")), rets: r.fields(r.f(y, "Method", "Return"))})
			}
			m.services[x.endpoint] = x
		}
		each := func(v any, f func(k string, v any)) {
			pm, ok := v.(*pmap)
			if !ok {
				panic(Undecided{"a table of the model is " + pkey(v)})
			}
			for _, k := range pm.keys {
				if s, ok := pm.kv[k].(string); ok {
					f(s, pm.vals[k].v)
				}
			}
		}
		each(o.rets[2], func(k string, v any) {
			if isPNil(v) {
				return
			}
			x := &mStruct{pkg: r.s(v, "Struct", "Package"), name: r.s(v, "Struct", "Name")}
			for _, f := range []string{"Fields", "InlineFields", "UnionFields"} {
				x.fields = append(x.fields, r.fields(r.f(v, "Struct", f))...)
			}
			if a := r.f(v, "Struct", "Array"); !isPNil(a) {
				x.v = &mValue{elem: r.value(r.f(a, "Array", "Value"), 0)}
			}
			if a := r.f(v, "Struct", "Map"); !isPNil(a) {
				x.v = &mValue{isMap: true, key: r.value(r.f(a, "Map", "Key"), 0), elem: r.value(r.f(a, "Map", "Value"), 0)}
			}
			m.structs[k] = x
		})
		each(o.rets[3], func(k string, v any) {
			if isPNil(v) {
				return
			}
			n := r.s(v, "Scalar", "Name")
			m.scalars[k] = [2]string{r.s(v, "Scalar", "Package"), n[strings.LastIndex(n, ".")+1:]}
		})
	}
	if c.P.readCache == nil {
		c.P.readCache = map[*genInput][]*rmodel{}
	}
	c.P.readCache[in] = res
	return res
}

// eachModel calls f for the model of every target together with its type-checked source.
func (c *Check) eachModel(f func(m *rmodel, src *types.Package)) {
	for _, in := range genCases {
		in := in
		c.section("read "+in.name, func() {
			for _, m := range c.read(in) {
				m := m
				if !c.require(!m.errs, "reads", in.name+":"+m.tgt.name, 0, "reading a supported package fails") {
					continue
				}
				src, err := c.schematic(in, m.tgt.pkg)
				if err != nil {
					panic(Undecided{in.name + ": " + err.Error()})
				}
				f(m, src)
			}
		})
	}
}

// schematic type-checks a package of a schematic input without emitted code.
func (c *Check) schematic(in *genInput, pkg string) (*types.Package, error) {
	g := &genPkg{c: c, in: in}
	extra := map[string]*types.Package{}
	if err := g.foreign(pkg, extra, map[string]bool{}); err != nil {
		return nil, err
	}
	files := map[string]string{}
	for n, s := range in.pkgs[pkg] {
		if !strings.HasSuffix(n, "_test.go") {
			files[n] = s
		}
	}
	sp, err := c.P.synth(pkg, files, extra, false)
	if err != nil {
		return nil, err
	}
	return sp.Pkg, nil
}

// ---- G05: types are read and rendered ------------------------------------------------------

func checkG05(c *Check) {
	c.eachGen(func(g *genPkg) {
		for _, s := range g.services(g.tgt.tsrpc) {
			s := s
			c.section(g.in.name+" "+s.name, func() {
				it := g.named(s.name + "GoTSRPCClient")
				if (it != nil || !g.tgt.skip) && c.require(it != nil && types.IsInterface(it), "rendered", s.id("client interface"), 0, "no interface %sGoTSRPCClient is emitted", s.name) {
					for _, m := range s.methods {
						o, _, _ := types.LookupFieldOrMethod(it, false, g.types, m.name)
						if f, ok := o.(*types.Func); c.require(ok, "rendered", s.id(m.name), 0, "the client interface has no method %s", m.name) {
							c.signatureAt("rendered", s.id(m.name), f.Type().(*types.Signature), m, true, f.Pos())
						}
					}
				}
				for _, k := range g.clientRuns(s) {
					c.signature("rendered-client", s.id(k.m.name), k.fn.Signature, k.m, true, k.fn)
				}
			})
		}
		for _, s := range g.services(g.tgt.gorpc) {
			for _, m := range s.methods {
				f := g.method(s.name+"GoRPCClient", m.name)
				if c.require(f != nil, "rendered-gorpc", s.id(m.name), 0, "the GoRPC client has no method %s", m.name) {
					c.signature("rendered-gorpc", s.id(m.name), f.Signature, m, false, f)
				}
			}
		}
	})
	c.eachModel(func(m *rmodel, src *types.Package) {
		for _, ep := range sorted(m.tgt.services) {
			name := m.tgt.services[ep]
			what := m.in.name + ":" + name
			s := m.services[ep]
			if !c.require(s != nil && s.name == name, "model-service", what, 0, "the model has no service %s at %s", name, ep) {
				continue
			}
			want := map[string]*gmethod{}
			for _, x := range exposed(src, name) {
				want[x.name] = x
			}
			for _, x := range s.methods {
				w := want[x.name]
				if w == nil {
					continue // G03
				}
				cmp := func(kind string, got []*mField, tup *types.Tuple) {
					if !c.require(len(got) == tup.Len(), "model-"+kind, what+" "+x.name, 0, "the model of %s has %d %ss instead of %d", x.name, len(got), kind, tup.Len()) {
						return
					}
					for i, g := range got {
						c.sameType("model-"+kind, what+" "+x.name+" "+itoa(i+1), g.v, tup.At(i).Type(), m.tgt.pkg)
					}
				}
				cmp("parameter", x.args, w.sig.Params())
				cmp("result", x.rets, w.sig.Results())
			}
		}
		for _, k := range sorted(m.structs) {
			s := m.structs[k]
			t := findNamed(src, s.pkg, s.name)
			if t == nil || s.pkg == "time" || s.pkg == "net/http" {
				continue
			}
			what := m.in.name + ":" + k
			switch u := t.Underlying().(type) {
			case *types.Slice, *types.Map:
				if s.v == nil {
					if _, isIdent := c.declared(m.in, s.pkg, s.name); !isIdent {
						c.fail("model-type", what, 0, "the model of %s has no element type", k)
					}
					continue
				}
				c.sameType("model-type", what, s.v, u, s.pkg)
			case *types.Struct:
				byName := map[string]*types.Var{}
				for i := 0; i < u.NumFields(); i++ {
					byName[u.Field(i).Name()] = u.Field(i)
				}
				for _, f := range s.fields {
					if v := byName[f.name]; f.name != "" && v != nil {
						c.sameType("model-field", what+" "+f.name, f.v, v.Type(), s.pkg)
					}
				}
			}
		}
	})
}

// declared: whether a type is declared by the name of another type.
func (c *Check) declared(in *genInput, pkg, name string) (string, bool) {
	for _, src := range in.pkgs[pkg] {
		for _, l := range strings.Split(src, "\n") {
			f := strings.Fields(strings.TrimPrefix(strings.TrimSpace(l), "type "))
			if len(f) == 2 && f[0] == name {
				return f[1], !strings.ContainsAny(f[1], "[{*")
			}
		}
	}
	return "", false
}

func (c *Check) sameType(rule, what string, v *mValue, t types.Type, own string) {
	got, want := v.goType(own), goTypeOf(t)
	if got == want {
		c.ok(rule, what, 0)
		return
	}
	if strings.Contains(got, "?") && !strings.Contains(got, "??") && v == nil {
		c.fail(rule, what, 0, "nothing was read for the type %s", want)
		return
	}
	c.fail(rule, what, 0, "the type %s was read as %s", want, got)
}

// findNamed finds a type of a package or its imports.
func findNamed(p *types.Package, pkg, name string) *types.Named {
	seen := map[*types.Package]bool{}
	var find func(p *types.Package) *types.Named
	find = func(p *types.Package) *types.Named {
		if p == nil || seen[p] {
			return nil
		}
		seen[p] = true
		if p.Path() == pkg {
			if tn, ok := p.Scope().Lookup(name).(*types.TypeName); ok {
				n, _ := tn.Type().(*types.Named)
				return n
			}
			return nil
		}
		for _, q := range p.Imports() {
			if r := find(q); r != nil {
				return r
			}
		}
		return nil
	}
	return find(p)
}

// ---- G04: reachable types -----------------------------------------------------------------

// reached are the named types that can be reached from the services of a target and
// the configured types, by the edges that decide the encoding.
func (m *rmodel) reached(src *types.Package, configured bool) map[string]string {
	res := map[string]string{}
	var walk func(t types.Type, via string)
	walk = func(t types.Type, via string) {
		switch x := types.Unalias(t).(type) {
		case *types.Pointer:
			walk(x.Elem(), via+" pointer")
		case *types.Slice:
			walk(x.Elem(), via+" element")
		case *types.Map:
			walk(x.Key(), via+" key")
			walk(x.Elem(), via+" value")
		case *types.Struct:
			for i := 0; i < x.NumFields(); i++ {
				v, tag := x.Field(i), tagsOf(x.Tag(i))
				if tag.ignore || !v.Exported() && !v.Embedded() || v.Embedded() && !tag.inline {
					continue
				}
				walk(v.Type(), via+" field "+v.Name())
			}
		case *types.Named:
			if x.Obj().Pkg() == nil || x.Obj().Pkg().Path() == "net/http" && (x.Obj().Name() == "Request" || x.Obj().Name() == "ResponseWriter") {
				return
			}
			n := x.Obj().Pkg().Path() + "." + x.Obj().Name()
			if !x.Obj().Exported() || res[n] != "" {
				return
			}
			res[n] = via
			if !isTime(x) {
				walk(x.Underlying(), n)
			}
		}
	}
	for _, ep := range sorted(m.tgt.services) {
		for _, x := range exposed(src, m.tgt.services[ep]) {
			for i := 0; i < x.sig.Params().Len(); i++ {
				walk(x.sig.Params().At(i).Type(), x.name+" parameter "+itoa(i+1))
			}
			for i := 0; i < x.sig.Results().Len(); i++ {
				walk(x.sig.Results().At(i).Type(), x.name+" result "+itoa(i+1))
			}
		}
	}
	if configured {
		for _, p := range sorted(m.in.mappings) {
			for _, n := range m.in.mappings[p].structs {
				i := strings.LastIndex(n, ".")
				if t := findNamed(src, n[:i], n[i+1:]); t != nil {
					walk(t, "configuration")
				} else {
					res[n] = "configuration"
				}
			}
		}
	}
	return res
}

func checkG04(c *Check) {
	c.eachModel(func(m *rmodel, src *types.Package) {
		first := &m.in.targets[0] == m.tgt
		want := m.reached(src, first)
		for _, n := range sorted(want) {
			_, isStruct := m.structs[n]
			_, isScalar := m.scalars[n]
			what := m.in.name + ":" + m.tgt.name + " " + n
			if !c.require(isStruct || isScalar, "collected", what, 0, "%s is reachable (%s) and not collected", n, want[n]) {
				continue
			}
			c.require(!(isStruct && isScalar), "collected-once", what, 0, "%s is collected as two types", n)
			i := strings.LastIndex(n, ".")
			if s := m.structs[n]; s != nil {
				c.require(s.pkg == n[:i] && s.name == n[i+1:], "declaring-package", what, 0, "%s is collected from %s.%s", n, s.pkg, s.name)
			}
			if s, ok := m.scalars[n]; ok {
				c.require(s[0] == n[:i] && s[1] == n[i+1:], "declaring-package", what, 0, "%s is collected from %s.%s", n, s[0], s[1])
			}
			t := findNamed(src, n[:i], n[i+1:])
			if t == nil || n[:i] == "time" {
				continue
			}
			// struct types are collected as structs with their fields
			if u, ok := t.Underlying().(*types.Struct); ok && isStruct {
				if _, other := c.declared(m.in, n[:i], n[i+1:]); other {
					continue
				}
				have := map[string]bool{}
				for _, f := range m.structs[n].fields {
					have[f.name] = true
				}
				for j := 0; j < u.NumFields(); j++ {
					v, tag := u.Field(j), tagsOf(u.Tag(j))
					if v.Exported() && !v.Embedded() && !tag.ignore {
						c.require(have[v.Name()], "collected-fields", what+" "+v.Name(), 0, "field %s of %s was not read", v.Name(), n)
					}
				}
			}
		}
		for n, s := range m.structs {
			if findNamed(src, s.pkg, s.name) == nil && want[n] == "" && m.in.pkgs[s.pkg] == nil {
				c.fail("declaring-package", m.in.name+":"+n, 0, "%s is collected from %s.%s, which does not exist", n, s.pkg, s.name)
			}
		}
	})
	for _, b := range genGone() {
		b := b
		c.section(b.name, func() { c.mustReport(b, "unresolved-reported", b.says) })
	}
}

// mustReport: the run for an input ends with a status other than 0 after the reason was printed.
func (c *Check) mustReport(in *genInput, rule, reason string) {
	for _, o := range c.generate(in, 256) {
		if o.kind == "panic" {
			c.fail(rule, in.name, o.pos, "the generator panics: %s", o.reason())
			continue
		}
		if !c.require(o.kind == "exit", rule, in.name, o.pos, "the generator ends normally%s", under2(o)) {
			continue
		}
		code, ok := o.rets[0].(int64)
		if !ok {
			c.undecided(rule, in.name, o.pos, "the exit status is %s", pkey(o.rets[0]))
			continue
		}
		c.require(code != 0, rule, in.name, o.pos, "the generator exits with status 0%s", under2(o))
		said, any := false, false
		for _, e := range o.trace {
			if strings.HasPrefix(e.name, "fmt.") || strings.HasPrefix(e.name, "log.") || strings.HasSuffix(e.name, ".WriteString") {
				any = any || len(e.args) > 0
				said = said || strings.Contains(pkey(ptuple(e.args)), reason)
			}
		}
		c.require(any, rule+"-printed", in.name, o.pos, "the generator prints nothing before it exits with status %d", code)
		if reason != "" && any && !said {
			c.fail(rule+"-printed", in.name, o.pos, "the generator exits with status %d without printing %s", code, reason)
		}
	}
}

func under2(o *genOut) string {
	if len(o.conds) == 0 {
		return ""
	}
	var s []string
	for _, d := range o.conds {
		s = append(s, d.key+" = "+strconv.FormatBool(d.val))
	}
	return " when " + strings.Join(s, ", ")
}

// genGone are inputs with a type that is declared nowhere, at every kind of position.
func genGone() []*genInput {
	var res []*genInput
	mk := func(name, params, results, decls string) *genInput {
		in := &genInput{
			name: "gone:" + name, modName: acme, modDir: acmeDir, says: "QzGone",
			pkgs: map[string]map[string]string{
				acme + "/lone":  {"lone.go": "package lone\n\nimport \"example.com/acme/other\"\n\ntype QzLone struct{}\n\nfunc (l *QzLone) QzKnown(qzA QzHere, qzB other.QzThere)\n\nfunc (l *QzLone) QzDo(" + params + ") (" + results + ")\n\ntype QzHere struct {\n\tQzX string\n}\n\n" + decls + "\n"},
				acme + "/other": {"other.go": "package other\n\ntype QzThere struct {\n\tQzX string\n}\n\ntype QzFar struct {\n\tQzX QzGoneFar\n}\n"},
				"net/http":      {"http.go": srcHTTP},
				"time":          {"time.go": srcTime},
			},
			mappings: map[string]genMapping{acme + "/lone": {out: "/ts/lone.ts"}, acme + "/other": {out: "/ts/other.ts"}},
			targets:  []genTarget{{name: "qztarget", pkg: acme + "/lone", services: map[string]string{"/qz/lone": "QzLone"}, out: "/ts/client.ts", gorpc: []string{"QzLone"}, tsrpc: []string{"QzLone"}}},
		}
		res = append(res, in)
		return in
	}
	shapes := map[string]string{"": "%s", " pointer": "*%s", " slice": "[]%s", " slice of pointers": "[]*%s", " nested slice": "[][]%s", " map key": "map[%s]string", " map value": "map[string]%s", " map value pointer": "map[string]*%s", " slice of maps": "[]map[string]%s", " map of maps": "map[string]map[string]%s", " map of slices": "map[string][]%s"}
	for n, f := range shapes {
		for _, t := range []string{"QzGone", "other.QzGone"} {
			x := fmt.Sprintf(f, t)
			where := ""
			if strings.HasPrefix(t, "other") {
				where = " elsewhere"
			}
			mk("parameter"+n+where, "qzA string, qzB "+x, "", "")
			mk("result"+n+where, "qzA string", "qzB string, qzC "+x, "")
			mk("field"+n+where, "qzA QzHolder", "", "type QzHolder struct {\n\tQzX string\n\tQzY "+x+"\n}")
			mk("anonymous field"+n+where, "qzA QzHolder", "", "type QzHolder struct {\n\tQzX struct {\n\t\tQzY "+x+"\n\t}\n}")
			mk("optional field"+n+where, "qzA string", "qzB []*QzHolder", "type QzHolder struct {\n\tQzX string\n\tQzY "+x+" `json:\"y,omitempty\"`\n}")
		}
	}
	for _, t := range []string{"QzGone", "other.QzGone"} {
		mk("inline field "+t, "qzA QzHolder", "", "type QzHolder struct {\n\tQzX string\n\t"+t+" `json:\",inline\"`\n}")
		mk("inline pointer "+t, "qzA QzHolder", "", "type QzHolder struct {\n\tQzX string\n\t*"+t+" `json:\",inline\"`\n}")
		mk("union field "+t, "qzA QzHolder", "", "type QzHolder struct {\n\tQzX *QzHere `json:\"x,omitempty\" gotsrpc:\"union\"`\n\tQzY *"+t+" `json:\"y,omitempty\" gotsrpc:\"union\"`\n}")
		mk("named slice "+t, "qzA QzList", "", "type QzList []"+t)
		mk("named map "+t, "qzA QzTable", "", "type QzTable map[string]"+t)
		mk("named map key "+t, "qzA QzTable", "", "type QzTable map["+t+"]string")
		mk("deep "+t, "qzA QzOne", "", "type QzOne struct {\n\tQzX []QzTwo\n}\n\ntype QzTwo struct {\n\tQzX map[string]*QzThree\n}\n\ntype QzThree struct {\n\tQzBack *QzOne\n\tQzX "+t+"\n}")
	}
	mk("through another package", "qzA other.QzFar", "", "")
	in := mk("other package does not exist", "qzA QzHolder", "", "type QzHolder struct {\n\tQzX string\n\tQzY missing.QzGone\n}")
	in.pkgs[acme+"/lone"]["lone.go"] = strings.Replace(in.pkgs[acme+"/lone"]["lone.go"], "import \"", "import \"example.com/acme/missing\"\n\nimport \"", 1)
	in.says = "acme/missing"
	in.mappings[acme+"/missing"] = genMapping{out: "/ts/missing.ts"}
	in = mk("configured type", "qzA string", "", "")
	in.mappings[acme+"/other"] = genMapping{out: "/ts/other.ts", structs: []string{acme + "/other.QzThere", acme + "/other.QzGone"}}
	in = mk("configured type of another package", "qzA string", "", "")
	in.mappings[acme+"/other"] = genMapping{out: "/ts/other.ts", structs: []string{acme + "/nowhere.QzGone"}}
	in.says = "acme/nowhere"
	in = mk("configured constants", "qzA string", "", "")
	in.mappings[acme+"/other"] = genMapping{out: "/ts/other.ts", scalars: []string{acme + "/other.QzGone"}}
	in = mk("configured constants of the service package", "qzA string", "", "type QzKnownKind string\n\nconst QzKnownKindA QzKnownKind = \"a\"")
	in.mappings[acme+"/lone"] = genMapping{out: "/ts/lone.ts", scalars: []string{acme + "/lone.QzKnownKind", acme + "/lone.QzGone"}}
	// a type that is declared only in a test file
	in = mk("test file", "qzA QzGone", "", "")
	in.pkgs[acme+"/lone"]["lone_test.go"] = "package lone\n\ntype QzGone struct {\n\tQzX string\n}\n"
	// a type of the same name in another package
	in = mk("same name elsewhere", "qzA QzGone", "", "")
	in.pkgs[acme+"/other"]["gone.go"] = "package other\n\ntype QzGone struct {\n\tQzX string\n}\n"
	return res
}

// genUnmapped are inputs that need a declaration in a TypeScript module of a package without mapping.
func genUnmapped() []*genInput {
	var res []*genInput
	other := "package other\n\ntype QzThere struct {\n\tQzX string\n}\n\ntype QzKind string\n\nconst (\n\tQzKindA QzKind = \"a\"\n)\n\ntype QzList []string\n\ntype QzTable map[string]string\n\ntype QzPlain int\n"
	mk := func(name, params, results, decls string) *genInput {
		in := &genInput{
			name: "unmapped:" + name, modName: acme, modDir: acmeDir, says: acme + "/other",
			pkgs: map[string]map[string]string{
				acme + "/lone":  {"lone.go": "package lone\n\nimport \"example.com/acme/other\"\n\ntype QzLone struct{}\n\nfunc (l *QzLone) QzKnown(qzA QzHere)\n\nfunc (l *QzLone) QzDo(" + params + ") (" + results + ")\n\ntype QzHere struct {\n\tQzX string\n}\n\n" + decls + "\n"},
				acme + "/other": {"other.go": other},
				"net/http":      {"http.go": srcHTTP},
				"time":          {"time.go": srcTime},
			},
			mappings: map[string]genMapping{acme + "/lone": {out: "/ts/lone.ts"}},
			targets:  []genTarget{{name: "qztarget", pkg: acme + "/lone", services: map[string]string{"/qz/lone": "QzLone"}, out: "/ts/client.ts", gorpc: []string{"QzLone"}, tsrpc: []string{"QzLone"}}},
		}
		res = append(res, in)
		return in
	}
	for _, t := range []string{"QzThere", "QzKind", "QzList", "QzTable", "QzPlain"} {
		mk(t+" parameter", "qzA other."+t, "", "")
		mk(t+" result", "", "qzA *other."+t, "")
		mk(t+" element", "qzA []other."+t, "", "")
		mk(t+" value", "qzA map[string]other."+t, "", "")
		mk(t+" field", "qzA QzHolder", "", "type QzHolder struct {\n\tQzX other."+t+" `json:\"x\"`\n}")
		mk(t+" optional", "qzA QzHolder", "", "type QzHolder struct {\n\tQzX *other."+t+" `json:\"x,omitempty\"`\n}")
	}
	mk("key", "qzA map[other.QzKind]string", "", "")
	mk("inline", "qzA QzHolder", "", "type QzHolder struct {\n\tQzX string\n\tother.QzThere `json:\",inline\"`\n}")
	mk("union", "qzA QzHolder", "", "type QzHolder struct {\n\tQzX *QzHere `json:\"x,omitempty\" gotsrpc:\"union\"`\n\tQzY *other.QzThere `json:\"y,omitempty\" gotsrpc:\"union\"`\n}")
	in := mk("the service package itself", "qzA QzHere", "", "")
	in.says = acme + "/lone"
	in.mappings = map[string]genMapping{acme + "/other": {out: "/ts/other.ts"}}
	return res
}
