package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("T03", 7, checkT03)
	register("T04", 6, checkT04)
	register("T05", 8, checkT05)
	register("T06", 6, checkT06)
}

// promoted finds the address of a (possibly promoted) field of the struct p points to.
func promoted(p *Term, field string) (*Term, types.Type) {
	t := elemType(p.Typ)
	if t == nil {
		return nil, nil
	}
	type item struct {
		a *Term
		t types.Type
	}
	level := []item{{p, t}}
	for depth := 0; depth < 6 && len(level) > 0; depth++ {
		var next []item
		for _, it := range level {
			st, ok := it.t.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				a := mk("fieldaddr", f.Name(), types.NewPointer(f.Type()), it.a)
				if f.Name() == field {
					return a, f.Type()
				}
				if f.Embedded() {
					next = append(next, item{a, f.Type()})
				}
			}
		}
		level = next
	}
	return nil, nil
}

// codecSite is a use of a codec handle.
type codecSite struct {
	where  string
	e      flatEv
	handle *Term
	kind   string
	o      *Outcome
}

// codecSites lists every encoding and decoding of the runtime.
func (c *Check) codecSites() []codecSite {
	var res []codecSite
	add := func(where string, o *Outcome, evs []flatEv) {
		for _, e := range find(evs, append(append([]string{}, encodeNames...), decodeNames...)...) {
			h := handleUsed(e.Event)
			if h == nil {
				continue
			}
			res = append(res, codecSite{where, e, h, c.encodingOf(h, o.St.facts), o})
		}
	}
	for _, r := range c.clientRuns(true) {
		add("Client.Call", r.o, r.evs)
	}
	if f, outs := c.replyRoot(); f != nil {
		for _, o := range outs {
			add("Reply", o, flatten(o.St.trace))
		}
	}
	if f, outs := c.loadRoot(); f != nil {
		for _, o := range outs {
			add("LoadArgs", o, flatten(o.St.trace))
		}
	}
	return res
}

func isTimeType(t *Term) bool {
	if t.Op != "call" {
		return false
	}
	if t.Name == "reflect.TypeFor[time.Time]" {
		return true
	}
	if t.Name == "reflect.TypeOf" && len(t.Args) == 1 {
		x := t.Args[0]
		return x.Op == "iface" && typeName(x.Typ) == "time.Time"
	}
	if t.Name == "(reflect.Type).Elem" && t.Args[0].Op == "call" && t.Args[0].Name == "reflect.TypeOf" {
		x := t.Args[0].Args[0]
		return x.Op == "iface" && typeName(x.Typ) == "*time.Time"
	}
	return false
}

// registrations of extensions during initialisation.
func (c *Check) registrations(h *Term) []*Event {
	var res []*Event
	for _, e := range flatten(c.P.initTrace) {
		if e.Kind == "call" && strings.HasSuffix(e.Callee, ").SetInterfaceExt") && len(e.Args) == 4 && same(strip(e.Args[0]), h) && len(e.Loop) == 0 {
			res = append(res, e.Event)
		}
	}
	return res
}

func checkT03(c *Check) {
	sites := c.codecSites()
	c.require(len(sites) > 0, "codec-sites", "runtime", 0, "nothing is encoded or decoded")
	done := map[string]bool{}
	for _, s := range sites {
		k := s.where + s.e.Callee + s.handle.Key()
		if done[k] {
			continue
		}
		done[k] = true
		cons := s.where + " " + trimCallee(s.e.Callee) + " " + s.kind
		opt := func(field string, want string, ok func(*Term) bool) {
			a, t := promoted(s.handle, field)
			if a == nil {
				c.undecided("handle-configuration", cons+" "+field, s.e.Pos, "the handle %s has no option %s", short(s.handle), field)
				return
			}
			v := c.loadIn(s.e.Heap, nil, a, t)
			if ok(v) {
				c.ok("handle-configuration", cons+" "+field, s.e.Pos)
				return
			}
			if opaqueTerm(v) || v.Op == "glob" || v.Op == "load" {
				c.undecided("handle-configuration", cons+" "+field, s.e.Pos, "the option %s is %s", field, short(v))
				return
			}
			c.fail("handle-configuration", cons+" "+field, s.e.Pos, "the handle used here has %s = %s instead of %s", field, short(v), want)
		}
		isTrue := func(v *Term) bool { b, ok := constBool(v); return ok && b }
		isFalse := func(v *Term) bool { b, ok := constBool(v); return ok && !b || v.Op == "zero" }
		switch s.kind {
		case "json":
			opt("MapKeyAsString", "true", isTrue)
			opt("TimeNotBuiltin", "true", isTrue)
			opt("PreferFloat", "false", isFalse)
			opt("HTMLCharsAsIs", "any", func(*Term) bool { return true })
			regs := c.registrations(s.handle)
			n := 0
			for _, r := range regs {
				if !isTimeType(canonTerm(r.Args[1])) {
					continue
				}
				n++
				c.t03Ext(cons, r)
			}
			c.require(n > 0, "time-extension-registered", cons, s.e.Pos, "no extension for time.Time is registered on the JSON handle used here")
			c.require(n <= 1, "time-extension-registered", cons, s.e.Pos, "%d extensions for time.Time are registered", n)
		case "msgpack":
			opt("MapType", "map[string]interface{}", func(v *Term) bool {
				v = strip(canonTerm(v))
				if v.Op != "call" {
					return false
				}
				if v.Name == "reflect.TypeFor[map[string]interface{}]" || v.Name == "reflect.TypeFor[map[string]any]" {
					return true
				}
				return v.Name == "reflect.TypeOf" && v.Args[0].Op == "iface" && typeName(v.Args[0].Typ) == "map[string]interface{}"
			})
			opt("RawToString", "true", isTrue)
		default:
			c.undecided("handle-configuration", cons, s.e.Pos, "unknown handle %s", short(s.handle))
		}
		// times directly in an interface slot
		if s.kind == "json" && isCallTo(s.e.Event, encodeNames...) {
			v := s.e.Args[1]
			x := strip(v)
			t := v.Typ
			if v.Op == "iface" {
				t = v.Typ
			}
			if x.Typ != nil && t == nil {
				t = x.Typ
			}
			if t == nil {
				continue
			}
			if sl, ok := t.Underlying().(*types.Slice); ok && types.IsInterface(sl.Elem()) {
				c.require(!plainElements(x), "time-in-interface-slot", s.where, s.e.Pos, "the values are encoded from interface slots: for a time.Time directly in a slot the codec uses its builtin text format, not the registered extension")
			}
		}
	}
}

// plainElements: the list holds elements of an input unchanged.
func plainElements(x *Term) bool {
	switch x.Op {
	case "param", "clone", "fld":
		return true
	case "list":
		for _, a := range x.Args {
			if a.Op == "spread" && plainElements(a.Args[0]) {
				return true
			}
			if a.Op == "star" {
				for _, alt := range a.Alts {
					for _, it := range alt.Items {
						if strip(it).Op == "elem" && !condExcludesTime(alt.Cond) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// condExcludesTime: the alternative is not taken for time values.
func condExcludesTime(f *Form) bool {
	hit := false
	f.walk(func(t *Term) bool {
		if t.Op == "is" && strings.Contains(t.Name, "time.Time") {
			hit = true
		}
		return true
	})
	return hit
}

// t03Ext decides the conversions of a registered time extension.
func (c *Check) t03Ext(cons string, reg *Event) {
	x := reg.Args[3]
	if x.Op != "iface" {
		c.undecided("time-conversion", cons, reg.Pos, "the extension is %s", short(x))
		return
	}
	conv := c.P.methodOf(x.Typ, c.P.root.Pkg, "ConvertExt")
	upd := c.P.methodOf(x.Typ, c.P.root.Pkg, "UpdateExt")
	if conv == nil || upd == nil || len(conv.Blocks) == 0 || len(upd.Blocks) == 0 {
		c.undecided("time-conversion", cons, reg.Pos, "the extension %s is not defined here", typeName(x.Typ))
		return
	}
	v := mk("param", "v", conv.Params[1].Type())
	isPtr := mkIs(v, types.NewPointer(c.timeType()))
	outs := c.rootWith(conv, []*Term{x.Args[0], v}, nil, nil)
	ptrVal := mk("deref", "", c.timeType(), mk("as", "", nil, v))
	_ = ptrVal
	n := 0
	for _, o := range outs {
		u := under(o, func(t *Term) *Term {
			t = canon(t)
			if same(t, isPtr) {
				return boolTerm(true)
			}
			return t
		})
		if u == nil {
			continue
		}
		n++
		pos := posOf(o, conv.Pos())
		if u.Kind != "ret" {
			c.fail("time-encoded-as-milliseconds", trimCallee(fnName(conv)), pos, "converting a time panics")
			continue
		}
		r := u.Rets[0]
		t := r.Typ
		if r.Op != "iface" || t == nil {
			c.undecided("time-encoded-as-milliseconds", trimCallee(fnName(conv)), pos, "a time is converted to %s", short(r))
			continue
		}
		ms, ok := millisOf(r.Args[0], v)
		switch {
		case !ok:
			if opaqueTerm(r) {
				c.undecided("time-encoded-as-milliseconds", trimCallee(fnName(conv)), pos, "a time is converted to %s", short(r))
			} else {
				c.fail("time-encoded-as-milliseconds", trimCallee(fnName(conv)), pos, "a time is converted to %s, not to its milliseconds since the epoch", short(r))
			}
		case !isIntType(t):
			c.fail("time-encoded-as-milliseconds", trimCallee(fnName(conv)), pos, "milliseconds are encoded as %s, not as an integer", typeName(t))
		default:
			_ = ms
			c.ok("time-encoded-as-milliseconds", trimCallee(fnName(conv)), pos)
		}
	}
	if n == 0 {
		c.fail("time-encoded-as-milliseconds", trimCallee(fnName(conv)), conv.Pos(), "a *time.Time, as handed over by the codec, is not converted")
	}
	// decoding
	d, s := mk("param", "dest", upd.Params[1].Type()), mk("param", "src", upd.Params[2].Type())
	isD, isI := mkIs(d, types.NewPointer(c.timeType())), mkIs(s, types.Typ[types.Int64])
	n = 0
	for _, o := range c.rootWith(upd, []*Term{x.Args[0], d, s}, nil, nil) {
		u := under(o, func(t *Term) *Term {
			t = canon(t)
			if same(t, isD) || same(t, isI) {
				return boolTerm(true)
			}
			return t
		})
		if u == nil {
			continue
		}
		n++
		pos := posOf(o, upd.Pos())
		name := trimCallee(fnName(upd))
		if u.Kind != "ret" {
			c.fail("time-decoded-from-milliseconds", name, pos, "decoding an integer panics")
			continue
		}
		var val *Term
		for _, e := range flatten(u.St.trace) {
			if e.Kind == "store" {
				if same(stripAs(e.Args[0]), d) {
					val = e.Args[1]
				}
			}
		}
		if val == nil {
			c.fail("time-decoded-from-milliseconds", name, pos, "the destination is not set")
			continue
		}
		if fromMillis(val, s) {
			c.ok("time-decoded-from-milliseconds", name, pos)
		} else if opaqueTerm(val) {
			c.undecided("time-decoded-from-milliseconds", name, pos, "the time becomes %s", short(val))
		} else {
			c.fail("time-decoded-from-milliseconds", name, pos, "the time becomes %s, not the instant of the milliseconds that were sent", short(val))
		}
	}
	if n == 0 {
		c.fail("time-decoded-from-milliseconds", trimCallee(fnName(upd)), upd.Pos(), "an int64, as handed over by the codec, is not converted")
	}
}

func (c *Check) timeType() types.Type {
	for _, imp := range c.P.root.Pkg.Imports() {
		if imp.Path() == "time" {
			return imp.Scope().Lookup("Time").Type()
		}
	}
	return nil
}

// instant strips conversions that keep the instant.
func instant(t *Term) *Term {
	t = strip(t)
	for t.Op == "call" && len(t.Args) > 0 {
		switch t.Name {
		case "(time.Time).Local", "(time.Time).UTC", "(time.Time).In":
			t = strip(t.Args[0])
			continue
		case "(time.Time).Round", "(time.Time).Truncate":
			if n, ok := constInt(t.Args[1]); ok && n == 0 {
				t = strip(t.Args[0])
				continue
			}
		}
		break
	}
	return t
}

// isInput: the term is the value (or what the pointer in it points to) of v.
func isInput(t, v *Term) bool {
	t = instant(t)
	for t.Op == "deref" || t.Op == "as" || t.Op == "conv" {
		t = strip(t.Args[0])
	}
	return same(t, v)
}

// millisOf: t is exactly the number of milliseconds of the time v.
func millisOf(t, v *Term) (*Term, bool) {
	t = strip(t)
	for t.Op == "conv" && isIntType(t.Typ) && bits64(t.Typ) {
		t = strip(t.Args[0])
	}
	if t.Op == "call" && t.Name == "(time.Time).UnixMilli" && isInput(t.Args[0], v) {
		return t, true
	}
	// seconds*1000 + nanoseconds/1000000
	if t.Op == "add" && len(t.Args) == 2 {
		for i := range t.Args {
			x, ok := factor(t.Args[i], "*", 1000)
			y, ok2 := factor(t.Args[1-i], "/", 1000000)
			if ok && ok2 && x.Op == "call" && y.Op == "call" && x.Name == "(time.Time).Unix" && y.Name == "(time.Time).Nanosecond" && isInput(x.Args[0], v) && isInput(y.Args[0], v) {
				return t, true
			}
		}
	}
	return nil, false
}

// factor: t is x op n (converted in 64 bits).
func factor(t *Term, op string, n int64) (*Term, bool) {
	plain := func(t *Term) *Term {
		t = strip(t)
		for t.Op == "conv" && isIntType(t.Typ) && bits64(t.Typ) {
			t = strip(t.Args[0])
		}
		return t
	}
	t = plain(t)
	if t.Op != "bin" || t.Name != op {
		return nil, false
	}
	for i := range t.Args {
		if isInt(strip(t.Args[i]), n) && (op == "*" || i == 1) {
			return plain(t.Args[1-i]), true
		}
	}
	return nil, false
}

func bits64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int64 || b.Kind() == types.Int || b.Kind() == types.Uint64)
}

func fromMillis(t, s *Term) bool {
	t = instant(t)
	if t.Op == "call" && t.Name == "time.Unix" {
		// seconds and the remaining milliseconds as nanoseconds
		sec, ns := strip(t.Args[0]), strip(t.Args[1])
		if sec.Op == "bin" && sec.Name == "/" && isInput(sec.Args[0], s) && isInt(sec.Args[1], 1000) && ns.Op == "bin" && ns.Name == "*" {
			a, b := strip(ns.Args[0]), ns.Args[1]
			if a.Op == "const" {
				a, b = strip(b), a
			}
			return isInt(b, 1000000) && a.Op == "bin" && a.Name == "%" && isInput(a.Args[0], s) && isInt(a.Args[1], 1000)
		}
		return false
	}
	return t.Op == "call" && t.Name == "time.UnixMilli" && isInput(t.Args[0], s)
}

// ---- T04 ------------------------------------------------------------------------------

func checkT04(c *Check) {
	reg := c.need("", "RegisterUnionExt")
	must := c.need("", "MustRegisterUnionExt")
	if !c.require(reg != nil && must != nil && len(reg.Params) == 1 && len(must.Params) == 1, "functions-exist", "RegisterUnionExt MustRegisterUnionExt", 0, "the exported registration functions are missing") {
		return
	}
	p := mk("param", "0", reg.Params[0].Type())
	var ext *Term
	var handle *Term
	for _, s := range c.codecSites() {
		if s.kind == "json" {
			handle = s.handle
		}
	}
	isReg := func(e *Event) bool { return e.Kind == "call" && strings.HasSuffix(e.Callee, ").SetInterfaceExt") }
	succ, failures := 0, 0
	for _, pair := range []struct {
		name string
		f    *ssa.Function
		must bool
	}{{"RegisterUnionExt", reg, false}, {"MustRegisterUnionExt", must, true}} {
		outs := c.root(pair.f)
		if !pair.must {
			outs = splitNil(outs, 0)
		}
		for _, o := range outs {
			pos := posOf(o, pair.f.Pos())
			evs := flatten(o.St.trace)
			var regs []flatEv
			for _, e := range evs {
				if isReg(e.Event) {
					regs = append(regs, e)
					ext = e.Args[3]
					c.require(handle == nil || same(strip(e.Args[0]), handle), "registered-for-json", pair.name, e.Pos, "the union is registered on %s, not on the JSON handle that is used", short(e.Args[0]))
					el := canonTerm(e.Args[1])
					c.require(el.Op == "call" && el.Name == "reflect.TypeOf" && isElemOf(el.Args[0], p), "registered-types", pair.name, e.Pos, "the extension is registered for %s, not for the type of the given value", short(el))
				}
			}
			var failing []flatEv
			for _, e := range regs {
				if nilness(o.St.facts, e.Res) == -1 {
					failing = append(failing, e)
				}
			}
			success := o.Kind == "ret" && (pair.must || nilness(o.St.facts, o.Rets[0]) == 1)
			if success {
				succ++
				for _, e := range o.St.trace {
					if e.Kind == "loop" && e.Callee == "prefix" && mentions(e.Args[0], p) {
						c.fail("every-type-registered", pair.name, pos, "success before all types were registered")
					}
				}
				c.require(len(failing) == 0, "first-failure-reported", pair.name, pos, "success although a registration failed")
				for _, e := range o.St.trace {
					if e.Kind == "loop" && e.Callee == "each" && same(strip(e.Args[0]), p) {
						c.t04Skipped(pair.name, e, isReg)
					}
				}
				each := false
				for _, e := range regs {
					if len(e.Loop) == 1 && same(strip(e.Loop[0]), p) {
						ff := o.St.facts.clone()
						for _, cd := range e.Cond {
							ff.add(cd)
						}
						c.require(nilness(ff, e.Res) == 1, "first-failure-reported", pair.name, e.Pos, "success although the error of a registration was not checked")
						each = true
					}
				}
				if !each {
					if em, known := o.St.facts.eval(formOf(mkEmpty(p))); known && em {
						continue
					}
					if hasLoop(evs) {
						c.undecided("every-type-registered", pair.name, pos, "the registration loop is not recognised")
					} else {
						c.fail("every-type-registered", pair.name, pos, "success without registering the given types")
					}
				} else {
					c.ok("every-type-registered", pair.name, pos)
				}
				continue
			}
			failures++
			if o.Kind == "panic" && !pair.must {
				c.fail("first-failure-reported", pair.name, pos, "registering panics instead of returning the error")
				continue
			}
			var got *Term
			if o.Kind == "panic" {
				for _, e := range evs {
					if e.Kind == "panic" && len(e.Args) > 0 {
						got = e.Args[0]
					}
				}
			} else {
				got = o.Rets[0]
			}
			if got == nil || len(failing) == 0 {
				continue
			}
			chain := c.errChain(o, got)
			c.require(inChain(chain, failing[0].Res) || mentions(got, failing[0].Res), "first-failure-reported", pair.name, pos, "a failed registration is reported as %s", short(got))
		}
	}
	c.require(succ > 0 && failures > 0, "first-failure-reported", "both outcomes", reg.Pos(), "registration does not both succeed and fail")
	if ext == nil || ext.Op != "iface" {
		c.undecided("first-set-member", "union extension", reg.Pos(), "no extension is registered")
		return
	}
	conv := c.P.methodOf(ext.Typ, c.P.root.Pkg, "ConvertExt")
	upd := c.P.methodOf(ext.Typ, c.P.root.Pkg, "UpdateExt")
	if conv == nil || len(conv.Blocks) == 0 {
		c.undecided("first-set-member", "union extension", reg.Pos(), "the extension %s is not defined here", typeName(ext.Typ))
		return
	}
	c.t04Convert(conv)
	c.t04Generated()
	c.t04Update(upd)
}

// t04Skipped looks for elements that the registration loop leaves out.
func (c *Check) t04Skipped(name string, loop *Event, isReg func(*Event) bool) {
	var keys, regs []flatEv
	for _, a := range loop.Alts {
		for _, e := range flatten(a.Trace) {
			if e.Kind == "mapset" {
				keys = append(keys, e)
			}
			if isReg(e.Event) {
				regs = append(regs, e)
			}
		}
	}
	if len(regs) == 0 {
		return
	}
	for _, a := range loop.Alts {
		has := false
		for _, e := range flatten(a.Trace) {
			has = has || isReg(e.Event)
		}
		if has {
			continue
		}
		remembers := false
		a.Cond.walk(func(t *Term) bool {
			remembers = remembers || t.Op == "lv" || t.Op == "lookup"
			return true
		})
		switch {
		case !remembers:
			c.fail("every-type-registered", name, regs[0].Pos, "a type is left out when %s", short(mk("when", a.Cond.Key(), nil)))
		case len(keys) == 1 && same(canonTerm(keys[0].Args[1]), canonTerm(regs[0].Args[1])):
			// registered before
		case len(keys) == 1 && hasTerm(keys[0].Args[1], func(t *Term) bool { return t.Op == "elem" }):
			c.fail("every-type-registered", name, keys[0].Pos, "a type is left out when another one has the same %s", short(keys[0].Args[1]))
		default:
			c.undecided("every-type-registered", name, regs[0].Pos, "not every element is registered")
		}
	}
}

func hasLoop(evs []flatEv) bool {
	for _, e := range evs {
		if len(e.Loop) > 0 {
			return true
		}
	}
	return false
}

func isElemOf(t, base *Term) bool {
	t = strip(t)
	return (t.Op == "elem" || t.Op == "index") && same(strip(t.Args[0]), base)
}

// t04Convert: the value of the first field that is set.
func (c *Check) t04Convert(f *ssa.Function) {
	name := trimCallee(fnName(f))
	v := mk("param", "1", f.Params[1].Type())
	rv := call1("reflect.ValueOf", nil, v)
	ptr := mkEq(call1("(reflect.Value).Kind", nil, rv), intTerm(22))
	// canonical form without the repeated Kind idiom
	pre := func(x *Term) *Term {
		x = canon(x)
		if x.Op == "call" && x.Name == "reflect.Indirect" {
			return x
		}
		return x
	}
	ptrKey := foldWith(ptr, pre).Key()
	outs := c.root(f)
	for _, isPtr := range []bool{true, false} {
		val := rv
		label := name + " value"
		if isPtr {
			val = call1("(reflect.Value).Elem", nil, rv)
			label = name + " pointer"
		}
		sub := func(x *Term) *Term {
			x = pre(x)
			if x.Key() == ptrKey {
				return boolTerm(isPtr)
			}
			if x.Op == "call" && x.Name == "reflect.Indirect" && same(x.Args[0], rv) {
				return val
			}
			return x
		}
		nf := 0
		for _, o := range outs {
			u := under(o, sub)
			if u == nil {
				continue
			}
			nf++
			pos := posOf(o, f.Pos())
			if u.Kind != "ret" {
				c.fail("first-set-member", label, pos, "panics")
				continue
			}
			r := strip(u.Rets[0])
			num := call1("(reflect.Value).NumField", nil, val)
			if isNil(r) {
				// only when all fields were looked at
				ok, why := c.exhausted(u, val, num)
				switch {
				case ok:
					c.ok("null-when-none-set", label, pos)
				case why == "":
					c.undecided("null-when-none-set", label, pos, "the loop over the fields is not recognised")
				default:
					c.fail("null-when-none-set", label, pos, "%s", why)
				}
				continue
			}
			if r.Op != "call" || r.Name != "(reflect.Value).Interface" {
				if opaqueTerm(r) {
					c.undecided("first-set-member", label, pos, "the result is %s", short(r))
				} else {
					c.fail("first-set-member", label, pos, "the result is %s, not the value of a field", short(r))
				}
				continue
			}
			fl := strip(r.Args[0])
			if fl.Op != "call" || fl.Name != "(reflect.Value).Field" || len(fl.Args) != 2 {
				if opaqueTerm(fl) {
					c.undecided("first-set-member", label, pos, "the result is %s", short(fl))
				} else {
					c.fail("first-set-member", label, pos, "the result is %s, not the value of a field", short(r))
				}
				continue
			}
			if !same(fl.Args[0], val) {
				c.fail("first-set-member", label, pos, "the field is taken from %s", short(fl.Args[0]))
				continue
			}
			zero := call1("(reflect.Value).IsZero", nil, fl)
			if b, ok := u.St.facts.eval(formOf(zero)); ok && b {
				c.fail("first-set-member", label, pos, "a member that is not set is returned")
				continue
			} else if !ok {
				c.fail("first-set-member", label, pos, "the member is returned without checking that it is set")
				continue
			}
			i := fl.Args[1]
			if ok, why := firstIndex(i, val); ok {
				c.ok("first-set-member", label, pos)
			} else if why == "" {
				c.undecided("first-set-member", label, pos, "the loop over the fields is not recognised")
			} else {
				c.fail("first-set-member", label, pos, "%s", why)
			}
		}
		if nf == 0 {
			c.fail("first-set-member", label, f.Pos(), "no path handles this value")
		}
	}
}

// firstIndex: the index runs from 0 upwards over all fields that are zero.
func firstIndex(i, val *Term) (bool, string) {
	switch i.Op {
	case "const":
		return false, "a fixed field is returned"
	case "fold":
		if !strings.HasPrefix(i.Name, "while") || len(i.Args) != 2 {
			return false, ""
		}
		if n, ok := constInt(i.Args[1]); ok && n != 0 {
			return false, "the first " + itoa(int(n)) + " fields are never looked at"
		}
		lv := "lv:" + i.Name[strings.Index(i.Name, "@"):]
		_, fromConst := constInt(i.Args[1])
		for _, a := range i.Alts {
			if len(a.Items) != 1 {
				return false, ""
			}
			it := a.Items[0]
			if it.Op == "add" && it.Args[0].Key() == lv {
				if n, ok := constInt(it.Args[1]); ok && n < 0 {
					return false, "the fields are visited backwards: the last member that is set is taken"
				}
			}
			if it.Op != "add" || it.Args[0].Key() != lv {
				if it.Op == "sub" && it.Args[0].Key() == lv {
					return false, "the fields are not visited in order"
				}
				return false, ""
			}
			if n, ok := constInt(it.Args[1]); !ok || n != 1 {
				return false, "fields are skipped"
			}
			fld := call1("(reflect.Value).Field", nil, val, it.Args[0])
			zero := call1("(reflect.Value).IsZero", nil, fld)
			fs := newFacts()
			fs.add(a.Cond)
			if b, ok := fs.eval(formOf(zero)); !ok || !b {
				return false, "a field that is set can be skipped"
			}
		}
		return len(i.Alts) > 0 && fromConst, ""
	}
	return false, ""
}

func (c *Check) exhausted(u *Outcome, val, num *Term) (bool, string) {
	// a loop index that has reached the number of fields
	res, why := false, ""
	look := func(t *Term, v bool) {
		if t.Op == "lt" && !v && len(t.Args) == 2 && same(t.Args[1], num) {
			ok, w := firstIndex(t.Args[0], val)
			if ok {
				res = true
			} else if w != "" {
				why = w
			}
		}
	}
	for _, k := range u.St.facts.order {
		look(u.St.facts.atoms[k], u.St.facts.val[k])
	}
	if res {
		return true, ""
	}
	if why == "" && len(u.St.facts.order) == 0 && len(u.St.facts.disj) == 0 {
		return false, "null is returned for every value"
	}
	return false, why
}

// t04Update: decoding has to write the destination.
func (c *Check) t04Update(f *ssa.Function) {
	if f == nil || len(f.Blocks) == 0 {
		c.undecided("union-decoded", "UpdateExt", 0, "UpdateExt is not defined here")
		return
	}
	d := mk("param", "1", f.Params[1].Type())
	writes := false
	for _, o := range c.root(f) {
		for _, e := range flatten(o.St.trace) {
			for _, a := range e.Args {
				if mentions(a, d) {
					writes = true
				}
			}
		}
	}
	c.require(writes, "union-decoded", "UnionExt.UpdateExt", f.Pos(), "decoding a union leaves the destination untouched: the member is lost")
}

// ---- T05 ------------------------------------------------------------------------------

func errTypeTerm() *Term {
	return typeElem(typeOf(mk("iface", "", nil, nilTerm)))
}

// isErrorReflectType: reflect's type of the error interface.
func isErrorReflectType(t *Term) bool {
	t = strip(t)
	if t.Op == "call" && t.Name == "reflect.TypeFor[error]" {
		return true
	}
	if t.Op == "call" && t.Name == "(reflect.Type).Elem" {
		x := t.Args[0]
		return x.Op == "call" && x.Name == "reflect.TypeOf" && x.Args[0].Op == "iface" && typeName(x.Args[0].Typ) == "*error"
	}
	return false
}

// itemsUnder selects the items of a star's alternatives in a model. sure: the
// alternative really occurs in this model (nothing but conditions that are
// independent of the model is left).
func itemsUnder(alts []*Alt, f func(*Term) *Term) (items [][]*Term, traces [][]*Event, conds []*Form, sure []bool) {
	for _, a := range alts {
		cd := a.Cond.rewrite(func(x *Term) *Term { return renorm(f(renorm(x))) })
		v, ok := newFacts().eval(cd)
		if ok && !v {
			continue
		}
		var its []*Term
		for _, x := range a.Items {
			its = append(its, foldWith(x, f))
		}
		items = append(items, its)
		traces = append(traces, foldTrace(a.Trace, f))
		conds = append(conds, cd)
		sure = append(sure, ok || independent(cd))
	}
	return
}

// independent: the rest of a condition speaks only about the position of the
// element, the number of elements, causes and texts: things that vary freely in
// every model of the slots.
func independent(f *Form) bool {
	res := true
	f.atoms(func(t *Term) {
		switch t.Op {
		case "eq", "lt", "isnil", "empty":
		default:
			res = false
			return
		}
		walk(t, func(x *Term) bool {
			switch {
			case x.Op == "idx", x.Op == "const", x.Op == "len", x.Op == "nil":
				return x.Op != "idx" && x.Op != "len"
			case x.Op == "add", x.Op == "sub", x == t:
				return true
			case x.Op == "fld" && (x.Name == "ErrCause" || x.Name == "Msg" || x.Name == "Pkg" || x.Name == "Type" || x.Name == "Data"):
				return false
			case x.Op == "upd", x.Op == "list", x.Op == "param":
				return false
			}
			res = false
			return false
		})
	})
	return res
}

// elemDepth finds the element term of a collection in alternatives.
func elemOfStar(alts []*Alt, coll *Term) *Term {
	var res *Term
	look := func(t *Term) bool {
		if (t.Op == "elem" || t.Op == "index" && t.Args[1].Op == "idx") && same(strip(t.Args[0]), coll) && res == nil {
			res = t
		}
		return true
	}
	for _, a := range alts {
		a.Cond.walk(func(t *Term) bool { walk(t, look); return true })
		for _, x := range a.Items {
			walk(x, look)
		}
		for _, e := range a.Trace {
			for _, x := range e.Args {
				walk(x, look)
			}
		}
	}
	return res
}

// normElems rewrites index(b, idx:@d(_)) to elem:@d(b).
func normElems(x *Term) *Term {
	if x.Op == "index" && len(x.Args) == 2 && x.Args[1].Op == "idx" {
		return mkElem(x.Args[0], x.Args[1].Name, x.Typ)
	}
	return x
}

func normAlts(alts []*Alt) []*Alt {
	f := func(x *Term) *Term { return normElems(canon(x)) }
	var res []*Alt
	for _, a := range alts {
		n := &Alt{Cond: a.Cond.rewrite(func(x *Term) *Term { return renorm(f(renorm(x))) }), Trace: foldTrace(a.Trace, f)}
		for _, x := range a.Items {
			n.Items = append(n.Items, foldWith(x, f))
		}
		res = append(res, n)
	}
	return res
}

func checkT05(c *Check) {
	ne := c.need("", "NewError")
	if !c.require(ne != nil, "function-exists", "NewError", 0, "NewError is missing") {
		return
	}
	c.inline = func(f *ssa.Function) bool { return f != ne }
	defer func() { c.inline = nil }()
	c.t05Encode(fnName(ne))
	c.t05Decode()
	c.t05Fields(ne)
}

// t05Fields: everything the transportable form consists of is encoded.
func (c *Check) t05Fields(ne *ssa.Function) {
	p, ok := ne.Signature.Results().At(0).Type().(*types.Pointer)
	if !ok {
		c.undecided("transportable-fields", "Error", ne.Pos(), "NewError returns no pointer")
		return
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		c.undecided("transportable-fields", "Error", ne.Pos(), "the transportable form is no struct")
		return
	}
	for _, m := range []string{"CodecEncodeSelf", "MarshalBinary", "MarshalText", "MarshalJSON"} {
		if c.P.methodOf(p, c.P.root.Pkg, m) != nil {
			c.undecided("transportable-fields", "Error", ne.Pos(), "the transportable form encodes itself (%s)", m)
			return
		}
	}
	names := map[string]string{}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Exported() {
			c.undecided("transportable-fields", f.Name(), f.Pos(), "field %s is not encoded", f.Name())
			continue
		}
		tag := reflect.StructTag(s.Tag(i))
		v, ok := tag.Lookup("codec")
		if !ok {
			v = tag.Get("json")
		}
		if !c.require(v != "-", "transportable-fields", f.Name(), f.Pos(), "field %s is not encoded", f.Name()) {
			continue
		}
		n := strings.Split(v, ",")[0]
		if n == "" {
			n = f.Name()
		}
		c.require(names[n] == "", "transportable-fields", f.Name(), f.Pos(), "fields %s and %s are encoded under the same name %q", names[n], f.Name(), n)
		names[n] = f.Name()
	}
}

func (c *Check) t05Encode(conv string) {
	f, outs := c.replyRoot()
	if f == nil {
		return
	}
	resp := sResp()
	seen := map[string]int{}
	for _, o := range outs {
		for _, e := range find(flatten(o.St.trace), encodeNames...) {
			h := handleUsed(e.Event)
			if h == nil {
				continue
			}
			kind := c.encodingOf(h, o.St.facts)
			cons := "Reply " + kind
			x := strip(e.Args[1])
			if x.Op == "obj" {
				x = strip(c.loadIn(e.Heap, nil, x, nil))
			}
			seen[kind]++
			if kind != "msgpack" {
				// JSON keeps the values as they are
				if same(x, resp) || x.Op == "clone" && same(x.Args[0], resp) {
					c.ok("values-unchanged", cons, e.Pos)
				} else if x.Op == "list" && len(x.Args) == 1 && x.Args[0].Op == "spread" && same(x.Args[0].Args[0], resp) {
					c.ok("values-unchanged", cons, e.Pos)
				} else {
					c.undecided("values-unchanged", cons, e.Pos, "the reply is %s", short(x))
				}
				continue
			}
			if same(x, resp) || x.Op == "clone" {
				c.fail("errors-converted", cons, e.Pos, "the return values are encoded without converting their errors")
				continue
			}
			if x.Op != "list" || len(x.Args) != 1 || x.Args[0].Op != "star" {
				c.undecided("errors-converted", cons, e.Pos, "the reply is %s", short(x))
				continue
			}
			star := x.Args[0]
			alts := normAlts(star.Alts)
			if star.Name == "prefix" {
				c.fail("same-position", cons, e.Pos, "only a part of the return values is sent")
				continue
			}
			if !strings.HasPrefix(star.Name, "each") || !same(strip(star.Args[0]), resp) {
				c.undecided("errors-converted", cons, e.Pos, "the reply is built by %s", short(star))
				continue
			}
			el := elemOfStar(alts, resp)
			if el == nil {
				c.fail("values-unchanged", cons, e.Pos, "the return values are not sent")
				continue
			}
			isErr := mkIs(el, errIface)
			zero := canonTerm(call1("(reflect.Value).IsZero", nil, call1("reflect.ValueOf", nil, el)))
			zeroAs := call1("(reflect.Value).IsZero", nil, call1("reflect.ValueOf", nil, mk("as", typeName(errIface), errIface, el)))
			for _, m := range []struct{ isErr, zero bool }{{false, false}, {true, true}, {true, false}} {
				sub := func(t *Term) *Term {
					t = canon(t)
					switch {
					case same(t, isErr):
						return boolTerm(m.isErr)
					case same(t, zero), same(t, zeroAs), same(canonTerm(t), zero):
						return boolTerm(m.zero)
					case t.Op == "isnil" && (same(strip(t.Args[0]), el) || t.Args[0].Op == "as" && same(t.Args[0].Args[0], el)) && m.isErr:
						// an error value held in an interface is never a nil interface
						return boolTerm(false)
					}
					return t
				}
				items, _, _, _ := itemsUnder(alts, sub)
				rule := "values-unchanged"
				if m.isErr && !m.zero {
					rule = "errors-converted"
				}
				if m.isErr && m.zero {
					rule = "nil-errors-stay-nil"
				}
				if len(items) == 0 {
					c.fail("same-position", cons, e.Pos, "some return value is not sent")
				}
				for _, its := range items {
					if len(its) != 1 || its[0].Op == "star" || its[0].Op == "spread" {
						c.fail("same-position", cons, e.Pos, "a return value is sent as %d values: positions shift", len(its))
						continue
					}
					c.ok("same-position", cons, e.Pos)
					got := strip(its[0])
					if m.isErr && !m.zero {
						a := got
						ok := a.Op == "call" && a.Name == conv && len(a.Args) == 1 && same(strip(stripAs(a.Args[0])), el)
						if !ok && a.Op == "as" && same(a.Args[0], el) && typeName(a.Typ) == "*"+typeName(c.P.namedType("Error")) {
							ok = true
						}
						if !ok && opaqueTerm(got) {
							c.undecided(rule, cons, e.Pos, "an error is sent as %s", short(got))
							continue
						}
						c.require(ok, rule, cons, e.Pos, "an error is sent as %s, not in its transportable form", short(got))
						continue
					}
					ok := same(stripAs(got), el)
					if m.isErr && m.zero && isNil(got) {
						ok = true
					}
					if !ok && opaqueTerm(got) {
						c.undecided(rule, cons, e.Pos, "the value is sent as %s", short(got))
						continue
					}
					c.require(ok, rule, cons, e.Pos, "a value (error: %v, zero: %v) is sent as %s", m.isErr, m.zero, short(got))
				}
			}
		}
	}
	for _, k := range []string{"msgpack", "json"} {
		c.require(seen[k] > 0, "replies-encoded", k, f.Pos(), "no reply is encoded with %s", k)
	}
}

func stripAs(t *Term) *Term {
	t = strip(t)
	for t.Op == "as" {
		t = strip(t.Args[0])
	}
	return t
}

func (c *Check) t05Decode() {
	reply := pReply()
	errPtr := types.NewPointer(c.P.namedType("Error"))
	n := 0
	for _, r := range c.clientRuns(true) {
		if r.o.Kind != "ret" || nilness(r.o.St.facts, r.o.Rets[0]) != 1 {
			continue
		}
		decs := find(r.evs, decodeNames...)
		if len(decs) != 1 {
			continue
		}
		d := decs[0]
		h := handleUsed(d.Event)
		if h == nil {
			continue
		}
		kind := c.encodingOf(h, r.o.St.facts)
		cons := "Client.Call " + kind
		x := strip(d.Args[1])
		if x.Op == "obj" {
			x = strip(c.loadIn(d.Heap, nil, x, nil))
		}
		if kind != "msgpack" {
			if same(x, reply) || x.Op == "clone" && same(x.Args[0], reply) {
				c.ok("slots", cons, d.Pos)
			} else if x.Op == "obj" || opaqueTerm(x) || x.Op == "list" {
				c.undecided("slots", cons, d.Pos, "decoded into %s", short(x))
			} else {
				c.fail("slots", cons, d.Pos, "the reply is decoded into %s, not into the caller's variables", short(x))
			}
			continue
		}
		n++
		if same(x, reply) || x.Op == "clone" {
			c.fail("error-slots", cons, d.Pos, "errors are decoded into the caller's variables directly")
			continue
		}
		if x.Op != "list" || len(x.Args) != 1 || x.Args[0].Op != "star" || !same(strip(x.Args[0].Args[0]), reply) {
			c.undecided("error-slots", cons, d.Pos, "decoded into %s", short(x))
			continue
		}
		if x.Args[0].Name == "prefix" {
			c.fail("slot-positions", cons, d.Pos, "only a part of the caller's variables has a slot")
			continue
		}
		alts := normAlts(x.Args[0].Alts)
		el := elemOfStar(alts, reply)
		if el == nil {
			c.fail("slots", cons, d.Pos, "the caller's variables are not among the slots")
			continue
		}
		ptr := typeIsPtr(typeOf(el))
		elKind := func(t *Term) (int64, bool) { // a comparison of the kind a pointer variable points to
			if t.Op != "eq" || len(t.Args) != 2 {
				return 0, false
			}
			for i := range t.Args {
				k := t.Args[i]
				if n, ok := constInt(t.Args[1-i]); ok && k.Op == "call" && k.Name == "(reflect.Type).Kind" && same(k.Args[0], canonTerm(typeElem(typeOf(el)))) {
					return n, true
				}
			}
			return 0, false
		}
		for _, m := range []struct {
			ptr, is bool
			kind    int64
		}{{false, false, 0}, {false, true, 0}, {true, false, 20}, {true, true, 20}, {true, false, 25}, {true, true, 25}, {true, false, 22}, {true, true, 22}} {
			sub := func(t *Term) *Term {
				t = canon(t)
				if n, ok := elKind(t); ok && m.ptr {
					return boolTerm(n == m.kind)
				}
				if same(t, canonTerm(ptr)) {
					return boolTerm(m.ptr)
				}
				if t.Op == "call" && t.Name == "(reflect.Type).Implements" && isErrorReflectType(t.Args[1]) {
					if same(t.Args[0], typeElem(typeOf(el))) && m.ptr || same(t.Args[0], typeOf(el)) && !m.ptr {
						return boolTerm(m.is)
					}
					if m.ptr && m.is && same(t.Args[0], typeOf(el)) {
						// the variable of an error interface: a pointer to it implements nothing
						return boolTerm(false)
					}
				}
				return t
			}
			items, _, _, sure := itemsUnder(alts, sub)
			for ti, its := range items {
				if len(its) != 1 || its[0].Op == "star" || its[0].Op == "spread" {
					c.fail("slot-positions", cons, d.Pos, "a variable of the caller has %d slots: positions shift", len(its))
					continue
				}
				c.ok("slot-positions", cons, d.Pos)
				got := its[0]
				if m.is {
					ok := got.Op == "iface" && types.Identical(got.Typ, errPtr) && (isNil(got.Args[0]) || got.Args[0].Op == "zero")
					if !ok && (opaqueTerm(got) || got.Op == "iface" && types.Identical(got.Typ, errPtr)) || !sure[ti] && !ok {
						c.undecided("error-slots", cons, d.Pos, "the slot of an error is %s", short(got))
						continue
					}
					c.require(ok, "error-slots", cons, d.Pos, "the slot of an error (pointer: %v) is %s, not an empty transportable error", m.ptr, short(got))
				} else {
					ok := same(stripAs(got), el)
					if !ok && (opaqueTerm(got) || !sure[ti]) {
						c.undecided("slots", cons, d.Pos, "the slot of a value is %s", short(got))
						continue
					}
					c.require(ok, "slots", cons, d.Pos, "the slot of a value that is no error (pointer: %v) is %s, not the caller's variable", m.ptr, short(got))
				}
			}
			if len(items) == 0 {
				c.fail("slot-positions", cons, d.Pos, "some variable of the caller has no slot")
			}
		}
		c.t05After(r, d, x, cons)
	}
	c.require(n > 0, "error-slots", "Client.Call", 0, "no reply is decoded with msgpack")
}

// t05After decides what happens to the decoded errors.
func (c *Check) t05After(r clientRun, d flatEv, slots *Term, cons string) {
	reply := pReply()
	errPtr := types.NewPointer(c.P.namedType("Error"))
	errIfacePtr := types.NewPointer(errIface)
	var loops []*Event
	for i, e := range r.o.St.trace[r.base:] {
		if i > d.Idx && e.Kind == "loop" {
			loops = append(loops, e)
		}
	}
	if len(loops) != 1 {
		if len(loops) == 0 {
			empty := false
			if v, ok := r.o.St.facts.eval(formOf(mkEmpty(reply))); ok && v {
				empty = true
			}
			if !empty {
				c.fail("error-stored", cons, d.Pos, "decoded errors are never handed to the caller's variables")
			}
			return
		}
		c.undecided("error-stored", cons, d.Pos, "%d loops follow the decoding", len(loops))
		return
	}
	lp := loops[0]
	if lp.Callee == "prefix" {
		c.fail("error-stored", cons, lp.Pos, "the call succeeds before all decoded values were looked at: later errors are lost")
		return
	}
	alts := normAlts(lp.Alts)
	// the decoded slots
	var upd *Term
	find := func(t *Term) bool {
		if t.Op == "upd" && upd == nil {
			upd = t
		}
		return upd == nil
	}
	for _, a := range alts {
		a.Cond.walk(func(t *Term) bool { walk(t, find); return true })
	}
	if upd == nil {
		c.undecided("error-stored", cons, lp.Pos, "the loop does not look at the decoded values")
		return
	}
	s := elemOfStar(alts, upd)
	if s == nil {
		c.undecided("error-stored", cons, lp.Pos, "the loop does not look at the decoded values one by one")
		return
	}
	if s.Op == "index" {
		c.undecided("error-stored", cons, lp.Pos, "the decoded value is %s", short(s))
		return
	}
	R := mkElem(reply, s.Name, nil)
	isE := mkIs(s, errPtr)
	asE := mk("as", typeName(errPtr), errPtr, s)
	isErrI := mkIs(R, errIfacePtr)
	covered := false
	for _, m := range []struct{ isE, nonnil, iface bool }{{false, false, true}, {false, false, false}, {true, false, false}, {true, false, true}, {true, true, true}, {true, true, false}} {
		sub := func(t *Term) *Term {
			t = canon(t)
			switch {
			case same(t, isE):
				return boolTerm(m.isE)
			case same(t, isErrI):
				return boolTerm(m.iface)
			case t.Op == "isnil" && t.Args[0].Op == "as" && same(t.Args[0].Args[0], s):
				return boolTerm(!m.nonnil)
			}
			return t
		}
		_, traces, conds, sure := itemsUnder(alts, sub)
		for ti, tr := range traces {
			covered = true
			stores, decodes := 0, 0
			bad, odd := "", false
			var converted []*Event
			for _, e := range tr {
				switch {
				case e.Kind == "store":
					a := e.Args[0]
					if same(stripAs(a), R) && same(stripAs(e.Args[1]), s) {
						stores++
					} else if mentions(a, reply) {
						bad = "the variable " + short(a) + " receives " + short(e.Args[1])
					}
				case e.Kind == "call" && c.errResult(e) != nil:
					src, dst, other := false, false, false
					for _, a := range e.Args {
						x := stripAs(a)
						if same(x, mkFld(asE, "Data", nil)) || x.Op == "fld" && x.Name == "Data" && same(stripAs(x.Args[0]), s) {
							src = true
							continue
						}
						if x.Op == "obj" {
							x = stripAs(c.loadIn(e.Heap, nil, x, nil))
						}
						switch {
						case same(x, R):
							dst = true
						case (x.Op == "elem" || x.Op == "index") && same(strip(x.Args[0]), reply):
							other = true
						}
					}
					if dst && !src && !other {
						some := false
						for _, a := range e.Args {
							if x := stripAs(a); same(x, R) || x.Op == "obj" && same(stripAs(c.loadIn(e.Heap, nil, x, nil)), R) || isConst(x) {
								continue
							}
							some = some || mentionsData(e.Heap, a, s)
						}
						if !some {
							bad = "the variable is filled by " + e.Callee + " from something else than the error's data"
						}
					}
					switch {
					case src && dst && !other:
						decodes++
						converted = append(converted, e)
					case src && other:
						bad = "the error is decoded into the variable of another position"
					case src:
						odd = true
					}
				}
			}
			wantS, wantD := 0, 0
			if m.isE && m.nonnil {
				if m.iface {
					wantS = 1
				} else {
					wantD = 1
				}
			}
			rule := "error-stored"
			if wantS+wantD == 0 {
				rule = "others-untouched"
			} else if wantD == 1 {
				rule = "error-decoded-into-own-type"
			}
			desc := "transportable error: " + yes(m.isE) + ", set: " + yes(m.nonnil) + ", variable is an error interface: " + yes(m.iface)
			if bad == "" && stores == wantS && decodes == wantD {
				c.ok(rule, cons, lp.Pos)
				for _, e := range converted {
					// on success every conversion of every variable succeeded
					ff := r.o.St.facts.clone()
					ff.add(conds[ti])
					c.require(nilness(ff, c.errResult(e)) == 1, "failed-conversion-reported", cons, e.Pos, "the call succeeds although the conversion of an error into the caller's type failed")
				}
				continue
			}
			if odd || !sure[ti] && bad == "" {
				c.undecided(rule, cons, lp.Pos, "%s: depends on more", desc)
				continue
			}
			c.fail(rule, cons, lp.Pos, "%s: %d stores and %d conversions of the decoded error at its own position %s", desc, stores, decodes, bad)
		}
	}
	if !covered {
		c.undecided("error-stored", cons, lp.Pos, "no alternative of the loop")
	}
}

// mentionsData: t is, or is made of, the data of the transportable error s, or is not known well enough.
func mentionsData(heap map[string]*Term, t, s *Term) bool {
	data := func(x *Term) bool {
		return hasTerm(x, func(y *Term) bool { return y.Op == "fld" && y.Name == "Data" && same(stripAs(y.Args[0]), s) })
	}
	opaqueTerm := func(x *Term) bool { // apart from s itself
		return opaqueTerm(rewrite(x, func(y *Term) *Term {
			if same(y, s) {
				return mk("param", "decoded", nil)
			}
			return y
		}))
	}
	if data(t) {
		return true
	}
	if same(stripAs(t), s) {
		return true // the error as a whole
	}
	o := strip(t)
	if o.Op != "obj" {
		return opaqueTerm(t)
	}
	for k, v := range heap {
		if strings.Contains(k, o.Key()) && (data(v) || opaqueTerm(v) || strip(v).Op == "obj") {
			return true
		}
	}
	return !strings.Contains(o.Key(), ":map@") && !strings.Contains(o.Key(), ":complit@")
}

func yes(b bool) string {
	if b {
		return "yes"
	}
	return "no"
}

var _ = token.NoPos

func isInt(t *Term, n int64) bool {
	v, ok := constInt(strip(t))
	return ok && v == n
}

// ---- T06 ------------------------------------------------------------------------------

// checkT06: type extensions registered through the exported functions, and the byte encoders,
// act on the codec configuration the calls use.
func checkT06(c *Check) {
	used := map[string]map[string]*Term{}
	for _, s := range c.codecSites() {
		if used[s.kind] == nil {
			used[s.kind] = map[string]*Term{}
		}
		used[s.kind][s.handle.Key()] = s.handle
	}
	all := func(kind string, h *Term) bool {
		if len(used[kind]) != 1 {
			return false
		}
		for _, x := range used[kind] {
			if same(x, h) {
				return true
			}
		}
		return false
	}
	for _, x := range []struct{ name, kind string }{{"SetJSONExt", "json"}, {"SetMSGPackExt", "msgpack"}} {
		f := c.need("", x.name)
		if !c.require(f != nil && len(f.Params) == 3, "functions-exist", x.name, 0, "the exported function is missing") {
			continue
		}
		rt, tag, ext := mk("param", "0", f.Params[0].Type()), mk("param", "1", f.Params[1].Type()), mk("param", "2", f.Params[2].Type())
		succ := 0
		for _, o := range splitNil(c.root(f), 0) {
			pos := posOf(o, f.Pos())
			if o.Kind != "ret" {
				continue
			}
			var regs []flatEv
			for _, e := range flatten(o.St.trace) {
				if e.Kind == "call" && (strings.HasSuffix(e.Callee, ").SetInterfaceExt") || strings.HasSuffix(e.Callee, ").SetBytesExt") || strings.HasSuffix(e.Callee, ").SetExt")) {
					regs = append(regs, e)
				}
			}
			failed := false
			for _, e := range regs {
				failed = failed || nilness(o.St.facts, e.Res) == -1
			}
			switch nilness(o.St.facts, o.Rets[0]) {
			case -1:
				continue
			case 0:
				c.undecided("extension-reported", x.name, pos, "it is not known whether %s is an error", short(o.Rets[0]))
				continue
			}
			succ++
			if failed {
				c.fail("extension-reported", x.name, pos, "success although the registration failed")
				continue
			}
			var hit *flatEv
			var why string
			for i, e := range regs {
				t := canonTerm(e.Args[1])
				switch {
				case len(e.Args) != 4:
				case !all(x.kind, strip(e.Args[0])) && copyOf(f, strip(e.Args[0])):
					c.undecided("extension-registered", x.name, e.Pos, "the extension is registered on a copy of the handle")
					hit = &regs[i]
				case !all(x.kind, strip(e.Args[0])):
					why = "the extension is registered on " + short(e.Args[0]) + ", not on the handle calls use for " + x.kind
				case !(t.Op == "call" && t.Name == "reflect.TypeOf" && same(strip(t.Args[0]), rt)):
					why = "the extension is registered for " + short(t) + ", not for the type of the given value"
				case !same(strip(e.Args[2]), tag):
					why = "the extension is registered with tag " + short(e.Args[2])
				case !same(strip(e.Args[3]), ext):
					why = "instead of the given extension " + short(e.Args[3]) + " is registered"
				default:
					hit = &regs[i]
				}
			}
			switch {
			case hit == nil && why != "":
				c.fail("extension-registered", x.name, pos, "%s", why)
			case hit == nil:
				if _, known := o.St.facts.decide(mk("isnil", "", types.Typ[types.Bool], rt)); known {
					c.undecided("extension-registered", x.name, pos, "success for a special value without a registration")
				} else {
					c.fail("extension-registered", x.name, pos, "success although nothing was registered")
				}
			case nilness(o.St.facts, hit.Res) != 1:
				c.fail("extension-reported", x.name, pos, "success although the error of the registration was not checked")
			default:
				c.ok("extension-registered", x.name, hit.Pos)
			}
		}
		c.require(succ > 0, "extension-registered", x.name, f.Pos(), "no path registers an extension")
	}
	for _, x := range []struct{ name, callee string }{{"NewMSGPackEncoderBytes", "NewEncoderBytes"}, {"NewMSGPackDecoderBytes", "NewDecoderBytes"}} {
		f := c.need("", x.name)
		if !c.require(f != nil && len(f.Params) == 1, "functions-exist", x.name, 0, "the exported function is missing") {
			continue
		}
		b := mk("param", "0", f.Params[0].Type())
		for _, o := range c.root(f) {
			pos := posOf(o, f.Pos())
			if o.Kind != "ret" {
				c.fail("same-handle-for-bytes", x.name, pos, "panics")
				continue
			}
			r := strip(o.Rets[0])
			if r.Op != "call" || !strings.HasSuffix(r.Name, "codec."+x.callee) || len(r.Args) != 2 {
				c.undecided("same-handle-for-bytes", x.name, pos, "returns %s", short(r))
				continue
			}
			c.require(all("msgpack", strip(r.Args[1])), "same-handle-for-bytes", x.name, pos, "uses %s, not the handle calls use for msgpack", short(r.Args[1]))
			buf := strip(r.Args[0])
			for _, e := range flatten(o.St.trace) {
				if e.Kind == "call" && strings.HasSuffix(e.Callee, "coder).ResetBytes") && len(e.Args) == 2 && same(strip(e.Args[0]), r) {
					buf = strip(e.Args[1])
				}
			}
			c.require(same(buf, b), "same-handle-for-bytes", x.name+" buffer", pos, "works on %s, not on the given bytes", short(buf))
		}
	}
}

// copyOf: h is a structure of the analysed function that a value was copied to as a whole; codec
// handles share their extensions with copies once the first one was registered.
func copyOf(f *ssa.Function, h *Term) bool {
	if h.Op != "obj" {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if a, ok := s.Addr.(*ssa.Alloc); ok && strings.HasPrefix(h.Name, allocName(a)+"@") && h.Typ != nil && types.Identical(a.Type(), h.Typ) {
					return true
				}
			}
		}
	}
	return false
}
