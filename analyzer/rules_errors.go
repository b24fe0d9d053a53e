package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("E01", 5, checkE01)
	register("E02", 5, checkE02)
	register("C05", 6, checkC05)
	register("C06", 10, checkC06)
}

func call1(name string, typ types.Type, args ...*Term) *Term { return mk("call", name, typ, args...) }

func typeOf(x *Term) *Term    { return call1("reflect.TypeOf", nil, x) }
func typeStr(t *Term) *Term   { return call1("(reflect.Type).String", types.Typ[types.String], t) }
func typeElem(t *Term) *Term  { return call1("(reflect.Type).Elem", nil, t) }
func typePkg(t *Term) *Term   { return call1("(reflect.Type).PkgPath", types.Typ[types.String], t) }
func typeIsPtr(t *Term) *Term { return mkEq(call1("(reflect.Type).Kind", nil, t), intTerm(22)) }
func errText(x *Term) *Term   { return call1("(error).Error", types.Typ[types.String], x) }
func errUnwrap(x *Term) *Term { return call1("errors.Unwrap", nil, x) }
func hasSuffix(s, x *Term) *Term {
	return call1("strings.HasSuffix", types.Typ[types.Bool], s, x)
}

// errorFields reads the fields of a transportable error value.
func (c *Check) errorField(o *Outcome, p *Term, name string, typ types.Type) *Term {
	if p.Op == "iface" {
		p = p.Args[0]
	}
	return c.fieldIn(o.St.heap, p, name, typ)
}

func (c *Check) fieldType(typ, field string) types.Type {
	t := c.P.namedType(typ)
	if t == nil {
		return nil
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return st.Field(i).Type()
		}
	}
	return nil
}

func checkE01(c *Check) {
	fn := c.need("", "NewError")
	if !c.require(fn != nil && fn.Signature.Params().Len() == 1, "function-exists", "NewError", 0, "the exported function NewError(error) is missing") {
		return
	}
	done := map[*ssa.Function]bool{}
	work := []*ssa.Function{fn}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if done[f] {
			continue
		}
		done[f] = true
		work = append(work, c.e01Table(f)...)
	}
}

// e01Table decides one conversion function; the result are the functions it recurses to.
func (c *Check) e01Table(fn *ssa.Function) []*ssa.Function {
	name := fnName(fn)
	short1 := name[strings.LastIndex(name, ".")+1:]
	e := mk("param", "0", fn.Params[0].Type())
	outs := c.root(fn)
	errT := types.NewPointer(c.P.namedType("Error"))
	isE := mkIs(e, errT)
	// the stack trace wrapper test used by the source: an interface with a StackTrace method
	var isS *Term
	for _, o := range outs {
		for _, k := range o.St.facts.order {
			walk(o.St.facts.atoms[k], func(t *Term) bool {
				if t.Op == "is" && same(t.Args[0], e) && strings.Contains(t.Name, "StackTrace") {
					isS = t
				}
				return true
			})
		}
		for _, d := range o.St.facts.disj {
			d.walk(func(t *Term) bool {
				if t.Op == "is" && same(t.Args[0], e) && strings.Contains(t.Name, "StackTrace") {
					isS = t
				}
				return true
			})
		}
	}
	if !c.require(isS != nil, "stack-wrapper-recognised", short1, fn.Pos(), "no stack trace wrapper is recognised: it would be converted like any other error") {
		return nil
	}
	// it must be recognised by its method, so that errors of other kinds are kept
	if it, ok := isS.Typ.Underlying().(*types.Interface); ok {
		c.require(it.NumMethods() == 1, "stack-wrapper-recognised", short1+" interface", fn.Pos(), "the stack trace interface has %d methods", it.NumMethods())
	}
	u := errUnwrap(e)
	uu := errUnwrap(u)
	atoms := []atom{
		{"transportable", isE}, {"stack", isS}, {"wraps-nothing", mkIsNil(u)},
		{"ptr(e)", typeIsPtr(typeOf(e))}, {"ptr(u)", typeIsPtr(typeOf(u))},
		{"wraps-nothing(u)", mkIsNil(uu)},
		{"suffix(e)", hasSuffix(errText(e), mkCat(strTerm(": "), errText(u)))},
		{"suffix(u)", hasSuffix(errText(u), mkCat(strTerm(": "), errText(uu)))},
		{"transportable(u)", mkIs(u, errT)},
		{"stack(u)", mkIs(u, isS.Typ)},
	}
	valid := func(m model) bool {
		if m["transportable"] {
			return !m["stack"] && !m["ptr(e)"] && !m["ptr(u)"] && !m["suffix(e)"] && !m["suffix(u)"] && !m["transportable(u)"] && !m["stack(u)"] && !m["wraps-nothing(u)"] && !m["wraps-nothing"]
		}
		if m["wraps-nothing"] && (m["ptr(u)"] || m["suffix(e)"] || m["suffix(u)"] || m["wraps-nothing(u)"] || m["stack(u)"]) {
			return false
		}
		if m["wraps-nothing(u)"] && m["suffix(u)"] {
			return false
		}
		skip := m["stack"] && !m["wraps-nothing"]
		if skip && (m["ptr(e)"] || m["suffix(e)"]) || !skip && (m["ptr(u)"] || m["suffix(u)"] || m["wraps-nothing(u)"] || m["stack(u)"]) {
			return false
		}
		return !m["transportable(u)"] && !m["stack(u)"]
	}
	recs := map[*ssa.Function]bool{}
	str := types.Typ[types.String]
	for _, what := range []string{"already-converted", "message", "type", "package", "data", "causes"} {
		what := what
		c.table(what, short1, fn.Pos(), outs, canon, atoms, valid, func(m model, o *Outcome) (bool, string) {
			if o.Kind != "ret" {
				return false, "the conversion panics"
			}
			r := o.Rets[0]
			if m["transportable"] {
				if what != "already-converted" {
					return true, ""
				}
				return same(strip(r), e), differs("the result for a transportable error", r, e)
			}
			if what == "already-converted" {
				return r.Op == "obj", differs("the result", r, mk("a", "new error", nil))
			}
			if r.Op != "obj" {
				return false, differs("the result", r, mk("a", "new error", nil))
			}
			skip := m["stack"] && !m["wraps-nothing"]
			b, ub, ptr, leaf, suf := e, u, m["ptr(e)"], m["wraps-nothing"], m["suffix(e)"]
			if skip {
				b, ub, ptr, leaf, suf = u, uu, m["ptr(u)"], m["wraps-nothing(u)"], m["suffix(u)"]
			}
			get := func(f string, t types.Type) *Term { return strip(canonTerm(c.errorField(o, r, f, t))) }
			switch what {
			case "message":
				want := errText(b)
				got := get("Msg", str)
				if !leaf && suf {
					return trimmedSuffix(got, want, mkCat(strTerm(": "), errText(ub))), differs("Msg", got, mk("text before", "", nil, want))
				}
				if !leaf && got.Op == "call" && got.Name == "strings.TrimSuffix" && same(got.Args[0], want) && same(got.Args[1], mkCat(strTerm(": "), errText(ub))) {
					return true, "" // nothing to trim
				}
				return same(got, want), differs("Msg", got, want)
			case "type":
				got, want := get("Type", str), typeStr(typeOf(b))
				return same(got, want), differs("Type", got, want)
			case "package":
				t := typeOf(b)
				if ptr {
					t = typeElem(t)
				}
				got := get("Pkg", str)
				return same(got, typePkg(t)), differs("Pkg", got, typePkg(t))
			case "data":
				got := get("Data", nil)
				return same(got, b), differs("Data", got, b)
			}
			got := strip(c.errorField(o, r, "ErrCause", c.fieldType("Error", "ErrCause")))
			if leaf {
				return isNil(got), differs("ErrCause", got, nilTerm)
			}
			ok := got.Op == "call" && len(got.Args) == 1 && same(strip(got.Args[0]), ub)
			if ok {
				g := c.P.funcNamed(got.Name)
				ok = g != nil && g.Signature.Params().Len() == 1
				if ok {
					recs[g] = true
				}
			}
			return ok, differs("ErrCause", got, call1("NewError", nil, ub))
		})
	}
	// what a recursive conversion returned is kept as it is
	for _, o := range outs {
		for _, x := range flatten(o.St.trace) {
			if x.Kind != "store" && x.Kind != "mapset" || len(x.Args) == 0 {
				continue
			}
			for f := range recs {
				if hasTerm(x.Args[0], func(t *Term) bool { return t.Op == "call" && c.P.funcNamed(t.Name) == f }) {
					c.fail("causes", short1+" converted cause", x.Pos, "the converted cause is modified: %s is set", short(x.Args[0]))
				}
			}
		}
	}
	var res []*ssa.Function
	for _, f := range sortedFuncs(recs) {
		if f != fn {
			res = append(res, f)
		}
	}
	return res
}

// trimmedSuffix: got is s without its suffix.
func trimmedSuffix(got, s, suffix *Term) bool {
	switch {
	case got.Op == "call" && got.Name == "strings.TrimSuffix":
		return same(got.Args[0], s) && same(got.Args[1], suffix)
	case got.Op == "res" && got.Name == "0" && got.Args[0].Op == "call" && got.Args[0].Name == "strings.CutSuffix":
		return same(got.Args[0].Args[0], s) && same(got.Args[0].Args[1], suffix)
	case got.Op == "slice" && same(got.Args[0], s):
		if n, ok := constInt(got.Args[1]); !ok || n != 0 {
			return false
		}
		h := got.Args[2]
		if h.Op == "sub" && same(h.Args[0], mkLen(s)) && same(h.Args[1], mkLen(suffix)) {
			return true
		}
		got, want := map[string]int64{}, map[string]int64{}
		linear(h, 1, got)
		linear(mkLen(s), 1, want)
		linear(mkLen(suffix), -1, want)
		return sameSums(got, want)
	}
	return false
}

// linear adds n*t to the sum of products s.
func linear(t *Term, n int64, s map[string]int64) {
	if k, ok := constInt(t); ok {
		s[""] += n * k
		return
	}
	switch {
	case t.Op == "add":
		for _, a := range t.Args {
			linear(a, n, s)
		}
	case t.Op == "sub" && len(t.Args) == 2:
		linear(t.Args[0], n, s)
		linear(t.Args[1], -n, s)
	case t.Op == "len" && len(t.Args) == 1 && t.Args[0].Op == "cat":
		for _, a := range t.Args[0].Args {
			linear(mkLen(a), n, s)
		}
	default:
		s[t.Key()] += n
	}
}

func sameSums(a, b map[string]int64) bool {
	for k, n := range a {
		if b[k] != n {
			return false
		}
	}
	for k, n := range b {
		if a[k] != n {
			return false
		}
	}
	return true
}

// funcNamed finds an analysed function by its full name.
func (p *Program) funcNamed(name string) *ssa.Function {
	for _, f := range p.sourceFuncs() {
		if fnName(f) == name {
			return f
		}
	}
	return nil
}

func sortedFuncs(m map[*ssa.Function]bool) []*ssa.Function {
	var fs []*ssa.Function
	for f := range m {
		fs = append(fs, f)
	}
	for i := range fs {
		for j := i + 1; j < len(fs); j++ {
			if fnName(fs[j]) < fnName(fs[i]) {
				fs[i], fs[j] = fs[j], fs[i]
			}
		}
	}
	return fs
}

// ---- E02 ------------------------------------------------------------------------------

func checkE02(c *Check) {
	str := types.Typ[types.String]
	recv := func(f *ssa.Function) *Term { return mk("param", "0", f.Params[0].Type()) }
	// the text
	if f := c.need("Error", "Error"); c.require(f != nil, "method-exists", "Error.Error", 0, "Error has no method Error") {
		e := recv(f)
		msg, cause := mkFld(e, "Msg", str), mkFld(e, "ErrCause", nil)
		outs := c.root(f)
		c.table("text", "Error.Error", f.Pos(), outs, canon, []atom{{"cause-nil", mkIsNil(cause)}}, nil, func(m model, o *Outcome) (bool, string) {
			if o.Kind != "ret" {
				return false, "panics"
			}
			want := msg
			if !m["cause-nil"] {
				want = mkCat(msg, strTerm(": "), call1(fnName(f), str, cause))
			}
			return same(o.Rets[0], want), differs("the text", o.Rets[0], want)
		})
	}
	// unwrapping
	if f := c.need("Error", "Unwrap"); c.require(f != nil, "method-exists", "Error.Unwrap", 0, "Error has no method Unwrap") {
		e := recv(f)
		cause := mkFld(e, "ErrCause", nil)
		c.table("unwrap", "Error.Unwrap", f.Pos(), c.root(f), canon, []atom{{"nil", mkIsNil(e)}, {"cause-nil", mkIsNil(cause)}}, nil, func(m model, o *Outcome) (bool, string) {
			if o.Kind != "ret" {
				return false, "panics"
			}
			if m["nil"] || m["cause-nil"] {
				return isNil(o.Rets[0]), differs("the unwrapped error", o.Rets[0], nilTerm)
			}
			return same(strip(o.Rets[0]), cause), differs("the unwrapped error", o.Rets[0], cause)
		})
	}
	if f := c.need("Error", "Cause"); f != nil {
		e := recv(f)
		cause := mkFld(e, "ErrCause", nil)
		c.table("cause", "Error.Cause", f.Pos(), c.root(f), canon, []atom{{"nil", mkIsNil(e)}, {"cause-nil", mkIsNil(cause)}}, nil, func(m model, o *Outcome) (bool, string) {
			if m["nil"] || m["cause-nil"] {
				return true, ""
			}
			return o.Kind == "ret" && same(strip(o.Rets[0]), cause), differs("the cause", retOr(o), cause)
		})
	}
	if f := c.need("Error", "Is"); c.require(f != nil && len(f.Params) == 2, "method-exists", "Error.Is", 0, "Error has no method Is(error)") {
		e, x := recv(f), mk("param", "1", f.Params[1].Type())
		msg, cause := mkFld(e, "Msg", str), mkFld(e, "ErrCause", nil)
		full := mkCat(msg, strTerm(": "), call1(fnName(c.need("Error", "Error")), str, cause))
		t := typeOf(x)
		atoms := []atom{
			{"nil", mkIsNil(e)}, {"target-nil", mkIsNil(x)}, {"cause-nil", mkIsNil(cause)},
			{"own-text", mkEq(errText(x), msg)}, {"full-text", mkEq(errText(x), full)},
			{"type", mkEq(typeStr(t), mkFld(e, "Type", str))}, {"ptr", typeIsPtr(t)},
			{"pkg-elem", mkEq(typePkg(typeElem(t)), mkFld(e, "Pkg", str))}, {"pkg", mkEq(typePkg(t), mkFld(e, "Pkg", str))},
		}
		valid := func(m model) bool {
			if m["cause-nil"] && m["full-text"] || m["own-text"] && m["full-text"] {
				return false
			}
			if m["ptr"] && m["pkg"] || !m["ptr"] && m["pkg-elem"] {
				return false
			}
			return true
		}
		c.table("is", "Error.Is", f.Pos(), c.root(f), canon, atoms, valid, func(m model, o *Outcome) (bool, string) {
			if o.Kind != "ret" {
				if m["nil"] || m["target-nil"] {
					return false, "panics"
				}
				return false, "panics"
			}
			want := !m["nil"] && !m["target-nil"] && m["type"] && (m["ptr"] && m["pkg-elem"] || !m["ptr"] && m["pkg"]) &&
				(m["own-text"] || !m["cause-nil"] && m["full-text"])
			return boolIs(o, want), differs("the result", retOr(o), boolTerm(want))
		})
	}
	if f := c.need("Error", "As"); c.require(f != nil && len(f.Params) == 2, "method-exists", "Error.As", 0, "Error has no method As(any)") {
		e, x := recv(f), mk("param", "1", f.Params[1].Type())
		t := typeElem(typeOf(x))
		outs := c.root(f)
		data := mkFld(e, "Data", nil)
		// the decoding step
		var dec *Term
		for _, o := range outs {
			for _, ev := range flatten(o.St.trace) {
				er := c.errResult(ev.Event)
				if er == nil || !mentionsAny(ev.Args, data) {
					continue
				}
				into := false
				for _, a := range ev.Args {
					if mentions(a, x) {
						into = true
					}
					if s := strip(a); s.Op == "obj" && mentions(c.loadIn(ev.Heap, nil, s, nil), x) {
						into = true
					}
				}
				c.require(into, "as-decodes-into-target", "Error.As", ev.Pos, "the data is decoded into %s, not into the target", short(ev.Args[len(ev.Args)-1]))
				c.require(!strings.HasPrefix(ev.Callee, "github.com/mitchellh/mapstructure.Weak"), "as-decodes-into-target", "Error.As strictly", ev.Pos, "data that does not fit the target's types is converted by %s", ev.Callee)
				if dec == nil {
					dec = er
				} else if !same(dec, er) {
					c.undecided("as", "Error.As", ev.Pos, "several decoding steps")
				}
			}
		}
		if c.require(dec != nil, "as-decodes", "Error.As", f.Pos(), "the data is never decoded into the target") {
			atoms := []atom{
				{"nil", mkIsNil(e)}, {"target-nil", mkIsNil(x)},
				{"type", mkEq(typeStr(t), mkFld(e, "Type", str))}, {"ptr", typeIsPtr(t)},
				{"pkg-elem", mkEq(typePkg(typeElem(t)), mkFld(e, "Pkg", str))}, {"pkg", mkEq(typePkg(t), mkFld(e, "Pkg", str))},
				{"decoded", mkIsNil(dec)},
			}
			valid := func(m model) bool { return !(m["ptr"] && m["pkg"] || !m["ptr"] && m["pkg-elem"]) }
			c.table("as", "Error.As", f.Pos(), outs, canon, atoms, valid, func(m model, o *Outcome) (bool, string) {
				if o.Kind != "ret" {
					return false, "panics"
				}
				want := !m["nil"] && !m["target-nil"] && m["type"] && (m["ptr"] && m["pkg-elem"] || !m["ptr"] && m["pkg"])
				// the target is written only when it matches
				decs := 0
				for _, ev := range flatten(o.St.trace) {
					if c.errResult(ev.Event) != nil && mentionsAny(ev.Args, data) {
						decs++
					}
				}
				if decs > 0 && !want {
					return false, "the target is decoded into although it does not match"
				}
				want = want && m["decoded"]
				return boolIs(o, want), differs("the result", retOr(o), boolTerm(want))
			})
		}
	}
	// printing
	if f := c.need("Error", "Format"); f != nil && len(f.Params) == 3 {
		e := recv(f)
		verb := mk("param", "2", f.Params[2].Type())
		text := func(heap map[string]*Term) *Term { return nil }
		_ = text
		outs := c.root(f)
		for _, v := range []rune{'v', 's', 'q'} {
			cause := mkFld(e, "ErrCause", nil)
			sub := func(x *Term) *Term {
				x = canon(x)
				if same(x, verb) {
					return intTerm(int64(v))
				}
				return x
			}
			for _, o := range outs {
				u := under(o, sub)
				if u == nil {
					continue
				}
				want := mkFld(e, "Msg", str)
				if nilness(u.St.facts, cause) == 0 {
					continue
				}
				if nilness(u.St.facts, cause) == -1 {
					want = mkCat(want, strTerm(": "), call1(fnName(c.need("Error", "Error")), str, cause))
				}
				found := false
				for _, ev := range flatten(u.St.trace) {
					for _, a := range ev.Args {
						if hasTerm(a, func(t *Term) bool { return same(t, want) }) {
							found = true
						}
					}
				}
				c.require(found, "format", "Error.Format %"+string(v), posOf(o, f.Pos()), "formatting with %%%c does not write the text of the error", v)
			}
		}
	}
}

func retOr(o *Outcome) *Term {
	if o.Kind == "ret" && len(o.Rets) > 0 {
		return o.Rets[0]
	}
	return mk(o.Kind, "", nil)
}

func boolIs(o *Outcome, want bool) bool {
	r := o.Rets[0]
	if b, ok := constBool(r); ok {
		return b == want
	}
	b, ok := o.St.facts.eval(formOf(r))
	return ok && b == want
}

func mentionsAny(ts []*Term, x *Term) bool {
	for _, t := range ts {
		if mentions(t, x) {
			return true
		}
	}
	return false
}

// ---- C05 ------------------------------------------------------------------------------

func checkC05(c *Check) {
	str := types.Typ[types.String]
	he := c.P.namedType("HTTPError")
	ce := c.P.namedType("ClientError")
	if !c.require(he != nil && ce != nil, "types-exist", "HTTPError ClientError", 0, "the exported error types are missing") {
		return
	}
	// constructor of the HTTP error
	if f := c.need("", "NewHTTPError"); c.require(f != nil && len(f.Params) == 2, "function-exists", "NewHTTPError", 0, "NewHTTPError(msg, code) is missing") {
		msg, code := mk("param", "0", str), mk("param", "1", types.Typ[types.Int])
		errF := c.P.methodOf(types.NewPointer(he), c.P.root.Pkg, "Error")
		for _, o := range c.root(f) {
			pos := posOf(o, f.Pos())
			if o.Kind != "ret" {
				c.fail("http-error-fields", "NewHTTPError", pos, "panics")
				continue
			}
			r := o.Rets[0]
			got := strip(c.errorField(o, r, "StatusCode", types.Typ[types.Int]))
			c.require(same(got, code), "http-error-fields", "NewHTTPError StatusCode", pos, "StatusCode is %s instead of the status code", short(got))
			got = strip(c.errorField(o, r, "Body", str))
			c.require(same(got, msg), "http-error-fields", "NewHTTPError Body", pos, "Body is %s instead of the response body", short(got))
			if !c.require(errF != nil, "http-error-text", "HTTPError.Error", pos, "HTTPError has no method Error") {
				continue
			}
			for _, t := range c.rootWith(errF, []*Term{strip(r)}, nil, o.St) {
				if t.Kind != "ret" {
					c.fail("http-error-text", "HTTPError.Error", posOf(t, errF.Pos()), "panics")
					continue
				}
				txt := canonTerm(t.Rets[0])
				c.require(carries(txt, msg), "http-error-text", "HTTPError.Error body", posOf(t, errF.Pos()), "the message %s does not contain the response body", short(txt))
				c.require(carries(txt, code), "http-error-text", "HTTPError.Error status", posOf(t, errF.Pos()), "the message %s does not contain the status code", short(txt))
			}
		}
	}
	// client error
	if f := c.need("", "NewClientError"); c.require(f != nil && len(f.Params) == 1, "function-exists", "NewClientError", 0, "NewClientError(err) is missing") {
		x := mk("param", "0", f.Params[0].Type())
		un := c.P.methodOf(types.NewPointer(ce), c.P.root.Pkg, "Unwrap")
		tx := c.P.methodOf(types.NewPointer(ce), c.P.root.Pkg, "Error")
		for _, o := range c.root(f) {
			pos := posOf(o, f.Pos())
			if o.Kind != "ret" || !c.require(un != nil, "client-error-unwraps", "ClientError.Unwrap", pos, "ClientError has no method Unwrap") {
				continue
			}
			for _, t := range c.rootWith(un, []*Term{strip(o.Rets[0])}, nil, o.St) {
				if t.Kind == "ret" {
					c.require(same(strip(t.Rets[0]), x) || isNil(t.Rets[0]) && nilness(t.St.facts, x) == 1, "client-error-unwraps", "ClientError.Unwrap", posOf(t, un.Pos()), "a client error made from err unwraps to %s", short(t.Rets[0]))
				} else {
					c.fail("client-error-unwraps", "ClientError.Unwrap", posOf(t, un.Pos()), "panics")
				}
			}
			if tx != nil && len(tx.Blocks) > 0 {
				for _, t := range c.rootWith(tx, []*Term{strip(o.Rets[0])}, nil, o.St) {
					if t.Kind == "ret" {
						txt := canonTerm(t.Rets[0])
						c.require(carries(txt, errText(x)), "client-error-text", "ClientError.Error", posOf(t, tx.Pos()), "the message %s does not contain the message of the error", short(txt))
					}
				}
			}
		}
		// unwrapping an empty client error ends the chain
		if un != nil {
			e := mk("param", "0", types.NewPointer(ce))
			for _, o := range c.root(un) {
				if nilness(o.St.facts, e) == 1 {
					c.require(o.Kind == "ret" && isNil(o.Rets[0]), "client-error-unwraps", "nil ClientError", posOf(o, un.Pos()), "unwrapping a nil client error gives %s", short(retOr(o)))
				}
			}
		}
	}
	// a response with another status
	n := 0
	for _, r := range c.clientRuns(true) {
		if r.o.Kind != "ret" {
			continue
		}
		facts := r.o.St.facts
		dos := sent(r.evs)
		if len(dos) != 1 {
			continue
		}
		do := dos[0]
		status := mkFld(respOf(do.Event), "StatusCode", types.Typ[types.Int])
		if decideEq(facts, status, intTerm(200)) != -1 {
			continue
		}
		n++
		f := fnName(r.call)
		pos := posOf(r.o, r.call.Pos())
		var into *Term
		readOK := false
		for _, e := range r.evs {
			if t := fullRead(e.Event, do.Event); t != nil {
				into = t
				readOK = nilness(facts, mk("res", "1", nil, e.Res)) == 1
			}
		}
		if !readOK {
			c.fail("non-200", f, pos, "the body of a response with another status is not read")
			continue
		}
		var herr *Term
		for _, t := range c.errChain(r.o, r.o.Rets[0]) {
			if t.Op == "iface" && types.Identical(t.Typ, types.NewPointer(he)) {
				herr = t
			}
		}
		if !c.require(herr != nil, "non-200", f, pos, "a response with another status surfaces as %s without an HTTP error in its chain", short(r.o.Rets[0])) {
			continue
		}
		got := strip(c.errorField(r.o, herr, "StatusCode", types.Typ[types.Int]))
		c.require(same(got, status), "non-200", f+" StatusCode", pos, "the status code of the HTTP error is %s", short(got))
		got = strip(c.errorField(r.o, herr, "Body", str))
		c.require(isTextOf(got, into), "non-200", f+" Body", pos, "the body of the HTTP error is %s, not the response body", short(got))
		errF := c.P.methodOf(types.NewPointer(he), c.P.root.Pkg, "Error")
		if errF != nil {
			for _, t := range c.rootWith(errF, []*Term{herr.Args[0]}, nil, r.o.St) {
				if t.Kind == "ret" {
					txt := canonTerm(t.Rets[0])
					ok := hasTerm(txt, func(x *Term) bool { return isTextOf(x, into) })
					c.require(ok && carries(txt, status), "non-200", f+" message", pos, "the message %s does not carry status and body of the response", short(txt))
				}
			}
		}
	}
	c.require(n > 0, "non-200", "Client.Call", 0, "no path handles a response with another status")
	c.c05Generated()
}

// carries: the text contains x unchanged (as a piece of a concatenation or printed with a verb that keeps it).
func carries(txt, x *Term) bool {
	want := x
	if !isStringType(x.Typ) {
		want = mkStr(x)
	}
	switch {
	case same(txt, want), same(strip(txt), x):
		return true
	case txt.Op == "cat":
		for _, a := range txt.Args {
			if carries(a, x) {
				return true
			}
		}
	case txt.Op == "str":
		return same(strip(txt.Args[0]), x)
	case txt.Op == "call" && (txt.Name == "fmt.Sprintf" || txt.Name == "fmt.Sprint" || txt.Name == "fmt.Sprintln"):
		for _, a := range txt.Args {
			if a.Op == "list" {
				for _, y := range a.Args {
					if y = strip(y); carries(y, x) || y.Op == "call" && (y.Name == "errors.New" || y.Name == "github.com/pkg/errors.New") && carries(y.Args[0], x) {
						return true
					}
				}
			}
		}
	case txt.Op == "call" && txt.Name == "(error).Error":
		y := strip(txt.Args[0])
		if y.Op == "call" {
			switch y.Name {
			case "fmt.Errorf", "github.com/pkg/errors.Errorf":
				return carries(call1("fmt.Sprintf", nil, y.Args...), x)
			case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.WithMessage":
				return carries(errText(y.Args[0]), x) || carries(y.Args[1], x)
			}
		}
		return x.Op == "call" && x.Name == "(error).Error" && same(y, strip(x.Args[0]))
	}
	return false
}

// isTextOf: t is the text of what was read into buf.
func isTextOf(t, buf *Term) bool {
	t = strip(t)
	if t.Op == "call" && t.Name == "(*bytes.Buffer).String" && same(t.Args[0], buf) {
		return true
	}
	if t.Op == "bytes" {
		y := t.Args[0]
		return same(y, buf) || y.Op == "call" && y.Name == "(*bytes.Buffer).Bytes" && same(y.Args[0], buf)
	}
	return false
}

var _ = token.NoPos
