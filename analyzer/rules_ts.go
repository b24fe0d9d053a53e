package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"
)

// Rules on the emitted TypeScript. The oracle is the type-checked Go source of the
// schematic packages: what a type must look like follows from its JSON encoding.

// tsWorld is the TypeScript output of one run with the Go packages it was made from.
type tsWorld struct {
	c     *Check
	in    *genInput
	out   *genOut
	files map[string]*tsFile
	pkgs  []*genPkg
}

// eachTS calls f for every schematic input that generates TypeScript.
func (c *Check) eachTS(f func(w *tsWorld)) {
	byIn := map[*genInput]*tsWorld{}
	c.eachGen(func(g *genPkg) {
		w := byIn[g.in]
		if w == nil {
			w = &tsWorld{c: c, in: g.in, out: g.out, files: map[string]*tsFile{}}
			byIn[g.in] = w
		}
		w.pkgs = append(w.pkgs, g)
		if len(w.pkgs) != len(g.in.targets) {
			return
		}
		for _, n := range sorted(w.out.files) {
			if !strings.HasSuffix(n, ".ts") {
				continue
			}
			tf, err := parseTSFile(n, w.out.files[n])
			switch {
			case err == nil:
				c.ok("ts-well-formed", g.in.name+":"+n, 0)
				w.files[n] = tf
			case err.syntax:
				c.fail("ts-well-formed", g.in.name+":"+n, 0, "the emitted file %s is not TypeScript: %s", n, err.msg)
			default:
				c.undecided("ts-well-formed", g.in.name+":"+n, 0, "%s", err.msg)
			}
		}
		f(w)
	})
}

// file of the output; nil if it is missing or could not be read.
func (w *tsWorld) file(rule, name string) *tsFile {
	if f := w.files[name]; f != nil {
		return f
	}
	if _, ok := w.out.files[name]; !ok {
		if _, unk := w.out.unknown[name]; !unk {
			w.c.fail(rule, w.in.name+":"+name, 0, "the configured output %s is not written", name)
		}
	}
	return nil
}

// ---- the oracle -------------------------------------------------------------------------

type tsTags struct {
	name      string
	omit      bool
	ignore    bool
	inline    bool
	union     bool
	typ       string
	hasJSON   bool
	stringOpt bool
}

func tagsOf(tag string) tsTags {
	var r tsTags
	st := reflect.StructTag(tag)
	j, ok := st.Lookup("json")
	r.hasJSON = ok
	parts := strings.Split(j, ",")
	for i := range parts {
		parts[i] = strings.TrimSpace(parts[i])
	}
	if parts[0] == "-" && len(parts) == 1 {
		r.ignore = true
	} else if parts[0] != "-" {
		r.name = parts[0]
	} else {
		r.ignore = true
	}
	for _, p := range parts[1:] {
		switch p {
		case "omitempty":
			r.omit = true
		case "inline":
			r.inline = true
		}
	}
	for _, p := range strings.Split(st.Get("gotsrpc"), ",") {
		p = strings.TrimSpace(p)
		if p == "union" {
			r.union = true
		}
		if strings.HasPrefix(p, "type:") {
			r.typ = p[5:]
		}
	}
	return r
}

// module file of a package; "" if it has no mapping.
func (in *genInput) tsOf(pkg string) string { return in.mappings[pkg].out }

func isTime(t types.Type) bool { return namedIs(t, "time", "Time") }

func isByte(t types.Type) bool {
	b, ok := types.Unalias(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// want is the canonical TypeScript type of a Go type.
func (in *genInput) want(t types.Type, omit bool) string {
	null := func(s string) string {
		if omit {
			return s
		}
		return tsUnion(s, "null")
	}
	switch x := types.Unalias(t).(type) {
	case *types.Pointer:
		return null(in.want(x.Elem(), true))
	case *types.Named:
		if isTime(x) {
			return "number"
		}
		if x.Obj().Pkg() == nil {
			return "?error"
		}
		ref := "<" + in.tsOf(x.Obj().Pkg().Path()) + ">." + x.Obj().Name()
		switch x.Underlying().(type) {
		case *types.Slice, *types.Map:
			return null(ref)
		}
		return ref
	case *types.Basic:
		switch {
		case x.Info()&types.IsString != 0:
			return "string"
		case x.Info()&types.IsBoolean != 0:
			return "boolean"
		case x.Info()&types.IsNumeric != 0:
			return "number"
		}
	case *types.Slice:
		if isByte(x.Elem()) {
			return null("string")
		}
		return null("Array<" + in.want(x.Elem(), false) + ">")
	case *types.Map:
		return null("Record<" + in.want(x.Key(), false) + "," + in.want(x.Elem(), false) + ">")
	case *types.Struct:
		fs, _ := in.wantFields(x)
		return "{" + strings.Join(fs, ";") + "}"
	case *types.Interface:
		return "any"
	}
	return "?" + t.String()
}

// wantFields are the fields of the declaration of a struct and the types it extends.
func (in *genInput) wantFields(s *types.Struct) (fields, extends []string) {
	for i := 0; i < s.NumFields(); i++ {
		v, tag := s.Field(i), tagsOf(s.Tag(i))
		if v.Embedded() {
			if tag.inline && !tag.ignore {
				t := v.Type()
				if p, ok := t.(*types.Pointer); ok {
					extends = append(extends, "Partial<"+in.want(p.Elem(), true)+">")
				} else {
					extends = append(extends, in.want(t, true))
				}
			}
			continue
		}
		if !v.Exported() || tag.ignore || tag.union {
			continue
		}
		n := v.Name()
		if tag.name != "" {
			n = tag.name
		}
		if tag.omit {
			n += "?"
		}
		t := tag.typ
		if t == "" {
			t = in.want(v.Type(), tag.omit)
		}
		fields = append(fields, n+":"+t)
	}
	return
}

// sameTS compares canonical types; a "?" in the expected one (a type that is not
// specified) makes the answer unknown.
func sameTS(got, want string) int {
	if got == want {
		return 1
	}
	if strings.Contains(want, "?error") || strings.HasPrefix(want, "?") {
		return 0
	}
	return -1
}

func (w *tsWorld) compare(rule, what string, f *tsFile, t *tsT, want, kind string, line int) {
	c := w.c
	var probs []string
	got := f.canon(t, &probs)
	at := fmt.Sprintf("%s line %d", f.name, line)
	if sameTS(got, want) == 0 {
		return // not specified
	}
	if len(probs) > 0 {
		sort.Strings(probs)
		c.fail(rule, w.in.name+":"+what, 0, "%s: the type of %s: %s", at, kind, probs[0])
		return
	}
	c.require(got == want, rule, w.in.name+":"+what, 0, "%s: the type of %s is %s, required is %s", at, kind, got, want)
}

// ---- the client class -------------------------------------------------------------------

// tsRun is what a method of the client does.
type tsRun struct {
	call   *tsE   // the call of the transport
	calls  int    // number of calls of the transport
	result *tsE   // returned value
	why    string // set if it is not understood
}

func (m *tsMethod) run() tsRun {
	var r tsRun
	env := map[string]*tsE{}
	params := map[string]bool{}
	for _, p := range m.params {
		params[p.name] = true
	}
	var subst func(e *tsE) *tsE
	subst = func(e *tsE) *tsE {
		if e == nil {
			return nil
		}
		if e.op == "id" {
			if x, ok := env[e.name]; ok {
				return x
			}
			if !params[e.name] {
				r.why = "reads " + e.name
			}
			return e
		}
		n := &tsE{op: e.op, name: e.name, targs: e.targs}
		for _, a := range e.args {
			n.args = append(n.args, subst(a))
		}
		for _, p := range e.fields {
			n.fields = append(n.fields, tsProp{p.name, subst(p.e)})
		}
		if n.op == "call" {
			if f := n.args[0]; f.op == "member" && f.name == "transport" && f.args[0].op == "this" {
				r.calls++
				r.call = n
			} else {
				r.why = "calls another function"
			}
		}
		if n.op == "await" {
			return n.args[0] // a call stands for its result
		}
		return n
	}
	done := false
	for _, s := range m.body {
		if done {
			break
		}
		switch s.kind {
		case "const":
			env[s.name] = subst(s.e)
		case "expr":
			subst(s.e)
		case "return":
			r.result = subst(s.e)
			done = true
		}
	}
	return r
}

func (c *Check) tsAgreement() {
	n := 0
	c.eachTS(func(w *tsWorld) {
		for _, g := range w.pkgs {
			g := g
			if g.tgt.out == "" {
				continue
			}
			f := w.file("ts-client", g.tgt.out)
			if f == nil {
				continue
			}
			for _, s := range g.services(g.tgt.tsrpc) {
				s := s
				c.section(g.in.name+" ts "+s.name, func() {
					n++
					w.tsClient(f, s)
				})
			}
			for _, svc := range g.tgt.services {
				listed := false
				for _, t := range g.tgt.tsrpc {
					listed = listed || t == svc
				}
				if !listed && len(g.tgt.tsrpc) > 0 {
					c.require(f.decl("class", svc+"Client") == nil, "configured-transport", w.in.name+":"+svc+" TypeScript", 0, "a TypeScript client is emitted for %s, which has no TSRPC transport", svc)
				}
			}
		}
	})
	c.require(n > 0 || c.limited(), "ts-client", "emitted clients", 0, "no TypeScript client is emitted")
}

func (w *tsWorld) tsClient(f *tsFile, s *gservice) {
	c := w.c
	d := f.decl("class", s.name+"Client")
	if !c.require(d != nil && d.export, "ts-client", s.id("class"), 0, "%s exports no class %sClient", f.name, s.name) {
		return
	}
	ep := d.statics["defaultEndpoint"]
	c.require(ep != nil && ep.op == "str" && ep.name == s.endpoint, "ts-endpoint", s.id("defaultEndpoint"), 0, "%s line %d: the default endpoint is not %q", f.name, d.line, s.endpoint)
	c.require(len(d.ctor) == 1 && d.ctor[0].name == "transport", "ts-client", s.id("constructor"), 0, "%s line %d: the client is not built with a transport", f.name, d.line)
	byName := map[string]*tsMethod{}
	for _, m := range d.methods {
		if byName[m.name] != nil {
			c.fail("ts-method", s.id(m.name), 0, "%s line %d: %s is declared twice", f.name, m.line, m.name)
		}
		byName[m.name] = m
	}
	for _, m := range s.methods {
		tn := lowerFirst(m.name)
		t := byName[tn]
		if !c.require(t != nil, "ts-method", s.id(m.name), 0, "%s line %d: the client has no method %s", f.name, d.line, tn) {
			continue
		}
		delete(byName, tn)
		at := fmt.Sprintf("%s line %d", f.name, t.line)
		if !c.require(len(t.params) == len(m.data), "ts-parameters", s.id(m.name), 0, "%s: %s has %d parameters, the service method has %d that travel", at, tn, len(t.params), len(m.data)) {
			continue
		}
		seen := map[string]bool{}
		for _, p := range t.params {
			if seen[p.name] {
				c.fail("ts-parameters", s.id(m.name), 0, "%s: parameter %s is declared twice", at, p.name)
			}
			seen[p.name] = true
		}
		r := t.run()
		if r.why != "" && r.call == nil {
			c.undecided("ts-call", s.id(m.name), 0, "%s: %s", at, r.why)
			continue
		}
		if !c.require(r.calls == 1, "ts-call", s.id(m.name), 0, "%s: %s calls the transport %d times", at, tn, r.calls) {
			continue
		}
		args := r.call.args[1:]
		c.require(len(args) > 0 && args[0].op == "str" && args[0].name == m.name, "ts-call-name", s.id(m.name), 0, "%s: %s calls another method than %q", at, tn, m.name)
		var list []*tsE
		switch {
		case len(args) == 2 && args[1].op == "arr":
			list = args[1].args
		case len(args) > 1:
			c.undecided("ts-arguments", s.id(m.name), 0, "%s: the arguments are not an array literal", at)
			continue
		}
		if c.require(len(list) == len(m.data), "ts-arguments", s.id(m.name), 0, "%s: %s sends %d arguments, the service method has %d", at, tn, len(list), len(m.data)) {
			for i, a := range list {
				if a.op != "id" || !seen[a.name] {
					c.undecided("ts-arguments", s.id(m.name), 0, "%s: argument %d is computed", at, i+1)
					continue
				}
				c.require(a.name == t.params[i].name, "ts-arguments", s.id(m.name), 0, "%s: argument %d of %s is parameter %s", at, i+1, m.name, a.name)
				if n := m.data[i].Name(); n != "" && n != "_" {
					c.require(t.params[i].name == n, "ts-parameters", s.id(m.name), 0, "%s: parameter %d of %s is named %s instead of %s", at, i+1, m.name, t.params[i].name, n)
				}
			}
		}
		// results
		slot := func(e *tsE) int {
			if e != nil && e.op == "index" && e.args[0] == r.call && e.args[1].op == "num" {
				return atoi(e.args[1].name)
			}
			return -1
		}
		switch {
		case r.why != "":
			c.undecided("ts-results", s.id(m.name), 0, "%s: %s", at, r.why)
		case len(m.rets) == 0:
			c.ok("ts-results", s.id(m.name), 0)
		case len(m.rets) == 1:
			if r.result != nil && slot(r.result) < 0 && r.result.op != "index" && r.result != r.call {
				c.undecided("ts-results", s.id(m.name), 0, "%s: the result is computed", at)
			} else {
				c.require(slot(r.result) == 0, "ts-results", s.id(m.name), 0, "%s: %s does not return result 1 of the call", at, tn)
			}
		default:
			if r.result == nil || r.result.op != "obj" {
				if r.result == nil || r.result == r.call {
					c.fail("ts-results", s.id(m.name), 0, "%s: %s does not return its named results", at, tn)
				} else {
					c.undecided("ts-results", s.id(m.name), 0, "%s: the result is computed", at)
				}
				continue
			}
			if !c.require(len(r.result.fields) == len(m.rets), "ts-results", s.id(m.name), 0, "%s: %s returns %d results, the service method has %d", at, tn, len(r.result.fields), len(m.rets)) {
				continue
			}
			names := map[string]bool{}
			for i, p := range r.result.fields {
				k := slot(p.e)
				if k < 0 {
					c.undecided("ts-results", s.id(m.name), 0, "%s: result %s is computed", at, p.name)
					continue
				}
				names[p.name] = true
				if want := retName(m, k); k >= len(m.rets) || want != "" && p.name != want {
					c.fail("ts-results", s.id(m.name), 0, "%s: result %s is read from position %d of the response", at, p.name, k)
				} else if want == "" && k != i {
					c.fail("ts-results", s.id(m.name), 0, "%s: result %d is read from position %d of the response", at, i, k)
				} else {
					c.ok("ts-results", s.id(m.name+" "+p.name), 0)
				}
			}
			c.require(len(names) == len(m.rets), "ts-results", s.id(m.name), 0, "%s: two results of %s have the same name", at, m.name)
		}
	}
	for _, n := range sorted(byName) {
		c.fail("ts-method", s.id(n), 0, "%s line %d: the client has a method %s, the service has no such exposed method", f.name, byName[n].line, n)
	}
}

func retName(m *gmethod, i int) string {
	if i < len(m.rets) && m.rets[i].Name() != "_" {
		return m.rets[i].Name()
	}
	return ""
}

func lowerFirst(s string) string {
	r := []rune(s)
	return strings.ToLower(string(r[0])) + string(r[1:])
}

// ---- G06: types --------------------------------------------------------------------------

func init() {
	register("G06", 150, checkG06)
	register("G07", 60, checkG07)
}

func checkG06(c *Check) {
	c.eachTS(func(w *tsWorld) {
		for _, g := range w.pkgs {
			g := g
			if g.tgt.out == "" {
				continue
			}
			f := w.file("ts-types", g.tgt.out)
			if f == nil {
				continue
			}
			for _, s := range g.services(g.tgt.tsrpc) {
				s := s
				c.section(g.in.name+" types "+s.name, func() { w.clientTypes(f, s) })
			}
		}
		for _, t := range w.reachable() {
			t := t
			c.section(w.in.name+" type "+t.Obj().Name(), func() { w.declTypes(t) })
		}
	})
}

func (w *tsWorld) clientTypes(f *tsFile, s *gservice) {
	d := f.decl("class", s.name+"Client")
	if d == nil {
		return
	}
	for _, m := range s.methods {
		for _, t := range d.methods {
			if t.name != lowerFirst(m.name) || len(t.params) != len(m.data) {
				continue
			}
			for i, p := range t.params {
				w.compare("ts-parameter-type", s.name+"."+m.name+" parameter "+itoa(i+1), f, p.t, w.in.want(m.data[i].Type(), false), "parameter "+p.name+" of "+t.name, t.line)
			}
			var rets []string
			for _, r := range m.rets {
				rets = append(rets, w.in.want(r.Type(), false))
			}
			what := s.name + "." + m.name
			ret := t.ret
			if ret == nil || ret.k != "app" || ret.name != "Promise" || len(ret.args) != 1 {
				w.c.undecided("ts-result-type", w.in.name+":"+what, 0, "%s line %d: the declared result is not a promise", f.name, t.line)
				continue
			}
			ret = ret.args[0]
			r := t.run()
			var over *tsT
			if r.call != nil && len(r.call.targs) == 1 {
				over = r.call.targs[0]
			}
			wire := func(i int) (*tsT, bool) {
				if over == nil || over.k != "obj" {
					return nil, false
				}
				for _, x := range over.fields {
					if x.name == itoa(i) {
						return x.t, true
					}
				}
				return nil, true
			}
			switch len(rets) {
			case 0:
				w.compare("ts-result-type", what, f, ret, "void", "the result of "+t.name, t.line)
			case 1:
				w.compare("ts-result-type", what, f, ret, rets[0], "the result of "+t.name, t.line)
			default:
				if ret.k != "obj" || len(ret.fields) != len(rets) {
					w.c.undecided("ts-result-type", w.in.name+":"+what, 0, "%s line %d: the declared result is not an object of %d results", f.name, t.line, len(rets))
					continue
				}
				for i, x := range ret.fields {
					w.compare("ts-result-type", what+" result "+itoa(i+1), f, x.t, rets[i], "result "+x.name+" of "+t.name, t.line)
					if x.optional {
						w.c.fail("ts-result-type", w.in.name+":"+what, 0, "%s line %d: result %s is optional", f.name, t.line, x.name)
					}
					if r.result != nil && r.result.op == "obj" && i < len(r.result.fields) {
						w.c.require(r.result.fields[i].name == x.name, "ts-result-type", w.in.name+":"+what, 0, "%s line %d: result %s is returned as %s", f.name, t.line, x.name, r.result.fields[i].name)
					}
				}
			}
			for i := range rets {
				x, ok := wire(i)
				if ok && w.c.require(x != nil, "ts-response-type", w.in.name+":"+what, 0, "%s line %d: the response of %s has no position %d", f.name, t.line, m.name, i) {
					w.compare("ts-response-type", what+" position "+itoa(i), f, x, rets[i], "position "+itoa(i)+" of the response of "+m.name, t.line)
				}
			}
		}
	}
}

// reachable are the named types of mapped packages that the services of the targets
// with TypeScript output use, and those the configuration lists.
func (w *tsWorld) reachable() []*types.Named {
	seen := map[*types.Named]bool{}
	var order []*types.Named
	var walk func(t types.Type)
	walk = func(t types.Type) {
		switch x := types.Unalias(t).(type) {
		case *types.Pointer:
			walk(x.Elem())
		case *types.Slice:
			walk(x.Elem())
		case *types.Map:
			walk(x.Key())
			walk(x.Elem())
		case *types.Struct:
			for i := 0; i < x.NumFields(); i++ {
				v, tag := x.Field(i), tagsOf(x.Tag(i))
				if tag.ignore || !v.Exported() || v.Embedded() && !tag.inline {
					continue
				}
				walk(v.Type())
			}
		case *types.Named:
			if x.Obj().Pkg() == nil || isTime(x) || seen[x] || namedIs(x, "net/http", "Request") || namedIs(x, "net/http", "ResponseWriter") {
				return
			}
			seen[x] = true
			order = append(order, x)
			walk(x.Underlying())
		}
	}
	for _, g := range w.pkgs {
		if g.tgt.out == "" {
			continue
		}
		for _, svc := range g.tgt.services {
			for _, m := range exposed(g.src, svc) {
				for _, v := range m.data {
					walk(v.Type())
				}
				for _, v := range m.rets {
					walk(v.Type())
				}
			}
		}
	}
	for _, p := range sorted(w.in.mappings) {
		for _, n := range append(append([]string{}, w.in.mappings[p].structs...), w.in.mappings[p].scalars...) {
			i := strings.LastIndex(n, ".")
			if t := w.named(n[:i], n[i+1:]); t != nil {
				walk(t)
			}
		}
	}
	sort.SliceStable(order, func(i, j int) bool { return order[i].String() < order[j].String() })
	return order
}

// named type of a package that the targets import.
func (w *tsWorld) named(pkg, name string) types.Type {
	for _, g := range w.pkgs {
		var find func(p *types.Package, seen map[*types.Package]bool) *types.Package
		find = func(p *types.Package, seen map[*types.Package]bool) *types.Package {
			if p == nil || seen[p] {
				return nil
			}
			seen[p] = true
			if p.Path() == pkg {
				return p
			}
			for _, q := range p.Imports() {
				if r := find(q, seen); r != nil {
					return r
				}
			}
			return nil
		}
		if p := find(g.src, map[*types.Package]bool{}); p != nil {
			if tn, ok := p.Scope().Lookup(name).(*types.TypeName); ok {
				return tn.Type()
			}
		}
	}
	return nil
}

// constants of a named type that its package declares with a literal value.
func (in *genInput) constantsOf(t *types.Named) map[string]constant.Value {
	res := map[string]constant.Value{}
	sc := t.Obj().Pkg().Scope()
	for _, n := range sorted(in.pkgs[t.Obj().Pkg().Path()]) {
		f, err := parser.ParseFile(token.NewFileSet(), n, in.pkgs[t.Obj().Pkg().Path()][n], 0)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.CONST {
				continue
			}
			for _, s := range g.Specs {
				v := s.(*ast.ValueSpec)
				for i, n := range v.Names {
					if i >= len(v.Values) {
						break
					}
					if _, lit := v.Values[i].(*ast.BasicLit); !lit {
						continue
					}
					if k, ok := sc.Lookup(n.Name).(*types.Const); ok && types.Identical(k.Type(), t) {
						res[n.Name] = k.Val()
					}
				}
			}
		}
	}
	return res
}

func unionFields(s *types.Struct) (us []*types.Var, others int) {
	for i := 0; i < s.NumFields(); i++ {
		v, tag := s.Field(i), tagsOf(s.Tag(i))
		if tag.union && v.Exported() {
			us = append(us, v)
		} else if !tag.ignore && v.Exported() {
			others++
		}
	}
	return
}

// declOf is the declaration of a Go type in the module of its package.
func (w *tsWorld) declOf(rule string, t *types.Named) (*tsFile, *tsDecl) {
	pkg := t.Obj().Pkg().Path()
	name := w.in.tsOf(pkg)
	if name == "" {
		return nil, nil
	}
	f := w.file(rule, name)
	if f == nil {
		return nil, nil
	}
	return f, f.decl("", t.Obj().Name())
}

// declTypes compares the types in a declaration.
func (w *tsWorld) declTypes(t *types.Named) {
	c, n := w.c, t.Obj().Name()
	f, d := w.declOf("ts-types", t)
	if f == nil || d == nil {
		return // G07
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if d.kind == "type" {
			want := "Array<" + w.in.want(u.Elem(), false) + ">"
			if isByte(u.Elem()) {
				want = "string"
			}
			w.compare("ts-alias-type", n, f, d.t, want, n, d.line)
		}
	case *types.Map:
		if d.kind == "type" {
			w.compare("ts-alias-type", n, f, d.t, "Record<"+w.in.want(u.Key(), false)+","+w.in.want(u.Elem(), false)+">", n, d.line)
		}
	case *types.Basic:
		if d.kind == "type" {
			w.compare("ts-alias-type", n, f, d.t, w.in.want(u, false), n, d.line)
		}
	case *types.Interface:
		if d.kind == "type" {
			w.compare("ts-alias-type", n, f, d.t, "any", n, d.line)
		}
	case *types.Struct:
		if us, _ := unionFields(u); len(us) > 0 || d.kind != "interface" {
			return // G07
		}
		want := map[string]string{}
		for i := 0; i < u.NumFields(); i++ {
			v, tag := u.Field(i), tagsOf(u.Tag(i))
			if v.Embedded() || !v.Exported() || tag.ignore {
				continue
			}
			name := v.Name()
			if tag.name != "" {
				name = tag.name
			}
			want[name] = tag.typ
			if tag.typ == "" {
				want[name] = w.in.want(v.Type(), tag.omit)
			}
		}
		for _, x := range d.fields {
			if ty, ok := want[x.name]; ok {
				if strings.HasPrefix(ty, "'") || strings.HasPrefix(ty, "\"") {
					ty = "'" + ty[1:len(ty)-1] + "'"
				}
				if parts := strings.Split(ty, " | "); len(parts) > 1 {
					ty = tsUnion(parts...)
				}
				w.compare("ts-field-type", n+"."+x.name, f, x.t, ty, "field "+x.name+" of "+n, d.line)
			}
		}
	}
	_ = c
}

// ---- G07: declarations -------------------------------------------------------------------

func checkG07(c *Check) {
	for _, in := range genUnmapped() {
		in := in
		c.section(in.name, func() { c.mustReport(in, "unmapped-reported", in.says) })
	}
	c.eachTS(func(w *tsWorld) {
		need := map[string]bool{}
		for _, t := range w.reachable() {
			t := t
			need[t.String()] = true
			c.section(w.in.name+" declaration "+t.Obj().Name(), func() { w.declaration(t) })
		}
		// nothing is declared twice, and only what the package declares
		for _, p := range sorted(w.in.mappings) {
			f := w.files[w.in.mappings[p].out]
			if f == nil {
				continue
			}
			seen := map[string]string{}
			for _, d := range f.decls {
				k := w.in.name + ":" + d.name
				if prev, dup := seen[d.name]; dup && !(prev == "const" && d.kind == "type" || prev == "type" && d.kind == "const") {
					c.fail("declared-once", k, 0, "%s line %d: %s is declared twice", f.name, d.line, d.name)
				}
				seen[d.name] = d.kind
				t := w.named(p, d.name)
				if t == nil {
					c.fail("declared-in-its-module", k, 0, "%s line %d: %s is declared in the module of %s, which has no such type", f.name, d.line, d.name, p)
					continue
				}
				c.require(d.export, "exported-declaration", k, 0, "%s line %d: %s is not exported", f.name, d.line, d.name)
				if n, ok := t.(*types.Named); ok && !need[t.String()] && !isTime(t) {
					w.declaration(n)
				}
			}
		}
		// every module that is mentioned is imported, every reference has a declaration
		for _, n := range sorted(w.files) {
			f := w.files[n]
			var probs []string
			var use func(t *tsT)
			use = func(t *tsT) {
				if t == nil {
					return
				}
				f.canon(t, &probs)
				var refs func(t *tsT)
				refs = func(t *tsT) {
					if t == nil {
						return
					}
					if t.k == "name" && strings.Contains(t.name, ".") {
						i := strings.Index(t.name, ".")
						if file, ok := f.imports[t.name[:i]]; ok {
							if tf := w.files[file]; tf != nil && tf.decl("", t.name[i+1:]) == nil {
								probs = append(probs, t.name[i+1:]+" is not declared in "+file)
							} else if _, written := w.out.files[file]; !written {
								probs = append(probs, file+" is not written")
							}
						}
					}
					for _, a := range t.args {
						refs(a)
					}
					for _, x := range t.fields {
						refs(x.t)
					}
				}
				refs(t)
			}
			for _, d := range f.decls {
				use(d.t)
				for _, x := range d.extends {
					use(x)
				}
				for _, x := range d.fields {
					use(x.t)
				}
				for _, m := range d.methods {
					for _, p := range m.params {
						use(p.t)
					}
					use(m.ret)
				}
			}
			var rest []string
			for _, p := range probs {
				if p != "error is not declared" {
					rest = append(rest, p)
				}
			}
			probs = rest
			if len(probs) > 0 {
				sort.Strings(probs)
				c.fail("references-resolve", w.in.name+":"+n, 0, "%s: %s", n, probs[0])
			} else {
				c.ok("references-resolve", w.in.name+":"+n, 0)
			}
		}
	})
}

func (w *tsWorld) declaration(t *types.Named) {
	c, n := w.c, t.Obj().Name()
	id := w.in.name + ":" + n
	f, d := w.declOf("declared", t)
	if f == nil {
		return
	}
	if !c.require(d != nil, "declared", id, 0, "%s has no declaration of %s", f.name, t) {
		return
	}
	at := fmt.Sprintf("%s line %d", f.name, d.line)
	kind := func(want string) bool {
		if d.kind == "type" && d.t != nil && d.t.k == "intersection" && want == "interface" {
			c.undecided("declaration-kind", id, 0, "%s: %s is declared as an intersection", at, n)
			return false
		}
		return c.require(d.kind == want, "declaration-kind", id, 0, "%s: %s is declared as %s instead of %s", at, n, d.kind, want)
	}
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Interface:
		kind("type")
	case *types.Basic:
		consts := w.in.constantsOf(t)
		if len(consts) == 0 {
			kind("type")
			return
		}
		if !kind("enum") {
			return
		}
		// a member is named like its constant, with or without the name of the type in front
		owner := func(member string) string {
			for _, k := range sorted(consts) {
				camel := strings.ToUpper(k[:1]) + k[1:]
				if member == k || member == camel || member == strings.TrimPrefix(k, n) || member == strings.TrimPrefix(camel, n) {
					return k
				}
			}
			return ""
		}
		got := map[string]int{}
		names := map[string]bool{}
		for _, m := range d.members {
			c.require(!names[m[0]], "enum-members", id, 0, "%s: two members of %s are named %s", at, n, m[0])
			names[m[0]] = true
			k := owner(m[0])
			if !c.require(k != "", "enum-members", id, 0, "%s: %s.%s is named like no constant of the type", at, n, m[0]) {
				continue
			}
			got[k]++
			same := m[1] == consts[k].ExactString()
			if v := constant.MakeFromLiteral(m[1], token.FLOAT, 0); !same && v.Kind() != constant.Unknown && consts[k].Kind() != constant.String {
				same = constant.Compare(constant.ToFloat(v), token.EQL, constant.ToFloat(consts[k]))
			}
			c.require(same, "enum-members", id+"."+k, 0, "%s: %s.%s has the value %s, the constant has %s", at, n, m[0], m[1], consts[k].ExactString())
		}
		for _, k := range sorted(consts) {
			c.require(got[k] == 1, "enum-members", id+"."+k, 0, "%s: constant %s has %d members in %s", at, k, got[k], n)
		}
	case *types.Struct:
		us, _ := unionFields(u)
		if len(us) > 0 {
			w.union(t, us, f, d)
			return
		}
		if !kind("interface") {
			return
		}
		fields, extends := w.in.wantFields(u)
		var want, got []string
		opt := map[string]bool{}
		for _, x := range fields {
			name := x[:strings.Index(x, ":")]
			opt[strings.TrimSuffix(name, "?")] = strings.HasSuffix(name, "?")
			want = append(want, strings.TrimSuffix(name, "?"))
		}
		seen := map[string]bool{}
		for _, x := range d.fields {
			got = append(got, x.name)
			c.require(!seen[x.name], "struct-fields", id+"."+x.name, 0, "%s: field %s of %s is declared twice", at, x.name, n)
			seen[x.name] = true
			o, ok := opt[x.name]
			if c.require(ok, "struct-fields", id+"."+x.name, 0, "%s: %s has a field %s, which is no field of the JSON encoding of %s", at, n, x.name, t) {
				c.require(o == x.optional, "optional-fields", id+"."+x.name, 0, "%s: field %s of %s is optional: %v, omitted when empty: %v", at, x.name, n, x.optional, o)
			}
		}
		for _, x := range want {
			c.require(seen[x], "struct-fields", id+"."+x, 0, "%s: %s has no field %s", at, n, x)
		}
		var ext []string
		var probs []string
		for _, x := range d.extends {
			ext = append(ext, f.canon(x, &probs))
		}
		sort.Strings(ext)
		sort.Strings(extends)
		c.require(strings.Join(ext, " ") == strings.Join(extends, " "), "inline-fields", id, 0, "%s: %s extends [%s], its inline fields are [%s]", at, n, strings.Join(ext, " "), strings.Join(extends, " "))
		if len(probs) > 0 {
			c.fail("inline-fields", id, 0, "%s: %s", at, probs[0])
		}
	}
}

// union is the declaration of a struct that is the union of its members.
func (w *tsWorld) union(t *types.Named, us []*types.Var, f *tsFile, d *tsDecl) {
	c, n := w.c, t.Obj().Name()
	id, at := w.in.name+":"+n, fmt.Sprintf("%s line %d", f.name, d.line)
	elem := func(v *types.Var) (types.Type, bool) {
		if p, ok := v.Type().(*types.Pointer); ok {
			return p.Elem(), true
		}
		return v.Type(), false
	}
	first, _ := elem(us[0])
	if _, isStruct := first.Underlying().(*types.Struct); isStruct {
		var want []string
		for _, v := range us {
			e, ptr := elem(v)
			want = append(want, w.in.want(e, true))
			if ptr {
				want = append(want, "undefined")
			}
		}
		if !c.require(d.kind == "type", "declaration-kind", id, 0, "%s: %s is declared as %s instead of a union of its members", at, n, d.kind) {
			return
		}
		var probs []string
		got := f.canon(d.t, &probs)
		c.require(got == tsUnion(want...), "union-members", id, 0, "%s: %s is %s, the union of its members is %s", at, n, got, tsUnion(want...))
		if len(probs) > 0 {
			c.fail("union-members", id, 0, "%s: %s", at, probs[0])
		}
		return
	}
	// members with constants: an object of all constants
	k, ty := f.decl("const", n), f.decl("type", n)
	if !c.require(k != nil && ty != nil, "declaration-kind", id, 0, "%s: %s is not declared as the constants of its members and their type", at, n) {
		return
	}
	var want, got []string
	for _, v := range us {
		e, _ := elem(v)
		want = append(want, w.in.want(e, true))
	}
	if k.e.op != "obj" {
		c.undecided("union-members", id, 0, "%s: %s is not an object", at, n)
		return
	}
	var probs []string
	for _, p := range k.e.fields {
		x := p.e
		if p.name != "" || x.op != "member" || x.args[0].op != "id" {
			c.undecided("union-members", id, 0, "%s: %s is not built from the constants of its members", at, n)
			return
		}
		got = append(got, f.canon(&tsT{k: "name", name: x.args[0].name + "." + x.name}, &probs))
	}
	sort.Strings(want)
	sort.Strings(got)
	c.require(strings.Join(want, " ") == strings.Join(got, " "), "union-members", id, 0, "%s: %s has the constants of [%s], its members are [%s]", at, n, strings.Join(got, " "), strings.Join(want, " "))
	if len(probs) > 0 {
		c.fail("union-members", id, 0, "%s: %s", at, probs[0])
	}
}
