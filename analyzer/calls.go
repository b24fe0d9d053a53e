package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callee evaluates the function operand and the arguments (receiver first).
func (ev *Eval) callee(fr *Frame, st *State, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	if c.IsInvoke() {
		recv := ev.val(fr, c.Value)
		args = append(args, recv)
		for _, a := range c.Args {
			args = append(args, ev.val(fr, a))
		}
		// resolve dynamic type when known
		if recv.Op == "iface" {
			if f := ev.P.methodOf(recv.Typ, c.Method.Pkg(), c.Method.Name()); f != nil {
				args[0] = recv.Args[0]
				return &Term{Op: "func", Name: fnName(f), Fn: f}, args
			}
		}
		r := c.Value.Type()
		return mk("method", "("+typeName(r)+")."+c.Method.Name(), nil), args
	}
	f := ev.val(fr, c.Value)
	for _, a := range c.Args {
		args = append(args, ev.val(fr, a))
	}
	return f, args
}

func calleeName(c *ssa.CallCommon, f *Term) string {
	switch f.Op {
	case "func", "closure":
		return f.Name
	case "method", "builtin":
		return f.Name
	}
	return "dynamic " + f.Key()
}

func ret(st *State, rets ...*Term) []*Outcome { return []*Outcome{{Kind: "ret", Rets: rets, St: st}} }

func resultsOf(c *ssa.CallCommon) *types.Tuple { return c.Signature().Results() }

// apply performs a call.
func (ev *Eval) apply(fr *Frame, st *State, c *ssa.CallCommon, f *Term, args []*Term, pos token.Pos, isDefer bool) []*Outcome {
	ev.calls++
	if f.Op == "builtin" {
		return ev.builtin(fr, st, c, f.Name, args, pos)
	}
	name := calleeName(c, f)
	if ev.inInit && f.Fn != nil && f.Fn.Name() == "init" && f.Fn.Signature.Recv() == nil && f.Fn.Parent() == nil && fr != nil && fr.fn != f.Fn {
		return ret(st) // initialisers of other packages are analysed on their own
	}
	if fn := f.Fn; fn != nil {
		if outs, ok := ev.intrinsic(fr, st, c, fn, name, args, pos); ok {
			return outs
		}
		if fn.Pkg != nil && ev.P.analysed[fn.Pkg] || fn.Parent() != nil || ev.P.wrapper(fn) || strings.HasSuffix(fn.Name(), "$bound") {
			if len(fn.Blocks) > 0 {
				if ev.P.silent(fn) {
					return ret(st)
				}
				if !fr.onStack(fn) && (ev.Inline == nil || ev.Inline(fn)) {
					base := st.clone()
					outs := ev.call(fr, fn, args, f.Args, st, pos)
					for _, o := range outs {
						scrub(o, fr.depth)
					}
					if !ev.NoMerge {
						outs = mergeOutcomes(outs, base, fr.depth)
					}
					return outs
				}
				return ev.opaqueRepo(fr, st, c, fn, name, args, pos)
			}
		}
	} else if f.Op != "method" {
		// unknown function value
		args = append([]*Term{f}, args...)
		name = "dynamic"
	}
	if f.Op == "method" || f.Op == "func" {
		if outs, ok := ev.intrinsic(fr, st, c, nil, name, args, pos); ok {
			return outs
		}
	}
	return ev.external(fr, st, c, name, args, pos, isDefer)
}

// scrub removes facts about loop elements that no longer matter.
func scrub(o *Outcome, depth int) {
	bad := func(t *Term) bool {
		hit := false
		walk(t, func(x *Term) bool {
			if (x.Op == "elem" || x.Op == "idx" || x.Op == "key" || x.Op == "lv") && strings.HasPrefix(x.Name, "@") {
				var d int
				fmt.Sscanf(x.Name[1:], "%d", &d)
				if d > depth {
					hit = true
				}
			}
			return !hit && x.Op != "any" && x.Op != "star" && x.Op != "fold"
		})
		return hit
	}
	for _, r := range o.Rets {
		if bad(r) {
			return
		}
	}
	for _, e := range o.St.trace {
		for _, a := range e.Args {
			if bad(a) {
				return
			}
		}
	}
	for _, v := range o.St.heap {
		if bad(v) {
			return
		}
	}
	f := o.St.facts
	var order []string
	for _, k := range f.order {
		if bad(f.atoms[k]) {
			delete(f.val, k)
			delete(f.atoms, k)
			continue
		}
		order = append(order, k)
	}
	f.order = order
	var d []*Form
	for _, x := range f.disj {
		hit := false
		x.walk(func(t *Term) bool {
			if bad(t) {
				hit = true
			}
			return false
		})
		if !hit {
			d = append(d, x)
		}
	}
	f.disj = d
}

// opaqueRepo models a call to a function of the program that is not inlined.
func (ev *Eval) opaqueRepo(fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, name string, args []*Term, pos token.Pos) []*Outcome {
	// text builder arguments receive an opaque emission
	var plain []*Term
	var builders []*Term
	for _, a := range args {
		if isBuilder(a.Typ) || a.Op == "obj" && isBuilder(a.Typ) {
			builders = append(builders, a)
			continue
		}
		plain = append(plain, a)
	}
	if len(builders) > 0 {
		for _, b := range builders {
			ev.emit(st, b, mk("emit", name, types.Typ[types.String], plain...))
		}
		return ret(st, ev.results(c, mk("call", name, nil, plain...))...)
	}
	eff := ev.P.effectful(fn)
	call := mk("call", name, nil, args...)
	if eff {
		call = ev.occur(st, call)
		st.trace = append(st.trace, ev.event(fr, st, &Event{Kind: "call", Callee: name, Args: args, Res: call, Pos: pos, Static: fn, Sig: c.Signature()}))
		ev.havocArgs(st, call, args)
	}
	return ret(st, ev.results(c, call)...)
}

func (ev *Eval) occur(st *State, call *Term) *Term {
	k := "call:" + call.Key()
	n := st.occ[k]
	st.occ[k] = n + 1
	if n > 0 {
		call = mk(call.Op, call.Name, call.Typ, append(append([]*Term(nil), call.Args...), mk("occ", fmt.Sprint(n), nil))...)
	}
	return call
}

func (ev *Eval) results(c *ssa.CallCommon, call *Term) []*Term {
	res := resultsOf(c)
	switch res.Len() {
	case 0:
		return nil
	case 1:
		t := *call
		t.Typ = res.At(0).Type()
		return []*Term{&t}
	}
	var rs []*Term
	for i := 0; i < res.Len(); i++ {
		rs = append(rs, mk("res", fmt.Sprint(i), res.At(i).Type(), call))
	}
	return rs
}

// havocArgs: unknown code may have written the objects it was handed.
func (ev *Eval) havocArgs(st *State, call *Term, args []*Term) {
	for i, a := range args {
		t := strip(a)
		if ev.P.initObjs[rootOf(t).Key()] {
			continue // shared configuration; changes to it are reported as effects
		}
		if t.Op == "list" { // variadic or explicit list of pointers
			for j, x := range t.Args {
				x = strip(x)
				if x.Op == "obj" && !isOpaqueObj(x) {
					ev.forget(st, x, mk("out", fmt.Sprintf("%d.%d", i, j), elemType(x.Typ), call))
				}
			}
			continue
		}
		if call.Name == "dynamic" && i > 0 && (t.Op == "param" || t.Op == "fld" || t.Op == "call" || t.Op == "res") {
			if _, ok := typeUnder(t.Typ).(*types.Pointer); ok {
				// a function value may change what its pointer arguments point to
				ev.forget(st, t, mk("out", fmt.Sprint(i), elemType(t.Typ), call))
			}
			continue
		}
		if t.Op == "obj" && !isOpaqueObj(t) {
			// a list held in the cell keeps its structure: its elements are the outputs
			if v, ok := st.heap[t.Key()]; ok && v.Op == "list" {
				for j, x := range v.Args {
					x = strip(x)
					if x.Op == "obj" {
						ev.forget(st, x, mk("out", fmt.Sprintf("%d.%d", i, j), elemType(x.Typ), call))
					}
				}
				continue
			}
			ev.forget(st, t, mk("out", fmt.Sprint(i), elemType(t.Typ), call))
		}
	}
}

// isOpaqueObj: objects whose content is never looked into.
func isOpaqueObj(t *Term) bool {
	e := elemType(t.Typ)
	if e == nil {
		return true
	}
	if _, ok := t.Typ.Underlying().(*types.Map); ok {
		return true
	}
	n, ok := e.(*types.Named)
	if !ok {
		return false
	}
	s := typeName(n)
	return s == "bytes.Buffer" || s == "strings.Builder" || strings.HasPrefix(s, "net/") || strings.HasPrefix(s, "sync.")
}

// external models a call to code outside the analysed packages.
func (ev *Eval) external(fr *Frame, st *State, c *ssa.CallCommon, name string, args []*Term, pos token.Pos, isDefer bool) []*Outcome {
	switch {
	case isSilentExt(name, args):
		return ret(st, ev.results(c, mk("call", name, nil, args...))...)
	case isPureExt(name):
		return ret(st, ev.results(c, mk("call", name, nil, args...))...)
	case isReadExt(name):
		// reads of mutable objects: versioned by the writes seen so far
		n := 0
		if len(args) > 0 {
			if isPointer(args[0].Typ) {
				args = append([]*Term{strip(args[0])}, args[1:]...)
			}
			for _, e := range st.trace {
				if touches(e, args[0].Key()) {
					n++
				}
			}
		}
		call := mk("call", name, nil, append(append([]*Term(nil), args...), mk("at", fmt.Sprint(n), nil))...)
		return ret(st, ev.results(c, call)...)
	}
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit":
		st.trace = append(st.trace, ev.event(fr, st, &Event{Kind: "exit", Callee: name, Args: args, Pos: pos}))
		return []*Outcome{{Kind: "exit", St: st, Rets: args, Pos: pos}}
	}
	call := ev.occur(st, mk("call", name, nil, args...))
	st.trace = append(st.trace, ev.event(fr, st, &Event{Kind: "call", Callee: name, Args: args, Res: call, Pos: pos, Defer: isDefer, Sig: c.Signature()}))
	switch {
	case strings.HasSuffix(name, ").SetInterfaceExt"), strings.HasSuffix(name, ").SetBytesExt"):
		// registers an extension, leaves the configuration fields alone
	default:
		ev.havocArgs(st, call, args)
		if decodes(name) {
			// the elements of a slice that is decoded into change
			for i, a := range args {
				x := strip(a)
				if _, ok := typeUnder(x.Typ).(*types.Slice); ok && i > 0 && !isByteSlice(x.Typ) && !isNil(x) {
					ev.rebind(fr, st, x, mk("upd", fmt.Sprint(i), x.Typ, x, call))
				}
			}
		}
	}
	return ret(st, ev.results(c, call)...)
}

func typeUnder(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func decodes(name string) bool {
	for _, s := range []string{").Decode", ".Unmarshal", ").MustDecode", ".Decode", ".ReadFull"} {
		if strings.HasSuffix(name, s) {
			return true
		}
	}
	return false
}

// wraps: the result of the call writes to or reads from its argument.
func wraps(name string) bool {
	for _, p := range []string{"github.com/ugorji/go/codec.New", "bufio.New", "io.MultiWriter", "io.TeeReader", "io.LimitReader", "encoding/json.New", "compress/"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// touches: the event hands the object itself (not something read from it) to other code.
func touches(e *Event, key string) bool {
	for _, a := range e.Args {
		hit := false
		walk(a, func(x *Term) bool {
			if x.Key() == key {
				hit = true
			}
			return !hit && (x.Op != "call" || wraps(x.Name))
		})
		if hit {
			return true
		}
	}
	for _, alt := range e.Alts {
		for _, x := range alt.Trace {
			if touches(x, key) {
				return true
			}
		}
	}
	return false
}

func (ev *Eval) runDefers(fr *Frame, st *State) []*Outcome {
	outs := []*Outcome{{Kind: "ret", St: st}}
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		var next []*Outcome
		for _, o := range outs {
			if o.Kind != "ret" {
				next = append(next, o)
				continue
			}
			rs := ev.apply(fr, o.St, d.call, d.fnT, d.args, d.pos, true)
			for _, r := range rs {
				next = append(next, &Outcome{Kind: r.Kind, St: r.St, Pos: r.Pos})
			}
		}
		outs = next
	}
	fr.defers = nil
	return outs
}

// appendEffect records an append that may write in place.
func (ev *Eval) appendEffect(fr *Frame, st *State, base *Term, pos token.Pos) {
	if !ev.Effects || base.Op == "list" || base.Op == "nil" || base.Op == "bytes" || base.Op == "clone" || base.Op == "slice" && base.Name == "capped" {
		return
	}
	st.trace = append(st.trace, ev.event(fr, st, &Event{Kind: "append", Callee: "append", Args: []*Term{base}, Pos: pos}))
}

func isPointer(t types.Type) bool {
	_, ok := typeUnder(t).(*types.Pointer)
	return ok
}

func (ev *Eval) builtin(fr *Frame, st *State, c *ssa.CallCommon, name string, args []*Term, pos token.Pos) []*Outcome {
	switch name {
	case "len":
		x := args[0]
		if x.Op == "bytes" {
			x = x.Args[0]
		}
		return ret(st, mkLen(x))
	case "cap":
		return ret(st, mk("cap", "", types.Typ[types.Int], args[0]))
	case "append":
		if len(args) == 1 {
			return ret(st, args[0])
		}
		typ := c.Args[0].Type()
		base, add := args[0], args[1]
		ev.appendEffect(fr, st, base, pos)
		if isByteSlice(typ) {
			return ret(st, mk("bytes", "", typ, mkCat(unbytes(base), unbytes(add))))
		}
		return ret(st, mkList(typ, mk("spread", "", nil, base), mk("spread", "", nil, add)))
	case "copy":
		dst, src := args[0], args[1]
		if dst.Op == "makeslice" && same(dst.Args[0], mkLen(src)) {
			ev.rebind(fr, st, dst, mkList(dst.Typ, mk("spread", "", nil, src)))
			return ret(st, mkLen(src))
		}
		st.trace = append(st.trace, ev.event(fr, st, &Event{Kind: "call", Callee: "copy", Args: args, Pos: pos}))
		return ret(st, mk("call", "copy", types.Typ[types.Int], args...))
	case "delete":
		m, k := args[0], args[1]
		vk := mapVerKey(m)
		st.occ[vk]++
		st.heap[vk] = mk("ver", fmt.Sprint(st.occ[vk]), nil)
		st.addr[vk] = mk("mapver", "", nil, m)
		ck := mk("mapcell", "", nil, m, k).Key()
		delete(st.heap, ck)
		delete(st.addr, ck)
		st.trace = append(st.trace, ev.event(fr, st, &Event{Kind: "mapdelete", Args: args, Pos: pos}))
		return ret(st)
	case "print", "println":
		return ret(st)
	case "min", "max":
		return ret(st, mk("call", name, args[0].Typ, args...))
	case "recover":
		return ret(st, mk("call", "recover", nil))
	case "panic":
		st.trace = append(st.trace, ev.event(fr, st, &Event{Kind: "panic", Args: args, Pos: pos}))
		return []*Outcome{{Kind: "panic", St: st, Pos: pos}}
	case "ssa:wrapnilchk":
		return ret(st, args[0])
	case "clear", "close":
		st.trace = append(st.trace, ev.event(fr, st, &Event{Kind: "call", Callee: name, Args: args, Pos: pos}))
		return ret(st)
	}
	ev.undecided("builtin %s", name)
	return nil
}

func unbytes(t *Term) *Term {
	if t.Op == "bytes" {
		return t.Args[0]
	}
	if isNil(t) {
		return strTerm("")
	}
	return mk("bytes", "", types.Typ[types.String], t)
}

// rebind replaces a slice value whose content was changed in place.
func (ev *Eval) rebind(fr *Frame, st *State, from, to *Term) {
	st.rebinds = append(st.rebinds, [2]*Term{from, to})
	k := from.Key()
	for a, v := range st.heap {
		if contains(v, k) {
			st.heap[a] = subst(v, k, to)
		}
	}
	ev.rebindEnv(fr, from, to)
}

func (ev *Eval) rebindEnv(fr *Frame, from, to *Term) {
	k := from.Key()
	for r, v := range fr.env {
		if contains(v, k) && !contains(v, to.Key()) {
			fr.env[r] = subst(v, k, to)
		}
	}
	for i, b := range fr.binds {
		if contains(b, k) && !contains(b, to.Key()) {
			fr.binds[i] = subst(b, k, to)
		}
	}
}

func (ev *Eval) rebindFrame(fr *Frame, st *State) {
	for _, r := range st.rebinds {
		ev.rebindEnv(fr, r[0], r[1])
	}
}

// ---- text builder -------------------------------------------------------------------

// isBuilder: pointer to a struct type of the analysed package that has the
// line-buffer methods of the generator's text builder.
func isBuilder(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Name() != "code" {
		return false
	}
	have := 0
	for i := 0; i < n.NumMethods(); i++ {
		switch n.Method(i).Name() {
		case "l", "app", "nl", "ind", "string":
			have++
		}
	}
	return have == 5
}

func bufKey(b *Term) *Term { return mk("buf", "", nil, b) }

func (ev *Eval) bufVal(st *State, b *Term) *Term {
	k := bufKey(b)
	if v, ok := st.heap[k.Key()]; ok {
		return v
	}
	if b.Op == "obj" {
		return strTerm("")
	}
	return mk("buf0", "", types.Typ[types.String], b)
}

func (ev *Eval) emit(st *State, b *Term, parts ...*Term) {
	k := bufKey(b)
	v := mkCat(append([]*Term{ev.bufVal(st, b)}, parts...)...)
	st.heap[k.Key()] = v
	st.addr[k.Key()] = k
}

// ---- knowledge about library functions -------------------------------------------------

var purePrefixes = []string{
	"strings.", "strconv.", "path.", "path/filepath.", "fmt.Sprint", "fmt.Errorf", "errors.", "github.com/pkg/errors.",
	"unicode", "go/ast.IsExported", "(*go/ast.FieldList).", "(*go/ast.Ident).", "go/token.", "github.com/iancoleman/strcase.",
	"(net/http.Header).Get", "(net/http.Header).Values", "(net/http.Header).Clone",
	"(*net/http.Request).Context", "(*net/http.Request).WithContext", "(*net/http.Request).Clone", "(net/http.ResponseWriter).Header",
	"context.WithValue", "(context.Context).", "(error).Error", "time.Until", "time.Unix", "time.Date", "(time.", "(*time.",
	"reflect.", "(reflect.", "(*reflect.", "runtime.GOROOT", "(golang.org/x/mod/module.Version).", "(*strings.Replacer).Replace",
	"math.", "slices.Contains", "slices.Index", "slices.Equal", "maps.Keys", "maps.Values", "slices.Collect", "go/build.",
	"bytes.NewBuffer", "bytes.NewReader", "(os.FileInfo).", "(io/fs.FileInfo).", "gopkg.in/yaml.v2.Marshal", "os.IsNotExist", "os.IsExist", "cmp.Compare",
	"(*go/ast.ImportSpec).", "(*go/ast.GenDecl).", "(fmt.State).Flag", "os.Getenv",
	"unique.", "(*text/tabwriter", "html.",
}

var impureExceptions = []string{
	"(reflect.Value).Set", "(reflect.Value).Call", "(reflect.Value).Send", "reflect.Copy", "(*time.Timer)", "(*time.Ticker)", "time.Unix:never",
}

func isPureExt(name string) bool {
	for _, p := range impureExceptions {
		if strings.HasPrefix(name, p) {
			return false
		}
	}
	for _, p := range purePrefixes {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func isReadExt(name string) bool {
	switch name {
	case "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Len", "(*strings.Builder).String", "(*strings.Builder).Len":
		return true
	}
	return false
}

func isSilentExt(name string, args []*Term) bool {
	switch name {
	case "fmt.Print", "fmt.Printf", "fmt.Println", "log.Print", "log.Printf", "log.Println":
		return true
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
		w := strip(args[0])
		return w.Op == "glob" && (w.Name == "os.Stderr" || w.Name == "os.Stdout")
	}
	return false
}

// intrinsic models library functions with known meaning.
func (ev *Eval) intrinsic(fr *Frame, st *State, c *ssa.CallCommon, fn *ssa.Function, name string, args []*Term, pos token.Pos) ([]*Outcome, bool) {
	if fn != nil && fn.Signature.Recv() != nil && isBuilder(fn.Signature.Recv().Type()) {
		b := args[0]
		switch fn.Name() {
		case "app":
			ev.emit(st, b, args[1])
			return ret(st, b), true
		case "l":
			ev.emit(st, b, args[1], strTerm("\n"))
			return ret(st, b), true
		case "nl":
			ev.emit(st, b, strTerm("\n"))
			return ret(st, b), true
		case "ind":
			return ret(st, b), true
		case "string":
			return ret(st, ev.bufVal(st, b)), true
		}
	}
	str := types.Typ[types.String]
	switch name {
	case "(net/http.HandlerFunc).ServeHTTP":
		// calls the function itself
		if g := args[0]; (g.Op == "closure" || g.Op == "func") && g.Fn != nil {
			return ev.apply(fr, st, c, g, args[1:], pos, false), true
		}
	case "(*net/http.Request).Context":
		if v, ok := st.heap[args[0].Key()]; ok {
			return ret(st, reqContext(v)), true
		}
		return ret(st, reqContext(args[0])), true
	case "(context.Context).Value":
		if v := ctxValue(args[0], args[1]); v != nil {
			return ret(st, v), true
		}
	case "(error).Error":
		if x := strip(args[0]); x.Op == "call" && (x.Name == "errors.New" || x.Name == "github.com/pkg/errors.New") {
			return ret(st, x.Args[0]), true
		}
	case "strings.Join":
		return ret(st, mkJoin(args[0], args[1])), true
	case "strconv.Itoa":
		return ret(st, mkStr(args[0])), true
	case "strconv.FormatInt":
		if n, ok := constInt(args[1]); ok && n == 10 {
			return ret(st, mkStr(args[0])), true
		}
	case "fmt.Sprint":
		if args[0].Op == "list" && len(args[0].Args) == 1 {
			x := strip(args[0].Args[0])
			if isIntType(x.Typ) || isStringType(x.Typ) {
				return ret(st, mkStr(x)), true
			}
		}
	case "fmt.Sprintf":
		if f, ok := constStr(args[0]); ok && args[1].Op == "list" {
			if t := sprintf(f, args[1].Args); t != nil {
				return ret(st, t), true
			}
		}
		if f, ok := constStr(args[0]); ok && isNil(args[1]) && !strings.Contains(f, "%") {
			return ret(st, args[0]), true
		}
	case "strings.ReplaceAll":
		return ret(st, mk("call", "strings.Replace", str, args[0], args[1], args[2], intTerm(-1))), true
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
		if s, ok := constStr(args[0]); ok {
			switch name {
			case "strings.ToLower":
				s = strings.ToLower(s)
			case "strings.ToUpper":
				s = strings.ToUpper(s)
			default:
				s = strings.TrimSpace(s)
			}
			return ret(st, strTerm(s)), true
		}
	case "strings.HasPrefix":
		if p, ok := constStr(args[1]); ok {
			if s, ok := constStr(args[0]); ok {
				return ret(st, boolTerm(strings.HasPrefix(s, p))), true
			}
		}
	case "slices.Clone":
		return ret(st, mkClone(args[0])), true
	case "slices.Clip":
		return ret(st, args[0]), true
	case "slices.Contains":
		a := mk("any", "", types.Typ[types.Bool], args[0])
		d := fmt.Sprintf("@%d", fr.depth+1)
		a.Alts = []*Alt{{Cond: formOf(mkEq(mk("elem", d, nil, args[0]), args[1]))}}
		return ret(st, a), true
	}
	if ev.Effects {
		if strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.Sort") {
			st.trace = append(st.trace, ev.event(fr, st, &Event{Kind: "sort", Callee: name, Args: []*Term{strip(args[0])}, Pos: pos}))
		}
		if strings.HasPrefix(name, "(*sync.") && (strings.HasSuffix(name, "ock")) {
			st.trace = append(st.trace, ev.event(fr, st, &Event{Kind: "call", Callee: name, Args: args, Pos: pos}))
		}
	}
	switch name {
	case "sort.Strings", "sort.Ints", "slices.Sort":
		ev.rebind(fr, st, args[0], mkSorted(args[0], nil))
		return ret(st), true
	case "sort.Sort", "sort.Stable":
		x := strip(args[0])
		ev.rebind(fr, st, x, mkSorted(x, mk("less", typeNameOf(args[0]), nil)))
		return ret(st), true
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		x := strip(args[0])
		less := args[1]
		if less.Op == "closure" || less.Op == "func" {
			less = mk("less", less.Name, nil)
		}
		ev.rebind(fr, st, x, mkSorted(x, less))
		return ret(st), true
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		return ret(st), true
	}
	return nil, false
}

// reqContext is the context of a request value or pointer.
func reqContext(r *Term) *Term {
	x := strip(r)
	for x.Op == "deref" {
		x = x.Args[0]
	}
	if x.Op == "call" && (x.Name == "(*net/http.Request).WithContext" || x.Name == "(*net/http.Request).Clone") {
		return x.Args[1]
	}
	return mk("call", "(*net/http.Request).Context", nil, x)
}

// ctxValue looks up a value in a context built by context.WithValue.
func ctxValue(c, k *Term) *Term {
	for {
		c = strip(c)
		if c.Op != "call" || c.Name != "context.WithValue" {
			return mk("call", "(context.Context).Value", nil, c, k)
		}
		ck := c.Args[1]
		if same(ck, k) {
			return c.Args[2]
		}
		if ck.Op != "iface" || k.Op != "iface" || types.Identical(ck.Typ, k.Typ) && !(isConst(ck.Args[0]) && isConst(k.Args[0])) {
			return nil
		}
		c = c.Args[0]
	}
}

func typeNameOf(t *Term) string {
	if t.Op == "iface" {
		return typeName(t.Typ)
	}
	return typeName(t.Typ)
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func mkSorted(x, less *Term) *Term {
	if x.Op == "sorted" {
		x = x.Args[0]
	}
	if less == nil {
		return mk("sorted", "", x.Typ, x)
	}
	return mk("sorted", "", x.Typ, x, less)
}

func mkClone(x *Term) *Term {
	if isNil(x) {
		return x
	}
	return mk("clone", "", x.Typ, x)
}

func mkJoin(list, sep *Term) *Term {
	if list.Op == "list" {
		plain := true
		for _, a := range list.Args {
			if a.Op == "star" || a.Op == "spread" {
				plain = false
			}
		}
		if plain {
			var parts []*Term
			for i, a := range list.Args {
				if i > 0 {
					parts = append(parts, sep)
				}
				parts = append(parts, a)
			}
			return mkCat(parts...)
		}
	}
	return mk("join", "", types.Typ[types.String], list, sep)
}

func sprintf(f string, args []*Term) *Term {
	var parts []*Term
	lit := ""
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		i++
		if i >= len(f) {
			return nil
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		if ai >= len(args) || args[ai].Op == "star" || args[ai].Op == "spread" {
			return nil
		}
		raw := args[ai]
		x := strip(raw)
		ai++
		switch f[i] {
		case 's', 'v':
			if !isStringType(x.Typ) && !(f[i] == 'v' && isIntType(x.Typ)) {
				return nil
			}
		case 'd':
			if !isIntType(x.Typ) {
				return nil
			}
		default:
			return nil
		}
		parts = append(parts, strTerm(lit), mkStr(x))
		lit = ""
	}
	if ai != len(args) {
		return nil
	}
	parts = append(parts, strTerm(lit))
	return mkCat(parts...)
}
