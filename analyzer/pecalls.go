package main

import (
	"fmt"
	"go/format"
	"go/token"
	"go/types"
	"path"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type pcall struct {
	fr   *pframe
	name string
	args []any
	sig  *types.Signature
	pos  token.Pos
}

// pmodel is the meaning of a library function; it declines with ok == false.
type pmodel func(pe *PE, c *pcall) (rets []any, ok bool)

func pcalleeName(c *ssa.CallCommon, f any) string {
	if f, ok := f.(*pfunc); ok {
		return f.name
	}
	return "dynamic " + pkey(f)
}

// callee evaluates the function operand and the arguments (receiver first).
func (pe *PE) callee(fr *pframe, c *ssa.CallCommon) (any, []any) {
	var args []any
	if c.IsInvoke() {
		recv := pe.val(fr, c.Value)
		for _, a := range c.Args {
			args = append(args, pe.val(fr, a))
		}
		if i, ok := recv.(piface); ok {
			sel := pe.prog.MethodSets.MethodSet(i.t).Lookup(c.Method.Pkg(), c.Method.Name())
			if sel != nil {
				if fn := pe.prog.MethodValue(sel); fn != nil {
					return &pfunc{fn: fn, name: fnName(fn)}, append([]any{i.v}, args...)
				}
			}
		}
		if _, ok := recv.(pnil); ok {
			pe.abort("panic", c.Pos(), "method call on a nil interface")
		}
		return &pfunc{name: "(" + typeName(c.Value.Type()) + ")." + c.Method.Name()}, append([]any{recv}, args...)
	}
	f := pe.val(fr, c.Value)
	for _, a := range c.Args {
		args = append(args, pe.val(fr, a))
	}
	return f, args
}

func (pe *PE) apply(fr *pframe, c *ssa.CallCommon, f any, args []any, pos token.Pos) []any {
	pe.calls++
	switch f := f.(type) {
	case *pfunc:
		return pe.invoke(fr, f, args, c.Signature(), pos)
	case pnil:
		pe.abort("panic", pos, "call of a nil function")
	}
	return pe.external(fr, "dynamic", append([]any{f}, args...), c.Signature(), pos)
}

func (pe *PE) invoke(fr *pframe, f *pfunc, args []any, sig *types.Signature, pos token.Pos) []any {
	if f.native != nil {
		return f.native(pe, args, pos)
	}
	if strings.HasPrefix(f.name, "builtin ") {
		return []any{pe.builtin(fr, f.name[8:], args, sig, pos)}
	}
	call := &pcall{fr: fr, name: f.name, args: args, sig: sig, pos: pos}
	if m := pe.models[f.name]; m != nil {
		if rs, ok := m(pe, call); ok {
			return rs
		}
	}
	if m := pmodels[f.name]; m != nil {
		if rs, ok := m(pe, call); ok {
			return rs
		}
	}
	if rs, ok := pe.foldCall(call); ok {
		return rs
	}
	fn := f.fn
	if fn == nil || foldStrings[f.name] != nil && anyUnknown(args) {
		return pe.external(fr, f.name, args, sig, pos)
	}
	pp := pe.P.pe
	pkg := fn.Pkg
	if pkg == nil && fn.Origin() != nil {
		pkg = fn.Origin().Pkg
	}
	if pkg == nil {
		// wrappers and bound methods
		if len(fn.Blocks) > 0 && fn.Origin() == nil {
			return pe.callFn(fn, args, f.binds, pos)
		}
	} else if pp.analysed[pkg] || interpreted[pkg.Pkg.Path()] {
		if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Parent() == nil && !pp.analysed[pkg] {
			return nil
		}
		if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Parent() == nil && pkg.Func("init") == fn && pe.inited[pkg] && fr != nil && fr.fn.Pkg != pkg {
			return nil
		}
		pe.build(pkg)
		if len(fn.Blocks) > 0 {
			return pe.callFn(fn, args, f.binds, pos)
		}
	} else if fn.Parent() != nil && len(fn.Blocks) > 0 {
		return pe.callFn(fn, args, f.binds, pos)
	} else if fn.Name() == "init" && fn.Signature.Recv() == nil {
		return nil
	}
	return pe.external(fr, f.name, args, sig, pos)
}

// anyUnknown reports whether some string or number handed to a function is not known.
func anyUnknown(args []any) bool {
	for _, a := range args {
		switch v := a.(type) {
		case *punk:
			return true
		case pslice:
			for _, e := range v.e {
				if _, ok := e.v.(*punk); ok {
					return true
				}
			}
		}
	}
	return false
}

// callVal calls a function value from a model.
func (pe *PE) callVal(fr *pframe, f any, args []any, pos token.Pos) []any {
	pf, ok := f.(*pfunc)
	if !ok {
		pe.undecided("call of %T", f)
	}
	var sig *types.Signature
	if pf.fn != nil {
		sig = pf.fn.Signature
	}
	return pe.invoke(fr, pf, args, sig, pos)
}

// external is a library function without a model: its results are unknown, what
// its arguments point to may change.
func (pe *PE) external(fr *pframe, name string, args []any, sig *types.Signature, pos token.Pos) []any {
	call := unk("call "+name, nil, args...)
	k := call.key()
	n := pe.occ[k]
	pe.occ[k] = n + 1
	if n > 0 {
		call = unk(fmt.Sprintf("call#%d %s", n, name), nil, args...)
	}
	pe.event(fr, name, args, pos, call)
	if !pureCall(name) {
		for i, a := range args {
			pe.havoc(a, fmt.Sprintf("out%d", i), call, 0)
		}
	}
	return pe.unkResults(call, sig)
}

func (pe *PE) unkResults(call *punk, sig *types.Signature) []any {
	var rets []any
	if sig == nil {
		return []any{call}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if pe.initing && isErrorType(t) {
			rets = append(rets, pnil{})
			continue
		}
		if sig.Results().Len() == 1 {
			call.typ = t
			rets = append(rets, call)
		} else {
			rets = append(rets, unk(fmt.Sprintf("res%d", i), t, call))
		}
	}
	return rets
}

func pureCall(name string) bool {
	for _, p := range []string{"fmt.", "strings.", "strconv.", "path.", "path/filepath.", "errors.", "(error).", "reflect.", "(reflect.", "os.Stat", "os.Getenv", "os.Getwd", "os.ReadFile",
		"unicode", "github.com/pkg/errors.", "time.", "(time.", "runtime.", "go/token.", "log."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// havoc forgets what is known about the objects an unknown function was handed.
func (pe *PE) havoc(a any, what string, call *punk, d int) {
	if d > 2 {
		return
	}
	switch v := a.(type) {
	case piface:
		pe.havoc(v.v, what, call, d)
	case *pextern:
		f := handle(v)
		if b := buffered(v); b != nil {
			f = b.file
		}
		if f != nil && pe.toFile != nil {
			pe.toFile(f, unk(what, nil, call))
		}
	case *pcell:
		if s, ok := v.v.(*pstruct); ok {
			for i, f := range s.f {
				f.v = unk(fmt.Sprintf("%s.%d", what, i), nil, call)
			}
			return
		}
		v.v = unk(what, nil, call)
	case pslice:
		for i, e := range v.e {
			switch x := e.v.(type) {
			case piface:
				pe.havoc(x.v, fmt.Sprintf("%s.%d", what, i), call, d+1)
			case *pcell:
				pe.havoc(x, fmt.Sprintf("%s.%d", what, i), call, d+1)
			}
		}
	}
}

func (pe *PE) builtin(fr *pframe, name string, args []any, sig *types.Signature, pos token.Pos) any {
	it := types.Typ[types.Int]
	switch name {
	case "len", "cap":
		switch v := args[0].(type) {
		case string:
			return int64(len(v))
		case pbytes:
			return int64(len(v))
		case pnil:
			return int64(0)
		case pslice:
			if name == "cap" {
				return int64(cap(v.e))
			}
			return int64(len(v.e))
		case *pmap:
			return int64(len(v.keys))
		case *parray:
			return int64(len(v.e))
		case *pcell:
			if a, ok := v.v.(*parray); ok {
				return int64(len(a.e))
			}
		}
		return unk(name, it, args[0])
	case "append":
		var e []*pcell
		switch v := args[0].(type) {
		case pnil:
		case pslice:
			e = v.e
		default:
			if x, ok := bytesOf(v); ok {
				if y, ok := args[1].(string); ok {
					return pbytes(x + y)
				}
				if y, ok := bytesOf(args[1]); ok {
					return pbytes(x + y)
				}
			}
			return unk("append", nil, args...)
		}
		switch v := args[1].(type) {
		case pnil:
			if e == nil {
				return args[0]
			}
		case pslice:
			add := make([]*pcell, len(v.e))
			for i, c := range v.e {
				add[i] = &pcell{pcopy(c.v)}
			}
			if len(add) == 0 && e == nil {
				return args[0]
			}
			e = append(e, add...)
		case string:
			if e == nil {
				return pbytes(v)
			}
			for i := 0; i < len(v); i++ {
				e = append(e, &pcell{int64(v[i])})
			}
		case pbytes:
			if e == nil {
				return v
			}
			for i := 0; i < len(v); i++ {
				e = append(e, &pcell{int64(v[i])})
			}
		default:
			return unk("append", nil, args...)
		}
		return pslice{e}
	case "copy":
		d, ok1 := args[0].(pslice)
		s, ok2 := args[1].(pslice)
		if ok1 && ok2 {
			n := min(len(d.e), len(s.e))
			vs := make([]any, n)
			for i := 0; i < n; i++ {
				vs[i] = pcopy(s.e[i].v)
			}
			for i := 0; i < n; i++ {
				pset(d.e[i], vs[i])
			}
			return int64(n)
		}
		if _, ok := args[1].(pnil); ok {
			return int64(0)
		}
		if _, ok := args[0].(pnil); ok {
			return int64(0)
		}
		pe.undecided("copy of %T (%v <- %v)", args[0], args[0], args[1])
	case "delete":
		switch m := args[0].(type) {
		case *pmap:
			m.del(args[1])
		case *punk:
			pe.event(fr, "mapdelete", args, pos, nil)
		}
		return nil
	case "clear":
		switch m := args[0].(type) {
		case *pmap:
			*m = *newPMap()
		}
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if name == "max" {
				op = token.GTR
			}
			b, ok := pe.binop(op, a, r, it, pos).(bool)
			if !ok {
				return unk(name, it, args...)
			}
			if b {
				r = a
			}
		}
		return r
	case "print", "println":
		pe.event(fr, "fmt.Fprintln", args, pos, nil)
		return nil
	case "recover":
		// only meaningful while deferred calls of a panicking function run
		pe.undecided("recover in %s", fr.fn)
	case "ssa:wrapnilchk":
		if _, ok := args[0].(pnil); ok {
			pe.abort("panic", pos, "nil receiver")
		}
		return args[0]
	case "close":
		pe.event(fr, "close", args, pos, nil)
		return nil
	}
	pe.undecided("builtin %s", name)
	return nil
}

// ---- folding of library functions ----------------------------------------------------------

// foldStrings are functions of strings and numbers that are folded on constants.
var foldStrings = map[string]any{
	"strings.ToUpper": strings.ToUpper, "strings.ToLower": strings.ToLower, "strings.TrimSpace": strings.TrimSpace,
	"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Contains": strings.Contains, "strings.ContainsAny": strings.ContainsAny,
	"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.Trim": strings.Trim,
	"strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
	"strings.Repeat": strings.Repeat, "strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll,
	"strings.Index": strings.Index, "strings.IndexAny": strings.IndexAny, "strings.LastIndex": strings.LastIndex, "strings.EqualFold": strings.EqualFold,
	"strings.Compare": strings.Compare, "strings.Count": strings.Count, "strings.Split": strings.Split, "strings.Fields": strings.Fields, "strings.SplitN": strings.SplitN, "strings.SplitAfter": strings.SplitAfter,
	"strings.Title": strings.Title, "strings.ContainsRune": strings.ContainsRune, "strings.IndexByte": strings.IndexByte, "strings.LastIndexByte": strings.LastIndexByte,
	"strings.Cut": strings.Cut, "strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix, "strings.Join": strings.Join,
	"strconv.Itoa": strconv.Itoa, "strconv.Quote": strconv.Quote, "strconv.FormatBool": strconv.FormatBool,
	"path.Dir": path.Dir, "path.Base": path.Base, "path.IsAbs": path.IsAbs, "path.Ext": path.Ext, "path.Clean": path.Clean, "path.Join": path.Join,
	"path/filepath.Dir": path.Dir, "path/filepath.Base": path.Base, "path/filepath.IsAbs": path.IsAbs, "path/filepath.Clean": path.Clean, "path/filepath.Join": path.Join, "path/filepath.Ext": path.Ext, "path/filepath.Rel": filepath.Rel,
	"go/token.IsExported": token.IsExported, "go/ast.IsExported": token.IsExported, "go/token.IsIdentifier": token.IsIdentifier, "go/token.IsKeyword": token.IsKeyword,
	"sort.SearchStrings": sort.SearchStrings,
}

func goVal(t any, want reflect.Type) (reflect.Value, bool) {
	switch want.Kind() {
	case reflect.String:
		if s, ok := t.(string); ok {
			return reflect.ValueOf(s).Convert(want), true
		}
	case reflect.Bool:
		if b, ok := t.(bool); ok {
			return reflect.ValueOf(b), true
		}
	case reflect.Int, reflect.Int32, reflect.Int64, reflect.Uint8:
		if n, ok := t.(int64); ok {
			return reflect.ValueOf(n).Convert(want), true
		}
	case reflect.Slice:
		if ss, ok := strsOf(t); ok && want.Elem().Kind() == reflect.String {
			return reflect.ValueOf(ss), true
		}
	}
	return reflect.Value{}, false
}

func strsOf(t any) ([]string, bool) {
	var ss []string
	switch v := t.(type) {
	case pnil:
		return nil, true
	case pslice:
		for _, c := range v.e {
			s, ok := c.v.(string)
			if !ok {
				return nil, false
			}
			ss = append(ss, s)
		}
		return ss, true
	}
	return nil, false
}

func pstrs(ss []string) pslice {
	e := make([]*pcell, len(ss))
	for i, s := range ss {
		e[i] = &pcell{s}
	}
	return pslice{e}
}

func fromVal(v reflect.Value) any {
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int64, reflect.Int32:
		return v.Int()
	case reflect.Slice:
		if v.IsNil() {
			return pnil{}
		}
		return pstrs(v.Interface().([]string))
	}
	return pnil{}
}

// strCompares are the functions by which texts are told apart.
var strCompares = map[string]bool{"strings.HasPrefix": true, "strings.HasSuffix": true, "strings.Contains": true, "strings.EqualFold": true, "strings.Compare": true,
	"strings.Index": true, "strings.LastIndex": true, "strings.TrimPrefix": true, "strings.TrimSuffix": true, "strings.CutPrefix": true, "strings.CutSuffix": true, "strings.Cut": true}

func (pe *PE) foldCall(c *pcall) ([]any, bool) {
	f, ok := foldStrings[c.name]
	if !ok {
		return nil, false
	}
	fv := reflect.ValueOf(f)
	if fv.Type().NumIn() != len(c.args) {
		return nil, false
	}
	var in []reflect.Value
	for i, a := range c.args {
		v, ok := goVal(a, fv.Type().In(i))
		if !ok {
			return nil, false
		}
		in = append(in, v)
	}
	if strCompares[c.name] && len(c.args) == 2 {
		pe.compare(in[0].String(), in[1].String(), c.pos)
	}
	if c.name == "strings.Repeat" && in[1].Int() < 0 {
		pe.abort("panic", c.pos, "strings: negative Repeat count")
	}
	var rs []reflect.Value
	if fv.Type().IsVariadic() {
		rs = fv.CallSlice(in)
	} else {
		rs = fv.Call(in)
	}
	var res []any
	for _, r := range rs {
		if r.Kind() == reflect.Interface && !r.IsNil() {
			return nil, false // an error value of the library
		}
		res = append(res, fromVal(r))
	}
	return res, true
}

// fmtArg turns a known value into the Go value of the same text.
func fmtArg(a any) (any, bool) {
	if i, ok := a.(piface); ok {
		if _, named := i.t.(*types.Named); named {
			ms := types.NewMethodSet(i.t)
			for j := 0; j < ms.Len(); j++ {
				switch ms.At(j).Obj().Name() {
				case "String", "Error", "Format":
					return nil, false
				}
			}
		}
		a = i.v
	}
	switch v := a.(type) {
	case string, bool, int64, float64:
		return v, true
	case pnil:
		return nil, true
	case pslice:
		if ss, ok := strsOf(v); ok {
			return ss, true
		}
		var xs []any
		for _, c := range v.e {
			x, ok := fmtArg(c.v)
			if !ok {
				return nil, false
			}
			xs = append(xs, x)
		}
		return xs, true
	case pbytes:
		return []byte(v), true
	}
	return nil, false
}

func fmtArgs(a any) ([]any, bool) {
	var vs []any
	switch v := a.(type) {
	case pnil:
		return nil, true
	case pslice:
		for _, c := range v.e {
			x, ok := fmtArg(c.v)
			if !ok {
				return nil, false
			}
			vs = append(vs, x)
		}
		return vs, true
	}
	return nil, false
}

func builderBuf(pe *PE, a any, pos token.Pos) *pcell {
	c := pe.addr(a, pos)
	switch v := c.v.(type) {
	case *pstruct:
		// the text is kept in the last field of the library's struct
		return v.f[len(v.f)-1]
	case *parray:
	}
	pe.undecided("text buffer %T", c.v)
	return nil
}

func bufText(c *pcell) any {
	switch v := c.v.(type) {
	case string:
		return v
	case *punk:
		if v.op == "concat" || v.op == "op +" {
			return v
		}
	}
	return ""
}

func (pe *PE) write(fr *pframe, w any, s any, pos token.Pos) []any {
	b := builderBuf(pe, w, pos)
	b.v = pe.binop(token.ADD, bufText(b), s, types.Typ[types.String], pos)
	var n any = unk("len", types.Typ[types.Int], s)
	if str, ok := s.(string); ok {
		n = int64(len(str))
	}
	return []any{n, pnil{}}
}

func (pe *PE) sortSlice(fr *pframe, s pslice, less func(a, b any) bool) {
	vs := make([]any, len(s.e))
	for i, c := range s.e {
		vs[i] = pcopy(c.v)
	}
	sort.SliceStable(vs, func(i, j int) bool { return less(vs[i], vs[j]) })
	for i, c := range s.e {
		pset(c, vs[i])
	}
}

func (pe *PE) newError(op string, args ...any) any {
	return unk("new:"+op, types.Universe.Lookup("error").Type(), args...)
}

var pmodels map[string]pmodel

func init() {
	pmodels = map[string]pmodel{}
	errNew := func(pe *PE, c *pcall) ([]any, bool) { return []any{pe.newError(c.name, c.args...)}, true }
	for _, n := range []string{"errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf"} {
		pmodels[n] = errNew
	}
	errWrap := func(pe *PE, c *pcall) ([]any, bool) {
		if _, ok := c.args[0].(pnil); ok {
			return []any{pnil{}}, true
		}
		if pe.truth(pe.eq(c.args[0], pnil{}, c.pos)) {
			return []any{pnil{}}, true
		}
		return []any{pe.newError(c.name, c.args...)}, true
	}
	for _, n := range []string{"Wrap", "Wrapf", "WithMessage", "WithMessagef", "WithStack"} {
		pmodels["github.com/pkg/errors."+n] = errWrap
	}
	sprint := func(pe *PE, c *pcall) ([]any, bool) {
		vs, ok := fmtArgs(c.args[len(c.args)-1])
		if !ok {
			return []any{unk("call "+c.name, types.Typ[types.String], c.args...)}, true
		}
		switch c.name {
		case "fmt.Sprintf":
			if f, ok := c.args[0].(string); ok {
				return []any{fmt.Sprintf(f, vs...)}, true
			}
			return nil, false
		case "fmt.Sprint":
			return []any{fmt.Sprint(vs...)}, true
		}
		return []any{fmt.Sprintln(vs...)}, true
	}
	pmodels["fmt.Sprintf"], pmodels["fmt.Sprint"], pmodels["fmt.Sprintln"] = sprint, sprint, sprint
	fprint := func(pe *PE, c *pcall) ([]any, bool) {
		// into a text buffer
		w, ok := c.args[0].(piface)
		if ok {
			if p, ok := w.t.(*types.Pointer); ok {
				switch typeName(p.Elem()) {
				case "strings.Builder", "bytes.Buffer":
					inner := *c
					inner.name = "fmt.S" + c.name[5:]
					inner.args = c.args[1:]
					rs, ok := sprint(pe, &inner)
					if !ok {
						return nil, false
					}
					return pe.write(c.fr, w.v, rs[0], c.pos), true
				}
			}
		}
		if f := handle(c.args[0]); f != nil && pe.toFile != nil {
			inner := *c
			inner.name = "fmt.S" + c.name[5:]
			inner.args = c.args[1:]
			rs, ok := sprint(pe, &inner)
			if !ok {
				return nil, false
			}
			pe.toFile(f, rs[0])
			return []any{unk("written", types.Typ[types.Int], rs[0]), pnil{}}, true
		}
		pe.event(c.fr, c.name, c.args, c.pos, nil)
		return []any{int64(0), pnil{}}, true
	}
	pmodels["fmt.Fprintf"], pmodels["fmt.Fprint"], pmodels["fmt.Fprintln"] = fprint, fprint, fprint
	print := func(pe *PE, c *pcall) ([]any, bool) {
		pe.event(c.fr, c.name, c.args, c.pos, nil)
		return []any{int64(0), pnil{}}, true
	}
	pmodels["fmt.Printf"], pmodels["fmt.Print"], pmodels["fmt.Println"] = print, print, print
	exit := func(pe *PE, c *pcall) ([]any, bool) {
		pe.event(c.fr, c.name, c.args, c.pos, nil)
		var code any = int64(1)
		if c.name == "os.Exit" {
			code = c.args[0]
		}
		pe.abort("exit", c.pos, c.name, code)
		return nil, true
	}
	for _, n := range []string{"os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln"} {
		pmodels[n] = exit
	}
	for _, t := range []string{"strings.Builder", "bytes.Buffer"} {
		t := "(*" + t + ")."
		pmodels[t+"WriteString"] = func(pe *PE, c *pcall) ([]any, bool) { return pe.write(c.fr, c.args[0], c.args[1], c.pos), true }
		pmodels[t+"Write"] = func(pe *PE, c *pcall) ([]any, bool) {
			s, ok := bytesOf(c.args[1])
			if !ok {
				return pe.write(c.fr, c.args[0], unk("text", types.Typ[types.String], c.args[1]), c.pos), true
			}
			return pe.write(c.fr, c.args[0], s, c.pos), true
		}
		wr := func(pe *PE, c *pcall) ([]any, bool) {
			n, ok := c.args[1].(int64)
			if !ok {
				return nil, false
			}
			r := pe.write(c.fr, c.args[0], string(rune(n)), c.pos)
			if c.sig != nil && c.sig.Results().Len() == 1 {
				return []any{pnil{}}, true
			}
			return r, true
		}
		pmodels[t+"WriteByte"], pmodels[t+"WriteRune"] = wr, wr
		pmodels[t+"String"] = func(pe *PE, c *pcall) ([]any, bool) { return []any{bufText(builderBuf(pe, c.args[0], c.pos))}, true }
		pmodels[t+"Bytes"] = func(pe *PE, c *pcall) ([]any, bool) {
			return []any{pe.convert(bufText(builderBuf(pe, c.args[0], c.pos)), types.Typ[types.String], types.NewSlice(types.Typ[types.Byte]))}, true
		}
		pmodels[t+"Len"] = func(pe *PE, c *pcall) ([]any, bool) {
			return []any{pe.builtin(c.fr, "len", []any{bufText(builderBuf(pe, c.args[0], c.pos))}, nil, c.pos)}, true
		}
		pmodels[t+"Reset"] = func(pe *PE, c *pcall) ([]any, bool) {
			builderBuf(pe, c.args[0], c.pos).v = ""
			return nil, true
		}
		pmodels[t+"Grow"] = func(pe *PE, c *pcall) ([]any, bool) { return nil, true }
	}
	pmodels["strings.NewReplacer"] = func(pe *PE, c *pcall) ([]any, bool) {
		ss, ok := strsOf(c.args[0])
		if !ok || len(ss)%2 != 0 {
			return nil, false
		}
		return []any{&pextern{kind: "replacer", name: strings.Join(ss, "|"), data: strings.NewReplacer(ss...)}}, true
	}
	pmodels["(*strings.Replacer).Replace"] = func(pe *PE, c *pcall) ([]any, bool) {
		x, ok := c.args[0].(*pextern)
		s, ok2 := c.args[1].(string)
		if !ok || !ok2 {
			return nil, false
		}
		return []any{x.data.(*strings.Replacer).Replace(s)}, true
	}
	tag := func(pe *PE, c *pcall) ([]any, bool) {
		s, ok1 := c.args[0].(string)
		k, ok2 := c.args[1].(string)
		if !ok1 || !ok2 {
			return nil, false
		}
		v, has := reflect.StructTag(s).Lookup(k)
		if c.name == "(reflect.StructTag).Get" {
			return []any{v}, true
		}
		return []any{v, has}, true
	}
	pmodels["(reflect.StructTag).Get"], pmodels["(reflect.StructTag).Lookup"] = tag, tag
	// reflect is only used to name the dynamic type of a value
	dyn := func(pe *PE, c *pcall) ([]any, bool) {
		if i, ok := c.args[0].(piface); ok {
			return []any{&pextern{kind: "reflect", name: types.TypeString(i.t, func(p *types.Package) string { return p.Name() }), data: i.t}}, true
		}
		return nil, false
	}
	pmodels["reflect.TypeOf"], pmodels["reflect.ValueOf"] = dyn, dyn
	pmodels["(reflect.Value).Type"] = func(pe *PE, c *pcall) ([]any, bool) {
		if x, ok := c.args[0].(*pextern); ok {
			return []any{x}, true
		}
		return nil, false
	}
	pmodels["(reflect.Type).String"] = func(pe *PE, c *pcall) ([]any, bool) {
		if x, ok := c.args[0].(*pextern); ok {
			return []any{x.name}, true
		}
		return nil, false
	}
	pmodels["sort.Strings"] = func(pe *PE, c *pcall) ([]any, bool) {
		if s, ok := c.args[0].(pslice); ok {
			pe.sortSlice(c.fr, s, func(a, b any) bool { return a.(string) < b.(string) })
		}
		return nil, true
	}
	slicesSort := func(pe *PE, c *pcall) ([]any, bool) {
		if s, ok := c.args[0].(pslice); ok {
			pe.sortSlice(c.fr, s, func(a, b any) bool {
				r, _ := pe.binop(token.LSS, a, b, types.Typ[types.String], c.pos).(bool)
				return r
			})
		}
		return nil, true
	}
	pmodels["slices.Sort"] = slicesSort
	sortFunc := func(pe *PE, c *pcall) ([]any, bool) {
		if s, ok := c.args[0].(pslice); ok {
			pe.sortSlice(c.fr, s, func(a, b any) bool {
				r := pe.callVal(c.fr, c.args[1], []any{a, b}, c.pos)
				n, ok := r[0].(int64)
				if !ok {
					pe.undecided("unknown comparison")
				}
				return n < 0
			})
		}
		return nil, true
	}
	pmodels["slices.SortFunc"], pmodels["slices.SortStableFunc"] = sortFunc, sortFunc
	// the comparison of sort.Slice looks at the slice by index: insertion sort in place
	sortIdx := func(pe *PE, c *pcall) ([]any, bool) {
		i, ok := c.args[0].(piface)
		if !ok {
			return nil, false
		}
		s, ok := i.v.(pslice)
		if !ok {
			return nil, true
		}
		for i := 1; i < len(s.e); i++ {
			for j := i; j > 0; j-- {
				r := pe.callVal(c.fr, c.args[1], []any{int64(j), int64(j - 1)}, c.pos)
				if !pe.truth(r[0]) {
					break
				}
				a, b := pcopy(s.e[j].v), pcopy(s.e[j-1].v)
				pset(s.e[j], b)
				pset(s.e[j-1], a)
			}
		}
		return nil, true
	}
	pmodels["sort.Slice"], pmodels["sort.SliceStable"] = sortIdx, sortIdx
	sortIface := func(pe *PE, c *pcall) ([]any, bool) {
		i, ok := c.args[0].(piface)
		if !ok {
			return nil, false
		}
		call := func(name string, args ...any) any {
			var obj types.Object
			obj, _, _ = types.LookupFieldOrMethod(i.t, true, nil, name)
			if obj == nil {
				pe.undecided("%s has no method %s", i.t, name)
			}
			sel := pe.prog.MethodSets.MethodSet(i.t).Lookup(obj.Pkg(), name)
			fn := pe.prog.MethodValue(sel)
			r := pe.callVal(c.fr, &pfunc{fn: fn, name: fnName(fn)}, append([]any{i.v}, args...), c.pos)
			if len(r) == 0 {
				return nil
			}
			return r[0]
		}
		n, ok := call("Len").(int64)
		if !ok {
			return nil, false
		}
		for i := int64(1); i < n; i++ {
			for j := i; j > 0; j-- {
				if !pe.truth(call("Less", j, j-1)) {
					break
				}
				call("Swap", j, j-1)
			}
		}
		return nil, true
	}
	pmodels["sort.Sort"], pmodels["sort.Stable"] = sortIface, sortIface
	pmodels["maps.Keys"] = func(pe *PE, c *pcall) ([]any, bool) {
		var ks []any
		switch m := c.args[0].(type) {
		case *pmap:
			ks = pe.mapOrder(m, c.pos)
		case pnil:
		default:
			return nil, false
		}
		return []any{pseq(ks)}, true
	}
	pmodels["maps.Values"] = func(pe *PE, c *pcall) ([]any, bool) {
		var ks []any
		switch m := c.args[0].(type) {
		case *pmap:
			for _, k := range pe.mapOrder(m, c.pos) {
				v, _ := m.get(k)
				ks = append(ks, pcopy(v.v))
			}
		case pnil:
		default:
			return nil, false
		}
		return []any{pseq(ks)}, true
	}
	for _, x := range []string{"golang.org/x/exp/maps.Keys"} {
		pmodels[x] = func(pe *PE, c *pcall) ([]any, bool) {
			m, ok := c.args[0].(*pmap)
			if !ok {
				return nil, false
			}
			var e []*pcell
			for _, k := range pe.mapOrder(m, c.pos) {
				e = append(e, &pcell{k})
			}
			return []any{pslice{e}}, true
		}
	}
	pmodels["go/format.Source"] = func(pe *PE, c *pcall) ([]any, bool) {
		s, ok := bytesOf(c.args[0])
		if !ok {
			return nil, false
		}
		pe.event(c.fr, c.name, c.args, c.pos, nil)
		b, err := format.Source([]byte(s))
		if err != nil {
			return []any{pnil{}, pe.newError("format.Source", err.Error())}, true
		}
		return []any{pbytes(b), pnil{}}, true
	}
	pmodels["(*sync.WaitGroup).Wait"] = func(pe *PE, c *pcall) ([]any, bool) {
		for len(pe.pending) > 0 {
			run := pe.pending[len(pe.pending)-1]
			pe.pending = pe.pending[:len(pe.pending)-1]
			run()
		}
		return nil, true
	}
	nop := func(pe *PE, c *pcall) ([]any, bool) { return nil, true }
	for _, n := range []string{"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		pmodels[n] = nop
	}
	pmodels["runtime.GOROOT"] = func(pe *PE, c *pcall) ([]any, bool) { return []any{"/goroot"}, true }
}

// pseq is an iterator over known values.
func pseq(vs []any) *pfunc {
	return &pfunc{name: "seq", native: func(pe *PE, args []any, pos token.Pos) []any {
		for _, v := range vs {
			r := pe.callVal(nil, args[0], []any{v}, pos)
			if !pe.truth(r[0]) {
				break
			}
		}
		return nil
	}}
}
