package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"slices"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Partial evaluation of the generator over schematic inputs.
//
// A schematic input is a source tree, a service model or a configuration whose
// shape is known and whose names are place holders. The SSA form of the
// generator is specialised to it: values that depend only on the shape are
// folded, everything that comes from outside (files, the environment, errors of
// the library) is an unknown, and every branch on an unknown is followed both
// ways (each path by one replay with a prefix of decisions). Effects on the
// outside world are not performed but recorded.

type pnil struct{}

type pcell struct{ v any }

type pstruct struct{ f []*pcell }

type parray struct{ e []*pcell }

type pslice struct{ e []*pcell }

// pbytes is a byte slice with known, never modified content.
type pbytes string

type pmap struct {
	keys []string
	kv   map[string]any
	vals map[string]*pcell
}

type piface struct {
	t types.Type
	v any
}

type pfunc struct {
	fn     *ssa.Function
	binds  []any
	native func(pe *PE, args []any, pos token.Pos) []any
	name   string
}

type ptuple []any

// punk is a value that is not known: an operation on other values.
type punk struct {
	op   string
	args []any
	typ  types.Type
	k    string
}

// pextern is an object of the outside world (file information, a file set ...).
type pextern struct {
	kind string
	name string
	data any
}

type piter struct {
	keys []any
	m    *pmap
	s    string
	pos  int
	str  bool
}

type pevent struct {
	name string
	args []any
	pos  token.Pos
	fn   *ssa.Function // caller
	res  any
}

type pdecision struct {
	key string
	val bool
	src string // something that differs between runs
}

// pout is the result of one path.
type pout struct {
	kind  string // ret, exit, panic
	rets  []any
	trace []*pevent
	conds []pdecision
	pos   token.Pos
	pe    *PE
	msg   string
}

type pabort struct{ o *pout }

type PE struct {
	c        *Check
	P        *Program
	prog     *ssa.Program
	globals  map[*ssa.Global]*pcell
	decided  map[string]bool
	conds    []pdecision
	prefix   []bool
	dpos     int
	trace    []*pevent
	occ      map[string]int
	unkmem   map[string]*pcell
	steps    int
	maxSteps int
	depth    int
	funcs    map[*ssa.Function]bool
	calls    int
	reverse  bool // iterate over maps in the opposite order
	flip     func(site token.Pos, ks []string)
	late     bool // goroutines run when they are waited for, the last one first
	pending  []func()
	spawned  bool
	sites    map[token.Pos]int // iterations over maps with several elements
	world    *world
	models   map[string]pmodel // additional models of this run
	compared map[string]token.Pos
	inited   map[*ssa.Package]bool
	astOf    map[*pcell]*astPkg
	initing  bool
	toFile   func(f *openFile, v any) // what is written to an open file
}

// peProgram is a second SSA program that also has the syntax of the imported packages.
type peProgram struct {
	prog         *ssa.Program
	root, config *ssa.Package
	cmds         []*ssa.Package
	analysed     map[*ssa.Package]bool
	built        map[*ssa.Package]bool
}

func (p *Program) peProg() *peProgram {
	if p.pe != nil {
		return p.pe
	}
	prog, spkgs := ssautil.AllPackages(p.pkgs, ssa.InstantiateGenerics)
	pp := &peProgram{prog: prog, analysed: map[*ssa.Package]bool{}, built: map[*ssa.Package]bool{}}
	for i, sp := range spkgs {
		if sp == nil {
			continue
		}
		sp.Build()
		pp.built[sp] = true
		pp.analysed[sp] = true
		switch q := p.pkgs[i].PkgPath; {
		case q == modPath:
			pp.root = sp
		case q == modPath+"/config":
			pp.config = sp
		case strings.HasPrefix(q, modPath+"/cmd"):
			pp.cmds = append(pp.cmds, sp)
		}
	}
	p.pe = pp
	return pp
}

// interpreted are library packages whose functions are analysed from their source
// unless there is a model for them.
var interpreted = map[string]bool{
	"strings": true, "strconv": true, "path": true, "path/filepath": true, "internal/filepathlite": true, "sort": true, "slices": true, "maps": true, "iter": true,
	"unicode": true, "unicode/utf8": true, "bytes": true, "go/ast": true, "go/token": true, "cmp": true, "errors": true, "math": true, "math/bits": true,
	"internal/stringslite": true, "github.com/iancoleman/strcase": true, "golang.org/x/exp/maps": true, "golang.org/x/exp/slices": true,
	"golang.org/x/mod/module": true, "unicode/utf16": true, "container/list": true, "container/heap": true, "regexp/syntax": false, "text/tabwriter": false,
}

func (pe *PE) undecided(format string, a ...any) { panic(Undecided{fmt.Sprintf(format, a...)}) }

// explore evaluates a function on all paths. setup builds the schematic input
// anew for every path.
func (c *Check) explore(maxPaths int, setup func(pe *PE) (*ssa.Function, []any)) []*pout {
	var outs []*pout
	work := [][]bool{nil}
	for len(work) > 0 {
		c.inTime()
		prefix := work[len(work)-1]
		work = work[:len(work)-1]
		pp := c.P.peProg()
		pe := &PE{c: c, P: c.P, prog: pp.prog, globals: map[*ssa.Global]*pcell{}, decided: map[string]bool{}, prefix: prefix, occ: map[string]int{},
			unkmem: map[string]*pcell{}, maxSteps: 20000000, funcs: map[*ssa.Function]bool{}, models: map[string]pmodel{}, compared: map[string]token.Pos{}, inited: map[*ssa.Package]bool{}}
		o := pe.path(setup)
		for f := range pe.funcs {
			if f.Pkg != nil && pp.analysed[f.Pkg] {
				c.funcs[fnName(f)] = true
			}
		}
		c.paths++
		c.calls += pe.calls
		outs = append(outs, o)
		if len(outs) > maxPaths {
			if c.partial {
				return outs
			}
			pe.undecided("more than %d paths", maxPaths)
		}
		for i := len(prefix); i < len(pe.conds); i++ {
			p := make([]bool, i+1)
			for j := 0; j < i; j++ {
				p[j] = pe.conds[j].val
			}
			p[i] = !pe.conds[i].val
			work = append(work, p)
		}
	}
	return outs
}

// timeBudget bounds a check: what is not decided by then is undecided.
const timeBudget = 400 * time.Second

func (c *Check) inTime() {
	if !c.t0.IsZero() && time.Since(c.t0) > timeBudget {
		panic(Undecided{"time budget exceeded"})
	}
}

// once repeats the limit that an earlier derivation of the same thing ran into.
func (p *Program) once(key string) {
	if u, ok := p.limits[key]; ok {
		panic(u)
	}
}

// failed, deferred, remembers such a limit.
func (p *Program) failed(key string) {
	if r := recover(); r != nil {
		if u, ok := r.(Undecided); ok {
			if p.limits == nil {
				p.limits = map[string]Undecided{}
			}
			p.limits[key] = u
		}
		panic(r)
	}
}

func (pe *PE) path(setup func(pe *PE) (*ssa.Function, []any)) (o *pout) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(pabort); ok {
				o = a.o
				o.trace, o.conds, o.pe = pe.trace, pe.conds, pe
				return
			}
			panic(r)
		}
	}()
	fn, args := setup(pe)
	if fn == nil {
		return &pout{kind: "ret", pe: pe}
	}
	if len(fn.Blocks) == 0 {
		pe.undecided("%s has no body", fn)
	}
	rets := pe.callFn(fn, args, nil, fn.Pos())
	return &pout{kind: "ret", rets: rets, trace: pe.trace, conds: pe.conds, pe: pe}
}

func (pe *PE) abort(kind string, pos token.Pos, msg string, rets ...any) {
	panic(pabort{&pout{kind: kind, pos: pos, msg: msg, rets: rets}})
}

// decide chooses the value of an unknown condition.
func (pe *PE) decide(key string) bool {
	if v, ok := pe.decided[key]; ok {
		return v
	}
	v := true
	if pe.dpos < len(pe.prefix) {
		v = pe.prefix[pe.dpos]
	}
	pe.dpos++
	pe.decided[key] = v
	pe.conds = append(pe.conds, pdecision{key: key, val: v})
	return v
}

// decideOn decides a condition that is not known.
func (pe *PE) decideOn(key string, on any) bool {
	n := len(pe.conds)
	r := pe.decide(key)
	if len(pe.conds) > n {
		pe.conds[n].src = nondetIn(on)
	}
	return r
}

func (pe *PE) truth(v any) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *punk:
		if v.op == "not" {
			return !pe.truth(v.args[0])
		}
		if v.op == "==" {
			// the same condition however it is written
			a, b := pkey(v.args[0]), pkey(v.args[1])
			if b < a {
				a, b = b, a
			}
			return pe.decideOn(a+" == "+b, v)
		}
		return pe.decideOn(v.key(), v)
	}
	pe.undecided("condition %T", v)
	return false
}

func (u *punk) key() string {
	if u.k == "" {
		var b strings.Builder
		b.WriteString(u.op)
		if len(u.args) > 0 {
			b.WriteByte('(')
			for i, a := range u.args {
				if i > 0 {
					b.WriteByte(',')
				}
				b.WriteString(pkey(a))
			}
			b.WriteByte(')')
		}
		u.k = b.String()
	}
	return u.k
}

// pkey is a printable identity of a value.
func pkey(v any) string {
	switch v := v.(type) {
	case nil:
		return "<none>"
	case pnil:
		return "nil"
	case string:
		return fmt.Sprintf("%q", v)
	case bool, int64, float64:
		return fmt.Sprint(v)
	case *punk:
		return v.key()
	case *pcell:
		return fmt.Sprintf("&%p", v)
	case pslice:
		var ss []string
		for i, e := range v.e {
			if i == 20 {
				ss = append(ss, "...")
				break
			}
			ss = append(ss, pkey(e.v))
		}
		return "[" + strings.Join(ss, " ") + "]"
	case *pstruct:
		var ss []string
		for _, e := range v.f {
			ss = append(ss, pkey(e.v))
		}
		return "{" + strings.Join(ss, " ") + "}"
	case *parray:
		return fmt.Sprintf("array%p", v)
	case *pmap:
		if len(v.keys) > 20 {
			return fmt.Sprintf("map%p", v)
		}
		var ss []string
		for _, k := range v.keys {
			ss = append(ss, pkey(v.kv[k])+":"+pkey(v.vals[k].v))
		}
		sort.Strings(ss)
		return "map[" + strings.Join(ss, " ") + "]"
	case piface:
		return pkey(v.v)
	case *pfunc:
		return "func " + v.name
	case pbytes:
		return fmt.Sprintf("bytes %q", string(v))
	case *pextern:
		return v.kind + " " + v.name
	case ptuple:
		var ss []string
		for _, e := range v {
			ss = append(ss, pkey(e))
		}
		return "(" + strings.Join(ss, " ") + ")"
	}
	return fmt.Sprintf("%T", v)
}

func unk(op string, typ types.Type, args ...any) *punk { return &punk{op: op, args: args, typ: typ} }

// ---- zero values and copies ---------------------------------------------------------------

func pzero(t types.Type) any {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		}
		return pnil{}
	case *types.Struct:
		s := &pstruct{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, &pcell{pzero(u.Field(i).Type())})
		}
		return s
	case *types.Array:
		a := &parray{}
		if u.Len() > 100000 {
			return unk("bigarray", t)
		}
		for i := int64(0); i < u.Len(); i++ {
			a.e = append(a.e, &pcell{pzero(u.Elem())})
		}
		return a
	case *types.Tuple:
		var r ptuple
		for i := 0; i < u.Len(); i++ {
			r = append(r, pzero(u.At(i).Type()))
		}
		return r
	}
	return pnil{}
}

// pcopy copies aggregate values.
func pcopy(v any) any {
	switch v := v.(type) {
	case *pstruct:
		n := &pstruct{f: make([]*pcell, len(v.f))}
		for i, c := range v.f {
			n.f[i] = &pcell{pcopy(c.v)}
		}
		return n
	case *parray:
		n := &parray{e: make([]*pcell, len(v.e))}
		for i, c := range v.e {
			n.e[i] = &pcell{pcopy(c.v)}
		}
		return n
	}
	return v
}

// pset stores into a cell, keeping the identity of the places inside aggregates.
func pset(c *pcell, v any) {
	switch v := v.(type) {
	case *pstruct:
		if o, ok := c.v.(*pstruct); ok && len(o.f) == len(v.f) {
			if o == v {
				return
			}
			t := pcopy(v).(*pstruct)
			for i := range o.f {
				pset(o.f[i], t.f[i].v)
			}
			return
		}
		c.v = pcopy(v)
	case *parray:
		if o, ok := c.v.(*parray); ok && len(o.e) == len(v.e) {
			if o == v {
				return
			}
			t := pcopy(v).(*parray)
			for i := range o.e {
				pset(o.e[i], t.e[i].v)
			}
			return
		}
		c.v = pcopy(v)
	default:
		c.v = v
	}
}

func newPMap() *pmap { return &pmap{kv: map[string]any{}, vals: map[string]*pcell{}} }

func mapKey(v any) (string, bool) {
	switch v := v.(type) {
	case string:
		return "s" + v, true
	case int64, bool, float64:
		return fmt.Sprintf("%T%v", v, v), true
	case *pcell:
		return fmt.Sprintf("p%p", v), true
	case pnil:
		return "nil", true
	case piface:
		k, ok := mapKey(v.v)
		return "i" + v.t.String() + ":" + k, ok
	case *pstruct:
		s := "{"
		for _, f := range v.f {
			k, ok := mapKey(f.v)
			if !ok {
				return "", false
			}
			s += fmt.Sprintf("%d:%s,", len(k), k)
		}
		return s + "}", true
	case *punk:
		return "u" + v.key(), true
	case *pextern:
		return "x" + v.kind + v.name, true
	}
	return "", false
}

func (m *pmap) get(k any) (*pcell, bool) {
	s, ok := mapKey(k)
	if !ok {
		return nil, false
	}
	c, ok := m.vals[s]
	return c, ok
}

func (m *pmap) set(pe *PE, k, v any) {
	s, ok := mapKey(k)
	if !ok {
		pe.undecided("map key %T", k)
	}
	if c, ok := m.vals[s]; ok {
		pset(c, v)
		return
	}
	m.keys = append(m.keys, s)
	m.kv[s] = k
	m.vals[s] = &pcell{pcopy(v)}
}

func (m *pmap) del(k any) {
	s, _ := mapKey(k)
	if _, ok := m.vals[s]; !ok {
		return
	}
	delete(m.vals, s)
	delete(m.kv, s)
	for i, x := range m.keys {
		if x == s {
			m.keys = append(append([]string(nil), m.keys[:i]...), m.keys[i+1:]...)
			break
		}
	}
}

// mapOrder is the order in which the iteration at a site visits a map.
func (pe *PE) mapOrder(m *pmap, site token.Pos) []any {
	ks := append([]string(nil), m.keys...)
	sort.Strings(ks)
	if len(ks) > 1 {
		if pe.sites == nil {
			pe.sites = map[token.Pos]int{}
		}
		pe.sites[site] = max(pe.sites[site], len(ks))
	}
	switch {
	case pe.flip != nil:
		pe.flip(site, ks)
	case pe.reverse:
		slices.Reverse(ks)
	}
	var r []any
	for _, k := range ks {
		r = append(r, m.kv[k])
	}
	return r
}

// ---- frames ----------------------------------------------------------------------------------

type pframe struct {
	fn        *ssa.Function
	env       map[ssa.Value]any
	binds     []any
	defers    []func()
	rets      []any
	panicking *pout
}

func (pe *PE) callFn(fn *ssa.Function, args []any, binds []any, pos token.Pos) []any {
	if pe.depth > 400 {
		pe.undecided("recursion too deep in %s", fn)
	}
	pe.depth++
	defer func() { pe.depth-- }()
	pe.funcs[fn] = true
	fr := &pframe{fn: fn, env: make(map[ssa.Value]any, 32), binds: binds}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(binds) {
			fr.env[v] = binds[i]
		}
	}
	return pe.runBody(fr)
}

func (pe *PE) runBody(fr *pframe) (rets []any) {
	if fr.fn.Recover != nil {
		// a function with deferred calls: they also run when the body panics
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			a, ok := r.(pabort)
			if !ok || a.o.kind != "panic" {
				panic(r)
			}
			fr.panicking = a.o
			pe.runDefers(fr)
			if fr.panicking != nil {
				panic(r)
			}
			rets = pe.runBlocks(fr, fr.fn.Recover, nil)
		}()
	}
	return pe.runBlocks(fr, fr.fn.Blocks[0], nil)
}

func (pe *PE) runDefers(fr *pframe) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		d()
	}
}

func (pe *PE) runBlocks(fr *pframe, b, from *ssa.BasicBlock) []any {
	for {
		if from != nil {
			idx := -1
			for i, p := range b.Preds {
				if p == from {
					idx = i
				}
			}
			var ps []*ssa.Phi
			var vs []any
			for _, in := range b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				ps = append(ps, p)
				vs = append(vs, pe.val(fr, p.Edges[idx]))
			}
			for i, p := range ps {
				fr.env[p] = vs[i]
			}
		}
		var next *ssa.BasicBlock
		for _, in := range b.Instrs {
			pe.steps++
			if pe.steps&0xffff == 0 {
				pe.c.inTime()
			}
			if pe.steps > pe.maxSteps {
				pe.undecided("step budget exceeded in %s", fr.fn)
			}
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				if pe.truth(pe.val(fr, in.Cond)) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Return:
				var rets []any
				for _, r := range in.Results {
					rets = append(rets, pcopy(pe.val(fr, r)))
				}
				return rets
			case *ssa.Panic:
				pe.abort("panic", in.Pos(), pkey(pe.val(fr, in.X)), pe.val(fr, in.X))
			case *ssa.RunDefers:
				pe.runDefers(fr)
			case *ssa.Defer:
				f, args := pe.callee(fr, &in.Call)
				call := in.Call
				pos := in.Pos()
				fr.defers = append(fr.defers, func() { pe.apply(fr, &call, f, args, pos) })
			case *ssa.Go:
				f, args := pe.callee(fr, &in.Call)
				pe.event(fr, "go "+pcalleeName(&in.Call, f), args, in.Pos(), nil)
				pe.spawned = true
				if run := func() { pe.apply(fr, &in.Call, f, args, in.Pos()) }; pe.late {
					pe.pending = append(pe.pending, run)
				} else {
					run()
				}
			case *ssa.Call:
				f, args := pe.callee(fr, &in.Call)
				rets := pe.apply(fr, &in.Call, f, args, in.Pos())
				if len(rets) == 1 {
					fr.env[in] = rets[0]
				} else {
					fr.env[in] = ptuple(rets)
				}
			default:
				pe.instr(fr, in)
			}
		}
		if next == nil {
			pe.undecided("block without terminator in %s", fr.fn)
		}
		from, b = b, next
	}
}

func (pe *PE) event(fr *pframe, name string, args []any, pos token.Pos, res any) *pevent {
	e := &pevent{name: name, args: args, pos: pos, res: res}
	if fr != nil {
		e.fn = fr.fn
	}
	pe.trace = append(pe.trace, e)
	return e
}

func (pe *PE) val(fr *pframe, v ssa.Value) any {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return pzero(v.Type())
		}
		return constVal(v.Value, v.Type())
	case *ssa.Global:
		return pe.global(v)
	case *ssa.Function:
		return &pfunc{fn: v, name: fnName(v)}
	case *ssa.Builtin:
		return &pfunc{name: "builtin " + v.Name()}
	}
	if x, ok := fr.env[v]; ok {
		return x
	}
	pe.undecided("value %s of %s not bound", v.Name(), fr.fn)
	return nil
}

func constVal(cv constant.Value, t types.Type) any {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			if cv.Kind() == constant.String {
				return constant.StringVal(cv)
			}
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(cv)
		case b.Info()&types.IsInteger != 0:
			if n, ok := constant.Int64Val(constant.ToInt(cv)); ok {
				return n
			}
			u, _ := constant.Uint64Val(constant.ToInt(cv))
			return int64(u)
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(cv)
			return f
		}
	}
	return unk("const "+cv.String(), t)
}

func (pe *PE) global(g *ssa.Global) *pcell {
	if c, ok := pe.globals[g]; ok {
		return c
	}
	pp := pe.P.pe
	if g.Pkg != nil && (pp.analysed[g.Pkg] || interpreted[g.Pkg.Pkg.Path()]) && !pe.inited[g.Pkg] {
		pe.initPkg(g.Pkg)
		if c, ok := pe.globals[g]; ok {
			return c
		}
	}
	c := &pcell{}
	et := g.Type().Underlying().(*types.Pointer).Elem()
	if g.Pkg != nil && (pp.analysed[g.Pkg] || interpreted[g.Pkg.Pkg.Path()]) {
		c.v = pzero(et)
	} else {
		c.v = unk("global "+g.RelString(nil), et)
	}
	pe.globals[g] = c
	return c
}

// initPkg evaluates the initialisation of a package.
func (pe *PE) initPkg(p *ssa.Package) {
	pe.inited[p] = true
	pe.build(p)
	init := p.Func("init")
	if init == nil || len(init.Blocks) == 0 {
		return
	}
	// initialisation succeeds: a program whose initialisation panics does not start
	n, m := len(pe.trace), pe.initing
	pe.initing = true
	pe.callFn(init, nil, nil, init.Pos())
	pe.trace = pe.trace[:n]
	pe.initing = m
}

func (pe *PE) build(p *ssa.Package) {
	pp := pe.P.pe
	if !pp.built[p] {
		pp.built[p] = true
		p.Build()
	}
}

func (pe *PE) addr(v any, pos token.Pos) *pcell {
	switch v := v.(type) {
	case *pcell:
		return v
	case pnil:
		pe.abort("panic", pos, "nil pointer dereference")
	case *punk:
		k := v.key()
		c := pe.unkmem[k]
		if c == nil {
			var et types.Type
			if v.typ != nil {
				if p, ok := v.typ.Underlying().(*types.Pointer); ok {
					et = p.Elem()
				}
			}
			c = &pcell{unk("deref", et, v)}
			pe.unkmem[k] = c
		}
		return c
	}
	pe.undecided("address %T", v)
	return nil
}

func (pe *PE) fields(v any, t types.Type) *pstruct {
	switch v := v.(type) {
	case *pstruct:
		return v
	case *punk:
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			break
		}
		r := &pstruct{}
		for i := 0; i < s.NumFields(); i++ {
			r.f = append(r.f, &pcell{unk("field "+s.Field(i).Name(), s.Field(i).Type(), v)})
		}
		return r
	}
	pe.undecided("struct value %T of %s", v, t)
	return nil
}

func (pe *PE) instr(fr *pframe, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		fr.env[in] = &pcell{pzero(in.Type().Underlying().(*types.Pointer).Elem())}
	case *ssa.BinOp:
		fr.env[in] = pe.binop(in.Op, pe.val(fr, in.X), pe.val(fr, in.Y), in.X.Type(), in.Pos())
	case *ssa.UnOp:
		x := pe.val(fr, in.X)
		switch in.Op {
		case token.MUL:
			fr.env[in] = pcopy(pe.addr(x, in.Pos()).v)
		case token.NOT:
			if b, ok := x.(bool); ok {
				fr.env[in] = !b
			} else {
				fr.env[in] = unk("not", in.Type(), x)
			}
		case token.SUB:
			switch x := x.(type) {
			case int64:
				fr.env[in] = -x
			case float64:
				fr.env[in] = -x
			default:
				fr.env[in] = unk("neg", in.Type(), x)
			}
		case token.XOR:
			if n, ok := x.(int64); ok {
				fr.env[in] = wrapInt(^n, in.Type())
			} else {
				fr.env[in] = unk("xor", in.Type(), x)
			}
		default:
			fr.env[in] = unk("unop "+in.Op.String(), in.Type(), x)
		}
	case *ssa.ChangeType:
		fr.env[in] = pe.val(fr, in.X)
	case *ssa.ChangeInterface:
		fr.env[in] = pe.val(fr, in.X)
	case *ssa.Convert:
		fr.env[in] = pe.convert(pe.val(fr, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		fr.env[in] = pe.convert(pe.val(fr, in.X), in.X.Type(), in.Type())
	case *ssa.MakeInterface:
		x := pcopy(pe.val(fr, in.X))
		fr.env[in] = piface{in.X.Type(), x}
	case *ssa.MakeClosure:
		var bs []any
		for _, b := range in.Bindings {
			bs = append(bs, pe.val(fr, b))
		}
		f := in.Fn.(*ssa.Function)
		fr.env[in] = &pfunc{fn: f, binds: bs, name: fnName(f)}
	case *ssa.MakeMap:
		fr.env[in] = newPMap()
	case *ssa.MakeSlice:
		l, ok1 := pe.val(fr, in.Len).(int64)
		cp, ok2 := pe.val(fr, in.Cap).(int64)
		if !ok1 || !ok2 || cp > 1000000 {
			fr.env[in] = unk("make", in.Type(), pe.val(fr, in.Len))
			return
		}
		if l < 0 || cp < l {
			pe.abort("panic", in.Pos(), "makeslice: len out of range")
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		e := make([]*pcell, l, cp)
		for i := range e {
			e[i] = &pcell{pzero(et)}
		}
		fr.env[in] = pslice{e}
	case *ssa.MakeChan:
		fr.env[in] = unk("chan@"+pe.P.posKey(in.Pos()), in.Type())
	case *ssa.Slice:
		fr.env[in] = pe.slice(fr, in)
	case *ssa.FieldAddr:
		x := pe.val(fr, in.X)
		et := in.X.Type().Underlying().(*types.Pointer).Elem()
		c := pe.addr(x, in.Pos())
		s, ok := c.v.(*pstruct)
		if !ok {
			s = pe.fields(c.v, et)
			c.v = s
		}
		fr.env[in] = s.f[in.Field]
	case *ssa.Field:
		fr.env[in] = pcopy(pe.fields(pe.val(fr, in.X), in.X.Type()).f[in.Field].v)
	case *ssa.IndexAddr:
		fr.env[in] = pe.index(pe.val(fr, in.X), pe.val(fr, in.Index), in.X.Type(), in.Type(), in.Pos())
	case *ssa.Index:
		x, i := pe.val(fr, in.X), pe.val(fr, in.Index)
		n, ok := i.(int64)
		switch x := x.(type) {
		case *parray:
			if ok && n >= 0 && int(n) < len(x.e) {
				fr.env[in] = pcopy(x.e[n].v)
				return
			}
		case string:
			if ok {
				if n < 0 || int(n) >= len(x) {
					pe.abort("panic", in.Pos(), "index out of range")
				}
				fr.env[in] = int64(x[n])
				return
			}
		}
		fr.env[in] = unk("index", in.Type(), x, i)
	case *ssa.Lookup:
		pe.lookup(fr, in)
	case *ssa.MapUpdate:
		switch m := pe.val(fr, in.Map).(type) {
		case *pmap:
			m.set(pe, pe.val(fr, in.Key), pe.val(fr, in.Value))
		case pnil:
			pe.abort("panic", in.Pos(), "assignment to entry in nil map")
		case *punk:
			pe.event(fr, "mapset", []any{m, pe.val(fr, in.Key), pe.val(fr, in.Value)}, in.Pos(), nil)
		}
	case *ssa.Range:
		switch x := pe.val(fr, in.X).(type) {
		case *pmap:
			fr.env[in] = &piter{keys: pe.mapOrder(x, in.Pos()), m: x}
		case pnil:
			fr.env[in] = &piter{m: newPMap()}
		case string:
			fr.env[in] = &piter{s: x, str: true}
		default:
			pe.undecided("range over an unknown collection %s in %s", pkey(x), fr.fn)
		}
	case *ssa.Next:
		it := pe.val(fr, in.Iter).(*piter)
		if it.str {
			if it.pos >= len(it.s) {
				fr.env[in] = ptuple{false, int64(0), int64(0)}
				return
			}
			for i, r := range it.s[it.pos:] {
				_ = i
				p := it.pos
				it.pos += len(string(r))
				if r == 0xFFFD {
					it.pos = p + 1
				}
				fr.env[in] = ptuple{true, int64(p), int64(r)}
				return
			}
		}
		for it.pos < len(it.keys) {
			k := it.keys[it.pos]
			it.pos++
			if c, ok := it.m.get(k); ok {
				fr.env[in] = ptuple{true, k, pcopy(c.v)}
				return
			}
		}
		fr.env[in] = ptuple{false, pnil{}, pnil{}}
	case *ssa.Extract:
		x := pe.val(fr, in.Tuple)
		if t, ok := x.(ptuple); ok {
			fr.env[in] = t[in.Index]
		} else {
			fr.env[in] = unk(fmt.Sprintf("res%d", in.Index), in.Type(), x)
		}
	case *ssa.TypeAssert:
		pe.typeAssert(fr, in)
	case *ssa.Store:
		a, v := pe.val(fr, in.Addr), pe.val(fr, in.Val)
		pset(pe.addr(a, in.Pos()), v)
		if u, ok := a.(*punk); ok {
			pe.event(fr, "store", []any{u, v}, in.Pos(), nil)
		}
	case *ssa.Send:
		pe.event(fr, "send", []any{pe.val(fr, in.Chan), pe.val(fr, in.X)}, in.Pos(), nil)
	default:
		pe.undecided("instruction %T in %s", in, fr.fn)
	}
}

func (pe *PE) index(x, i any, xt, rt types.Type, pos token.Pos) any {
	n, ok := i.(int64)
	if !ok {
		pe.undecided("unknown index at %s", pe.P.posLine(pos))
	}
	var e []*pcell
	switch v := x.(type) {
	case pslice:
		e = v.e
	case *pcell:
		a, ok := v.v.(*parray)
		if !ok {
			pe.undecided("index of %T", v.v)
		}
		e = a.e
	case pbytes:
		if n < 0 || int(n) >= len(v) {
			pe.abort("panic", pos, "index out of range")
		}
		return &pcell{int64(v[n])}
	case pnil:
		pe.abort("panic", pos, "index out of range of a nil slice")
	case *punk:
		return unk("elem", rt, x, i)
	default:
		pe.undecided("index of %T", x)
	}
	if n < 0 || int(n) >= len(e) {
		pe.abort("panic", pos, fmt.Sprintf("index out of range [%d] with length %d", n, len(e)))
	}
	return e[n]
}

func (pe *PE) slice(fr *pframe, in *ssa.Slice) any {
	x := pe.val(fr, in.X)
	get := func(v ssa.Value, d int) int {
		if v == nil {
			return d
		}
		n, ok := pe.val(fr, v).(int64)
		if !ok {
			return -1
		}
		return int(n)
	}
	unknown := false
	for _, v := range []ssa.Value{in.Low, in.High, in.Max} {
		if v != nil {
			if _, ok := pe.val(fr, v).(int64); !ok {
				unknown = true
			}
		}
	}
	if _, ok := x.(*punk); ok || unknown {
		args := []any{x}
		for _, v := range []ssa.Value{in.Low, in.High} {
			if v != nil {
				args = append(args, pe.val(fr, v))
			} else {
				args = append(args, pnil{})
			}
		}
		return unk("slice", in.Type(), args...)
	}
	var e []*pcell
	switch v := x.(type) {
	case string:
		lo, hi := get(in.Low, 0), get(in.High, len(v))
		if lo < 0 || hi < lo || hi > len(v) {
			pe.abort("panic", in.Pos(), "slice bounds out of range")
		}
		return v[lo:hi]
	case pbytes:
		lo, hi := get(in.Low, 0), get(in.High, len(v))
		if lo < 0 || hi < lo || hi > len(v) {
			pe.abort("panic", in.Pos(), "slice bounds out of range")
		}
		return v[lo:hi]
	case pslice:
		e = v.e
	case *pcell:
		a, ok := v.v.(*parray)
		if !ok {
			pe.undecided("slice of %T", v.v)
		}
		e = a.e
	case pnil:
		if get(in.Low, 0) > 0 || get(in.High, 0) > 0 {
			pe.abort("panic", in.Pos(), "slice bounds out of range")
		}
		return pnil{}
	default:
		pe.undecided("slice of %T", x)
	}
	lo, hi, mx := get(in.Low, 0), get(in.High, len(e)), get(in.Max, cap(e))
	if lo < 0 || hi < lo || hi > cap(e) || mx > cap(e) || mx < hi {
		pe.abort("panic", in.Pos(), "slice bounds out of range")
	}
	r := e[lo:hi:mx]
	for i := range r {
		if r[i] == nil {
			r[i] = &pcell{pzero(in.Type().Underlying().(*types.Slice).Elem())}
		}
	}
	return pslice{r}
}

func (pe *PE) lookup(fr *pframe, in *ssa.Lookup) {
	m, k := pe.val(fr, in.X), pe.val(fr, in.Index)
	if s, ok := m.(string); ok {
		if n, ok := k.(int64); ok {
			if n < 0 || int(n) >= len(s) {
				pe.abort("panic", in.Pos(), "index out of range")
			}
			fr.env[in] = int64(s[n])
			return
		}
	}
	var vt types.Type
	if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
		vt = mt.Elem()
	} else {
		vt = in.Type()
	}
	res := func(v any, has any) {
		if in.CommaOk {
			fr.env[in] = ptuple{v, has}
		} else {
			fr.env[in] = v
		}
	}
	switch mm := m.(type) {
	case pnil:
		res(pzero(vt), false)
		return
	case *pmap:
		if _, isUnk := k.(*punk); isUnk && len(mm.keys) > 0 {
			if c, ok := mm.get(k); ok {
				res(pcopy(c.v), true)
				return
			}
			if pe.decide(fmt.Sprintf("has(map%d keys,%s)", len(mm.keys), pkey(k))) {
				res(unk("lookup", vt, mm, k), true)
			} else {
				res(pzero(vt), false)
			}
			return
		}
		if ks, ok := k.(string); ok {
			for _, s := range mm.keys {
				if o, ok := mm.kv[s].(string); ok {
					pe.compare(ks, o, in.Pos())
				}
			}
		}
		if c, ok := mm.get(k); ok {
			res(pcopy(c.v), true)
		} else {
			res(pzero(vt), false)
		}
		return
	}
	res(unk("lookup", vt, m, k), unk("has", types.Typ[types.Bool], m, k))
}

func (pe *PE) typeAssert(fr *pframe, in *ssa.TypeAssert) {
	x := pe.val(fr, in.X)
	done := func(v any, ok bool) {
		if in.CommaOk {
			if !ok {
				v = pzero(in.AssertedType)
			}
			fr.env[in] = ptuple{v, ok}
			return
		}
		if !ok {
			pe.abort("panic", in.Pos(), "interface conversion: not a "+in.AssertedType.String())
		}
		fr.env[in] = v
	}
	it, isI := in.AssertedType.Underlying().(*types.Interface)
	switch v := x.(type) {
	case pnil:
		done(nil, false)
	case piface:
		if isI {
			done(v, types.Implements(v.t, it))
			return
		}
		done(v.v, types.Identical(v.t, in.AssertedType))
	case *punk:
		ok := pe.truth(unk("is "+in.AssertedType.String(), types.Typ[types.Bool], v))
		if isI {
			done(v, ok)
			return
		}
		done(unk("as "+in.AssertedType.String(), in.AssertedType, v), ok)
	case *pextern:
		done(v, isI)
	default:
		pe.undecided("type assertion on %T", x)
	}
}

func wrapInt(n int64, t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return n
	}
	switch b.Kind() {
	case types.Int8:
		return int64(int8(n))
	case types.Int16:
		return int64(int16(n))
	case types.Int32:
		return int64(int32(n))
	case types.Uint8:
		return int64(uint8(n))
	case types.Uint16:
		return int64(uint16(n))
	case types.Uint32:
		return int64(uint32(n))
	}
	return n
}

func unsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (pe *PE) binop(op token.Token, x, y any, t types.Type, pos token.Pos) any {
	bt := types.Typ[types.Bool]
	switch op {
	case token.EQL:
		return pe.eq(x, y, pos)
	case token.NEQ:
		switch r := pe.eq(x, y, pos).(type) {
		case bool:
			return !r
		default:
			return unk("not", bt, r)
		}
	}
	switch a := x.(type) {
	case string:
		if b, ok := y.(string); ok {
			switch op {
			case token.ADD:
				return a + b
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
		}
	case int64:
		b, ok := y.(int64)
		if !ok {
			break
		}
		u := unsigned(t)
		switch op {
		case token.ADD:
			return wrapInt(a+b, t)
		case token.SUB:
			return wrapInt(a-b, t)
		case token.MUL:
			return wrapInt(a*b, t)
		case token.QUO, token.REM:
			if b == 0 {
				pe.abort("panic", pos, "integer divide by zero")
			}
			if u {
				if op == token.QUO {
					return int64(uint64(a) / uint64(b))
				}
				return int64(uint64(a) % uint64(b))
			}
			if op == token.QUO {
				return wrapInt(a/b, t)
			}
			return a % b
		case token.AND:
			return a & b
		case token.OR:
			return a | b
		case token.XOR:
			return wrapInt(a^b, t)
		case token.AND_NOT:
			return a &^ b
		case token.SHL:
			if b >= 64 {
				return int64(0)
			}
			return wrapInt(a<<uint(b), t)
		case token.SHR:
			if b >= 64 {
				b = 63
			}
			if u {
				return int64(uint64(a) >> uint(b))
			}
			return a >> uint(b)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			c := 0
			if u {
				if uint64(a) < uint64(b) {
					c = -1
				} else if uint64(a) > uint64(b) {
					c = 1
				}
			} else if a < b {
				c = -1
			} else if a > b {
				c = 1
			}
			switch op {
			case token.LSS:
				return c < 0
			case token.LEQ:
				return c <= 0
			case token.GTR:
				return c > 0
			}
			return c >= 0
		}
	case float64:
		b, ok := y.(float64)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	}
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return unk("cmp "+op.String(), bt, x, y)
	}
	// the length of an unknown text with a known part and similar stay unknown
	return unk("op "+op.String(), t, x, y)
}

func (pe *PE) eq(x, y any, pos token.Pos) any {
	bt := types.Typ[types.Bool]
	if a, ok := x.(piface); ok {
		if b, ok := y.(piface); ok {
			if !types.Identical(a.t, b.t) {
				return false
			}
			return pe.eq(a.v, b.v, pos)
		}
	}
	_, xu := x.(*punk)
	_, yu := y.(*punk)
	if xu || yu {
		if pkey(x) == pkey(y) {
			return true
		}
		if u, ok := x.(*punk); ok && nonNil(u) {
			if _, isNil := y.(pnil); isNil {
				return false
			}
		}
		return unk("==", bt, x, y)
	}
	switch a := x.(type) {
	case pnil:
		switch y.(type) {
		case pnil:
			return true
		}
		return false
	case string:
		b, ok := y.(string)
		if ok {
			pe.compare(a, b, pos)
		}
		return ok && a == b
	case bool, int64, float64:
		return x == y
	case *pcell:
		b, ok := y.(*pcell)
		return ok && a == b
	case *pextern:
		b, ok := y.(*pextern)
		return ok && a == b
	case *pstruct:
		b, ok := y.(*pstruct)
		if !ok {
			return false
		}
		var parts []any
		for i := range a.f {
			switch r := pe.eq(a.f[i].v, b.f[i].v, pos).(type) {
			case bool:
				if !r {
					return false
				}
			default:
				parts = append(parts, r)
			}
		}
		if len(parts) > 0 {
			return unk("all", bt, parts...)
		}
		return true
	case *pmap:
		b, ok := y.(*pmap)
		return ok && a == b
	case *pfunc, pslice, pbytes:
		if _, ok := y.(pnil); ok {
			return false
		}
	case piface:
		return false
	}
	return unk("==", bt, x, y)
}

// nonNil: results that are never nil.
func nonNil(u *punk) bool { return strings.HasPrefix(u.op, "new:") }

func (pe *PE) convert(x any, from, to types.Type) any {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		switch {
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return x
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			if n, ok := x.(int64); ok {
				return wrapInt(n, to)
			}
			return x
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			if n, ok := x.(int64); ok {
				return string(rune(n))
			}
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
			if n, ok := x.(int64); ok {
				return float64(n)
			}
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			if f, ok := x.(float64); ok {
				return int64(f)
			}
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			return x
		}
		return unk("conv "+to.String(), to, x)
	}
	if isByteSlice(to) && ok1 {
		if s, ok := x.(string); ok {
			return pbytes(s)
		}
		return unk("bytes", to, x)
	}
	if isByteSlice(from) && ok2 {
		if s, ok := bytesOf(x); ok {
			return s
		}
		if u, ok := x.(*punk); ok && u.op == "bytes" {
			return u.args[0]
		}
		return unk("text", to, x)
	}
	if s, ok := to.Underlying().(*types.Slice); ok && ok1 {
		if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Rune {
			if str, ok := x.(string); ok {
				var e []*pcell
				for _, r := range str {
					e = append(e, &pcell{int64(r)})
				}
				return pslice{e}
			}
		}
	}
	if ok2 && tb.Info()&types.IsString != 0 {
		if sl, ok := x.(pslice); ok {
			var rs []rune
			for _, c := range sl.e {
				n, ok := c.v.(int64)
				if !ok {
					return unk("text", to, x)
				}
				rs = append(rs, rune(n))
			}
			return string(rs)
		}
		if _, ok := x.(pnil); ok {
			return ""
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	return unk("conv "+to.String(), to, x)
}

func bytesOf(x any) (string, bool) {
	switch v := x.(type) {
	case pbytes:
		return string(v), true
	case pnil:
		return "", true
	case pslice:
		b := make([]byte, len(v.e))
		for i, c := range v.e {
			n, ok := c.v.(int64)
			if !ok {
				return "", false
			}
			b[i] = byte(n)
		}
		return string(b), true
	}
	return "", false
}

// compare records comparisons of a place holder with a constant: the schema is
// closed under the constants the generator tells names apart by.
func (pe *PE) compare(a, b string, pos token.Pos) {
	ha, hb := strings.Contains(a, holeMark), strings.Contains(b, holeMark)
	if ha == hb {
		return
	}
	if hb {
		a, b = b, a
	}
	if b == "" {
		return
	}
	k := a + "\x00" + b
	if _, ok := pe.compared[k]; !ok {
		pe.compared[k] = pos
	}
}

const holeMark = "Qz"
