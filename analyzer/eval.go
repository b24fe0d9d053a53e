package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is one effect in program order.
type Event struct {
	Kind   string // call store mapset go panic loop exit send
	Callee string
	Args   []*Term
	Res    *Term
	Pos    token.Pos
	Fn     *ssa.Function // function containing the instruction
	Alts   []*Alt        // loop
	Heap   map[string]*Term
	Facts  *Facts
	Defer  bool
	Static *ssa.Function
	Sig    *types.Signature
	key    string
}

func (e *Event) Key() string {
	if e.key == "" {
		var b strings.Builder
		b.WriteString(e.Kind + " " + e.Callee)
		for _, a := range e.Args {
			b.WriteString(" " + a.Key())
		}
		for _, a := range e.Alts {
			b.WriteString(" {" + a.Cond.Key() + ":")
			for _, x := range a.Trace {
				b.WriteString(x.Key() + ";")
			}
			b.WriteString("}")
		}
		e.key = b.String()
	}
	return e.key
}

type State struct {
	heap    map[string]*Term
	addr    map[string]*Term
	facts   *Facts
	trace   []*Event
	occ     map[string]int
	rebinds [][2]*Term
}

func newState() *State {
	return &State{heap: map[string]*Term{}, addr: map[string]*Term{}, facts: newFacts(), occ: map[string]int{}}
}

func (s *State) clone() *State {
	n := &State{heap: make(map[string]*Term, len(s.heap)), addr: make(map[string]*Term, len(s.addr)), facts: s.facts.clone(),
		trace: s.trace[:len(s.trace):len(s.trace)], occ: make(map[string]int, len(s.occ)), rebinds: s.rebinds[:len(s.rebinds):len(s.rebinds)]}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.addr {
		n.addr[k] = v
	}
	for k, v := range s.occ {
		n.occ[k] = v
	}
	return n
}

type deferred struct {
	call   *ssa.CallCommon
	fnT    *Term
	args   []*Term
	pos    token.Pos
	invoke bool
}

type loopCtx struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	binds  []*Term
	defers []deferred
	loops  []*loopCtx
	visits map[*ssa.BasicBlock]int
	mode   map[*ssa.BasicBlock]int // header -> 1 body, 2 exit
	depth  int                     // enclosing abstract loops incl. callers
	parent *Frame
	pos    token.Pos // call position in the parent
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]*Term, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.loops = f.loops[:len(f.loops):len(f.loops)]
	n.visits = make(map[*ssa.BasicBlock]int, len(f.visits))
	for k, v := range f.visits {
		n.visits[k] = v
	}
	n.mode = make(map[*ssa.BasicBlock]int, len(f.mode))
	for k, v := range f.mode {
		n.mode[k] = v
	}
	return &n
}

func (f *Frame) onStack(fn *ssa.Function) bool {
	for x := f; x != nil; x = x.parent {
		if x.fn == fn {
			return true
		}
	}
	return false
}

func (f *Frame) level() int {
	n := 0
	for x := f; x != nil; x = x.parent {
		n++
	}
	return n
}

// Outcome is one class of executions of a function (or loop body).
type Outcome struct {
	Kind  string // ret panic exit | back leave
	Rets  []*Term
	St    *State
	block *ssa.BasicBlock
	from  *ssa.BasicBlock
	fr    *Frame
	Pos   token.Pos
}

func (o *Outcome) F() *Form { return o.St.facts.form() }

// Undecided is raised when the analysis meets a construct or size it does not model.
type Undecided struct{ Msg string }

type Eval struct {
	P        *Program
	Inline   func(*ssa.Function) bool // additional restriction, may be nil
	steps    int
	maxSteps int
	base     *State // initial heap (package initialisation)
	NoMerge  bool
	Effects  bool // record in-place library effects and locking
	loopInfo map[*ssa.Function]map[*ssa.BasicBlock]*loopCtx
	// coverage
	funcs  map[*ssa.Function]bool
	paths  int
	calls  int
	inInit bool
}

func (p *Program) NewEval() *Eval {
	return &Eval{P: p, maxSteps: 3000000, base: p.initState, loopInfo: map[*ssa.Function]map[*ssa.BasicBlock]*loopCtx{}, funcs: map[*ssa.Function]bool{}}
}

func (ev *Eval) undecided(format string, a ...any) {
	panic(Undecided{fmt.Sprintf(format, a...)})
}

// Root evaluates fn on symbolic parameters p0..pn.
func (ev *Eval) Root(fn *ssa.Function) []*Outcome {
	var args []*Term
	for i, p := range fn.Params {
		args = append(args, mk("param", fmt.Sprintf("%d", i), p.Type()))
	}
	return ev.RootWith(fn, args, nil, nil)
}

func (ev *Eval) RootWith(fn *ssa.Function, args, binds []*Term, st *State) []*Outcome {
	if st == nil {
		st = ev.freshState()
	}
	if len(fn.Blocks) == 0 {
		ev.undecided("%s has no body", fn)
	}
	outs := ev.call(nil, fn, args, binds, st.clone(), fn.Pos())
	var res []*Outcome
	for _, o := range outs {
		// split boolean results
		if o.Kind == "ret" && len(o.Rets) == 1 && isBoolAtom(o.Rets[0]) {
			for _, v := range []bool{true, false} {
				n := &Outcome{Kind: "ret", Rets: []*Term{boolTerm(v)}, St: o.St.clone(), Pos: o.Pos}
				if n.St.facts.assume(o.Rets[0], v) {
					res = append(res, n)
				}
			}
			continue
		}
		res = append(res, o)
	}
	if !ev.NoMerge {
		res = mergeOutcomes(res, st, 0)
	}
	ev.paths += len(res)
	return res
}

func isBoolAtom(t *Term) bool {
	if t == nil || isConst(t) {
		return false
	}
	switch t.Op {
	case "eq", "lt", "empty", "isnil", "is", "any", "not", "has":
		return true
	}
	return false
}

func (ev *Eval) freshState() *State {
	if ev.base != nil {
		return ev.base.clone()
	}
	return newState()
}

func (ev *Eval) call(parent *Frame, fn *ssa.Function, args, binds []*Term, st *State, pos token.Pos) []*Outcome {
	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}, binds: binds, visits: map[*ssa.BasicBlock]int{}, mode: map[*ssa.BasicBlock]int{}, parent: parent, pos: pos}
	if parent != nil {
		fr.depth = parent.depth
	}
	if fr.level() > 60 {
		ev.undecided("inlining too deep at %s", fn)
	}
	ev.funcs[fn] = true
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(binds) {
			fr.env[v] = binds[i]
		} else {
			fr.env[v] = mk("free", v.Name(), v.Type())
		}
	}
	return ev.jump(fr, st, fn.Blocks[0], nil)
}

func (ev *Eval) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopCtx {
	if l, ok := ev.loopInfo[fn]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]*loopCtx{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				lc := res[s]
				if lc == nil {
					lc = &loopCtx{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					res[s] = lc
				}
				// natural loop of back edge b->s
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if lc.blocks[x] {
						continue
					}
					lc.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	ev.loopInfo[fn] = res
	return res
}

func (ev *Eval) jump(fr *Frame, st *State, to, from *ssa.BasicBlock) []*Outcome {
	if n := len(fr.loops); n > 0 {
		top := fr.loops[n-1]
		if to == top.header {
			return []*Outcome{{Kind: "back", St: st, from: from, fr: fr}}
		}
		if !top.blocks[to] {
			return []*Outcome{{Kind: "leave", St: st, block: to, from: from, fr: fr}}
		}
	}
	if lc := ev.loopsOf(fr.fn)[to]; lc != nil {
		return ev.evalLoop(fr, st, lc, from)
	}
	ev.phis(fr, to, from)
	return ev.run(fr, st, to, 0)
}

func (ev *Eval) phis(fr *Frame, b, from *ssa.BasicBlock) {
	if from == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == from {
			idx = i
		}
	}
	var vals []*Term
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vals = append(vals, ev.val(fr, p.Edges[idx]))
	}
	for i, p := range ps {
		fr.env[p] = vals[i]
	}
}

// val is the abstract value of an operand.
func (ev *Eval) val(fr *Frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroTerm(v.Type())
		}
		return constTerm(v.Value, v.Type())
	case *ssa.Global:
		return mk("globaladdr", v.RelString(nil), v.Type())
	case *ssa.Function:
		return &Term{Op: "func", Name: fnName(v), Fn: v, Typ: v.Type()}
	case *ssa.Builtin:
		return mk("builtin", v.Name(), v.Type())
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	ev.undecided("value %s of %s not bound", v, fr.fn)
	return nil
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.RelString(nil)
}

func (ev *Eval) run(fr *Frame, st *State, b *ssa.BasicBlock, start int) []*Outcome {
	for i := start; i < len(b.Instrs); i++ {
		ev.steps++
		if ev.steps > ev.maxSteps {
			ev.undecided("step budget exceeded in %s", fr.fn)
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			return ev.jump(fr, st, b.Succs[0], b)
		case *ssa.If:
			c := ev.val(fr, in.Cond)
			return ev.branch(fr, st, b, c)
		case *ssa.Return:
			var rets []*Term
			for _, r := range in.Results {
				rets = append(rets, ev.val(fr, r))
			}
			return []*Outcome{{Kind: "ret", Rets: rets, St: st, fr: fr, Pos: in.Pos()}}
		case *ssa.Panic:
			st.trace = append(st.trace, ev.event(fr, st, &Event{Kind: "panic", Args: []*Term{ev.val(fr, in.X)}, Pos: in.Pos()}))
			return []*Outcome{{Kind: "panic", St: st, fr: fr, Pos: in.Pos()}}
		case *ssa.RunDefers:
			outs := ev.runDefers(fr, st)
			if len(outs) == 1 && outs[0].Kind == "ret" {
				st = outs[0].St
				continue
			}
			var res []*Outcome
			for _, o := range outs {
				if o.Kind != "ret" {
					res = append(res, o)
					continue
				}
				res = append(res, ev.run(fr.clone(), o.St, b, i+1)...)
			}
			return res
		case *ssa.Defer:
			d := deferred{call: &in.Call, pos: in.Pos()}
			d.fnT, d.args = ev.callee(fr, st, &in.Call)
			fr.defers = append(fr.defers, d)
		case *ssa.Go:
			f, args := ev.callee(fr, st, &in.Call)
			st.trace = append(st.trace, ev.event(fr, st, &Event{Kind: "go", Callee: calleeName(&in.Call, f), Args: append([]*Term{f}, args...), Pos: in.Pos()}))
		case *ssa.Call:
			f, args := ev.callee(fr, st, &in.Call)
			outs := ev.apply(fr, st, &in.Call, f, args, in.Pos(), false)
			if len(outs) == 1 && outs[0].Kind == "ret" {
				st = outs[0].St
				ev.rebindFrame(fr, st)
				fr.env[in] = tuple(outs[0].Rets, in.Type())
				continue
			}
			var res []*Outcome
			for _, o := range outs {
				if o.Kind != "ret" {
					o.fr = fr
					res = append(res, o)
					continue
				}
				f2 := fr.clone()
				ev.rebindFrame(f2, o.St)
				f2.env[in] = tuple(o.Rets, in.Type())
				res = append(res, ev.run(f2, o.St, b, i+1)...)
			}
			return res
		default:
			if outs := ev.instr(fr, st, in); outs != nil {
				// forking instruction: list of (state, value)
				var res []*Outcome
				for _, o := range outs {
					if o.Kind != "ret" {
						res = append(res, o)
						continue
					}
					f2 := fr.clone()
					f2.env[in.(ssa.Value)] = tuple(o.Rets, in.(ssa.Value).Type())
					res = append(res, ev.run(f2, o.St, b, i+1)...)
				}
				return res
			}
		}
	}
	ev.undecided("block %s without terminator", b)
	return nil
}

func tuple(rets []*Term, typ types.Type) *Term {
	if len(rets) == 1 {
		return rets[0]
	}
	return mk("tuple", "", typ, rets...)
}

func (ev *Eval) branch(fr *Frame, st *State, b *ssa.BasicBlock, c *Term) []*Outcome {
	if v, ok := st.facts.eval(formOf(c)); ok {
		if v {
			return ev.jump(fr, st, b.Succs[0], b)
		}
		return ev.jump(fr, st, b.Succs[1], b)
	}
	var res []*Outcome
	s1, f1 := st.clone(), fr.clone()
	if s1.facts.add(formOf(c)) {
		res = append(res, ev.jump(f1, s1, b.Succs[0], b)...)
	}
	if st.facts.add(fNot(formOf(c))) {
		res = append(res, ev.jump(fr, st, b.Succs[1], b)...)
	}
	return res
}

func (ev *Eval) event(fr *Frame, st *State, e *Event) *Event {
	e.Fn = fr.fn
	if !e.Pos.IsValid() {
		e.Pos = fr.fn.Pos()
	}
	e.Heap = make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		e.Heap[k] = v
	}
	e.Facts = st.facts.clone()
	return e
}

// ---- memory --------------------------------------------------------------------

func rootOf(a *Term) *Term {
	for a.Op == "fieldaddr" || a.Op == "indexaddr" {
		a = a.Args[0]
	}
	return a
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	return nil
}

func (ev *Eval) load(st *State, a *Term, typ types.Type) *Term {
	v := ev.loadBase(st, a, typ)
	if typ == nil {
		return v
	}
	if s, ok := typ.Underlying().(*types.Struct); ok {
		// overlay separately stored fields
		var fvs []*Term
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			fa := mk("fieldaddr", f.Name(), nil, a)
			x := ev.loadOverlay(st, fa, f.Type())
			if x != nil {
				fvs = append(fvs, mk("fv", f.Name(), f.Type(), x))
			}
		}
		if len(fvs) > 0 {
			return mk("struct", typeName(typ), typ, append([]*Term{v}, fvs...)...)
		}
	}
	if ar, ok := typ.Underlying().(*types.Array); ok && ar.Len() < 64 && rootOf(a).Op == "obj" && (a.Op == "obj" || ev.arrayStored(st, a, ar)) {
		items := make([]*Term, ar.Len())
		for i := range items {
			items[i] = ev.load(st, mk("indexaddr", "", nil, a, intTerm(int64(i))), ar.Elem())
		}
		return mk("list", "", typ, items...)
	}
	return v
}

// arrayStored: elements of the array at a were stored one by one.
func (ev *Eval) arrayStored(st *State, a *Term, ar *types.Array) bool {
	for i := int64(0); i < ar.Len(); i++ {
		if _, ok := st.heap[mk("indexaddr", "", nil, a, intTerm(i)).Key()]; ok {
			return true
		}
	}
	return false
}

// loadOverlay returns the value of a sub-place if it (or a part of it) was stored.
func (ev *Eval) loadOverlay(st *State, a *Term, typ types.Type) *Term {
	if v, ok := st.heap[a.Key()]; ok {
		_ = v
		return ev.load(st, a, typ)
	}
	if s, ok := typ.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if x := ev.loadOverlay(st, mk("fieldaddr", s.Field(i).Name(), nil, a), s.Field(i).Type()); x != nil {
				return ev.load(st, a, typ)
			}
		}
	}
	return nil
}

func (ev *Eval) loadBase(st *State, a *Term, typ types.Type) *Term {
	if v, ok := st.heap[a.Key()]; ok {
		return v
	}
	switch a.Op {
	case "obj":
		return zeroTerm(typ)
	case "globaladdr":
		return mk("glob", a.Name, typ)
	case "fieldaddr":
		b := a.Args[0]
		if b.Op == "obj" {
			if v, ok := st.heap[b.Key()]; ok {
				return mkFld(v, a.Name, typ)
			}
			if ev.P.initObjs[b.Key()] && ev.P.written["field "+fieldKey(a)] {
				return mk("glob", a.Key(), typ)
			}
			return zeroTerm(typ)
		}
		return mkFld(ev.loadBase(st, b, nil), a.Name, typ)
	case "indexaddr":
		b := a.Args[0]
		if b.Op == "obj" {
			if v, ok := st.heap[b.Key()]; ok {
				return mkIndex(v, a.Args[1], typ)
			}
			return zeroTerm(typ)
		}
		if b.Op == "fieldaddr" || b.Op == "globaladdr" { // array in a place
			return mkIndex(ev.loadBase(st, b, nil), a.Args[1], typ)
		}
		return mkIndex(b, a.Args[1], typ)
	}
	return mk("deref", "", typ, a)
}

func mkIndex(b, i *Term, typ types.Type) *Term {
	if b.Op == "list" {
		if n, ok := constInt(i); ok {
			plain := true
			for j, x := range b.Args {
				if x.Op == "star" || x.Op == "spread" {
					plain = false
					break
				}
				if int64(j) == n {
					return x
				}
			}
			_ = plain
		}
	}
	if i.Op == "idx" && same(i.Args[0], normColl(b)) {
		return mkElem(b, i.Name, typ)
	}
	if s, ok := constStr(b); ok {
		if n, ok := constInt(i); ok && n >= 0 && n < int64(len(s)) {
			return &Term{Op: "const", Name: fmt.Sprint(s[n]), CV: constant.MakeInt64(int64(s[n])), Typ: typ}
		}
	}
	return mk("index", "", typ, b, i)
}

// mkElem is the element of a collection in the iteration named d.
func mkElem(b *Term, d string, typ types.Type) *Term {
	switch b.Op {
	case "clone":
		return mkElem(b.Args[0], d, typ)
	case "list":
		if len(b.Args) == 1 && b.Args[0].Op == "spread" {
			return mkElem(b.Args[0].Args[0], d, typ)
		}
		if len(b.Args) == 1 && b.Args[0].Op == "star" && b.Args[0].Name == "each" && allOne(b.Args[0].Alts) {
			alts := b.Args[0].Alts
			from := starDepth(b.Args[0])
			if from == "" || from == d {
				if len(alts) == 1 {
					return alts[0].Items[0]
				}
				c := mk("cond", "", typ)
				c.Alts = alts
				return c
			}
		}
	}
	return mk("elem", d, typ, b)
}

// starDepth is the iteration name used inside a star over its own collection.
func starDepth(s *Term) string {
	d := ""
	for _, a := range s.Alts {
		f := func(x *Term) bool {
			if (x.Op == "elem" || x.Op == "idx" || x.Op == "key") && same(x.Args[0], s.Args[0]) {
				d = x.Name
			}
			return true
		}
		a.Cond.walk(f)
		for _, x := range a.Items {
			walk(x, f)
		}
	}
	return d
}

func (ev *Eval) store(st *State, a, v *Term) {
	k := a.Key()
	for key, ad := range st.addr {
		if key == k {
			continue
		}
		for x := ad; x.Op == "fieldaddr" || x.Op == "indexaddr"; {
			x = x.Args[0]
			if x.Key() == k {
				delete(st.heap, key)
				delete(st.addr, key)
				break
			}
		}
	}
	st.heap[k] = v
	st.addr[k] = a
}

// forget replaces what is known about an object that was handed to unknown code.
func (ev *Eval) forget(st *State, a, out *Term) {
	ev.store(st, a, out)
}

func (ev *Eval) newObj(fr *Frame, st *State, what string, pos token.Pos, typ types.Type) *Term {
	site := ev.P.posKey(pos)
	if site == "" {
		site = fr.fn.Name()
	}
	k := "obj:" + what + "@" + site
	n := st.occ[k]
	st.occ[k] = n + 1
	name := what + "@" + site
	if n > 0 {
		name += fmt.Sprintf("#%d", n)
	}
	return mk("obj", name, typ)
}

// ---- simple instructions ---------------------------------------------------------

func (ev *Eval) instr(fr *Frame, st *State, in ssa.Instruction) []*Outcome {
	switch in := in.(type) {
	case *ssa.Alloc:
		o := ev.newObj(fr, st, allocName(in), in.Pos(), in.Type())
		// a re-executed Alloc denotes a fresh zero cell
		fr.env[in] = o
	case *ssa.BinOp:
		fr.env[in] = ev.binop(in.Op, ev.val(fr, in.X), ev.val(fr, in.Y), in.Type())
	case *ssa.UnOp:
		x := ev.val(fr, in.X)
		switch in.Op {
		case token.MUL:
			fr.env[in] = ev.load(st, x, in.Type())
		case token.NOT:
			fr.env[in] = mkNot(x)
		case token.SUB:
			if n, ok := constInt(x); ok {
				fr.env[in] = intTerm(-n)
			} else {
				fr.env[in] = mk("neg", "", in.Type(), x)
			}
		default:
			fr.env[in] = mk("unop", in.Op.String(), in.Type(), x)
		}
	case *ssa.ChangeType:
		fr.env[in] = retype(ev.val(fr, in.X), in.Type())
	case *ssa.ChangeInterface:
		fr.env[in] = ev.val(fr, in.X)
	case *ssa.Convert:
		fr.env[in] = ev.convert(ev.val(fr, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		fr.env[in] = mk("conv", typeName(in.Type()), in.Type(), ev.val(fr, in.X))
	case *ssa.SliceToArrayPointer:
		fr.env[in] = mk("conv", typeName(in.Type()), in.Type(), ev.val(fr, in.X))
	case *ssa.MakeInterface:
		x := ev.val(fr, in.X)
		fr.env[in] = &Term{Op: "iface", Name: shortType(in.X.Type()), Args: []*Term{x}, Typ: in.X.Type()}
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, ev.val(fr, b))
		}
		f := in.Fn.(*ssa.Function)
		fr.env[in] = &Term{Op: "closure", Name: fnName(f), Fn: f, Args: bs, Typ: in.Type()}
	case *ssa.MakeMap:
		o := ev.newObj(fr, st, "map", in.Pos(), in.Type())
		fr.env[in] = o
	case *ssa.MakeSlice:
		l := ev.val(fr, in.Len)
		if n, ok := constInt(l); ok && n == 0 {
			fr.env[in] = mk("list", "", in.Type())
			return nil
		}
		o := ev.newObj(fr, st, "slice", in.Pos(), in.Type())
		fr.env[in] = mk("makeslice", o.Name, in.Type(), l)
	case *ssa.MakeChan:
		fr.env[in] = ev.newObj(fr, st, "chan", in.Pos(), in.Type())
	case *ssa.Slice:
		fr.env[in] = ev.slice(fr, st, in)
	case *ssa.FieldAddr:
		x := ev.val(fr, in.X)
		f := elemType(in.X.Type()).Underlying().(*types.Struct).Field(in.Field)
		fr.env[in] = mk("fieldaddr", f.Name(), in.Type(), x)
	case *ssa.Field:
		x := ev.val(fr, in.X)
		f := in.X.Type().Underlying().(*types.Struct).Field(in.Field)
		fr.env[in] = mkFld(x, f.Name(), in.Type())
	case *ssa.IndexAddr:
		fr.env[in] = mk("indexaddr", "", in.Type(), ev.val(fr, in.X), ev.val(fr, in.Index))
	case *ssa.Index:
		fr.env[in] = mkIndex(ev.val(fr, in.X), ev.val(fr, in.Index), in.Type())
	case *ssa.Lookup:
		m, k := ev.val(fr, in.X), ev.val(fr, in.Index)
		if isStringType(in.X.Type()) {
			fr.env[in] = mkIndex(m, k, in.Type())
			return nil
		}
		if outs := ev.lookupTable(st, m, k, in); outs != nil {
			return outs
		}
		v, has := ev.lookup(st, m, k, elemTypeOrNil(in.X.Type()))
		if in.CommaOk {
			fr.env[in] = mk("tuple", "", in.Type(), v, has)
		} else {
			fr.env[in] = v
		}
	case *ssa.MapUpdate:
		m, k, v := ev.val(fr, in.Map), ev.val(fr, in.Key), ev.val(fr, in.Value)
		ev.mapSet(fr, st, m, k, v, in.Pos())
	case *ssa.Range:
		fr.env[in] = mk("range", "", in.Type(), ev.val(fr, in.X))
	case *ssa.Next:
		it := ev.val(fr, in.Iter)
		coll := it.Args[0]
		if cells := ev.constCells(st, coll); fr.mode[in.Block()] == 3 {
			tt := in.Type().(*types.Tuple)
			if n := fr.visits[in.Block()]; n < len(cells) {
				fr.env[in] = mk("tuple", "", in.Type(), boolTerm(true), cells[n].Args[1], st.heap[cells[n].Key()])
			} else {
				fr.env[in] = mk("tuple", "", in.Type(), boolTerm(false), zeroTerm(tt.At(1).Type()), zeroTerm(tt.At(2).Type()))
			}
			return nil
		}
		d := fmt.Sprintf("@%d", fr.depth)
		ok := boolTerm(fr.mode[in.Block()] != 2)
		tt := in.Type().(*types.Tuple)
		if in.IsString {
			fr.env[in] = mk("tuple", "", in.Type(), ok, mk("idx", d, tt.At(1).Type(), coll), mk("elem", d, tt.At(2).Type(), coll))
		} else {
			key := mk("key", d, tt.At(1).Type(), coll)
			v := mk("lookup", "", tt.At(2).Type(), coll, key)
			if c := ev.mapVer(st, coll); c != nil {
				v = mk("lookup", "", tt.At(2).Type(), coll, key, c)
			}
			fr.env[in] = mk("tuple", "", in.Type(), ok, key, v)
		}
	case *ssa.Extract:
		x := ev.val(fr, in.Tuple)
		if x.Op == "tuple" {
			fr.env[in] = x.Args[in.Index]
		} else {
			fr.env[in] = mk("res", fmt.Sprint(in.Index), in.Type(), x)
		}
	case *ssa.TypeAssert:
		x := ev.val(fr, in.X)
		is := mkIs(x, in.AssertedType)
		var v *Term
		if x.Op == "iface" {
			if b, ok := constBool(is); ok && b {
				if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
					v = x
				} else {
					v = x.Args[0]
				}
			} else {
				v = zeroTerm(in.AssertedType)
			}
		} else if isNil(x) {
			v = zeroTerm(in.AssertedType)
		} else {
			v = &Term{Op: "as", Name: shortType(plainIface(in.AssertedType)), Args: []*Term{x}, Typ: in.AssertedType}
			for x.Op == "as" {
				x = x.Args[0]
				v = &Term{Op: "as", Name: shortType(plainIface(in.AssertedType)), Args: []*Term{x}, Typ: in.AssertedType}
			}
		}
		if !in.CommaOk {
			fr.env[in] = v
			if !isConst(is) {
				if k, ok := st.facts.decide(is); !ok || !k {
					st.facts.assume(is, true) // otherwise the program panics here
				}
			}
			return nil
		}
		fr.env[in] = mk("tuple", "", in.Type(), v, is)
	case *ssa.Store:
		a, v := ev.val(fr, in.Addr), ev.val(fr, in.Val)
		ev.store(st, a, v)
		if r := rootOf(a); r.Op != "obj" || ev.P.initObjs[r.Key()] || ev.P.sharedObjs[r.Key()] {
			st.trace = append(st.trace, ev.event(fr, st, &Event{Kind: "store", Args: []*Term{a, v}, Pos: in.Pos()}))
		}
	case *ssa.Send:
		st.trace = append(st.trace, ev.event(fr, st, &Event{Kind: "send", Args: []*Term{ev.val(fr, in.Chan), ev.val(fr, in.X)}, Pos: in.Pos()}))
	case *ssa.Select:
		ev.undecided("select statement in %s", fr.fn)
	default:
		ev.undecided("instruction %T in %s", in, fr.fn)
	}
	return nil
}

func elemTypeOrNil(t types.Type) types.Type { return elemType(t) }

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func allocName(a *ssa.Alloc) string {
	if a.Comment != "" {
		return a.Comment
	}
	return "new"
}

func retype(t *Term, typ types.Type) *Term {
	if isConst(t) {
		n := *t
		n.Typ = typ
		return &n
	}
	return t
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func (ev *Eval) convert(x *Term, from, to types.Type) *Term {
	if isConst(x) && isStringType(from) && isStringType(to) {
		return x
	}
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return x
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			if isConst(x) {
				return retype(x, to)
			}
			if sizeOf(fb) <= sizeOf(tb) && (fi&types.IsUnsigned) == (ti&types.IsUnsigned) {
				return x
			}
			return mk("conv", tb.Name(), to, x)
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return mk("runestr", "", to, x)
		}
		return mk("conv", tb.Name(), to, x)
	}
	if isByteSlice(from) && isStringType(to) || isStringType(from) && isByteSlice(to) {
		if x.Op == "bytes" {
			return x.Args[0]
		}
		return mk("bytes", "", to, x)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	return mk("conv", shortType(to), to, x)
}

func sizeOf(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

func (ev *Eval) binop(op token.Token, x, y *Term, typ types.Type) *Term {
	switch op {
	case token.EQL:
		return mkEq(x, y)
	case token.NEQ:
		return mkNot(mkEq(x, y))
	case token.LSS:
		return mkLt(x, y)
	case token.GTR:
		return mkLt(y, x)
	case token.LEQ:
		return mkNot(mkLt(y, x))
	case token.GEQ:
		return mkNot(mkLt(x, y))
	case token.ADD:
		if isStringType(typ) {
			return mkCat(x, y)
		}
		return mkAdd(x, y)
	case token.SUB:
		if n, ok := constInt(y); ok {
			return mkAdd(x, intTerm(-n))
		}
		if same(x, y) {
			return intTerm(0)
		}
		return mk("sub", "", typ, x, y)
	}
	if isConst(x) && isConst(y) && x.CV.Kind() == y.CV.Kind() && x.CV.Kind() == constant.Int {
		switch op {
		case token.MUL, token.AND, token.OR, token.XOR, token.REM:
			v := constant.BinaryOp(x.CV, op, y.CV)
			return &Term{Op: "const", Name: v.ExactString(), CV: v, Typ: typ}
		case token.QUO:
			if n, _ := constInt(y); n != 0 {
				v := constant.BinaryOp(x.CV, token.QUO_ASSIGN, y.CV)
				return &Term{Op: "const", Name: v.ExactString(), CV: v, Typ: typ}
			}
		}
	}
	if op == token.MUL || op == token.AND || op == token.OR || op == token.XOR {
		if y.Key() < x.Key() {
			x, y = y, x
		}
	}
	return mk("bin", op.String(), typ, x, y)
}

func (ev *Eval) slice(fr *Frame, st *State, in *ssa.Slice) *Term {
	x := ev.val(fr, in.X)
	if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		if ar, ok := p.Elem().Underlying().(*types.Array); ok && in.Low == nil && in.High == nil && x.Op == "obj" {
			var items []*Term
			for i := int64(0); i < ar.Len(); i++ {
				items = append(items, ev.load(st, mk("indexaddr", "", nil, x, intTerm(i)), ar.Elem()))
			}
			return mkList(in.Type(), items...)
		}
	}
	lo, hi := intTerm(0), (*Term)(nil)
	if in.Low != nil {
		lo = ev.val(fr, in.Low)
	}
	if in.High != nil {
		hi = ev.val(fr, in.High)
	}
	r := mkSlice(x, lo, hi, in.Type())
	if in.Max != nil && r.Op == "slice" && same(ev.val(fr, in.Max), r.Args[2]) {
		r = mk("slice", "capped", in.Type(), r.Args...) // appending cannot write into the operand
	}
	return r
}

func mkSlice(x, lo, hi *Term, typ types.Type) *Term {
	l, okl := constInt(lo)
	if okl && l == 0 && hi == nil {
		return x
	}
	if s, ok := constStr(x); ok && okl {
		if hi == nil && int(l) <= len(s) {
			return strTerm(s[l:])
		}
		if hi != nil {
			if h, ok := constInt(hi); ok && int(h) <= len(s) && l <= h {
				return strTerm(s[l:h])
			}
		}
	}
	if x.Op == "list" && okl && (hi == nil || isConst(hi)) {
		plain := true
		for _, a := range x.Args {
			if a.Op == "star" || a.Op == "spread" {
				plain = false
			}
		}
		h := int64(len(x.Args))
		if hi != nil {
			h, _ = constInt(hi)
		}
		if plain && l <= h && h <= int64(len(x.Args)) {
			return mk("list", "", typ, x.Args[l:h]...)
		}
	}
	if hi == nil {
		hi = mkLen(x)
	}
	if okl && l == 0 && same(hi, mkLen(x)) {
		return x
	}
	return mk("slice", "", typ, x, lo, hi)
}

// ---- maps --------------------------------------------------------------------------

func mapVerKey(m *Term) string { return "ver:" + m.Key() }

func (ev *Eval) mapVer(st *State, m *Term) *Term { return st.heap[mapVerKey(m)] }

func (ev *Eval) lookup(st *State, m, k *Term, typ types.Type) (v, has *Term) {
	if isNil(m) {
		return zeroTerm(typ), boolTerm(false)
	}
	ek := mk("mapcell", "", nil, m, k)
	if v, ok := st.heap[ek.Key()]; ok {
		return v, boolTerm(true)
	}
	ver := ev.mapVer(st, m)
	if m.Op == "obj" && ver == nil {
		if isConst(k) || !st.hasCells(m) {
			allConst := true
			for key, a := range st.addr {
				if strings.HasPrefix(key, "mapcell(") && a.Op == "mapcell" && same(a.Args[0], m) && !isConst(a.Args[1]) {
					allConst = false
				}
			}
			if allConst {
				return zeroTerm(typ), boolTerm(false)
			}
		}
	}
	args := []*Term{m, k}
	if ver != nil {
		args = append(args, ver)
	} else if m.Op == "obj" {
		// cells written so far distinguish this lookup from earlier ones
		args = append(args, mk("cells", fmt.Sprint(st.numCells(m)), nil))
		if st.numCells(m) == 0 {
			args = args[:2]
		}
	}
	return mk("lookup", "", typ, args...), mk("has", "", types.Typ[types.Bool], args...)
}

// constCells are the entries of a map whose keys are all known, by key.
func (ev *Eval) constCells(st *State, m *Term) []*Term {
	if m.Op != "obj" || ev.mapVer(st, m) != nil {
		return nil
	}
	var cells []*Term
	for _, a := range st.addr {
		if a.Op == "mapcell" && same(a.Args[0], m) {
			if !isConst(a.Args[1]) {
				return nil
			}
			cells = append(cells, a)
		}
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].Key() < cells[j].Key() })
	return cells
}

// lookupTable distinguishes the entries of a small map with known keys.
func (ev *Eval) lookupTable(st *State, m, k *Term, in *ssa.Lookup) []*Outcome {
	cells := ev.constCells(st, m)
	if len(cells) == 0 || len(cells) > 12 || isConst(k) || types.IsInterface(in.Index.Type()) {
		return nil
	}
	if _, ok := st.heap[mk("mapcell", "", nil, m, k).Key()]; ok {
		return nil
	}
	var outs []*Outcome
	put := func(s *State, v *Term, has bool) {
		o := &Outcome{Kind: "ret", St: s, Rets: []*Term{v}}
		if in.CommaOk {
			o.Rets = []*Term{v, boolTerm(has)}
		}
		outs = append(outs, o)
	}
	rest := st.clone()
	for _, c := range cells {
		s := rest.clone()
		is := formOf(mkEq(k, c.Args[1]))
		if s.facts.add(is) {
			put(s, st.heap[c.Key()], true)
		}
		if !rest.facts.add(fNot(is)) {
			return outs
		}
	}
	put(rest, zeroTerm(elemTypeOrNil(in.X.Type())), false)
	return outs
}

func (st *State) hasCells(m *Term) bool { return st.numCells(m) > 0 }

func (st *State) numCells(m *Term) int {
	n := 0
	for _, a := range st.addr {
		if a.Op == "mapcell" && same(a.Args[0], m) {
			n++
		}
	}
	return n
}

func (ev *Eval) mapSet(fr *Frame, st *State, m, k, v *Term, pos token.Pos) {
	c := mk("mapcell", "", nil, m, k)
	if !isConst(k) {
		// other non-constant cells may be the same one
		for key, a := range st.addr {
			if a.Op == "mapcell" && same(a.Args[0], m) && key != c.Key() {
				delete(st.heap, key)
				delete(st.addr, key)
			}
		}
		if m.Op != "obj" || true {
			vk := mapVerKey(m)
			n := st.occ[vk] + 1
			st.occ[vk] = n
			st.heap[vk] = mk("ver", fmt.Sprint(n), nil)
			st.addr[vk] = mk("mapver", "", nil, m)
		}
	}
	st.heap[c.Key()] = v
	st.addr[c.Key()] = c
	st.trace = append(st.trace, ev.event(fr, st, &Event{Kind: "mapset", Args: []*Term{m, k, v}, Pos: pos}))
}

// ---- merging ------------------------------------------------------------------------

func (st *State) sig() string {
	var b strings.Builder
	for _, e := range st.trace {
		b.WriteString(e.Key())
		b.WriteByte('\n')
	}
	b.WriteByte(1)
	keys := make([]string, 0, len(st.heap))
	for k := range st.heap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		b.WriteString(k)
		b.WriteByte('=')
		b.WriteString(st.heap[k].Key())
		b.WriteByte('\n')
	}
	return b.String()
}

// mergeOutcomes joins outcomes of a call that differ only in path facts.
func mergeOutcomes(outs []*Outcome, base *State, depth int) []*Outcome {
	if len(outs) < 2 {
		return outs
	}
	groups := map[string][]*Outcome{}
	var order []string
	for _, o := range outs {
		var b strings.Builder
		b.WriteString(o.Kind)
		b.WriteByte(1)
		for _, r := range o.Rets {
			b.WriteString(r.Key())
			b.WriteByte(2)
		}
		b.WriteString(o.St.sig())
		k := b.String()
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], o)
	}
	var res []*Outcome
	for _, k := range order {
		g := groups[k]
		if len(g) == 1 {
			res = append(res, g[0])
			continue
		}
		var fs []*Form
		for _, o := range g {
			fs = append(fs, o.St.facts.since(base.facts))
		}
		n := &Outcome{Kind: g[0].Kind, Rets: g[0].Rets, St: g[0].St.clone(), Pos: g[0].Pos, fr: g[0].fr}
		n.St.facts = base.facts.clone()
		n.St.facts.add(mergeOr(fs))
		for _, o := range g {
			for k, v := range o.St.occ {
				if v > n.St.occ[k] {
					n.St.occ[k] = v
				}
			}
		}
		res = append(res, n)
	}
	return res
}
