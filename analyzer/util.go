package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// flatEv is an event together with the loops around it.
type flatEv struct {
	*Event
	Loop []*Term // collections of the enclosing loops
	Cond []*Form // conditions of the alternatives it is in
	Idx  int     // position of the outermost event in the trace
	Seq  int
}

func flatten(trace []*Event) []flatEv {
	var res []flatEv
	var rec func(tr []*Event, loop []*Term, cond []*Form, idx int)
	rec = func(tr []*Event, loop []*Term, cond []*Form, idx int) {
		for i, e := range tr {
			k := idx
			if idx < 0 {
				k = i
			}
			if e.Kind == "loop" {
				for _, a := range e.Alts {
					rec(a.Trace, append(loop[:len(loop):len(loop)], e.Args[0]), append(cond[:len(cond):len(cond)], a.Cond), k)
				}
				continue
			}
			res = append(res, flatEv{Event: e, Loop: loop, Cond: cond, Idx: k, Seq: len(res)})
		}
	}
	rec(trace, nil, nil, -1)
	return res
}

func isCallTo(e *Event, names ...string) bool {
	if e.Kind != "call" {
		return false
	}
	for _, n := range names {
		if e.Callee == n {
			return true
		}
		if strings.HasPrefix(n, "*") && strings.HasSuffix(e.Callee, n[1:]) {
			return true
		}
	}
	return false
}

var errIface = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool { return t != nil && types.Identical(t, errIface) }

// errResult is the error result of a call event, nil if it has none.
func (c *Check) errResult(e *Event) *Term {
	if e.Kind != "call" || e.Res == nil {
		return nil
	}
	sig := c.sigOf(e)
	if sig == nil {
		return nil
	}
	n := sig.Results().Len()
	if n == 0 || !isErrorType(sig.Results().At(n-1).Type()) {
		return nil
	}
	return resTerm(e, n-1, n)
}

func resTerm(e *Event, i, n int) *Term {
	if n == 1 {
		return e.Res
	}
	return mk("res", itoa(i), nil, e.Res)
}

func (c *Check) sigOf(e *Event) *types.Signature { return e.Sig }

func itoa(i int) string { return intTerm(int64(i)).Name }

// nilness of a term under facts: +1 nil, -1 not nil, 0 unknown.
func nilness(f *Facts, t *Term) int {
	v, ok := f.eval(formOf(mkIsNil(t)))
	if !ok {
		return 0
	}
	if v {
		return 1
	}
	return -1
}

func decideEq(f *Facts, a, b *Term) int {
	v, ok := f.eval(formOf(mkEq(a, b)))
	if !ok {
		return 0
	}
	if v {
		return 1
	}
	return -1
}

// splitNil makes the nilness of the i-th result definite.
func splitNil(outs []*Outcome, i int) []*Outcome {
	var res []*Outcome
	for _, o := range outs {
		if o.Kind != "ret" || i >= len(o.Rets) {
			res = append(res, o)
			continue
		}
		t := o.Rets[i]
		if nilness(o.St.facts, t) != 0 {
			res = append(res, o)
			continue
		}
		for _, v := range []bool{true, false} {
			n := *o
			n.St = o.St.clone()
			f := formOf(mkIsNil(t))
			if !v {
				f = fNot(f)
			}
			if n.St.facts.add(f) {
				res = append(res, &n)
			}
		}
	}
	return res
}

// cleanKey renders a term for messages.
func short(t *Term) string {
	if t == nil {
		return "-"
	}
	s := t.Key()
	if len(s) > 160 {
		s = s[:160] + "…"
	}
	return s
}

func posOf(o *Outcome, def token.Pos) token.Pos {
	if o.Pos.IsValid() {
		return o.Pos
	}
	return def
}

// sameAddrLoad is the value of a field of an object pointed to by base, in a heap.
func (c *Check) fieldIn(heap map[string]*Term, base *Term, field string, typ types.Type) *Term {
	st := newState()
	st.heap = heap
	ev := c.P.NewEval()
	return ev.load(st, mk("fieldaddr", field, nil, base), typ)
}

func (c *Check) loadIn(heap map[string]*Term, addr map[string]*Term, a *Term, typ types.Type) *Term {
	st := newState()
	st.heap = heap
	if addr != nil {
		st.addr = addr
	}
	ev := c.P.NewEval()
	return ev.load(st, a, typ)
}

// mentions: t contains a subterm with the same key as x.
func mentions(t, x *Term) bool {
	k := x.Key()
	hit := false
	walk(t, func(y *Term) bool {
		if y.Key() == k {
			hit = true
		}
		return !hit
	})
	return hit
}

func hasTerm(t *Term, pred func(*Term) bool) bool {
	hit := false
	walk(t, func(y *Term) bool {
		if pred(y) {
			hit = true
		}
		return !hit
	})
	return hit
}

// implementers of an interface type of the root package: named types whose pointer implements it.
func (p *Program) implementers(iface types.Type) []*types.Named {
	it, ok := iface.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var res []*types.Named
	for _, n := range p.root.Pkg.Scope().Names() {
		tn, ok := p.root.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		if _, isI := nt.Underlying().(*types.Interface); isI {
			continue
		}
		if types.Implements(types.NewPointer(nt), it) {
			res = append(res, nt)
		}
	}
	return res
}

func sortStrings(s []string) { sort.Strings(s) }
