package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// evalLoop summarises a natural loop by one abstract iteration (iterated until
// the set of loop-carried locations is stable).
func (ev *Eval) evalLoop(fr *Frame, st *State, lc *loopCtx, from *ssa.BasicBlock) []*Outcome {
	h := lc.header
	// constant trip counts are unrolled
	if fr.visits[h] < 24 {
		if outs, ok := ev.tryConcrete(fr, st, lc, from); ok {
			return outs
		}
	}
	depth := fr.depth + 1
	d := fmt.Sprintf("@%d", depth)

	entry := fr.clone()
	entry.visits[h] = 0
	ev.phis(entry, h, from)
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	inits := map[*ssa.Phi]*Term{}
	for _, p := range phis {
		inits[p] = entry.env[p]
	}

	kind, coll, ind, exitIdx := ev.classify(entry, st, lc, phis, from)
	coll = normColl(coll)

	// loop variables
	lvs := map[*ssa.Phi]*Term{}
	for i, p := range phis {
		if p == ind {
			c, _ := constInt(inits[p])
			lvs[p] = mkAdd(mk("idx", d, p.Type(), coll), intTerm(c)) // c is 0 or -1
			if c == -1 {
				lvs[p] = mkAdd(mk("idx", d, p.Type(), coll), intTerm(-1))
			}
			continue
		}
		lvs[p] = mk("lv", fmt.Sprintf("%s:%s%d", d, ev.P.posKey(h.Instrs[0].Pos()), i), p.Type())
	}

	havoc := map[string]*Term{} // address key -> lv
	havocAddr := map[string]*Term{}
	perElem := map[string]*Term{} // locations that belong to the current element
	var outs []*Outcome
	var s0 *State
	for pass := 0; ; pass++ {
		if pass > 6 {
			ev.undecided("loop in %s does not stabilise", fr.fn)
		}
		f1, s1 := entry.clone(), st.clone()
		f1.depth = depth
		for _, p := range phis {
			f1.env[p] = lvs[p]
		}
		for k, v := range havoc {
			s1.heap[k] = v
			s1.addr[k] = havocAddr[k]
		}
		f1.loops = append(f1.loops, lc)
		f1.mode[h] = 1
		s0 = s1.clone()
		nDef := len(f1.defers)
		outs = ev.runHeader(f1, s1, h)
		for _, o := range outs {
			if o.fr != nil && o.Kind != "ret" && o.fr.fn == fr.fn && len(o.fr.defers) != nDef {
				ev.undecided("defer in a loop in %s", fr.fn)
			}
		}
		grew := false
		for _, o := range outs {
			if o.Kind != "back" {
				continue
			}
			for k, v := range o.St.heap {
				if b, ok := s0.heap[k]; ok && same(b, v) {
					continue
				}
				if _, ok := havoc[k]; ok {
					continue
				}
				if ev.local(o.St.addr[k], s0, o.St) {
					continue
				}
				if perIter(o.St.addr[k], d) {
					perElem[k] = o.St.addr[k]
					continue
				}
				grew = true
				a := o.St.addr[k]
				havocAddr[k] = a
				var typ types.Type = v.Typ
				havoc[k] = mk("lv", d+":h"+fmt.Sprint(len(havoc)), typ)
				if a != nil && a.Op == "mapver" {
					havoc[k] = mk("ver", fmt.Sprintf("L%s:%s", d, ev.P.posKey(h.Instrs[0].Pos())), nil)
				}
			}
			for k := range s0.heap {
				if _, ok := o.St.heap[k]; !ok && havoc[k] == nil {
					// killed location (may alias): becomes unknown
					grew = true
					havocAddr[k] = s0.addr[k]
					havoc[k] = mk("lv", d+":k"+fmt.Sprint(len(havoc)), s0.heap[k].Typ)
				}
			}
		}
		if !grew {
			break
		}
	}

	// collect
	var backs, exits []*Outcome
	for _, o := range outs {
		if o.Kind == "back" {
			backs = append(backs, o)
		} else {
			exits = append(exits, o)
		}
	}
	delta := func(o *Outcome) *Form { return o.St.facts.since(s0.facts) }
	newTrace := func(o *Outcome) []*Event { return o.St.trace[len(s0.trace):] }

	name := "each"
	switch kind {
	case "while":
		name = "while"
	case "string":
		name = "each"
	}
	// per-iteration alternatives
	mkAlts := func(val func(*Outcome) []*Term) []*Alt {
		var alts []*Alt
		byKey := map[string]*Alt{}
		fs := map[*Alt][]*Form{}
		for _, o := range backs {
			items := val(o)
			var b strings.Builder
			for _, x := range items {
				b.WriteString(x.Key() + "\x01")
			}
			a := byKey[b.String()]
			if a == nil {
				a = &Alt{Items: items}
				byKey[b.String()] = a
				alts = append(alts, a)
			}
			fs[a] = append(fs[a], delta(o))
		}
		for _, a := range alts {
			a.Cond = mergeOr(fs[a])
		}
		return alts
	}
	// exit condition atom
	var exitForms []*Form
	for _, o := range exits {
		if o.Kind == "leave" && o.from == h && kind == "while" {
			continue // regular end of a while loop
		}
		exitForms = append(exitForms, delta(o))
	}
	var anyAtom *Term
	if len(exitForms) > 0 && kind != "while" {
		anyAtom = mk("any", "", types.Typ[types.Bool], coll)
		anyAtom.Alts = []*Alt{{Cond: mergeOr(exitForms)}}
	}

	post := func(init, lv *Term, prefix bool, next func(*Outcome) *Term) *Term {
		nm := name
		if prefix {
			nm = "prefix"
		}
		allSame := true
		for _, o := range backs {
			if !same(next(o), lv) {
				allSame = false
			}
		}
		if allSame {
			return init
		}
		if lv.Op == "ver" {
			return lv
		}
		// list accumulation
		isAcc := func(op string) bool {
			for _, o := range backs {
				v := next(o)
				if same(v, lv) {
					continue
				}
				if v.Op != op {
					return false
				}
				first := v.Args[0]
				if op == "list" {
					if first.Op != "spread" || !same(first.Args[0], lv) {
						return false
					}
				} else if !same(first, lv) {
					return false
				}
				for _, x := range v.Args[1:] {
					if contains(x, lv.Key()) {
						return false
					}
				}
			}
			return true
		}
		items := func(o *Outcome) []*Term {
			v := next(o)
			if same(v, lv) {
				return nil
			}
			return v.Args[1:]
		}
		if isAcc("list") {
			star := mk("star", nm, nil, coll)
			star.Alts = mkAlts(items)
			return mkList(init.Typ, mk("spread", "", nil, init), star)
		}
		if isAcc("cat") {
			star := mk("star", nm, types.Typ[types.String], coll)
			star.Alts = mkAlts(items)
			return mkCat(init, star)
		}
		// boolean flag
		if b, ok := constBool(init); ok && !prefix {
			flag := true
			var fs []*Form
			for _, o := range backs {
				v := next(o)
				if same(v, lv) {
					continue
				}
				if c, ok := constBool(v); ok && c != b {
					fs = append(fs, dropMentions(delta(o), lv.Key()))
					continue
				}
				flag = false
			}
			if flag && kind != "while" {
				a := mk("any", "", types.Typ[types.Bool], coll)
				a.Alts = []*Alt{{Cond: mergeOr(fs)}}
				if b {
					return mkNot(a)
				}
				return a
			}
		}
		// counter incremented by one in every iteration
		all1 := len(backs) > 0
		for _, o := range backs {
			if !same(next(o), mkAdd(lv, intTerm(1))) {
				all1 = false
			}
		}
		if all1 && kind != "while" && !prefix && len(exits) == 0 {
			return mkAdd(mkLen(coll), init)
		}
		f := mk("fold", nm+lv.Name, init.Typ, coll, init)
		f.Alts = mkAlts(func(o *Outcome) []*Term { return []*Term{next(o)} })
		return f
	}

	posts := func(prefix bool) map[string]*Term {
		m := map[string]*Term{}
		for _, p := range phis {
			if p == ind {
				continue
			}
			p := p
			m[lvs[p].Key()] = post(inits[p], lvs[p], prefix, func(o *Outcome) *Term { return ev.edge(o, p) })
		}
		keys := make([]string, 0, len(havoc))
		for k := range havoc {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			k := k
			init := st.heap[k]
			if init == nil {
				a := havocAddr[k]
				switch a.Op {
				case "buf":
					init = ev.bufVal(st, a.Args[0])
				case "mapver":
					init = mk("ver", "0", nil)
				case "mapcell":
					init = mk("lookup", "", nil, a.Args...)
				default:
					init = ev.load(st, a, havoc[k].Typ)
				}
			}
			m[havoc[k].Key()] = post(init, havoc[k], prefix, func(o *Outcome) *Term {
				if v, ok := o.St.heap[k]; ok {
					return v
				}
				return mk("killed", k, nil)
			})
		}
		return m
	}

	// effects of complete iterations
	var loopEv *Event
	{
		var alts []*Alt
		eff := false
		for _, o := range backs {
			tr := newTrace(o)
			if len(tr) > 0 {
				eff = true
			}
			alts = append(alts, &Alt{Cond: delta(o), Trace: tr})
		}
		if eff {
			// merge alternatives with equal traces
			var merged []*Alt
			idx := map[string]*Alt{}
			fs := map[*Alt][]*Form{}
			for _, a := range alts {
				var b strings.Builder
				for _, e := range a.Trace {
					b.WriteString(e.Key() + "\n")
				}
				m := idx[b.String()]
				if m == nil {
					m = &Alt{Trace: a.Trace}
					idx[b.String()] = m
					merged = append(merged, m)
				}
				fs[m] = append(fs[m], a.Cond)
			}
			for _, m := range merged {
				m.Cond = mergeOr(fs[m])
			}
			loopEv = &Event{Kind: "loop", Callee: name, Args: []*Term{coll}, Alts: merged, Pos: h.Instrs[0].Pos(), Fn: fr.fn}
			if !loopEv.Pos.IsValid() {
				for _, in := range h.Instrs {
					if in.Pos().IsValid() {
						loopEv.Pos = in.Pos()
					}
				}
			}
		}
	}

	var results []*Outcome
	finish := func(o *Outcome, prefix bool) {
		m := posts(prefix)
		substState(o, m, s0)
		// restore loop context
		if o.fr != nil && o.fr.fn == fr.fn && o.fr.level() == fr.level() {
			o.fr = o.fr.clone()
			o.fr.loops = fr.loops
			o.fr.depth = fr.depth
			delete(o.fr.mode, h)
			for r, v := range o.fr.env {
				o.fr.env[r] = substAll(v, m)
			}
		}
		if loopEv != nil {
			le := *loopEv
			if prefix {
				le.Callee = "prefix"
			}
			le.Heap = s0.heap
			le.Facts = s0.facts
			tr := append([]*Event(nil), o.St.trace[:len(s0.trace)]...)
			tr = append(tr, &le)
			tr = append(tr, o.St.trace[len(s0.trace):]...)
			o.St.trace = tr
		}
	}
	for _, o := range exits {
		prefix := kind != "while"
		finish(o, prefix)
		if anyAtom != nil {
			if !o.St.facts.assume(anyAtom, true) {
				continue
			}
		}
		if o.Kind == "leave" {
			results = append(results, ev.jumpFrom(o)...)
			continue
		}
		results = append(results, o)
	}
	if kind != "while" {
		// exhaustion: header taken for the last time
		f2, s2 := entry.clone(), st.clone()
		f2.mode[h] = 2
		f2.loops = fr.loops
		ok := true
		m := posts(false)
		for _, p := range phis {
			if p == ind {
				c, _ := constInt(inits[p])
				f2.env[p] = mkAdd(mkLen(coll), intTerm(c))
				continue
			}
			f2.env[p] = m[lvs[p].Key()]
			if v := f2.env[p]; v != nil && v.Op == "list" && !same(v, inits[p]) {
				ev.appendEffect(f2, s2, inits[p], p.Pos())
			}
		}
		for k := range havoc {
			v := m[havoc[k].Key()]
			if v.Op == "killed" || containsOp(v, "killed") {
				delete(s2.heap, k)
				delete(s2.addr, k)
				continue
			}
			if old := s2.heap[k]; old != nil && v.Op == "list" && !same(v, old) {
				ev.appendEffect(f2, s2, old, h.Instrs[0].Pos())
			}
			s2.heap[k] = v
			s2.addr[k] = havocAddr[k]
			if havocAddr[k] == nil {
				delete(s2.addr, k)
			}
		}
		for k, v := range maxOcc(outs) {
			if v > s2.occ[k] {
				s2.occ[k] = v
			}
		}
		if loopEv != nil {
			le := *loopEv
			le.Heap = s2.heap
			le.Facts = s2.facts
			s2.trace = append(s2.trace, &le)
		}
		// element-wise writes
		var pks []string
		for k := range perElem {
			pks = append(pks, k)
		}
		sort.Strings(pks)
		for _, k := range pks {
			a := perElem[k]
			orig := ev.load(s0, a, perType(a, backs, k))
			next := func(o *Outcome) []*Term {
				if v, ok := o.St.heap[k]; ok {
					return []*Term{substAll(v, m)}
				}
				return []*Term{orig}
			}
			alts := mkAlts(next)
			if a.Op == "indexaddr" && a.Args[1].Op == "idx" && a.Args[1].Name == d {
				b := a.Args[0]
				if same(normColl(b), coll) || b.Op == "makeslice" && same(b.Args[0], mkLen(coll)) {
					if b.Op == "makeslice" {
						for _, al := range alts {
							if al.Items[0].Op == "index" || al.Items[0].Op == "elem" {
								if same(al.Items[0].Args[0], b) {
									al.Items[0] = zeroTerm(elemType(b.Typ))
								}
							}
						}
					}
					star := mk("star", "each", nil, coll)
					star.Alts = alts
					delete(s2.heap, k)
					delete(s2.addr, k)
					ev.rebind(f2, s2, b, mkList(b.Typ, star))
					continue
				}
			}
			if len(alts) == 1 {
				s2.heap[k] = alts[0].Items[0]
			} else {
				c := mk("cond", "", orig.Typ)
				c.Alts = alts
				s2.heap[k] = c
			}
			s2.addr[k] = a
		}
		if anyAtom != nil {
			ok = s2.facts.assume(anyAtom, false)
		}
		if ok {
			// execute the header in exit mode
			f2.depth = fr.depth
			for _, in := range h.Instrs {
				if _, isPhi := in.(*ssa.Phi); isPhi {
					continue
				}
				if _, isIf := in.(*ssa.If); isIf {
					break
				}
				ev.instr(f2, s2, in)
			}
			delete(f2.mode, h)
			results = append(results, ev.jump(f2, s2, h.Succs[exitIdx], h)...)
		}
	}
	return results
}

// perIter: the location is reached through the element of the current iteration.
func perIter(a *Term, d string) bool {
	hit := false
	for a != nil && (a.Op == "fieldaddr" || a.Op == "indexaddr") {
		if a.Op == "indexaddr" && a.Args[1].Op == "idx" && a.Args[1].Name == d {
			return true
		}
		a = a.Args[0]
	}
	walk(a, func(x *Term) bool {
		if (x.Op == "elem" || x.Op == "key") && x.Name == d {
			hit = true
		}
		return !hit && x.Op != "call"
	})
	return hit
}

func perType(a *Term, backs []*Outcome, k string) types.Type {
	for _, o := range backs {
		if v, ok := o.St.heap[k]; ok && v.Typ != nil && a.Op != "indexaddr" {
			return v.Typ
		}
	}
	return elemType(a.Typ)
}

// normColl: a collection with the same number and order of elements.
func normColl(c *Term) *Term {
	for c != nil {
		switch {
		case c.Op == "clone":
			c = c.Args[0]
		case c.Op == "list" && len(c.Args) == 1 && c.Args[0].Op == "spread":
			c = c.Args[0].Args[0]
		case c.Op == "list" && len(c.Args) == 1 && c.Args[0].Op == "star" && c.Args[0].Name == "each" && allOne(c.Args[0].Alts):
			c = c.Args[0].Args[0]
		case c.Op == "upd":
			c = c.Args[0]
		default:
			return c
		}
	}
	return c
}

func maxOcc(outs []*Outcome) map[string]int {
	m := map[string]int{}
	for _, o := range outs {
		for k, v := range o.St.occ {
			if v > m[k] {
				m[k] = v
			}
		}
	}
	return m
}

func containsOp(t *Term, op string) bool {
	hit := false
	walk(t, func(x *Term) bool {
		if x.Op == op {
			hit = true
		}
		return !hit
	})
	return hit
}

// dropMentions removes conjuncts that mention a key.
func dropMentions(f *Form, key string) *Form {
	var keep []*Form
	subs := []*Form{f}
	if f.Op == "and" {
		subs = f.Sub
	}
	for _, s := range subs {
		hit := false
		s.walk(func(t *Term) bool {
			if contains(t, key) {
				hit = true
			}
			return false
		})
		if !hit {
			keep = append(keep, s)
		}
	}
	return fAnd(keep...)
}

func (ev *Eval) jumpFrom(o *Outcome) []*Outcome {
	return ev.jump(o.fr, o.St, o.block, o.from)
}

func (ev *Eval) edge(o *Outcome, p *ssa.Phi) *Term {
	for i, pr := range p.Block().Preds {
		if pr == o.from {
			return ev.val(o.fr, p.Edges[i])
		}
	}
	return nil
}

func substAll(t *Term, m map[string]*Term) *Term {
	if t == nil {
		return nil
	}
	hit := false
	for k := range m {
		if contains(t, k) {
			hit = true
			break
		}
	}
	if !hit {
		return t
	}
	return rewrite(t, func(x *Term) *Term {
		if v, ok := m[x.Key()]; ok {
			return v
		}
		return x
	})
}

func substState(o *Outcome, m map[string]*Term, s0 *State) {
	for i, r := range o.Rets {
		o.Rets[i] = substAll(r, m)
	}
	for k, v := range o.St.heap {
		nv := substAll(v, m)
		if containsOp(nv, "killed") {
			delete(o.St.heap, k)
			delete(o.St.addr, k)
			continue
		}
		o.St.heap[k] = nv
	}
	if len(o.St.trace) > len(s0.trace) {
		tr := append([]*Event(nil), o.St.trace...)
		for i := len(s0.trace); i < len(tr); i++ {
			e := *tr[i]
			e.key = ""
			e.Args = append([]*Term(nil), e.Args...)
			for j, a := range e.Args {
				e.Args[j] = substAll(a, m)
			}
			if e.Heap != nil {
				h := map[string]*Term{}
				for k, v := range e.Heap {
					h[k] = substAll(v, m)
				}
				e.Heap = h
			}
			tr[i] = &e
		}
		o.St.trace = tr
	}
	f := o.St.facts
	nf := newFacts()
	for _, k := range f.order {
		a := substAll(f.atoms[k], m)
		if a != f.atoms[k] {
			a = reAtom(a)
			if isConst(a) {
				continue
			}
			if a.Op == "not" {
				nf.put(a.Args[0], !f.val[k])
				continue
			}
		}
		nf.put(a, f.val[k])
	}
	for _, d := range f.disj {
		nf.disj = append(nf.disj, d.rewrite(func(x *Term) *Term {
			if v, ok := m[x.Key()]; ok {
				return v
			}
			return x
		}))
	}
	o.St.facts = nf
}

// local: the location belongs to an object allocated during this iteration.
func (ev *Eval) local(a *Term, s0, s1 *State) bool {
	if a == nil {
		return false
	}
	r := a
	for r.Op == "fieldaddr" || r.Op == "indexaddr" || r.Op == "buf" || r.Op == "mapcell" || r.Op == "mapver" {
		r = r.Args[0]
	}
	if r.Op != "obj" && r.Op != "makeslice" {
		return false
	}
	// occurrence number of the object vs. allocations at loop entry
	base := r.Name
	n := 0
	if i := strings.LastIndex(base, "#"); i >= 0 {
		fmt.Sscanf(base[i+1:], "%d", &n)
		base = base[:i]
	}
	return n >= s0.occ["obj:"+base]
}

func (ev *Eval) runHeader(fr *Frame, st *State, h *ssa.BasicBlock) []*Outcome {
	return ev.run(fr, st, h, 0)
}

// classify recognises range and counting loops.
func (ev *Eval) classify(entry *Frame, st *State, lc *loopCtx, phis []*ssa.Phi, from *ssa.BasicBlock) (kind string, coll *Term, ind *ssa.Phi, exitIdx int) {
	h := lc.header
	iff, _ := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	exitIdx = 1
	for _, in := range h.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			it := ev.val(entry, nx.Iter)
			if nx.IsString {
				return "string", it.Args[0], nil, 1
			}
			return "map", it.Args[0], nil, 1
		}
	}
	if iff != nil {
		if bo, ok := iff.Cond.(*ssa.BinOp); ok {
			x, y, op := bo.X, bo.Y, bo.Op
			if op == token.GTR { // len > i
				x, y, op = y, x, token.LSS
			}
			if op == token.NEQ { // i != len
				op = token.LSS
				if _, isPhi := x.(*ssa.Phi); !isPhi {
					x, y = y, x
				}
			}
			if op == token.LSS {
				var p *ssa.Phi
				inc := int64(0)
				if q, ok := x.(*ssa.Phi); ok {
					p = q
				} else if b2, ok := x.(*ssa.BinOp); ok && b2.Op == token.ADD && b2.Block() == h {
					if q, ok := b2.X.(*ssa.Phi); ok {
						if c, ok := b2.Y.(*ssa.Const); ok && c.Value != nil && c.Int64() == 1 {
							p, inc = q, 1
						}
					}
				}
				if p != nil && p.Block() == h && !lc.blocks[blockOf(y)] {
					good := true
					for i, e := range p.Edges {
						pred := h.Preds[i]
						if !lc.blocks[pred] {
							c, ok := e.(*ssa.Const)
							if !ok || c.Value == nil || c.Int64() != -inc {
								good = false
							}
							continue
						}
						b2, ok := e.(*ssa.BinOp)
						if !ok || b2.Op != token.ADD || b2.X != ssa.Value(p) {
							good = false
							continue
						}
						c, ok := b2.Y.(*ssa.Const)
						if !ok || c.Value == nil || c.Int64() != 1 {
							good = false
						}
					}
					if good {
						n := ev.valOrNil(entry, y)
						if n == nil { // len computed in the header itself
							if call, ok := y.(*ssa.Call); ok {
								if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
									if xv := ev.valOrNil(entry, call.Call.Args[0]); xv != nil {
										n = mkLen(xv)
									}
								}
							}
						}
						if n != nil {
							if n.Op == "len" {
								return "index", n.Args[0], p, 1
							}
							return "index", mk("count", "", nil, n), p, 1
						}
					}
				}
			}
		}
	}
	return "while", mk("while", ev.P.posKey(h.Instrs[0].Pos()), nil), nil, 1
}

func blockOf(v ssa.Value) *ssa.BasicBlock {
	if in, ok := v.(ssa.Instruction); ok {
		// len(x) of a loop-invariant x evaluated in the header is invariant
		if call, ok := v.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if a, ok := call.Call.Args[0].(ssa.Instruction); ok {
					return a.Block()
				}
				return nil
			}
		}
		return in.Block()
	}
	return nil
}

func (ev *Eval) valOrNil(fr *Frame, v ssa.Value) *Term {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return ev.val(fr, v)
	}
	return fr.env[v]
}

// tryConcrete executes one iteration if the loop condition is a constant.
func (ev *Eval) tryConcrete(fr *Frame, st *State, lc *loopCtx, from *ssa.BasicBlock) ([]*Outcome, bool) {
	h := lc.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	overMap := false
	for _, in := range h.Instrs {
		switch in := in.(type) {
		case *ssa.Next:
			rng, ok := in.Iter.(*ssa.Range)
			if !ok || in.IsString {
				return nil, false
			}
			n := len(ev.constCells(st, ev.val(fr, rng.X)))
			if n == 0 || n > 12 || ev.loopWrites(lc) {
				return nil, false
			}
			overMap = true
		case *ssa.MapUpdate, *ssa.Store:
			return nil, false
		case *ssa.Call:
			c := in
			if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return nil, false
			}
		}
	}
	f1, s1 := fr.clone(), st.clone()
	ev.phis(f1, h, from)
	oldMode, had := f1.mode[h]
	if overMap {
		f1.mode[h] = 3
	}
	for _, in := range h.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.If:
			continue
		case *ssa.Call:
			x := ev.val(f1, in.Call.Args[0])
			f1.env[in] = mkLen(x)
		default:
			ev.instr(f1, s1, in)
		}
	}
	if overMap {
		if f1.mode[h] = oldMode; !had {
			delete(f1.mode, h)
		}
	}
	c := ev.val(f1, iff.Cond)
	b, ok := constBool(c)
	if !ok {
		return nil, false
	}
	f1.visits[h]++
	if b {
		return ev.jump(f1, s1, h.Succs[0], h), true
	}
	f1.visits[h] = 0
	return ev.jump(f1, s1, h.Succs[1], h), true
}

// loopWrites: the loop updates or shrinks a map, maybe the one it ranges over.
func (ev *Eval) loopWrites(lc *loopCtx) bool {
	for b := range lc.blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.MapUpdate:
				return true
			case *ssa.Call:
				if b, ok := in.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
					return true
				}
			}
		}
	}
	return false
}
