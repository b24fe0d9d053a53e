package main

import (
	"go/types"
	"sort"
)

// Facts is a conjunction of literals plus pending disjunctions.
type Facts struct {
	val   map[string]bool
	atoms map[string]*Term
	order []string
	disj  []*Form
}

func newFacts() *Facts { return &Facts{val: map[string]bool{}, atoms: map[string]*Term{}} }

func (f *Facts) clone() *Facts {
	n := &Facts{val: make(map[string]bool, len(f.val)), atoms: make(map[string]*Term, len(f.atoms))}
	for k, v := range f.val {
		n.val[k] = v
	}
	for k, v := range f.atoms {
		n.atoms[k] = v
	}
	n.order = append([]string(nil), f.order...)
	n.disj = append([]*Form(nil), f.disj...)
	return n
}

// kill drops the facts that mention a changed location.
func (f *Facts) kill(sub string) {
	var order []string
	for _, k := range f.order {
		if contains(f.atoms[k], sub) {
			delete(f.val, k)
			delete(f.atoms, k)
			continue
		}
		order = append(order, k)
	}
	f.order = order
	var d []*Form
	for _, x := range f.disj {
		hit := false
		x.walk(func(t *Term) bool {
			if contains(t, sub) {
				hit = true
			}
			return false
		})
		if !hit {
			d = append(d, x)
		}
	}
	f.disj = d
}

// decide returns (value, known).
func (f *Facts) decide(a *Term) (bool, bool) {
	if b, ok := constBool(a); ok {
		return b, true
	}
	if a.Op == "not" {
		v, ok := f.decide(a.Args[0])
		return !v, ok
	}
	if v, ok := f.val[a.Key()]; ok {
		return v, true
	}
	switch a.Op {
	case "eq", "lt":
		// interval / constant reasoning on (term, const)
		if a.Op == "lt" {
			c, okc := constInt(a.Args[0])
			if !okc {
				break
			}
			lo, hi, hasLo, hasHi := f.bounds(a.Args[1])
			if hasLo && lo > c {
				return true, true
			}
			if hasHi && hi <= c {
				return false, true
			}
			break
		}
		t, c := a.Args[0], a.Args[1]
		if isConst(c) {
			for _, k := range f.order {
				at := f.atoms[k]
				if at.Op == "eq" && f.val[k] && same(at.Args[0], t) && isConst(at.Args[1]) {
					return at.Args[1].Key() == c.Key(), true
				}
				if at.Op == "empty" && f.val[k] && same(at.Args[0], t) && isStringType(c.Typ) {
					return false, true
				}
				if at.Op == "isnil" && f.val[k] && same(at.Args[0], t) {
					return false, true
				}
			}
			if n, ok := constInt(c); ok {
				lo, hi, hasLo, hasHi := f.bounds(t)
				if hasLo && n < lo || hasHi && n > hi {
					return false, true
				}
				if hasLo && hasHi && lo == hi && lo == n {
					return true, true
				}
			}
		}
	case "empty":
		x := a.Args[0]
		if v, ok := f.val[mk("isnil", "", nil, x).Key()]; ok && v {
			return true, true
		}
		for _, k := range f.order {
			at := f.atoms[k]
			if at.Op == "eq" && f.val[k] && same(at.Args[0], x) && isConst(at.Args[1]) {
				return false, true
			}
		}
		lo, hi, hasLo, hasHi := f.bounds(mk("len", "", types.Typ[types.Int], x))
		if hasLo && lo > 0 {
			return false, true
		}
		if hasHi && hi == 0 {
			return true, true
		}
		if x.Op == "cat" {
			for _, p := range x.Args {
				if v, ok := f.decide(mkEmpty(p)); ok && !v {
					return false, true
				}
			}
		}
	case "isnil":
		if y := a.Args[0]; y.Op == "as" && y.Typ != nil && !types.IsInterface(y.Typ) {
			break // the asserted pointer itself may be nil
		}
		x := strip(a.Args[0])
		for _, k := range f.order {
			at := f.atoms[k]
			if !f.val[k] {
				if at.Op == "empty" && same(at.Args[0], x) {
					return false, true
				}
				continue
			}
			if (at.Op == "is" || at.Op == "eq" && isConst(at.Args[1])) && same(strip(at.Args[0]), x) {
				return false, true
			}
		}
	case "is":
		x := a.Args[0]
		if v, ok := f.val[mk("isnil", "", nil, x).Key()]; ok && v {
			return false, true
		}
		for _, k := range f.order {
			at := f.atoms[k]
			if at.Op != "is" || !same(at.Args[0], x) {
				continue
			}
			if f.val[k] {
				if _, isI := at.Typ.Underlying().(*types.Interface); !isI {
					return dynIs(at.Typ, a.Typ), true
				}
				if it, isI := a.Typ.Underlying().(*types.Interface); isI {
					if types.Implements(at.Typ, it) {
						return true, true
					}
				}
			} else {
				// !is(x, I) and a.Typ implements I  =>  !is(x, a.Typ)
				if it, isI := at.Typ.Underlying().(*types.Interface); isI && types.Implements(a.Typ, it) {
					return false, true
				}
			}
		}
	}
	return false, false
}

func (f *Facts) bounds(t *Term) (lo, hi int64, hasLo, hasHi bool) {
	if t.Op == "len" || t.Op == "idx" {
		lo, hasLo = 0, true
	}
	setLo := func(n int64) {
		if !hasLo || n > lo {
			lo, hasLo = n, true
		}
	}
	setHi := func(n int64) {
		if !hasHi || n < hi {
			hi, hasHi = n, true
		}
	}
	for _, k := range f.order {
		at := f.atoms[k]
		v := f.val[k]
		switch at.Op {
		case "lt":
			if c, ok := constInt(at.Args[0]); ok && same(at.Args[1], t) {
				if v {
					setLo(c + 1)
				} else {
					setHi(c)
				}
			}
		case "eq":
			if c, ok := constInt(at.Args[1]); ok && same(at.Args[0], t) && v {
				setLo(c)
				setHi(c)
			}
		case "empty":
			if t.Op == "len" && same(at.Args[0], t.Args[0]) {
				if v {
					setHi(0)
				} else {
					setLo(1)
				}
			}
		}
	}
	for {
		changed := false
		for _, k := range f.order {
			at := f.atoms[k]
			if at.Op == "eq" && !f.val[k] && same(at.Args[0], t) {
				if c, ok := constInt(at.Args[1]); ok {
					if hasLo && c == lo {
						lo++
						changed = true
					}
					if hasHi && c == hi {
						hi--
						changed = true
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	return
}

// eval is three-valued evaluation of a formula.
func (f *Facts) eval(g *Form) (bool, bool) {
	switch g.Op {
	case "true":
		return true, true
	case "false":
		return false, true
	case "atom":
		return f.decide(g.Atom)
	case "not":
		v, ok := f.eval(g.Sub[0])
		return !v, ok
	case "and":
		known := true
		for _, s := range g.Sub {
			v, ok := f.eval(s)
			if ok && !v {
				return false, true
			}
			known = known && ok
		}
		return true, known
	case "or":
		known := true
		for _, s := range g.Sub {
			v, ok := f.eval(s)
			if ok && v {
				return true, true
			}
			known = known && ok
		}
		return false, known
	}
	return false, false
}

// assume adds a literal; false means contradiction.
func (f *Facts) assume(a *Term, v bool) bool {
	if a.Op == "not" {
		return f.assume(a.Args[0], !v)
	}
	if b, ok := constBool(a); ok {
		return b == v
	}
	if w, ok := f.decide(a); ok {
		if w != v {
			return false
		}
		if _, have := f.val[a.Key()]; have {
			return true
		}
		// implied: no need to record
		return true
	}
	f.put(a, v)
	return f.propagate()
}

func (f *Facts) put(a *Term, v bool) {
	k := a.Key()
	if _, ok := f.val[k]; !ok {
		f.order = append(f.order, k)
	}
	f.val[k] = v
	f.atoms[k] = a
}

// add asserts a formula.
func (f *Facts) add(g *Form) bool {
	if v, ok := f.eval(g); ok {
		return v
	}
	switch g.Op {
	case "atom":
		return f.assume(g.Atom, true)
	case "not":
		s := g.Sub[0]
		switch s.Op {
		case "atom":
			return f.assume(s.Atom, false)
		case "or":
			for _, x := range s.Sub {
				if !f.add(fNot(x)) {
					return false
				}
			}
			return true
		case "and":
			var alts []*Form
			for _, x := range s.Sub {
				alts = append(alts, fNot(x))
			}
			f.disj = append(f.disj, fOr(alts...))
			return f.propagate()
		}
	case "and":
		for _, x := range g.Sub {
			if !f.add(x) {
				return false
			}
		}
		return true
	case "or":
		f.disj = append(f.disj, g)
		return f.propagate()
	}
	return true
}

func (f *Facts) propagate() bool {
	for i := 0; i < len(f.disj); i++ {
		d := f.disj[i]
		if d.Op != "or" {
			f.disj = append(append([]*Form(nil), f.disj[:i]...), f.disj[i+1:]...)
			if !f.add(d) {
				return false
			}
			i = -1
			continue
		}
		var live []*Form
		sat := false
		for _, s := range d.Sub {
			v, ok := f.eval(s)
			if ok && v {
				sat = true
				break
			}
			if !ok {
				live = append(live, s)
			}
		}
		if sat {
			f.disj = append(append([]*Form(nil), f.disj[:i]...), f.disj[i+1:]...)
			i--
			continue
		}
		if len(live) == 0 {
			return false
		}
		if len(live) == 1 {
			f.disj = append(append([]*Form(nil), f.disj[:i]...), f.disj[i+1:]...)
			if !f.add(live[0]) {
				return false
			}
			i = -1
		}
	}
	return true
}

// form returns the whole conjunction.
func (f *Facts) form() *Form {
	var fs []*Form
	for _, k := range f.order {
		x := formOf(f.atoms[k])
		if !f.val[k] {
			x = fNot(x)
		}
		fs = append(fs, x)
	}
	fs = append(fs, f.disj...)
	return fAnd(fs...)
}

// since returns the facts present in f and not in base.
func (f *Facts) since(base *Facts) *Form {
	var fs []*Form
	for _, k := range f.order {
		if v, ok := base.val[k]; ok && v == f.val[k] {
			continue
		}
		x := formOf(f.atoms[k])
		if !f.val[k] {
			x = fNot(x)
		}
		fs = append(fs, x)
	}
	have := map[string]bool{}
	for _, d := range base.disj {
		have[d.Key()] = true
	}
	for _, d := range f.disj {
		if !have[d.Key()] {
			fs = append(fs, d)
		}
	}
	return fAnd(fs...)
}

// mergeOr simplifies a disjunction of conjunctions of literals by resolution
// on complementary literals and absorption.
func mergeOr(fs []*Form) *Form {
	type cube map[string]*Form // key of positive-or-negative literal -> form
	toCube := func(f *Form) cube {
		c := cube{}
		if f.Op == "and" {
			for _, s := range f.Sub {
				c[s.Key()] = s
			}
		} else if f.Op != "true" {
			c[f.Key()] = f
		}
		return c
	}
	var cubes []cube
	for _, f := range fs {
		if f.Op == "false" {
			continue
		}
		if f.Op == "or" {
			for _, s := range f.Sub {
				cubes = append(cubes, toCube(s))
			}
			continue
		}
		cubes = append(cubes, toCube(f))
	}
	if len(cubes) == 0 {
		return fFalse
	}
	subset := func(a, b cube) bool {
		for k := range a {
			if _, ok := b[k]; !ok {
				return false
			}
		}
		return true
	}
	for changed := true; changed; {
		changed = false
	outer:
		for i := 0; i < len(cubes); i++ {
			for j := 0; j < len(cubes); j++ {
				if i == j {
					continue
				}
				if subset(cubes[i], cubes[j]) {
					cubes = append(cubes[:j:j], cubes[j+1:]...)
					changed = true
					break outer
				}
				// a∧x ∨ b∧¬x with a ⊆ b  =>  b loses ¬x
				for k, lit := range cubes[i] {
					nk := fNot(lit).Key()
					if _, ok := cubes[j][nk]; !ok {
						continue
					}
					rest := cube{}
					for k2, l2 := range cubes[i] {
						if k2 != k {
							rest[k2] = l2
						}
					}
					restJ := cube{}
					for k2, l2 := range cubes[j] {
						if k2 != nk {
							restJ[k2] = l2
						}
					}
					if subset(rest, restJ) {
						cubes[j] = restJ
						changed = true
						break outer
					}
				}
			}
		}
	}
	// factor the literals common to all cubes
	var common []*Form
	if len(cubes) > 1 {
		var ks []string
		for k := range cubes[0] {
			all := true
			for _, c := range cubes[1:] {
				if _, ok := c[k]; !ok {
					all = false
				}
			}
			if all {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			common = append(common, cubes[0][k])
		}
		for i, c := range cubes {
			n := cube{}
			for k, l := range c {
				n[k] = l
			}
			for _, k := range ks {
				delete(n, k)
			}
			cubes[i] = n
		}
	}
	var out []*Form
	for _, c := range cubes {
		var ks []string
		for k := range c {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var ls []*Form
		for _, k := range ks {
			ls = append(ls, c[k])
		}
		out = append(out, fAnd(ls...))
	}
	return fAnd(append(common, fOr(out...))...)
}
