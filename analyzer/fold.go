package main

import (
	"go/token"
	"mime"
	"strings"
)

// renorm re-applies the simplifications of a constructor after its arguments changed.
func renorm(t *Term) *Term {
	switch t.Op {
	case "eq":
		return mkEq(t.Args[0], t.Args[1])
	case "lt":
		return mkLt(t.Args[0], t.Args[1])
	case "empty":
		return mkEmpty(t.Args[0])
	case "isnil":
		return mkIsNil(t.Args[0])
	case "not":
		return mkNot(t.Args[0])
	case "cat":
		return mkCat(t.Args...)
	case "list":
		return mkList(t.Typ, t.Args...)
	case "fld":
		return mkFld(t.Args[0], t.Name, t.Typ)
	case "len":
		return mkLen(t.Args[0])
	case "add":
		return mkAdd(t.Args[0], t.Args[1])
	case "is":
		return mkIs(t.Args[0], t.Typ)
	case "index":
		return mkIndex(t.Args[0], t.Args[1], t.Typ)
	case "slice":
		return mkSlice(t.Args[0], t.Args[1], t.Args[2], t.Typ)
	case "str":
		return mkStr(t.Args[0])
	case "join":
		return mkJoin(t.Args[0], t.Args[1])
	case "call":
		if r := foldCall(t); r != nil {
			return r
		}
	case "res":
		if r := foldRes(t); r != nil {
			return r
		}
	}
	return t
}

// foldCall evaluates string functions of constants.
func foldCall(t *Term) *Term {
	s := make([]string, len(t.Args))
	ok := make([]bool, len(t.Args))
	for i, a := range t.Args {
		s[i], ok[i] = constStr(a)
	}
	two := len(ok) == 2 && ok[0] && ok[1]
	one := len(ok) == 1 && ok[0]
	switch t.Name {
	case "strings.HasPrefix":
		if two {
			return boolTerm(strings.HasPrefix(s[0], s[1]))
		}
		if len(ok) == 2 && ok[1] && s[1] == "" {
			return boolTerm(true)
		}
		if len(ok) == 2 && same(t.Args[0], t.Args[1]) {
			return boolTerm(true)
		}
	case "strings.HasSuffix":
		if two {
			return boolTerm(strings.HasSuffix(s[0], s[1]))
		}
	case "strings.Contains":
		if two {
			return boolTerm(strings.Contains(s[0], s[1]))
		}
	case "strings.EqualFold":
		if two {
			return boolTerm(strings.EqualFold(s[0], s[1]))
		}
	case "strings.Compare":
		if two {
			return intTerm(int64(strings.Compare(s[0], s[1])))
		}
	case "strings.Index":
		if two {
			return intTerm(int64(strings.Index(s[0], s[1])))
		}
	case "strings.IndexByte", "strings.LastIndex":
		if two && t.Name == "strings.LastIndex" {
			return intTerm(int64(strings.LastIndex(s[0], s[1])))
		}
	case "strings.ToLower":
		if one {
			return strTerm(strings.ToLower(s[0]))
		}
	case "strings.ToUpper":
		if one {
			return strTerm(strings.ToUpper(s[0]))
		}
	case "strings.TrimSpace":
		if one {
			return strTerm(strings.TrimSpace(s[0]))
		}
	case "strings.TrimPrefix":
		if two {
			return strTerm(strings.TrimPrefix(s[0], s[1]))
		}
	case "strings.TrimSuffix":
		if two {
			return strTerm(strings.TrimSuffix(s[0], s[1]))
		}
	case "strings.Trim":
		if two {
			return strTerm(strings.Trim(s[0], s[1]))
		}
	case "strings.TrimLeft":
		if two {
			return strTerm(strings.TrimLeft(s[0], s[1]))
		}
	case "strings.TrimRight":
		if two {
			return strTerm(strings.TrimRight(s[0], s[1]))
		}
	case "strings.Replace":
		if len(ok) == 4 && ok[0] && ok[1] && ok[2] {
			if n, isN := constInt(t.Args[3]); isN {
				return strTerm(strings.Replace(s[0], s[1], s[2], int(n)))
			}
		}
	case "strings.Split":
		if two {
			var items []*Term
			for _, x := range strings.Split(s[0], s[1]) {
				items = append(items, strTerm(x))
			}
			return mkList(t.Typ, items...)
		}
	case "strings.Fields":
		if one {
			var items []*Term
			for _, x := range strings.Fields(s[0]) {
				items = append(items, strTerm(x))
			}
			return mkList(t.Typ, items...)
		}
	case "strings.SplitN":
		if len(ok) == 3 && ok[0] && ok[1] {
			if n, isN := constInt(t.Args[2]); isN {
				var items []*Term
				for _, x := range strings.SplitN(s[0], s[1], int(n)) {
					items = append(items, strTerm(x))
				}
				return mkList(t.Typ, items...)
			}
		}
	case "strings.Title":
		if one && s[0] != "" {
			return strTerm(strings.ToUpper(s[0][:1]) + s[0][1:])
		}
	case "go/ast.IsExported", "go/token.IsExported":
		if one {
			return boolTerm(token.IsExported(s[0]))
		}
	}
	return nil
}

func foldRes(t *Term) *Term {
	c := t.Args[0]
	if c.Op != "call" {
		return nil
	}
	switch c.Name {
	case "mime.ParseMediaType":
		if s, ok := constStr(c.Args[0]); ok {
			m, _, err := mime.ParseMediaType(s)
			switch t.Name {
			case "0":
				return strTerm(m)
			case "2":
				if err == nil {
					return nilTerm
				}
			}
		}
	case "strings.Cut":
		a, ok1 := constStr(c.Args[0])
		b, ok2 := constStr(c.Args[1])
		if ok1 && ok2 {
			x, y, ok := strings.Cut(a, b)
			switch t.Name {
			case "0":
				return strTerm(x)
			case "1":
				return strTerm(y)
			default:
				return boolTerm(ok)
			}
		}
	case "strings.CutPrefix", "strings.CutSuffix":
		a, ok1 := constStr(c.Args[0])
		b, ok2 := constStr(c.Args[1])
		if ok1 && ok2 {
			x, ok := strings.CutPrefix(a, b)
			if c.Name == "strings.CutSuffix" {
				x, ok = strings.CutSuffix(a, b)
			}
			if t.Name == "0" {
				return strTerm(x)
			}
			return boolTerm(ok)
		}
	}
	return nil
}

// foldWith rewrites with f and folds constants bottom-up.
func foldWith(t *Term, f func(*Term) *Term) *Term {
	return rewrite(t, func(x *Term) *Term {
		return renorm(f(renorm(x)))
	})
}

// under specialises an outcome to a model of some terms; nil if the path is
// infeasible in that model.
func under(o *Outcome, f func(*Term) *Term) *Outcome {
	n := *o
	n.St = o.St.clone()
	nf := newFacts()
	for _, k := range o.St.facts.order {
		a := foldWith(o.St.facts.atoms[k], f)
		v := o.St.facts.val[k]
		for a.Op == "not" {
			a, v = a.Args[0], !v
		}
		if b, ok := constBool(a); ok {
			if b != v {
				return nil
			}
			continue
		}
		if !nf.assume(a, v) {
			return nil
		}
	}
	for _, d := range o.St.facts.disj {
		if !nf.add(d.rewrite(func(x *Term) *Term { return renorm(f(renorm(x))) })) {
			return nil
		}
	}
	n.St.facts = nf
	n.Rets = nil
	for _, r := range o.Rets {
		n.Rets = append(n.Rets, foldWith(r, f))
	}
	for k, v := range n.St.heap {
		n.St.heap[k] = foldWith(v, f)
	}
	n.St.trace = foldTrace(o.St.trace, f)
	return &n
}

func foldTrace(tr []*Event, f func(*Term) *Term) []*Event {
	res := make([]*Event, len(tr))
	for i, e := range tr {
		x := *e
		x.key = ""
		x.Args = make([]*Term, len(e.Args))
		for j, a := range e.Args {
			x.Args[j] = foldWith(a, f)
		}
		if e.Res != nil {
			x.Res = foldWith(e.Res, f)
		}
		x.Alts = nil
		for _, a := range e.Alts {
			x.Alts = append(x.Alts, &Alt{Cond: a.Cond.rewrite(func(y *Term) *Term { return renorm(f(renorm(y))) }), Trace: foldTrace(a.Trace, f)})
		}
		if e.Heap != nil {
			h := make(map[string]*Term, len(e.Heap))
			for k, v := range e.Heap {
				h[k] = foldWith(v, f)
			}
			x.Heap = h
		}
		res[i] = &x
	}
	return res
}
