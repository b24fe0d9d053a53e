package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// Decision tables: the outcomes of a function are specialised to every
// combination of truth values of the atoms its specification speaks about.
// Whatever else a path depends on must not change the result.

type atom struct {
	name string
	t    *Term
}

type model map[string]bool

func (m model) String() string {
	var b []string
	for k, v := range m {
		if v {
			b = append(b, k)
		} else {
			b = append(b, "!"+k)
		}
	}
	sortStrings(b)
	return strings.Join(b, " ")
}

// canon rewrites equivalent library idioms to one form.
func canon(x *Term) *Term {
	switch x.Op {
	case "as":
		if x.Typ == nil || types.IsInterface(x.Typ) {
			return x.Args[0]
		}
	case "call":
		switch x.Name {
		case "github.com/pkg/errors.Unwrap":
			return mk("call", "errors.Unwrap", x.Typ, x.Args...)
		case "fmt.Sprintf":
			if f, ok := constStr(x.Args[0]); ok && f == "%T" && x.Args[1].Op == "list" && len(x.Args[1].Args) == 1 {
				return mk("call", "(reflect.Type).String", types.Typ[types.String], mk("call", "reflect.TypeOf", nil, strip(x.Args[1].Args[0])))
			}
		case "(reflect.Value).Type":
			if a := x.Args[0]; a.Op == "call" && a.Name == "reflect.ValueOf" {
				return mk("call", "reflect.TypeOf", nil, a.Args...)
			}
		case "(reflect.Value).Kind":
			if a := x.Args[0]; a.Op == "call" && a.Name == "reflect.ValueOf" {
				return mk("call", "(reflect.Type).Kind", nil, mk("call", "reflect.TypeOf", nil, a.Args...))
			}
		case "reflect.TypeOf", "reflect.ValueOf":
			if a := x.Args[0]; a.Op == "as" {
				return mk("call", x.Name, x.Typ, strip(a))
			}
		case "(net/http.Header).Get":
			if s, ok := constStr(x.Args[1]); ok && canonicalHeader(s) != s {
				return mk("call", x.Name, x.Typ, x.Args[0], strTerm(canonicalHeader(s)))
			}
		case "(error).Error":
			if a := strip(x.Args[0]); a.Op == "call" && (a.Name == "errors.New" || a.Name == "github.com/pkg/errors.New") {
				return a.Args[0]
			}
		case "fmt.Sprint":
			if x.Args[0].Op == "list" && len(x.Args[0].Args) == 1 {
				if a := strip(x.Args[0].Args[0]); isStringType(a.Typ) {
					return a
				}
			}
		case "(time.Time).Sub":
			if a := x.Args[0]; a.Op == "call" && a.Name == "time.Now" {
				return mk("call", "time.Since", x.Typ, x.Args[1])
			}
		}
	}
	return x
}

func canonTerm(t *Term) *Term { return foldWith(t, canon) }

// opaqueTerm: the value comes out of a construct that the domain only describes structurally.
func opaqueTerm(t *Term) bool {
	return hasTerm(t, func(x *Term) bool {
		switch x.Op {
		case "fold", "lv", "killed", "out", "cond", "any", "free", "unop", "star":
			return true
		case "call":
			return x.Name == "dynamic"
		}
		return false
	})
}

// table decides outs against want for every model.
func (c *Check) table(rule, construct string, pos token.Pos, outs []*Outcome, pre func(*Term) *Term, atoms []atom,
	valid func(m model) bool, body func(m model, o *Outcome) (bool, string)) {
	if pre == nil {
		pre = canon
	}
	n := len(atoms)
	keys := make([]string, n)
	for i, a := range atoms {
		t := foldWith(a.t, pre)
		neg := false
		for t.Op == "not" {
			t, neg = t.Args[0], !neg
		}
		if isConst(t) {
			c.undecided(rule, construct, pos, "the condition %s is constant", a.name)
			return
		}
		_ = neg
		keys[i] = t.Key()
	}
	covered := 0
	for bits := 0; bits < 1<<n; bits++ {
		m := model{}
		sub := map[string]*Term{}
		for i, a := range atoms {
			v := bits&(1<<i) != 0
			m[a.name] = v
			t := foldWith(a.t, pre)
			w := v
			for t.Op == "not" {
				t, w = t.Args[0], !w
			}
			sub[t.Key()] = boolTerm(w)
		}
		if valid != nil && !valid(m) {
			continue
		}
		f := func(x *Term) *Term {
			y := pre(x)
			if r, ok := sub[y.Key()]; ok {
				return r
			}
			return y
		}
		for _, o := range outs {
			u := under(o, f)
			if u == nil {
				continue
			}
			covered++
			ok, msg := body(m, u)
			if ok {
				c.ok(rule, construct, pos)
				continue
			}
			p := posOf(o, pos)
			if strings.HasPrefix(msg, "?") {
				c.undecided(rule, construct, p, "when %s: %s", m, msg[1:])
			} else {
				c.fail(rule, construct, p, "when %s: %s", m, msg)
			}
		}
	}
	if covered == 0 {
		c.fail(rule, construct, pos, "no path of the function is possible under any condition of the specification")
	}
	_ = keys
	_ = fmt.Sprint
}

// differs describes an unexpected value; unknown constructs are marked undecided.
func differs(what string, got, want *Term) string {
	s := fmt.Sprintf("%s is %s instead of %s", what, short(got), short(want))
	if got != nil && opaqueTerm(got) {
		return "?" + s
	}
	return s
}
