package main

import (
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// T04, generated half: the proxies of a package register the union types that the
// methods they expose exchange.

// unionsOf are the union types reachable from a type through what is encoded.
func unionsOf(t types.Type, seen map[types.Type]bool, add func(*types.Named)) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	switch t := t.(type) {
	case *types.Named:
		if p := t.Obj().Pkg(); p == nil || p.Path() == "time" || p.Path() == "net/http" {
			return
		}
		if isUnion(t) {
			add(t)
		}
		unionsOf(t.Underlying(), seen, add)
	case *types.Alias:
		unionsOf(types.Unalias(t), seen, add)
	case *types.Pointer:
		unionsOf(t.Elem(), seen, add)
	case *types.Slice:
		unionsOf(t.Elem(), seen, add)
	case *types.Array:
		unionsOf(t.Elem(), seen, add)
	case *types.Map:
		unionsOf(t.Key(), seen, add)
		unionsOf(t.Elem(), seen, add)
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if f := t.Field(i); f.Exported() && reflect.StructTag(t.Tag(i)).Get("json") != "-" {
				unionsOf(f.Type(), seen, add)
			}
		}
	}
}

// isUnion: a struct whose fields are all members of a union.
func isUnion(n *types.Named) bool {
	s, ok := n.Underlying().(*types.Struct)
	if !ok || s.NumFields() == 0 {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		member := false
		for _, v := range strings.Split(reflect.StructTag(s.Tag(i)).Get("gotsrpc"), ",") {
			member = member || strings.TrimSpace(v) == "union"
		}
		if !member || !s.Field(i).Exported() {
			return false
		}
	}
	return true
}

// unionsRegistered are the types every initialisation of the emitted code hands to the registration functions;
// known is false if some could not be followed.
func (g *genPkg) unionsRegistered() (res map[string]bool, known bool) {
	c := g.c
	res, known = map[string]bool{}, true
	old := c.inline
	c.inline = func(f *ssa.Function) bool {
		if f.Pkg == c.P.root && strings.HasSuffix(f.Name(), "RegisterUnionExt") {
			return false
		}
		return g.inline(f)
	}
	defer func() { c.inline = old }()
	var names []string
	for n := range g.ssa.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f, ok := g.ssa.Members[n].(*ssa.Function)
		if !ok || !strings.HasPrefix(n, "init#") || !g.isGen(f) {
			continue
		}
		var common map[string]bool
		for _, o := range c.rootWith(f, nil, nil, nil) {
			if o.Kind != "ret" {
				continue
			}
			here := map[string]bool{}
			for _, e := range flatten(o.St.trace) {
				if e.Kind != "call" || !strings.HasSuffix(trimCallee(e.Callee), "RegisterUnionExt") || len(e.Args) == 0 {
					continue
				}
				list := c.listOf(e.Args[0], e.Event)
				if list == nil || len(e.Loop) > 0 {
					known = false
					continue
				}
				for _, x := range list {
					if x.Op != "iface" {
						known = false
						continue
					}
					here[typeName(x.Typ)] = true
				}
			}
			if common == nil {
				common = here
				continue
			}
			for k := range common {
				if !here[k] {
					delete(common, k)
				}
			}
		}
		for k := range common {
			res[k] = true
		}
	}
	return res, known
}

func (c *Check) t04Generated() {
	c.eachGen(func(g *genPkg) {
		if len(g.tgt.tsrpc) == 0 {
			return
		}
		reg, known := g.unionsRegistered()
		for _, s := range g.services(g.tgt.tsrpc) {
			seen := map[types.Type]bool{}
			var us []*types.Named
			add := func(n *types.Named) { us = append(us, n) }
			for _, m := range s.methods {
				for _, v := range m.data {
					unionsOf(v.Type(), seen, add)
				}
				for _, v := range m.rets {
					unionsOf(v.Type(), seen, add)
				}
			}
			for _, u := range us {
				what := s.id(typeName(u))
				switch {
				case reg[typeName(u)]:
					c.ok("generated-registers", what, 0)
				case !known:
					c.undecided("generated-registers", what, 0, "the registrations of the emitted code are not followed")
				default:
					c.fail("generated-registers", what, 0, "the emitted code does not register the union type %s that methods of %s exchange", u, s.name)
				}
			}
		}
	})
}
