package main

import (
	"fmt"
	"os"
	"time"

	"golang.org/x/tools/go/ssa"
)

func peTest(P *Program) {
	src, _ := os.ReadFile("/repo/example/basic/service/service.go")
	w := &world{dirs: map[string]map[string]string{
		"/src/acme/shop": {"service.go": string(src)},
	}}
	c := &Check{P: P, seen: map[string]*Oblig{}, funcs: map[string]bool{}}
	t0 := time.Now()
	defer func() {
		if r := recover(); r != nil {
			fmt.Println("PANIC", r)
		}
	}()
	var outsS []any
	outs := c.explore(100, func(pe *PE) (*ssa.Function, []any) {
		pe.useWorld(w)
		read := P.peFn("Read")
		ns := pe.mkStruct(pe.typ(modPath+"/config", "Namespace"), map[string]any{"Name": "example.com/acme", "Path": "/src/acme"})
		return read, []any{pstrs([]string{"/go", "/goroot"}), ns, "example.com/acme/shop", pe.mkMap(map[string]any{"/service": "Service"}), newPMap(), newPMap()}
	})
	fmt.Println(len(outs), time.Since(t0))
	for _, o := range outs {
		fmt.Println(o.kind, o.msg, P.posLine(o.pos), o.conds, o.pe.steps)
		for i, r := range o.rets {
			fmt.Println(i, pkey(r))
		}
		outsS = o.rets
		_ = outsS
		for k, p := range o.pe.compared {
			fmt.Printf("cmp %q %s\n", k, P.posLine(p))
		}
		for _, e := range o.trace {
			fmt.Println("  *", P.posLine(e.pos), e.name, pkey(ptuple(e.args)))
		}
		pe := o.pe
		for _, fn := range []string{"RenderGoTSRPCProxies", "RenderGoTSRPCClients", "RenderGoRPCProxies", "RenderGoRPCClients"} {
			target := ptr(pe.mkStruct(pe.typ(modPath+"/config", "Target"), map[string]any{"GoRPC": pstrs([]string{"Service"})}))
			f := P.peFn(fn)
			args := []any{o.rets[1], "example.com/acme/shop", "shop", target}
			if fn == "RenderGoTSRPCProxies" {
				args = append(args, newPMap())
			}
			r := pe.callFn(f, args, nil, f.Pos())
			fmt.Println(r[0])
		}
	}
}

func genTest(P *Program, name string) {
	c := &Check{P: P, seen: map[string]*Oblig{}, funcs: map[string]bool{}}
	in := map[string]*genInput{"shop": genShop, "split": genSplit, "kit": genKit, "duo": genDuo, "edge": genEdge, "names": genNames, "far": genFar, "wide": genWide, "spell": genSpell, "places": genPlace, "plain": genPlain}[name]
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Undecided); ok {
				fmt.Println("UNDECIDED", u.Msg)
				return
			}
			panic(r)
		}
	}()
	t0 := time.Now()
	outs := c.generate(in, 64)
	fmt.Println(len(outs), "paths", time.Since(t0))
	for _, o := range outs {
		fmt.Println("==", o.kind, o.msg, P.posLine(o.pos), o.conds, o.pe.steps)
		for k, p := range o.pe.compared {
			fmt.Printf("cmp %q %s\n", k, P.posLine(p))
		}
		for _, n := range o.order {
			fmt.Println("----", n)
			fmt.Println(o.files[n])
		}
		fmt.Println("unknown", len(o.unknown), "removed", o.removed, o.reason())
		for i := range in.targets {
			g := c.emitted(in, o, &in.targets[i], "emitted")
			_ = g
		}
	}
	for _, ob := range c.obls {
		fmt.Println(ob.Status, ob.Rule, ob.Construct, ob.Detail)
	}
}

func genEval(P *Program, typ, name string) {
	c := &Check{P: P, seen: map[string]*Oblig{}, funcs: map[string]bool{}}
	o := c.single(genShop, "x")
	g := c.emitted(genShop, o, &genShop.targets[0], "emitted")
	f := g.method(typ, name)
	for i, o := range g.eval(f) {
		printOutcome(P, i, o)
	}
}

func faultTest(P *Program, name string, k int) {
	c := &Check{P: P, seen: map[string]*Oblig{}, funcs: map[string]bool{}}
	in := map[string]*genInput{"duo": genDuo, "kit": genKit, "vendor": genVendor, "old": genOld, "home": genHome}[name]
	for _, o := range c.generate(in.variant(func(v *genInput) { v.faultAt, v.faultN = k, 1 }), 64) {
		fmt.Println(o.end(), o.world.injected, o.conds, o.world.ops, P.posLine(o.pos))
		for _, e := range o.trace {
			fmt.Println("  *", P.posLine(e.pos), e.name, pkey(ptuple(e.args)))
		}
	}
}
