package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "dump" {
		dump(os.Args[2:])
		return
	}
	if len(os.Args) < 3 || os.Args[1] != "check" {
		fmt.Println("usage: analyzer check <property> [repo] [verif]")
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	repo, verif := "/repo", "/verif"
	if len(os.Args) > 3 {
		repo = os.Args[3]
	}
	if len(os.Args) > 4 {
		verif = os.Args[4]
	}
	if os.Args[2] == "all" {
		rc := 0
		for _, p := range props {
			if r := runCheck(p.id, tier, repo, verif); r > rc {
				rc = r
			}
		}
		os.Exit(rc)
	}
	os.Exit(runCheck(os.Args[2], tier, repo, verif))
}

func dump(args []string) {
	t0 := time.Now()
	P, err := Load(envOr("VERIF_REPO", "/repo"))
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Fprintln(os.Stderr, "load", time.Since(t0))
	if args[0] == "pe" {
		peTest(P)
		return
	}
	if args[0] == "init" {
		var ks []string
		for k := range P.initState.heap {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(k, "=", P.initState.heap[k].Key())
		}
		return
	}
	for _, n := range args {
		if p := strings.Split(n, ":"); len(p) == 3 && p[0] == "ge" {
			genEval(P, p[1], p[2])
			continue
		}
		if p := strings.Split(n, ":"); len(p) == 3 && p[0] == "fault" {
			k, _ := strconv.Atoi(p[2])
			faultTest(P, p[1], k)
			continue
		}
		if strings.HasPrefix(n, "gen:") {
			genTest(P, n[4:])
			continue
		}
		f := P.fn(n)
		if strings.HasPrefix(n, "prom:") {
			f = P.prom.Func(n[5:])
		}
		if i := strings.Index(n, "."); i >= 0 && !strings.HasPrefix(n, "drv:") {
			f = P.method(n[:i], n[i+1:])
		}
		if strings.HasPrefix(n, "drv:") { // drv:stats:Attached
			parts := strings.Split(n, ":")
			src := map[string]string{"responsewriter": drvResponseWriter, "stats": drvStats, "prom": drvProm}[parts[1]]
			c := &Check{P: P, seen: map[string]*Oblig{}}
			if sp := c.driver(parts[1], src); sp != nil {
				f = sp.Func(parts[2])
			} else {
				fmt.Println(c.obls[0].Detail)
			}
		}
		if f == nil {
			fmt.Println("no", n)
			continue
		}
		ev := P.NewEval()
		t1 := time.Now()
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(Undecided); ok {
						fmt.Println("UNDECIDED", u.Msg)
						return
					}
					panic(r)
				}
			}()
			outs := ev.Root(f)
			for i, o := range outs {
				printOutcome(P, i, o)
			}
		}()
		fmt.Fprintln(os.Stderr, n, time.Since(t1), "steps", ev.steps)
	}
}

func printOutcome(P *Program, i int, o *Outcome) {
	fmt.Printf("== %d %s %s\n", i, o.Kind, P.posLine(o.Pos))
	fmt.Println("  when", o.St.facts.form().Key())
	for _, r := range o.Rets {
		fmt.Println("  ->", r.Key())
	}
	for _, e := range o.St.trace {
		fmt.Println("  *", P.posLine(e.Pos), e.Key())
	}
	var ks []string
	for k := range o.St.heap {
		if b, ok := P.initState.heap[k]; ok && same(b, o.St.heap[k]) {
			continue
		}
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println("   ", k, "=", o.St.heap[k].Key())
	}
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}
