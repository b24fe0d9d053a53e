package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Oblig is one proof obligation: a rule applied to a construct.
type Oblig struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Pos       string `json:"pos,omitempty"`
	Status    string `json:"status"` // ok fail known undecided
	Detail    string `json:"detail,omitempty"`
}

// Check collects the obligations of one property.
type Check struct {
	ID       string
	P        *Program
	Tier     string
	obls     []*Oblig
	seen     map[string]*Oblig
	funcs    map[string]bool
	paths    int
	calls    int
	t0       time.Time
	inline   func(*ssa.Function) bool
	partial  bool   // explore may stop after the first paths
	onlyRule string // only obligations of this rule are recorded
	effects  bool   // record in-place library effects and locking
}

func (c *Check) add(status, rule, construct string, pos token.Pos, format string, a ...any) {
	if c.onlyRule != "" && rule != c.onlyRule && construct != "engine limit" {
		return
	}
	p := ""
	if pos.IsValid() {
		p = c.P.posLine(pos)
	}
	k := rule + "\x01" + construct
	d := ""
	if format != "" {
		d = fmt.Sprintf(format, a...)
	}
	if len(d) > 700 {
		d = d[:700] + "…"
	}
	if o := c.seen[k]; o != nil {
		rank := map[string]int{"ok": 0, "undecided": 1, "fail": 2}
		if rank[status] > rank[o.Status] {
			o.Status, o.Pos, o.Detail = status, p, d
		}
		return
	}
	o := &Oblig{Rule: rule, Construct: construct, Pos: p, Status: status, Detail: d}
	c.seen[k] = o
	c.obls = append(c.obls, o)
}

func (c *Check) ok(rule, construct string, pos token.Pos) { c.add("ok", rule, construct, pos, "") }

func (c *Check) fail(rule, construct string, pos token.Pos, format string, a ...any) {
	c.add("fail", rule, construct, pos, format, a...)
}

func (c *Check) undecided(rule, construct string, pos token.Pos, format string, a ...any) {
	c.add("undecided", rule, construct, pos, format, a...)
}

// require records ok or fail.
func (c *Check) require(cond bool, rule, construct string, pos token.Pos, format string, a ...any) bool {
	if cond {
		c.ok(rule, construct, pos)
	} else {
		c.fail(rule, construct, pos, format, a...)
	}
	return cond
}

// limited reports whether something could not be analysed.
func (c *Check) limited() bool {
	for _, o := range c.obls {
		if o.Status == "undecided" {
			return true
		}
	}
	return false
}

// section runs one rule; limits of the engine are recorded as undecided.
func (c *Check) section(name string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch u := r.(type) {
			case Undecided:
				c.undecided(name, "engine limit", token.NoPos, "%s", u.Msg)
				if os.Getenv("VERIF_TRACE") != "" {
					debug.PrintStack()
				}
			default:
				c.undecided(name, "engine limit", token.NoPos, "%v", r)
				if os.Getenv("VERIF_TRACE") != "" {
					debug.PrintStack()
				}
			}
		}
	}()
	f()
}

// eval runs the abstract interpreter on a function and accounts for it.
func (c *Check) root(fn *ssa.Function) []*Outcome {
	ev := c.P.NewEval()
	ev.Inline = c.inline
	ev.Effects = c.effects
	outs := ev.Root(fn)
	c.account(ev)
	return outs
}

func (c *Check) rootWith(fn *ssa.Function, args, binds []*Term, st *State) []*Outcome {
	ev := c.P.NewEval()
	ev.Inline = c.inline
	ev.Effects = c.effects
	outs := ev.RootWith(fn, args, binds, st)
	c.account(ev)
	return outs
}

func (c *Check) account(ev *Eval) {
	for f := range ev.funcs {
		c.funcs[fnName(f)] = true
	}
	c.paths += ev.paths
	c.calls += ev.calls
}

// methodOf finds a method of a type, nil if there is none.
func (p *Program) methodOf(t types.Type, pkg *types.Package, name string) *ssa.Function {
	sel := p.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	if _, isI := t.Underlying().(*types.Interface); isI {
		return nil
	}
	return p.prog.MethodValue(sel)
}

// need looks up a function that the property is about.
func (c *Check) need(typ, name string) *ssa.Function {
	var f *ssa.Function
	if typ == "" {
		f = c.P.fn(name)
	} else {
		f = c.P.method(typ, name)
	}
	return f
}

type prop struct {
	id  string
	min int // number of obligations below which the analysed constructs must have disappeared
	run func(*Check)
}

var props []prop

func register(id string, min int, run func(*Check)) { props = append(props, prop{id, min, run}) }

type known struct{ prop, rule, construct, what string }

// loadKnown reads the known findings: "finding: property=<id> rule=<rule> construct=<construct> :: text".
func loadKnown(file string) []known {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var ks []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		head, text, ok := strings.Cut(l, " :: ")
		if !ok {
			continue
		}
		head = strings.TrimPrefix(head, "finding: property=")
		id, rest, ok := strings.Cut(head, " rule=")
		if !ok {
			continue
		}
		rule, construct, ok := strings.Cut(rest, " construct=")
		if !ok {
			continue
		}
		ks = append(ks, known{id, rule, construct, text})
	}
	return ks
}

var loaded *Program

func runCheck(id, tier, repo, verif string) int {
	t0 := time.Now()
	var pr *prop
	for i := range props {
		if props[i].id == id {
			pr = &props[i]
		}
	}
	if pr == nil {
		fmt.Printf("no check for property %s\n", id)
		return 2
	}
	evFile := filepath.Join(verif, "evidence", id+".json")
	replay := filepath.Join(verif, "evidence", id+".violation.txt")
	os.MkdirAll(filepath.Dir(evFile), 0o755)
	os.Remove(replay)
	var err error
	P := loaded
	if P == nil {
		P, err = Load(repo)
		loaded = P
	}
	if err != nil {
		fmt.Printf("the working tree does not type-check: %v\n", err)
		os.WriteFile(replay, []byte(err.Error()+"\n"), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	c := &Check{ID: id, P: P, Tier: tier, seen: map[string]*Oblig{}, funcs: map[string]bool{}, t0: t0}
	c.section("analysis", func() { pr.run(c) })

	counts := map[string]int{}
	rules := map[string]int{}
	var fails, undec []*Oblig
	ks := loadKnown(filepath.Join(verif, "known_findings.txt"))
	for _, o := range c.obls {
		rules[o.Rule]++
		if o.Status == "fail" {
			for _, k := range ks {
				if k.prop == id && k.rule == o.Rule && k.construct == o.Construct {
					o.Status = "known"
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.what)
				}
			}
		}
		counts[o.Status]++
		switch o.Status {
		case "fail":
			fails = append(fails, o)
		case "undecided":
			undec = append(undec, o)
		}
	}
	if len(fails) == 0 && len(undec) == 0 && len(c.obls) < pr.min {
		c.fail("coverage", "obligations", token.NoPos, "only %d obligations found in the source, at least %d are expected: the constructs this property is about are gone", len(c.obls), pr.min)
		fails = append(fails, c.obls[len(c.obls)-1])
		counts["fail"]++
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	fmt.Printf("%s: analysed %d functions, %d abstract paths, %d calls; %d obligations of %d rules: %d discharged, %d violated, %d known findings, %d undecided\n",
		id, len(fns), c.paths, c.calls, len(c.obls), len(rules), counts["ok"], counts["fail"], counts["known"], counts["undecided"])
	for _, u := range undec {
		fmt.Printf("UNDECIDED %s [%s] %s\n", u.Rule, u.Construct, u.Detail)
	}
	ev := map[string]any{
		"property": id,
		"tier":     tier,
		"seed":     seed(),
		"level":    "other",
		"wall_s":   time.Since(t0).Seconds(),
		"coverage": map[string]any{
			"explanation":          "Static analysis of the type-checked SSA form of /repo's working tree: every obligation (rule applied to a named construct) of this property was generated from the current source and decided on all abstract paths; nothing of gotsrpc was executed.",
			"obligations":          len(c.obls),
			"discharged":           counts["ok"],
			"violated":             counts["fail"],
			"known_findings":       counts["known"],
			"undecided":            counts["undecided"],
			"functions_analysed":   len(fns),
			"functions":            fns,
			"abstract_paths":       c.paths,
			"calls_interpreted":    c.calls,
			"obligations_per_rule": rules,
			"obligation_list":      c.obls,
			"minimum_obligations":  pr.min,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(evFile, append(b, '\n'), 0o644)
	if len(fails) > 0 {
		var sb strings.Builder
		for _, o := range fails {
			fmt.Fprintf(&sb, "%s: rule %s violated by %s: %s\n", o.Pos, o.Rule, o.Construct, o.Detail)
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		fmt.Print(sb.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	return 0
}

func seed() int {
	n := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &n)
	return n
}
