package main

import (
	"fmt"
	"go/parser"
	"go/token"
	"maps"
	"path"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("G08", 100, checkG08)
}

// ---- G08: failures are reported ---------------------------------------------------------------

var generatedGo = []string{"gotsrpc_gen.go", "gotsrpcclient_gen.go", "gorpc_gen.go", "gorpcclient_gen.go"}

// abs is the place of a file that is named relative to the working directory or the home directory.
func (in *genInput) abs(p string) string {
	if strings.HasPrefix(p, "~") {
		return path.Join("/home/qz", p[1:])
	}
	if !path.IsAbs(p) {
		cwd := in.cwd
		if cwd == "" {
			cwd = "/work"
		}
		return path.Join(cwd, p)
	}
	return path.Clean(p)
}

// expected are the files a successful run for an input must have produced.
func (c *Check) expected(in *genInput) map[string]string {
	want := map[string]string{}
	for i := range in.targets {
		t := &in.targets[i]
		d := in.dir(t.pkg) + "/"
		if len(t.tsrpc) > 0 {
			want[d+generatedGo[0]] = "TSRPC proxies of " + t.name
			if !t.skip {
				want[d+generatedGo[1]] = "TSRPC clients of " + t.name
			}
		}
		if len(t.gorpc) > 0 {
			want[d+generatedGo[2]] = "GoRPC proxies of " + t.name
			want[d+generatedGo[3]] = "GoRPC clients of " + t.name
		}
		if t.out != "" {
			want[in.abs(t.out)] = "TypeScript client of " + t.name
		}
	}
	for i, m := range c.read(in) {
		if in.targets[i].out == "" {
			continue
		}
		for _, s := range m.structs {
			if mp, ok := in.mappings[s.pkg]; ok {
				want[in.abs(mp.out)] = "TypeScript module of " + s.pkg
			}
		}
	}
	return want
}

// allowed are the files the generator may write or remove.
func (in *genInput) allowed() map[string]bool {
	r := map[string]bool{}
	for _, t := range in.targets {
		for _, n := range generatedGo {
			r[in.dir(t.pkg)+"/"+n] = true
		}
		if t.out != "" {
			r[in.abs(t.out)] = true
		}
	}
	for _, m := range in.mappings {
		r[in.abs(m.out)] = true
	}
	return r
}

// finals is the content of all files in the end.
func (o *genOut) finals() map[string]string {
	r := map[string]string{}
	for n, s := range o.final {
		r[o.in.abs(n)] = s
	}
	return r
}

// onlyOwn: nothing but the outputs was touched.
func (c *Check) onlyOwn(in *genInput, o *genOut, what string) {
	allowed := in.allowed()
	fin := o.finals()
	failing := len(o.world.injected) > 0 // leaves something for debugging
	for _, e := range o.world.effects {
		p := in.abs(e.path)
		construct := in.name + what + ": " + e.op + " " + p
		if strings.HasPrefix(e.op, "os.Mkdir") {
			ok := false
			for a := range allowed {
				ok = ok || strings.HasPrefix(a, p+"/") || p == "/"
			}
			c.require(ok, "own-directories", construct, e.pos, "%s creates the directory %s, which no output is below", e.op, p)
			continue
		}
		_, before := in.files[e.path]
		_, after := fin[p]
		_, source := o.world.dirs[path.Dir(p)][path.Base(p)]
		c.require(allowed[p] || !before && !after && !source || failing && !before && !source, "own-files", construct, e.pos, "%s touches %s, which is neither a generated Go file of a target nor a configured output", e.op, p)
	}
}

// printed reports whether a text is part of something that was printed.
func (o *genOut) printed(what string) bool {
	for _, e := range o.trace {
		if strings.HasPrefix(e.name, "fmt.") || strings.HasPrefix(e.name, "log.") || strings.HasPrefix(e.name, "log/slog.") || strings.HasPrefix(e.name, "(*log.") || strings.HasPrefix(e.name, "(*log/slog.") || strings.HasSuffix(e.name, ".WriteString") || strings.HasSuffix(e.name, ".Write") {
			if len(e.args) > 0 && strings.Contains(pkey(ptuple(e.args)), what) {
				return true
			}
		}
	}
	return false
}

// status is the exit status of a path; unknown statuses are undecided.
func (c *Check) status(o *genOut, rule, construct string) (int64, bool) {
	switch o.kind {
	case "ret":
		return 0, true
	case "panic":
		return 2, true
	}
	code, ok := o.rets[0].(int64)
	if !ok {
		c.undecided(rule, construct, o.pos, "the exit status is %s", pkey(o.rets[0]))
	}
	return code, ok
}

// complete: a run that ends well has produced every output.
func (c *Check) complete(in *genInput, o *genOut, what string) {
	for n := range o.unknown {
		panic(Undecided{fmt.Sprintf("%s: the content of %s is not known", in.name, n)})
	}
	fin := o.finals()
	want := c.expected(in)
	var ns []string
	for n := range want {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		s, ok := fin[n]
		_, own := o.world.written[n]
		for w := range o.world.written {
			own = own || in.abs(w) == n
		}
		if _, before := in.files[n]; !before || strings.HasSuffix(n, ".go") {
			ok = ok && own
		}
		construct := in.name + what + ": " + n
		if !c.require(ok && strings.TrimSpace(s) != "", "produced", construct, o.pos, "the generator ends with status 0, but the %s (%s) was not written", want[n], n) {
			continue
		}
		if strings.HasSuffix(n, ".go") {
			_, err := parser.ParseFile(token.NewFileSet(), n, s, 0)
			c.require(err == nil, "produced", construct, o.pos, "the generator ends with status 0, but the %s does not parse: %v", want[n], err)
		}
	}
	for i := range in.targets {
		t := &in.targets[i]
		for _, n := range generatedGo {
			f := in.dir(t.pkg) + "/" + n
			if _, configured := want[f]; !configured {
				_, ok := fin[f]
				c.require(!ok, "only-configured", in.name+what+": "+f, o.pos, "the target %s does not ask for %s, but the file exists after a run", t.name, n)
			}
		}
	}
}

// reported: a run with a failing operation is reported, or did what it does without the failure.
func (c *Check) reported(in *genInput, o, base *genOut, fault string) {
	construct := in.name + ", " + fault + " fails"
	switch o.kind {
	case "ret":
		for n := range o.unknown {
			panic(Undecided{fmt.Sprintf("%s: the content of %s is not known", in.name, n)})
		}
		d := o.diff(base)
		c.require(d == "", "failure-reported", construct, o.pos, "%s fails, but the generator ends normally: %s", fault, d)
		return
	case "panic":
		said := false
		for _, r := range o.rets {
			said = said || strings.Contains(pkey(r), "new:injected")
		}
		c.require(said, "failure-reported", construct, o.pos, "%s fails and the generator panics: %s", fault, o.msg)
		return
	}
	code, ok := c.status(o, "failure-reported", construct)
	if !ok {
		return
	}
	c.require(code != 0, "failure-reported", construct, o.pos, "%s fails, but the generator exits with status 0", fault)
	c.require(o.printed("new:injected"), "failure-printed", construct, o.pos, "%s fails and the generator exits with status %d without printing the reason", fault, code)
}

func checkG08(c *Check) {
	cases := []*genInput{genDuo, genKit, genHome, genOld, genVendor, genPlain}
	if c.Tier == "thorough" {
		cases = append(slices.Clone(genCases), genHome, genOld, genVendor, genTags)
	}
	for _, in := range cases {
		var base *genOut
		c.section("produced", func() {
			base = c.outcome(in, "produced", in.name)
			if base == nil {
				return
			}
			if base.kind != "ret" {
				c.fail("produced", in.name, base.pos, "generating code for a supported service ends in a %s: %s", base.end(), base.reason())
				base = nil
				return
			}
			c.complete(in, base, "")
			c.onlyOwn(in, base, "")
		})
		if base == nil {
			continue
		}
		c.section("failure-reported", func() {
			for k := 1; k <= base.world.ops; k++ {
				for _, n := range []int{1, 2, 1 << 30} {
					v := in.variant(func(v *genInput) { v.faultAt, v.faultN = k, n })
					o := c.outcome(v, "failure-reported", in.name)
					if o == nil || len(o.world.injected) == 0 {
						break
					}
					what := o.world.injected[0]
					if n > 1 && len(o.world.injected) == 1 || n > 2 && len(o.world.injected) == 2 {
						break
					}
					if n == 2 {
						what += " and " + o.world.injected[1]
					} else if n > 2 {
						what += " and everything after"
					}
					c.reported(in, o, base, what)
					c.onlyOwn(in, o, ", "+what+" fails")
				}
			}
		})
	}
	for _, in := range genCases {
		if slices.Contains(cases, in) {
			continue
		}
		c.section("produced", func() {
			if o := c.single(in, "produced"); o != nil {
				c.complete(in, o, "")
				c.onlyOwn(in, o, "")
			}
		})
	}
	for _, b := range genBad() {
		c.section("failure-reported", func() {
			for _, o := range c.generate(b, 256) {
				if o.kind == "ret" {
					// not a failure for this generator
					c.complete(b, o, "")
					if b.says != "" {
						c.fail("failure-reported", b.name, o.pos, "the generator ends normally%s", under2(o))
					}
					continue
				}
				if o.kind == "panic" {
					c.fail("failure-reported", b.name, o.pos, "the generator panics: %s", o.reason())
					continue
				}
				code, ok := c.status(o, "failure-reported", b.name)
				if !ok {
					continue
				}
				c.require(code != 0, "failure-reported", b.name, o.pos, "the generator exits with status 0%s", under2(o))
				says := b.says
				if len(o.conds) > 0 {
					says = "" // may have failed for another reason
				}
				c.require(o.printed(says), "failure-printed", b.name, o.pos, "the generator exits with status %d without printing the reason (%s)", code, b.says)
				c.onlyOwn(b, o, "")
			}
		})
	}
	c.section("command", func() { c.g08Command() })
}

// g08Command: the command reports a configuration that can not be loaded and builds one that can.
func (c *Check) g08Command() {
	pp := c.P.peProg()
	load, build := pp.config.Func("LoadConfigFile"), pp.root.Func("Build")
	if load == nil || build == nil {
		panic(Undecided{"LoadConfigFile or Build does not exist"})
	}
	for _, cmd := range pp.cmds {
		main := cmd.Func("main")
		if main == nil {
			continue
		}
		for _, k := range []struct {
			name string
			args []string
			bad  bool
			nogp bool
		}{
			{"one configuration", []string{"qz/build.yml"}, false, false},
			{"one configuration, GOPATH not set", []string{"qz/build.yml"}, false, true},
			{"a configuration that can not be loaded", []string{"qz/build.yml"}, true, false},
			{"no configuration", nil, false, false},
			{"two configurations", []string{"qz/build.yml", "qz/other.yml"}, false, false},
		} {
			var built, loaded [][]any
			var conf *pcell
			outs := c.explore(64, func(pe *PE) (*ssa.Function, []any) {
				pe.useGenWorld(genKit)
				built, loaded = nil, nil
				conf = ptr(pzero(pe.typ(modPath+"/config", "Config")))
				pe.useFlags(k.args)
				pe.models[fnName(load)] = func(pe *PE, q *pcall) ([]any, bool) {
					loaded = append(loaded, q.args)
					if k.bad {
						return []any{pnil{}, pe.newError("injected LoadConfigFile")}, true
					}
					return []any{conf, pnil{}}, true
				}
				pe.models[fnName(build)] = func(pe *PE, q *pcall) ([]any, bool) {
					built = append(built, q.args)
					return nil, true
				}
				if k.nogp {
					pe.models["os.Getenv"] = func(pe *PE, q *pcall) ([]any, bool) { return []any{""}, true }
					pe.models["os.LookupEnv"] = func(pe *PE, q *pcall) ([]any, bool) { return []any{"", false}, true }
				} else {
					pe.models["os.Getenv"] = func(pe *PE, q *pcall) ([]any, bool) { return []any{"/qzgo"}, true }
					pe.models["os.LookupEnv"] = func(pe *PE, q *pcall) ([]any, bool) { return []any{"/qzgo", true}, true }
				}
				return main, nil
			})
			if len(outs) != 1 {
				panic(Undecided{fmt.Sprintf("%s: %d paths, e.g. under %v", fnName(main), len(outs), outs[0].conds)})
			}
			o := &genOut{pout: outs[0], in: genKit}
			construct := fnName(main) + " with " + k.name
			code, ok := c.status(o, "command", construct)
			if !ok {
				continue
			}
			good := !k.bad && len(k.args) == 1
			if o.kind == "panic" {
				c.fail("command", construct, o.pos, "the command panics: %s", o.msg)
				continue
			}
			if !good {
				c.require(code != 0, "command", construct, o.pos, "the command ends with status 0")
				c.require(len(built) == 0, "command", construct, o.pos, "code is generated all the same")
				says := ""
				if k.bad {
					says = "new:injected"
				}
				c.require(o.printed(says), "command-printed", construct, o.pos, "the command ends with status %d without printing the reason", code)
				continue
			}
			c.require(len(loaded) == 1 && loaded[0][0] == k.args[0], "command", construct, o.pos, "the configuration that is named is not the one that is loaded")
			if c.require(len(built) == 1, "command", construct, o.pos, "Build is called %d times for a configuration that was loaded", len(built)) {
				c.require(built[0][0] == any(conf), "command", construct, o.pos, "Build is called with %s instead of the configuration that was loaded", pkey(built[0][0]))
				c.require(code == 0, "command", construct, o.pos, "the command ends with status %d after a build without failure", code)
			}
		}
	}
}

// useFlags models the command line.
func (pe *PE) useFlags(args []string) {
	m := pe.models
	flag := func(pe *PE, c *pcall) ([]any, bool) { return []any{ptr(c.args[1])}, true }
	for _, n := range []string{"Bool", "String", "Int", "Duration"} {
		m["flag."+n] = flag
	}
	set := func(pe *PE, c *pcall) ([]any, bool) {
		p, ok := c.args[0].(*pcell)
		if !ok {
			return nil, false
		}
		p.v = c.args[2]
		return nil, true
	}
	for _, n := range []string{"BoolVar", "StringVar", "IntVar", "DurationVar"} {
		m["flag."+n] = set
	}
	m["flag.Parse"] = func(pe *PE, c *pcall) ([]any, bool) { return nil, true }
	m["flag.PrintDefaults"] = m["flag.Parse"]
	m["flag.Args"] = func(pe *PE, c *pcall) ([]any, bool) { return []any{pstrs(args)}, true }
	m["flag.NArg"] = func(pe *PE, c *pcall) ([]any, bool) { return []any{int64(len(args))}, true }
	m["flag.Arg"] = func(pe *PE, c *pcall) ([]any, bool) {
		i, ok := c.args[0].(int64)
		if !ok {
			return nil, false
		}
		if i < 0 || int(i) >= len(args) {
			return []any{""}, true
		}
		return []any{args[i]}, true
	}
}

// genHome: outputs below the home directory and relative to the working directory.
var genHome = genDuo.variant(func(v *genInput) {
	v.name = "home"
	v.targets = slices.Clone(v.targets)
	v.targets[0].out, v.targets[1].out = "~/qzts/one-client.ts", "~/qzts/deep/two-client.ts"
	v.targets[1].skip = true
	v.mappings = map[string]genMapping{}
	for p, m := range genDuo.mappings {
		m.out = "~" + m.out
		v.mappings[p] = m
	}
})

// genOld: outputs of an earlier run exist, those of one target have not changed.
var genOld = genDuo.variant(func(v *genInput) {
	v.name = "old"
	for _, t := range v.targets {
		for _, n := range generatedGo {
			v.files[v.dir(t.pkg)+"/"+n] = "package " + path.Base(t.pkg) + "\n"
		}
		if t.out != "" {
			v.files[t.out] = "// old\n"
		}
		v.files[v.dir(t.pkg)+"/qzother_gen.go"] = "package " + path.Base(t.pkg) + "\n"
		v.files[v.dir(t.pkg)+"/qzdata.json"] = "{}\n"
	}
	// keep the package names of the sources
	for _, n := range append(slices.Clone(generatedGo), "qzother_gen.go") {
		v.files[v.dir(acme+"/third")+"/"+n] = "package three\n"
	}
	for _, m := range v.mappings {
		v.files[m.out] = "// old\n"
	}
	v.pkgs = maps.Clone(v.pkgs)
	v.pkgs[acme+"/only"] = map[string]string{"only.go": "package only\n\ntype QzLevel int\n\nconst QzLevelHigh QzLevel = 3\n"}
	v.pkgs[acme+"/one"] = maps.Clone(v.pkgs[acme+"/one"])
	v.pkgs[acme+"/one"]["levels.go"] = "package one\n\nimport \"example.com/acme/only\"\n\nfunc (o *QzOne) QzLevels(qzA only.QzLevel) (qzB string)\n"
	v.mappings = maps.Clone(v.mappings)
	v.mappings[acme+"/only"] = genMapping{out: "/ts/only.ts"}
	v.files["/ts/qzother.ts"] = "// mine\n"
	v.files["/ts/vo/qzother.ts"] = "// mine\n"
})

// genBad are inputs no code can be generated for, and what must be said about them.
// Without such a text it is left open whether they are supported.
func genBad() []*genInput {
	var res []*genInput
	add := func(name, says string, base *genInput, f func(v *genInput)) {
		v := base.variant(func(v *genInput) {
			v.name, v.says = "bad:"+name, says
			v.targets = slices.Clone(v.targets)
			for i := range v.targets {
				svc := map[string]string{}
				for e, s := range v.targets[i].services {
					svc[e] = s
				}
				v.targets[i].services = svc
			}
			v.pkgs = map[string]map[string]string{}
			for p, fs := range base.pkgs {
				v.pkgs[p] = map[string]string{}
				for n, s := range fs {
					v.pkgs[p][n] = s
				}
			}
			v.mappings = map[string]genMapping{}
			for p, m := range base.mappings {
				v.mappings[p] = m
			}
			f(v)
		})
		res = append(res, v)
	}
	one, two, three := acme+"/one", acme+"/sub/two", acme+"/third"
	src := map[string]string{one: "one.go", two: "two.go", three: "three.go"}
	for i, p := range []string{one, two, three} {
		at := []string{"first", "second", "last"}[i]
		add("no services in the "+at+" target", "e", genDuo, func(v *genInput) { v.targets[i].services = map[string]string{} })
		add("package of the "+at+" target does not exist", p, genDuo, func(v *genInput) {
			v.targets[i].pkg += "/missing"
		})
		add("package of the "+at+" target does not parse", "expected", genDuo, func(v *genInput) {
			v.pkgs[p]["qzbroken.go"] = "package " + path.Base(p) + "\n\nfunc (\n"
		})
		add("package of the "+at+" target has only tests", path.Base(p), genDuo, func(v *genInput) {
			v.pkgs[p] = map[string]string{"one_test.go": v.pkgs[p][src[p]]}
		})
		add("service of the "+at+" target does not exist", "QzMissing", genDuo, func(v *genInput) {
			v.targets[i].services["/qz/missing"] = "QzMissing"
		})
		add("type of the "+at+" target does not exist", "QzGone", genDuo, func(v *genInput) {
			for _, q := range []string{"shared.QzItem", "items.QzItem"} {
				v.pkgs[p][src[p]] = strings.Replace(v.pkgs[p][src[p]], q, q[:len(q)-6]+"QzGone", 1)
			}
		})
		// inputs that need not be supported
		add("anonymous argument in the "+at+" target", "", genDuo, func(v *genInput) {
			for _, q := range []string{"shared.QzItem", "[]items.QzItem"} {
				v.pkgs[p][src[p]] = strings.Replace(v.pkgs[p][src[p]], q, "struct{ QzX string }", 1)
			}
		})
		add("argument without name in the "+at+" target", "", genDuo, func(v *genInput) {
			for _, q := range []string{"qzA shared.QzItem, qzB shared.QzOnlyOne", "qzA []items.QzItem, qzB *one.QzPlace", "qzA shared.QzItem"} {
				v.pkgs[p][src[p]] = strings.Replace(v.pkgs[p][src[p]], q, "string", 1)
			}
		})
		if i < 2 {
			add("output of the "+at+" target and a module without common root", "ts", genDuo, func(v *genInput) { v.targets[i].out = "qzts/client.ts" })
		}
	}
	add("shared package does not parse", "expected", genDuo, func(v *genInput) { v.pkgs[acme+"/shared"]["qzbroken.go"] = "package shared\n\ntype {\n" })
	add("shared package is not mapped", acme+"/shared", genDuo, func(v *genInput) { delete(v.mappings, acme+"/shared") })
	add("service package is not mapped", acme+"/one", genDuo, func(v *genInput) { delete(v.mappings, acme+"/one") })
	add("module and module without common root", "qzts", genDuo, func(v *genInput) {
		m := v.mappings[acme+"/shared"]
		m.out = "qzts/shared.ts"
		v.mappings[acme+"/shared"] = m
	})
	add("configured type does not exist", "QzGone", genDuo, func(v *genInput) {
		m := v.mappings[acme+"/shared"]
		m.structs = append(slices.Clone(m.structs), acme+"/shared.QzGone")
		v.mappings[acme+"/shared"] = m
	})
	add("configured constants do not exist", "QzGone", genDuo, func(v *genInput) {
		m := v.mappings[acme+"/shared"]
		m.scalars = append(slices.Clone(m.scalars), acme+"/shared.QzGone")
		v.mappings[acme+"/shared"] = m
	})
	add("union with a field", "union", genDuo, func(v *genInput) {
		v.pkgs[acme+"/shared"]["qzunion.go"] = strings.Replace(srcUnion("shared"), "`gotsrpc:\"union\"`", "`json:\"one\"`", 1)
		v.pkgs[acme+"/shared"]["qzunion.go"] = strings.Replace(v.pkgs[acme+"/shared"]["qzunion.go"], "type QzUnion struct {\n", "type QzUnion struct {\n\tQzPlain string\n", 1)
		v.pkgs[three]["three.go"] = v.pkgs[three]["three.go"]
		v.pkgs[two]["two.go"] = strings.Replace(v.pkgs[two]["two.go"], "QzVia  one.QzPlace", "QzVia  one.QzPlace\n\t\tQzUnion items.QzUnion", 1)
	})
	add("union of a type that can not be one", "union", genDuo, func(v *genInput) {
		v.pkgs[acme+"/shared"]["qzunion.go"] = "package shared\n\ntype QzUnion struct {\n\tQzOne []string `gotsrpc:\"union\"`\n}\n"
		v.pkgs[two]["two.go"] = strings.Replace(v.pkgs[two]["two.go"], "QzVia  one.QzPlace", "QzVia  one.QzPlace\n\t\tQzUnion items.QzUnion", 1)
	})
	add("no home directory", "home", genHome, func(v *genInput) { v.homeless = true })
	add("no home directory for the modules", "home", genHome, func(v *genInput) {
		v.homeless = true
		v.targets[0].out, v.targets[1].out = "/home/qz/a.ts", "/home/qz/b.ts"
	})
	return res
}
