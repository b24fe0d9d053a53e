package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"path"
	"slices"
	"sort"
	"strings"
)

func init() {
	register("G02", 60, checkG02)
}

// ---- G02: determinism ----------------------------------------------------------------------

// nondeterminate are library functions whose results differ between runs over the
// same configuration and source code.
var nondeterminate = []string{
	"time.Now", "time.Since", "time.Until", "time.Tick", "time.After", "math/rand", "crypto/rand", "hash/maphash",
	"os.Getpid", "os.Getppid", "os.Getuid", "os.Getgid", "os.Geteuid", "os.Hostname", "os.Environ", "os.Getenv", "os.LookupEnv", "os.ExpandEnv", "os.Executable",
	"os.TempDir", "os.MkdirTemp", "os.CreateTemp", "os/user", "runtime.NumGoroutine", "runtime.NumCPU", "runtime.Version", "runtime.GOMAXPROCS", "runtime.Caller",
	"runtime/debug.ReadBuildInfo", "runtime.Callers", "(time.Time)", "os.Args",
	"(io/fs.FileInfo).ModTime", "(os.FileInfo).ModTime", "ModTime",
}

// nondetIn is the source of nondeterminism a value depends on.
func nondetIn(v any) string {
	seen := map[any]bool{}
	var walk func(v any) string
	walk = func(v any) string {
		switch v := v.(type) {
		case *punk:
			if seen[v] {
				return ""
			}
			seen[v] = true
			op := strings.TrimPrefix(v.op, "call")
			if i := strings.IndexByte(op, ' '); i >= 0 {
				op = op[i+1:]
			}
			for _, n := range nondeterminate {
				if strings.HasPrefix(op, n) || n == "ModTime" && strings.HasSuffix(op, n) {
					return n
				}
			}
			for _, a := range v.args {
				if n := walk(a); n != "" {
					return n
				}
			}
		case piface:
			return walk(v.v)
		case pslice:
			for _, e := range v.e {
				if n := walk(e.v); n != "" {
					return n
				}
			}
		case *pstruct:
			for _, e := range v.f {
				if n := walk(e.v); n != "" {
					return n
				}
			}
		case *pcell:
			if seen[v] {
				return ""
			}
			seen[v] = true
			return walk(v.v)
		case ptuple:
			for _, e := range v {
				if n := walk(e); n != "" {
					return n
				}
			}
		}
		return ""
	}
	return walk(v)
}

// variant is a copy of an input that is generated separately.
func (in *genInput) variant(f func(v *genInput)) *genInput {
	v := *in
	v.files = map[string]string{}
	for n, s := range in.files {
		v.files[n] = s
	}
	f(&v)
	return &v
}

// outcome is the only path of an input: its end and the files there are afterwards.
func (c *Check) outcome(in *genInput, rule, what string) *genOut {
	c.partial = true
	outs := c.generate(in, 3)
	c.partial = false
	src := ""
	for _, o := range outs {
		for _, cd := range o.conds {
			if cd.src != "" {
				src = cd.src
			}
		}
		for n, v := range o.unknown {
			if w := nondetIn(v); w != "" {
				c.fail(rule, what, 0, "what is written to %s depends on %s", n, w)
				return nil
			}
		}
	}
	if len(outs) != 1 {
		if src != "" {
			for _, o := range outs[1:] {
				if d := o.diff(outs[0]); d != "" {
					c.fail(rule, what, o.pos, "%s depending on %s", d, src)
					return nil
				}
			}
		}
		panic(Undecided{fmt.Sprintf("%s: %d paths through the generator, e.g. under %v", in.name, len(outs), outs[0].conds)})
	}
	o := outs[0]
	for n, v := range o.unknown {
		panic(Undecided{fmt.Sprintf("%s: the content of %s is not known: %s", in.name, n, pkey(v))})
	}
	return o
}

// end describes how a run ends.
func (o *genOut) end() string {
	if o.kind == "exit" && len(o.rets) > 0 {
		return fmt.Sprintf("exit %s", pkey(o.rets[0]))
	}
	return o.kind
}

// diff is how the result of a run differs from that of another one.
func (o *genOut) diff(p *genOut) string {
	if o.end() != p.end() {
		return fmt.Sprintf("the run ends in %s%s instead of %s", o.end(), o.reason(), p.end())
	}
	var ns []string
	for n := range o.final {
		ns = append(ns, n)
	}
	for n := range p.final {
		if _, ok := o.final[n]; !ok {
			ns = append(ns, n)
		}
	}
	sort.Strings(ns)
	for _, n := range ns {
		a, aok := o.final[n]
		b, bok := p.final[n]
		switch {
		case !aok:
			return n + " is not there"
		case !bok:
			return n + " is there as well"
		case a != b:
			x, y := firstDiff(b, a)
			return fmt.Sprintf("%s has %q instead of %q", n, y, x)
		}
	}
	return ""
}

func firstDiff(a, b string) (string, string) {
	as, bs := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(as) || i < len(bs); i++ {
		x, y := "", ""
		if i < len(as) {
			x = as[i]
		}
		if i < len(bs) {
			y = bs[i]
		}
		if x != y {
			return strings.TrimSpace(x), strings.TrimSpace(y)
		}
	}
	return "", ""
}

// stale is the text of a generated file of some earlier run: it declares methods on
// the services, types and constants that would show in the output if it was read.
func (in *genInput) stale(pkg string, services []string) string {
	var names []string
	for n := range in.pkgs[pkg] {
		names = append(names, n)
	}
	sort.Strings(names)
	pkgName := path.Base(pkg)
	var b strings.Builder
	seen := map[string]bool{}
	for _, n := range names {
		f, err := parser.ParseFile(token.NewFileSet(), n, in.pkgs[pkg][n], 0)
		if err != nil || strings.HasSuffix(n, "_test.go") {
			continue
		}
		pkgName = f.Name.Name
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.TYPE {
				continue
			}
			for _, s := range gd.Specs {
				ts := s.(*ast.TypeSpec)
				if seen[ts.Name.Name] {
					continue
				}
				seen[ts.Name.Name] = true
				switch x := ts.Type.(type) {
				case *ast.StructType:
					if slices.Contains(services, ts.Name.Name) {
						fmt.Fprintf(&b, "\nfunc (s *%s) QzStaleMethod(qzA QzStale) error { return nil }\n", ts.Name.Name)
					} else {
						fmt.Fprintf(&b, "\ntype %s struct { QzStaleField string }\n", ts.Name.Name)
					}
				case *ast.Ident:
					v := `7`
					if x.Name == "string" {
						v = `"stale"`
					}
					if x.Name != "bool" {
						fmt.Fprintf(&b, "\nconst QzStale%s %s = %s\n", ts.Name.Name, ts.Name.Name, v)
					}
				}
			}
		}
	}
	return "// Code generated by gotsrpc https://github.com/foomo/gotsrpc/v2  - DO NOT EDIT.\n\npackage " + pkgName + "\n\ntype QzStale struct { QzX string }\n" + b.String()
}

// genTags: declarations that differ between operating systems, several packages in a directory.
var genTags = &genInput{
	name: "tags", modName: acme, modDir: acmeDir,
	pkgs: map[string]map[string]string{
		acme + "/tags": {
			"qza_linux.go":   "package tags\n\ntype QzDisk struct {\n\tQzMount string\n}\n\nconst (\n\tQzModeFast QzMode = \"linux\"\n\tQzModeSlow QzMode = \"slow\"\n)\n\ntype QzErr struct {\n\tQzX string\n}\n",
			"qzb_windows.go": "package tags\n\ntype QzDisk struct {\n\tQzDrive int\n\tQzLabel QzLabel\n}\n\nconst QzModeFast QzMode = \"windows\"\n\ntype QzLabel struct {\n\tQzX string\n}\n\ntype QzErr struct {\n\tQzY QzLabel\n}\n\nfunc (e *QzErr) Error() string { return \"\" }\n",
			"qzservice.go":   "package tags\n\ntype QzTags struct{}\n\ntype QzMode string\n\nfunc (t *QzTags) QzDisks(qzA QzMode, qzU QzUnions) (qzB []QzDisk, qzC *QzErr) { return nil, nil }\n",
			"qzunions.go":    "package tags\n\nimport (\n\t\"example.com/acme/ua\"\n\t\"example.com/acme/ub\"\n\t\"example.com/acme/uc\"\n)\n\ntype QzUnions struct {\n\tQzA *ua.QzUnion\n\tQzB []ub.QzUnion\n\tQzC map[string]uc.QzUnion\n}\n",
			"qzx_linux.go":   "package tags\n\nfunc (t *QzTags) QzSystem(qzA string) (qzB bool) { return false }\n",
			"qzy_windows.go": "package tags\n\nfunc (t *QzTags) QzSystem(qzA int) (qzB bool) { return false }\n",
			"qzm_amd64.go":   "package tags\n\nfunc (t *QzTags) QzWidth(qzA string) (qzB bool) { return false }\n\nconst (\n\tQzModeSame QzMode = \"same\"\n\tQzModeAlso QzMode = \"same\"\n\tQzModeThird QzMode = \"same\"\n)\n",
			"qzn_arm64.go":   "package tags\n\nfunc (t *QzTags) QzWidth(qzA int) (qzB bool) { return false }\n",
			"qzgen.go":       "package main\n\ntype QzDisk struct {\n\tQzMain bool\n}\n",
		},
		acme + "/ua": {"u.go": srcUnion("ua")},
		acme + "/ub": {"u.go": srcUnion("ub")},
		acme + "/uc": {"u.go": srcUnion("uc")},
		"net/http":   {"http.go": srcHTTP},
		"time":       {"time.go": srcTime},
	},
	mappings: map[string]genMapping{acme + "/tags": {out: "/ts/tags-vo.ts"}, acme + "/ua": {out: "/ts/ua.ts"}, acme + "/ub": {out: "/ts/ub.ts"}, acme + "/uc": {out: "/ts/uc.ts"}},
	targets: []genTarget{{name: "qztarget", pkg: acme + "/tags", services: map[string]string{"/qz/tags": "QzTags"}, out: "/ts/tags.ts",
		gorpc: []string{"QzTags"}, tsrpc: []string{"QzTags"}}},
}

func srcUnion(pkg string) string {
	return "package " + pkg + "\n\ntype QzUnion struct {\n\tQzOne *QzOne `json:\"one,omitempty\" gotsrpc:\"union\"`\n\tQzTwo *QzTwo `json:\"two,omitempty\" gotsrpc:\"union\"`\n}\n\ntype QzOne struct {\n\tQzX string\n}\n\ntype QzTwo struct {\n\tQzX int\n}\n"
}

// genVendor: directories of vendored packages that contain several packages.
var genVendor = &genInput{
	name: "vendor", modName: acme, modDir: acmeDir,
	pkgs: map[string]map[string]string{
		acme + "/app": {"app.go": `package app

import (
	dep "dep.org/go-dep"
	"dep.org/pure"
)

type QzApp struct{}

func (t *QzApp) QzGet(qzA dep.QzRec) (qzB pure.QzRec, qzC error) { return qzB, nil }
`},
		"dep.org/go-dep": {"dep.go": "package dep\n\ntype QzRec struct {\n\tQzX string\n}\n"},
		"dep.org/pure": {
			"a.go": "package main\n\ntype QzRec struct {\n\tQzMain string\n}\n",
			"b.go": "package pure\n\ntype QzRec struct {\n\tQzPure string\n}\n",
			"c.go": "package zmain\n\ntype QzRec struct {\n\tQzMain string\n}\n",
		},
		"net/http": {"http.go": srcHTTP},
		"time":     {"time.go": srcTime},
	},
	dirOf: map[string]string{"dep.org/go-dep": "/work/vendor/dep.org/go-dep", "dep.org/pure": "/work/vendor/dep.org/pure"},
	files: map[string]string{"/work/vendor": ""},
	mappings: map[string]genMapping{
		acme + "/app":    {out: "/ts/app-vo.ts"},
		"dep.org/go-dep": {out: "/ts/dep.ts"},
		"dep.org/pure":   {out: "/ts/pure.ts"},
	},
	targets: []genTarget{{name: "qztarget", pkg: acme + "/app", services: map[string]string{"/qz/app": "QzApp"}, out: "/ts/app.ts",
		gorpc: []string{"QzApp"}, tsrpc: []string{"QzApp"}}},
}

// genConflict: several endpoints of one service and several mappings to one file.
var genConflict = &genInput{
	name: "conflict", modName: acme, modDir: acmeDir,
	pkgs: map[string]map[string]string{
		acme + "/one": {"one.go": `package one

import "example.com/acme/two"

type QzOne struct{}

type QzRec struct {
	QzX string
}

func (o *QzOne) QzGet(qzA QzRec) (qzB two.QzRec) { return qzB }
`},
		acme + "/two": {"two.go": "package two\n\ntype QzRec struct {\n\tQzY int\n}\n"},
		"net/http":    {"http.go": srcHTTP},
		"time":        {"time.go": srcTime},
	},
	mappings: map[string]genMapping{acme + "/one": {out: "/ts/vo.ts"}, acme + "/two": {out: "/ts/vo.ts"}},
	targets: []genTarget{{name: "qztarget", pkg: acme + "/one", services: map[string]string{"/qz/one": "QzOne", "/qz/eins": "QzOne", "/qz/uno": "QzOne"}, out: "/ts/one.ts",
		gorpc: []string{"QzOne"}, tsrpc: []string{"QzOne"}}},
}

func checkG02(c *Check) {
	cases := append(slices.Clone(genCases), genTags, genVendor, genConflict)
	goFiles := map[string]bool{}
	base := map[*genInput]*genOut{}
	for _, in := range cases {
		c.section("sources", func() {
			o := c.outcome(in, "sources", in.name)
			if o == nil {
				return
			}
			if o.kind != "ret" {
				c.fail("sources", in.name, o.pos, "generating code for a supported service ends in a %s: %s", o.end(), o.reason())
				return
			}
			c.ok("sources", in.name, 0)
			base[in] = o
			for n := range o.files {
				if strings.HasSuffix(n, ".go") {
					goFiles[path.Base(n)] = true
				}
			}
		})
	}
	same := func(rule, construct string, pos token.Pos, in, v *genInput) {
		o := c.outcome(v, rule, construct)
		if o == nil {
			return
		}
		d := o.diff(base[in])
		c.require(d == "", rule, construct, pos, "%s: %s", in.name, d)
	}
	rev := func(_ token.Pos, ks []string) { slices.Reverse(ks) }
	for _, in := range cases {
		o := base[in]
		if o == nil {
			continue
		}
		var sites []token.Pos
		for s := range o.pe.sites {
			sites = append(sites, s)
		}
		slices.Sort(sites)
		c.section("iteration-order", func() {
			for _, s := range sites {
				one := in.variant(func(v *genInput) {
					v.flip = func(p token.Pos, ks []string) {
						if p == s {
							slices.Reverse(ks)
						}
					}
				})
				same("iteration-order", fmt.Sprintf("%s, iteration at %s", in.name, c.P.posLine(s)), s, in, one)
			}
		})
		c.section("all-orders", func() {
			same("all-orders", in.name+", all iterations reversed", 0, in, in.variant(func(v *genInput) { v.flip = rev }))
			same("all-orders", in.name+", all iterations rotated", 0, in, in.variant(func(v *genInput) {
				v.flip = func(_ token.Pos, ks []string) {
					if len(ks) > 1 {
						k := ks[0]
						copy(ks, ks[1:])
						ks[len(ks)-1] = k
					}
				}
			}))
			if c.Tier == "thorough" {
				for _, s := range sites {
					one := in.variant(func(v *genInput) {
						v.flip = func(p token.Pos, ks []string) {
							if p != s {
								slices.Reverse(ks)
							}
						}
					})
					same("all-orders", fmt.Sprintf("%s, all iterations but %s", in.name, c.P.posLine(s)), s, in, one)
				}
			}
		})
		if o.pe.spawned {
			c.section("schedule", func() {
				same("schedule", in.name+", goroutines run late and in the opposite order", 0, in, in.variant(func(v *genInput) { v.late = true }))
			})
		}
		c.section("earlier-output", func() {
			same("earlier-output", in.name+", second run", 0, in, in.variant(func(v *genInput) {
				for n, s := range o.files {
					v.files[n] = s
				}
			}))
			old := func(text func(pkg string, services []string) string, more string) func(v *genInput) {
				return func(v *genInput) {
					for _, t := range in.targets {
						var svc []string
						for _, s := range t.services {
							svc = append(svc, s)
						}
						for n := range goFiles {
							v.files[in.dir(t.pkg)+"/"+n] = text(t.pkg, svc)
						}
					}
					for n, s := range o.files {
						if !strings.HasSuffix(n, ".go") {
							b := []byte(s)
							for i := len(b) / 2; i < len(b); i++ {
								if b[i] == 'e' {
									b[i] = 'f'
									break
								}
							}
							v.files[n] = string(b) + more
						}
					}
				}
			}
			same("earlier-output", in.name+", output of another version", 0, in, in.variant(old(in.stale, "")))
			same("earlier-output", in.name+", output that does not parse", 0, in, in.variant(old(func(string, []string) string { return "package )" }, "\nexport const QzStale = 1;\n")))
		})
		c.section("directory", func() {
			if in == genVendor {
				return
			}
			same("directory", in.name+", started in another directory", 0, in, in.variant(func(v *genInput) { v.cwd = "/elsewhere/below" }))
		})
	}
}
