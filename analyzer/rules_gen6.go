package main

import (
	"fmt"
	"path"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("G09", 60, checkG09)
}

// ---- G09: packages are resolved to the module that contains them ------------------------------

// resCase is a package to resolve. The tree contains a package at every
// directory of dirs; all of them declare the service, each with a method of its own.
type resCase struct {
	what, rule  string
	mod, modDir string
	pkg         string
	replace     [][4]string
	requires    [][2]string
	paths       []string
	dirs        []string
	want        string // "" is an error
	bad         map[string]map[string]string
	wantMethods []string
	also        bool // without the directory that is wanted nothing else may be taken
}

const (
	qzMod = "example.com/acme"
	qzDir = "/src/acme"
)

var resPaths = []string{"/go", "/goroot"}

// around are directories at which a package could be looked for by mistake.
func (k *resCase) around() []string {
	r := []string{"/go/src/" + k.pkg, "/goroot/src/" + k.pkg, k.modDir, "/src", "/go/src/" + path.Base(k.pkg), "/go/pkg/mod/" + k.pkg,
		k.modDir + "/" + k.pkg, k.modDir + "/" + path.Base(k.pkg), "/work/" + k.pkg}
	if k.mod != "" {
		r = append(r, "/go/src/"+k.mod, k.modDir+strings.TrimPrefix(k.pkg, k.mod), k.modDir+"/"+strings.TrimPrefix(k.pkg, k.mod), strings.ReplaceAll(k.pkg, k.mod, k.modDir))
	}
	for _, x := range k.replace {
		rest := strings.TrimPrefix(k.pkg, x[0])
		r = append(r, path.Join(x[2], rest), path.Join(k.modDir, x[2], rest), path.Join("/work", x[2], rest), path.Join("/go/src", x[2], rest), path.Join("/go/pkg/mod", x[2], rest))
		if x[3] != "" {
			r = append(r, path.Join("/go/pkg/mod", x[2]+"@"+x[3], rest), path.Join("/go/pkg/mod", x[2]+"@"+x[3]))
		}
		if x[1] != "" {
			r = append(r, path.Join("/go/pkg/mod", x[0]+"@"+x[1], rest))
		}
	}
	for _, x := range k.requires {
		rest := strings.TrimPrefix(k.pkg, x[0])
		r = append(r, path.Join("/go/pkg/mod", x[0]+"@"+x[1], rest), path.Join("/go/pkg/mod", x[0]+"@"+x[1]), path.Join("/go/pkg/mod", x[0], rest))
	}
	return r
}

const (
	libA   = "lib.org/a"
	libDir = "/go/pkg/mod/lib.org/a@v1.2.3"
)

var resCases = []resCase{
	// the configured module
	{what: "the module", pkg: qzMod, want: qzDir, also: true},
	{what: "a package of the module", pkg: qzMod + "/shop", want: qzDir + "/shop", also: true},
	{what: "a nested package of the module", pkg: qzMod + "/a/b/c", want: qzDir + "/a/b/c", also: true},
	{what: "a package of the module whose name ends in vendor", pkg: qzMod + "/vendor", want: qzDir + "/vendor", also: true},
	{what: "a package with the name of the module", pkg: qzMod + "/acme", want: qzDir + "/acme", also: true},
	{what: "a package repeating the module path", pkg: qzMod + "/example.com/acme/x", want: qzDir + "/example.com/acme/x", also: true},
	{what: "a package of a module without dots", mod: "app", modDir: "/src/app", pkg: "app/app/svc", want: "/src/app/app/svc", also: true},
	{what: "a module without dots", mod: "app", modDir: "/src/elsewhere", pkg: "app", want: "/src/elsewhere", also: true},
	{what: "a package of a second major version", mod: "example.com/acme/v2", modDir: "/src/acme2", pkg: "example.com/acme/v2/shop", want: "/src/acme2/shop", also: true},
	{what: "a package of the first major version", mod: "example.com/acme/v2", modDir: "/src/acme2", pkg: "example.com/acme/shop", want: "/go/src/example.com/acme/shop"},
	{what: "a package of the module that a directive also contains", pkg: qzMod + "/shop", want: qzDir + "/shop", also: true,
		replace: [][4]string{{"example.com", "", "/repl", ""}}, requires: [][2]string{{"example.com", "v1.0.0"}}},
	// look-alikes
	{what: "a sibling sharing the prefix", pkg: "example.com/acmeother/shop", want: "/go/src/example.com/acmeother/shop"},
	{what: "a sibling sharing the prefix with a dash", pkg: "example.com/acme-x", want: "/go/src/example.com/acme-x"},
	{what: "a sibling sharing the prefix with a dot", pkg: "example.com/acme.v2/shop", want: "/go/src/example.com/acme.v2/shop"},
	{what: "the parent of the module", pkg: "example.com", want: "/go/src/example.com"},
	{what: "a prefix of the module", pkg: "example.com/acm", want: "/go/src/example.com/acm"},
	{what: "a package containing the module path", pkg: "mirror.org/example.com/acme/shop", want: "/go/src/mirror.org/example.com/acme/shop"},
	{what: "a package of another host", pkg: "xexample.com/acme", want: "/go/src/xexample.com/acme"},
	{what: "a package with other capital letters", pkg: "example.com/Acme/shop", want: "/go/src/example.com/Acme/shop"},
	{what: "a sibling of a module without dots", mod: "app", modDir: "/src/app", pkg: "apple/app", want: "/go/src/apple/app"},
	{what: "a package without a configured module", mod: "-", pkg: "example.com/acme/shop", want: "/go/src/example.com/acme/shop"},
	// replace
	{what: "a replacement next to the module", pkg: libA + "/sub", replace: [][4]string{{libA, "", "../lib-a", ""}}, want: "/src/lib-a/sub", also: true},
	{what: "a replacement below the module", pkg: libA, replace: [][4]string{{libA, "", "./libs/a", ""}}, want: qzDir + "/libs/a", also: true},
	{what: "a replacement of a version", pkg: libA + "/sub/deep", replace: [][4]string{{libA, "v1.2.3", "../lib-a", ""}}, requires: [][2]string{{libA, "v1.2.3"}}, want: "/src/lib-a/sub/deep", also: true},
	{what: "an absolute replacement", pkg: libA + "/sub", replace: [][4]string{{libA, "", "/opt/lib-a", ""}}, want: "/opt/lib-a/sub", also: true},
	{what: "a replacement by another module", pkg: libA + "/sub", replace: [][4]string{{libA, "", "fork.org/a", "v1.9.0"}}, requires: [][2]string{{libA, "v1.2.3"}}, want: "/go/pkg/mod/fork.org/a@v1.9.0/sub", also: true},
	{what: "a replacement by another module, its root", pkg: libA, replace: [][4]string{{libA, "v1.2.3", "fork.org/a", "v1.9.0"}}, want: "/go/pkg/mod/fork.org/a@v1.9.0", also: true},
	{what: "a replacement by another version", pkg: libA + "/sub", replace: [][4]string{{libA, "", libA, "v1.9.0"}}, requires: [][2]string{{libA, "v1.2.3"}}, want: "/go/pkg/mod/lib.org/a@v1.9.0/sub", also: true},
	{what: "a sibling of a replaced module", pkg: "lib.org/ab/sub", replace: [][4]string{{libA, "", "../lib-a", ""}}, want: "/go/src/lib.org/ab/sub"},
	{what: "a package containing the path of a replaced module", pkg: "mirror.org/lib.org/a", replace: [][4]string{{libA, "", "../lib-a", ""}}, want: "/go/src/mirror.org/lib.org/a"},
	{what: "a package repeating the path of a replaced module", pkg: libA + "/lib.org/a/x", replace: [][4]string{{libA, "", "../lib-a", ""}}, want: "/src/lib-a/lib.org/a/x", also: true},
	{what: "the more specific of two replacements", pkg: libA + "/nested/sub", replace: [][4]string{{libA, "", "../lib-a", ""}, {libA + "/nested", "", "../lib-nested", ""}}, want: "/src/lib-nested/sub", also: true},
	{what: "the more specific of two replacements that comes first", pkg: libA + "/nested/sub", replace: [][4]string{{libA + "/nested", "", "../lib-nested", ""}, {libA, "", "../lib-a", ""}}, want: "/src/lib-nested/sub", also: true},
	{what: "the less specific of two replacements", pkg: libA + "/nestedother/sub", replace: [][4]string{{libA + "/nested", "", "../lib-nested", ""}, {libA, "", "../lib-a", ""}}, want: "/src/lib-a/nestedother/sub", also: true},
	{what: "the last of three replacements", pkg: "lib.org/c/sub", replace: [][4]string{{libA, "", "../lib-a", ""}, {"lib.org/b", "", "../lib-b", ""}, {"lib.org/c", "", "../lib-c", ""}}, want: "/src/lib-c/sub", also: true},
	// require
	{what: "a required module", pkg: libA, requires: [][2]string{{libA, "v1.2.3"}}, want: libDir, also: true},
	{what: "a package of a required module", pkg: libA + "/sub/deep", requires: [][2]string{{libA, "v1.2.3"}}, want: libDir + "/sub/deep", also: true},
	{what: "a package of a required pseudo version", pkg: libA + "/sub", requires: [][2]string{{libA, "v0.0.0-20200102030405-abcdefabcdef"}}, want: "/go/pkg/mod/lib.org/a@v0.0.0-20200102030405-abcdefabcdef/sub", also: true},
	{what: "a package of an incompatible version", pkg: libA + "/sub", requires: [][2]string{{libA, "v4.0.0+incompatible"}}, want: "/go/pkg/mod/lib.org/a@v4.0.0+incompatible/sub", also: true},
	{what: "a package of a required second major version", pkg: libA + "/v2/sub", requires: [][2]string{{libA, "v1.2.3"}, {libA + "/v2", "v2.0.1"}}, want: "/go/pkg/mod/lib.org/a/v2@v2.0.1/sub", also: true},
	{what: "a package of a required first major version", pkg: libA + "/sub", requires: [][2]string{{libA + "/v2", "v2.0.1"}, {libA, "v1.2.3"}}, want: libDir + "/sub", also: true},
	{what: "a package of a nested required module", pkg: libA + "/nested/sub", requires: [][2]string{{libA + "/nested", "v0.1.0"}, {libA, "v1.2.3"}}, want: "/go/pkg/mod/lib.org/a/nested@v0.1.0/sub", also: true},
	{what: "a sibling of a required module", pkg: "lib.org/ab/sub", requires: [][2]string{{libA, "v1.2.3"}}, want: "/go/src/lib.org/ab/sub"},
	{what: "the second of two required modules sharing a prefix", pkg: "lib.org/ab/sub", requires: [][2]string{{libA, "v1.2.3"}, {"lib.org/ab", "v0.2.0"}}, want: "/go/pkg/mod/lib.org/ab@v0.2.0/sub", also: true},
	{what: "the first of two required modules sharing a prefix", pkg: "lib.org/ab/sub", requires: [][2]string{{"lib.org/ab", "v0.2.0"}, {libA, "v1.2.3"}}, want: "/go/pkg/mod/lib.org/ab@v0.2.0/sub", also: true},
	{what: "a required module repeating its path", pkg: libA + "/lib.org/a/x", requires: [][2]string{{libA, "v1.2.3"}}, want: libDir + "/lib.org/a/x", also: true},
	{what: "a required module with capital letters", pkg: "lib.org/CamelCase/Sub", requires: [][2]string{{"lib.org/CamelCase", "v1.2.3"}}, want: "/go/pkg/mod/lib.org/!camel!case@v1.2.3/Sub", also: true},
	{what: "a replacement with capital letters", pkg: libA + "/Sub", replace: [][4]string{{libA, "", "fork.org/Forker", "v1.2.3"}}, want: "/go/pkg/mod/fork.org/!forker@v1.2.3/Sub", also: true},
	{what: "a required version with capital letters", pkg: libA + "/sub", requires: [][2]string{{libA, "v1.2.3-RC1"}}, want: "/go/pkg/mod/lib.org/a@v1.2.3-!r!c1/sub", also: true},
	// replace and require
	{what: "a replaced required module", pkg: libA + "/sub", replace: [][4]string{{libA, "", "../lib-a", ""}}, requires: [][2]string{{libA, "v1.2.3"}}, want: "/src/lib-a/sub", also: true},
	{what: "a required module below a replaced one", pkg: libA + "/nested/sub", replace: [][4]string{{libA, "", "../lib-a", ""}}, requires: [][2]string{{libA, "v1.2.3"}, {libA + "/nested", "v0.1.0"}}, want: "/go/pkg/mod/lib.org/a/nested@v0.1.0/sub", also: true},
	{what: "a replaced module below a required one", pkg: libA + "/nested/sub", replace: [][4]string{{libA + "/nested", "", "../nested", ""}}, requires: [][2]string{{libA, "v1.2.3"}, {libA + "/nested", "v0.1.0"}}, want: "/src/nested/sub", also: true},
	{what: "a required module next to a replaced one", pkg: "lib.org/b/sub", replace: [][4]string{{libA, "", "../lib-a", ""}}, requires: [][2]string{{libA, "v1.2.3"}, {"lib.org/b", "v0.1.0"}}, want: "/go/pkg/mod/lib.org/b@v0.1.0/sub", also: true},
	// neither
	{what: "a package no directive contains", pkg: "other.org/x/y", replace: [][4]string{{libA, "", "../lib-a", ""}}, requires: [][2]string{{"lib.org/b", "v0.1.0"}}, want: "/go/src/other.org/x/y"},
	{what: "a package of the standard library", pkg: "net/http", requires: [][2]string{{libA, "v1.2.3"}}, want: "/goroot/src/net/http", dirs: []string{"/goroot/src/net/http"}},
	{what: "a vendored package", pkg: "other.org/x/y", paths: append(slices.Clone(resPaths), "/work/vendor"), want: "/work/vendor/other.org/x/y", dirs: []string{"/work/vendor/other.org/x/y", "/work/vendor/src/other.org/x/y", "/work/vendor"}},
	{what: "a package of GOPATH while there is a vendor directory", pkg: "other.org/x/y", paths: append(slices.Clone(resPaths), "/work/vendor"), want: "/go/src/other.org/x/y", dirs: []string{"/go/src/other.org/x/y", "/work/vendor"}},
	{what: "a package of a GOPATH whose path contains the word vendor", pkg: "other.org/x/y", paths: []string{"/home/my-vendors/go", "/goroot"}, want: "/home/my-vendors/go/src/other.org/x/y", dirs: []string{"/home/my-vendors/go/src/other.org/x/y", "/home/my-vendors/go/other.org/x/y", "/home/my-vendors/go"}},
	{what: "a package of a GOPATH below a directory named vendor", pkg: "other.org/x/y", paths: []string{"/vendor/go", "/goroot"}, want: "/vendor/go/src/other.org/x/y", dirs: []string{"/vendor/go/src/other.org/x/y", "/vendor/go/other.org/x/y", "/vendor/other.org/x/y"}},
	{what: "a package of a GOROOT below a directory named vendored", pkg: "net/http", paths: []string{"/go", "/opt/vendored-go"}, want: "/opt/vendored-go/src/net/http", dirs: []string{"/opt/vendored-go/src/net/http", "/opt/vendored-go/net/http"}},
	{what: "a package of a GOPATH that starts with the word vendor", pkg: "other.org/x/y", paths: []string{"/srv/vendorgo", "/goroot"}, want: "/srv/vendorgo/src/other.org/x/y", dirs: []string{"/srv/vendorgo/src/other.org/x/y", "/srv/vendorgo/other.org/x/y"}},
	{what: "a vendored package while GOPATH contains the word vendor", pkg: "other.org/x/y", paths: []string{"/home/my-vendors/go", "/goroot", "/home/my-vendors/go/src/acme/vendor"}, want: "/home/my-vendors/go/src/acme/vendor/other.org/x/y", dirs: []string{"/home/my-vendors/go/src/acme/vendor/other.org/x/y", "/home/my-vendors/go/src/acme/vendor/src/other.org/x/y", "/home/my-vendors/go/other.org/x/y"}},
	{what: "a package that is nowhere", pkg: "other.org/x/y", paths: append(slices.Clone(resPaths), "/work/vendor"), dirs: []string{"/go/src", "/go/src/other.org/x", "/go/src/other.org/x/y/z", "/work/vendor/other.org/x", "/src/acme"}},
	{what: "a package of the module that is nowhere", pkg: qzMod + "/shop", dirs: []string{"/src/acme", "/src/shop", "/go/src/example.com/acme/shop"}},
	// files
	{what: "a package with test files", rule: "files", pkg: qzMod + "/shop", want: qzDir + "/shop", dirs: []string{qzDir + "/shop"}, bad: map[string]map[string]string{
		qzDir + "/shop": {
			"a_test.go":        "package decoy\n\nfunc (s *QzSvc) QzFromTest() {}\n",
			"external_test.go": "package decoy_test\n\ntype QzSvc struct{}\n\nfunc (s *QzSvc) QzFromExternalTest() {}\n",
			"broken_test.go":   "package decoy\n\nfunc (\n",
			"latest.go":        "package decoy\n\nfunc (s *QzSvc) QzLatest() {}\n",
			"qztest.go":        "package decoy\n\nfunc (s *QzSvc) QzTest() {}\n",
			"test.go":          "package decoy\n\nfunc (s *QzSvc) QzTestOnly() {}\n",
			"qz_tests.go":      "package decoy\n\nfunc (s *QzSvc) QzTests() {}\n",
			"_test.go.go":      "package decoy\n\nfunc (s *QzSvc) QzGoGo() {}\n",
			"zz_test_more.go":  "package decoy\n\nfunc (s *QzSvc) QzTestMore() {}\n",
		},
	}, wantMethods: []string{"QzGoGo", "QzLatest", "QzTest", "QzTestMore", "QzTestOnly", "QzTests"}},
	{what: "a package of test files", rule: "files", pkg: qzMod + "/shop", dirs: []string{}, bad: map[string]map[string]string{
		qzDir + "/shop": {"svc_test.go": "package shop\n\ntype QzSvc struct{}\n\nfunc (s *QzSvc) QzFromTest() {}\n"},
	}},
	{what: "an empty directory", rule: "files", pkg: qzMod + "/shop", dirs: []string{}, bad: map[string]map[string]string{qzDir + "/shop": {}}},
	{what: "a package whose service is declared in a test file", rule: "files", pkg: qzMod + "/shop", dirs: []string{}, bad: map[string]map[string]string{
		qzDir + "/shop": {"svc_test.go": "package shop\n\ntype QzSvc struct{}\n", "a.go": "package shop\n\ntype QzOther struct{}\n"},
	}},
	{what: "a package with a broken file", rule: "files", pkg: qzMod + "/shop", dirs: []string{qzDir + "/shop"}, bad: map[string]map[string]string{
		qzDir + "/shop": {"zbroken.go": "package decoy\n\nfunc (\n"},
	}},
	{what: "a package whose first file is broken", rule: "files", pkg: qzMod + "/shop", dirs: []string{qzDir + "/shop"}, bad: map[string]map[string]string{
		qzDir + "/shop": {"abroken.go": "package decoy\n\ntype QzHalf struct {\n"},
	}},
	{what: "a broken package in the module cache", rule: "files", pkg: libA, requires: [][2]string{{libA, "v1.2.3"}}, dirs: []string{libDir, "/go/src/lib.org/a"}, bad: map[string]map[string]string{
		libDir: {"zbroken.go": "package decoy\n\nfunc (\n"},
	}},
	{what: "a broken package in GOPATH", rule: "files", pkg: libA, dirs: []string{"/go/src/lib.org/a"}, bad: map[string]map[string]string{
		"/go/src/lib.org/a": {"zbroken.go": "package decoy\n\nfunc (\n"},
	}},
}

// readMethods evaluates the reader on a tree: the methods of the service it
// found, or nil if it returned an error.
func (c *Check) readMethods(in *genInput, pkg string, paths []string) (methods []string, err bool, o *pout) {
	var pe0 *PE
	outs := c.explore(8, func(pe *PE) (*ssa.Function, []any) {
		pe.useGenWorld(in)
		pe0 = pe
		f := c.P.peFn("Read")
		if f == nil || f.Signature.Params().Len() != 6 || f.Signature.Results().Len() < 5 {
			pe.undecided("func Read(goPaths, module, package, services, missing types, missing constants) does not exist")
		}
		cfg := in.conf(pe).(*pcell)
		ns := pe.field(cfg, pe.typ(modPath+"/config", "Config"), "Module")
		return f, []any{pstrs(paths), ns, pkg, pe.mkMap(map[string]any{"/qz": "QzSvc"}), pe.mkMap(nil), pe.mkMap(nil)}
	})
	if len(outs) != 1 {
		panic(Undecided{fmt.Sprintf("%s: %d paths through the reader", in.name, len(outs))})
	}
	o = outs[0]
	if o.kind != "ret" {
		return nil, false, o
	}
	if !isPNil(o.rets[len(o.rets)-1]) {
		return nil, true, o
	}
	r := c.modelReader(pe0)
	for _, s := range r.list(o.rets[1]) {
		for _, y := range r.list(r.f(s, "Service", "Methods")) {
			methods = append(methods, r.s(y, "Method", "Name"))
		}
	}
	sort.Strings(methods)
	return methods, false, o
}

// tree is the input of a case: a package in each of the directories.
func (k *resCase) tree(name string, dirs []string) (*genInput, map[string]string) {
	in := &genInput{name: name, modName: k.mod, modDir: k.modDir, goPath: "/go", pkgs: map[string]map[string]string{}, dirOf: map[string]string{}, replace: k.replace, requires: k.requires}
	marks := map[string]string{}
	add := func(d string) map[string]string {
		if f, ok := in.pkgs["decoy "+d]; ok {
			return f
		}
		f := map[string]string{}
		in.pkgs["decoy "+d], in.dirOf["decoy "+d] = f, d
		return f
	}
	for _, d := range dirs {
		if marks[d] != "" {
			continue
		}
		marks[d] = fmt.Sprintf("QzFrom%d", len(marks))
		add(d)["svc.go"] = "package decoy\n\ntype QzSvc struct{}\n\nfunc (s *QzSvc) " + marks[d] + "() {}\n"
	}
	for d, fs := range k.bad {
		f := add(d)
		for n, s := range fs {
			f[n] = s
		}
	}
	return in, marks
}

func (k resCase) prepared() resCase {
	if k.mod == "" {
		k.mod, k.modDir = qzMod, qzDir
	}
	if k.mod == "-" {
		k.mod = ""
	}
	if k.paths == nil {
		k.paths = resPaths
	}
	if k.rule == "" {
		k.rule = "resolution"
	}
	return k
}

func checkG09(c *Check) {
	for _, k := range resCases {
		k := k.prepared()
		c.section(k.what, func() { c.resolve(k) })
	}
	c.section("other packages", c.resolveTypes)
	for _, in := range genPlaces() {
		in := in
		c.section(in.name, func() { c.placed(in) })
	}
	for _, k := range genSources() {
		k := k
		c.section(k.in.name, func() { c.sourced(k.in, k.found) })
	}
}

func (c *Check) resolve(k resCase) {
	dirs := k.dirs
	if dirs == nil {
		dirs = append(k.around(), k.want)
	}
	run := func(what string, dirs []string, want string) {
		in, marks := k.tree(k.what, dirs)
		got, failed, o := c.readMethods(in, k.pkg, k.paths)
		pos := o.pos
		switch {
		case o.kind != "ret":
			c.fail(k.rule, what, pos, "reading %s ends in a %s: %s", k.pkg, o.kind, o.msg)
			return
		case want == "":
			c.require(failed, k.rule, what, pos, "reading %s does not fail, it finds the methods %v%s", k.pkg, got, from(marks, got))
			return
		case failed:
			c.fail(k.rule, what, pos, "reading %s fails, it is in %s: %s", k.pkg, want, pkey(o.rets[len(o.rets)-1]))
			return
		}
		exp := append([]string{marks[want]}, k.wantMethods...)
		sort.Strings(exp)
		c.require(slices.Equal(got, exp), k.rule, what, pos, "reading %s finds the methods %v%s instead of %v of %s", k.pkg, got, from(marks, got), exp, want)
	}
	run(k.what, dirs, k.want)
	if k.also {
		run(k.what+", which is missing", slices.DeleteFunc(slices.Clone(dirs), func(d string) bool { return d == k.want }), "")
	}
}

// from says which directories methods come from.
func from(marks map[string]string, got []string) string {
	var ds []string
	for d, m := range marks {
		if slices.Contains(got, m) {
			ds = append(ds, d)
		}
	}
	if ds == nil {
		return ""
	}
	sort.Strings(ds)
	return " of " + strings.Join(ds, " and ")
}

// resolveTypes: the packages of the types a service uses are resolved by the same rules.
func (c *Check) resolveTypes() {
	rec := func(pkg, field string) map[string]string {
		return map[string]string{pkg + ".go": "package " + pkg + "\n\ntype QzRec struct {\n\t" + field + " string\n}\n"}
	}
	in := &genInput{
		name: "types of other packages", modName: qzMod, modDir: qzDir, goPath: "/go",
		dirOf: map[string]string{},
		pkgs: map[string]map[string]string{
			qzMod + "/svc": {"svc.go": "package svc\n\nimport (\n\t\"example.com/acme/sub\"\n\t\"example.com/acmeother/sib\"\n\t\"lib.org/a/loc\"\n\t\"lib.org/a/nested/cache\"\n\t\"lib.org/b/rem\"\n)\n\n" +
				"type QzSvc struct{}\n\nfunc (s *QzSvc) QzGet(qzA sub.QzRec, qzB *sib.QzRec, qzC []loc.QzRec, qzD map[string]cache.QzRec, qzE []*rem.QzRec) {}\n"},
			qzMod + "/sub": rec("sub", "QzInModule"),
		},
		replace:  [][4]string{{"lib.org/a", "", "../lib-a", ""}, {"lib.org/b", "v1.0.0", "fork.org/b", "v1.1.0"}},
		requires: [][2]string{{"lib.org/a", "v1.2.3"}, {"lib.org/a/nested", "v0.3.0"}, {"lib.org/b", "v1.0.0"}},
		targets:  []genTarget{{name: "qz", pkg: qzMod + "/svc", services: map[string]string{"/qz": "QzSvc"}, tsrpc: []string{"QzSvc"}}},
	}
	put := func(dir, pkg, field string) {
		in.pkgs["at "+dir], in.dirOf["at "+dir] = rec(pkg, field), dir
	}
	for _, x := range []struct{ pkg, name, want string }{
		{"example.com/acmeother/sib", "sib", "/go/src/example.com/acmeother/sib"},
		{"lib.org/a/loc", "loc", "/src/lib-a/loc"},
		{"lib.org/a/nested/cache", "cache", "/go/pkg/mod/lib.org/a/nested@v0.3.0/cache"},
		{"lib.org/b/rem", "rem", "/go/pkg/mod/fork.org/b@v1.1.0/rem"},
	} {
		for _, d := range []string{"/go/src/" + x.pkg, "/src/acmeother/sib", "/src/lib-a/nested/cache", "/go/pkg/mod/lib.org/b@v1.0.0/rem", "/go/pkg/mod/lib.org/a@v1.2.3/loc", "/go/pkg/mod/lib.org/a@v1.2.3/nested/cache"} {
			if path.Base(d) == x.name && d != x.want {
				put(d, x.name, "QzWrong")
			}
		}
		put(x.want, x.name, "QzRight"+x.name)
	}
	want := map[string]string{qzMod + "/sub": "QzInModule", "example.com/acmeother/sib": "QzRightsib", "lib.org/a/loc": "QzRightloc", "lib.org/a/nested/cache": "QzRightcache", "lib.org/b/rem": "QzRightrem"}
	ms := c.read(in)
	if !c.require(len(ms) == 1 && !ms[0].errs, "types", in.name, 0, "reading a service whose types are in other modules fails: %s", pkey(ptuple(ms[0].out.rets))) {
		return
	}
	seen := map[string]bool{}
	for _, s := range ms[0].structs {
		w := want[s.pkg]
		if w == "" || s.v != nil {
			continue
		}
		seen[s.pkg] = true
		var names []string
		for _, f := range s.fields {
			names = append(names, f.name)
		}
		c.require(len(names) == 1 && names[0] == w, "types", s.pkg, 0, "the fields %v of %s.QzRec are read instead of [%s]", names, s.pkg, w)
	}
	for p := range want {
		c.require(seen[p], "types", p, 0, "the type %s.QzRec is not found", p)
	}
}

// genPlaces: targets inside and outside of the configured module.
func genPlaces() []*genInput {
	src := func(pkg string) map[string]string {
		return map[string]string{"svc.go": "package " + strings.NewReplacer("-", "", ".", "").Replace(path.Base(pkg)) + "\n\ntype QzSvc struct{}\n\nfunc (s *QzSvc) QzGet(qzA string) (qzB string, qzC error) { return qzB, nil }\n"}
	}
	var r []*genInput
	for _, k := range []struct{ what, mod, dir, pkg string }{
		{"output in the module", qzMod, qzDir, qzMod},
		{"output below the module", qzMod, qzDir, qzMod + "/a/b"},
		{"output below a module kept elsewhere", qzMod, "/home/qz/checkout", qzMod + "/a/acme/b"},
		{"output in a package repeating the module path", qzMod, qzDir, qzMod + "/example.com/acme/x"},
		{"output in a package of a module without dots", "app", "/src/repo", "app/app/svc"},
		{"output in a second major version", "example.com/acme/v2", "/src/acme2", "example.com/acme/v2/svc"},
		{"output in a sibling of the module", qzMod, qzDir, "example.com/acmeother/svc"},
		{"output in a sibling of the module with a dash", qzMod, qzDir, "example.com/acme-x"},
		{"output in another module", qzMod, qzDir, "other.org/x/svc"},
		{"output in a module containing the module path", qzMod, qzDir, "mirror.org/example.com/acme/svc"},
		{"output without a configured module", "", "", "other.org/x/svc"},
	} {
		in := &genInput{name: k.what, modName: k.mod, modDir: k.dir, goPath: "/go", pkgs: map[string]map[string]string{k.pkg: src(k.pkg)},
			targets: []genTarget{{name: "qz", pkg: k.pkg, services: map[string]string{"/qz": "QzSvc"}, tsrpc: []string{"QzSvc"}, gorpc: []string{"QzSvc"}}}}
		if !strings.HasPrefix(k.pkg+"/", k.mod+"/") || k.mod == "" {
			in.dirOf = map[string]string{k.pkg: "/go/src/" + k.pkg}
		}
		r = append(r, in)
	}
	return r
}

// placed: the generated files of a target are written to the directory of its package.
func (c *Check) placed(in *genInput) {
	o := c.single(in, "output")
	if o == nil {
		return
	}
	dir := in.dir(in.targets[0].pkg)
	for _, n := range generatedGo {
		_, ok := o.final[dir+"/"+n]
		c.require(ok, "output", in.name, 0, "%s of %s is not written to %s", n, in.targets[0].pkg, dir)
	}
	var names []string
	for n := range o.files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if _, kept := o.final[n]; kept {
			c.require(path.Dir(n) == dir, "output", in.name, 0, "%s is written, the package %s is in %s", n, in.targets[0].pkg, dir)
		}
	}
	for _, d := range o.dirs {
		c.require(d == dir || strings.HasPrefix(dir, d+"/"), "output", in.name, 0, "the directory %s is created, the package %s is in %s", d, in.targets[0].pkg, dir)
	}
}

type genSource struct {
	in    *genInput
	found bool
}

// genSources: a service uses a type of a package that is in one of the places the
// generator looks at; packages of that name in other places declare another type.
func genSources() []genSource {
	rec := func(field string) map[string]string {
		return map[string]string{"rec.go": "package rec\n\ntype QzRec struct {\n\t" + field + " string\n}\n"}
	}
	var r []genSource
	for _, k := range []struct {
		what, pkg, dir string
		vendor, found  bool
		goPath         string
	}{
		{"a type of the standard library", "qzstd/rec", "/goroot/src/qzstd/rec", false, true, "/go"},
		{"a type of the standard library next to a vendor directory", "qzstd/rec", "/goroot/src/qzstd/rec", true, true, "/go"},
		{"a type below GOPATH", "dep.org/rec", "/go/src/dep.org/rec", false, true, "/go"},
		{"a type below GOPATH next to a vendor directory", "dep.org/rec", "/go/src/dep.org/rec", true, true, "/go"},
		{"a vendored type", "dep.org/rec", "/work/vendor/dep.org/rec", true, true, "/go"},
		{"a vendored type of a package named like one of the standard library", "qzstd/rec", "/work/vendor/qzstd/rec", true, true, "/go"},
		{"a type of a required module", "lib.org/a/rec", "/go/pkg/mod/lib.org/a@v1.2.3/rec", false, true, "/go"},
		{"a type of a required module next to a vendor directory", "lib.org/a/rec", "/go/pkg/mod/lib.org/a@v1.2.3/rec", true, true, "/go"},
		{"a type of a replaced module", "lib.org/b/rec", "/src/lib-b/rec", false, true, "/go"},
		{"a type of a nested directory of the module", acme + "/x/rec", acmeDir + "/x/rec", false, true, "/go"},
		{"a type of a nested directory of the module next to a vendor directory", acme + "/x/rec", acmeDir + "/x/rec", true, true, "/go"},
		{"a type below a GOPATH whose path contains the word vendor", "dep.org/rec", "/home/my-vendors/go/src/dep.org/rec", true, true, "/home/my-vendors/go"},
		{"a type below a GOPATH in a directory named vendor", "dep.org/rec", "/vendor/go/src/dep.org/rec", false, true, "/vendor/go"},
		{"a type that is nowhere", "dep.org/rec", "", false, false, "/go"},
		{"a type that is nowhere next to a vendor directory", "dep.org/rec", "", true, false, "/go"},
		{"a type that is only in the vendor directory of another directory", "dep.org/rec", "/elsewhere/vendor/dep.org/rec", false, false, "/go"},
	} {
		in := &genInput{name: k.what, modName: acme, modDir: acmeDir, goPath: k.goPath, cwd: "/work",
			pkgs:     map[string]map[string]string{acme + "/svc": {"svc.go": "package svc\n\nimport \"" + k.pkg + "\"\n\ntype QzSvc struct{}\n\nfunc (s *QzSvc) QzGet(qzA rec.QzRec) (qzB *rec.QzRec) { return nil }\n"}},
			dirOf:    map[string]string{},
			files:    map[string]string{},
			replace:  [][4]string{{"lib.org/b", "", "../lib-b", ""}},
			requires: [][2]string{{"lib.org/a", "v1.2.3"}, {"lib.org/b", "v1.0.0"}},
			mappings: map[string]genMapping{acme + "/svc": {out: "/ts/svc-vo.ts"}, k.pkg: {out: "/ts/rec.ts"}},
			targets:  []genTarget{{name: "qz", pkg: acme + "/svc", services: map[string]string{"/qz": "QzSvc"}, out: "/ts/svc.ts", tsrpc: []string{"QzSvc"}, gorpc: []string{"QzSvc"}}}}
		if k.vendor {
			in.files["/work/vendor"] = ""
			in.files["/work/vendor/modules.txt"] = "# QzVendored"
		}
		put := func(dir, field string) {
			if in.pkgs["at "+dir] == nil {
				in.pkgs["at "+dir], in.dirOf["at "+dir] = rec(field), dir
			}
		}
		if k.dir != "" {
			field := "QzRight"
			if !k.found {
				field = "QzWrong"
			}
			put(k.dir, field)
		}
		for _, d := range []string{"/src", k.goPath, k.goPath + "/pkg/mod", "/goroot", "/work", "/work/src", "/elsewhere/src", "/elsewhere/vendor/src"} {
			put(d+"/"+k.pkg, "QzWrong")
		}
		r = append(r, genSource{in, k.found})
	}
	return r
}

// sourced: the builder reads the type from the place where its package is.
func (c *Check) sourced(in *genInput, found bool) {
	if !found {
		c.mustReport(in, "builder", "")
		return
	}
	o := c.single(in, "builder")
	if o == nil {
		return
	}
	f, err := parseTSFile("/ts/rec.ts", o.files["/ts/rec.ts"])
	if err != nil {
		c.undecided("builder", in.name, 0, "%s", err.msg)
		return
	}
	d := f.decl("", "QzRec")
	c.require(d != nil && len(d.fields) == 1 && d.fields[0].name == "QzRight", "builder", in.name, 0, "the declaration of the type is not read from the place where its package is")
}
