package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("G10", 60, checkG10)
}

// ---- G10: a configuration is loaded exactly as written or rejected -----------------------------

// cfgCase is a configuration file in a file system.
type cfgCase struct {
	what  string
	file  string
	doc   string // "-" is a file that does not exist
	cwd   string
	files map[string]string
	want  []string // what the configuration contains; nil is an error
	any   bool     // an error is as good as a configuration
}

const cfgModule = `
module:
  name: example.com/acme
  path: `

const cfgTargets = `
targets:
  qzone:
    package: example.com/acme/one
    module: Qz.One
    out: ./ts/one.ts
    services:
      /service/one: QzOne
      /service/two: QzTwo
      "/quoted: path": 'QzThree'
    gorpc:
      - QzOne
    tsrpc: [QzTwo, QzThree]
    skipTSRPCClient: true
  qztwo:
    package: "example.com/acme/two"
    services: {/t: QzT}
    out: /abs/two.ts
    tsrpc:
      - QzT
`

const cfgMappings = `
mappings:
  example.com/acme/one:
    module: Qz.Vo
    out: ./ts/one-vo.ts
    structs:
      - QzA
      - QzB
    scalars: [QzC]
  example.com/acme/two: {out: "/abs/two-vo.ts"}
`

var wantTargets = []string{
	"target qzone: package=example.com/acme/one services={/quoted: path:QzThree /service/one:QzOne /service/two:QzTwo} module=Qz.One out=./ts/one.ts gorpc=[QzOne] tsrpc=[QzTwo QzThree] skip=true",
	"target qztwo: package=example.com/acme/two services={/t:QzT} module= out=/abs/two.ts gorpc=[] tsrpc=[QzT] skip=false",
}

var wantMappings = []string{
	"mapping example.com/acme/one: package=example.com/acme/one out=./ts/one-vo.ts structs=[QzA QzB] scalars=[QzC] module=Qz.Vo",
	"mapping example.com/acme/two: package=example.com/acme/two out=/abs/two-vo.ts structs=[] scalars=[] module=",
}

const goModOne = `module example.com/acme

go 1.21

require (
	lib.org/a v1.2.3
	lib.org/b v0.0.0-20200102030405-abcdefabcdef // indirect
)

require lib.org/Camel v1.0.0-RC1

replace lib.org/a v1.2.3 => ../lib-a

replace (
	lib.org/b => fork.org/b v1.4.0
	lib.org/c => /opt/c
)
`

const wantGoMod = "go.mod require [lib.org/a@v1.2.3 lib.org/b@v0.0.0-20200102030405-abcdefabcdef lib.org/Camel@v1.0.0-RC1] replace [lib.org/a@v1.2.3=>../lib-a lib.org/b=>fork.org/b@v1.4.0 lib.org/c=>/opt/c]"

func wantModule(name, path, mod string) []string {
	return []string{"module: name=" + name + " path=" + path, mod}
}

func cat(xs ...[]string) []string {
	r := []string{}
	for _, x := range xs {
		r = append(r, x...)
	}
	return r
}

const noGoMod = "no go.mod"

func cfgCases() []cfgCase {
	full := cfgModule + "../\n" + cfgTargets + cfgMappings
	all := func(mod []string) []string { return cat(mod, wantTargets, wantMappings) }
	none := wantModule("", "", noGoMod)
	r := []cfgCase{
		{what: "a complete configuration", file: "conf/build.yml", doc: full, files: map[string]string{"/work/go.mod": goModOne, "/work/conf/go.mod": "module example.com/wrong\n", "/go.mod": "module example.com/wrong\n"},
			want: all(wantModule("example.com/acme", "/work", wantGoMod))},
		{what: "a complete configuration in another order", file: "conf/build.yml", doc: cfgMappings + cfgTargets + cfgModule + "../\n", files: map[string]string{"/work/go.mod": goModOne},
			want: all(wantModule("example.com/acme", "/work", wantGoMod))},
		{what: "a configuration without go.mod", file: "conf/build.yml", doc: full, want: all(wantModule("example.com/acme", "/work", noGoMod))},
		{what: "a configuration of nothing", file: "build.yml", doc: "", want: none, any: true},
		{what: "a configuration of comments", file: "build.yml", doc: "# nothing\n---\n", want: none, any: true},
		{what: "a configuration of targets", file: "build.yml", doc: cfgTargets, files: map[string]string{"/work/go.mod": goModOne, "/go.mod": goModOne}, want: cat(none, wantTargets)},
		{what: "a configuration of mappings", file: "build.yml", doc: cfgMappings, want: cat(none, wantMappings)},
		{what: "a module without path", file: "build.yml", doc: "module:\n  name: example.com/acme\n", want: wantModule("example.com/acme", "", noGoMod)},
		{what: "targets and mappings that are null", file: "build.yml", doc: "targets:\nmappings: ~\n", want: none, any: true},
		{what: "one mapping under two names", file: "build.yml", doc: "mappings:\n  example.com/acme/a: &qz\n    out: ./qz.ts\n    structs: [QzA]\n  example.com/acme/b: *qz\n", want: cat(none, []string{
			"mapping example.com/acme/a: package=example.com/acme/a out=./qz.ts structs=[QzA] scalars=[] module=", "mapping example.com/acme/b: package=example.com/acme/b out=./qz.ts structs=[QzA] scalars=[] module="})},
		{what: "one target under two names", file: "build.yml", doc: "targets:\n  a: &qz\n    package: example.com/acme/a\n    tsrpc: [QzA]\n  b: *qz\n", want: cat(none, []string{
			"target a: package=example.com/acme/a services={} module= out= gorpc=[] tsrpc=[QzA] skip=false", "target b: package=example.com/acme/a services={} module= out= gorpc=[] tsrpc=[QzA] skip=false"})},
		{what: "a target of defaults", file: "build.yml", doc: "targets:\n  a: {}\n", want: cat(none, []string{"target a: package= services={} module= out= gorpc=[] tsrpc=[] skip=false"}), any: true},
		{what: "mappings that name another package", file: "build.yml", doc: "mappings:\n  example.com/acme/a:\n    goPackage: example.com/wrong\n    gopackage: example.com/wrong\n    GoPackage: example.com/wrong\n    out: ./a.ts\n", want: cat(none, []string{
			"mapping example.com/acme/a: package=example.com/acme/a out=./a.ts structs=[] scalars=[] module="}), any: true},
		{what: "no such file", file: "conf/build.yml", doc: "-", files: map[string]string{"/work/conf/other.yml": full, "/build.yml": full}},
	}
	// where the module is
	for _, k := range []struct{ file, cwd, path, want string }{
		{"build.yml", "", ".", "/work"}, {"build.yml", "", "./", "/work"}, {"build.yml", "", "./sub", "/work/sub"}, {"build.yml", "", "sub/deep/", "/work/sub/deep"}, {"build.yml", "", "..", "/"},
		{"conf/deep/build.yml", "", "../../", "/work"}, {"./conf/build.yml", "", "sub", "/work/conf/sub"}, {"../conf/build.yml", "", "../mod", "/mod"},
		{"/abs/conf/build.yml", "", "..", "/abs"}, {"/abs/conf/build.yml", "", ".", "/abs/conf"}, {"/abs/conf/build.yml", "", "../../other", "/other"},
		{"conf/build.yml", "", "/src/acme", "/src/acme"}, {"/abs/conf/build.yml", "", "/src/acme/sub", "/src/acme/sub"}, {"build.yml", "", "...", "/work/..."}, {"conf/build.yml", "", "..x", "/work/conf/..x"},
	} {
		doc := cfgModule + k.path + "\n" + cfgMappings
		mod := k.want + "/go.mod"
		if k.want == "/" {
			mod = "/go.mod"
		}
		what := fmt.Sprintf("module path %s in %s", k.path, k.file)
		wrong := map[string]string{}
		for _, d := range []string{"/", "/work/", "/abs/", "/abs/conf/", "/work/conf/", "/src/", "/work/conf/deep/"} {
			if d+"go.mod" != mod {
				wrong[d+"go.mod"] = "module example.com/wrong\n\nrequire wrong.org/a v1.0.0\n"
			}
		}
		right := map[string]string{mod: goModOne}
		for d, s := range wrong {
			right[d] = s
		}
		r = append(r, cfgCase{what: what, file: k.file, doc: doc, files: right, want: cat(wantModule("example.com/acme", k.want, wantGoMod), wantMappings)},
			cfgCase{what: what + " without go.mod", file: k.file, doc: doc, files: wrong, want: cat(wantModule("example.com/acme", k.want, noGoMod), wantMappings)},
			cfgCase{what: what + " with a broken go.mod", file: k.file, doc: doc, files: map[string]string{mod: "module example.com/acme\n\nrequire lib.org/a\n)(\n"}},
			cfgCase{what: what + " with a broken replace directive", file: k.file, doc: doc, files: map[string]string{mod: "module example.com/acme\n\nreplace lib.org/a lib.org/b\n"}})
	}
	for what, doc := range map[string]string{
		"an unclosed list":               "targets:\n  a:\n    tsrpc: [QzA\n",
		"an unclosed quote":              "targets:\n  a:\n    out: \"./a.ts\n",
		"tabs":                           "targets:\n\ta:\n\t\tout: a.ts\n",
		"a wrong indentation":            "targets:\n    a:\n        out: a.ts\n      b:\n",
		"an unknown anchor":              "targets:\n  a: *qz\n",
		"a control character":            "targets:\n  a:\n    out: \"\x01\"\n\x02",
		"text":                           "This is not a configuration\n",
		"a list":                         "- targets\n- mappings\n",
		"a list of targets":              "targets:\n  - package: example.com/acme/a\n",
		"a target that is text":          "targets:\n  a: example.com/acme/a\n",
		"a list of services":             "targets:\n  a:\n    services:\n      - QzA\n",
		"a flag that is not a flag":      "targets:\n  a:\n    skipTSRPCClient: [1]\n",
		"a mapping that is text":         "mappings:\n  example.com/acme/a: ./a.ts\n",
		"a mapping with a map of types":  "mappings:\n  example.com/acme/a:\n    structs:\n      QzA: QzB\n",
		"a module that is text":          "module: example.com/acme\n",
		"an error after a valid target":  "targets:\n  a:\n    out: a.ts\n  b: 7\n",
		"an empty target":                "targets:\n  a:\n",
		"an empty target among others":   cfgTargets + "  qzthree:\n" + cfgMappings,
		"an empty target at first":       "targets:\n  aaa: ~\n" + strings.TrimPrefix(cfgTargets, "\ntargets:\n") + cfgMappings,
		"an empty mapping":               "mappings:\n  example.com/acme/a:\n",
		"an empty mapping among others":  cfgTargets + cfgMappings + "  example.com/acme/zzz: null\n",
		"an empty mapping at first":      "mappings:\n  aaa:\n  example.com/acme/b:\n    out: b.ts\n",
		"empty targets and mappings":     "targets:\n  a:\nmappings:\n  b:\n",
		"an empty target with a module":  cfgModule + "/src/acme\ntargets:\n  a:\n",
		"an empty mapping with a module": cfgModule + "../\nmappings:\n  a:\n",
	} {
		r = append(r, cfgCase{what: what, file: "conf/build.yml", doc: doc})
	}
	sort.SliceStable(r, func(i, j int) bool { return r[i].what < r[j].what })
	return r
}

// cfgReader reads a configuration of the analysed program.
type cfgReader struct{ pe *PE }

func (r *cfgReader) f(v any, typ, field string) any {
	return r.pe.field(v, r.pe.typ(modPath+"/config", typ), field)
}

func (r *cfgReader) text(v any) string {
	switch v := v.(type) {
	case string:
		return v
	case bool:
		return fmt.Sprint(v)
	case pnil:
		return ""
	}
	return "<" + pkey(v) + ">"
}

func (r *cfgReader) strs(v any) string {
	var s []string
	switch v := v.(type) {
	case pslice:
		for _, c := range v.e {
			s = append(s, r.text(c.v))
		}
	case pnil:
	default:
		return "<" + pkey(v) + ">"
	}
	return "[" + strings.Join(s, " ") + "]"
}

func (r *cfgReader) each(v any, f func(k string, v any)) {
	switch v := v.(type) {
	case pnil:
	case *pmap:
		var ks []string
		at := map[string]any{}
		for _, k := range v.keys {
			s := r.text(v.kv[k])
			ks = append(ks, s)
			at[s] = v.vals[k].v
		}
		sort.Strings(ks)
		for _, k := range ks {
			f(k, at[k])
		}
	default:
		r.pe.undecided("a table of the configuration is %s", pkey(v))
	}
}

// conf says what a configuration contains.
func (r *cfgReader) conf(v any) []string {
	if isPNil(v) {
		return []string{"nothing"}
	}
	ns := r.f(v, "Config", "Module")
	res := []string{"module: name=" + r.text(r.f(ns, "Namespace", "Name")) + " path=" + r.text(r.f(ns, "Namespace", "Path"))}
	if mf := r.f(ns, "Namespace", "ModFile"); isPNil(mf) {
		res = append(res, noGoMod)
	} else {
		res = append(res, "go.mod require "+r.directives(mf, "Require", "Mod")+" replace "+r.directives(mf, "Replace", "Old", "New"))
	}
	r.each(r.f(v, "Config", "Targets"), func(k string, t any) {
		if isPNil(t) {
			res = append(res, "target "+k+": nil")
			return
		}
		var svc []string
		r.each(r.f(t, "Target", "Services"), func(e string, n any) { svc = append(svc, e+":"+r.text(n)) })
		res = append(res, fmt.Sprintf("target %s: package=%s services={%s} module=%s out=%s gorpc=%s tsrpc=%s skip=%s", k, r.text(r.f(t, "Target", "Package")), strings.Join(svc, " "), r.text(r.f(t, "Target", "TypeScriptModule")),
			r.text(r.f(t, "Target", "Out")), r.strs(r.f(t, "Target", "GoRPC")), r.strs(r.f(t, "Target", "TSRPC")), r.text(r.f(t, "Target", "SkipTSRPCClient"))))
	})
	r.each(r.f(v, "Config", "Mappings"), func(k string, m any) {
		if isPNil(m) {
			res = append(res, "mapping "+k+": nil")
			return
		}
		res = append(res, fmt.Sprintf("mapping %s: package=%s out=%s structs=%s scalars=%s module=%s", k, r.text(r.f(m, "Mapping", "GoPackage")), r.text(r.f(m, "Mapping", "Out")),
			r.strs(r.f(m, "Mapping", "Structs")), r.strs(r.f(m, "Mapping", "Scalars")), r.text(r.f(m, "Mapping", "TypeScriptModule"))))
	})
	return res
}

func (r *cfgReader) directives(mf any, typ string, fields ...string) string {
	ver := r.pe.typ("golang.org/x/mod/module", "Version")
	var s []string
	switch l := r.pe.field(mf, r.pe.typ(modPathFile, "File"), typ).(type) {
	case pslice:
		for _, c := range l.e {
			var ps []string
			for _, f := range fields {
				x := r.pe.field(c.v, r.pe.typ(modPathFile, typ), f)
				p := r.text(r.pe.field(x, ver, "Path"))
				if v := r.text(r.pe.field(x, ver, "Version")); v != "" {
					p += "@" + v
				}
				ps = append(ps, p)
			}
			s = append(s, strings.Join(ps, "=>"))
		}
	}
	return "[" + strings.Join(s, " ") + "]"
}

// cfgOut is one path through the loader.
type cfgOut struct {
	*pout
	got    []string
	failed bool
	world  *genWorld
}

// loadConfig evaluates the loader.
func (c *Check) loadConfig(k *cfgCase, faultAt, faultN int) []*cfgOut {
	in := &genInput{name: k.what, cwd: k.cwd, goPath: "/go", files: map[string]string{}, faultAt: faultAt, faultN: faultN}
	for n, s := range k.files {
		in.files[n] = s
	}
	if k.doc != "-" {
		in.files[in.abs(k.file)] = k.doc
	}
	worlds := map[*PE]*genWorld{}
	outs := c.explore(8, func(pe *PE) (*ssa.Function, []any) {
		worlds[pe] = pe.useGenWorld(in)
		f := c.P.peProg().config.Func("LoadConfigFile")
		if f == nil || f.Signature.Params().Len() != 1 || f.Signature.Results().Len() != 2 {
			pe.undecided("func LoadConfigFile(file) (config, error) does not exist")
		}
		return f, []any{k.file}
	})
	var res []*cfgOut
	for _, o := range outs {
		r := &cfgOut{pout: o, world: worlds[o.pe]}
		if o.kind == "ret" {
			if r.failed = !isPNil(o.rets[1]); !r.failed {
				r.got = (&cfgReader{o.pe}).conf(o.rets[0])
			}
		}
		res = append(res, r)
	}
	return res
}

// path describes the decisions of a path.
func (o *cfgOut) path(what string) string {
	var s []string
	for _, d := range o.conds {
		s = append(s, fmt.Sprintf("%s = %v", d.key, d.val))
	}
	if s == nil {
		return what
	}
	return what + " when " + strings.Join(s, ", ")
}

func checkG10(c *Check) {
	for _, k := range cfgCases() {
		k := k
		c.section(k.what, func() { c.loaded(&k) })
	}
	c.section("filters", c.filters)
}

func (c *Check) loaded(k *cfgCase) {
	ops := 0
	for _, o := range c.loadConfig(k, 0, 0) {
		ops = max(ops, o.world.ops)
		what, pos := o.path(k.what), o.pos
		switch {
		case o.kind != "ret":
			c.fail("loaded", what, pos, "loading ends in a %s: %s", o.kind, o.msg)
		case k.want == nil:
			c.require(o.failed, "rejected", what, pos, "the configuration is not rejected, it is loaded as %v", o.got)
		case o.failed:
			c.require(k.any, "loaded", what, pos, "loading fails: %s", pkey(o.rets[1]))
		default:
			g, x := "nothing", "nothing"
			for i := 0; i < max(len(o.got), len(k.want)) && g == x; i++ {
				g, x = "nothing", "nothing"
				if i < len(o.got) {
					g = o.got[i]
				}
				if i < len(k.want) {
					x = k.want[i]
				}
			}
			c.require(g == x, "loaded", what, pos, "the configuration contains %q instead of %q", g, x)
		}
	}
	if k.want == nil {
		return
	}
	// every operation that can fail
	for at := 1; at <= ops; at++ {
		for _, num := range []int{1, 1 << 20} {
			for _, o := range c.loadConfig(k, at, num) {
				if len(o.world.injected) == 0 {
					continue
				}
				what := o.path(fmt.Sprintf("%s, %s fails", k.what, strings.Join(o.world.injected, " and ")))
				if o.kind != "ret" {
					c.fail("fault", what, o.pos, "loading ends in a %s: %s", o.kind, o.msg)
					continue
				}
				c.require(o.failed, "fault", what, o.pos, "loading returns no error, it returns %v", o.got)
			}
		}
	}
}

// filters: the decision tables of the service filters.
func (c *Check) filters() {
	pp := c.P.peProg()
	tgt, ok := pp.config.Pkg.Scope().Lookup("Target").(*types.TypeName)
	if !ok {
		panic(Undecided{"config.Target does not exist"})
	}
	method := func(n string) *ssa.Function {
		o, _, _ := types.LookupFieldOrMethod(types.NewPointer(tgt.Type()), true, pp.config.Pkg, n)
		f, ok := o.(*types.Func)
		if !ok {
			panic(Undecided{"config.Target." + n + " does not exist"})
		}
		return pp.prog.FuncValue(f)
	}
	lists := [][]string{nil, {}, {"QzSvc"}, {"QzOther"}, {"QzSvc", "QzOther"}, {"QzOther", "QzSvc"}, {"QzA", "QzSvc", "QzB"}, {"QzA", "QzB", "QzC"}, {"QzSvcMore"}, {"QzSv"}, {"qzsvc"}, {"QZSVC"}, {"MoreQzSvc"}, {" QzSvc"}, {"*"}, {""}, {"pkg.QzSvc"}, {"*QzSvc"}, {"QzSvc", "QzSvc"}}
	for _, l := range lists {
		for k, other := range [][]string{nil, {"QzSvc"}, {"QzZ"}, {"QzSvc"}, {"QzSvc"}, {"QzZ"}} {
			more := map[int]map[string]string{3: {"/qz": "QzSvc"}, 4: {"/qz": "QzOther", "/qzs": "QzSvc"}, 5: {"/qz": "QzOther"}}[k]
			listed := false
			for _, x := range l {
				listed = listed || x == "QzSvc"
			}
			for _, m := range []struct {
				name, field, other string
				want               bool
			}{{"IsGoRPC", "GoRPC", "TSRPC", listed}, {"IsTSRPC", "TSRPC", "GoRPC", listed || len(l) == 0}} {
				f := method(m.name)
				what := fmt.Sprintf("%s of QzSvc with %s %q and %s %q", m.name, m.field, l, m.other, other)
				if more != nil {
					what += fmt.Sprintf(" in a target with services %v", more)
				}
				outs := c.explore(8, func(pe *PE) (*ssa.Function, []any) {
					fs := map[string]any{"Package": "example.com/acme/qz"}
					if more != nil {
						svc := map[string]any{}
						for e, n := range more {
							svc[e] = n
						}
						fs["Services"], fs["Out"], fs["SkipTSRPCClient"] = pe.mkMap(svc), "/qz.ts", k == 4
					}
					for n, x := range map[string][]string{m.field: l, m.other: other} {
						if x != nil {
							fs[n] = pstrs(x)
						}
					}
					var recv any = ptr(pe.mkStruct(tgt.Type(), fs))
					if _, isPtr := f.Signature.Recv().Type().(*types.Pointer); !isPtr {
						recv = recv.(*pcell).v
					}
					return f, []any{recv, "QzSvc"}
				})
				if len(outs) != 1 {
					panic(Undecided{what + ": several paths"})
				}
				o := outs[0]
				if o.kind != "ret" {
					c.fail("filter", what, o.pos, "the filter ends in a %s: %s", o.kind, o.msg)
					continue
				}
				got, isB := o.rets[0].(bool)
				if !isB {
					panic(Undecided{what + " is " + pkey(o.rets[0])})
				}
				c.require(got == m.want, "filter", what, o.pos, "the result is %v", got)
			}
		}
	}
}
