package main

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"path"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Schematic inputs of the generator and the text it emits for them. The generator
// is not run: its SSA form is partially evaluated (pe.go) for an input whose shape
// is fixed and whose names are place holders, and the residual text it would write
// is type-checked against the schematic service package and analysed like any
// other source.

type genTarget struct {
	name     string
	pkg      string
	services map[string]string // endpoint -> service
	out      string
	gorpc    []string
	tsrpc    []string
	skip     bool
}

type genMapping struct {
	out     string
	structs []string
	scalars []string
}

type genInput struct {
	name     string
	modName  string
	modDir   string
	goPath   string
	pkgs     map[string]map[string]string // import path -> file -> source
	dirOf    map[string]string            // directories of packages outside the module
	targets  []genTarget
	mappings map[string]genMapping
	files    map[string]string // other existing files
	faultAt  int               // the operation (counted from 1) that fails
	faultN   int               // the number of operations that fail from there on
	old      bool              // generated files of an earlier run may exist
	reverse  bool
	flip     func(site token.Pos, ks []string) // order of iterations over maps
	cwd      string
	homeless bool        // HOME is not set
	late     bool        // goroutines run late
	says     string      // what a failing run has to mention
	replace  [][4]string // old path, old version, new path, new version
	requires [][2]string
}

const (
	acme    = "example.com/acme"
	acmeDir = "/src/acme"
)

// genOut is one path through the generator.
type genOut struct {
	*pout
	in      *genInput
	files   map[string]string // text written
	final   map[string]string // files that did not belong to the input or exist in the end
	order   []string
	unknown map[string]any // written values that are not known
	removed []string
	dirs    []string
	world   *genWorld
}

func (in *genInput) dir(pkg string) string {
	if d, ok := in.dirOf[pkg]; ok {
		return d
	}
	if pkg == in.modName {
		return in.modDir
	}
	if strings.HasPrefix(pkg, in.modName+"/") {
		return in.modDir + pkg[len(in.modName):]
	}
	if !strings.Contains(strings.Split(pkg, "/")[0], ".") {
		return "/goroot/src/" + pkg
	}
	return in.goPath + "/src/" + pkg
}

func (in *genInput) target(service string) *genTarget {
	for i := range in.targets {
		for _, s := range in.targets[i].services {
			if s == service {
				return &in.targets[i]
			}
		}
	}
	return nil
}

// genWorld models the file system for one path.
type genWorld struct {
	*world
	pe      *PE
	in      *genInput
	files   map[string]string
	written map[string]string
	order   []string
	unknown map[string]any
	removed []string
	gone    map[string]bool
	mkdirs  []string

	ops      int
	injected []string
	effects  []genEffect
}

// genEffect is an effect on the file system.
type genEffect struct {
	op, path string
	pos      token.Pos
}

func (g *genWorld) effect(c *pcall, p string) {
	g.effects = append(g.effects, genEffect{c.name, p, c.pos})
}

// list is the content of a directory, with the files written so far.
func (g *genWorld) list(dir string) map[string]string {
	var r map[string]string
	add := func(n, s string) {
		if r == nil {
			r = map[string]string{}
		}
		r[n] = s
	}
	for n, s := range g.dirs[dir] {
		if !g.gone[dir+"/"+n] {
			add(n, s)
		}
	}
	for n, s := range g.files {
		if path.Dir(n) == dir && strings.HasSuffix(n, ".go") {
			add(path.Base(n), s)
		}
	}
	return r
}

// fail counts an operation that may fail and reports whether it does.
func (g *genWorld) fail(what string) bool {
	g.ops++
	if g.in.faultAt > 0 && g.ops >= g.in.faultAt && g.ops < g.in.faultAt+g.in.faultN {
		g.injected = append(g.injected, what)
		return true
	}
	return false
}

// injectedError is the error of an operation that fails on purpose.
func (g *genWorld) injectedError(op string) any { return g.pe.newError("injected "+op, int64(g.ops)) }

func (g *genWorld) notExist(name string) any {
	return g.pe.newError("fs.ErrNotExist", name)
}

func isNotExist(v any) bool {
	u, ok := v.(*punk)
	return ok && u.op == "new:fs.ErrNotExist"
}

func pstr(pe *PE, v any) string {
	s, ok := v.(string)
	if !ok {
		pe.undecided("file name %s is not known", pkey(v))
	}
	return s
}

func (pe *PE) useGenWorld(in *genInput) *genWorld {
	w := &world{dirs: map[string]map[string]string{}}
	for p, files := range in.pkgs {
		w.dirs[in.dir(p)] = withBodies(files)
	}
	g := &genWorld{world: w, pe: pe, in: in, files: map[string]string{}, written: map[string]string{}, unknown: map[string]any{}, gone: map[string]bool{}}
	w.list, w.fail = g.list, g.fail
	for n, s := range in.files {
		g.files[n] = s
	}
	pe.useWorld(w)
	pe.reverse, pe.flip, pe.late = in.reverse, in.flip, in.late
	m := pe.models
	ok := func(rs ...any) ([]any, bool) { return rs, true }
	stat := func(pe *PE, c *pcall) ([]any, bool) {
		n := pstr(pe, c.args[0])
		pe.event(c.fr, c.name, c.args, c.pos, nil)
		if _, has := g.files[n]; has {
			return ok(&pextern{kind: "fileinfo", name: path.Base(n)}, pnil{})
		}
		if _, has := g.dirs[path.Dir(n)][path.Base(n)]; has && !g.gone[n] || g.dirs[n] != nil {
			return ok(&pextern{kind: "fileinfo", name: path.Base(n)}, pnil{})
		}
		if in.old && strings.HasSuffix(n, ".go") && pe.decide("exists "+n) {
			g.files[n] = ""
			return ok(&pextern{kind: "fileinfo", name: path.Base(n)}, pnil{})
		}
		return ok(pnil{}, g.notExist(n))
	}
	m["os.Stat"], m["os.Lstat"] = stat, stat
	m["os.IsNotExist"] = func(pe *PE, c *pcall) ([]any, bool) {
		if _, isNil := c.args[0].(pnil); isNil {
			return ok(false)
		}
		return ok(isNotExist(c.args[0]))
	}
	m["os.IsPermission"] = func(pe *PE, c *pcall) ([]any, bool) {
		if isPNil(c.args[0]) || isNotExist(c.args[0]) {
			return ok(false)
		}
		return nil, false
	}
	m["os.IsExist"] = func(pe *PE, c *pcall) ([]any, bool) { return ok(false) }
	m["errors.Is"] = func(pe *PE, c *pcall) ([]any, bool) {
		if u, is := c.args[1].(*punk); is && strings.Contains(u.key(), "ErrNotExist") {
			return ok(isNotExist(c.args[0]))
		}
		if isPNil(c.args[0]) {
			return ok(isPNil(c.args[1]))
		}
		if u, is := c.args[1].(*punk); is && isNotExist(c.args[0]) && (strings.Contains(u.key(), "ErrPermission") || strings.Contains(u.key(), "ErrExist")) {
			return ok(false)
		}
		return nil, false
	}
	m["os.Remove"] = func(pe *PE, c *pcall) ([]any, bool) {
		n := pstr(pe, c.args[0])
		pe.event(c.fr, c.name, c.args, c.pos, nil)
		if !g.has(n) {
			return ok(g.notExist(n))
		}
		g.effect(c, n)
		g.removed = append(g.removed, n)
		delete(g.files, n)
		g.gone[n] = true
		return ok(pnil{})
	}
	m["os.Getwd"] = func(pe *PE, c *pcall) ([]any, bool) {
		if g.fail("os.Getwd") {
			return ok("", g.injectedError("os.Getwd"))
		}
		if in.cwd != "" {
			return ok(in.cwd, pnil{})
		}
		return ok("/work", pnil{})
	}
	m["os.Getenv"] = func(pe *PE, c *pcall) ([]any, bool) {
		if s, is := c.args[0].(string); is && s == "HOME" {
			if in.homeless {
				return ok("")
			}
			return ok("/home/qz")
		}
		return nil, false
	}
	m["os.UserHomeDir"] = func(pe *PE, c *pcall) ([]any, bool) {
		if in.homeless {
			return ok("", pe.newError("$HOME is not defined"))
		}
		return ok("/home/qz", pnil{})
	}
	mkdir := func(pe *PE, c *pcall) ([]any, bool) {
		n := pstr(pe, c.args[0])
		pe.event(c.fr, c.name, c.args, c.pos, nil)
		g.effect(c, n)
		g.mkdirs = append(g.mkdirs, n)
		if g.fail(c.name + " " + n) {
			return ok(g.injectedError(c.name))
		}
		return ok(pnil{})
	}
	m["os.MkdirAll"], m["os.Mkdir"] = mkdir, mkdir
	m["os.ReadFile"] = func(pe *PE, c *pcall) ([]any, bool) {
		n := g.found(pstr(pe, c.args[0]))
		pe.event(c.fr, c.name, c.args, c.pos, nil)
		s, has := g.files[n]
		if !has {
			return ok(pnil{}, g.notExist(n))
		}
		if g.fail("os.ReadFile " + n) {
			return ok(pnil{}, g.injectedError("os.ReadFile"))
		}
		return ok(pbytes(s), pnil{})
	}
	m["io/ioutil.ReadFile"] = m["os.ReadFile"]
	m["os.WriteFile"] = func(pe *PE, c *pcall) ([]any, bool) {
		n := pstr(pe, c.args[0])
		e := pe.event(c.fr, c.name, c.args, c.pos, nil)
		if g.fail("os.WriteFile " + n) {
			e.res = "failed"
			return ok(g.injectedError("os.WriteFile"))
		}
		g.effect(c, n)
		s, known := bytesOf(c.args[1])
		if !known {
			g.unknown[n] = c.args[1]
			return ok(pnil{})
		}
		g.files[n] = s
		g.written[n] = s
		g.order = append(g.order, n)
		return ok(pnil{})
	}
	m["io/ioutil.WriteFile"] = m["os.WriteFile"]
	m["golang.org/x/tools/imports.Process"] = func(pe *PE, c *pcall) ([]any, bool) {
		pe.event(c.fr, c.name, c.args, c.pos, nil)
		s, known := bytesOf(c.args[1])
		if !known {
			return nil, false
		}
		if _, err := parser.ParseFile(token.NewFileSet(), "gen.go", s, 0); err != nil {
			return ok(pnil{}, pe.newError("imports.Process", err.Error()))
		}
		if g.fail("imports.Process " + pkey(c.args[0])) {
			return ok(pnil{}, g.injectedError("imports.Process"))
		}
		b, err := format.Source([]byte(s))
		if err != nil {
			return ok(pnil{}, pe.newError("imports.Process", err.Error()))
		}
		return ok(pbytes(b), pnil{})
	}
	m["path/filepath.Abs"] = func(pe *PE, c *pcall) ([]any, bool) {
		s, is := c.args[0].(string)
		if !is {
			return nil, false
		}
		if g.fail("path/filepath.Abs") {
			return ok("", g.injectedError("path/filepath.Abs"))
		}
		if !path.IsAbs(s) {
			s = path.Join("/work", s)
		}
		return ok(path.Clean(s), pnil{})
	}
	g.moreFiles()
	g.useYAML()
	return g
}

// conf builds the configuration value.
func (in *genInput) conf(pe *PE) any {
	cfg := modPath + "/config"
	targets := map[string]any{}
	for _, t := range in.targets {
		svc := map[string]any{}
		for ep, n := range t.services {
			svc[ep] = n
		}
		f := map[string]any{"Package": t.pkg, "Services": pe.mkMap(svc), "Out": t.out, "SkipTSRPCClient": t.skip}
		if t.gorpc != nil {
			f["GoRPC"] = pstrs(t.gorpc)
		}
		if t.tsrpc != nil {
			f["TSRPC"] = pstrs(t.tsrpc)
		}
		targets[t.name] = ptr(pe.mkStruct(pe.typ(cfg, "Target"), f))
	}
	maps := map[string]any{}
	for p, x := range in.mappings {
		f := map[string]any{"GoPackage": p, "Out": x.out}
		if x.structs != nil {
			f["Structs"] = pstrs(x.structs)
		}
		if x.scalars != nil {
			f["Scalars"] = pstrs(x.scalars)
		}
		maps[p] = ptr(pe.mkStruct(pe.typ(cfg, "Mapping"), f))
	}
	ns := pe.mkStruct(pe.typ(cfg, "Namespace"), map[string]any{"Name": in.modName, "Path": in.modDir})
	if in.replace != nil || in.requires != nil {
		mf := modPathFile
		ver := func(p, v string) any {
			return pe.mkStruct(pe.typ("golang.org/x/mod/module", "Version"), map[string]any{"Path": p, "Version": v})
		}
		var reps, reqs []*pcell
		for _, r := range in.replace {
			reps = append(reps, &pcell{ptr(pe.mkStruct(pe.typ(mf, "Replace"), map[string]any{"Old": ver(r[0], r[1]), "New": ver(r[2], r[3])}))})
		}
		for _, r := range in.requires {
			reqs = append(reqs, &pcell{ptr(pe.mkStruct(pe.typ(mf, "Require"), map[string]any{"Mod": ver(r[0], r[1])}))})
		}
		f := map[string]any{}
		if reps != nil {
			f["Replace"] = pslice{reps}
		}
		if reqs != nil {
			f["Require"] = pslice{reqs}
		}
		for i, st := 0, pe.typ(cfg, "Namespace").Underlying().(*types.Struct); i < st.NumFields(); i++ {
			if st.Field(i).Name() == "ModFile" {
				ns.f[i].v = ptr(pe.mkStruct(pe.typ(mf, "File"), f))
			}
		}
	}
	return ptr(pe.mkStruct(pe.typ(cfg, "Config"), map[string]any{"Module": ns, "Targets": pe.mkMap(targets), "Mappings": pe.mkMap(maps)}))
}

const modPathFile = "golang.org/x/mod/modfile"

// generate derives what the generator writes for an input, on every path.
func (c *Check) generate(in *genInput, maxPaths int) []*genOut {
	key := fmt.Sprintf("%p %d", in, maxPaths)
	if r, ok := c.P.genCache[key]; ok {
		return r
	}
	c.P.once("generate " + key)
	defer c.P.failed("generate " + key)
	if in.goPath == "" {
		in.goPath = "/go"
	}
	worlds := map[*PE]*genWorld{}
	outs := c.explore(maxPaths, func(pe *PE) (*ssa.Function, []any) {
		worlds[pe] = pe.useGenWorld(in)
		f := c.P.peFn("Build")
		if f == nil || len(f.Params) != 2 {
			pe.undecided("func Build(conf, goPath) does not exist")
		}
		return f, []any{in.conf(pe), in.goPath}
	})
	var res []*genOut
	for _, o := range outs {
		g := worlds[o.pe]
		res = append(res, &genOut{pout: o, in: in, files: g.written, final: g.files, order: g.order, unknown: g.unknown, removed: g.removed, dirs: g.mkdirs, world: g})
	}
	if c.P.genCache == nil {
		c.P.genCache = map[string][]*genOut{}
	}
	c.P.genCache[key] = res
	return res
}

// single is the only path of an input on which everything succeeds.
func (c *Check) single(in *genInput, rule string) *genOut {
	outs := c.generate(in, 64)
	if len(outs) != 1 {
		panic(Undecided{fmt.Sprintf("%s: %d paths through the generator, e.g. under %v", in.name, len(outs), outs[0].conds)})
	}
	o := outs[0]
	if o.kind != "ret" {
		c.fail(rule, in.name, o.pos, "generating code for a supported service ends in a %s: %s", o.kind, o.reason())
		return nil
	}
	for n, v := range o.unknown {
		panic(Undecided{fmt.Sprintf("%s: the content of %s is not known: %s", in.name, n, pkey(v))})
	}
	return o
}

// reason is what was printed before the end.
func (o *genOut) reason() string {
	s := o.msg
	for i := len(o.trace) - 1; i >= 0 && i > len(o.trace)-4; i-- {
		if e := o.trace[i]; strings.HasPrefix(e.name, "fmt.") {
			s += " " + pkey(ptuple(e.args))
		}
	}
	return s
}

// ---- the emitted Go code ----------------------------------------------------------------

// genPkg is a service package together with the code emitted for it.
type genPkg struct {
	c     *Check
	in    *genInput
	out   *genOut
	tgt   *genTarget
	path  string
	ssa   *ssa.Package
	types *types.Package
	gen   map[string]string // emitted file -> text as type-checked
	src   *types.Package    // the service package alone
}

// emitted type-checks the code emitted for a target. It is a violation if that fails.
func (c *Check) emitted(in *genInput, o *genOut, t *genTarget, rule string) *genPkg {
	key := fmt.Sprintf("%p %s", o, t.pkg)
	if p, ok := c.P.genPkgs[key]; ok {
		if p == nil {
			c.fail(rule, in.name, 0, "%s", c.P.genErr[key])
			return nil
		}
		q := *p
		q.c = c
		c.ok(rule, in.name, 0)
		return &q
	}
	if c.P.genPkgs == nil {
		c.P.genPkgs, c.P.genErr = map[string]*genPkg{}, map[string]string{}
	}
	g := &genPkg{c: c, in: in, out: o, tgt: t, path: t.pkg, gen: map[string]string{}}
	extra := map[string]*types.Package{}
	if err := g.foreign(t.pkg, extra, map[string]bool{}); err != nil {
		panic(Undecided{in.name + ": " + err.Error()})
	}
	files := map[string]string{}
	for n, s := range in.pkgs[t.pkg] {
		if !strings.HasSuffix(n, "_test.go") {
			files[n] = s
		}
	}
	plain, err := c.P.synth(t.pkg, files, extra, false)
	if err != nil {
		panic(Undecided{in.name + ": schematic input: " + err.Error()})
	}
	g.src = plain.Pkg
	dir := in.dir(t.pkg)
	all := map[string]string{}
	for n, s := range files {
		all[n] = s
	}
	var prob string
	for n, s := range o.files {
		if path.Dir(n) != dir || !strings.HasSuffix(n, ".go") {
			continue
		}
		fixed, err := c.fixImports(s, extra)
		if err != nil {
			prob = fmt.Sprintf("%s does not parse: %v", path.Base(n), err)
			break
		}
		base := path.Base(n)
		if _, dup := all[base]; dup {
			prob = "source file " + base + " is overwritten"
			break
		}
		all[base] = fixed
		g.gen[base] = fixed
	}
	if prob == "" {
		sp, err := c.P.synth(t.pkg, all, extra, true)
		if err != nil {
			prob = "the emitted code does not type-check with the service package: " + err.Error()
		} else {
			g.ssa, g.types = sp, sp.Pkg
		}
	}
	if prob != "" {
		c.P.genPkgs[key], c.P.genErr[key] = nil, prob
		c.fail(rule, in.name, 0, "%s", prob)
		return nil
	}
	c.ok(rule, in.name, 0)
	c.P.genPkgs[key] = g
	return g
}

// foreign type-checks the packages of the schematic input that a package imports.
func (g *genPkg) foreign(pkg string, extra map[string]*types.Package, busy map[string]bool) error {
	for _, src := range g.in.pkgs[pkg] {
		f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, parser.ImportsOnly)
		if err != nil {
			return err
		}
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			if extra[p] != nil || busy[p] || g.in.pkgs[p] == nil {
				continue
			}
			if g.c.P.typesPkg(p) != nil {
				continue // a package of the program
			}
			busy[p] = true
			if err := g.foreign(p, extra, busy); err != nil {
				return err
			}
			files := map[string]string{}
			for n, s := range g.in.pkgs[p] {
				if !strings.HasSuffix(n, "_test.go") {
					files[n] = s
				}
			}
			sp, err := g.c.P.synth(p, files, extra, false)
			if err != nil {
				return fmt.Errorf("schematic package %s: %w", p, err)
			}
			extra[p] = sp.Pkg
		}
	}
	return nil
}

// fixImports does what goimports does to the emitted text: unused imports are
// dropped and missing ones of the standard library added.
func (c *Check) fixImports(src string, extra map[string]*types.Package) (string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "gen.go", src, parser.ParseComments)
	if err != nil {
		return "", err
	}
	used := map[string]bool{}
	unres := map[*ast.Ident]bool{}
	for _, id := range f.Unresolved {
		unres[id] = true
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok && unres[id] {
				used[id.Name] = true
			}
		}
		return true
	})
	have := map[string]bool{}
	var keep []string
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		name := path.Base(p)
		if im.Name != nil {
			name = im.Name.Name
		} else if q := extra[p]; q != nil {
			name = q.Name()
		} else if q := c.P.typesPkg(p); q != nil {
			name = q.Name()
		}
		if used[name] && !have[name] || name == "_" || name == "." {
			keep = append(keep, fmt.Sprintf("%s %q", name, p))
			have[name] = true
		} else if used[name] {
			keep = append(keep, fmt.Sprintf("%s %q", name, p)) // declared twice: the type checker reports it
		}
	}
	var miss []string
	for n := range used {
		if !have[n] && f.Scope.Lookup(n) == nil {
			miss = append(miss, n)
		}
	}
	sort.Strings(miss)
	for _, n := range miss {
		if p := c.P.stdByName(n); p != "" {
			keep = append(keep, fmt.Sprintf("%s %q", n, p))
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport (\n", f.Name.Name)
	for _, k := range keep {
		b.WriteString("\t" + k + "\n")
	}
	b.WriteString(")\n")
	for _, d := range f.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			continue
		}
		start, end := fset.Position(d.Pos()).Offset, fset.Position(d.End()).Offset
		b.WriteString("\n" + src[start:end] + "\n")
	}
	return b.String(), nil
}

// stdByName is the standard library package with a name, as goimports would choose it.
func (p *Program) stdByName(name string) string {
	p.typesPkg("fmt")
	best := ""
	for q, tp := range p.byPath {
		if tp == nil || tp.Name() != name || strings.Contains(strings.Split(q, "/")[0], ".") || strings.Contains(q, "internal") || strings.HasPrefix(q, "vendor/") {
			continue
		}
		if best == "" || len(q) < len(best) || len(q) == len(best) && q < best {
			best = q
		}
	}
	return best
}

// withBodies gives the functions of schematic packages, which are written as
// declarations, the bodies that functions of real packages have.
func withBodies(files map[string]string) map[string]string {
	r := map[string]string{}
	for n, s := range files {
		r[n] = s
		if !strings.HasSuffix(n, ".go") {
			continue
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, n, s, 0)
		if err != nil {
			continue
		}
		b, at := "", 0
		for _, d := range f.Decls {
			if fn, ok := d.(*ast.FuncDecl); ok && fn.Body == nil {
				end := fset.Position(fn.Type.End()).Offset
				b, at = b+s[at:end]+" { panic(\"qz\") }", end
			}
		}
		r[n] = b + s[at:]
	}
	return r
}
