package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Synthetic packages: Go source that is not part of the repository (a most
// general client of an API, or source the generator emits for a class of
// services) is type-checked against the analysed program and its SSA form is
// added to it. Like the repository itself it is only interpreted abstractly.

type synthImporter struct {
	P     *Program
	extra map[string]*types.Package
}

func (i synthImporter) Import(path string) (*types.Package, error) {
	if p := i.extra[path]; p != nil {
		return p, nil
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p := i.P.typesPkg(path); p != nil {
		return p, nil
	}
	return nil, fmt.Errorf("package %s is not part of the analysed program", path)
}

// typesPkg finds a package among the loaded ones and their dependencies.
func (p *Program) typesPkg(path string) *types.Package {
	if p.byPath == nil {
		p.byPath = map[string]*types.Package{}
		packages.Visit(p.all, nil, func(q *packages.Package) {
			if q.Types != nil {
				p.byPath[q.PkgPath] = q.Types
			}
		})
	}
	return p.byPath[path]
}

// synth type-checks files as one package and builds its SSA form.
func (p *Program) synth(path string, files map[string]string, extra map[string]*types.Package, analysed bool) (*ssa.Package, error) {
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	var fs []*ast.File
	for _, n := range names {
		f, err := parser.ParseFile(p.fset, path+"/"+n, files[n], parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		fs = append(fs, f)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{},
	}
	var errs []string
	cfg := &types.Config{Importer: synthImporter{p, extra}, GoVersion: "go1.23", Error: func(err error) { errs = append(errs, err.Error()) }}
	tp, err := cfg.Check(path, p.fset, fs, info)
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	if err != nil {
		return nil, err
	}
	for _, im := range tp.Imports() {
		p.ensure(im)
	}
	sp := p.prog.CreatePackage(tp, fs, info, false)
	sp.Build()
	if analysed {
		p.analysed[sp] = true
	}
	return sp, nil
}

// ensure creates (bodyless) SSA packages for imported packages.
func (p *Program) ensure(tp *types.Package) {
	if tp == types.Unsafe || p.prog.Package(tp) != nil {
		return
	}
	p.prog.CreatePackage(tp, nil, nil, true)
	for _, im := range tp.Imports() {
		p.ensure(im)
	}
}

// driver builds the functions of a most general client once.
func (c *Check) driver(name, src string) *ssa.Package {
	if sp, ok := c.P.drivers[name]; ok {
		return sp
	}
	sp, err := c.P.synth("driver/"+name, map[string]string{name + ".go": src}, nil, true)
	if err != nil {
		c.fail("api-available", name, 0, "a client of the exported API does not compile any more: %v", err)
		c.P.drivers[name] = nil
		return nil
	}
	c.P.drivers[name] = sp
	return sp
}
