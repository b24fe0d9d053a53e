package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// world is the source tree of a schematic input: what the generator may read.
type world struct {
	dirs  map[string]map[string]string // directory -> file name -> source
	goDir map[string]*types.Package
	fail  func(op string) bool // parsing may also fail
	reads []string
	list  func(dir string) map[string]string
}

// goImporter converts values of go/ast into values of the analysed program.
type goImporter struct {
	pe    *PE
	seen  map[any]*pcell
	types map[reflect.Type]types.Type
}

func (g *goImporter) typeOf(t reflect.Type) types.Type {
	if x, ok := g.types[t]; ok {
		return x
	}
	var r types.Type
	switch {
	case t.Kind() == reflect.Pointer:
		r = types.NewPointer(g.typeOf(t.Elem()))
	case t.Name() != "" && t.PkgPath() != "":
		p := g.pe.P.typesPkg(t.PkgPath())
		if p == nil || p.Scope().Lookup(t.Name()) == nil {
			g.pe.undecided("type %s is not part of the program", t)
		}
		r = p.Scope().Lookup(t.Name()).Type()
	case t.Kind() == reflect.String:
		r = types.Typ[types.String]
	case t.Kind() == reflect.Int:
		r = types.Typ[types.Int]
	default:
		g.pe.undecided("type %s", t)
	}
	g.types[t] = r
	return r
}

func (g *goImporter) val(v reflect.Value) any {
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int8, reflect.Int16:
		return v.Int()
	case reflect.Uint, reflect.Uint64, reflect.Uint8, reflect.Uint32:
		return int64(v.Uint())
	case reflect.Pointer:
		if v.IsNil() {
			return pnil{}
		}
		k := v.Interface()
		if c, ok := g.seen[k]; ok {
			return c
		}
		c := &pcell{}
		g.seen[k] = c
		c.v = g.val(v.Elem())
		return c
	case reflect.Struct:
		s := &pstruct{}
		st := g.typeOf(v.Type()).Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := v.FieldByName(st.Field(i).Name())
			if !f.IsValid() || !st.Field(i).Exported() {
				s.f = append(s.f, &pcell{pzero(st.Field(i).Type())})
				continue
			}
			s.f = append(s.f, &pcell{g.val(f)})
		}
		return s
	case reflect.Slice:
		if v.IsNil() {
			return pnil{}
		}
		var e []*pcell
		for i := 0; i < v.Len(); i++ {
			e = append(e, &pcell{g.val(v.Index(i))})
		}
		return pslice{e}
	case reflect.Map:
		if v.IsNil() {
			return pnil{}
		}
		m := newPMap()
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		for _, k := range keys {
			m.set(g.pe, k.String(), g.val(v.MapIndex(k)))
		}
		return m
	case reflect.Interface:
		if v.IsNil() {
			return pnil{}
		}
		return piface{g.typeOf(v.Elem().Type()), g.val(v.Elem())}
	}
	g.pe.undecided("value of kind %s", v.Kind())
	return nil
}

func fileInfo(name string) *pextern { return &pextern{kind: "fileinfo", name: name} }

// parseDir is the model of parser.ParseDir on the schematic source tree.
func (w *world) parseDir(pe *PE, c *pcall) ([]any, bool) {
	dir, ok := c.args[1].(string)
	if !ok {
		pe.undecided("directory %s is not known", pkey(c.args[1]))
	}
	mode, ok := c.args[3].(int64)
	if !ok {
		pe.undecided("parser mode is not known")
	}
	pe.event(c.fr, c.name, c.args, c.pos, nil)
	w.reads = append(w.reads, dir)
	files := w.dirs[dir]
	if w.list != nil {
		files = w.list(dir)
	}
	if files == nil {
		return []any{pnil{}, pe.newError("no such directory", dir)}, true
	}
	if w.fail != nil && w.fail("go/parser.ParseDir "+dir) {
		return []any{pnil{}, pe.newError("injected go/parser.ParseDir", dir)}, true
	}
	g := &goImporter{pe: pe, seen: map[any]*pcell{}, types: map[reflect.Type]types.Type{}}
	fset := token.NewFileSet()
	pkgs := map[string]*ast.Package{}
	var first any = pnil{}
	var names []string
	for n := range files {
		if strings.HasSuffix(n, ".go") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		if _, isNil := c.args[2].(pnil); !isNil {
			r := pe.callVal(c.fr, c.args[2], []any{fileInfo(n)}, c.pos)
			if !pe.truth(r[0]) {
				continue
			}
		}
		f, err := parser.ParseFile(fset, dir+"/"+n, files[n], parser.Mode(mode))
		if err != nil {
			if _, isNil := first.(pnil); isNil {
				first = pe.newError("parse error", err.Error())
			}
			continue
		}
		p := pkgs[f.Name.Name]
		if p == nil {
			p = &ast.Package{Name: f.Name.Name, Files: map[string]*ast.File{}}
			pkgs[f.Name.Name] = p
		}
		p.Files[dir+"/"+n] = f
	}
	m := newPMap()
	var pn []string
	for n := range pkgs {
		pn = append(pn, n)
	}
	sort.Strings(pn)
	for _, n := range pn {
		v := g.val(reflect.ValueOf(pkgs[n]))
		pe.astOf[v.(*pcell)] = &astPkg{pkg: pkgs[n], fset: fset, g: g}
		m.set(pe, n, v)
	}
	return []any{m, first}, true
}

type astPkg struct {
	pkg  *ast.Package
	fset *token.FileSet
	g    *goImporter
}

// newPackage is the model of ast.NewPackage: identifiers are resolved across files.
func (w *world) newPackage(pe *PE, c *pcall) ([]any, bool) {
	fm, ok := c.args[1].(*pmap)
	if !ok {
		return nil, false
	}
	// which package are these the files of
	var a *astPkg
	for cell, x := range pe.astOf {
		if s, ok := cell.v.(*pstruct); ok {
			for _, f := range s.f {
				if m, ok := f.v.(*pmap); ok && m == fm {
					a = x
				}
			}
		}
	}
	if a == nil {
		pe.undecided("ast.NewPackage of unknown files")
	}
	for i := 2; i < 4; i++ {
		if _, ok := c.args[i].(pnil); !ok {
			pe.undecided("ast.NewPackage with importer or universe")
		}
	}
	before := map[*ast.Ident]*ast.Object{}
	for _, f := range a.pkg.Files {
		for _, id := range f.Unresolved {
			before[id] = id.Obj
		}
	}
	np, err := ast.NewPackage(a.fset, a.pkg.Files, nil, nil)
	if np == nil {
		return []any{pnil{}, pe.newError("ast.NewPackage", fmt.Sprint(err))}, true
	}
	st := a.g.typeOf(reflect.TypeOf(ast.Ident{})).Underlying().(*types.Struct)
	for id, old := range before {
		if id.Obj == old {
			continue
		}
		cell := a.g.val(reflect.ValueOf(id)).(*pcell)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "Obj" {
				cell.v.(*pstruct).f[i].v = a.g.val(reflect.ValueOf(id.Obj))
			}
		}
	}
	// the files keep their identity
	res := a.g.val(reflect.ValueOf(np)).(*pcell)
	pe.astOf[res] = a
	var e any = pnil{}
	if err != nil {
		e = pe.newError("ast.NewPackage", "undeclared names")
	}
	return []any{res, e}, true
}

func (pe *PE) useWorld(w *world) {
	pe.world = w
	pe.astOf = map[*pcell]*astPkg{}
	pe.models["go/parser.ParseDir"] = w.parseDir
	pe.models["go/ast.NewPackage"] = w.newPackage
	pe.models["go/token.NewFileSet"] = func(pe *PE, c *pcall) ([]any, bool) { return []any{&pextern{kind: "fileset"}}, true }
	for _, n := range []string{"io/fs.FileInfo", "os.FileInfo", "io/fs.DirEntry", "os.DirEntry"} {
		pe.models["("+n+").Name"] = func(pe *PE, c *pcall) ([]any, bool) {
			if x, ok := c.args[0].(*pextern); ok {
				return []any{x.name}, true
			}
			return nil, false
		}
		pe.models["("+n+").IsDir"] = func(pe *PE, c *pcall) ([]any, bool) {
			if _, ok := c.args[0].(*pextern); ok {
				return []any{false}, true
			}
			return nil, false
		}
	}
}

// ---- building schematic values -----------------------------------------------------------

func (pe *PE) typ(pkg, name string) types.Type {
	tp := pe.P.typesPkg(pkg)
	if tp == nil {
		pe.undecided("package %s is not part of the program", pkg)
	}
	o := tp.Scope().Lookup(name)
	if o == nil {
		pe.undecided("type %s.%s does not exist", pkg, name)
	}
	return o.Type()
}

// mkStruct builds a struct value of a named type.
func (pe *PE) mkStruct(t types.Type, fields map[string]any) *pstruct {
	s := pzero(t).(*pstruct)
	st := t.Underlying().(*types.Struct)
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		if v, ok := fields[st.Field(i).Name()]; ok {
			s.f[i].v = v
			n++
		}
	}
	if n != len(fields) {
		pe.undecided("%s does not have the fields %v", t, fields)
	}
	return s
}

func (pe *PE) mkMap(entries map[string]any) *pmap {
	m := newPMap()
	var ks []string
	for k := range entries {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		m.set(pe, k, entries[k])
	}
	return m
}

func ptr(v any) *pcell { return &pcell{v} }

// field reads a field of a (pointer to a) struct.
func (pe *PE) field(v any, t types.Type, name string) any {
	if c, ok := v.(*pcell); ok {
		v = c.v
	}
	s, ok := v.(*pstruct)
	if !ok {
		pe.undecided("field %s of %T", name, v)
	}
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return s.f[i].v
		}
	}
	pe.undecided("%s has no field %s", t, name)
	return nil
}

func (p *Program) peFn(name string) *ssa.Function { return p.peProg().root.Func(name) }
