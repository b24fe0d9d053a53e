package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/foomo/gotsrpc/v2"

// Program is the type-checked program under analysis and its SSA form.
type Program struct {
	repo       string
	fset       *token.FileSet
	prog       *ssa.Program
	pkgs       []*packages.Package
	root       *ssa.Package // the gotsrpc package
	config     *ssa.Package
	prom       *ssa.Package
	cmds       []*ssa.Package
	analysed   map[*ssa.Package]bool
	initState  *State
	silentM    map[*ssa.Function]int
	effM       map[*ssa.Function]int
	written    map[string]bool
	initObjs   map[string]bool
	sharedObjs map[string]bool // objects that outlive the analysed call
	initTrace  []*Event
	all        []*packages.Package
	byPath     map[string]*types.Package
	drivers    map[string]*ssa.Package
	pe         *peProgram
	genCache   map[string][]*genOut
	readCache  map[*genInput][]*rmodel
	genPkgs    map[string]*genPkg
	genErr     map[string]string
	limits     map[string]Undecided
}

// Load type-checks the working tree and builds its SSA form.
func Load(repo string) (*Program, error) {
	fset := token.NewFileSet()
	goroot := goToolchain()
	if goroot != "" {
		os.Setenv("PATH", filepath.Join(goroot, "bin")+string(os.PathListSeparator)+os.Getenv("PATH"))
		os.Setenv("GOROOT", goroot)
	}
	os.Setenv("GOTOOLCHAIN", "local")
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "CGO_ENABLED=0", "GOPROXY=off", "GOWORK=off")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: env, Fset: fset}
	pats := []string{"."}
	for _, d := range []string{"config", "prometheus", "cmd"} {
		if _, err := os.Stat(filepath.Join(repo, d)); err == nil {
			pats = append(pats, "./"+d+"/...")
		}
	}
	all, err := packages.Load(cfg, append(pats, "github.com/valyala/gorpc", "context", "encoding/gob", "net/http")...)
	if err != nil {
		return nil, err
	}
	var pkgs []*packages.Package
	for _, p := range all {
		if p.PkgPath == modPath || strings.HasPrefix(p.PkgPath, modPath+"/") {
			pkgs = append(pkgs, p)
		}
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	var ill string
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		if q.IllTyped && len(q.Errors) > 0 && ill == "" {
			ill = fmt.Sprint(q.PkgPath, ": ", q.Errors[0])
		}
	})
	if ill != "" {
		return nil, fmt.Errorf("%s", ill)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{all: all, drivers: map[string]*ssa.Package{}, repo: repo, fset: fset, prog: prog, pkgs: pkgs, analysed: map[*ssa.Package]bool{}, silentM: map[*ssa.Function]int{}, effM: map[*ssa.Function]int{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("%s: no SSA", pkgs[i].PkgPath)
		}
		P.analysed[sp] = true
		switch p := pkgs[i].PkgPath; {
		case p == modPath:
			P.root = sp
		case p == modPath+"/config":
			P.config = sp
		case p == modPath+"/prometheus":
			P.prom = sp
		case strings.HasPrefix(p, modPath+"/cmd"):
			P.cmds = append(P.cmds, sp)
		}
	}
	if P.root == nil {
		return nil, fmt.Errorf("package %s not found", modPath)
	}
	P.initState = newState()
	P.evalInit()
	return P, nil
}

// goToolchain is the toolchain the analyzer was built with: standard library
// sources of another version may use language features it does not know.
func goToolchain() string {
	for _, r := range []string{"/opt/veriftools/go1.23.12", runtime.GOROOT()} {
		if _, err := os.Stat(filepath.Join(r, "bin", "go")); err == nil {
			return r
		}
	}
	return ""
}

// posKey is file:line:col relative to the repository.
func (p *Program) posKey(pos token.Pos) string {
	if !pos.IsValid() {
		return ""
	}
	q := p.fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d:%d", f, q.Line, q.Column)
}

func (p *Program) posLine(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// pkgOf is the package a function, or the generic one it instantiates, was declared in.
func pkgOf(fn *ssa.Function) *ssa.Package {
	if fn.Pkg == nil && fn.Origin() != nil {
		return fn.Origin().Pkg
	}
	return fn.Pkg
}

// wrapper: a synthetic function of the SSA builder around analysed code.
func (p *Program) wrapper(fn *ssa.Function) bool {
	if fn.Synthetic == "" || len(fn.Blocks) == 0 {
		return false
	}
	if o := fn.Origin(); o != nil {
		return o.Pkg != nil && p.analysed[o.Pkg]
	}
	t := types.Type(nil)
	if r := fn.Signature.Recv(); r != nil {
		t = r.Type()
	} else if len(fn.FreeVars) > 0 {
		t = fn.FreeVars[0].Type()
	} else if len(fn.Params) > 0 {
		t = fn.Params[0].Type()
	}
	if t == nil {
		return false
	}
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return p.analysed[p.prog.Package(n.Obj().Pkg())]
}

// staticCallee resolves a call to a function of the program when possible.
func extName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + typeName(c.Value.Type()) + ")." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return fnName(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return "dynamic"
}

// silent: the function returns nothing and only prints.
func (p *Program) silent(fn *ssa.Function) bool {
	if fn.Signature.Results().Len() > 0 {
		return false
	}
	if isInit(fn) {
		return false
	}
	switch p.silentM[fn] {
	case 1:
		return true
	case 2:
		return false
	case 3:
		return true // recursion
	}
	p.silentM[fn] = 3
	ok := len(fn.Blocks) > 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if !localAddr(in.Addr) {
					ok = false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Panic, *ssa.Select:
				ok = false
			case ssa.CallInstruction:
				c := in.Common()
				if b, isB := c.Value.(*ssa.Builtin); isB {
					switch b.Name() {
					case "len", "cap", "append", "print", "println":
					default:
						ok = false
					}
					continue
				}
				n := extName(c)
				if f := c.StaticCallee(); f != nil && p.analysed[pkgOf(f)] {
					if !p.silent(f) {
						ok = false
					}
					continue
				}
				if isPureExt(n) {
					continue
				}
				switch n {
				case "fmt.Print", "fmt.Printf", "fmt.Println", "log.Print", "log.Printf", "log.Println":
				case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
					if !isStdStream(c.Args[0]) {
						ok = false
					}
				default:
					ok = false
				}
			}
		}
	}
	if ok {
		p.silentM[fn] = 1
	} else {
		p.silentM[fn] = 2
	}
	return ok
}

func isStdStream(v ssa.Value) bool {
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && (g.RelString(nil) == "os.Stderr" || g.RelString(nil) == "os.Stdout")
}

func localAddr(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return false
		}
	}
}

func isInit(fn *ssa.Function) bool {
	return fn.Parent() == nil && fn.Signature.Recv() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#"))
}

// effectful: the function may have effects outside its own frame.
func (p *Program) effectful(fn *ssa.Function) bool {
	switch p.effM[fn] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	p.effM[fn] = 3
	eff := len(fn.Blocks) == 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if !localAddr(in.Addr) {
					eff = true
				}
			case *ssa.MapUpdate:
				if _, ok := in.Map.(*ssa.MakeMap); !ok {
					eff = true
				}
			case *ssa.Send, *ssa.Go, *ssa.Panic, *ssa.Select:
				eff = true
			case ssa.CallInstruction:
				c := in.Common()
				if b, isB := c.Value.(*ssa.Builtin); isB {
					switch b.Name() {
					case "len", "cap", "append", "print", "println", "min", "max", "ssa:wrapnilchk":
					case "copy":
						if _, ok := c.Args[0].(*ssa.MakeSlice); !ok {
							eff = true
						}
					default:
						eff = true
					}
					continue
				}
				n := extName(c)
				if f := c.StaticCallee(); f != nil && (f.Pkg != nil && p.analysed[f.Pkg] || f.Parent() != nil || p.wrapper(f)) {
					if !p.silent(f) && p.effectful(f) {
						eff = true
					}
					continue
				}
				switch n {
				case "fmt.Print", "fmt.Printf", "fmt.Println", "sort.Sort", "sort.Strings", "sort.Slice", "slices.Clone", "slices.Sort":
					continue
				}
				if !isPureExt(n) && !isReadExt(n) {
					eff = true
				}
			}
		}
	}
	if eff {
		p.effM[fn] = 1
	} else {
		p.effM[fn] = 2
	}
	return eff
}

// ---- package initialisation --------------------------------------------------------

// evalInit interprets the package initialisers abstractly and keeps what they
// leave in locations that nothing else writes.
func (p *Program) evalInit() {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Undecided); !ok {
				panic(r)
			}
			p.initState = newState()
		}
	}()
	written := p.writtenOutsideInit()
	st := newState()
	for sp := range p.analysed {
		if g, ok := sp.Members["init$guard"].(*ssa.Global); ok {
			a := mk("globaladdr", g.RelString(nil), g.Type())
			st.heap[a.Key()] = boolTerm(false)
			st.addr[a.Key()] = a
		}
	}
	ev := p.NewEval()
	ev.base = nil
	ev.inInit = true
	var order []*ssa.Package
	for sp := range p.analysed {
		order = append(order, sp)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].Pkg.Path() < order[j].Pkg.Path() })
	for _, sp := range order {
		initFn := sp.Func("init")
		if initFn == nil {
			continue
		}
		outs := ev.call(nil, initFn, nil, nil, st.clone(), token.NoPos)
		// executions that panic do not start the program
		var ok []*Outcome
		for _, o := range outs {
			if o.Kind == "ret" {
				ok = append(ok, o)
			}
		}
		if len(ok) == 0 {
			continue
		}
		// locations on which all outcomes agree
		first := ok[0].St
		p.initTrace = append(p.initTrace, first.trace...)
		for k, v := range first.heap {
			agree := true
			for _, o := range ok[1:] {
				if w, has := o.St.heap[k]; !has || !same(v, w) {
					agree = false
				}
			}
			if agree {
				st.heap[k] = v
				st.addr[k] = first.addr[k]
			}
		}
	}
	readOnly := map[string]bool{}
	for _, a := range st.addr {
		if a.Op == "globaladdr" && p.readOnlyMap(a.Name) {
			readOnly[st.heap[a.Key()].Key()] = true
		}
	}
	base := newState()
	p.written = written
	p.initObjs = map[string]bool{}
	for _, a := range st.addr {
		if r := rootOf(a); r.Op == "obj" {
			p.initObjs[r.Key()] = true
		}
	}
	for _, v := range st.heap {
		walk(v, func(y *Term) bool {
			if y.Op == "obj" {
				p.initObjs[y.Key()] = true
			}
			return true
		})
	}
	for k, v := range st.heap {
		a := st.addr[k]
		if a == nil || strings.Contains(k, "init$guard") {
			continue
		}
		r := rootOf(a)
		if a.Op == "mapcell" || a.Op == "mapver" {
			r = a.Args[0]
		}
		switch r.Op {
		case "globaladdr":
			if written["global "+r.Name] {
				continue
			}
		case "obj":
			hit := false
			for x := a; x.Op == "fieldaddr" || x.Op == "indexaddr"; x = x.Args[0] {
				if x.Op == "fieldaddr" && written["field "+fieldKey(x)] {
					hit = true
				}
			}
			if hit {
				base.heap[k] = mk("glob", k, v.Typ) // may have been changed since
				base.addr[k] = a
				continue
			}
			if a.Op == "mapcell" || a.Op == "mapver" {
				if written["map "+typeName(r.Typ)] && !readOnly[r.Key()] {
					continue
				}
			}
		default:
			continue
		}
		base.heap[k] = v
		base.addr[k] = a
	}
	p.initState = base
}

// readOnlyMap: outside initialisation the variable is only looked up, ranged over or measured.
func (p *Program) readOnlyMap(name string) bool {
	found := false
	for fn := range ssautil.AllFunctions(p.prog) {
		if q := pkgOf(fn); q == nil || !p.analysed[q] && fn.Parent() == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok {
					continue
				}
				g, ok := u.X.(*ssa.Global)
				if !ok || g.RelString(nil) != name || u.Op != token.MUL {
					continue
				}
				if _, isMap := u.Type().Underlying().(*types.Map); !isMap {
					return false
				}
				found = true
				for _, r := range *u.Referrers() {
					switch r := r.(type) {
					case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
					case *ssa.Call:
						if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
							return false
						}
					default:
						return false
					}
				}
			}
		}
	}
	return found
}

// fieldKey names the struct type and field of a field address.
func fieldKey(a *Term) string {
	return typeName(elemType(a.Args[0].Typ)) + "." + a.Name
}

// writtenOutsideInit lists the globals and fields of shared structures that are
// assigned by code other than package initialisation.
func (p *Program) writtenOutsideInit() map[string]bool {
	w := map[string]bool{}
	for fn := range ssautil.AllFunctions(p.prog) {
		if pkgOf(fn) == nil && fn.Parent() == nil {
			continue
		}
		top := fn
		for top.Parent() != nil {
			top = top.Parent()
		}
		if !p.analysed[pkgOf(top)] {
			continue
		}
		if isInit(top) && fn == top {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if localAddr(in.Addr) {
						continue
					}
					switch a := in.Addr.(type) {
					case *ssa.Global:
						w["global "+a.RelString(nil)] = true
					case *ssa.FieldAddr:
						f := elemType(a.X.Type()).Underlying().(*types.Struct).Field(a.Field)
						w["field "+typeName(elemType(a.X.Type()))+"."+f.Name()] = true
						if g, ok := a.X.(*ssa.Global); ok {
							w["global "+g.RelString(nil)] = true
						}
					}
				case *ssa.MapUpdate:
					if _, ok := in.Map.(*ssa.MakeMap); !ok {
						w["map "+typeName(in.Map.Type())] = true
					}
				}
				// an exported variable, or one whose address is taken, can change anywhere
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr:
					case *ssa.Store:
						if x.Val == ssa.Value(g) {
							w["global "+g.RelString(nil)] = true
						}
					default:
						w["global "+g.RelString(nil)] = true
					}
				}
			}
		}
	}
	for sp := range p.analysed {
		for name, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && ast.IsExported(name) {
				w["global "+g.RelString(nil)] = true
			}
		}
	}
	return w
}

// ---- lookup --------------------------------------------------------------------------

func (p *Program) fn(name string) *ssa.Function { return p.root.Func(name) }

func (p *Program) method(typ, name string) *ssa.Function {
	return p.methodIn(p.root, typ, name)
}

func (p *Program) methodIn(pkg *ssa.Package, typ, name string) *ssa.Function {
	m := pkg.Type(typ)
	if m == nil {
		return nil
	}
	for _, t := range []types.Type{types.NewPointer(m.Type()), m.Type()} {
		if f := p.prog.LookupMethod(t, pkg.Pkg, name); f != nil {
			// prefer the declared body over the builder's wrapper
			if f.Synthetic != "" {
				if d := p.prog.LookupMethod(m.Type(), pkg.Pkg, name); d != nil && d.Synthetic == "" {
					return d
				}
			}
			return f
		}
	}
	return nil
}

func (p *Program) namedType(name string) types.Type {
	m := p.root.Type(name)
	if m == nil {
		return nil
	}
	return m.Type()
}

// sourceFuncs lists every function with a body in the analysed packages.
func (p *Program) sourceFuncs() []*ssa.Function {
	var fs []*ssa.Function
	for fn := range ssautil.AllFunctions(p.prog) {
		top := fn
		for top.Parent() != nil {
			top = top.Parent()
		}
		if top.Pkg != nil && p.analysed[top.Pkg] && len(fn.Blocks) > 0 && fn.Synthetic == "" {
			fs = append(fs, fn)
		}
	}
	sort.Slice(fs, func(i, j int) bool {
		if a, b := p.posKey(fs[i].Pos()), p.posKey(fs[j].Pos()); a != b {
			return a < b
		}
		return fs[i].String() < fs[j].String()
	})
	return fs
}
