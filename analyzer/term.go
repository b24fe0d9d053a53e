package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a Herbrand term of the abstract value domain. Two values with the
// same key are known to be equal; nothing is known about terms with different
// keys unless both are constants.
type Term struct {
	Op   string
	Name string
	Args []*Term
	Typ  types.Type
	Fn   *ssa.Function  // closure / func
	CV   constant.Value // const
	Alts []*Alt         // star / fold / any
	key  string
}

// Alt is one alternative of one abstract loop iteration.
type Alt struct {
	Cond  *Form
	Items []*Term // appended pieces (star) or next value (fold)
	Trace []*Event
}

func (t *Term) Key() string {
	if t == nil {
		return "<nil>"
	}
	if t.key == "" {
		var b strings.Builder
		b.WriteString(t.Op)
		if t.Name != "" {
			b.WriteByte(':')
			b.WriteString(t.Name)
		}
		if len(t.Args) > 0 || len(t.Alts) > 0 {
			b.WriteByte('(')
			for i, a := range t.Args {
				if i > 0 {
					b.WriteByte(',')
				}
				b.WriteString(a.Key())
			}
			for _, a := range t.Alts {
				b.WriteString(" |")
				b.WriteString(a.Cond.Key())
				b.WriteString("=>")
				for i, x := range a.Items {
					if i > 0 {
						b.WriteByte(',')
					}
					b.WriteString(x.Key())
				}
			}
			b.WriteByte(')')
		}
		t.key = b.String()
	}
	return t.key
}

func (t *Term) String() string { return t.Key() }

func mk(op, name string, typ types.Type, args ...*Term) *Term {
	return &Term{Op: op, Name: name, Typ: typ, Args: args}
}

func same(a, b *Term) bool { return a == b || (a != nil && b != nil && a.Key() == b.Key()) }

func contains(t *Term, sub string) bool { return strings.Contains(t.Key(), sub) }

// walk visits t and all subterms; f returns false to prune.
func walk(t *Term, f func(*Term) bool) {
	if t == nil || !f(t) {
		return
	}
	for _, a := range t.Args {
		walk(a, f)
	}
	for _, a := range t.Alts {
		a.Cond.walk(f)
		for _, x := range a.Items {
			walk(x, f)
		}
	}
}

// ---- constants -----------------------------------------------------------

func constTerm(v constant.Value, typ types.Type) *Term {
	if v == nil {
		// zero constant: nil or aggregate zero
		return zeroTerm(typ)
	}
	switch v.Kind() {
	case constant.String:
		return strTerm(constant.StringVal(v))
	case constant.Int:
		return &Term{Op: "const", Name: v.ExactString(), CV: v, Typ: typ}
	case constant.Bool:
		return boolTerm(constant.BoolVal(v))
	}
	return &Term{Op: "const", Name: v.ExactString(), CV: v, Typ: typ}
}

func strTerm(s string) *Term {
	return &Term{Op: "const", Name: strconv.Quote(s), CV: constant.MakeString(s), Typ: types.Typ[types.String]}
}

func intTerm(i int64) *Term {
	v := constant.MakeInt64(i)
	return &Term{Op: "const", Name: v.ExactString(), CV: v, Typ: types.Typ[types.Int]}
}

func boolTerm(b bool) *Term {
	return &Term{Op: "const", Name: strconv.FormatBool(b), CV: constant.MakeBool(b), Typ: types.Typ[types.Bool]}
}

var nilTerm = &Term{Op: "nil"}

func zeroTerm(typ types.Type) *Term {
	if typ == nil {
		return nilTerm
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return strTerm("")
		case u.Info()&types.IsBoolean != 0:
			return boolTerm(false)
		case u.Info()&types.IsInteger != 0:
			return &Term{Op: "const", Name: "0", CV: constant.MakeInt64(0), Typ: typ}
		case u.Info()&types.IsFloat != 0:
			return &Term{Op: "const", Name: "0", CV: constant.MakeFloat64(0), Typ: typ}
		}
		return nilTerm
	case *types.Struct, *types.Array:
		return &Term{Op: "zero", Name: typeName(typ), Typ: typ}
	}
	return &Term{Op: "nil", Typ: typ}
}

func typeName(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, nil)
}

func isConst(t *Term) bool { return t != nil && t.Op == "const" }
func isNil(t *Term) bool   { return t != nil && t.Op == "nil" }

func constStr(t *Term) (string, bool) {
	if isConst(t) && t.CV.Kind() == constant.String {
		return constant.StringVal(t.CV), true
	}
	return "", false
}

func constInt(t *Term) (int64, bool) {
	if isConst(t) && t.CV.Kind() == constant.Int {
		return constant.Int64Val(t.CV)
	}
	return 0, false
}

func constBool(t *Term) (bool, bool) {
	if isConst(t) && t.CV.Kind() == constant.Bool {
		return constant.BoolVal(t.CV), true
	}
	return false, false
}

// strip removes value-preserving wrappers (interface boxing, assertions).
func strip(t *Term) *Term {
	for t != nil && (t.Op == "iface" || t.Op == "as") {
		t = t.Args[0]
	}
	return t
}

// stripKey is the key of a term with all value-preserving wrappers removed everywhere.
func deepStrip(t *Term) *Term {
	return rewrite(t, func(x *Term) *Term { return strip(x) })
}

// rewrite applies f bottom-up.
func rewrite(t *Term, f func(*Term) *Term) *Term {
	if t == nil {
		return nil
	}
	n := *t
	n.key = ""
	changed := false
	if len(t.Args) > 0 {
		n.Args = make([]*Term, len(t.Args))
		for i, a := range t.Args {
			n.Args[i] = rewrite(a, f)
			changed = changed || n.Args[i] != a
		}
	}
	if len(t.Alts) > 0 {
		n.Alts = make([]*Alt, len(t.Alts))
		for i, a := range t.Alts {
			na := &Alt{Cond: a.Cond.rewrite(f), Trace: a.Trace}
			for _, x := range a.Items {
				na.Items = append(na.Items, rewrite(x, f))
			}
			n.Alts[i] = na
		}
		changed = true
	}
	if !changed {
		return f(t)
	}
	// re-normalise constructors with smart simplification
	r := &n
	switch t.Op {
	case "cat":
		r = mkCat(n.Args...)
	case "list":
		r = mkList(t.Typ, n.Args...)
	case "fld":
		r = mkFld(n.Args[0], t.Name, t.Typ)
	}
	return f(r)
}

func subst(t *Term, from string, to *Term) *Term {
	if t == nil || !contains(t, from) {
		return t
	}
	return rewrite(t, func(x *Term) *Term {
		if x.Key() == from {
			return to
		}
		return x
	})
}

// ---- smart constructors ----------------------------------------------------

func mkCat(parts ...*Term) *Term {
	var out []*Term
	var add func(p *Term)
	add = func(p *Term) {
		if p.Op == "cat" {
			for _, a := range p.Args {
				add(a)
			}
			return
		}
		if s, ok := constStr(p); ok {
			if s == "" {
				return
			}
			if n := len(out); n > 0 {
				if q, ok := constStr(out[n-1]); ok {
					out[n-1] = strTerm(q + s)
					return
				}
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		add(p)
	}
	switch len(out) {
	case 0:
		return strTerm("")
	case 1:
		return out[0]
	}
	return mk("cat", "", types.Typ[types.String], out...)
}

// mkList flattens spreads of known lists.
func mkList(typ types.Type, items ...*Term) *Term {
	var out []*Term
	for _, it := range items {
		if it.Op == "spread" {
			b := it.Args[0]
			if b.Op == "list" {
				out = append(out, b.Args...)
				continue
			}
			if isNil(b) || emptySlice(b) {
				continue
			}
		}
		out = append(out, it)
	}
	return mk("list", "", typ, out...)
}

func emptySlice(t *Term) bool {
	if t.Op != "slice" || !isConst(t.Args[1]) || !isConst(t.Args[2]) {
		return false
	}
	return same(t.Args[1], t.Args[2])
}

func mkFld(base *Term, name string, typ types.Type) *Term {
	b := base
	for b.Op == "deref" {
		b = b.Args[0]
	}
	switch b.Op {
	case "struct":
		for i := 1; i < len(b.Args); i++ {
			if b.Args[i].Op == "fv" && b.Args[i].Name == name {
				return b.Args[i].Args[0]
			}
		}
		if b.Args[0].Op == "zero" {
			return zeroTerm(typ)
		}
		return mkFld(b.Args[0], name, typ)
	case "zero":
		return zeroTerm(typ)
	}
	return mk("fld", name, typ, b)
}

func mkAdd(a, b *Term) *Term {
	x, okx := constInt(a)
	y, oky := constInt(b)
	if okx && oky {
		return intTerm(x + y)
	}
	if okx {
		a, b = b, a
		x, okx, y, oky = y, oky, x, okx
	}
	if oky {
		if y == 0 {
			return a
		}
		if a.Op == "add" {
			if z, ok := constInt(a.Args[1]); ok {
				return mkAdd(a.Args[0], intTerm(z+y))
			}
		}
		return mk("add", "", a.Typ, a, intTerm(y))
	}
	if b.Key() < a.Key() {
		a, b = b, a
	}
	return mk("add", "", a.Typ, a, b)
}

func mkLen(x *Term) *Term {
	if s, ok := constStr(x); ok {
		return intTerm(int64(len(s)))
	}
	switch x.Op {
	case "nil":
		return intTerm(0)
	case "makeslice":
		return x.Args[0]
	case "list":
		n := int64(0)
		for _, a := range x.Args {
			if a.Op == "star" || a.Op == "spread" {
				n = -1
				break
			}
			n++
		}
		if n >= 0 {
			return intTerm(n)
		}
		if len(x.Args) == 1 && x.Args[0].Op == "spread" {
			return mkLen(x.Args[0].Args[0])
		}
		// list with exactly one item per element of one collection
		if len(x.Args) == 1 && x.Args[0].Op == "star" {
			st := x.Args[0]
			if st.Name == "each" && allOne(st.Alts) {
				return mkLen(st.Args[0])
			}
		}
	case "sorted":
		return mkLen(x.Args[0])
	case "clone", "upd":
		return mkLen(x.Args[0])
	}
	return mk("len", "", types.Typ[types.Int], x)
}

func allOne(alts []*Alt) bool {
	for _, a := range alts {
		if len(a.Items) != 1 || a.Items[0].Op == "star" || a.Items[0].Op == "spread" {
			return false
		}
	}
	return len(alts) > 0
}

// ---- boolean formulas --------------------------------------------------------

// Form is a boolean formula over atoms (terms of boolean type).
type Form struct {
	Op   string // "true" "false" "atom" "not" "and" "or"
	Atom *Term
	Sub  []*Form
	key  string
}

var fTrue = &Form{Op: "true"}
var fFalse = &Form{Op: "false"}

func (f *Form) Key() string {
	if f == nil {
		return "true"
	}
	if f.key == "" {
		switch f.Op {
		case "true", "false":
			f.key = f.Op
		case "atom":
			f.key = f.Atom.Key()
		case "not":
			f.key = "!" + f.Sub[0].Key()
		default:
			ks := make([]string, len(f.Sub))
			for i, s := range f.Sub {
				ks[i] = s.Key()
			}
			sort.Strings(ks)
			f.key = f.Op + "[" + strings.Join(ks, " ") + "]"
		}
	}
	return f.key
}

func (f *Form) walk(g func(*Term) bool) {
	if f == nil {
		return
	}
	if f.Atom != nil {
		walk(f.Atom, g)
	}
	for _, s := range f.Sub {
		s.walk(g)
	}
}

// atoms calls g for every atom of the formula.
func (f *Form) atoms(g func(*Term)) {
	if f == nil {
		return
	}
	if f.Atom != nil {
		g(f.Atom)
	}
	for _, s := range f.Sub {
		s.atoms(g)
	}
}

func (f *Form) rewrite(g func(*Term) *Term) *Form {
	if f == nil {
		return nil
	}
	switch f.Op {
	case "true", "false":
		return f
	case "atom":
		return formOf(reAtom(rewrite(f.Atom, g)))
	case "not":
		return fNot(f.Sub[0].rewrite(g))
	}
	var sub []*Form
	for _, s := range f.Sub {
		sub = append(sub, s.rewrite(g))
	}
	if f.Op == "and" {
		return fAnd(sub...)
	}
	return fOr(sub...)
}

// reAtom re-simplifies an atom after substitution.
func reAtom(t *Term) *Term {
	switch t.Op {
	case "eq":
		return mkEq(t.Args[0], t.Args[1])
	case "lt":
		return mkLt(t.Args[0], t.Args[1])
	case "empty":
		return mkEmpty(t.Args[0])
	case "isnil":
		return mkIsNil(t.Args[0])
	}
	return t
}

func fNot(f *Form) *Form {
	switch f.Op {
	case "true":
		return fFalse
	case "false":
		return fTrue
	case "not":
		return f.Sub[0]
	}
	return &Form{Op: "not", Sub: []*Form{f}}
}

func fAnd(fs ...*Form) *Form { return fNary("and", fs) }
func fOr(fs ...*Form) *Form  { return fNary("or", fs) }

func fNary(op string, fs []*Form) *Form {
	unit, absorb := fTrue, fFalse
	if op == "or" {
		unit, absorb = fFalse, fTrue
	}
	seen := map[string]bool{}
	var out []*Form
	var add func(f *Form) bool
	add = func(f *Form) bool {
		if f.Op == absorb.Op {
			return false
		}
		if f.Op == unit.Op {
			return true
		}
		if f.Op == op {
			for _, s := range f.Sub {
				if !add(s) {
					return false
				}
			}
			return true
		}
		if seen[fNot(f).Key()] {
			return false
		}
		if !seen[f.Key()] {
			seen[f.Key()] = true
			out = append(out, f)
		}
		return true
	}
	for _, f := range fs {
		if !add(f) {
			return absorb
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return &Form{Op: op, Sub: out}
}

// formOf turns a boolean term into a formula.
func formOf(t *Term) *Form {
	if b, ok := constBool(t); ok {
		if b {
			return fTrue
		}
		return fFalse
	}
	if t.Op == "not" {
		return fNot(formOf(t.Args[0]))
	}
	return &Form{Op: "atom", Atom: t}
}

func mkNot(t *Term) *Term {
	if b, ok := constBool(t); ok {
		return boolTerm(!b)
	}
	if t.Op == "not" {
		return t.Args[0]
	}
	return mk("not", "", types.Typ[types.Bool], t)
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func mkEq(a, b *Term) *Term {
	if isConst(a) && isConst(b) {
		if a.CV.Kind() == b.CV.Kind() {
			return boolTerm(constant.Compare(a.CV, token.EQL, b.CV))
		}
	}
	if same(a, b) {
		return boolTerm(true)
	}
	if isNil(b) {
		return mkIsNil(a)
	}
	if isNil(a) {
		return mkIsNil(b)
	}
	if isConst(a) {
		a, b = b, a
	}
	if bv, ok := constBool(b); ok {
		if bv {
			return a
		}
		return mkNot(a)
	}
	if n, ok := constInt(b); ok {
		if a.Op == "len" {
			if n == 0 {
				return mkEmpty(a.Args[0])
			}
			if n < 0 {
				return boolTerm(false)
			}
		}
		if a.Op == "add" {
			if z, ok := constInt(a.Args[1]); ok {
				return mkEq(a.Args[0], intTerm(n-z))
			}
		}
		if a.Op == "call" && a.Name == "strings.Compare" && n == 0 {
			return mkEq(a.Args[0], a.Args[1])
		}
		if a.Op == "idx" && n < 0 {
			return boolTerm(false)
		}
	}
	if s, ok := constStr(b); ok && s == "" {
		return mkEmpty(a)
	}
	if !isConst(b) && b.Key() < a.Key() {
		a, b = b, a
	}
	return mk("eq", "", types.Typ[types.Bool], a, b)
}

func mkEmpty(x *Term) *Term {
	switch x.Op {
	case "nil":
		return boolTerm(true)
	case "const":
		if s, ok := constStr(x); ok {
			return boolTerm(s == "")
		}
	case "cat":
		for _, a := range x.Args {
			if s, ok := constStr(a); ok && s != "" {
				return boolTerm(false)
			}
		}
	case "list":
		fixed := false
		for _, a := range x.Args {
			if a.Op != "star" && a.Op != "spread" {
				fixed = true
			}
		}
		if fixed {
			return boolTerm(false)
		}
		if len(x.Args) == 0 {
			return boolTerm(true)
		}
		if len(x.Args) == 1 && x.Args[0].Op == "spread" {
			return mkEmpty(x.Args[0].Args[0])
		}
		if l := mkLen(x); l.Op == "len" && l.Args[0] != x {
			return mkEmpty(l.Args[0])
		}
	case "makeslice":
		return mkEq(x.Args[0], intTerm(0))
	case "sorted", "clone", "upd":
		return mkEmpty(x.Args[0])
	case "call":
		if x.Name == "(net/http.Header).Clone" {
			return mkEmpty(x.Args[0])
		}
	case "str":
		return boolTerm(false)
	}
	return mk("empty", "", types.Typ[types.Bool], x)
}

func mkLt(a, b *Term) *Term {
	if isConst(a) && isConst(b) && a.CV.Kind() == b.CV.Kind() && a.CV.Kind() != constant.Bool {
		return boolTerm(constant.Compare(a.CV, token.LSS, b.CV))
	}
	if same(a, b) {
		return boolTerm(false)
	}
	nonneg := func(t *Term) bool { return t.Op == "len" || t.Op == "idx" }
	if n, ok := constInt(a); ok {
		if b.Op == "add" {
			if z, ok := constInt(b.Args[1]); ok {
				return mkLt(intTerm(n-z), b.Args[0])
			}
		}
		if nonneg(b) {
			if n < 0 {
				return boolTerm(true)
			}
			if n == 0 {
				return mkNot(mkEq(b, intTerm(0)))
			}
		}
	}
	if n, ok := constInt(b); ok {
		if a.Op == "add" {
			if z, ok := constInt(a.Args[1]); ok {
				return mkLt(a.Args[0], intTerm(n-z))
			}
		}
		if nonneg(a) {
			if n <= 0 {
				return boolTerm(false)
			}
			if n == 1 {
				return mkEq(a, intTerm(0))
			}
		}
		// canonical: t < n  ==  !(n-1 < t)
		return mkNot(mkLt(intTerm(n-1), a))
	}
	// idx(coll) < len(coll)
	if a.Op == "idx" && b.Op == "len" && same(a.Args[0], b.Args[0]) {
		return boolTerm(true)
	}
	if a.Op == "idx" && same(a.Args[0], mk("count", "", nil, b)) {
		return boolTerm(true)
	}
	return mk("lt", "", types.Typ[types.Bool], a, b)
}

func mkIsNil(x *Term) *Term {
	switch x.Op {
	case "nil":
		return boolTerm(true)
	case "obj", "iface", "closure", "func", "const", "fieldaddr", "globaladdr", "indexaddr", "makeslice", "makemap", "struct", "zero":
		return boolTerm(false)
	case "list":
		for _, a := range x.Args {
			if a.Op != "star" && a.Op != "spread" {
				return boolTerm(false)
			}
		}
	case "call":
		switch x.Name {
		case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf", "reflect.TypeOf",
			"bytes.NewBuffer", "bytes.NewReader", "strings.NewReader", "bytes.NewBufferString":
			if x.Name != "reflect.TypeOf" {
				return boolTerm(false)
			}
		case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithStack",
			"github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessagef", "slices.Clone", "(net/http.Header).Clone":
			return mkIsNil(x.Args[0])
		}
		if strings.HasPrefix(x.Name, "github.com/ugorji/go/codec.New") {
			return boolTerm(false)
		}
	case "as":
		if x.Typ == nil || types.IsInterface(x.Typ) {
			return mkIsNil(x.Args[0])
		}
	}
	return mk("isnil", "", types.Typ[types.Bool], x)
}

func mkIs(x *Term, t types.Type) *Term {
	x0 := x
	for x0.Op == "as" {
		x0 = x0.Args[0]
	}
	if isNil(x0) {
		return boolTerm(false)
	}
	if x0.Op == "iface" {
		return boolTerm(dynIs(x0.Typ, t))
	}
	if x0.Op == "call" && !types.IsInterface(t) {
		switch x0.Name {
		case "errors.New", "errors.Join", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf",
			"github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessage",
			"github.com/pkg/errors.WithMessagef", "github.com/pkg/errors.WithStack":
			return boolTerm(false) // their types are not exported
		}
	}
	return &Term{Op: "is", Name: typeName(plainIface(t)), Args: []*Term{x0}, Typ: t}
}

// plainIface: an assertion to an unexported interface is the assertion to its method set.
func plainIface(t types.Type) types.Type {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && !n.Obj().Exported() && types.IsInterface(t) {
		return n.Underlying()
	}
	return t
}

// dynIs: does a value of dynamic type dyn satisfy an assertion to t?
func dynIs(dyn, t types.Type) bool {
	if it, ok := t.Underlying().(*types.Interface); ok {
		return types.Implements(dyn, it)
	}
	return types.Identical(dyn, t)
}

func mkStr(x *Term) *Term {
	if s, ok := constStr(x); ok {
		return strTerm(s)
	}
	if n, ok := constInt(x); ok {
		return strTerm(strconv.FormatInt(n, 10))
	}
	if isStringType(x.Typ) {
		return x
	}
	return mk("str", "", types.Typ[types.String], x)
}

func dbg(format string, a ...any) {
	if debugOn {
		fmt.Printf(format+"\n", a...)
	}
}

var debugOn bool
