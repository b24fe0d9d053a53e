package main

import (
	"fmt"
	"path"
	"sort"
	"strings"
	"unicode"
)

// A parser for the subset of TypeScript the generator emits: imports, exported
// classes, interfaces, type aliases, enums and constants. Text outside that subset
// is reported as unsupported (the rules are then undecided); text that no
// TypeScript parser would accept is a syntax error.

type tsTok struct {
	kind string // id num str punct eof
	text string
	nl   bool // preceded by a line break
	line int
}

type tsError struct {
	msg    string
	syntax bool
}

func tsLex(src string) []tsTok {
	var toks []tsTok
	rs := []rune(src)
	line, nl := 1, false
	add := func(k, t string) {
		toks = append(toks, tsTok{k, t, nl, line})
		nl = false
	}
	for i := 0; i < len(rs); {
		ch := rs[i]
		switch {
		case ch == '\n':
			line++
			nl = true
			i++
		case unicode.IsSpace(ch):
			i++
		case ch == '/' && i+1 < len(rs) && rs[i+1] == '/':
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
		case ch == '/' && i+1 < len(rs) && rs[i+1] == '*':
			j := i + 2
			for j+1 < len(rs) && !(rs[j] == '*' && rs[j+1] == '/') {
				if rs[j] == '\n' {
					line++
					nl = true
				}
				j++
			}
			if j+1 >= len(rs) {
				panic(tsError{fmt.Sprintf("line %d: comment is not terminated", line), true})
			}
			i = j + 2
		case unicode.IsLetter(ch) || ch == '_' || ch == '$':
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_' || rs[j] == '$') {
				j++
			}
			add("id", string(rs[i:j]))
			i = j
		case unicode.IsDigit(ch):
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_' || rs[j] == '.') {
				j++
			}
			add("num", string(rs[i:j]))
			i = j
		case ch == '"' || ch == '\'':
			j := i + 1
			for j < len(rs) && rs[j] != ch && rs[j] != '\n' {
				if rs[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(rs) || rs[j] != ch {
				panic(tsError{fmt.Sprintf("line %d: string is not terminated", line), true})
			}
			add("str", string(rs[i+1:j]))
			i = j + 1
		case ch == '.' && i+2 < len(rs) && rs[i+1] == '.' && rs[i+2] == '.':
			add("punct", "...")
			i += 3
		case ch == '=' && i+1 < len(rs) && rs[i+1] == '>':
			add("punct", "=>")
			i += 2
		case strings.ContainsRune("{}()[]<>:;,.?|&=-+", ch):
			add("punct", string(ch))
			i++
		default:
			panic(tsError{fmt.Sprintf("line %d: %q", line, ch), false})
		}
	}
	return append(toks, tsTok{kind: "eof", nl: true, line: line})
}

// tsT is a type.
type tsT struct {
	k      string // name app obj union fn lit index
	name   string
	args   []*tsT
	fields []tsField
}

type tsField struct {
	name     string
	optional bool
	t        *tsT
}

type tsE struct {
	op     string // id str num this member index call await arr obj spread
	name   string
	args   []*tsE
	targs  []*tsT
	fields []tsProp
}

type tsProp struct {
	name string
	e    *tsE // spread: name ""
}

type tsMethod struct {
	name   string
	async  bool
	params []tsField
	ret    *tsT
	body   []tsStmt
	line   int
}

type tsStmt struct {
	kind string // const return expr
	name string
	e    *tsE
}

type tsDecl struct {
	kind    string // class interface type enum const
	name    string
	line    int
	export  bool
	extends []*tsT
	fields  []tsField
	t       *tsT
	e       *tsE
	members [][2]string // enum: name, literal
	statics map[string]*tsE
	methods []*tsMethod
	ctor    []tsField
}

type tsFile struct {
	name    string
	imports map[string]string // alias -> file
	lines   map[string]int
	decls   []*tsDecl
}

type tsParser struct {
	toks []tsTok
	p    int
}

func (p *tsParser) tok() tsTok { return p.toks[p.p] }

func (p *tsParser) peek(n int) tsTok {
	if p.p+n < len(p.toks) {
		return p.toks[p.p+n]
	}
	return p.toks[len(p.toks)-1]
}

func (p *tsParser) is(text string) bool {
	t := p.tok()
	return (t.kind == "punct" || t.kind == "id") && t.text == text
}

func (p *tsParser) take(text string) bool {
	if p.is(text) {
		p.p++
		return true
	}
	return false
}

// tsKeywords start constructs the parser does not know.
var tsKeywords = map[string]bool{"keyof": true, "readonly": true, "infer": true, "is": true, "in": true, "instanceof": true, "new": true, "function": true, "if": true, "for": true,
	"while": true, "do": true, "try": true, "switch": true, "throw": true, "yield": true, "as": true, "satisfies": true, "extends": true, "implements": true, "declare": true, "namespace": true,
	"module": true, "abstract": true, "private": true, "protected": true, "get": true, "set": true, "=": true, "?": true, "-": true, "=>": true, "...": true, "delete": true, "void": true, "default": true}

func (p *tsParser) bad(want string) {
	t := p.tok()
	what := t.text
	if t.kind == "eof" {
		what = "end of file"
	}
	panic(tsError{fmt.Sprintf("line %d: %s where %s is expected", t.line, what, want), t.kind == "eof" || !tsKeywords[t.text]})
}

func (p *tsParser) want(text string) {
	if !p.take(text) {
		p.bad(text)
	}
}

func (p *tsParser) ident() string {
	t := p.tok()
	if t.kind != "id" {
		p.bad("a name")
	}
	p.p++
	return t.text
}

func (p *tsParser) str() string {
	t := p.tok()
	if t.kind != "str" {
		p.bad("a string")
	}
	p.p++
	return t.text
}

// end of a statement or member.
func (p *tsParser) end() {
	if p.take(";") || p.is("}") || p.tok().nl {
		return
	}
	p.bad("the end of the statement")
}

func (p *tsParser) typ() *tsT {
	p.take("|")
	t := p.intersection()
	if !p.is("|") {
		return t
	}
	u := &tsT{k: "union", args: []*tsT{t}}
	for p.take("|") {
		u.args = append(u.args, p.intersection())
	}
	return u
}

func (p *tsParser) intersection() *tsT {
	p.take("&")
	t := p.postfix()
	if !p.is("&") {
		return t
	}
	u := &tsT{k: "intersection", args: []*tsT{t}}
	for p.take("&") {
		u.args = append(u.args, p.postfix())
	}
	return u
}

func (p *tsParser) postfix() *tsT {
	t := p.primary()
	for p.is("[") && !p.tok().nl {
		p.p++
		if p.take("]") {
			t = &tsT{k: "app", name: "Array", args: []*tsT{t}}
			continue
		}
		ix := p.typ()
		p.want("]")
		t = &tsT{k: "index", args: []*tsT{t, ix}}
	}
	return t
}

func (p *tsParser) primary() *tsT {
	t := p.tok()
	switch {
	case t.kind == "str":
		p.p++
		return &tsT{k: "lit", name: "'" + t.text + "'"}
	case t.kind == "num":
		p.p++
		return &tsT{k: "lit", name: t.text}
	case p.is("{"):
		return &tsT{k: "obj", fields: p.members()}
	case p.is("<"): // generic function type
		p.p++
		for !p.take(">") {
			p.ident()
			p.take(",")
		}
		return p.fnType()
	case p.is("("):
		// a function type or a parenthesised type
		depth, i := 0, p.p
		for ; p.toks[i].kind != "eof"; i++ {
			if x := p.toks[i]; x.kind == "punct" && x.text == "(" {
				depth++
			} else if x.kind == "punct" && x.text == ")" {
				if depth--; depth == 0 {
					break
				}
			}
		}
		if i+1 < len(p.toks) && p.toks[i+1].kind == "punct" && p.toks[i+1].text == "=>" {
			return p.fnType()
		}
		p.p++
		x := p.typ()
		p.want(")")
		return x
	case t.kind == "id" && t.text == "typeof":
		p.p++
		return &tsT{k: "lit", name: "typeof " + p.qname()}
	case t.kind == "id" && !tsKeywords[t.text] || p.is("void"):
		n := p.qname()
		if p.is("<") {
			p.p++
			x := &tsT{k: "app", name: n}
			for {
				x.args = append(x.args, p.typ())
				if p.take(">") {
					return x
				}
				p.want(",")
			}
		}
		return &tsT{k: "name", name: n}
	}
	p.bad("a type")
	return nil
}

func (p *tsParser) fnType() *tsT {
	ps := p.params()
	p.want("=>")
	return &tsT{k: "fn", fields: ps, args: []*tsT{p.typ()}}
}

func (p *tsParser) qname() string {
	n := p.ident()
	for p.is(".") {
		p.p++
		n += "." + p.ident()
	}
	return n
}

func (p *tsParser) propName() string {
	t := p.tok()
	if t.kind != "id" && t.kind != "num" && t.kind != "str" {
		p.bad("a property name")
	}
	p.p++
	return t.text
}

func (p *tsParser) members() []tsField {
	p.want("{")
	var fs []tsField
	for !p.take("}") {
		if p.is("[") {
			panic(tsError{fmt.Sprintf("line %d: index signature", p.tok().line), false})
		}
		f := tsField{name: p.propName()}
		f.optional = p.take("?")
		p.want(":")
		f.t = p.typ()
		fs = append(fs, f)
		if !p.take(";") && !p.take(",") && !p.is("}") && !p.tok().nl {
			p.bad("; or }")
		}
	}
	return fs
}

func (p *tsParser) params() []tsField {
	p.want("(")
	var fs []tsField
	for !p.take(")") {
		for p.is("public") || p.is("private") || p.is("protected") || p.is("readonly") {
			p.p++
		}
		f := tsField{name: p.ident()}
		f.optional = p.take("?")
		if p.take(":") {
			f.t = p.typ()
		}
		if p.is("=") {
			panic(tsError{fmt.Sprintf("line %d: parameter default", p.tok().line), false})
		}
		fs = append(fs, f)
		if !p.take(",") && !p.is(")") {
			p.bad(", or )")
		}
	}
	return fs
}

func (p *tsParser) expr() *tsE {
	if p.is("await") {
		p.p++
		return &tsE{op: "await", args: []*tsE{p.expr()}}
	}
	return p.suffix(p.prim())
}

func (p *tsParser) prim() *tsE {
	t := p.tok()
	switch {
	case t.kind == "str":
		p.p++
		return &tsE{op: "str", name: t.text}
	case t.kind == "num":
		p.p++
		return &tsE{op: "num", name: t.text}
	case p.is("("):
		p.p++
		e := p.expr()
		p.want(")")
		return e
	case p.is("["):
		p.p++
		e := &tsE{op: "arr"}
		for !p.take("]") {
			if p.take("...") {
				e.args = append(e.args, &tsE{op: "spread", args: []*tsE{p.expr()}})
			} else {
				e.args = append(e.args, p.expr())
			}
			if !p.take(",") && !p.is("]") {
				p.bad(", or ]")
			}
		}
		return e
	case p.is("{"):
		p.p++
		e := &tsE{op: "obj"}
		for !p.take("}") {
			if p.take("...") {
				e.fields = append(e.fields, tsProp{"", p.expr()})
			} else {
				n := p.propName()
				if p.take(":") {
					e.fields = append(e.fields, tsProp{n, p.expr()})
				} else {
					e.fields = append(e.fields, tsProp{n, &tsE{op: "id", name: n}})
				}
			}
			if !p.take(",") && !p.is("}") {
				p.bad(", or }")
			}
		}
		return e
	case t.kind == "id" && t.text == "this":
		p.p++
		return &tsE{op: "this"}
	case t.kind == "id" && !tsKeywords[t.text]:
		p.p++
		return &tsE{op: "id", name: t.text}
	}
	p.bad("an expression")
	return nil
}

func (p *tsParser) suffix(e *tsE) *tsE {
	for {
		switch {
		case p.is("."):
			p.p++
			e = &tsE{op: "member", name: p.ident(), args: []*tsE{e}}
		case p.is("[") && !p.tok().nl:
			p.p++
			ix := p.expr()
			p.want("]")
			e = &tsE{op: "index", args: []*tsE{e, ix}}
		case p.is("<"):
			p.p++
			var ts []*tsT
			for {
				ts = append(ts, p.typ())
				if p.take(">") {
					break
				}
				p.want(",")
			}
			if !p.is("(") {
				p.bad("(")
			}
			e = p.call(e)
			e.targs = ts
		case p.is("(") && !p.tok().nl:
			e = p.call(e)
		default:
			return e
		}
	}
}

func (p *tsParser) call(f *tsE) *tsE {
	p.want("(")
	e := &tsE{op: "call", args: []*tsE{f}}
	for !p.take(")") {
		e.args = append(e.args, p.expr())
		if !p.take(",") && !p.is(")") {
			p.bad(", or )")
		}
	}
	return e
}

func (p *tsParser) block() []tsStmt {
	p.want("{")
	var res []tsStmt
	for !p.take("}") {
		switch {
		case p.take(";"):
			continue
		case p.is("const"), p.is("let"), p.is("var"):
			p.p++
			if p.is("{") || p.is("[") {
				panic(tsError{fmt.Sprintf("line %d: destructuring", p.tok().line), false})
			}
			n := p.ident()
			if p.take(":") {
				p.typ()
			}
			p.want("=")
			res = append(res, tsStmt{"const", n, p.expr()})
		case p.is("return"):
			p.p++
			s := tsStmt{kind: "return"}
			if !p.is(";") && !p.is("}") && !p.tok().nl {
				s.e = p.expr()
			}
			res = append(res, s)
		default:
			res = append(res, tsStmt{"expr", "", p.expr()})
		}
		p.end()
	}
	return res
}

func (p *tsParser) class(d *tsDecl) {
	d.statics = map[string]*tsE{}
	p.want("{")
	for !p.take("}") {
		if p.take(";") {
			continue
		}
		line := p.tok().line
		static, async := false, false
	mods:
		for {
			switch {
			case p.is("public"), p.is("readonly"):
				p.p++
			case p.is("static"):
				p.p++
				static = true
			case p.is("async") && p.peek(1).kind == "id":
				p.p++
				async = true
			default:
				break mods
			}
		}
		n := p.ident()
		if static {
			if p.take(":") {
				p.typ()
			}
			p.want("=")
			d.statics[n] = p.expr()
			p.end()
			continue
		}
		if !p.is("(") {
			if p.take(":") {
				p.typ()
			}
			if p.take("=") {
				p.expr()
			}
			p.end()
			continue
		}
		ps := p.params()
		if n == "constructor" {
			d.ctor = ps
			p.block()
			continue
		}
		m := &tsMethod{name: n, async: async, params: ps, line: line}
		if p.take(":") {
			m.ret = p.typ()
		}
		m.body = p.block()
		d.methods = append(d.methods, m)
	}
}

// parseTS parses a file of the output.
func parseTS(name, src string) (f *tsFile, err *tsError) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(tsError)
			if !ok {
				panic(r)
			}
			f, err = nil, &e
		}
	}()
	p := &tsParser{toks: tsLex(src)}
	f = &tsFile{name: name, imports: map[string]string{}, lines: map[string]int{}}
	for p.tok().kind != "eof" {
		if p.take(";") {
			continue
		}
		line := p.tok().line
		if p.is("import") {
			p.p++
			p.take("type")
			if !p.is("*") && p.tok().kind == "punct" {
				p.bad("*")
			}
			panic(tsError{fmt.Sprintf("line %d: import", line), false})
		}
		d := &tsDecl{line: line, export: p.take("export")}
		switch {
		case p.is("class"):
			p.p++
			d.kind, d.name = "class", p.ident()
			p.class(d)
		case p.is("interface"):
			p.p++
			d.kind, d.name = "interface", p.ident()
			if p.take("extends") {
				d.extends = append(d.extends, p.postfix())
				for p.take(",") {
					d.extends = append(d.extends, p.postfix())
				}
			}
			d.fields = p.members()
		case p.is("type") && p.peek(1).kind == "id":
			p.p++
			d.kind, d.name = "type", p.ident()
			p.want("=")
			d.t = p.typ()
			p.end()
		case p.is("enum"), p.is("const") && p.peek(1).text == "enum":
			p.take("const")
			p.p++
			d.kind, d.name = "enum", p.ident()
			p.want("{")
			for !p.take("}") {
				n := p.propName()
				v := ""
				if p.take("=") {
					neg := p.take("-")
					t := p.tok()
					if t.kind != "str" && t.kind != "num" {
						p.bad("a literal")
					}
					p.p++
					v = t.text
					if t.kind == "str" {
						v = "\"" + v + "\""
					}
					if neg {
						v = "-" + v
					}
				}
				d.members = append(d.members, [2]string{n, v})
				if !p.take(",") && !p.is("}") {
					p.bad(", or }")
				}
			}
		case p.is("const"):
			p.p++
			d.kind, d.name = "const", p.ident()
			if p.take(":") {
				p.typ()
			}
			p.want("=")
			d.e = p.expr()
			p.end()
		default:
			p.bad("a declaration")
		}
		f.decls = append(f.decls, d)
	}
	return f, nil
}

// parseTSFile parses a file with its imports, which are one per line.
func parseTSFile(name, src string) (*tsFile, *tsError) {
	imports, lines := map[string]string{}, map[string]int{}
	text := strings.Split(src, "\n")
	for i, l := range text {
		t := strings.TrimSpace(l)
		if !strings.HasPrefix(t, "import ") {
			continue
		}
		if j := strings.Index(t, "//"); j > 0 && !strings.Contains(t[:j], "://") {
			t = strings.TrimSpace(t[:j])
		}
		t = strings.TrimSuffix(t, ";")
		w := strings.Fields(t)
		if len(w) != 6 || w[1] != "*" || w[2] != "as" || w[4] != "from" {
			return nil, &tsError{fmt.Sprintf("line %d: %s", i+1, t), false}
		}
		q := w[5]
		if len(q) < 2 || q[0] != q[len(q)-1] || q[0] != '\'' && q[0] != '"' {
			return nil, &tsError{fmt.Sprintf("line %d: %s", i+1, t), true}
		}
		q = q[1 : len(q)-1]
		if _, dup := imports[w[3]]; dup {
			return nil, &tsError{fmt.Sprintf("line %d: %s is imported twice", i+1, w[3]), true}
		}
		if strings.HasPrefix(q, "./") || strings.HasPrefix(q, "../") {
			q = path.Join(path.Dir(name), q) + ".ts"
		}
		imports[w[3]], lines[w[3]] = q, i+1
		text[i] = ""
	}
	f, err := parseTS(name, strings.Join(text, "\n"))
	if err != nil {
		return nil, err
	}
	f.imports, f.lines = imports, lines
	return f, nil
}

func (f *tsFile) decl(kind, name string) *tsDecl {
	for _, d := range f.decls {
		if d.name == name && (kind == "" || d.kind == kind) {
			return d
		}
	}
	return nil
}

var tsBuiltin = map[string]bool{"string": true, "number": true, "boolean": true, "any": true, "null": true, "undefined": true, "void": true, "unknown": true, "never": true,
	"Array": true, "Record": true, "Partial": true, "Promise": true, "Date": true, "object": true}

// canon is the meaning of a type in a file: references become file.Name, unions
// are sets. Problems are references that cannot be resolved.
func (f *tsFile) canon(t *tsT, probs *[]string) string {
	prob := func(s string, a ...any) {
		if probs != nil {
			*probs = append(*probs, fmt.Sprintf(s, a...))
		}
	}
	if t == nil {
		return "any"
	}
	ref := func(n string) string {
		if tsBuiltin[n] {
			return n
		}
		i := strings.Index(n, ".")
		if i < 0 {
			if f.decl("", n) == nil {
				prob("%s is not declared", n)
			}
			return "<" + f.name + ">." + n
		}
		file, ok := f.imports[n[:i]]
		if !ok {
			prob("module %s is not imported", n[:i])
			return n
		}
		return "<" + file + ">" + n[i:]
	}
	switch t.k {
	case "name":
		return ref(t.name)
	case "app":
		var as []string
		for _, a := range t.args {
			as = append(as, f.canon(a, probs))
		}
		return ref(t.name) + "<" + strings.Join(as, ",") + ">"
	case "lit":
		if strings.HasPrefix(t.name, "typeof ") {
			return "typeof " + ref(t.name[7:])
		}
		return t.name
	case "obj":
		var fs []string
		for _, x := range t.fields {
			fs = append(fs, x.name+map[bool]string{true: "?"}[x.optional]+":"+f.canon(x.t, probs))
		}
		return "{" + strings.Join(fs, ";") + "}"
	case "union":
		return tsUnion(func() (us []string) {
			for _, a := range t.args {
				us = append(us, f.canon(a, probs))
			}
			return
		}()...)
	case "intersection":
		var us []string
		for _, a := range t.args {
			x := f.canon(a, probs)
			if len(tsAlternatives(x)) > 1 {
				x = "(" + x + ")"
			}
			us = append(us, x)
		}
		sort.Strings(us)
		return strings.Join(us, "&")
	case "fn":
		var ps []string
		for _, x := range t.fields {
			ps = append(ps, f.canon(x.t, nil))
		}
		return "(" + strings.Join(ps, ",") + ")=>" + f.canon(t.args[0], nil)
	case "index":
		return f.canon(t.args[0], probs) + "[" + f.canon(t.args[1], probs) + "]"
	}
	return "?"
}

// tsUnion is the canonical form of a union of canonical types.
func tsUnion(ts ...string) string {
	set := map[string]bool{}
	for _, t := range ts {
		for _, p := range tsAlternatives(t) {
			set[p] = true
		}
	}
	if set["any"] {
		return "any"
	}
	var us []string
	for u := range set {
		us = append(us, u)
	}
	sort.Strings(us)
	return strings.Join(us, "|")
}

// tsAlternatives splits a canonical type at its outermost bars.
func tsAlternatives(t string) []string {
	var res []string
	depth, from := 0, 0
	for i, ch := range t {
		switch ch {
		case '<', '{', '(', '[':
			depth++
		case '>', '}', ')', ']':
			if ch != '>' || i == 0 || t[i-1] != '=' {
				depth--
			}
		case '|':
			if depth == 0 {
				res = append(res, t[from:i])
				from = i + 1
			}
		}
	}
	return append(res, t[from:])
}
