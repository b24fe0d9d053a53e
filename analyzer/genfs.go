package main

import (
	"go/types"
	"path"
	"slices"
	"sort"
	"strings"
)

// The part of the file system model that goes beyond reading and writing whole files:
// open files, directories, renaming.

type openFile struct {
	name    string
	off     int
	app     bool
	unknown bool
}

// handle is the open file a value stands for.
func handle(v any) *openFile {
	if i, ok := v.(piface); ok {
		v = i.v
	}
	if x, ok := v.(*pextern); ok {
		if f, ok := x.data.(*openFile); ok {
			return f
		}
	}
	return nil
}

type bufWriter struct {
	file *openFile
	text []any
}

func buffered(v any) *bufWriter {
	if i, ok := v.(piface); ok {
		v = i.v
	}
	if x, ok := v.(*pextern); ok {
		if b, ok := x.data.(*bufWriter); ok {
			return b
		}
	}
	return nil
}

// writeFile appends to an open file.
func (g *genWorld) writeFile(f *openFile, v any) {
	s, known := v.(string)
	if !known {
		s, known = bytesOf(v)
	}
	if !known || f.unknown {
		f.unknown = true
		g.unknown[f.name] = v
		return
	}
	old := g.files[f.name]
	if f.app {
		f.off = len(old)
	}
	text := old[:f.off] + s
	if len(old) > len(text) {
		text += old[len(text):]
	}
	f.off += len(s)
	g.put(f.name, text)
}

func (g *genWorld) put(n, s string) {
	g.files[n], g.written[n] = s, s
	delete(g.gone, n)
	if len(g.order) == 0 || g.order[len(g.order)-1] != n {
		g.order = append(g.order, n)
	}
}

func (g *genWorld) has(n string) bool {
	if _, ok := g.files[n]; ok {
		return true
	}
	_, ok := g.dirs[path.Dir(n)][path.Base(n)]
	return ok && !g.gone[n]
}

// names are the files in a directory.
func (g *genWorld) names(dir string) []string {
	var ns []string
	for n := range g.dirs[dir] {
		if !g.gone[dir+"/"+n] {
			ns = append(ns, n)
		}
	}
	for n := range g.files {
		if path.Dir(n) == dir && !slices.Contains(ns, path.Base(n)) {
			ns = append(ns, path.Base(n))
		}
	}
	sort.Strings(ns)
	return ns
}

func (g *genWorld) remove(n string) {
	g.removed = append(g.removed, n)
	delete(g.files, n)
	g.gone[n] = true
}

func (g *genWorld) moreFiles() {
	m := g.pe.models
	g.pe.toFile = g.writeFile
	ok := func(rs ...any) ([]any, bool) { return rs, true }
	failed := func(c *pcall) any { return g.injectedError(c.name) }
	event := func(c *pcall) { g.pe.event(c.fr, c.name, c.args, c.pos, nil) }
	open := func(c *pcall, n string, trunc, create bool, app bool) ([]any, bool) {
		event(c)
		if !create && !g.has(n) {
			return ok(pnil{}, g.notExist(n))
		}
		g.effect(c, n)
		if g.fail(c.name + " " + n) {
			return ok(pnil{}, failed(c))
		}
		if trunc || !g.has(n) {
			g.put(n, "")
		}
		return ok(&pextern{kind: "file", name: n, data: &openFile{name: n, app: app}}, pnil{})
	}
	m["os.Create"] = func(pe *PE, c *pcall) ([]any, bool) { return open(c, pstr(pe, c.args[0]), true, true, false) }
	m["os.OpenFile"] = func(pe *PE, c *pcall) ([]any, bool) {
		n := pstr(pe, c.args[0])
		fl, known := c.args[1].(int64)
		if !known {
			pe.undecided("flags of os.OpenFile")
		}
		if fl&3 == 0 { // O_RDONLY
			return nil, false
		}
		return open(c, n, fl&0x200 != 0, fl&0x40 != 0, fl&0x400 != 0)
	}
	temp := func(pe *PE, c *pcall) ([]any, bool) {
		dir, pat := pstr(pe, c.args[0]), pstr(pe, c.args[1])
		if dir == "" {
			dir = "/tmp"
		}
		if strings.Contains(pat, "*") {
			pat = strings.Replace(pat, "*", "qztemp", 1)
		} else {
			pat += "qztemp"
		}
		return open(c, dir+"/"+pat, true, true, false)
	}
	m["os.CreateTemp"], m["io/ioutil.TempFile"] = temp, temp
	write := func(pe *PE, c *pcall) ([]any, bool) {
		f := handle(c.args[0])
		if f == nil {
			return nil, false
		}
		event(c)
		if g.fail("writing " + f.name) {
			return ok(int64(0), failed(c))
		}
		g.writeFile(f, c.args[1])
		n := any(unk("written", types.Typ[types.Int], c.args[1]))
		if s, known := c.args[1].(string); known {
			n = int64(len(s))
		} else if s, known := bytesOf(c.args[1]); known {
			n = int64(len(s))
		}
		return ok(n, pnil{})
	}
	m["(*os.File).Write"], m["(*os.File).WriteString"], m["io.WriteString"] = write, write, write
	m["(*os.File).Name"] = func(pe *PE, c *pcall) ([]any, bool) {
		if f := handle(c.args[0]); f != nil {
			return ok(f.name)
		}
		return nil, false
	}
	nop := func(pe *PE, c *pcall) ([]any, bool) {
		if handle(c.args[0]) == nil {
			return nil, false
		}
		return ok(pnil{})
	}
	m["(*os.File).Close"], m["(*os.File).Sync"], m["(*os.File).Chmod"] = nop, nop, nop
	m["os.Rename"] = func(pe *PE, c *pcall) ([]any, bool) {
		a, b := pstr(pe, c.args[0]), pstr(pe, c.args[1])
		event(c)
		g.effect(c, a)
		g.effect(c, b)
		if g.fail(c.name + " " + b) {
			return ok(failed(c))
		}
		if !g.has(a) {
			return ok(g.notExist(a))
		}
		if v, is := g.unknown[a]; is {
			delete(g.unknown, a)
			g.unknown[b] = v
		}
		s := g.list(path.Dir(a))[path.Base(a)]
		if t, is := g.files[a]; is {
			s = t
		}
		g.remove(a)
		delete(g.written, a)
		g.put(b, s)
		return ok(pnil{})
	}
	m["os.RemoveAll"] = func(pe *PE, c *pcall) ([]any, bool) {
		n := pstr(pe, c.args[0])
		event(c)
		g.effect(c, n)
		for f := range g.files {
			if f == n || strings.HasPrefix(f, n+"/") {
				g.remove(f)
			}
		}
		for d, fs := range g.dirs {
			for f := range fs {
				if p := d + "/" + f; p == n || strings.HasPrefix(p, n+"/") {
					g.gone[p] = true
				}
			}
		}
		return ok(pnil{})
	}
	for _, n := range []string{"os.Chmod", "os.Truncate", "os.Chtimes", "os.Chown"} {
		m[n] = func(pe *PE, c *pcall) ([]any, bool) {
			event(c)
			g.effect(c, pstr(pe, c.args[0]))
			if strings.HasSuffix(c.name, "Truncate") {
				pe.undecided("os.Truncate")
			}
			return ok(pnil{})
		}
	}
	for _, n := range []string{"os.Link", "os.Symlink"} {
		m[n] = func(pe *PE, c *pcall) ([]any, bool) {
			event(c)
			g.effect(c, pstr(pe, c.args[1]))
			pe.undecided("%s", c.name)
			return nil, false
		}
	}
	m["path/filepath.Glob"] = func(pe *PE, c *pcall) ([]any, bool) {
		p := pstr(pe, c.args[0])
		if strings.ContainsAny(path.Dir(p), "*?[") {
			pe.undecided("pattern %s", p)
		}
		var r []string
		for _, n := range g.names(path.Dir(p)) {
			if m, err := path.Match(path.Base(p), n); err == nil && m {
				r = append(r, path.Dir(p)+"/"+n)
			}
		}
		if r == nil {
			return ok(pnil{}, pnil{})
		}
		return ok(pstrs(r), pnil{})
	}
	m["os.ReadDir"] = func(pe *PE, c *pcall) ([]any, bool) {
		dir := pstr(pe, c.args[0])
		ns := g.names(dir)
		if len(ns) == 0 {
			return ok(pnil{}, g.notExist(dir))
		}
		if g.fail("os.ReadDir " + dir) {
			return ok(pnil{}, failed(c))
		}
		var e []*pcell
		for _, n := range ns {
			e = append(e, &pcell{fileInfo(n)})
		}
		return ok(pslice{e}, pnil{})
	}
	m["bufio.NewWriter"] = func(pe *PE, c *pcall) ([]any, bool) {
		f := handle(c.args[0])
		if f == nil {
			return nil, false
		}
		return ok(&pextern{kind: "bufio", name: f.name, data: &bufWriter{file: f}})
	}
	m["bufio.NewWriterSize"] = m["bufio.NewWriter"]
	flush := func(pe *PE, c *pcall) ([]any, bool) {
		b := buffered(c.args[0])
		if b == nil {
			return nil, false
		}
		event(c)
		if g.fail("writing " + b.file.name) {
			return ok(failed(c))
		}
		for _, v := range b.text {
			g.writeFile(b.file, v)
		}
		b.text = nil
		return ok(pnil{})
	}
	m["(*bufio.Writer).Flush"] = flush
	put := func(pe *PE, c *pcall) ([]any, bool) {
		b := buffered(c.args[0])
		if b == nil {
			return nil, false
		}
		b.text = append(b.text, c.args[1])
		return ok(unk("written", types.Typ[types.Int], c.args[1]), pnil{})
	}
	m["(*bufio.Writer).Write"], m["(*bufio.Writer).WriteString"] = put, put
	// the functions that resolve types and render the outputs
	for _, n := range []string{"Read", "RenderTypeScriptServices", "renderTypescriptStructsToPackages", "RenderGoTSRPCProxies", "RenderGoTSRPCClients", "RenderGoRPCProxies", "RenderGoRPCClients"} {
		f := g.pe.P.peFn(n)
		if f == nil {
			continue
		}
		res := f.Signature.Results()
		if res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
			continue
		}
		m[fnName(f)] = func(pe *PE, c *pcall) ([]any, bool) {
			if !g.fail(n) {
				return nil, false
			}
			var rs []any
			for i := 0; i < res.Len()-1; i++ {
				rs = append(rs, pzero(res.At(i).Type()))
			}
			return append(rs, g.injectedError(n)), true
		}
	}
}
