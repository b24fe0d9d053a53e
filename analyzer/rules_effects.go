package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C04", 20, checkC04) }

// Effect analysis: on every path of a function on the request path, each write
// must go to memory the call owns. Memory is shared if it is rooted in a
// package-level variable, in an object created by package initialisation or by
// the construction of the client, or in a parameter that belongs to somebody else.

const (
	owned = iota
	maybeShared
	shared
)

type effects struct {
	c      *Check
	shared map[string]bool // parameters (by key) that belong to somebody else
	objs   map[string]bool // objects that outlive the call
}

func worst(a, b int) int { return max(a, b) }

// mem: who owns the memory a pointer, slice or map value refers to.
func (x *effects) mem(t *Term) int {
	switch t.Op {
	case "obj":
		if x.c.P.initObjs[t.Key()] || x.objs[t.Key()] {
			return shared
		}
		return owned
	case "glob", "globaladdr":
		return shared
	case "param":
		if x.shared[t.Key()] {
			return shared
		}
		return owned
	case "free":
		return maybeShared
	case "const", "nil", "zero", "list", "makeslice", "makemap", "clone", "sorted", "cat", "bytes", "str", "struct", "closure", "func", "cast", "add", "upd":
		return owned
	case "fieldaddr", "indexaddr", "slice", "as", "iface", "conv", "res", "spread":
		if t.Op == "res" && t.Args[0].Op == "call" {
			return x.call(t.Args[0])
		}
		return x.mem(t.Args[0])
	case "fld", "index", "elem", "key", "deref", "lookup", "mapcell", "fv":
		return x.content(t.Args[0])
	case "out":
		return owned
	case "call":
		return x.call(t)
	}
	w := owned
	for _, a := range t.Args {
		if x.mem(a) != owned {
			w = maybeShared
		}
	}
	for _, a := range t.Alts {
		for _, v := range a.Items {
			if x.mem(v) != owned {
				w = maybeShared
			}
		}
	}
	return w
}

// content: who owns what the elements of a value refer to.
func (x *effects) content(t *Term) int {
	switch t.Op {
	case "clone", "sorted", "spread", "list", "struct", "fv", "star":
		w := owned
		for _, a := range t.Args {
			w = worst(w, x.content(a))
		}
		if t.Op == "list" {
			for _, a := range t.Args {
				w = worst(w, x.mem(a))
			}
		}
		for _, a := range t.Alts {
			for _, v := range a.Items {
				w = worst(w, x.mem(v))
			}
		}
		return w
	}
	return x.mem(t)
}

var freshCalls = []string{
	"(net/http.Header).Clone", "net/http.NewRequest", "(*net/http.Client).Do", "(net/http.RoundTripper).", "(*net/http.Request).", "context.",
	"github.com/ugorji/go/codec.New", "bytes.NewReader", "strings.", "fmt.", "errors.", "github.com/pkg/errors.", "reflect.New", "reflect.Make", "time.",
	"maps.Clone", "slices.Concat", "(*sync.Pool).Get", "strconv.", "path.", "io.ReadAll", "net/url.", "(net/http.ResponseWriter).",
	"(*bytes.Buffer).", "encoding/json.Marshal",
}

func (x *effects) call(t *Term) int {
	for _, p := range freshCalls {
		if strings.HasPrefix(t.Name, p) {
			if t.Name == "(net/http.ResponseWriter).Header" || strings.HasPrefix(t.Name, "(*bytes.Buffer).") {
				return x.mem(t.Args[0])
			}
			return owned
		}
	}
	if strings.HasPrefix(t.Name, "reflect.") || strings.HasPrefix(t.Name, "(reflect.Value).") {
		if len(t.Args) > 0 {
			return x.mem(t.Args[0])
		}
		return owned
	}
	w := owned
	for _, a := range t.Args {
		if refers(a) && x.mem(a) != owned {
			w = maybeShared
		}
	}
	return w
}

// refers: the value can refer to memory.
func refers(t *Term) bool {
	if t.Op == "const" || t.Op == "nil" || t.Op == "func" || t.Op == "at" || t.Op == "occ" {
		return false
	}
	if t.Typ == nil {
		return true
	}
	switch t.Typ.Underlying().(type) {
	case *types.Basic, *types.Signature:
		return false
	}
	return true
}

// mutated: which arguments of a library call are written.
func mutated(name string) []int {
	has := func(ps ...string) bool {
		for _, p := range ps {
			if strings.HasPrefix(name, p) {
				return true
			}
		}
		return false
	}
	switch {
	case has("(net/http.Header).", "(net/textproto.MIMEHeader).", "(net/url.Values).", "(*bytes.Buffer).", "(*strings.Builder).", "(*net/http.Request).", "(*bufio."),
		has("(reflect.Value).Set", "(reflect.Value).Send", "reflect.Copy", "io.Copy", "io.WriteString", "fmt.Fprint", "maps.Copy", "maps.DeleteFunc",
			"slices.Sort", "slices.Reverse", "slices.Delete", "slices.Insert", "slices.Compact", "sort.", "(*math/rand.Rand).", "(io.Writer).", "(io.Reader).",
			"container/", "(*container/"),
		name == "copy", name == "clear", name == "append",
		strings.Contains(name, "codec.") && (strings.HasSuffix(name, "Ext") && strings.Contains(name, ").Set")),
		strings.Contains(name, ".Handle).") || strings.Contains(name, "codec.BasicHandle)."):
		return []int{0}
	case has("io.ReadFull", "io.ReadAtLeast"), strings.HasSuffix(name, "codec.Decoder).Decode"), strings.HasSuffix(name, "codec.Decoder).MustDecode"),
		has("encoding/json.Unmarshal", "github.com/mitchellh/mapstructure.Decode", "(*encoding/json.Decoder).Decode", "errors.As", "github.com/pkg/errors.As", "(*encoding/gob.Decoder).Decode"),
		has("(io.ReadCloser).Read", "(io.Reader).Read"):
		return []int{1}
	}
	return nil
}

// sharable: library calls that are documented to be safe on shared values.
func sharable(name string) bool {
	for _, p := range []string{
		"(*net/http.Client).", "(net/http.RoundTripper).", "(*net/http.Transport).", "net/http.NewRequest", "github.com/ugorji/go/codec.New",
		"(*github.com/ugorji/go/codec.Encoder).Encode", "(*sync.", "(*sync/atomic.", "sync/atomic.", "dynamic", "io.ReadAll", "time.", "(*time.", "os.", "(*os.File)",
		"(*github.com/prometheus/client_golang/prometheus.", "(github.com/prometheus/client_golang/prometheus.", "github.com/prometheus/client_golang/prometheus.",
		"(net/http.ResponseWriter).", "net/http.Error", "(error).", "(fmt.State).", "(io.ReadCloser).Close", "(io.Closer).Close", "log.", "(*log.Logger).",
		"encoding/json.Marshal", "(context.Context).",
		"(*github.com/valyala/gorpc.Client).", "(*" + acme + "/", "(" + acme + "/", "(*" + modPath + ".", "(" + modPath + ".",
	} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return strings.HasSuffix(name, ").ErrorCode") || strings.HasSuffix(name, ").StackTrace") || strings.HasSuffix(name, ").Unwrap") || strings.HasSuffix(name, ").Cause")
}

func (x *effects) target(t *Term) string {
	r := t
	for len(r.Args) > 0 && (r.Op == "fieldaddr" || r.Op == "indexaddr" || r.Op == "slice" || r.Op == "iface" || r.Op == "as") {
		r = r.Args[0]
	}
	return short(r)
}

// check decides the writes of a path.
func (x *effects) check(construct string, evs []flatEv, rets []*Term) {
	c := x.c
	locked := 0
	write := func(e flatEv, t *Term, what string) {
		if t.Op == "glob" && t.Name == "io.Discard" {
			return // keeps nothing
		}
		o := x.mem(t)
		if o == shared && locked > 0 {
			o = maybeShared
		}
		switch o {
		case shared:
			c.fail("writes-owned-memory", construct, e.Pos, "%s of %s, which concurrent calls share", what, x.target(t))
		case maybeShared:
			c.undecided("writes-owned-memory", construct, e.Pos, "%s of %s, which concurrent calls may share", what, x.target(t))
		}
	}
	put := map[string]flatEv{}
	for _, e := range evs {
		for k, p := range put {
			if e.Seq > p.Seq && e.Callee != "(*sync.Pool).Put" && refersTo(e.Event, strip(p.Args[1])) || e.Seq > p.Seq && touches(e.Event, k) {
				c.fail("pooled-not-used-after-return", construct, e.Pos, "%s uses an object that was returned to its pool at %s", e.Callee, c.P.posLine(p.Pos))
			}
		}
		switch e.Kind {
		case "store":
			write(e, rootOf(e.Args[0]), "write to "+fieldNameOf(e.Args[0]))
		case "mapset", "mapdelete":
			write(e, e.Args[0], "map write")
		case "append":
			if e.Args[0].Op == "slice" {
				write(e, e.Args[0], "append in place to a part")
			} else if x.mem(e.Args[0]) == shared {
				c.undecided("writes-owned-memory", construct, e.Pos, "append to %s, which concurrent calls share", short(e.Args[0]))
			}
		case "sort":
			write(e, e.Args[0], "sorting")
		case "go", "send":
			c.undecided("writes-owned-memory", construct, e.Pos, "the call starts another goroutine")
		case "call":
			switch {
			case isCallTo(e.Event, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock"):
				locked++
				continue
			case isCallTo(e.Event, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock"):
				locked--
				continue
			case e.Callee == "(*sync.Pool).Put":
				put[strip(e.Args[1]).Key()] = e
				for _, r := range rets {
					if aliases(r, strip(e.Args[1])) {
						c.fail("pooled-not-used-after-return", construct, e.Pos, "the result refers to an object that is returned to its pool")
					}
				}
				for _, p := range evs {
					if p.Kind == "call" && p.Seq < e.Seq && strings.HasPrefix(p.Callee, "net/http.NewRequest") && touches(p.Event, strip(e.Args[1]).Key()) {
						c.fail("pooled-not-used-after-return", construct, e.Pos, "the body of a request is returned to its pool while the transport may still read it")
					}
				}
				continue
			}
			if isCallTo(e.Event, encodeNames...) || isCallTo(e.Event, decodeNames...) {
				// writes to (reads from) what the encoder (decoder) was created for
				if n := strip(e.Args[0]); n.Op == "call" && len(n.Args) > 0 {
					write(e, strip(n.Args[0]), trimCallee(e.Callee)+" changes the state")
				}
			}
			muts := mutated(e.Callee)
			if muts != nil && !strings.HasPrefix(e.Callee, "(net/http.Header).Get") {
				for _, i := range muts {
					if i < len(e.Args) {
						write(e, strip(e.Args[i]), trimCallee(e.Callee)+" writes")
					}
				}
				continue
			}
			if sharable(e.Callee) {
				continue
			}
			for _, a := range e.Args {
				if refers(a) && x.mem(strip(a)) == shared {
					c.undecided("writes-owned-memory", construct, e.Pos, "%s is handed %s", e.Callee, short(a))
				}
			}
		}
	}
	c.ok("writes-owned-memory", construct, 0)
}

// refersTo: an argument of the event refers to the object.
func refersTo(e *Event, obj *Term) bool {
	for _, a := range e.Args {
		if aliases(a, obj) {
			return true
		}
	}
	return false
}

// aliases: the value refers to (not merely was computed from) the object.
func aliases(t, obj *Term) bool {
	if same(t, obj) {
		return true
	}
	switch t.Op {
	case "str", "content", "len", "const":
		return false
	case "call":
		if t.Name != "(*bytes.Buffer).Bytes" {
			return false
		}
	}
	for _, a := range t.Args {
		if aliases(a, obj) {
			return true
		}
	}
	return false
}

// outlives collects the objects of a state that exist before a call.
func outlives(st *State, roots ...*Term) map[string]bool {
	res := map[string]bool{}
	add := func(t *Term) {
		walk(t, func(y *Term) bool {
			if y.Op == "obj" {
				res[y.Key()] = true
			}
			return true
		})
	}
	for _, r := range roots {
		add(r)
	}
	for _, v := range st.heap {
		add(v)
	}
	for _, a := range st.addr {
		add(a)
	}
	return res
}

func checkC04(c *Check) {
	c.effects = true
	old := c.P.sharedObjs
	defer func() { c.effects = false; c.P.sharedObjs = old }()
	c.section("client call", c.c04Client)
	c.section("instrumentation", c.c04Handlers)
	entry := func(f *ssa.Function, names []string, own ...string) {
		if f == nil || len(f.Blocks) == 0 {
			return
		}
		c.section(fnName(f), func() {
			if len(names) < len(f.Params) {
				for i := len(names); i < len(f.Params); i++ {
					names = append(names, f.Params[i].Name())
				}
			}
			x := &effects{c: c, shared: map[string]bool{}}
			var args []*Term
			for i, p := range f.Params {
				a := paramT(names[i], p.Type())
				args = append(args, a)
				x.shared[a.Key()] = true
			}
			for _, n := range own {
				delete(x.shared, mk("param", n, nil).Key())
			}
			for _, o := range c.rootWith(f, args, nil, nil) {
				x.check(fnName(f), flatten(o.St.trace), o.Rets)
			}
		})
	}
	root := func(n string) *ssa.Function { return c.P.fn(n) }
	entry(root("LoadArgs"), []string{"args", "stats", "r"}, "args", "stats", "r")
	entry(root("Reply"), []string{"response", "stats", "r", "w"}, "stats", "r", "w")
	for _, n := range []string{"ErrorFuncNotFound", "ErrorCouldNotReply", "ErrorCouldNotLoadArgs", "ErrorMethodNotAllowed"} {
		entry(root(n), []string{"w"}, "w")
	}
	entry(root("GetCalledFunc"), []string{"r", "endpoint"})
	entry(root("RequestWithStatsContext"), []string{"r"})
	entry(root("GetStatsForRequest"), []string{"r"})
	entry(root("ClearStats"), []string{"r"}, "r")
	entry(root("NewError"), []string{"err"})
	entry(root("NewHTTPError"), []string{"msg", "code"})
	entry(root("NewClientError"), []string{"err"})
	entry(root("NewMSGPackEncoderBytes"), []string{"b"}, "b")
	entry(root("NewMSGPackDecoderBytes"), []string{"b"}, "b")
	entry(root("NoopMonitor"), nil)
	for _, n := range c.P.root.Pkg.Scope().Names() {
		tn, ok := c.P.root.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
			continue
		}
		pt := types.NewPointer(tn.Type())
		get := func(name string) *ssa.Function { return c.P.methodOf(pt, c.P.root.Pkg, name) }
		if types.Implements(pt, errIface.Underlying().(*types.Interface)) {
			for _, m := range []string{"Error", "Unwrap", "Cause", "StackTrace"} {
				entry(get(m), []string{"e"})
			}
			entry(get("Is"), []string{"e", "err"})
			entry(get("As"), []string{"e", "target"}, "target")
			entry(get("Format"), []string{"e", "s", "verb"}, "s")
		}
		if get("ConvertExt") != nil && get("UpdateExt") != nil {
			entry(get("ConvertExt"), []string{"x", "v"})
			entry(get("UpdateExt"), []string{"x", "dst", "src"}, "dst")
		}
		if get("WriteHeader") != nil && get("Status") != nil {
			for _, m := range []string{"WriteHeader", "Write", "Status", "Header"} {
				entry(get(m), []string{"rw"}, "rw")
			}
		}
	}
	c.c04Generated()
}

// c04Client: the client object, its configuration and the arguments are shared, the reply targets are not.
func (c *Check) c04Client() {
	n := 0
	for _, s := range c.setups() {
		for _, st := range append(c.configured(s, true), s.o.St) {
			objs := outlives(st, s.recv)
			c.P.sharedObjs = objs
			for _, r := range c.runsFor(s, []*State{st}) {
				x := &effects{c: c, shared: map[string]bool{}, objs: objs}
				for _, p := range []*Term{pCtx(), pURL(), pEndpoint(), pMethod(), pArgs(), pHeaders(), pClient(), pEncoding()} {
					x.shared[p.Key()] = true
				}
				x.check(fnName(r.call)+" "+s.ctor.Name(), r.evs, r.o.Rets)
				n++
			}
			c.P.sharedObjs = nil
		}
	}
	c.require(n > 0, "client-call", "Client.Call", token.NoPos, "no path of a client call")
}

// c04Handlers: what an instrumented handler allocated when it was built is shared by its calls.
func (c *Check) c04Handlers() {
	run := func(f *ssa.Function, names ...string) {
		if f == nil {
			return
		}
		var args []*Term
		for i, p := range f.Params {
			args = append(args, paramT(names[i], p.Type()))
		}
		for _, o := range c.rootWith(f, args, nil, nil) {
			if o.Kind != "ret" || len(o.Rets) != 1 {
				continue
			}
			h := strip(o.Rets[0])
			for h.Op == "conv" {
				h = strip(h.Args[0])
			}
			if h.Fn == nil {
				c.undecided("writes-owned-memory", fnName(f), o.Pos, "the handler is %s", short(h))
				continue
			}
			objs := outlives(o.St, h)
			c.P.sharedObjs = objs
			x := &effects{c: c, shared: map[string]bool{}, objs: objs}
			var hargs []*Term
			for _, p := range h.Fn.Params {
				hargs = append(hargs, paramT("call."+p.Name(), p.Type()))
			}
			base := len(o.St.trace)
			for _, a := range args {
				x.shared[a.Key()] = true
			}
			for _, r := range c.rootWith(h.Fn, hargs, h.Args, o.St) {
				x.check(fnName(f)+" handler", flatten(r.St.trace[base:]), r.Rets)
			}
			c.P.sharedObjs = nil
		}
	}
	run(c.P.fn("InstrumentedService"), "middleware", "handleStats")
	if c.P.prom != nil {
		run(c.P.prom.Func("InstrumentService"), "handler")
		run(c.P.prom.Func("InstrumentGoRPCService"))
	}
}
