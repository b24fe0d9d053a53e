package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", 8, checkC01)
	register("C02", 8, checkC02)
}

// clientRun is one abstract path of a client built, configured and called.
type clientRun struct {
	ctor string
	call *ssa.Function
	o    *Outcome
	base int // trace length before the call
	pre  *State
	evs  []flatEv // events of the call itself
	bare bool     // the client was not configured
}

var (
	pHeaders  = func() *Term { return mk("param", "defaultHeaders", nil) }
	pEncoding = func() *Term { return mk("param", "encoding", nil) }
	pCtx      = func() *Term { return mk("param", "ctx", nil) }
	pURL      = func() *Term { return mk("param", "url", types.Typ[types.String]) }
	pEndpoint = func() *Term { return mk("param", "endpoint", types.Typ[types.String]) }
	pMethod   = func() *Term { return mk("param", "method", types.Typ[types.String]) }
	pArgs     = func() *Term { return mk("param", "args", nil) }
	pReply    = func() *Term { return mk("param", "reply", nil) }
	pClient   = func() *Term { return mk("param", "httpClient", nil) }
)

func paramT(name string, t types.Type) *Term { return mk("param", name, t) }

// clientIface is the exported client interface.
func (c *Check) clientIface() types.Type { return c.P.namedType("Client") }

// constructors are the exported functions that return a Client.
func (c *Check) constructors() []*ssa.Function {
	var res []*ssa.Function
	ci := c.clientIface()
	for _, n := range c.P.root.Pkg.Scope().Names() {
		f := c.P.root.Func(n)
		if f == nil || !f.Object().Exported() || f.Signature.Recv() != nil {
			continue
		}
		if r := f.Signature.Results(); r.Len() == 1 && types.Identical(r.At(0).Type(), ci) {
			res = append(res, f)
		}
	}
	return res
}

// dynMethod resolves a method of the dynamic type of an interface value.
func (c *Check) dynMethod(recv *Term, name string) (*ssa.Function, *Term) {
	if recv.Op != "iface" {
		return nil, nil
	}
	f := c.P.methodOf(recv.Typ, c.P.root.Pkg, name)
	return f, recv.Args[0]
}

type clientSetup struct {
	ctor *ssa.Function
	o    *Outcome
	recv *Term
}

// setups evaluates the constructors.
func (c *Check) setups() []clientSetup {
	var res []clientSetup
	for _, k := range c.constructors() {
		var args []*Term
		for _, p := range k.Params {
			args = append(args, mk("param", "httpClient", p.Type()))
		}
		for _, o := range c.rootWith(k, args, nil, nil) {
			if o.Kind == "ret" {
				res = append(res, clientSetup{k, o, o.Rets[0]})
			}
		}
	}
	return res
}

// configured applies SetDefaultHeaders and (optionally) SetClientEncoding.
func (c *Check) configured(s clientSetup, enc bool) []*State {
	calls := [][2]string{{"SetDefaultHeaders", "defaultHeaders"}}
	if enc {
		calls = append(calls, [2]string{"SetClientEncoding", "encoding"})
	}
	return c.applied(s, []*State{s.o.St}, calls...)
}

// applied calls setters of the client, each with a parameter of the given name.
func (c *Check) applied(s clientSetup, states []*State, calls ...[2]string) []*State {
	for _, x := range calls {
		name, arg := x[0], x[1]
		f, self := c.dynMethod(s.recv, name)
		if f == nil {
			continue
		}
		var next []*State
		for _, st := range states {
			for _, o := range c.rootWith(f, []*Term{self, paramT(arg, f.Params[1].Type())}, nil, st) {
				if o.Kind == "ret" {
					next = append(next, o.St)
				}
			}
		}
		states = next
	}
	return states
}

var callParams = []string{"ctx", "url", "endpoint", "method", "args", "reply"}

func (c *Check) runsFor(s clientSetup, states []*State) []clientRun {
	f, self := c.dynMethod(s.recv, "Call")
	if f == nil || len(f.Params) != 7 {
		return nil
	}
	var res []clientRun
	for _, st := range states {
		args := []*Term{self}
		for i, n := range callParams {
			args = append(args, paramT(n, f.Params[i+1].Type()))
		}
		outs := splitNil(c.rootWith(f, args, nil, st), 0)
		for _, o := range outs {
			r := clientRun{ctor: s.ctor.Name(), call: f, o: o, base: len(st.trace), pre: st}
			r.evs = flatten(o.St.trace[len(st.trace):])
			res = append(res, r)
		}
	}
	return res
}

// bareRuns are calls of clients that are used as they were built.
func (c *Check) bareRuns() []clientRun {
	var res []clientRun
	for _, s := range c.setups() {
		for _, r := range c.runsFor(s, []*State{s.o.St}) {
			r.bare = true
			res = append(res, r)
		}
	}
	return res
}

func (c *Check) clientRuns(enc bool) []clientRun {
	var res []clientRun
	for _, s := range c.setups() {
		res = append(res, c.runsFor(s, c.configured(s, enc))...)
	}
	return res
}

var (
	encodeNames = []string{"(*github.com/ugorji/go/codec.Encoder).Encode"}
	decodeNames = []string{"(*github.com/ugorji/go/codec.Decoder).Decode"}
	newEncNames = []string{"github.com/ugorji/go/codec.NewEncoder", "github.com/ugorji/go/codec.NewEncoderBytes"}
	newDecNames = []string{"github.com/ugorji/go/codec.NewDecoder", "github.com/ugorji/go/codec.NewDecoderBytes", "github.com/ugorji/go/codec.NewDecoderString"}
)

func isSend(e *Event) bool {
	return isCallTo(e, "(*net/http.Client).Do", "(net/http.RoundTripper).RoundTrip", "(*net/http.Transport).RoundTrip") ||
		isCallTo(e, "(*net/http.Client).Get", "(*net/http.Client).Post", "(*net/http.Client).Head", "(*net/http.Client).PostForm") ||
		e.Kind == "call" && e.Sig != nil && sendsRequest(e.Sig)
}

// sendsRequest: func(*http.Request) (*http.Response, error)
func sendsRequest(s *types.Signature) bool {
	return s.Results().Len() == 2 && typeName(s.Results().At(0).Type()) == "*net/http.Response" && isErrorType(s.Results().At(1).Type())
}

// sent finds the request events of a run.
func sent(evs []flatEv) []flatEv {
	var res []flatEv
	for _, e := range evs {
		if isSend(e.Event) {
			res = append(res, e)
		}
	}
	return res
}

func find(evs []flatEv, names ...string) []flatEv {
	var res []flatEv
	for _, e := range evs {
		if isCallTo(e.Event, names...) {
			res = append(res, e)
		}
	}
	return res
}

// bodyOf is the body of the response of a send event.
func bodyOf(e *Event) *Term { return mkFld(mk("res", "0", nil, e.Res), "Body", nil) }

func respOf(e *Event) *Term { return mk("res", "0", nil, e.Res) }

// isBody: t is the response body itself (not a part of it).
func isBody(t *Term, do *Event) bool {
	t = strip(t)
	if same(t, bodyOf(do)) {
		return true
	}
	// a tee or buffered reader over the body still reads all of it
	if t.Op == "call" && (t.Name == "bufio.NewReader" || t.Name == "bufio.NewReaderSize") && len(t.Args) > 0 {
		return isBody(t.Args[0], do)
	}
	return false
}

// fullRead reports where a call puts the complete response body, nil if it does not read it.
// The result is the buffer object or the bytes.
func fullRead(e *Event, do *Event) (into *Term) {
	switch {
	case isCallTo(e, "io.Copy", "io.CopyBuffer"):
		if isBody(e.Args[1], do) {
			return strip(e.Args[0])
		}
	case isCallTo(e, "io.ReadAll", "io/ioutil.ReadAll"):
		if isBody(e.Args[0], do) {
			return mk("res", "0", nil, e.Res)
		}
	case isCallTo(e, "(*bytes.Buffer).ReadFrom", "(*bufio.Writer).ReadFrom"):
		if isBody(e.Args[1], do) {
			return strip(e.Args[0])
		}
	}
	return nil
}

// errChain lists every error term reachable by unwrapping r in the state of o.
func (c *Check) errChain(o *Outcome, r *Term) []*Term {
	var res []*Term
	seen := map[string]bool{}
	var rec func(st *State, t *Term, depth int)
	rec = func(st *State, t *Term, depth int) {
		if t == nil || depth > 12 || seen[t.Key()] {
			return
		}
		seen[t.Key()] = true
		res = append(res, t)
		if t.Op == "iface" {
			if f := c.P.methodOf(t.Typ, c.P.root.Pkg, "Unwrap"); f != nil && len(f.Blocks) > 0 && f.Signature.Results().Len() == 1 {
				for _, o2 := range c.rootWith(f, []*Term{t.Args[0]}, nil, st) {
					if o2.Kind == "ret" {
						rec(o2.St, o2.Rets[0], depth+1)
					}
				}
				return
			}
			rec(st, t.Args[0], depth+1)
			return
		}
		if t.Op == "as" {
			rec(st, t.Args[0], depth+1)
			return
		}
		if t.Op != "call" {
			return
		}
		switch t.Name {
		case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithStack",
			"github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessagef":
			rec(st, t.Args[0], depth+1)
		case "errors.Join":
			if t.Args[0].Op == "list" {
				for _, a := range t.Args[0].Args {
					rec(st, a, depth+1)
				}
			}
		case "fmt.Errorf":
			for _, a := range errorfWrapped(t) {
				rec(st, a, depth+1)
			}
		}
	}
	rec(o.St, r, 0)
	return res
}

// errorfWrapped lists the operands of %w verbs.
func errorfWrapped(t *Term) []*Term {
	f, ok := constStr(t.Args[0])
	if !ok || len(t.Args) < 2 || t.Args[1].Op != "list" {
		return nil
	}
	var res []*Term
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.ContainsRune("+-# 0123456789.", rune(f[i])) {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			continue
		}
		if f[i] == 'w' && n < len(t.Args[1].Args) {
			res = append(res, t.Args[1].Args[n])
		}
		n++
	}
	return res
}

func inChain(chain []*Term, e *Term) bool {
	for _, t := range chain {
		if same(strip(t), strip(e)) {
			return true
		}
	}
	return false
}

func isCleanup(e *Event) bool {
	return e.Defer || strings.HasSuffix(e.Callee, ").Close") || e.Kind == "call" && strings.HasSuffix(e.Callee, ".Flush")
}

func checkC01(c *Check) {
	ctors := c.constructors()
	c.require(len(ctors) > 0 && c.clientIface() != nil, "client-exists", "Client constructors", 0, "no exported function returns a Client")
	runs := append(c.clientRuns(true), c.bareRuns()...)
	succ, failed := 0, 0
	for _, r := range runs {
		f := fnName(r.call)
		f = strings.TrimPrefix(f, "")
		f0 := r.o.St.facts
		if r.o.Kind != "ret" {
			c.fail("no-panic", f, r.o.Pos, "the call ends with a panic: %s", short2(r.o))
			continue
		}
		pos := posOf(r.o, r.call.Pos())
		dos := sent(r.evs)
		for _, d := range dos {
			c.require(len(d.Loop) == 0, "send-once", f, d.Pos, "the request is sent inside a loop")
		}
		c.require(len(dos) <= 1, "send-once", f, pos, "%d requests are sent on one path", len(dos))
		// nothing is sent after a failed step
		for _, e := range r.evs {
			er := c.errResult(e.Event)
			if er == nil || isCleanup(e.Event) || nilness(f0, er) != -1 {
				continue
			}
			for _, d := range dos {
				c.require(d.Seq <= e.Seq, "nothing-sent-after-failure", f, d.Pos, "a request is sent although %s at %s failed", e.Callee, c.P.posLine(e.Pos))
			}
		}
		switch nilness(f0, r.o.Rets[0]) {
		case 1:
			succ++
			c.c01Success(r, f)
		case -1:
			failed++
			c.c01Failure(r, f)
		default:
			c.fail("definite-result", f, pos, "result %s is neither definitely nil nor an error", short(r.o.Rets[0]))
		}
	}
	c.require(succ > 0, "success-exists", "Client.Call", 0, "no path of Call returns nil")
	c.require(failed > 0, "failure-exists", "Client.Call", 0, "no path of Call returns an error")
}

func short2(o *Outcome) string {
	if n := len(o.St.trace); n > 0 {
		k := o.St.trace[n-1].Key()
		if len(k) > 200 {
			k = k[:200]
		}
		return k
	}
	return o.Kind
}

// filledFrom reports whether reading from t yields the bytes that were put into buf.
func filledFrom(t, buf *Term) bool {
	t = strip(t)
	if same(t, buf) {
		return true
	}
	if t.Op == "call" {
		switch t.Name {
		case "bytes.NewReader", "bytes.NewBuffer", "strings.NewReader", "bytes.NewBufferString", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String":
			return filledFrom(t.Args[0], buf)
		}
	}
	if t.Op == "bytes" {
		return filledFrom(t.Args[0], buf)
	}
	return false
}

func (c *Check) c01Success(r clientRun, f string) {
	facts := r.o.St.facts
	pos := posOf(r.o, r.call.Pos())
	// arguments
	empty, known := facts.eval(formOf(mkEmpty(argOf(r, "args"))))
	encs := find(r.evs, encodeNames...)
	good := 0
	for _, e := range encs {
		if len(e.Loop) == 0 && len(e.Args) == 2 && same(strip(e.Args[1]), argOf(r, "args")) && nilness(facts, e.Res) == 1 {
			good++
		}
	}
	if !(known && empty) {
		c.require(good == 1 && len(encs) == 1, "arguments-encoded", f, pos, "a call with arguments succeeds without exactly one successful encoding of the argument list")
	} else {
		c.require(good == len(encs), "arguments-encoded", f, pos, "the result of encoding is ignored")
	}
	dos := sent(r.evs)
	if !c.require(len(dos) == 1, "one-request", f, pos, "success with %d requests sent", len(dos)) {
		return
	}
	do := dos[0]
	c.require(nilness(facts, mk("res", "1", nil, do.Res)) == 1, "send-checked", f, do.Pos, "success although the error of sending the request was not checked")
	// body
	var into *Term
	var read flatEv
	nread := 0
	for _, e := range r.evs {
		if t := fullRead(e.Event, do.Event); t != nil {
			into, read = t, e
			nread++
		}
	}
	if c.require(nread == 1 && len(read.Loop) == 0 && read.Seq > do.Seq, "body-read-completely", f, do.Pos, "success without reading the complete response body exactly once") {
		c.require(nilness(facts, mk("res", "1", nil, read.Res)) == 1, "read-checked", f, read.Pos, "success although the error of reading the response body was not checked")
	}
	status := mkFld(respOf(do.Event), "StatusCode", types.Typ[types.Int])
	c.require(decideEq(facts, status, intTerm(200)) == 1, "status-200", f, pos, "success without the response status being 200")
	decs := find(r.evs, decodeNames...)
	if c.require(len(decs) == 1 && len(decs[0].Loop) == 0, "reply-decoded", f, pos, "success with %d decodings of the reply", len(decs)) {
		d := decs[0]
		c.require(nilness(facts, d.Res) == 1, "decode-checked", f, d.Pos, "success although the error of decoding the reply was not checked")
		dec := strip(d.Args[0])
		from := dec.Op == "call" && len(dec.Args) == 2 && into != nil && filledFrom(dec.Args[0], into)
		c.require(from, "decoded-from-body", f, d.Pos, "the reply is decoded from %s, not from the response body", short(dec))
		c.require(mentions(strip(d.Args[1]), argOf(r, "reply")), "decoded-into-reply", f, d.Pos, "the reply is decoded into %s, not into the caller's slots", short(d.Args[1]))
		if into != nil {
			c.require(read.Seq < d.Seq, "decoded-after-read", f, d.Pos, "the reply is decoded before the body was read")
			// nothing else consumes or changes the buffer in between
			for _, e := range r.evs {
				if e.Seq > read.Seq && e.Seq < d.Seq && e.Kind == "call" && touches(e.Event, into.Key()) && !isCallTo(e.Event, newDecNames...) && !isReadExt(e.Callee) {
					c.fail("body-untouched", f, e.Pos, "%s uses the response body before it is decoded", e.Callee)
				}
			}
			c.ok("body-untouched", f, pos)
		}
	}
	// every other fallible step after sending was successful
	for _, e := range r.evs {
		er := c.errResult(e.Event)
		if er == nil || isCleanup(e.Event) {
			continue
		}
		ok := nilness(facts, er) == 1
		if !ok && len(e.Cond) > 0 {
			ok = true
			ff := facts.clone()
			for _, cd := range e.Cond {
				if !ff.add(cd) {
					ok = true
					break
				}
			}
			if nilness(ff, er) != 1 {
				ok = false
			}
		}
		if isDrain(e.Event) {
			continue
		}
		c.require(ok, "all-steps-checked", f+" "+trimCallee(e.Callee), e.Pos, "success although the error of %s was not checked", e.Callee)
	}
}

func trimCallee(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return strings.Trim(s, "()*")
}

// isDrain: the rest of a body is discarded.
func isDrain(e *Event) bool {
	if !isCallTo(e, "io.Copy") {
		return false
	}
	d := strip(e.Args[0])
	return d.Op == "glob" && d.Name == "io.Discard"
}

func argOf(r clientRun, name string) *Term { return mk("param", name, nil) }

func (c *Check) c01Failure(r clientRun, f string) {
	facts := r.o.St.facts
	pos := posOf(r.o, r.call.Pos())
	var failing []flatEv
	for _, e := range r.evs {
		er := c.errResult(e.Event)
		if er == nil || isCleanup(e.Event) || isDrain(e.Event) {
			continue
		}
		n := nilness(facts, er)
		if n == 0 && len(e.Cond) > 0 {
			ff := facts.clone()
			for _, cd := range e.Cond {
				ff.add(cd)
			}
			n = nilness(ff, er)
		}
		if n == -1 {
			failing = append(failing, e)
		}
	}
	chain := c.errChain(r.o, r.o.Rets[0])
	for _, e := range failing {
		er := c.errResult(e.Event)
		c.require(inChain(chain, er), "failure-kept "+trimCallee(e.Callee), f, pos, "the error of %s is not reachable by unwrapping the returned error %s", e.Callee, short(r.o.Rets[0]))
	}
	r0 := r.o.Rets[0]
	isCE := r0.Op == "iface" && strings.HasSuffix(typeName(r0.Typ), ".ClientError")
	c.require(isCE, "client-error", f, pos, "a failed call returns %s instead of a client error", short(r0))
	_ = fmt.Sprint
}

// ---- C02 ------------------------------------------------------------------------------

func checkC02(c *Check) {
	runs := c.clientRuns(true)
	// the last configuration counts
	for _, s := range c.setups() {
		st := c.applied(s, []*State{s.o.St}, [2]string{"SetDefaultHeaders", "previousHeaders"}, [2]string{"SetDefaultHeaders", "defaultHeaders"},
			[2]string{"SetClientEncoding", "previousEncoding"}, [2]string{"SetClientEncoding", "encoding"})
		runs = append(runs, c.runsFor(s, st)...)
	}
	runs = append(runs, c.bareRuns()...)
	n := 0
	for _, r := range runs {
		for _, d := range sent(r.evs) {
			n++
			c.c02Send(r, d)
		}
	}
	c.require(n > 0, "request-sent", "Client.Call", 0, "no request is sent")
	c.c02Clients()
}

// onlyNilTests: nothing but a comparison with nil is decided about t on the path.
func onlyNilTests(f *Facts, t *Term) bool {
	for _, k := range f.order {
		a := f.atoms[k]
		if !mentions(a, t) || same(a, mkIsNil(t)) {
			continue
		}
		if a.Op == "isnil" && (strip(a.Args[0]).Op == "call" || strip(a.Args[0]).Op == "res") {
			continue // the result of an operation on t
		}
		return false
	}
	return len(f.disj) == 0
}

// callerCtx: t is the caller's context or one that ends with it.
func callerCtx(t *Term) bool {
	return mentions(t, pCtx()) && !hasTerm(t, func(x *Term) bool { return x.Op == "call" && x.Name == "context.WithoutCancel" })
}

func (c *Check) c02Send(r clientRun, d flatEv) {
	f := fnName(r.call)
	facts := r.o.St.facts
	req := (*Term)(nil)
	for _, a := range d.Args {
		if a.Typ != nil && typeName(a.Typ) == "*net/http.Request" {
			req = strip(a)
		}
	}
	if !c.require(req != nil && isCallTo(d.Event, "(*net/http.Client).Do"), "sent-with-do", f, d.Pos, "the request is sent by %s without a prepared *http.Request", d.Callee) {
		return
	}
	// request creation: possibly WithContext / Clone on the way
	ctxOK := false
	base := req
	for base.Op == "call" && (base.Name == "(*net/http.Request).WithContext" || base.Name == "(*net/http.Request).Clone") {
		ctxOK = ctxOK || callerCtx(base.Args[1])
		base = base.Args[0]
	}
	var mkReq *Term
	if base.Op == "res" && base.Name == "0" {
		mkReq = base.Args[0]
	}
	if mkReq == nil || mkReq.Name != "net/http.NewRequestWithContext" && mkReq.Name != "net/http.NewRequest" {
		c.undecided("request-created", f, d.Pos, "request %s is not created by http.NewRequest", short(base))
		return
	}
	a := mkReq.Args
	if mkReq.Name == "net/http.NewRequestWithContext" {
		ctxOK = ctxOK || callerCtx(a[0])
		a = a[1:]
	}
	c.require(ctxOK, "caller-context", f, d.Pos, "the request is not sent under the caller's context")
	m, _ := constStr(a[0])
	c.require(m == "POST", "method-post", f, d.Pos, "the request method is %s", short(a[0]))
	want := mkCat(pURL(), pEndpoint(), strTerm("/"), pMethod())
	u := canonStr(a[1])
	if same(u, canonStr(want)) {
		c.ok("url", f, d.Pos)
	} else {
		c.fail("url", f, d.Pos, "the URL is %s instead of url+endpoint+\"/\"+method", short(u))
	}
	for _, fld := range []string{"Method", "URL", "Body", "Host", "ContentLength", "Form", "TransferEncoding", "GetBody"} {
		if v, ok := d.Heap[mk("fieldaddr", fld, nil, base).Key()]; ok {
			if fld == "GetBody" || fld == "ContentLength" {
				continue
			}
			c.fail("request-unchanged", f, d.Pos, "field %s of the request is overwritten with %s", fld, short(v))
		}
	}
	c.ok("request-unchanged", f, d.Pos)
	// body and encoding
	empty, known := facts.eval(formOf(mkEmpty(pArgs())))
	body := strip(a[2])
	if !known && onlyNilTests(facts, pArgs()) {
		known = true
		if nilness(facts, pArgs()) != 1 {
			for _, e := range find(r.evs, encodeNames...) {
				if e.Seq < d.Seq && same(strip(e.Args[1]), pArgs()) {
					c.fail("empty-body", f, e.Pos, "an empty argument list is encoded into the body")
				}
			}
			empty = false
		}
	}
	if !known {
		c.undecided("body", f, d.Pos, "path does not decide whether there are arguments")
	}
	encs := []flatEv{}
	for _, e := range find(r.evs, encodeNames...) {
		if e.Seq < d.Seq {
			encs = append(encs, e)
		}
	}
	var handle *Term
	if known && !empty {
		ok := len(encs) == 1
		if ok {
			e := encs[0]
			enc := strip(e.Args[0])
			ok = same(strip(e.Args[1]), pArgs()) && enc.Op == "call" && len(enc.Args) >= 2
			if ok {
				buf := strip(enc.Args[0])
				ok = filledFrom(body, buf) || enc.Name == "github.com/ugorji/go/codec.NewEncoderBytes" && hasTerm(body, func(t *Term) bool { return t.Op == "out" && same(t.Args[0], enc) })
				handle = strip(enc.Args[1])
				// nothing else is written to it
				for _, x := range r.evs {
					if x.Seq < d.Seq && x.Kind == "call" && touches(x.Event, buf.Key()) && !isCallTo(x.Event, append(append([]string{"net/http.NewRequestWithContext", "net/http.NewRequest"}, newEncNames...), encodeNames...)...) && !isReadExt(x.Callee) {
						// handing over the encoder of this buffer is the encoding itself
						c.fail("body-is-arguments", f, x.Pos, "%s also uses the request body", x.Callee)
					}
				}
			}
		}
		c.require(ok, "body-is-arguments", f, d.Pos, "the request body %s is not exactly the encoded argument list", short(body))
	} else if known {
		ok := len(encs) == 0 && (isNil(body) || body.Op == "obj" || body.Op == "glob" && body.Name == "net/http.NoBody" || body.Op == "call" && strings.HasPrefix(body.Name, "bytes.New"))
		if ok && body.Op == "obj" {
			for _, x := range r.evs {
				if x.Seq < d.Seq && x.Kind == "call" && touches(x.Event, body.Key()) && !isCallTo(x.Event, append([]string{"net/http.NewRequestWithContext", "net/http.NewRequest"}, newEncNames...)...) && !isReadExt(x.Callee) {
					ok = false
				}
			}
		}
		c.require(ok, "empty-body", f, d.Pos, "a call without arguments sends the body %s", short(body))
	}
	// headers
	hdr := c.fieldIn(d.Heap, req, "Header", nil)
	if base != req {
		if _, ok := d.Heap[mk("fieldaddr", "Header", nil, req).Key()]; !ok {
			hdr = c.fieldIn(d.Heap, base, "Header", nil)
		}
	}
	hdr = strip(hdr)
	wantCT := c.encodingOf(handle, facts)
	selected := c.encodingBySelection(facts)
	if r.bare {
		selected = "msgpack" // the default of a new client
	}
	ops := headerOps(r.evs, d.Seq, hdr)
	for _, k := range []string{"Content-Type", "Accept", "X-Foomo-S2s"} {
		v, bad := finalHeader(ops, k)
		cons := f + " " + k
		if bad != nil {
			c.fail("protected-header", cons, bad.Pos, "default headers or other writes can replace %s after it was set", k)
			continue
		}
		if v == nil {
			c.fail("header-set", cons, d.Pos, "the header %s is not set on the request that is sent (headers %s)", k, short(hdr))
			continue
		}
		s, isS := constStr(v)
		switch k {
		case "X-Foomo-S2s":
			c.require(s == "true", "header-set", cons, d.Pos, "the header %s is %s", k, short(v))
		default:
			if !isS {
				c.fail("header-set", cons, d.Pos, "the header %s is %s, not the content type of the selected encoding", k, short(v))
				continue
			}
			c.require(wantCT == "" || encodingName(s) == wantCT, "header-names-encoding", cons, d.Pos, "the header %s is %q but the arguments are encoded as %s", k, s, wantCT)
			c.require(encodingName(s) == selected, "selected-encoding", cons, d.Pos, "the header %s is %q but the selected encoding is %s", k, s, selected)
			if handle != nil {
				c.require(wantCT == selected, "selected-encoding", f+" arguments", d.Pos, "the arguments are encoded as %s but the selected encoding is %s", wantCT, selected)
			}
		}
	}
	// default headers are sent
	dh, knownH := facts.eval(formOf(mkEmpty(pHeaders())))
	if !(knownH && dh) && !r.bare {
		c.require(hasDefaults(hdr, ops, pHeaders()), "default-headers-sent", f, d.Pos, "configured default headers are missing from the request headers %s", short(hdr))
	}
}

// canonStr removes string conversions that do not change the text.
func canonStr(t *Term) *Term {
	return rewrite(deepStrip(t), func(x *Term) *Term {
		if x.Op == "join" && x.Args[0].Op == "list" {
			return mkJoin(x.Args[0], x.Args[1])
		}
		return x
	})
}

// encodingOf names the codec of a handle term.
func (c *Check) encodingOf(h *Term, f *Facts) string {
	if h == nil {
		return ""
	}
	h = strip(h)
	if h.Typ != nil {
		n := typeName(h.Typ)
		switch {
		case strings.Contains(n, "MsgpackHandle"):
			return "msgpack"
		case strings.Contains(n, "JsonHandle"):
			return "json"
		}
		return n
	}
	return "?" + h.Key()
}

func encodingName(ct string) string {
	ct = strings.ToLower(ct)
	switch {
	case strings.HasPrefix(ct, "application/msgpack"):
		return "msgpack"
	case strings.HasPrefix(ct, "application/json"):
		return "json"
	}
	return ct
}

// encodingBySelection: the encoding that the path's selection stands for.
func (c *Check) encodingBySelection(f *Facts) string {
	e := pEncoding()
	mp := c.selConst("EncodingMsgpack")
	if decideEq(f, e, intTerm(mp)) == 1 {
		return "msgpack"
	}
	if decideEq(f, e, intTerm(mp)) == -1 {
		return "json"
	}
	return "undetermined"
}

// headerOp is one write to a header map.
type headerOp struct {
	flatEv
	kind string // set add del other
	key  *Term
	val  *Term
}

func canonicalHeader(s string) string {
	b := []byte(s)
	up := true
	for i, ch := range b {
		if up && 'a' <= ch && ch <= 'z' {
			b[i] = ch - 32
		} else if !up && 'A' <= ch && ch <= 'Z' {
			b[i] = ch + 32
		}
		up = ch == '-'
	}
	return string(b)
}

// headerOps lists the writes to the header map hdr before position seq.
func headerOps(evs []flatEv, seq int, hdr *Term) []headerOp {
	var res []headerOp
	for _, e := range evs {
		if seq >= 0 && e.Seq >= seq {
			break
		}
		switch {
		case isCallTo(e.Event, "(net/http.Header).Set") && same(strip(e.Args[0]), hdr):
			res = append(res, headerOp{e, "set", e.Args[1], e.Args[2]})
		case isCallTo(e.Event, "(net/http.Header).Add") && same(strip(e.Args[0]), hdr):
			res = append(res, headerOp{e, "add", e.Args[1], e.Args[2]})
		case isCallTo(e.Event, "(net/http.Header).Del") && same(strip(e.Args[0]), hdr):
			res = append(res, headerOp{e, "del", e.Args[1], nil})
		case e.Kind == "mapset" && same(strip(e.Args[0]), hdr):
			if k, ok := constStr(e.Args[1]); ok && canonicalHeader(k) != k {
				break // no lookup finds it
			}
			v := e.Args[2]
			if v.Op == "list" && len(v.Args) == 1 && v.Args[0].Op != "star" && v.Args[0].Op != "spread" {
				v = v.Args[0]
			}
			res = append(res, headerOp{e, "set", e.Args[1], v})
		case e.Kind == "mapdelete" && same(strip(e.Args[0]), hdr):
			res = append(res, headerOp{e, "del", e.Args[1], nil})
		case e.Kind == "call" && isCallTo(e.Event, "maps.Copy", "*maps.Copy") && same(strip(e.Args[0]), hdr):
			res = append(res, headerOp{e, "set", mk("anykey", "", nil), e.Args[1]})
		}
	}
	return res
}

// finalHeader is the single value of a header after all writes; bad is a write
// that may change it in a way that is not determined.
func finalHeader(ops []headerOp, key string) (val *Term, bad *Event) {
	for _, op := range ops {
		k, isC := constStr(op.key)
		if isC && canonicalHeader(k) != key {
			continue
		}
		switch {
		case isC && op.kind == "set" && len(op.Loop) == 0:
			val, bad = op.val, nil
		case !isC || len(op.Loop) > 0:
			if val != nil {
				bad = op.Event
			}
		case op.kind == "add":
			if val != nil {
				bad = op.Event
			} else {
				val = nil
				bad = op.Event
			}
		case op.kind == "del":
			val = nil
		}
	}
	return
}

// hasDefaults: the header map contains the default headers.
func hasDefaults(hdr *Term, ops []headerOp, defaults *Term) bool {
	if mentions(hdr, defaults) {
		return true
	}
	for _, op := range ops {
		if len(op.Loop) > 0 && (isCallTo(op.Event, "(net/http.Header).Set") || op.Kind == "mapset" && op.Args[2].Op == "list" && same(op.Args[2].Args[0], op.val)) {
			continue // one value per header remains
		}
		if op.val != nil && mentions(op.val, defaults) {
			return true
		}
		for _, l := range op.Loop {
			if mentions(l, defaults) {
				return true
			}
		}
	}
	return false
}

// c02Clients: which HTTP client is used.
func (c *Check) c02Clients() {
	// the factory variable is the one the exported setter stores into
	setter := c.need("", "SetDefaultHttpClientFactory")
	var factory *Term
	if setter != nil {
		for _, o := range c.root(setter) {
			for _, e := range flatten(o.St.trace) {
				if e.Kind == "store" && e.Args[0].Op == "globaladdr" && mentions(e.Args[1], mk("param", "0", nil)) {
					factory = mk("glob", e.Args[0].Name, nil)
				}
			}
		}
	}
	if !c.require(factory != nil, "factory-settable", "SetDefaultHttpClientFactory", 0, "SetDefaultHttpClientFactory does not store the factory") {
		return
	}
	fromFactory := func(t *Term) bool {
		return t.Op == "call" && t.Name == "dynamic" && len(t.Args) > 0 && same(t.Args[0], factory)
	}
	for _, s := range c.setups() {
		for _, r := range c.runsFor(s, c.configured(s, false)) {
			for _, d := range sent(r.evs) {
				recv := strip(d.Args[0])
				given := false
				if len(s.ctor.Params) > 0 {
					switch nilness(r.o.St.facts, pClient()) {
					case -1:
						given = true
					case 0:
						c.fail("client-selection", s.ctor.Name(), s.ctor.Pos(), "the constructor does not distinguish a nil HTTP client")
						continue
					}
				}
				if given {
					c.require(same(recv, pClient()), "client-selection", s.ctor.Name()+" with client", d.Pos, "requests are sent with %s instead of the given HTTP client", short(recv))
				} else {
					c.require(fromFactory(recv), "client-selection", s.ctor.Name()+" without client", d.Pos, "requests are sent with %s instead of one from the default factory", short(recv))
				}
			}
		}
		// a later SetTransportHttpClient wins
		f, self := c.dynMethod(s.recv, "SetTransportHttpClient")
		if f == nil {
			continue
		}
		x := paramT("transport", f.Params[1].Type())
		for _, o := range c.rootWith(f, []*Term{self, x}, nil, s.o.St) {
			if o.Kind != "ret" || nilness(o.St.facts, x) == 1 {
				continue
			}
			for _, r := range c.runsFor(s, []*State{o.St}) {
				for _, d := range sent(r.evs) {
					c.require(same(strip(d.Args[0]), x), "client-selection", s.ctor.Name()+" SetTransportHttpClient", d.Pos, "requests are sent with %s instead of the HTTP client that was set", short(d.Args[0]))
				}
			}
		}
	}
}

// ---- C06 ------------------------------------------------------------------------------

// checkC06: the built-in HTTP client factory.
func checkC06(c *Check) {
	setter := c.need("", "SetDefaultHttpClientFactory")
	var slot *Term
	if setter != nil {
		for _, o := range c.root(setter) {
			for _, e := range flatten(o.St.trace) {
				if e.Kind == "store" && e.Args[0].Op == "globaladdr" && mentions(e.Args[1], mk("param", "0", nil)) {
					slot = e.Args[0]
				}
			}
		}
	}
	if !c.require(slot != nil, "factory-settable", "SetDefaultHttpClientFactory", 0, "SetDefaultHttpClientFactory does not store the factory") {
		return
	}
	c.c02Clients() // which HTTP client a call uses
	var def *Term
	for _, e := range flatten(c.P.initTrace) {
		if e.Kind == "store" && same(e.Args[0], slot) {
			def = strip(e.Args[1])
		}
	}
	switch {
	case def == nil || def.Op == "nil":
		c.fail("default-factory", slot.Name, 0, "no factory is installed when the program starts")
		return
	case def.Op != "func" && def.Op != "closure" || def.Fn == nil || len(def.Fn.Blocks) == 0:
		c.undecided("default-factory", slot.Name, 0, "the initial factory is %s", short(def))
		return
	}
	f := def.Fn
	c.ok("default-factory", trimCallee(fnName(f)), f.Pos())
	var binds []*Term
	if def.Op == "closure" {
		binds = def.Args
	}
	ev := c.P.NewEval()
	// one reads a field of what t points to; def is the declared (zero) value if nothing was stored
	one := func(o *Outcome, t *Term, name string, typ types.Type) *Term {
		return canonTerm(ev.load(o.St, mk("fieldaddr", name, types.NewPointer(typ), t), typ))
	}
	field := func(t types.Type, name string) types.Type {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return s.Field(i).Type()
			}
		}
		return nil
	}
	for _, o := range c.rootWith(f, nil, binds, nil) {
		pos := posOf(o, f.Pos())
		if o.Kind != "ret" || len(o.Rets) != 1 {
			c.fail("default-client-usable", "default factory", pos, "the default factory panics")
			continue
		}
		cl := strip(o.Rets[0])
		if cl.Op == "nil" {
			c.fail("default-client-usable", "default factory", pos, "the default factory returns nil")
			continue
		}
		if cl.Op != "obj" {
			if strings.Contains(cl.Key(), "net/http.DefaultClient") {
				c.fail("bounded-by-timeout", "default factory", pos, "http.DefaultClient never gives up on a server that does not answer")
			} else {
				c.undecided("bounded-by-timeout", "default factory", pos, "the client is %s", short(cl))
			}
			continue
		}
		tt := field(f.Signature.Results().At(0).Type(), "Timeout")
		timeout := one(o, cl, "Timeout", tt)
		if n, ok := constInt(timeout); ok {
			c.require(n > 0, "bounded-by-timeout", "default factory", pos, "the overall timeout is %d: a server that does not answer blocks the call forever", n)
		} else if timeout.Op == "zero" {
			c.fail("bounded-by-timeout", "default factory", pos, "no overall timeout is set: a server that does not answer blocks the call forever")
		} else {
			c.undecided("bounded-by-timeout", "default factory", pos, "the timeout is %s", short(timeout))
		}
		// redirects and cookies: the library's own behaviour
		for _, n := range []string{"CheckRedirect", "Jar"} {
			x := one(o, cl, n, field(f.Signature.Results().At(0).Type(), n))
			if x.Op == "nil" || x.Op == "zero" {
				c.ok("library-defaults", "default factory "+n, pos)
			} else {
				c.undecided("library-defaults", "default factory "+n, pos, "is %s", short(x))
			}
		}
		tr := strip(one(o, cl, "Transport", field(f.Signature.Results().At(0).Type(), "Transport")))
		if tr.Op == "nil" || tr.Op == "zero" {
			c.ok("certificates-verified", "default factory", pos) // http.DefaultTransport
			continue
		}
		if tr.Op != "obj" || typeName(tr.Typ) != "*net/http.Transport" {
			c.undecided("certificates-verified", "default factory", pos, "the transport is %s", short(tr))
			continue
		}
		for _, n := range []string{"DialTLS", "DialTLSContext"} {
			x := one(o, tr, n, field(tr.Typ, n))
			if x.Op != "nil" && x.Op != "zero" {
				c.undecided("certificates-verified", "default factory "+n, pos, "TLS connections are made by %s", short(x))
			}
		}
		cfg := strip(one(o, tr, "TLSClientConfig", field(tr.Typ, "TLSClientConfig")))
		switch {
		case cfg.Op == "nil" || cfg.Op == "zero":
			c.ok("certificates-verified", "default factory", pos)
		case cfg.Op == "obj":
			skip := one(o, cfg, "InsecureSkipVerify", types.Typ[types.Bool])
			if b, ok := constBool(skip); ok && b {
				c.fail("certificates-verified", "default factory", pos, "the certificate of the server is not verified")
			} else if ok || skip.Op == "zero" {
				c.ok("certificates-verified", "default factory", pos)
			} else {
				c.undecided("certificates-verified", "default factory", pos, "InsecureSkipVerify is %s", short(skip))
			}
		default:
			c.undecided("certificates-verified", "default factory", pos, "the TLS configuration is %s", short(cfg))
		}
		px := strip(one(o, tr, "Proxy", field(tr.Typ, "Proxy")))
		switch {
		case px.Op == "func" && px.Name == "net/http.ProxyFromEnvironment":
			c.ok("proxy-honoured", "default factory", pos)
		case px.Op == "nil" || px.Op == "zero":
			c.fail("proxy-honoured", "default factory", pos, "the proxy of the environment is ignored")
		default:
			c.undecided("proxy-honoured", "default factory", pos, "the proxy is chosen by %s", short(px))
		}
	}
}
