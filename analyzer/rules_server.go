package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C03", 2, checkC03)
	register("T01", 12, checkT01)
	register("T02", 8, checkT02)
}

// ---- C03 ------------------------------------------------------------------------------

func isClose(e *Event, do *Event) bool {
	if e.Kind != "call" || !strings.HasSuffix(e.Callee, ").Close") || len(e.Args) == 0 {
		return false
	}
	return same(strip(e.Args[0]), bodyOf(do))
}

func checkC03(c *Check) {
	n := 0
	for _, r := range append(c.clientRuns(true), c.bareRuns()...) {
		facts := r.o.St.facts
		f := fnName(r.call)
		for _, d := range sent(r.evs) {
			errT := mk("res", "1", nil, d.Res)
			if nilness(facts, errT) == -1 || nilness(facts, respOf(d.Event)) == 1 {
				continue
			}
			n++
			pos := posOf(r.o, r.call.Pos())
			var cl *flatEv
			for i := range r.evs {
				if isClose(r.evs[i].Event, d.Event) && r.evs[i].Seq > d.Seq && len(r.evs[i].Loop) == 0 {
					cl = &r.evs[i]
					break
				}
			}
			if cl == nil {
				passed := ""
				for _, e := range r.evs {
					if e.Seq > d.Seq && e.Kind == "call" && touches(e.Event, respOf(d.Event).Key()) && fullRead(e.Event, d.Event) == nil && !isCallTo(e.Event, newDecNames...) {
						passed = e.Callee
					}
				}
				if passed != "" {
					c.undecided("body-closed", f, pos, "the response is handed to %s", passed)
					continue
				}
				c.fail("body-closed", f, pos, "a path ends here without closing the response body of the request at %s", c.P.posLine(d.Pos))
				continue
			}
			c.ok("body-closed", f, pos)
			for _, e := range r.evs {
				if e.Seq > cl.Seq && (fullRead(e.Event, d.Event) != nil || e.Kind == "call" && !isClose(e.Event, d.Event) && touches(e.Event, bodyOf(d.Event).Key())) {
					c.fail("closed-after-read", f, e.Pos, "%s reads the response body after it was closed at %s", e.Callee, c.P.posLine(cl.Pos))
				}
			}
			c.ok("closed-after-read", f, pos)
		}
	}
	c.require(n > 0, "body-closed", "Client.Call", 0, "no path handles a response")
	c.c03Generated()
}

// ---- the server side -------------------------------------------------------------------

var (
	sResp  = func() *Term { return mk("param", "response", nil) }
	sStats = func() *Term { return mk("param", "stats", nil) }
	sReq   = func() *Term { return mk("param", "r", nil) }
	sW     = func() *Term { return mk("param", "w", nil) }
	sArgs  = func() *Term { return mk("param", "args", nil) }
)

func (c *Check) serverRoot(name string, params ...string) (*ssa.Function, []*Outcome) {
	f := c.need("", name)
	if !c.require(f != nil && len(f.Params) == len(params), "function-exists", name, 0, "the exported function %s(%s) is missing", name, strings.Join(params, ", ")) {
		return nil, nil
	}
	var args []*Term
	for i, n := range params {
		args = append(args, paramT(n, f.Params[i].Type()))
	}
	return f, splitNil(c.rootWith(f, args, nil, nil), 0)
}

func (c *Check) replyRoot() (*ssa.Function, []*Outcome) {
	return c.serverRoot("Reply", "response", "stats", "r", "w")
}

func (c *Check) loadRoot() (*ssa.Function, []*Outcome) {
	return c.serverRoot("LoadArgs", "args", "stats", "r")
}

// handleUsed is the handle of an encoder or decoder call.
func handleUsed(e *Event) *Term {
	x := strip(e.Args[0])
	if x.Op == "call" && len(x.Args) >= 2 {
		return strip(x.Args[1])
	}
	if x.Op == "obj" { // zero encoder with Reset
		return nil
	}
	return nil
}

// content types by selection, as the client announces them.
type announced struct {
	kind string // codec of the handle
	ct   string
}

// clientAnnounces derives what a client configured with a selection sends.
func (c *Check) clientAnnounces() map[int64]map[announced]token.Pos {
	res := map[int64]map[announced]token.Pos{}
	runs := c.clientRuns(true)
	for _, sel := range c.selections() {
		sel := sel
		res[sel] = map[announced]token.Pos{}
		f := func(x *Term) *Term {
			if same(x, pEncoding()) {
				return intTerm(sel)
			}
			return canon(x)
		}
		for _, r := range runs {
			u := under(r.o, f)
			if u == nil {
				continue
			}
			evs := flatten(u.St.trace[r.base:])
			for _, d := range sent(evs) {
				var req *Term
				for _, a := range d.Args {
					if a.Typ != nil && typeName(a.Typ) == "*net/http.Request" {
						req = strip(a)
					}
				}
				if req == nil {
					continue
				}
				hdr := strip(c.fieldIn(d.Heap, req, "Header", nil))
				ct, _ := finalHeader(headerOps(evs, d.Seq, hdr), "Content-Type")
				kind := ""
				for _, e := range find(evs, encodeNames...) {
					if e.Seq < d.Seq {
						kind = c.encodingOf(handleUsed(e.Event), u.St.facts)
					}
				}
				if ct == nil || kind == "" {
					continue
				}
				if s, ok := constStr(ct); ok {
					res[sel][announced{kind, s}] = d.Pos
				} else {
					res[sel][announced{kind, "?" + short(ct)}] = d.Pos
				}
			}
		}
	}
	return res
}

// isContentType: the term reads the content type header of a header map; the
// canonical form of such reads.
func contentTypeRead(x, hdr *Term) bool {
	if x.Op != "call" || len(x.Args) != 2 {
		return false
	}
	k, ok := constStr(x.Args[1])
	if !ok || canonicalHeader(k) != "Content-Type" || !same(strip(x.Args[0]), hdr) {
		return false
	}
	return x.Name == "(net/http.Header).Get" || x.Name == "(net/textproto.MIMEHeader).Get"
}

// underContentType specialises an outcome to a content type; undecided is set
// if the outcome still depends on it in a way that is not understood.
func underContentType(o *Outcome, hdr *Term, ct string) (u *Outcome, undecided string) {
	f := func(x *Term) *Term {
		x = canon(x)
		if contentTypeRead(x, hdr) {
			return strTerm(ct)
		}
		if x.Op == "call" && x.Name == "(net/http.Header).Values" && same(strip(x.Args[0]), hdr) {
			if k, ok := constStr(x.Args[1]); ok && canonicalHeader(k) == "Content-Type" {
				return mkList(x.Typ, strTerm(ct))
			}
		}
		return x
	}
	u = under(o, f)
	if u == nil {
		return nil, ""
	}
	seen := func(t *Term) bool {
		return hasTerm(t, func(x *Term) bool {
			if x.Op == "call" && x.Name == "(net/http.Header).Get" && same(strip(x.Args[0]), hdr) {
				if k, ok := constStr(x.Args[1]); ok && canonicalHeader(k) != "Content-Type" {
					return false // another header: the message may or may not have it
				}
			}
			if x.Op == "call" && strings.HasPrefix(x.Name, "(net/http.") && strings.Contains(x.Name, "Header") && len(x.Args) > 0 && same(strip(x.Args[0]), hdr) {
				return true
			}
			if x.Op != "call" && x.Op != "res" || strings.HasPrefix(x.Name, "(net/http") {
				return false
			}
			for _, a := range x.Args {
				if s, ok := constStr(a); ok && s == ct && ct != "" {
					return true
				}
			}
			return false
		})
	}
	for _, k := range u.St.facts.order {
		if seen(u.St.facts.atoms[k]) {
			return u, short(u.St.facts.atoms[k])
		}
	}
	return u, ""
}

// contentTypeProbes: one content type of each class the conditions on the
// header distinguish (equal to, starting with, ending in, containing, shorter
// than each constant they compare with).
func (c *Check) contentTypeProbes(outs []*Outcome, hdrOf func(*Outcome) *Term, known []string) []string {
	consts := map[string]bool{}
	for _, o := range outs {
		hdr := hdrOf(o)
		if hdr == nil {
			continue
		}
		for _, k := range o.St.facts.order {
			a := o.St.facts.atoms[k]
			if !hasTerm(a, func(x *Term) bool { return contentTypeRead(canon(x), hdr) }) {
				continue
			}
			walk(a, func(x *Term) bool {
				if s, ok := constStr(x); ok && s != "" && canonicalHeader(s) != "Content-Type" {
					consts[s] = true
				}
				return true
			})
		}
	}
	for _, k := range known[:2] {
		consts[k] = true
	}
	res := map[string]bool{}
	for s := range consts {
		res[s] = true
		res[s+"x"] = true
		res["x"+s] = true
		res["x"+s+"x"] = true
		res[s+"; version=2"] = true
		res[s[:len(s)-1]] = true
		if i := strings.IndexByte(s, ';'); i > 0 {
			res[s[:i]] = true
			res[s[:i]+"; charset=x"] = true
		}
		if i := strings.IndexByte(s, '/'); i >= 0 {
			res["x/"+s[i+1:]] = true
			res[s[:i+1]+"x"] = true
		}
	}
	var out []string
	for s := range res {
		if s == strings.TrimSpace(s) {
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}

var unknownTypes = []string{"", "text/plain", "application/octet-stream", "application/xml; charset=utf-8", "multipart/form-data"}

func checkT01(c *Check) {
	ann := c.clientAnnounces()
	// per selection exactly one announced encoding
	cts := map[string]string{} // encoding -> content type
	want := func(sel int64) string {
		if sel == c.selConst("EncodingMsgpack") {
			return "msgpack"
		}
		return "json"
	}
	names := map[int64]string{}
	for _, sel := range c.selections() {
		names[sel] = "unknown selection " + itoa(int(sel))
	}
	mp, js := c.selConst("EncodingMsgpack"), c.selConst("EncodingJson")
	names[mp], names[js] = "EncodingMsgpack", "EncodingJson"
	c.require(mp != js, "selection-constants", "EncodingMsgpack EncodingJson", 0, "both selections have the same value")
	for _, sel := range c.selections() {
		if len(ann[sel]) == 0 {
			c.fail("client-announces", names[sel], 0, "a client with this selection sends no arguments")
			continue
		}
		for a, pos := range ann[sel] {
			if strings.HasPrefix(a.ct, "?") {
				c.undecided("client-announces", names[sel], pos, "the content type is %s", a.ct[1:])
				continue
			}
			c.require(a.kind == want(sel), "selection-encoding", names[sel], pos, "the selection encodes the arguments with %s", a.kind)
			if old, ok := cts[a.kind]; ok && old != a.ct {
				c.fail("client-announces", names[sel], pos, "%s arguments are announced as %q and as %q", a.kind, old, a.ct)
				continue
			}
			cts[a.kind] = a.ct
			c.ok("client-announces", names[sel], pos)
		}
	}
	if cts["json"] == "" || cts["msgpack"] == "" || cts["json"] == cts["msgpack"] {
		c.require(len(c.obls) > 0 && cts["json"] != cts["msgpack"], "content-types-differ", "client", 0, "both encodings are announced as %q", cts["json"])
		return
	}
	c.ok("content-types-differ", "client", 0)
	// the default client
	seen := map[string]bool{}
	for _, r := range c.clientRuns(false) {
		for _, d := range sent(r.evs) {
			for _, e := range find(r.evs, encodeNames...) {
				if e.Seq < d.Seq {
					k := c.encodingOf(handleUsed(e.Event), r.o.St.facts)
					seen[k] = true
					c.require(k == "msgpack", "default-encoding", r.ctor, e.Pos, "a new client encodes its arguments with %s", k)
				}
			}
		}
	}
	c.require(len(seen) > 0, "default-encoding", "constructors", 0, "no new client encodes arguments")

	expect := map[string]string{cts["json"]: "json", cts["msgpack"]: "msgpack"}
	all := []string{cts["json"], cts["msgpack"]}
	for _, u := range unknownTypes {
		expect[u] = "json"
		all = append(all, u)
	}
	// side decides what one side does with each content type.
	side := func(rule, construct string, outs []*Outcome, base func(*Outcome) int, hdrOf func(*Outcome) *Term, names []string, more func(u *Outcome, evs []flatEv, ct, kind string, pos token.Pos)) {
		probes := all
		for _, p := range c.contentTypeProbes(outs, hdrOf, all) {
			if _, known := expect[p]; !known {
				expect[p] = "json"
			}
			if !slices.Contains(probes, p) {
				probes = append(probes[:len(probes):len(probes)], p)
			}
		}
		for _, ct := range probes {
			label := construct + " " + ct
			if ct == "" {
				label = construct + " (none)"
			}
			n := 0
			for _, o := range outs {
				hdr := hdrOf(o)
				if hdr == nil {
					continue
				}
				u, und := underContentType(o, hdr, ct)
				if u == nil {
					continue
				}
				evs := flatten(u.St.trace[base(o):])
				for _, e := range find(evs, names...) {
					h := handleUsed(e.Event)
					if h == nil {
						c.undecided(rule, label, e.Pos, "the codec handle of %s is not visible", short(e.Args[0]))
						continue
					}
					k := c.encodingOf(h, u.St.facts)
					n++
					if k != expect[ct] {
						if und != "" || strings.HasPrefix(k, "?") && opaqueTerm(h) {
							c.undecided(rule, label, e.Pos, "the selection depends on %s", und)
							continue
						}
						c.fail(rule, label, e.Pos, "a message announced as %q is handled with %s instead of %s", ct, k, expect[ct])
						continue
					}
					c.ok(rule, label, e.Pos)
					if more != nil {
						more(u, evs, ct, k, e.Pos)
					}
				}
			}
			if n == 0 {
				hasHdr := false
				for _, o := range outs {
					hasHdr = hasHdr || hdrOf(o) != nil
				}
				c.require(!hasHdr && false, rule, label, 0, "no message with this content type is handled")
			}
		}
	}
	zero := func(*Outcome) int { return 0 }
	reqHdr := func(*Outcome) *Term { return mkFld(sReq(), "Header", nil) }
	if f, outs := c.loadRoot(); f != nil {
		side("arguments-decoded", "LoadArgs", outs, zero, reqHdr, decodeNames, nil)
	}
	if f, outs := c.replyRoot(); f != nil {
		side("reply-encoded", "Reply", outs, zero, reqHdr, encodeNames, func(u *Outcome, evs []flatEv, ct, kind string, pos token.Pos) {
			if u.Kind != "ret" || nilness(u.St.facts, u.Rets[0]) != 1 {
				return
			}
			v, bad := finalHeader(respHeaderOps(evs, -1), "Content-Type")
			label := "Reply " + kind
			if bad != nil || v == nil {
				c.fail("reply-announced", label, pos, "the reply does not announce its encoding")
				return
			}
			v = constUnder(u.St.facts, v)
			s, ok := constStr(v)
			if !ok {
				if x := strip(v); x.Op == "call" && x.Name == "(net/http.Header).Get" && mentions(x.Args[0], sReq()) {
					if k, ok := constStr(x.Args[1]); ok && k != "Content-Type" {
						c.fail("reply-announced", label, pos, "a reply encoded with %s announces whatever the request's header %s says", kind, k)
						return
					}
				}
				if hasTerm(v, func(x *Term) bool { return x.Op == "call" }) {
					c.undecided("reply-announced", label, pos, "the reply announces %s", short(v))
					return
				}
			}
			c.require(s == cts[kind], "reply-announced", label, pos, "a reply encoded with %s announces %q, which clients of this encoding announce as %q", kind, s, cts[kind])
		})
	}
	runs := c.clientRuns(true)
	baseOf := map[*Outcome]int{}
	hdrs := map[*Outcome]*Term{}
	var outs []*Outcome
	for _, r := range runs {
		for _, d := range sent(r.evs) {
			outs = append(outs, r.o)
			baseOf[r.o] = r.base
			hdrs[r.o] = mkFld(respOf(d.Event), "Header", nil)
		}
	}
	side("reply-decoded", "Client.Call", outs, func(o *Outcome) int { return baseOf[o] }, func(o *Outcome) *Term { return hdrs[o] }, decodeNames, nil)
	// the exported helpers
	for _, n := range []string{"NewMSGPackEncoderBytes", "NewMSGPackDecoderBytes"} {
		f := c.need("", n)
		if f == nil {
			continue
		}
		for _, o := range c.root(f) {
			if o.Kind != "ret" {
				continue
			}
			x := strip(o.Rets[0])
			if x.Op == "call" && len(x.Args) >= 2 {
				k := c.encodingOf(strip(x.Args[1]), o.St.facts)
				c.require(k == "msgpack", "msgpack-helpers", n, posOf(o, f.Pos()), "%s uses %s", n, k)
			} else {
				c.undecided("msgpack-helpers", n, posOf(o, f.Pos()), "the result is %s", short(x))
			}
		}
	}
}

// respHeaderOps: writes to the header map of the response writer.
func respHeaderOps(evs []flatEv, seq int) []headerOp {
	hdr := mk("call", "(net/http.ResponseWriter).Header", nil, sW())
	return headerOps(evs, seq, hdr)
}

// ---- T02 ------------------------------------------------------------------------------

// bodyWrite: the event writes to the body of the response.
func bodyWrite(e *Event) bool {
	if e.Kind != "call" || isCallTo(e, "(net/http.ResponseWriter).WriteHeader", "(net/http.ResponseWriter).Header") {
		return false
	}
	for i, a := range e.Args {
		if !same(strip(a), sW()) && !(strip(a).Op == "call" && wraps(strip(a).Name) && mentions(a, sW())) {
			continue
		}
		if isCallTo(e, newEncNames...) {
			return false // writes when encoding
		}
		_ = i
		return true
	}
	return false
}

// payload is what a write event writes: a term describing the bytes, its error and whether it is known.
func payload(tr []*Event, e flatEv) (t *Term, errT *Term) {
	two := mk("res", "1", nil, e.Res)
	switch {
	case isCallTo(e.Event, "(net/http.ResponseWriter).Write"):
		return content(e.Args[1]), two
	case isCallTo(e.Event, "io.WriteString"):
		return content(e.Args[1]), two
	case isCallTo(e.Event, "io.Copy", "io.CopyBuffer"):
		return contentNow(tr, e, strip(e.Args[1])), two
	case isCallTo(e.Event, "(*bytes.Buffer).WriteTo", "(*bytes.Reader).WriteTo"):
		return contentNow(tr, e, strip(e.Args[0])), two
	}
	return nil, nil
}

// content names the bytes of a byte slice or string.
func content(b *Term) *Term {
	b = strip(b)
	for b.Op == "bytes" || b.Op == "str" {
		b = b.Args[0]
	}
	if b.Op == "call" && (b.Name == "(*bytes.Buffer).Bytes" || b.Name == "(*bytes.Buffer).String") {
		return mk("content", b.Args[1].Name, nil, strip(b.Args[0]))
	}
	return b
}

// contentNow is the content of a buffer or reader at an event.
func contentNow(tr []*Event, e flatEv, src *Term) *Term {
	if src.Op == "call" && (src.Name == "bytes.NewReader" || src.Name == "bytes.NewBuffer" || src.Name == "strings.NewReader") {
		return content(src.Args[0])
	}
	n := 0
	for i := 0; i < e.Idx && i < len(tr); i++ {
		if touches(tr[i], src.Key()) {
			n++
		}
	}
	return mk("content", itoa(n), nil, src)
}

// lengthOf: l is the decimal text or number of bytes of what; result is that content.
func lengthOf(l *Term) *Term {
	l = strip(l)
	for l.Op == "str" || l.Op == "conv" {
		l = l.Args[0]
	}
	if l.Op == "call" && (l.Name == "strconv.Itoa" || l.Name == "strconv.FormatInt" || l.Name == "fmt.Sprint") {
		l = l.Args[0]
	}
	switch {
	case l.Op == "len":
		return content(l.Args[0])
	case l.Op == "call" && l.Name == "(*bytes.Buffer).Len":
		return mk("content", l.Args[1].Name, nil, strip(l.Args[0]))
	}
	return nil
}

func isStatsStore(e *Event) bool {
	return e.Kind == "store" && len(e.Args) > 0 && same(rootOf(e.Args[0]), sStats())
}

func checkT02(c *Check) {
	f, outs := c.replyRoot()
	if f == nil {
		return
	}
	const name = "Reply"
	nOK, nErr := 0, 0
	for _, o := range outs {
		pos := posOf(o, f.Pos())
		if o.Kind != "ret" {
			c.fail("no-panic", name, pos, "replying panics")
			continue
		}
		facts := o.St.facts
		tr := o.St.trace
		evs := flatten(tr)
		var writes, encs, heads []flatEv
		for _, e := range evs {
			switch {
			case isCallTo(e.Event, "(net/http.ResponseWriter).WriteHeader") && same(strip(e.Args[0]), sW()):
				heads = append(heads, e)
			case isCallTo(e.Event, encodeNames...):
				encs = append(encs, e)
			}
			if bodyWrite(e.Event) {
				writes = append(writes, e)
			}
		}
		enc := strip(mk("nil", "", nil))
		if len(encs) == 1 {
			enc = strip(encs[0].Args[0])
		}
		// encoding straight into the response cannot be undone
		for _, e := range encs {
			if x := strip(e.Args[0]); x.Op == "call" && len(x.Args) > 0 && mentions(x.Args[0], sW()) {
				c.fail("encoded-before-writing", name, e.Pos, "the reply is encoded directly into the response: a failing encoding leaves a partial body")
				writes = append(writes, e)
			}
		}
		switch nilness(facts, o.Rets[0]) {
		case -1:
			nErr++
			// which step failed
			chain := c.errChain(o, o.Rets[0])
			var failing []flatEv
			for _, e := range evs {
				er := c.errResult(e.Event)
				if er == nil || isCleanup(e.Event) {
					continue
				}
				n := nilness(facts, er)
				if n == 0 && len(e.Cond) > 0 {
					ff := facts.clone()
					for _, cd := range e.Cond {
						ff.add(cd)
					}
					n = nilness(ff, er)
				}
				if n == -1 {
					failing = append(failing, e)
				}
			}
			for _, e := range failing {
				c.require(inChain(chain, c.errResult(e.Event)), "failure-returned", name+" "+trimCallee(e.Callee), pos, "the error of %s is not reachable by unwrapping the returned error %s", e.Callee, short(o.Rets[0]))
			}
			for _, w := range writes {
				// the write itself failed: nothing can be taken back
				_, er := payload(tr, w)
				if er != nil && nilness(facts, er) == -1 {
					continue
				}
				c.fail("nothing-written-on-failure", name, w.Pos, "%s writes to the response on a path that returns an error", w.Callee)
			}
			c.ok("nothing-written-on-failure", name, pos)
			for _, h := range heads {
				if len(writes) == 0 {
					c.fail("nothing-written-on-failure", name, h.Pos, "the status is written on a path that returns an error: the caller cannot answer with its own status any more")
				}
			}
			for _, e := range evs {
				if isStatsStore(e.Event) {
					c.fail("statistics-only-for-replies", name, e.Pos, "%s is recorded although the reply fails", fieldNameOf(e.Args[0]))
				}
			}
			c.ok("statistics-only-for-replies", name, pos)
		case 1:
			nOK++
			if !c.require(len(encs) == 1 && len(encs[0].Loop) == 0, "encoded-once", name, pos, "a reply is sent with %d encodings", len(encs)) {
				continue
			}
			c.require(nilness(facts, encs[0].Res) == 1, "encoding-checked", name, encs[0].Pos, "the reply succeeds although the error of encoding was not checked")
			if !c.require(len(writes) == 1 && len(writes[0].Loop) == 0, "written-once", name, pos, "a successful reply writes the body %d times", len(writes)) {
				continue
			}
			w := writes[0]
			if w.Idx == encs[0].Idx {
				continue // reported above
			}
			c.require(w.Seq > encs[0].Seq, "encoded-before-writing", name, w.Pos, "the body is written before the return values were encoded")
			body, werr := payload(tr, w)
			if body == nil {
				c.undecided("complete-body", name, w.Pos, "the body is written by %s", w.Callee)
				continue
			}
			c.require(nilness(facts, werr) == 1, "write-checked", name, w.Pos, "the reply succeeds although the error of writing was not checked")
			// the body is the complete output of the encoder
			switch {
			case body.Op == "content" && enc.Op == "call" && len(enc.Args) >= 2 && same(strip(enc.Args[0]), body.Args[0]):
				before := 0
				for i := 0; i <= encs[0].Idx && i < len(tr); i++ {
					if touches(tr[i], body.Args[0].Key()) {
						before++
					}
				}
				at := atoi(body.Name)
				switch {
				case at < before:
					c.fail("complete-body", name, w.Pos, "the body is taken from the buffer before the encoding was complete")
				case at > before:
					bad := ""
					n := 0
					for i := 0; i < len(tr); i++ {
						if touches(tr[i], body.Args[0].Key()) {
							n++
							if n > before && n <= at && tr[i].Kind == "call" && !isCallTo(tr[i], "(*bytes.Buffer).Grow") {
								bad = tr[i].Callee
							}
						}
					}
					c.require(bad == "", "complete-body", name, w.Pos, "%s changes the encoded reply before it is written", bad)
				default:
					c.ok("complete-body", name, w.Pos)
				}
			case body.Op == "out" && same(strip(body.Args[0]), enc):
				c.ok("complete-body", name, w.Pos)
			default:
				if opaqueTerm(body) {
					c.undecided("complete-body", name, w.Pos, "the body is %s", short(body))
				} else {
					c.fail("complete-body", name, w.Pos, "the body is %s, not the complete encoding of the return values", short(body))
				}
			}
			ops := respHeaderOps(evs, w.Seq)
			for _, k := range []string{"Content-Type", "Content-Length"} {
				v, bad := finalHeader(ops, k)
				later, _ := finalHeader(respHeaderOps(evs, -1), k)
				if !c.require(v != nil && bad == nil, "headers-before-body", name+" "+k, w.Pos, "the header %s is not set before the body is written", k) {
					continue
				}
				c.require(later != nil && same(later, v), "headers-before-body", name+" "+k, w.Pos, "the header %s changes after the body was written", k)
				for _, h := range heads {
					if h.Seq < w.Seq {
						x, _ := finalHeader(respHeaderOps(evs, h.Seq), k)
						c.require(x != nil && same(x, v), "headers-before-body", name+" "+k, h.Pos, "the status is written before the header %s is set", k)
					}
				}
				if k == "Content-Length" {
					l := lengthOf(v)
					switch {
					case l != nil && same(l, body):
						c.ok("exact-length", name, w.Pos)
					case l != nil && l.Op == "content" && body.Op == "content" && same(l.Args[0], body.Args[0]) && atoi(l.Name) > atoi(body.Name):
						c.ok("exact-length", name, w.Pos)
					case opaqueTerm(v):
						c.undecided("exact-length", name, w.Pos, "Content-Length is %s", short(v))
					default:
						c.fail("exact-length", name, w.Pos, "Content-Length is %s, not the length of the body %s", short(v), short(body))
					}
				}
			}
			for _, h := range heads {
				s, ok := constInt(h.Args[1])
				c.require(ok && s == 200, "reply-status", name, h.Pos, "a reply is sent with status %s", short(h.Args[1]))
			}
			c.ok("reply-status", name, pos)
		default:
			c.fail("definite-result", name, pos, "result %s is neither definitely nil nor an error", short(o.Rets[0]))
		}
	}
	c.require(nOK > 0, "success-exists", name, f.Pos(), "no path replies successfully")
	c.require(nErr > 0, "failure-exists", name, f.Pos(), "no path reports a failed reply")
}

func fieldNameOf(a *Term) string {
	if a.Op == "fieldaddr" {
		return a.Name
	}
	return short(a)
}

func atoi(s string) int {
	n := 0
	for _, ch := range s {
		if ch < '0' || ch > '9' {
			return -1
		}
		n = n*10 + int(ch-'0')
	}
	return n
}

var _ = sort.Strings
var _ = types.Typ

// selConst is the value of an exported selection constant.
func (c *Check) selConst(n string) int64 {
	k, _ := c.P.root.Members[n].(*ssa.NamedConst)
	if k == nil {
		c.fail("selection-constants", n, 0, "the exported constant %s is missing", n)
		return -99
	}
	v, _ := constant.Int64Val(constant.ToInt(k.Value.Value))
	return v
}

// selections: both constants and values that are none of them.
func (c *Check) selections() []int64 {
	a, b := c.selConst("EncodingMsgpack"), c.selConst("EncodingJson")
	lo, hi := min(a, b), max(a, b)
	return []int64{a, b, lo - 1, hi + 1, hi + 6}
}

// constUnder is the constant that t equals on the path, or t.
func constUnder(f *Facts, t *Term) *Term {
	for _, k := range f.order {
		a := f.atoms[k]
		if a.Op != "eq" || len(a.Args) != 2 || !f.val[k] {
			continue
		}
		for i := range a.Args {
			if isConst(a.Args[1-i]) && same(strip(a.Args[i]), strip(t)) {
				return a.Args[1-i]
			}
		}
	}
	return t
}
