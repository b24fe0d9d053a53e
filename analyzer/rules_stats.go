package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S02", 6, checkS02)
	register("S03", 8, checkS03)
	register("S04", 20, checkS04)
}

// ---- S02: argument loading ----------------------------------------------------------------

func checkS02(c *Check) {
	f, outs := c.loadRoot()
	if f == nil {
		return
	}
	const name = "LoadArgs"
	body := mkFld(sReq(), "Body", nil)
	nOK, nErr := 0, 0
	for _, o := range outs {
		pos := posOf(o, f.Pos())
		if o.Kind != "ret" {
			c.fail("no-panic", name, pos, "loading arguments panics")
			continue
		}
		facts := o.St.facts
		evs := flatten(o.St.trace)
		decs := find(evs, decodeNames...)
		switch nilness(facts, o.Rets[0]) {
		case 1:
			nOK++
			if len(decs) == 0 {
				if len(evs) > 0 && hasOther(evs, sArgs()) {
					c.undecided("decoded-once", name, pos, "the arguments are decoded in a way that is not understood")
				} else {
					c.fail("decoded-once", name, pos, "loading succeeds without decoding the arguments")
				}
				continue
			}
			if !c.require(len(decs) == 1 && len(decs[0].Loop) == 0, "decoded-once", name, decs[len(decs)-1].Pos, "a successful loading decodes %d times", len(decs)) {
				continue
			}
			d := decs[0]
			c.require(nilness(facts, d.Res) == 1, "decoding-checked", name, d.Pos, "loading succeeds although the error of decoding was not checked")
			into := strip(d.Args[1])
			switch {
			case same(into, sArgs()):
				c.ok("decoded-into-arguments", name, d.Pos)
			case into.Op == "obj" && same(strip(orNil(d.Heap[into.Key()])), sArgs()):
				c.undecided("decoded-into-arguments", name, d.Pos, "decoded into a pointer to the arguments")
			case opaqueTerm(into) || mentions(into, sArgs()):
				if into.Op == "obj" || mentions(into, sArgs()) && into.Op != "index" && into.Op != "slice" {
					c.undecided("decoded-into-arguments", name, d.Pos, "the value decoded into is %s", short(into))
				} else {
					c.fail("decoded-into-arguments", name, d.Pos, "the message is decoded into %s instead of the arguments", short(into))
				}
			default:
				c.fail("decoded-into-arguments", name, d.Pos, "the message is decoded into %s instead of the arguments", short(into))
			}
			src := sourceOf(evs, d)
			switch {
			case src == nil:
				c.undecided("decoded-from-body", name, d.Pos, "the source of %s is not visible", short(d.Args[0]))
			case same(src, body):
				c.ok("decoded-from-body", name, d.Pos)
			case mentions(src, sReq()) || opaqueTerm(src):
				if lim := limited(src); lim != "" {
					c.fail("decoded-from-body", name, d.Pos, "the message is read through %s and may be cut off", lim)
				} else {
					c.undecided("decoded-from-body", name, d.Pos, "the message is read from %s", short(src))
				}
			default:
				c.fail("decoded-from-body", name, d.Pos, "the message is read from %s instead of the request body", short(src))
			}
		case -1:
			nErr++
			chain := c.errChain(o, o.Rets[0])
			for _, e := range evs {
				er := c.errResult(e.Event)
				if er == nil || isCleanup(e.Event) || nilness(facts, er) != -1 {
					continue
				}
				c.require(inChain(chain, er), "failure-returned", name+" "+trimCallee(e.Callee), pos, "the error of %s is not reachable by unwrapping the returned error %s", e.Callee, short(o.Rets[0]))
			}
			for _, e := range evs {
				if isStatsStore(e.Event) {
					c.fail("statistics-only-on-success", name, e.Pos, "%s is recorded although the arguments could not be loaded", fieldNameOf(e.Args[0]))
				}
			}
			c.ok("statistics-only-on-success", name, pos)
		default:
			c.fail("definite-result", name, pos, "result %s is neither definitely nil nor an error", short(o.Rets[0]))
		}
	}
	c.require(nOK > 0, "success-exists", name, f.Pos(), "no path loads arguments")
	c.require(nErr > 0, "failure-exists", name, f.Pos(), "no path reports a failed decoding")
	c.s02Generated()
}

func hasOther(evs []flatEv, x *Term) bool {
	for _, e := range evs {
		if e.Kind == "call" && touches(e.Event, x.Key()) {
			return true
		}
	}
	return false
}

// limited names a reader that does not deliver everything.
func limited(src *Term) string {
	n := ""
	walk(src, func(x *Term) bool {
		if x.Op == "call" && (strings.Contains(x.Name, "LimitReader") || strings.Contains(x.Name, "ReadAtLeast") || strings.Contains(x.Name, "ReadFull")) {
			n = x.Name
		}
		return true
	})
	return n
}

// sourceOf is the reader or byte slice a decode call reads; buffered whole bodies are traced back to the body.
func sourceOf(evs []flatEv, d flatEv) *Term {
	x := strip(d.Args[0])
	if x.Op != "call" || len(x.Args) < 1 {
		return nil
	}
	if !isCallTo(&Event{Kind: "call", Callee: x.Name}, newDecNames...) {
		return nil
	}
	s := strip(x.Args[0])
	for i := 0; i < 6; i++ {
		switch {
		case s.Op == "call" && (s.Name == "bufio.NewReader" || s.Name == "bufio.NewReaderSize" || s.Name == "bytes.NewReader" || s.Name == "bytes.NewBuffer" || s.Name == "io.NopCloser" || s.Name == "io.TeeReader"):
			s = strip(s.Args[0])
		case s.Op == "res" && s.Name == "0" && strip(s.Args[0]).Op == "call" && strip(s.Args[0]).Name == "io.ReadAll":
			s = strip(strip(s.Args[0]).Args[0])
		case s.Op == "out" && len(s.Args) > 0:
			// a buffer filled by an event
			return s
		default:
			return s
		}
	}
	return s
}

// ---- S03: the recording writer ---------------------------------------------------------------

func finalStatus(s int64) bool { return s >= 200 || s == 101 }

// boundaries collects the constants a function compares its parameters with.
func boundaries(outs []*Outcome) []int64 {
	set := map[int64]bool{}
	add := func(n int64) {
		for _, k := range []int64{n - 1, n, n + 1} {
			if k >= 100 && k <= 999 {
				set[k] = true
			}
		}
	}
	for _, n := range []int64{100, 101, 102, 103, 199, 200, 204, 304, 404, 500, 999} {
		set[n] = true
	}
	for _, o := range outs {
		o.F().walk(func(x *Term) bool {
			if n, ok := constInt(x); ok {
				add(n)
			}
			return true
		})
		for _, r := range o.Rets {
			walk(r, func(x *Term) bool {
				if n, ok := constInt(x); ok {
					add(n)
				}
				return true
			})
		}
	}
	var res []int64
	for k := range set {
		res = append(res, k)
	}
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	return res
}

func (c *Check) driverRoot(sp *ssa.Package, name string, params ...string) (*ssa.Function, []*Outcome) {
	f := sp.Func(name)
	if f == nil {
		return nil, nil
	}
	var args []*Term
	for i, n := range params {
		args = append(args, paramT(n, f.Params[i].Type()))
	}
	return f, c.rootWith(f, args, nil, nil)
}

func checkS03(c *Check) {
	sp := c.driver("responsewriter", drvResponseWriter)
	if sp == nil {
		return
	}
	type drv struct {
		name     string
		statuses int
		body     bool
	}
	w := mk("param", "w", nil)
	for _, d := range []drv{{"None", 0, false}, {"One", 1, false}, {"Two", 2, false}, {"Three", 3, false}, {"Body", 0, true}, {"OneBody", 1, true}} {
		params := []string{"w"}
		var ps []*Term
		for i := 0; i < d.statuses; i++ {
			n := "status" + itoa(i+1)
			params = append(params, n)
			ps = append(ps, mk("param", n, nil))
		}
		if d.body {
			params = append(params, "data")
		}
		f, outs := c.driverRoot(sp, d.name, params...)
		if f == nil {
			c.fail("driver", d.name, 0, "missing")
			continue
		}
		// every status is passed on once, in order; the body as well
		for _, o := range outs {
			pos := o.Pos
			if o.Kind != "ret" {
				c.fail("status-passed-on", d.name, pos, "recording a status panics")
				continue
			}
			var got []*Term
			nbody := 0
			unknown := ""
			for _, e := range flatten(o.St.trace) {
				switch {
				case isCallTo(e.Event, "(net/http.ResponseWriter).WriteHeader") && same(strip(e.Args[0]), w) && len(e.Loop) == 0:
					pos = e.Pos
					got = append(got, strip(e.Args[1]))
				case isCallTo(e.Event, "(net/http.ResponseWriter).Write") && same(strip(e.Args[0]), w) && len(e.Loop) == 0 && same(strip(e.Args[1]), mk("param", "data", nil)):
					nbody++
				case e.Kind == "call" && touches(e.Event, w.Key()):
					unknown = e.Callee
				}
			}
			okAll := len(got) == len(ps)
			for i := range got {
				okAll = okAll && i < len(ps) && same(got[i], ps[i])
			}
			if d.body {
				okAll = okAll && nbody == 1
			}
			switch {
			case okAll:
				c.ok("status-passed-on", d.name, pos)
			case unknown != "":
				c.undecided("status-passed-on", d.name, pos, "the writer is used by %s", unknown)
			default:
				c.fail("status-passed-on", d.name, pos, "%d of %d statuses (and %d bodies) reach the underlying writer unchanged", len(got), len(ps), nbody)
			}
		}
		// the recorded status
		vals := boundaries(outs)
		idx := make([]int, d.statuses)
		for {
			sub := map[string]*Term{}
			want := int64(200)
			seen := false
			label := ""
			for i, p := range ps {
				v := vals[idx[i]]
				sub[p.Key()] = intTerm(v)
				if !seen && finalStatus(v) {
					want, seen = v, true
				}
				label += " " + itoa(int(v))
			}
			pre := func(x *Term) *Term {
				if r, ok := sub[x.Key()]; ok {
					return r
				}
				return canon(x)
			}
			n := 0
			for _, o := range outs {
				if o.Kind != "ret" {
					continue
				}
				u := under(o, pre)
				if u == nil {
					continue
				}
				n++
				got, ok := constInt(strip(u.Rets[0]))
				rule := "recorded-status"
				construct := d.name
				switch {
				case ok && got == want:
					c.ok(rule, construct, o.Pos)
				case !ok && (opaqueTerm(u.Rets[0]) || len(u.St.facts.order) > 0):
					c.undecided(rule, construct, o.Pos, "after writing%s the recorded status is %s", label, short(u.Rets[0]))
				default:
					c.fail(rule, construct, o.Pos, "after writing%s the recorded status is %s instead of %d", label, short(u.Rets[0]), want)
				}
			}
			if n == 0 {
				c.fail("recorded-status", d.name, f.Pos(), "after writing%s no status is recorded", label)
			}
			k := len(idx) - 1
			for ; k >= 0; k-- {
				idx[k]++
				if idx[k] < len(vals) {
					break
				}
				idx[k] = 0
			}
			if k < 0 {
				break
			}
		}
	}
	if f, outs := c.driverRoot(sp, "Header", "w"); f != nil {
		want := mk("call", "(net/http.ResponseWriter).Header", nil, w)
		for _, o := range outs {
			if o.Kind != "ret" {
				continue
			}
			x := strip(o.Rets[0])
			if !same(x, want) && opaqueTerm(x) {
				c.undecided("header-passed-on", "Header", o.Pos, "the headers are %s", short(x))
				continue
			}
			c.require(same(x, want), "header-passed-on", "Header", o.Pos, "the headers are %s instead of those of the underlying writer", short(x))
		}
	}
	c.s03Generated()
}

// ---- S04: statistics ---------------------------------------------------------------------------

func checkS04(c *Check) {
	c.section("attach", func() { c.s04Attach("") })
	c.section("load", c.s04Load)
	c.section("reply", c.s04Reply)
	c.section("prometheus", c.s04Prom)
	c.s04Generated()
	c.onlyRule = "gorpc-statistics"
	checkS05(c)
	c.onlyRule = ""
}

// s04Attach decides the rules whose name starts with only.
func (c *Check) s04Attach(only string) {
	sp := c.driver("stats", drvStats)
	if sp == nil {
		return
	}
	isObj := func(t *Term) bool { return strip(t).Op == "obj" }
	run := func(name, rule string, params []string, test func(o *Outcome) (bool, string)) {
		if !strings.HasPrefix(rule, only) {
			return
		}
		f, outs := c.driverRoot(sp, name, params...)
		if f == nil || len(outs) == 0 {
			c.undecided(rule, name, 0, "no outcome")
			return
		}
		for _, o := range outs {
			if o.Kind != "ret" {
				c.fail(rule, name, o.Pos, "panics")
				continue
			}
			ok, msg := test(o)
			if !ok {
				for _, r := range o.Rets {
					if opaqueTerm(r) {
						c.undecided(rule, name, o.Pos, "%s", msg)
						return
					}
				}
				if unknownCtx(o) {
					c.undecided(rule, name, o.Pos, "%s", msg)
					return
				}
			}
			c.require(ok, rule, name, o.Pos, "%s", msg)
		}
	}
	show := func(o *Outcome) string {
		var b []string
		for _, r := range o.Rets {
			b = append(b, short(r))
		}
		return strings.Join(b, ", ")
	}
	boolEq := func(t *Term, v bool) bool { b, ok := constBool(strip(t)); return ok && b == v }
	single := func(t *Term) *Term {
		if t = strip(t); t.Op == "list" && len(t.Args) == 1 && t.Args[0].Op != "star" && t.Args[0].Op != "spread" {
			return strip(t.Args[0])
		}
		return nil
	}
	run("Attached", "attached-found", []string{"r"}, func(o *Outcome) (bool, string) {
		r := o.Rets
		return boolEq(r[0], true) && boolEq(r[1], true) && isObj(r[2]) && same(strip(r[2]), strip(r[3])),
			"statistics attached to a request are not found again as the same statistics: " + show(o)
	})
	run("Separate", "attached-per-request", []string{"r", "s"}, func(o *Outcome) (bool, string) {
		return isObj(o.Rets[0]) && isObj(o.Rets[1]) && !same(strip(o.Rets[0]), strip(o.Rets[1])), "two requests share their statistics: " + show(o)
	})
	run("Cleared", "cleared-gone", []string{"r"}, func(o *Outcome) (bool, string) {
		return boolEq(o.Rets[0], false), "cleared statistics are still found: " + show(o)
	})
	run("ClearedCall", "cleared-gone", []string{"r", "fn", "pkg", "service", "msg", "n", "size"}, func(o *Outcome) (bool, string) {
		return boolEq(o.Rets[0], false), "the statistics of a call are still found after they were cleared: " + show(o)
	})
	run("Instrumented", "handler-after-middleware", []string{"w", "r"}, func(o *Outcome) (bool, string) {
		mw, h := single(o.Rets[0]), single(o.Rets[1])
		if mw == nil || h == nil || !same(mw, h) || !isObj(mw) {
			return false, "the statistics " + short(o.Rets[1]) + " are handed to the stats handler, the handler chain recorded in " + short(o.Rets[0])
		}
		if ok := single(o.Rets[2]); ok == nil || !boolEq(ok, true) {
			return false, "the handler chain finds no statistics"
		}
		if l := strip(o.Rets[3]); !same(l, mkList(l.Typ, strTerm("middleware"), strTerm("stats"))) {
			return false, "the order of the calls is " + short(l)
		}
		if x := single(o.Rets[4]); x == nil || !same(x, mk("param", "w", nil)) {
			return false, "the handler chain does not get the response writer but " + short(o.Rets[4])
		}
		return true, ""
	})
	run("InstrumentedCleared", "cleared-not-reported", []string{"w", "r"}, func(o *Outcome) (bool, string) {
		h := strip(o.Rets[0])
		empty := isNil(h) || h.Op == "list" && len(h.Args) == 0
		return empty, "statistics are reported although they were cleared: " + short(h)
	})
	run("InstrumentedTwice", "reported-per-request", []string{"w", "r", "s"}, func(o *Outcome) (bool, string) {
		a, b := strip(o.Rets[0]), strip(o.Rets[1])
		return a.Op == "list" && len(a.Args) == 2 && same(a, b) && !same(a.Args[0], a.Args[1]), "two requests report " + short(b) + " but recorded " + short(a)
	})
	// requests without statistics
	run("None", "nothing-attached", []string{"r"}, func(o *Outcome) (bool, string) {
		x := strip(o.Rets[0])
		if boolEq(x, false) {
			return true, ""
		}
		v, ok := o.St.facts.eval(formOf(x))
		if ok && !v {
			return true, ""
		}
		// true only for a request whose context already carries statistics
		ctx := false
		o.F().walk(func(y *Term) bool {
			ctx = ctx || y.Op == "call" && y.Name == "(context.Context).Value"
			return true
		})
		return ctx, "statistics are found on a request that has none"
	})
}

// unknownCtx: the outcome depends on calls the domain does not know.
func unknownCtx(o *Outcome) bool {
	for _, e := range flatten(o.St.trace) {
		if e.Kind == "call" && (e.Callee == "dynamic" || strings.HasPrefix(e.Callee, "(*sync.")) {
			return true
		}
	}
	return false
}

// elapsed decomposes a duration into the event that started and the event that ended it.
func elapsed(evs []flatEv, t *Term) (start, end *flatEv) {
	t = strip(t)
	at := func(x *Term) *flatEv {
		for i := range evs {
			if evs[i].Kind == "call" && evs[i].Res != nil && same(evs[i].Res, x) {
				return &evs[i]
			}
		}
		return nil
	}
	now := func(x *Term) *flatEv {
		if e := at(strip(x)); e != nil && e.Callee == "time.Now" {
			return e
		}
		return nil
	}
	if t.Op != "call" {
		return nil, nil
	}
	if e := at(t); e != nil && e.Callee == "time.Since" {
		return now(e.Args[0]), e
	}
	if t.Name == "(time.Time).Sub" && len(t.Args) == 2 {
		return now(t.Args[1]), now(t.Args[0])
	}
	return nil, nil
}

// measured requires a duration statistic to span an event.
func (c *Check) measured(construct string, evs []flatEv, got *Term, what flatEv, pos token.Pos) {
	s, e := elapsed(evs, got)
	switch {
	case s == nil || e == nil:
		if opaqueTerm(got) || strip(got).Op == "call" && s == nil && e == nil {
			c.undecided("measured-duration", construct, pos, "the duration is %s", short(got))
		} else {
			c.fail("measured-duration", construct, pos, "the duration is %s", short(got))
		}
	case s.Seq > what.Seq:
		c.fail("measured-duration", construct, pos, "the measurement starts after %s", what.Callee)
	case e.Seq < what.Seq:
		c.fail("measured-duration", construct, pos, "the measurement ends before %s", what.Callee)
	default:
		c.ok("measured-duration", construct, pos)
	}
}

func (c *Check) statOf(o *Outcome, field string) *Term {
	return strip(c.fieldIn(o.St.heap, sStats(), field, nil))
}

func unchanged(v *Term, field string) bool {
	return v.Op == "fld" && v.Name == field && same(strip(v.Args[0]), sStats())
}

func (c *Check) s04Load() {
	f, outs := c.loadRoot()
	if f == nil {
		return
	}
	for _, o := range outs {
		if o.Kind != "ret" || nilness(o.St.facts, o.Rets[0]) != 1 || nilness(o.St.facts, sStats()) == 1 {
			continue
		}
		evs := flatten(o.St.trace)
		decs := find(evs, decodeNames...)
		if len(decs) != 1 {
			continue
		}
		pos := decs[0].Pos
		size := c.statOf(o, "RequestSize")
		for size.Op == "conv" {
			size = strip(size.Args[0])
		}
		want := mkFld(sReq(), "ContentLength", nil)
		switch {
		case same(size, want):
			c.ok("request-size", "LoadArgs RequestSize", pos)
		case opaqueTerm(size):
			c.undecided("request-size", "LoadArgs RequestSize", pos, "the request size is %s", short(size))
		default:
			c.fail("request-size", "LoadArgs RequestSize", pos, "the request size is recorded as %s", short(size))
		}
		c.measured("LoadArgs Unmarshalling", evs, c.statOf(o, "Unmarshalling"), decs[0], pos)
		for _, fld := range []string{"Package", "Service", "Func", "Execution", "Marshalling", "ResponseSize", "ErrorCode", "ErrorType", "ErrorMessage"} {
			v := c.statOf(o, fld)
			c.require(unchanged(v, fld), "other-statistics-kept", "LoadArgs "+fld, pos, "loading the arguments sets %s to %s", fld, short(v))
		}
	}
}

func (c *Check) s04Reply() {
	old := c.inline
	c.inline = func(fn *ssa.Function) bool { return !(fn.Name() == "NewError" && fn.Pkg == c.P.root) }
	defer func() { c.inline = old }()
	f, outs := c.replyRoot()
	if f == nil {
		return
	}
	const name = "Reply"
	var okOuts []*Outcome
	for _, o := range outs {
		if o.Kind != "ret" || nilness(o.St.facts, o.Rets[0]) != 1 {
			continue
		}
		if nilness(o.St.facts, sStats()) == 1 {
			continue
		}
		n := *o
		n.St = o.St.clone()
		if !n.St.facts.add(fNot(formOf(mkIsNil(sStats())))) {
			continue
		}
		okOuts = append(okOuts, &n)
		evs := flatten(o.St.trace)
		encs := find(evs, encodeNames...)
		if len(encs) != 1 {
			continue
		}
		pos := encs[0].Pos
		c.measured("Reply Marshalling", evs, c.statOf(o, "Marshalling"), encs[0], pos)
		var body *Term
		var wr flatEv
		for _, e := range evs {
			if bodyWrite(e.Event) {
				body, _ = payload(o.St.trace, e)
				wr = e
			}
		}
		size := c.statOf(o, "ResponseSize")
		for size.Op == "conv" {
			size = strip(size.Args[0])
		}
		l := lengthOf(size)
		switch {
		case body == nil:
			c.undecided("response-size", "Reply ResponseSize", pos, "the body is not visible")
		case l != nil && same(l, body):
			c.ok("response-size", "Reply ResponseSize", pos)
		case size.Op == "res" && size.Name == "0" && wr.Event != nil && same(size.Args[0], wr.Res):
			c.ok("response-size", "Reply ResponseSize", pos)
		case l != nil && l.Op == "content" && body.Op == "content" && same(l.Args[0], body.Args[0]):
			// another version of the buffer: which events changed it in between
			lo, hi := atoi(body.Name), atoi(l.Name)
			bad := hi < lo
			why := "before it was complete"
			n := 0
			for _, e := range o.St.trace {
				if touches(e, body.Args[0].Key()) {
					n++
					if n > lo && n <= hi && isCallTo(e, "(*bytes.Buffer).WriteTo", "(*bytes.Buffer).Reset", "(*bytes.Buffer).Truncate", "(*bytes.Buffer).Read", "(*bytes.Buffer).Next", "io.Copy", "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString") {
						bad, why = true, "after "+e.Callee+" changed it"
					}
				}
			}
			if bad {
				c.fail("response-size", "Reply ResponseSize", pos, "the size of the buffer is taken %s", why)
			} else {
				c.undecided("response-size", "Reply ResponseSize", pos, "the response size is %s", short(size))
			}
		case opaqueTerm(size):
			c.undecided("response-size", "Reply ResponseSize", pos, "the response size is %s", short(size))
		default:
			c.fail("response-size", "Reply ResponseSize", pos, "the response size is recorded as %s, the body is %s", short(size), short(body))
		}
		for _, fld := range []string{"Package", "Service", "Func", "Execution", "Unmarshalling", "RequestSize"} {
			v := c.statOf(o, fld)
			c.require(unchanged(v, fld), "other-statistics-kept", "Reply "+fld, pos, "replying sets %s to %s", fld, short(v))
		}
	}
	if !c.require(len(okOuts) > 0, "reply-statistics", name, f.Pos(), "no successful reply records statistics") {
		return
	}
	resp := sResp()
	last := mkIndex(resp, mkAdd(mkLen(resp), intTerm(-1)), nil)
	codeIface := types.NewInterfaceType([]*types.Func{types.NewFunc(0, nil, "ErrorCode", types.NewSignatureType(nil, nil, nil, nil,
		types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Int])), false))}, nil)
	codeIface.Complete()
	atoms := []atom{
		{"there are return values", mkNot(mkEmpty(resp))},
		{"the last is an error", mkIs(last, errIface)},
		{"it is a zero value", mk("call", "(reflect.Value).IsZero", nil, mk("call", "reflect.ValueOf", nil, last))},
		{"it has an error code", mkIs(last, codeIface)},
	}
	for _, encoding := range []string{"application/json; charset=utf-8", "application/msgpack; charset=utf-8"} {
		var sel []*Outcome
		for _, o := range okOuts {
			if u, _ := underContentType(o, mkFld(sReq(), "Header", nil), encoding); u != nil {
				sel = append(sel, u)
			}
		}
		kind := "json"
		if strings.Contains(encoding, "msgpack") {
			kind = "msgpack"
		}
		c.table("error-statistics", "Reply "+kind, f.Pos(), sel, nil, atoms, func(m model) bool {
			if !m["there are return values"] {
				return !m["the last is an error"] && !m["it is a zero value"] && !m["it has an error code"]
			}
			return true
		}, func(m model, o *Outcome) (bool, string) {
			code, typ, msg := c.statOf(o, "ErrorCode"), canonTerm(c.statOf(o, "ErrorType")), canonTerm(c.statOf(o, "ErrorMessage"))
			if !(m["there are return values"] && m["the last is an error"] && !m["it is a zero value"]) {
				for i, v := range []*Term{code, typ, msg} {
					fld := []string{"ErrorCode", "ErrorType", "ErrorMessage"}[i]
					zero := same(v, intTerm(0)) || same(v, strTerm(""))
					if !unchanged(v, fld) && !zero {
						return false, differs(fld, v, mkFld(sStats(), fld, nil))
					}
				}
				return true, ""
			}
			if want := typeStr(typeOf(last)); !same(typ, want) {
				return false, differs("ErrorType", typ, want)
			}
			if want := errText(last); !same(deepStrip(msg), deepStrip(want)) && !same(canonTerm(deAs(msg)), want) {
				return false, differs("ErrorMessage", msg, want)
			}
			if m["it has an error code"] {
				c1 := canonTerm(deAs(code))
				if c1.Op == "const" && o.St.facts.equalsCall(").ErrorCode", last, c1) {
					return true, ""
				}
				if c1.Op != "call" || !strings.HasSuffix(c1.Name, ").ErrorCode") || !same(strip(c1.Args[0]), last) {
					return false, differs("ErrorCode", code, mk("call", "ErrorCode", nil, last))
				}
			} else if !same(code, intTerm(1)) {
				return false, differs("ErrorCode", code, intTerm(1))
			}
			return true, ""
		})
	}
}

// deAs removes interface assertions.
func deAs(t *Term) *Term {
	return rewrite(t, func(x *Term) *Term {
		if x.Op == "as" || x.Op == "iface" {
			return x.Args[0]
		}
		return x
	})
}

// ---- prometheus ------------------------------------------------------------------------------------

type promObs struct {
	metric string
	labels map[string]*Term
	val    *Term
	vec    *Term
	pos    token.Pos
}

// optField reads a field of an options literal.
func optField(t *Term, name string) *Term {
	t = strip(t)
	var res *Term
	if t.Op == "struct" {
		for _, a := range t.Args {
			if a.Op == "fv" && a.Name == name {
				res = a.Args[0]
			}
		}
	}
	return res
}

func (c *Check) s04Prom() {
	sp := c.driver("prom", drvProm)
	if sp == nil {
		return
	}
	q := func(n string) *Term { return mk("param", n, nil) }
	service := map[string]map[string]*Term{
		"size": {"request": q("requestSize"), "response": q("responseSize")},
		"time": {"unmarshalling": q("unmarshalling"), "execution": q("execution"), "marshalling": q("marshalling")},
	}
	gorpc := map[string]map[string]*Term{"time": {"execution": q("execution")}}
	quant := []string{"pkg", "service", "fn", "execution", "marshalling", "unmarshalling", "requestSize", "responseSize", "errorCode", "errorType", "errorMessage"}
	c.promDriver(sp, "Service", append([]string{"w", "r"}, quant...), service)
	c.promDriver(sp, "GoRPC", quant, gorpc)
}

func (c *Check) promDriver(sp *ssa.Package, name string, params []string, want map[string]map[string]*Term) {
	f, outs := c.driverRoot(sp, name, params...)
	if f == nil {
		return
	}
	construct := "prometheus " + name
	for _, o := range outs {
		if o.Kind != "ret" {
			if failedExternally(o) {
				continue // an error of the metrics library is reported by panicking, as WithLabelValues does
			}
			c.fail("observations", construct, o.Pos, "panics")
			continue
		}
		evs := flatten(o.St.trace)
		registered := map[string]bool{}
		for _, e := range evs {
			if isCallTo(e.Event, "*.MustRegister", "*.Register") {
				for _, a := range e.Args {
					walk(a, func(x *Term) bool { registered[x.Key()] = true; return true })
				}
			}
		}
		seen := map[string]int{}
		unknown := false
		for _, e := range evs {
			if e.Kind != "call" || !strings.HasSuffix(e.Callee, ").Observe") {
				continue
			}
			if len(e.Loop) > 0 || len(e.Cond) > 0 {
				c.undecided("observations", construct, e.Pos, "observed in a loop")
				unknown = true
				continue
			}
			rec := strip(e.Args[0])
			if !(rec.Op == "call" && strings.HasSuffix(rec.Name, "Vec).WithLabelValues") && len(rec.Args) == 2 && rec.Args[1].Op == "list") {
				c.undecided("observations", construct, e.Pos, "observed on %s", short(rec))
				unknown = true
				continue
			}
			vec := strip(rec.Args[0])
			if vec.Op != "call" || !strings.Contains(vec.Name, ".New") || len(vec.Args) != 2 || vec.Args[1].Op != "list" {
				c.undecided("observations", construct, e.Pos, "observed on the metric %s", short(vec))
				unknown = true
				continue
			}
			var names []string
			for _, a := range vec.Args[1].Args {
				s, _ := constStr(strip(a))
				names = append(names, s)
			}
			vals := rec.Args[1].Args
			metric, _ := constStr(strip(orNil(optField(vec.Args[0], "Name"))))
			if metric == "" || len(names) == 0 {
				c.undecided("observations", construct, e.Pos, "metric %s", short(vec))
				unknown = true
				continue
			}
			if !c.require(len(names) == len(vals), "label-values", construct, e.Pos, "%d values for the %d labels of %s", len(vals), len(names), metric) {
				continue
			}
			lab := map[string]*Term{}
			for i, n := range names {
				lab[n] = strip(vals[i])
			}
			for l, p := range map[string]string{"package": "pkg", "service": "service", "func": "fn"} {
				v := lab[l]
				if v == nil {
					c.fail("label-values", construct+" "+metric+" "+l, e.Pos, "the metric %s has no label %s", metric, l)
					continue
				}
				c.require(same(v, mk("param", p, nil)), "label-values", construct+" "+metric+" "+l, e.Pos, "the label %s of %s is %s", l, metric, short(v))
			}
			typ, ok := constStr(orNil(lab["type"]))
			if !ok {
				c.fail("label-values", construct+" "+metric+" type", e.Pos, "the label type of %s is %s", metric, short(orNil(lab["type"])))
				continue
			}
			base, unit := unitOf(metric)
			key := metric + " " + typ
			seen[base+" "+typ]++
			w := want[base][typ]
			if w == nil {
				if base == "" {
					c.undecided("observations", construct+" "+key, e.Pos, "the metric name announces no known unit")
					unknown = true
				} else {
					c.fail("observations", construct+" "+key, e.Pos, "no statistic is called %s", typ)
				}
				continue
			}
			c.require(registered[vec.Key()], "metric-registered", construct+" "+metric, e.Pos, "the metric %s is never registered", metric)
			quantity, u := inUnit(e.Args[1])
			switch {
			case quantity == nil:
				c.undecided("observed-value", construct+" "+key, e.Pos, "the observed value is %s", short(e.Args[1]))
			case !same(quantity, w):
				c.fail("observed-value", construct+" "+key, e.Pos, "the observation labelled %s observes %s", typ, short(quantity))
			default:
				if base == "size" && u == "raw" {
					u = "bytes"
				} else if u == "raw" {
					u = "nanoseconds"
				}
				c.require(u == unit, "observed-unit", construct+" "+key, e.Pos, "the metric %s is observed in %s", metric, u)
			}
		}
		for b, m := range want {
			for t := range m {
				n := seen[b+" "+t]
				if n == 0 && unknown {
					c.undecided("observed-once", construct+" "+b+" "+t, f.Pos(), "not found among the understood observations")
					continue
				}
				c.require(n == 1, "observed-once", construct+" "+b+" "+t, o.Pos, "the %s of a call is observed %d times (%s)", t, n, b)
			}
		}
	}
}

func orNil(t *Term) *Term {
	if t == nil {
		return mk("nil", "", nil)
	}
	return t
}

// unitOf reads the unit off a metric name.
func unitOf(name string) (base, unit string) {
	for _, u := range []string{"nanoseconds", "microseconds", "milliseconds", "seconds"} {
		if strings.HasSuffix(name, u) {
			return "time", u
		}
	}
	if strings.HasSuffix(name, "bytes") {
		return "size", "bytes"
	}
	return "", ""
}

// inUnit decomposes an observed value into a quantity and a unit.
func inUnit(t *Term) (q *Term, unit string) {
	un := func(x *Term) *Term {
		x = strip(x)
		for x.Op == "conv" || x.Op == "cast" {
			x = strip(x.Args[0])
		}
		return x
	}
	x := un(t)
	if x.Op == "param" {
		return x, "raw"
	}
	if x.Op == "call" && len(x.Args) == 1 {
		switch x.Name {
		case "(time.Duration).Seconds":
			return un(x.Args[0]), "seconds"
		case "(time.Duration).Nanoseconds":
			return un(x.Args[0]), "nanoseconds"
		case "(time.Duration).Milliseconds":
			return un(x.Args[0]), "milliseconds"
		case "(time.Duration).Microseconds":
			return un(x.Args[0]), "microseconds"
		}
		return nil, ""
	}
	if x.Op == "bin" && x.Name == "/" {
		y := un(x.Args[1])
		p := un(x.Args[0])
		if p.Op != "param" {
			return nil, ""
		}
		for u, n := range map[string]string{"seconds": "1000000000", "milliseconds": "1000000", "microseconds": "1000", "nanoseconds": "1"} {
			if y.Op == "const" && y.Name == n {
				return p, u
			}
		}
	}
	return nil, ""
}

// equalsCall: the facts say that a method called on x returned v.
func (f *Facts) equalsCall(method string, x, v *Term) bool {
	for _, k := range f.order {
		a := f.atoms[k]
		if !f.val[k] || a.Op != "eq" {
			continue
		}
		for i := range a.Args {
			if y := canonTerm(deAs(a.Args[i])); y.Op == "call" && strings.HasSuffix(y.Name, method) && same(strip(y.Args[0]), x) && same(a.Args[1-i], v) {
				return true
			}
		}
	}
	return false
}

// failedExternally: the path was taken because the metrics library returned an error.
func failedExternally(o *Outcome) bool {
	for _, k := range o.St.facts.order {
		a := o.St.facts.atoms[k]
		if a == nil || a.Op != "isnil" || o.St.facts.val[k] || !isErrorType(a.Args[0].Typ) {
			continue
		}
		ext := false
		walk(a.Args[0], func(y *Term) bool {
			ext = ext || y.Op == "call" && strings.Contains(y.Name, "prometheus")
			return true
		})
		if ext {
			return true
		}
	}
	return false
}
