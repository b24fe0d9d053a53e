ALL=[]
G="gotsrpc.go"; R="responsewriter.go"; I="instrumentation.go"; P="prometheus/prometheus.go"
STAT='''	if stats != nil {
		stats.ResponseSize = buf.Len()
		stats.Marshalling = time.Since(serializationStart)
'''
WH='''	if !r.wroteHeader && (status >= http.StatusOK || status == http.StatusSwitchingProtocols) {
		r.status = status
		r.wroteHeader = true
	}
'''
MUTANTS=[
 # --- behaviour preserving
 ("r-status-early",[(R,WH+"	r.ResponseWriter.WriteHeader(status)","""	defer r.ResponseWriter.WriteHeader(status)
	if r.wroteHeader || status < 200 && status != 101 {
		return
	}
	r.wroteHeader, r.status = true, status""")],[]),
 ("r-status-zero",[(R,"	if !r.wroteHeader {\n		return http.StatusOK\n	}\n	return r.status","	if r.status == 0 {\n		return http.StatusOK\n	}\n	return r.status"),(R,"!r.wroteHeader &&","r.status == 0 &&"),(R,"		r.wroteHeader = true\n",""),(R,"	wroteHeader bool\n","")],[]),
 ("r-status-helper",[(R,"(status >= http.StatusOK || status == http.StatusSwitchingProtocols)","isFinal(status)"),(R,"func (r *ResponseWriter) Status()","""func isFinal(status int) bool {
	switch {
	case status == http.StatusSwitchingProtocols:
		return true
	case status < http.StatusOK:
		return false
	}
	return true
}

func (r *ResponseWriter) Status()""")],[]),
 ("r-write-explicit",[(R,"func (r *ResponseWriter) Status()","func (r *ResponseWriter) Write(b []byte) (int, error) {\n	return r.ResponseWriter.Write(b)\n}\n\nfunc (r *ResponseWriter) Status()")],[]),
 ("r-write-implicit200",[(R,"func (r *ResponseWriter) Status()","func (r *ResponseWriter) Write(b []byte) (int, error) {\n	if !r.wroteHeader {\n		r.status, r.wroteHeader = 200, true\n	}\n	return r.ResponseWriter.Write(b)\n}\n\nfunc (r *ResponseWriter) Status()")],[]),
 ("r-instr-newreq",[(I,"		*r = *RequestWithStatsContext(r)\n","		r = RequestWithStatsContext(r)\n")],[]),
 ("r-instr-early",[(I,"""		if stats, ok := GetStatsForRequest(r); ok {
			handleStats(stats)
		}""","""		stats, ok := GetStatsForRequest(r)
		if !ok {
			return
		}
		handleStats(stats)""")],[]),
 ("r-getstats",[(G,"""	if value, ok := r.Context().Value(contextStatsKey).(*CallStats); ok && value != nil {
		return value, true
	} else {
		return &CallStats{}, false
	}""","""	value, _ := r.Context().Value(contextStatsKey).(*CallStats)
	if value == nil {
		return new(CallStats), false
	}
	return value, true""")],[]),
 ("r-attach",[(G,"""	stats := &CallStats{}
	return r.WithContext(context.WithValue(r.Context(), contextStatsKey, stats))""","""	ctx := context.WithValue(r.Context(), contextStatsKey, new(CallStats))
	return r.WithContext(ctx)""")],[]),
 ("r-clear-typednil",[(G,"contextStatsKey, nil))","contextStatsKey, (*CallStats)(nil)))")],[]),
 ("r-keytype",[(G,"type contextKey string\n\nconst contextStatsKey contextKey = \"gotsrpcStats\"","type contextKey struct{}\n\nvar contextStatsKey = contextKey{}")],[]),
 ("r-load-early",[(G,"""	if callStats != nil {
		callStats.Unmarshalling = time.Since(start)
		callStats.RequestSize = int(r.ContentLength)
	}
	return nil
}""","""	if callStats == nil {
		return nil
	}
	callStats.RequestSize = int(r.ContentLength)
	callStats.Unmarshalling = time.Now().Sub(start)
	return nil
}""")],[]),
 ("r-load-split",[(G,"""	if errDecode := codec.NewDecoder(r.Body, handle).Decode(args); errDecode != nil {""","""	decoder := codec.NewDecoder(r.Body, handle)
	errDecode := decoder.Decode(args)
	if errDecode != nil {""")],[]),
 ("r-marsh-early",[(G,STAT,"	if stats != nil {\n		stats.ResponseSize = size\n		stats.Marshalling = marshalling\n"),(G,'	w.Header().Set("Content-Length", strconv.Itoa(buf.Len()))','	marshalling := time.Since(serializationStart)\n	size := buf.Len()\n	w.Header().Set("Content-Length", strconv.Itoa(size))')],[]),
 ("r-marsh-late",[(G,"	serializationStart := time.Now()\n\n",""),(G,"	buf := new(bytes.Buffer)\n","	serializationStart := time.Now()\n	buf := new(bytes.Buffer)\n")],[]),
 ("r-size-n",[(G,"	if _, err := w.Write(buf.Bytes()); err != nil {","	n, err := w.Write(buf.Bytes())\n	if err != nil {"),(G,"stats.ResponseSize = buf.Len()","stats.ResponseSize = n")],[]),
 ("r-errstats-code",[(G,"""					stats.ErrorCode = 1
""",""),(G,"""					}); ok {
						stats.ErrorCode = v.ErrorCode()
					}""","""					}); ok {
						stats.ErrorCode = v.ErrorCode()
					} else {
						stats.ErrorCode = 1
					}""")],[]),
 ("r-errstats-typeof",[(G,'fmt.Sprintf("%T", v)','reflect.TypeOf(v).String()')],[]),
 ("r-prom-dur",[(P,"Observe(float64(stats.Execution))","Observe(float64(stats.Execution.Nanoseconds()))")],[]),
 ("r-prom-helper",[(P,'''		requestDuration.WithLabelValues(stats.Package, stats.Service, stats.Func, "unmarshalling").Observe(float64(stats.Unmarshalling))
		requestDuration.WithLabelValues(stats.Package, stats.Service, stats.Func, "execution").Observe(float64(stats.Execution))
		requestDuration.WithLabelValues(stats.Package, stats.Service, stats.Func, "marshalling").Observe(float64(stats.Marshalling))
''','''		observe := func(kind string, d float64) {
			requestDuration.WithLabelValues(stats.Package, stats.Service, stats.Func, kind).Observe(d)
		}
		observe("unmarshalling", float64(stats.Unmarshalling))
		observe("execution", float64(stats.Execution))
		observe("marshalling", float64(stats.Marshalling))
''')],[]),
 ("r-prom-map",[(P,'''		requestDuration.WithLabelValues(stats.Package, stats.Service, stats.Func, "unmarshalling").Observe(float64(stats.Unmarshalling))
		requestDuration.WithLabelValues(stats.Package, stats.Service, stats.Func, "execution").Observe(float64(stats.Execution))
		requestDuration.WithLabelValues(stats.Package, stats.Service, stats.Func, "marshalling").Observe(float64(stats.Marshalling))
''','''		for kind, d := range map[string]float64{
			"unmarshalling": float64(stats.Unmarshalling),
			"execution":     float64(stats.Execution),
			"marshalling":   float64(stats.Marshalling),
		} {
			requestDuration.WithLabelValues(stats.Package, stats.Service, stats.Func, kind).Observe(d)
		}
''')],[]),
 ("r-prom-sec",[(P,"stats.Execution.Seconds()","float64(stats.Execution) / float64(time.Second)"),(P,'	"net/http"\n','	"net/http"\n	"time"\n')],[]),
 ("r-prom-labelsvar",[(P,'''	requestSize := p.NewSummaryVec(''','''	labels := []string{"package", "service", "func", "type"}
	requestSize := p.NewSummaryVec('''),(P,'''	}, []string{"package", "service", "func", "type"})

	p.MustRegister(requestSize)
	p.MustRegister(requestDuration)''','''	}, labels)

	p.MustRegister(requestSize, requestDuration)''')],[]),
 # --- breaking
 ("m-lastwins",[(R,"!r.wroteHeader &&","")],"S03"),
 ("m-nopass",[(R,"	r.ResponseWriter.WriteHeader(status)","	if r.status == status {\n		r.ResponseWriter.WriteHeader(status)\n	}")],"S03"),
 ("m-info",[(R,"status == http.StatusSwitchingProtocols","status == http.StatusEarlyHints")],"S03"),
 ("m-boundary",[(R,"status >= http.StatusOK","status > http.StatusOK")],"S03"),
 ("m-default",[(R,"		return http.StatusOK\n	}\n	return r.status","		return r.status\n	}\n	return r.status")],"S03"),
 ("m-204",[(R,"	return r.status\n","	if r.status == http.StatusNoContent {\n		return http.StatusOK\n	}\n	return r.status\n")],"S03"),
 ("m-write-sets",[(R,"func (r *ResponseWriter) Status()","func (r *ResponseWriter) Write(b []byte) (int, error) {\n	r.status, r.wroteHeader = 200, true\n	return r.ResponseWriter.Write(b)\n}\n\nfunc (r *ResponseWriter) Status()")],"S03"),
 ("m-shared-stats",[(G,"	stats := &CallStats{}\n	return r.With","	stats := sharedStats\n	return r.With"),(G,"func RequestWithStatsContext","var sharedStats = &CallStats{}\n\nfunc RequestWithStatsContext")],"S04"),
 ("m-noclear",[(G,"	*r = *r.WithContext(context.WithValue(r.Context(), contextStatsKey, nil))","	_ = r.WithContext(context.WithValue(r.Context(), contextStatsKey, nil))")],"S04"),
 ("m-getalways",[(G,"		return &CallStats{}, false","		return &CallStats{}, true")],"S04"),
 ("m-instr-before",[(I,"		middleware(w, r)\n		if stats","		defer middleware(w, r)\n		if stats")],"S04"),
 ("m-instr-early",[(I,"""		middleware(w, r)
		if stats, ok := GetStatsForRequest(r); ok {
			handleStats(stats)
		}""","""		stats, ok := GetStatsForRequest(r)
		middleware(w, r)
		if ok {
			handleStats(stats)
		}""")],"S04"),
 ("m-instr-copy",[(I,"			handleStats(stats)","			s := *stats\n			handleStats(&s)\n			handleStats(stats)")],"S04"),
 ("m-instr-ignoreok",[(I,"if stats, ok := GetStatsForRequest(r); ok {","if stats, _ := GetStatsForRequest(r); stats != nil {")],"S04"),
 ("m-instr-nostats",[(I,"		*r = *RequestWithStatsContext(r)\n","		rr := RequestWithStatsContext(r)\n		_ = rr\n")],"S04"),
 ("m-instr-once",[(I,"	return func(w http.ResponseWriter, r *http.Request) {\n		*r = *RequestWithStatsContext(r)","	attached := RequestWithStatsContext(&http.Request{})\n	return func(w http.ResponseWriter, r *http.Request) {\n		*r = *r.WithContext(attached.Context())")],"S04"),
 ("m-load-size",[(G,"callStats.RequestSize = int(r.ContentLength)","callStats.ResponseSize = int(r.ContentLength)")],"S04"),
 ("m-load-start",[(G,"	if callStats != nil {\n		callStats.Unm","	start = time.Now()\n	if callStats != nil {\n		callStats.Unm")],"S04"),
 ("m-load-time",[(G,"	handle := getHandlerForContentType(r.Header.Get(\"Content-Type\")).handle\n","	handle := getHandlerForContentType(r.Header.Get(\"Content-Type\")).handle\n	took := time.Since(start)\n"),(G,"callStats.Unmarshalling = time.Since(start)","callStats.Unmarshalling = took")],"S04"),
 ("m-writeto-len0",[(G,"	if _, err := w.Write(buf.Bytes()); err != nil {","	if _, err := buf.WriteTo(w); err != nil {")],"S04"),
 ("m-resp-size",[(G,"stats.ResponseSize = buf.Len()","stats.ResponseSize = buf.Cap()")],"S04"),
 ("m-resp-size2",[(G,"stats.ResponseSize = buf.Len()","stats.ResponseSize = len(response)")],"S04"),
 ("m-err-first",[(G,"errResp := response[len(response)-1]","errResp := response[0]")],"S04"),
 ("m-err-reply",[(G,"errResp := response[len(response)-1]","errResp := reply[len(reply)-1]")],"S04"),
 ("m-err-zero",[(G,'	"reflect"\n',''),(G,"				if !reflect.ValueOf(v).IsZero() {","				if v.Error() != \"\" {")],"S04"),
 ("m-err-code",[(G,"					stats.ErrorCode = 1\n","")],"S04"),
 ("m-err-code2",[(G,"					}); ok {\n						stats.ErrorCode","					}); ok && v.ErrorCode() != 1 {\n						stats.ErrorCode")],[]),
 ("m-err-code3",[(G,"					}); ok {\n						stats.ErrorCode","					}); ok && v.ErrorCode() > 0 {\n						stats.ErrorCode")],"S04"),
 ("m-err-msg",[(G,'stats.ErrorMessage = v.Error()','stats.ErrorMessage = stats.ErrorType')],"S04"),
 ("m-err-type",[(G,'fmt.Sprintf("%T", v)','reflect.TypeOf(v).Kind().String()')],"S04"),
 ("m-err-wrapped",[(G,"if v, ok := errResp.(error); ok && v != nil {","if v, ok := errResp.(error); ok && errors.Cause(v) != nil {\n				v = errors.Cause(v)")],"S04"),
 ("m-stat-reset",[(G,"		stats.ResponseSize = buf.Len()","		stats.RequestSize = 0\n		stats.ResponseSize = buf.Len()")],"S04"),
 ("m-prom-unit",[(P,"stats.Execution.Seconds()","float64(stats.Execution.Milliseconds())")],"S04"),
 ("m-prom-unit2",[(P,'"execution").Observe(float64(stats.Execution))','"execution").Observe(stats.Execution.Seconds())')],"S04"),
 ("m-prom-swap",[(P,'"unmarshalling").Observe(float64(stats.Unmarshalling))','"unmarshalling").Observe(float64(stats.Marshalling))')],"S04"),
 ("m-prom-labels",[(P,'stats.Package, stats.Service, stats.Func, "response"','stats.Service, stats.Package, stats.Func, "response"')],"S04"),
 ("m-prom-labelnames",[(P,'[]string{"package", "service", "func", "type"}','[]string{"service", "package", "func", "type"}')],"S04"),
 ("m-prom-noreg",[(P,"	p.MustRegister(requestSize)\n","")],"S04"),
 ("m-prom-miss",[(P,'		requestSize.WithLabelValues(stats.Package, stats.Service, stats.Func, "response").Observe(float64(stats.ResponseSize))\n','')],"S04"),
 ("m-prom-cond",[(P,'		requestSize.WithLabelValues(stats.Package, stats.Service, stats.Func, "response").Observe(float64(stats.ResponseSize))\n','		if stats.ErrorCode == 0 {\n			requestSize.WithLabelValues(stats.Package, stats.Service, stats.Func, "response").Observe(float64(stats.ResponseSize))\n		}\n')],"S04"),
 ("m-load-noargs",[(G,"Decode(args); errDecode","Decode(&args); errDecode")],[]),
 ("m-load-limit",[(G,"codec.NewDecoder(r.Body, handle)","codec.NewDecoder(io.LimitReader(r.Body, 1<<20), handle)"),(G,'	"go/ast"','	"go/ast"\n	"io"')],"S02"),
 ("m-load-eof",[(G,"	if errDecode := codec.NewDecoder(r.Body, handle).Decode(args); errDecode != nil {","	if errDecode := codec.NewDecoder(r.Body, handle).Decode(args); errDecode != nil && errDecode != io.EOF {"),(G,'	"go/ast"','	"go/ast"\n	"io"')],"S02"),
 ("m-load-swallow",[(G,'return errors.Wrap(errDecode, "could not decode arguments")','return errors.Wrap(nil, "could not decode arguments")')],"S02"),
 ("m-load-statserr",[(G,"		_, _ = fmt.Fprintln(os.Stderr, errDecode.Error())\n","		_, _ = fmt.Fprintln(os.Stderr, errDecode.Error())\n		if callStats != nil {\n			callStats.RequestSize = int(r.ContentLength)\n		}\n")],"S02"),
 ("m-load-skip",[(G,"	start := time.Now()\n\n	handle :=","	start := time.Now()\n	if r.ContentLength == 0 {\n		return nil\n	}\n	handle :=")],"S02"),
 ("m-load-newerr",[(G,'return errors.Wrap(errDecode, "could not decode arguments")','return errors.New("could not decode arguments")')],"S02"),
]
