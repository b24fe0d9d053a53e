ALL=[]
G="gotsrpc.go"; T="transport.go"; CL="client.go"; E="error.go"; X="timeext.go"; I="instrumentation.go"
MUTANTS=[
 # --- behaviour preserving
 ("r-hdr-loop",[(CL,"	if len(headers) > 0 {\n		request.Header = headers\n	}\n","	for k, vs := range headers {\n		request.Header[k] = vs\n	}\n")],[]),
 ("r-hdr-copyloop",[(CL,"c.headers.Clone()","c.headers"),(CL,"	if len(headers) > 0 {\n		request.Header = headers\n	}\n","	for k, vs := range headers {\n		for _, v := range vs {\n			request.Header.Add(k, v)\n		}\n	}\n")],[]),
 ("r-clone2",[(G,"reply := slices.Clone(response)","reply := append([]interface{}(nil), response...)"),(G,'	"slices"\n','')],[]),
 ("r-pool",[(G,"	buf := new(bytes.Buffer)\n","	buf := bufPool.Get().(*bytes.Buffer)\n	buf.Reset()\n	defer bufPool.Put(buf)\n"),(G,"func Reply(","var bufPool = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n\nfunc Reply("),(G,'	"strings"\n','	"strings"\n	"sync"\n')],[]),
 ("r-clientlocal",[(CL,"	b := new(bytes.Buffer)\n","	handle := c.handle\n	b := new(bytes.Buffer)\n"),(CL,"codec.NewEncoder(b, c.handle.handle)","codec.NewEncoder(b, handle.handle)")],[]),
 ("r-makecopy",[(T,"		ret := make([]interface{}, len(reply))\n		for k, v := range reply {","		ret := make([]interface{}, len(reply))\n		copy(ret, reply)\n		for k, v := range reply {")],[]),
 # --- breaking
 ("m-noclone",[(CL,"c.headers.Clone()","c.headers")],"C04"),
 ("m-noclone-guard",[(CL,"c.headers.Clone()","c.callHeaders(method)"),(CL,"// Call calls","func (c *bufferedClient) callHeaders(method string) http.Header {\n	if len(c.headers) > 4 {\n		return c.headers\n	}\n	return c.headers.Clone()\n}\n\n// Call calls")],"C04"),
 ("m-shallow",[(G,"reply := slices.Clone(response)","reply := response"),(G,'	"slices"\n','')],"C04"),
 ("m-clip",[(G,"reply := slices.Clone(response)","reply := slices.Clip(response)")],"C04"),
 ("m-slice",[(G,"reply := slices.Clone(response)","reply := response[:]"),(G,'	"slices"\n','')],"C04"),
 ("m-filter",[(G,"	reply := slices.Clone(response)\n","	reply := response[:0]\n	for _, v := range response {\n		reply = append(reply, v)\n	}\n"),(G,'	"slices"\n','')],"C04"),
 ("m-globalbuf",[(G,"	buf := new(bytes.Buffer)\n","	buf := replyBuf\n	buf.Reset()\n"),(G,"func Reply(","var replyBuf = new(bytes.Buffer)\n\nfunc Reply(")],"C04"),
 ("m-clientbuf",[(CL,"	b := new(bytes.Buffer)\n","	b := &c.buf\n	b.Reset()\n"),(CL,"	headers http.Header\n}","	headers http.Header\n	buf     bytes.Buffer\n}")],"C04"),
 ("m-clientremember",[(CL,"	clientHandle := getHandlerForContentType(resp.Header.Get(\"Content-Type\"))\n","	clientHandle := getHandlerForContentType(resp.Header.Get(\"Content-Type\"))\n	c.handle = clientHandle\n")],"C04"),
 ("m-handlefield",[(G,"	clientHandle := getHandlerForContentType(r.Header.Get(\"Content-Type\"))\n","	clientHandle := getHandlerForContentType(r.Header.Get(\"Content-Type\"))\n	clientHandle.contentType = strings.ToLower(clientHandle.contentType)\n")],"C04"),
 ("m-jh",[(G,"	handle := getHandlerForContentType(r.Header.Get(\"Content-Type\")).handle\n","	handle := getHandlerForContentType(r.Header.Get(\"Content-Type\")).handle\n	if jh, ok := handle.(*codec.JsonHandle); ok {\n		jh.MapKeyAsString = true\n	}\n")],"C04"),
 ("m-setext",[(G,"	handle := getHandlerForContentType(r.Header.Get(\"Content-Type\")).handle\n","	handle := getHandlerForContentType(r.Header.Get(\"Content-Type\")).handle\n	_ = SetJSONExt(args, 1, timeExt)\n")],"C04"),
 ("m-cache",[(E,"	errElem := errType\n	if errType.Kind() == reflect.Ptr {\n		errElem = errType.Elem()\n	}\n\n	inst","	errElem := errType\n	if errType.Kind() == reflect.Ptr {\n		errElem = errType.Elem()\n	}\n	pkgOf[errType] = errElem.PkgPath()\n\n	inst"),(E,"// NewError returns","var pkgOf = map[reflect.Type]string{}\n\n// NewError returns")],"C04"),
 ("m-errlazy",[(E,"	msg := e.Msg\n	if e.ErrCause != nil {\n		msg += \": \" + e.ErrCause.Error()\n	}\n	return msg","	if e.ErrCause != nil {\n		e.Msg += \": \" + e.ErrCause.Error()\n		e.ErrCause = nil\n	}\n	return e.Msg")],"C04"),
 ("m-errdata",[(E,"	if errType.String() == e.Type && errElem.PkgPath() == e.Pkg {\n		if","	if errType.String() == e.Type && errElem.PkgPath() == e.Pkg {\n		if e.Data == nil {\n			e.Data = map[string]interface{}{}\n		}\n		if")],"C04"),
 ("m-counter",[(CL,"	// Create post url\n","	calls++\n	// Create post url\n"),(CL,"// Call calls","var calls int\n\n// Call calls")],"C04"),
 ("m-ext-state",[(X,"type TimeExt struct{}","type TimeExt struct{ last time.Time }"),(X,"	*tt = time.UnixMilli(src.(int64)).Local() //nolint:forcetypeassert\n","	x.last = time.UnixMilli(src.(int64)).Local() //nolint:forcetypeassert\n	*tt = x.last\n")],"C04"),
 ("m-poolearly",[(G,"	buf := new(bytes.Buffer)\n","	buf := bufPool.Get().(*bytes.Buffer)\n	buf.Reset()\n"),(G,"	if _, err := w.Write(buf.Bytes())","	data := buf.Bytes()\n	bufPool.Put(buf)\n	if _, err := w.Write(data)"),(G,"func Reply(","var bufPool = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n\nfunc Reply("),(G,'	"strings"\n','	"strings"\n	"sync"\n')],"C04"),
 ("m-poolbody",[(CL,"	b := new(bytes.Buffer)\n","	b := bufPool.Get().(*bytes.Buffer)\n	b.Reset()\n	defer bufPool.Put(b)\n"),(CL,"// Call calls","var bufPool = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n\n// Call calls"),(CL,'	"net/http"\n','	"net/http"\n	"sync"\n')],"C04"),
 ("m-args-inplace",[(CL,"	if len(args) > 0 {\n","	for i, a := range args {\n		if e, ok := a.(error); ok {\n			args[i] = NewError(e)\n		}\n	}\n	if len(args) > 0 {\n")],"C04"),
 ("m-statsshared",[(I,"	return func(w http.ResponseWriter, r *http.Request) {\n","	calls := 0\n	return func(w http.ResponseWriter, r *http.Request) {\n		calls++\n")],"C04"),
 ("m-deep",[(T,"					(*resp)[k] = NewError(e)","					n := NewError(e)\n					n.Data = nil\n					(*resp)[k] = n")],"C04"),
]
