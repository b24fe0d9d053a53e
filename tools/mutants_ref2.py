exec(open(__file__.replace("mutants_ref2","mutants_rt2")).read().split("MUTANTS=[")[0].replace("__file__","__file__"))
CALLBODY_OLD=SEND
MUTANTS=[
 ("r-setheaders-clone",[(C,'	c.headers = headers\n','	c.headers = headers.Clone()\n')],[]),
 ("r-newrequest-always",[(C,'	if len(headers) > 0 {\n		request.Header = headers\n	}\n','	for name, values := range headers {\n		request.Header[name] = append([]string(nil), values...)\n	}\n'),(C,'c.headers.Clone())','c.headers)')],[]),
 ("r-newrequest-add",[(C,'	if len(headers) > 0 {\n		request.Header = headers\n	}\n','	for name, values := range headers {\n		for _, value := range values {\n			request.Header.Add(name, value)\n		}\n	}\n'),(C,'c.headers.Clone())','c.headers)')],[]),
 ("r-hdr-list",[(C,HDRS,'''	for _, kv := range [][2]string{
		{"Content-Type", contentType},
		{"Accept", contentType},
		{HeaderServiceToService, "true"},
	} {
		request.Header.Set(kv[0], kv[1])
	}
''')],[]),
 ("r-hdr-map",[(C,HDRS,'''	for name, value := range map[string]string{"Content-Type": contentType, "Accept": contentType, HeaderServiceToService: "true"} {
		request.Header.Set(name, value)
	}
''')],[]),
 ("r-split-call",[(C,'	"io"\n',''),(C,'''	resp, errDo := c.client.Do(request)
	if errDo != nil {
		return NewClientError(errors.Wrap(errDo, "failed to send request"))
	}
	defer resp.Body.Close()

'''+READ+'''
	// Check status
'''+STATUS+'''
	clientHandle := getHandlerForContentType(resp.Header.Get("Content-Type"))
''','''	buf, contentType, err := c.roundTrip(request)
	if err != nil {
		return NewClientError(err)
	}

	clientHandle := getHandlerForContentType(contentType)
'''),(C,'// Call calls','''// roundTrip sends the request and reads the reply
func (c *bufferedClient) roundTrip(request *http.Request) (*bytes.Buffer, string, error) {
	resp, err := c.client.Do(request)
	if err != nil {
		return nil, "", errors.Wrap(err, "failed to send request")
	}
	defer func() {
		_ = resp.Body.Close()
	}()

	buf := &bytes.Buffer{}
	if _, err := buf.ReadFrom(resp.Body); err != nil {
		return nil, "", errors.Wrap(err, "failed to read response body")
	}
	if resp.StatusCode != http.StatusOK {
		return nil, "", NewHTTPError(buf.String(), resp.StatusCode)
	}
	return buf, resp.Header.Get("Content-Type"), nil
}

// Call calls''')],[]),
 ("r-decode-method",[(C,'''	clientHandle := getHandlerForContentType(resp.Header.Get("Content-Type"))

	wrappedReply := reply
'''+BEFORE+'''
'''+DEC+'''
	// replace error
'''+AFTER+'''
	return nil
}''','''	if err := getHandlerForContentType(resp.Header.Get("Content-Type")).decodeReply(buf.Bytes(), reply); err != nil {
		return NewClientError(err)
	}
	return nil
}'''),(C,'	"net/http"\n','	"net/http"\n'),(T,'var msgpackClientHandle','''// decodeReply decodes data into the given slots
func (h *clientHandle) decodeReply(data []byte, reply []interface{}) error {
	slots := reply
	if h.beforeDecodeReply != nil {
		var err error
		if slots, err = h.beforeDecodeReply(reply); err != nil {
			return errors.Wrap(err, "failed to call beforeDecodeReply hook")
		}
	}
	if err := codec.NewDecoderBytes(data, h.handle).Decode(slots); err != nil {
		return errors.Wrap(err, "failed to decode response")
	}
	if h.afterDecodeReply == nil {
		return nil
	}
	if err := h.afterDecodeReply(&reply, slots); err != nil {
		return errors.Wrap(err, "failed to call afterDecodeReply hook")
	}
	return nil
}

var msgpackClientHandle''')],[]),
 ("r-fail-closure",[(C,'	// Marshall args\n','''	fail := func(err error, msg string) error {
		return NewClientError(errors.Wrap(err, msg))
	}
	// Marshall args
'''),(C,'return NewClientError(errors.Wrap(errDo, "failed to send request"))','return fail(errDo, "failed to send request")'),(C,'return NewClientError(errors.Wrap(err, "failed to read response body"))','return fail(err, "failed to read response body")'),(C,'return NewClientError(errors.Wrap(err, "failed to decode response"))','return fail(err, "failed to decode response")')],[]),
 ("r-named-defer-wrap",[(C,'args []interface{}, reply []interface{}) error {\n	// Marshall','args []interface{}, reply []interface{}) error {\n	if err := c.call(ctx, url, endpoint, method, args, reply); err != nil {\n		return NewClientError(err)\n	}\n	return nil\n}\n\nfunc (c *bufferedClient) call(ctx context.Context, url string, endpoint string, method string, args []interface{}, reply []interface{}) error {\n	// Marshall')]+[(C,'return NewClientError(errors.Wrap(err, "failed to encode arguments"))','return errors.Wrap(err, "failed to encode arguments")'),(C,'return NewClientError(errors.Wrap(errRequest, "failed to create request"))','return errors.Wrap(errRequest, "failed to create request")'),(C,'return NewClientError(errors.Wrap(errDo, "failed to send request"))','return errors.Wrap(errDo, "failed to send request")'),(C,'return NewClientError(errors.Wrap(err, "failed to read response body"))','return errors.Wrap(err, "failed to read response body")'),(C,'return NewClientError(NewHTTPError(buf.String(), resp.StatusCode))','return NewHTTPError(buf.String(), resp.StatusCode)'),(C,'return NewClientError(errors.Wrap(err, "failed to call beforeDecodeReply hook"))','return errors.Wrap(err, "failed to call beforeDecodeReply hook")'),(C,'return NewClientError(errors.Wrap(err, "failed to decode response"))','return errors.Wrap(err, "failed to decode response")'),(C,'return NewClientError(errors.Wrap(err, "failed to call afterDecodeReply hook"))','return errors.Wrap(err, "failed to call afterDecodeReply hook")')],[]),
 ("r-encode-bytes",[(C,'''	b := new(bytes.Buffer)

	// If no arguments are set, remove
	if len(args) > 0 {
		if err := codec.NewEncoder(b, c.handle.handle).Encode(args); err != nil {
			return NewClientError(errors.Wrap(err, "failed to encode arguments"))
		}
	}
''','''	var data []byte

	// If no arguments are set, remove
	if len(args) > 0 {
		if err := codec.NewEncoderBytes(&data, c.handle.handle).Encode(args); err != nil {
			return NewClientError(errors.Wrap(err, "failed to encode arguments"))
		}
	}
	b := bytes.NewBuffer(data)
''')],[]),
 ("r-ctor-one",[(C,'	return &bufferedClient{client: defaultHttpFactory(), handle: getHandleForEncoding(EncodingMsgpack), headers: nil}\n}\n\nfunc NewClientWith','	return NewClientWithHttpClient(nil)\n}\n\nfunc NewClientWith')],[]),
 ("r-ctor-two",[(C,'''	if client != nil {
		return &bufferedClient{client: client, handle: getHandleForEncoding(EncodingMsgpack), headers: nil}
	} else {
		return &bufferedClient{client: defaultHttpFactory(), handle: getHandleForEncoding(EncodingMsgpack), headers: nil}
	}
''','''	if client == nil {
		client = defaultHttpFactory()
	}
	c := &bufferedClient{}
	c.SetTransportHttpClient(client)
	c.SetClientEncoding(EncodingMsgpack)
	return c
''')],[]),
 ("r-handles-array",[(T,'''	switch encoding {
	case EncodingMsgpack:
		return msgpackClientHandle
	case EncodingJson:
		return jsonClientHandle
	default:
		return jsonClientHandle
	}
''','''	if encoding == EncodingMsgpack {
		return msgpackClientHandle
	}
	return jsonClientHandle
'''),(T,'''	switch contentType {
	case msgpackClientHandle.contentType:
		return msgpackClientHandle
	case jsonClientHandle.contentType:
		return jsonClientHandle
	default:
		return jsonClientHandle
	}
''','''	for _, handle := range []*clientHandle{msgpackClientHandle, jsonClientHandle} {
		if handle.contentType == contentType {
			return handle
		}
	}
	return jsonClientHandle
''')],[]),
 ("r-handles-map",[(T,'''	switch contentType {
	case msgpackClientHandle.contentType:
		return msgpackClientHandle
	case jsonClientHandle.contentType:
		return jsonClientHandle
	default:
		return jsonClientHandle
	}
''','''	if handle, ok := map[string]*clientHandle{
		msgpackClientHandle.contentType: msgpackClientHandle,
		jsonClientHandle.contentType:    jsonClientHandle,
	}[contentType]; ok {
		return handle
	}
	return jsonClientHandle
''')],[]),
 ("r-hook-isnil",[(T,'''			if e, ok := v.(error); ok {
				if r := reflect.ValueOf(e); !r.IsZero() {
					(*resp)[k] = NewError(e)
				}
			}
''','''			e, ok := v.(error)
			if !ok || reflect.ValueOf(e).IsZero() {
				continue
			}
			(*resp)[k] = NewError(e)
''')],[]),
 ("r-hook-index",[(T,'''		for k, v := range *resp {
			if e, ok := v.(error); ok {
				if r := reflect.ValueOf(e); !r.IsZero() {
					(*resp)[k] = NewError(e)
				}
			}
		}
''','''		values := *resp
		for i := 0; i < len(values); i++ {
			if e, ok := values[i].(error); ok {
				values[i] = transportable(e)
			}
		}
'''),(T,'func init() {','''func transportable(e error) interface{} {
	if reflect.ValueOf(e).IsZero() {
		return e
	}
	return NewError(e)
}

func init() {''')],[]),
 ("r-dec-helper",[(T,'''			val := reflect.TypeOf(v)
			if val.Kind() == reflect.Ptr {
				val = val.Elem()
			}
			if val.Implements(errorType) {
				var e *Error
				ret[k] = e
			} else {
				ret[k] = v
			}
''','''			ret[k] = v
			if isErrorSlot(v) {
				ret[k] = (*Error)(nil)
			}
'''),(T,'func init() {','''func isErrorSlot(v interface{}) bool {
	t := reflect.TypeOf(v)
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	return t.Implements(errorType)
}

func init() {''')],[]),
 ("r-dec-append",[(T,'ret := make([]interface{}, len(reply))\n		for k, v := range reply {','ret := make([]interface{}, 0, len(reply))\n		for _, v := range reply {'),(T,'				ret[k] = e\n','				ret = append(ret, e)\n'),(T,'				ret[k] = v\n','				ret = append(ret, v)\n')],[]),
 ("r-after-switch",[(T,'''			if e, ok := v.(*Error); ok && e != nil {
				if y, ok := (*reply)[k].(*error); ok {
					*y = e
				} else if err := mapstructure.Decode(e.Data, (*reply)[k]); err != nil {
					return errors.Wrap(err, "failed to decode wrapped error")
				}
			}
''','''			e, ok := v.(*Error)
			if !ok || e == nil {
				continue
			}
			switch y := (*reply)[k].(type) {
			case *error:
				*y = e
			default:
				if err := mapstructure.Decode(e.Data, y); err != nil {
					return errors.Wrap(err, "failed to decode wrapped error")
				}
			}
''')],[]),
 ("r-newerr-helper",[(E,'''	// skip *withStack error type
	if _, ok := err.(interface {
		StackTrace() errors.StackTrace
	}); ok && errors.Unwrap(err) != nil {
		err = errors.Unwrap(err)
	}
''','''	// skip *withStack error type
	err = skipStack(err)
'''),(E,'// As interface','''type stackTracer interface {
	StackTrace() errors.StackTrace
}

func skipStack(err error) error {
	if _, ok := err.(stackTracer); ok {
		if cause := errors.Unwrap(err); cause != nil {
			return cause
		}
	}
	return err
}

// As interface''')],[]),
 ("r-newerr-order",[(E,'''	inst := &Error{
		Msg:  err.Error(),
		Type: errType.String(),
		Pkg:  errElem.PkgPath(),
		Data: err,
	}

	// unwrap error
	if unwrappedErr := errors.Unwrap(err); unwrappedErr != nil {
		inst.ErrCause = NewError(unwrappedErr)
		inst.Msg = strings.TrimSuffix(inst.Msg, ": "+unwrappedErr.Error())
	}

	return inst
''','''	// unwrap error
	var cause *Error
	msg := err.Error()
	if unwrappedErr := errors.Unwrap(err); unwrappedErr != nil {
		cause = NewError(unwrappedErr)
		if i := len(msg) - len(unwrappedErr.Error()) - 2; strings.HasSuffix(msg, ": "+unwrappedErr.Error()) {
			msg = msg[:i]
		}
	}

	return &Error{
		Msg:      msg,
		Pkg:      errElem.PkgPath(),
		Type:     errType.String(),
		Data:     err,
		ErrCause: cause,
	}
''')],[]),
 ("r-typehelper",[(E,'''	errType := reflect.TypeOf(err)
	errElem := errType
	if errType.Kind() == reflect.Ptr {
		errElem = errType.Elem()
	}

	if (e.Msg == err.Error() || e.Error() == err.Error()) &&
		errType.String() == e.Type &&
		errElem.PkgPath() == e.Pkg {
		return true
	}

	return false
''','''	if text := err.Error(); e.Msg != text && e.Error() != text {
		return false
	}
	name, pkg := typeID(reflect.TypeOf(err))
	return name == e.Type && pkg == e.Pkg
'''),(E,'''	errType := reflect.TypeOf(err).Elem()
	errElem := errType
	if errType.Kind() == reflect.Ptr {
		errElem = errType.Elem()
	}
	if errType.String() == e.Type && errElem.PkgPath() == e.Pkg {
''','''	if name, pkg := typeID(reflect.TypeOf(err).Elem()); name == e.Type && pkg == e.Pkg {
'''),(E,'// As interface','''// typeID identifies a type across the wire
func typeID(t reflect.Type) (name, pkg string) {
	name = t.String()
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return name, t.PkgPath()
}

// As interface''')],[]),
 ("r-errorstr-builder",[(E,'''	msg := e.Msg
	if e.ErrCause != nil {
		msg += ": " + e.ErrCause.Error()
	}
	return msg
''','''	parts := []string{e.Msg}
	if e.ErrCause != nil {
		parts = append(parts, e.ErrCause.Error())
	}
	return strings.Join(parts, ": ")
''')],[]),
 ("r-reply-split",[(G,'''	if stats != nil {
		stats.ResponseSize = buf.Len()
		stats.Marshalling = time.Since(serializationStart)
		if len(response) > 0 {
			errResp := response[len(response)-1]
			if v, ok := errResp.(error); ok && v != nil {
				if !reflect.ValueOf(v).IsZero() {
					stats.ErrorCode = 1
					stats.ErrorType = fmt.Sprintf("%T", v)
					stats.ErrorMessage = v.Error()
					if v, ok := v.(interface {
						ErrorCode() int
					}); ok {
						stats.ErrorCode = v.ErrorCode()
					}
				}
			}
		}
	}
	return nil
}
''','''	if stats == nil {
		return nil
	}
	stats.Marshalling = time.Since(serializationStart)
	stats.ResponseSize = buf.Len()
	if n := len(response); n > 0 {
		if err, ok := response[n-1].(error); ok && !reflect.ValueOf(err).IsZero() {
			stats.setError(err)
		}
	}
	return nil
}

func (s *CallStats) setError(err error) {
	s.ErrorType, s.ErrorMessage, s.ErrorCode = reflect.TypeOf(err).String(), err.Error(), 1
	if coder, ok := err.(interface{ ErrorCode() int }); ok {
		s.ErrorCode = coder.ErrorCode()
	}
}
''')],[]),
 ("r-reply-encodehelper",[(G,'	"slices"\n',''),(G,'	"bytes"\n',''),(G,'''	// do not modify the response, it still belongs to the caller
	reply := slices.Clone(response)
	if clientHandle.beforeEncodeReply != nil {
		if err := clientHandle.beforeEncodeReply(&reply); err != nil {
			_, _ = fmt.Fprintln(os.Stderr, err.Error())
			return errors.Wrap(err, "error during before encoder reply")
		}
	}

	buf := new(bytes.Buffer)
	if err := codec.NewEncoder(buf, clientHandle.handle).Encode(reply); err != nil {
		_, _ = fmt.Fprintln(os.Stderr, err.Error())
		return errors.Wrap(err, "could not encode data to accepted format")
	}

	w.Header().Set("Content-Length", strconv.Itoa(buf.Len()))

	if _, err := w.Write(buf.Bytes()); err != nil {''','''	data, err := encodeReply(clientHandle, response)
	if err != nil {
		_, _ = fmt.Fprintln(os.Stderr, err.Error())
		return err
	}

	w.Header().Set("Content-Length", strconv.Itoa(len(data)))

	if _, err := w.Write(data); err != nil {'''),(G,'stats.ResponseSize = buf.Len()','stats.ResponseSize = len(data)'),(G,'func parserExclude','''func encodeReply(h *clientHandle, response []interface{}) (data []byte, err error) {
	reply := append([]interface{}(nil), response...)
	if h.beforeEncodeReply != nil {
		if err = h.beforeEncodeReply(&reply); err != nil {
			return nil, errors.Wrap(err, "error during before encoder reply")
		}
	}
	err = codec.NewEncoderBytes(&data, h.handle).Encode(reply)
	return data, errors.Wrap(err, "could not encode data to accepted format")
}

func parserExclude''')],[]),
 ("r-called-cut",[(G,'	return strings.TrimPrefix(r.URL.Path, endPoint+"/")','	prefix := endPoint + "/"\n	if name, ok := strings.CutPrefix(r.URL.Path, prefix); ok {\n		return name\n	}\n	return r.URL.Path')],[]),
 ("r-rw-first",[(RW,'''	if !r.wroteHeader && (status >= http.StatusOK || status == http.StatusSwitchingProtocols) {
		r.status = status
		r.wroteHeader = true
	}
	r.ResponseWriter.WriteHeader(status)
''','''	defer r.ResponseWriter.WriteHeader(status)
	if r.wroteHeader {
		return
	}
	informational := status < http.StatusOK && status != http.StatusSwitchingProtocols
	if !informational {
		r.status, r.wroteHeader = status, true
	}
''')],[]),
 ("r-instr-direct",[(I,'''		*r = *RequestWithStatsContext(r)
		middleware(w, r)
		if stats, ok := GetStatsForRequest(r); ok {
			handleStats(stats)
		}
''','''		request := RequestWithStatsContext(r)
		*r = *request
		middleware(w, r)
		stats, ok := GetStatsForRequest(r)
		if !ok {
			return
		}
		handleStats(stats)
''')],[]),
 ("r-ctxkey-struct",[(G,'type contextKey string\n\nconst contextStatsKey contextKey = "gotsrpcStats"','type contextKey struct{}\n\nvar contextStatsKey contextKey')],[]),
 ("r-union-fields",[(U,'''	val := reflect.ValueOf(v)
	if val.Kind() == reflect.Ptr {
		val = val.Elem()
	}
	for i := 0; i < val.NumField(); i++ {
		if field := val.Field(i); !field.IsZero() {
			return field.Interface()
		}
	}
	return nil
''','''	return firstMember(reflect.Indirect(reflect.ValueOf(v)))
'''),(U,'func (x *UnionExt) ConvertExt','''func firstMember(val reflect.Value) interface{} {
	n := val.NumField()
	for i := 0; i < n; i++ {
		field := val.Field(i)
		if field.IsZero() {
			continue
		}
		return field.Interface()
	}
	return nil
}

func (x *UnionExt) ConvertExt''')],[]),
 ("r-union-range",[(U,'for i := 0; i < val.NumField(); i++ {','for i := range val.NumField() {')],[]),
 ("r-register-seen",[(U,'	for _, i := range v {\n','	seen := map[reflect.Type]bool{}\n	for _, i := range v {\n		if seen[reflect.TypeOf(i)] {\n			continue\n		}\n		seen[reflect.TypeOf(i)] = true\n')],[]),
 ("r-time-mul",[(TE,'time.UnixMilli(src.(int64)).Local()','time.Unix(src.(int64)/1000, src.(int64)%1000*int64(time.Millisecond)).Local()')],[]),
 ("r-time-vars",[(TE,'	return v.(*time.Time).UnixMilli() //nolint:forcetypeassert','	t, _ := v.(*time.Time)\n	return t.Unix()*1000 + int64(t.Nanosecond())/int64(time.Millisecond)')],[]),
 ("r-load-helper",[(G,'''	if errDecode := codec.NewDecoder(r.Body, handle).Decode(args); errDecode != nil {
		_, _ = fmt.Fprintln(os.Stderr, errDecode.Error())
		return errors.Wrap(errDecode, "could not decode arguments")
	}
	if callStats != nil {
		callStats.Unmarshalling = time.Since(start)
		callStats.RequestSize = int(r.ContentLength)
	}
	return nil
''','''	decoder := codec.NewDecoder(r.Body, handle)
	err := decoder.Decode(args)
	switch {
	case err != nil:
		_, _ = fmt.Fprintln(os.Stderr, err.Error())
		err = errors.Wrap(err, "could not decode arguments")
	case callStats != nil:
		callStats.RequestSize = int(r.ContentLength)
		callStats.Unmarshalling = time.Since(start)
	}
	return err
''')],[]),
 ("r-httperr-embedded",[(HE,'return fmt.Sprintf("[%d] %s", e.StatusCode, e.error.Error())','return fmt.Sprintf("[%d] %v", e.StatusCode, e.error)')],[]),
 ("r-init-helpers",[(T,'''	mh := new(codec.MsgpackHandle)
	// use map[string]interface{} instead of map[interface{}]interface{}
	mh.MapType = reflect.TypeOf(map[string]interface{}(nil))
	// attempting to set promoted field in literal will cause a compiler error
	mh.RawToString = true
	msgpackClientHandle.handle = mh
''','''	msgpackClientHandle.handle = newMsgpackHandle()
'''),(T,'func init() {','''func newMsgpackHandle() *codec.MsgpackHandle {
	mh := &codec.MsgpackHandle{}
	mh.MapType = reflect.TypeOf(map[string]interface{}{})
	mh.RawToString = true
	return mh
}

func init() {''')],[]),
 ("r-prom-loop",[(P,'''		requestDuration.WithLabelValues(stats.Package, stats.Service, stats.Func, "unmarshalling").Observe(float64(stats.Unmarshalling))
		requestDuration.WithLabelValues(stats.Package, stats.Service, stats.Func, "execution").Observe(float64(stats.Execution))
		requestDuration.WithLabelValues(stats.Package, stats.Service, stats.Func, "marshalling").Observe(float64(stats.Marshalling))
''','''		durations, err := requestDuration.CurryWith(p.Labels{"package": stats.Package, "service": stats.Service, "func": stats.Func})
		if err != nil {
			panic(err)
		}
		durations.WithLabelValues("unmarshalling").Observe(float64(stats.Unmarshalling))
		durations.WithLabelValues("execution").Observe(float64(stats.Execution))
		durations.WithLabelValues("marshalling").Observe(float64(stats.Marshalling))
''')],[]),
 ("r-generic",[(G,'	if value, ok := r.Context().Value(contextStatsKey).(*CallStats); ok && value != nil {\n		return value, true\n	} else {\n		return &CallStats{}, false\n	}','	value := fromContext[CallStats](r.Context(), contextStatsKey)\n	if value == nil {\n		return new(CallStats), false\n	}\n	return value, true'),(G,'func ClearStats','func fromContext[T any](ctx context.Context, key contextKey) *T {\n	value, _ := ctx.Value(key).(*T)\n	return value\n}\n\nfunc ClearStats')],[]),
]
