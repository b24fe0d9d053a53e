C="client.go"; T="transport.go"; E="error.go"; CE="clienterror.go"; HE="httperror.go"; G="gotsrpc.go"; TE="timeext.go"; U="unionext.go"; RW="responsewriter.go"; I="instrumentation.go"; H="http.go"; P="prometheus/prometheus.go"
import os
if not os.path.exists("/repo/"+P): P="prometheus/"+[f for f in os.listdir("/repo/prometheus") if f.endswith(".go")][0]
SEND='''	resp, errDo := c.client.Do(request)
	if errDo != nil {
		return NewClientError(errors.Wrap(errDo, "failed to send request"))
	}
	defer resp.Body.Close()
'''
READ='''	buf := new(bytes.Buffer)
	if _, err := io.Copy(buf, resp.Body); err != nil {
		return NewClientError(errors.Wrap(err, "failed to read response body"))
	}
'''
STATUS='''	if resp.StatusCode != http.StatusOK {
		return NewClientError(NewHTTPError(buf.String(), resp.StatusCode))
	}
'''
DEC='''	if err := codec.NewDecoder(buf, clientHandle.handle).Decode(wrappedReply); err != nil {
		return NewClientError(errors.Wrap(err, "failed to decode response"))
	}
'''
AFTER='''	if clientHandle.afterDecodeReply != nil {
		if err := clientHandle.afterDecodeReply(&reply, wrappedReply); err != nil {
			return NewClientError(errors.Wrap(err, "failed to call afterDecodeReply hook"))
		}
	}
'''
BEFORE='''	if clientHandle.beforeDecodeReply != nil {
		if value, err := clientHandle.beforeDecodeReply(reply); err != nil {
			return NewClientError(errors.Wrap(err, "failed to call beforeDecodeReply hook"))
		} else {
			wrappedReply = value
		}
	}
'''
HDRS='''	request.Header.Set("Content-Type", contentType)
	request.Header.Set("Accept", contentType)
	request.Header.Set(HeaderServiceToService, "true")
'''
MUTANTS=[
 # C01
 ("m-unexpected-eof",[(C,'resp.Body); err != nil {','resp.Body); err != nil && !errors.Is(err, io.ErrUnexpectedEOF) {')],["C01"]),
 ("m-empty-ok",[(C,'	wrappedReply := reply\n','	if buf.Len() == 0 {\n		return nil\n	}\n	wrappedReply := reply\n')],["C01"]),
 ("m-empty-ok-contentlength",[(C,'	wrappedReply := reply\n','	if resp.ContentLength == 0 {\n		return nil\n	}\n	wrappedReply := reply\n')],["C01"]),
 ("m-shadowed-nil",[(C,READ,'''	buf := new(bytes.Buffer)
	if _, errCopy := io.Copy(buf, resp.Body); errCopy != nil {
		return NewClientError(errors.Wrap(errDo, "failed to read response body"))
	}
''')],["C01"]),
 ("m-recover",[(C,'endpoint string, method string, args []interface{}, reply []interface{}) error {\n	// Marshall','endpoint string, method string, args []interface{}, reply []interface{}) (err error) {\n	defer func() {\n		if r := recover(); r != nil {\n			err = nil\n		}\n	}()\n	// Marshall')],["C01"]),
 ("m-temporary",[(C,SEND,'''	resp, errDo := c.client.Do(request)
	if te, ok := errDo.(interface{ Timeout() bool }); ok && te.Timeout() && ctx.Err() == nil {
		resp, errDo = c.client.Do(request)
	}
	if errDo != nil {
		return NewClientError(errors.Wrap(errDo, "failed to send request"))
	}
	defer resp.Body.Close()
''')],["C01"]),
 ("m-2xx",[(C,'resp.StatusCode != http.StatusOK','resp.StatusCode/100 != http.StatusOK/100')],["C01"]),
 ("m-304",[(C,'resp.StatusCode != http.StatusOK','resp.StatusCode != http.StatusOK && resp.StatusCode != http.StatusNotModified')],["C01"]),
 ("m-partial-decode",[(C,DEC,'''	dec := codec.NewDecoder(buf, clientHandle.handle)
	if err := dec.Decode(wrappedReply); err != nil && buf.Len() == 0 {
		return NewClientError(errors.Wrap(err, "failed to decode response"))
	}
''')],["C01"]),
 ("m-after-last",[(C,AFTER,'''	if clientHandle.afterDecodeReply != nil && len(reply) > 1 {
		if err := clientHandle.afterDecodeReply(&reply, wrappedReply); err != nil {
			return NewClientError(errors.Wrap(err, "failed to call afterDecodeReply hook"))
		}
	}
''')],["C01","T05"]),
 ("m-encode-ignored",[(C,'''			return NewClientError(errors.Wrap(err, "failed to encode arguments"))
''','''			b.Reset()
''')],["C01"]),
 ("m-readlimit",[(C,'io.Copy(buf, resp.Body)','io.Copy(buf, io.LimitReader(resp.Body, 32<<20))')],["C01"]),
 ("m-err-string",[(C,'NewClientError(errors.Wrap(errDo, "failed to send request"))','NewClientError(errors.New("failed to send request: " + errDo.Error()))')],["C01"]),
 ("m-ctx-err",[(C,'NewClientError(errors.Wrap(errDo, "failed to send request"))','NewClientError(errors.Wrap(ctx.Err(), "failed to send request"))')],["C01"]),
 # C02
 ("m-ct-cached",[(C,'	client  *http.Client\n','	client  *http.Client\n	ct string\n'),(C,'c.handle.contentType, b','c.contentType(), b'),(C,'// Call calls','func (c *bufferedClient) contentType() string {\n	if c.ct == "" {\n		return msgpackClientHandle.contentType\n	}\n	return c.ct\n}\n\n// Call calls')],["C02"]),
 ("m-get-noargs",[(C,'http.MethodPost, url, buffer)','map[bool]string{true: http.MethodPost, false: http.MethodGet}[buffer.Len() > 0], url, buffer)')],["C02"]),
 ("m-hdr-noncanon",[(C,'request.Header.Set(HeaderServiceToService, "true")','request.Header["X-Foomo-S2S"] = []string{"true"}')],["C02"]),
 ("m-hdr-add",[(C,'request.Header.Set("Accept", contentType)','request.Header.Add("Accept", contentType)')],["C02"]),
 ("m-hdr-present",[(C,'request.Header.Set("Accept", contentType)','if _, ok := request.Header["Accept"]; !ok {\n		request.Header.Set("Accept", contentType)\n	}')],["C02"]),
 ("m-args-nil",[(C,'if len(args) > 0 {','if args != nil {')],["C02"]),
 ("m-args-one",[(C,'Encode(args); err','Encode(map[bool]interface{}{true: args, false: args[0]}[len(args) != 1]); err')],["C02"]),
 ("m-withoutcancel",[(C,'NewRequestWithContext(ctx,','NewRequestWithContext(context.WithoutCancel(ctx),')],["C02"]),
 ("m-ctx-background",[(C,'	if buffer == nil {','	if ctx.Done() == nil {\n		ctx = context.Background()\n	}\n	if buffer == nil {')],["C02"]),
 ("m-default-shared",[(H,'var defaultHttpFactory','var sharedHTTPClient = &http.Client{Timeout: 2 * time.Minute}\n\nvar defaultHttpFactory'),(C,'func NewClient() Client {\n	return &bufferedClient{client: defaultHttpFactory()','func NewClient() Client {\n	return &bufferedClient{client: sharedHTTPClient')],["C02"]),
 ("m-withclient-copy",[(C,'	if client != nil {\n		return','	if client != nil && client.Transport != nil {\n		return')],["C02"]),
 ("m-hdr-onlyargs",[(C,'	if len(headers) > 0 {\n','	if len(headers) > 0 && buffer.Len() > 0 {\n')],["C02"]),
 ("m-hdr-first",[(C,'		request.Header = headers\n','		for k := range headers {\n			request.Header.Set(k, headers.Get(k))\n		}\n')],["C02"]),
 ("m-setclient-nil",[(C,'	c.client = client\n','	if c.client == nil {\n		c.client = client\n	}\n')],["C02"]),
 ("m-setenc-sticky",[(C,'	c.handle = getHandleForEncoding(encoding)\n','	if h := getHandleForEncoding(encoding); c.handle == msgpackClientHandle || h != msgpackClientHandle {\n		c.handle = h\n	}\n')],["C02","T01"]),
 ("m-url-query",[(C,'postURL := fmt.Sprintf("%s%s/%s", url, endpoint, method)','postURL := fmt.Sprintf("%s%s/%s", url[:len(url)-len(url)%1], endpoint, method)')],["C02"]),
 # C03
 ("m-close-status",[(C,'	defer resp.Body.Close()\n',''),(C,STATUS,STATUS+'	defer resp.Body.Close()\n')],["C03"]),
 ("m-close-len",[(C,'	defer resp.Body.Close()\n','	if resp.ContentLength != 0 {\n		defer resp.Body.Close()\n	}\n')],["C03"]),
 ("m-close-replaced",[(C,READ,'	body := resp.Body\n	resp.Body = io.NopCloser(resp.Body)\n'+READ+'	_ = body\n'),(C,'	defer resp.Body.Close()\n','	defer func() { resp.Body.Close() }()\n')],["C03"]),
 ("m-close-early",[(C,READ,'	body := resp.Body\n	defer body.Close()\n'+READ.replace('resp.Body','body')),(C,'	defer resp.Body.Close()\n','	resp.Body.Close()\n')],["C03"]),
 # C04
 ("m-lazy-handle",[(C,'	// Marshall args\n','	if c.handle == nil {\n		c.handle = getHandleForEncoding(EncodingMsgpack)\n	}\n'),(C,'client: defaultHttpFactory(), handle: getHandleForEncoding(EncodingMsgpack), headers: nil}\n}','client: defaultHttpFactory(), headers: nil}\n}')],["C04","C02"]),
 ("m-encoder-field",[(C,'	headers http.Header\n}','	headers http.Header\n	enc *codec.Encoder\n}'),(C,'codec.NewEncoder(b, c.handle.handle).Encode(args)','c.encode(b, args)'),(C,'// Call calls','func (c *bufferedClient) encode(b *bytes.Buffer, args []interface{}) error {\n	if c.enc == nil {\n		c.enc = codec.NewEncoder(b, c.handle.handle)\n	} else {\n		c.enc.Reset(b)\n	}\n	return c.enc.Encode(args)\n}\n\n// Call calls')],["C04"]),
 ("m-reply-msgpackclone",[(G,'	reply := slices.Clone(response)\n','	reply := response\n	if stats != nil {\n		reply = slices.Clone(response)\n	}\n')],["C04"]),
 ("m-last-err",[(E,'// NewError returns','var lastError error\n\n// NewError returns'),(E,'	// retrieve error details\n','	lastError = err\n')],["C04"]),
 ("m-type-cache",[(E,'// NewError returns','var pkgPaths = map[reflect.Type]string{}\n\n// NewError returns'),(E,'	inst := &Error{\n		Msg:  err.Error(),\n		Type: errType.String(),\n		Pkg:  errElem.PkgPath(),','	if _, ok := pkgPaths[errElem]; !ok {\n		pkgPaths[errElem] = errElem.PkgPath()\n	}\n	inst := &Error{\n		Msg:  err.Error(),\n		Type: errType.String(),\n		Pkg:  pkgPaths[errElem],')],["C04"]),
 ("m-hdr-del",[(C,'c.headers.Clone())','c.headers.Clone())\n	c.headers.Del("Content-Length")')],["C04"]),
 ("m-args-trim",[(C,'	if len(args) > 0 {\n','	for i := range args {\n		if args[i] == nil {\n			args[i] = struct{}{}\n		}\n	}\n	if len(args) > 0 {\n')],["C04","C02"]),
 # C05
 ("m-body-trim",[(C,'NewHTTPError(buf.String()','NewHTTPError(string(bytes.TrimSpace(buf.Bytes()))')],["C05"]),
 ("m-body-empty",[(HE,'	return &HTTPError{','	if msg == "" {\n		return &HTTPError{error: errors.New("empty response"), StatusCode: code}\n	}\n	return &HTTPError{')],["C05"]),
 ("m-http-text",[(HE,'e.StatusCode, e.error.Error()','e.StatusCode, http.StatusText(e.StatusCode)'),(HE,'	"fmt"\n','	"fmt"\n	"net/http"\n')],["C05"]),
 ("m-code-map",[(C,'NewHTTPError(buf.String(), resp.StatusCode)','NewHTTPError(buf.String(), max(resp.StatusCode, http.StatusBadRequest))')],["C05"]),
 ("m-ce-skip",[(CE,'		return e.error\n','		if w, ok := e.error.(interface{ Unwrap() error }); ok && w.Unwrap() != nil {\n			return w.Unwrap()\n		}\n		return e.error\n')],["C05"]),
 ("m-ce-nested",[(CE,'	return &ClientError{','	if ce, ok := err.(*ClientError); ok && ce != nil {\n		err = ce.error\n	}\n	return &ClientError{')],[]),
 # E01
 ("m-depth",[(E,'		inst.ErrCause = NewError(unwrappedErr)\n','		if inst.ErrCause = NewError(unwrappedErr); inst.ErrCause.ErrCause != nil && inst.ErrCause.ErrCause.ErrCause != nil {\n			inst.ErrCause.ErrCause.ErrCause = nil\n		}\n')],["E01"]),
 ("m-join",[(E,'	// unwrap error\n','	if j, ok := err.(interface{ Unwrap() []error }); ok && len(j.Unwrap()) == 1 {\n		return NewError(j.Unwrap()[0])\n	}\n	// unwrap error\n')],["E01"]),
 ("m-data-comparable",[(E,'		Data: err,\n	}\n','		Data: err,\n	}\n	if errElem.Kind() == reflect.Struct && errElem.NumField() == 0 {\n		inst.Data = nil\n	}\n')],["E01"]),
 ("m-trim-colon",[(E,'": "+unwrappedErr.Error())','unwrappedErr.Error())')],["E01"]),
 ("m-trim-same",[(E,'	if unwrappedErr := errors.Unwrap(err); unwrappedErr != nil {','	if unwrappedErr := errors.Unwrap(err); unwrappedErr != nil && unwrappedErr.Error() != inst.Msg {')],["E01"]),
 ("m-msg-empty",[(E,'	return inst\n}','	if inst.Msg == "" {\n		inst.Msg = inst.Type\n	}\n	return inst\n}')],["E01"]),
 ("m-copy-converted",[(E,'		return v\n	}\n\n	// skip','		return &Error{Msg: v.Msg, Pkg: v.Pkg, Type: v.Type, ErrCause: v.ErrCause}\n	}\n\n	// skip')],["E01"]),
 ("m-type-name",[(E,'		Type: errType.String(),','		Type: errElem.String(),')],["E01"]),
 # E02
 ("m-is-fold",[(E,'e.Msg == err.Error()','strings.EqualFold(e.Msg, err.Error())')],["E02"]),
 ("m-is-data",[(E,'	errType := reflect.TypeOf(err)\n	errElem := errType\n	if errType.Kind() == reflect.Ptr {\n		errElem = errType.Elem()\n	}\n\n	if (e.Msg','	if d, ok := e.Data.(error); ok && errors.Is(d, err) {\n		return true\n	}\n	errType := reflect.TypeOf(err)\n	errElem := errType\n	if errType.Kind() == reflect.Ptr {\n		errElem = errType.Elem()\n	}\n\n	if (e.Msg')],["E02"]),
 ("m-is-nopkg",[(E,'		errElem.PkgPath() == e.Pkg {\n		return true','		(e.Pkg == "" || errElem.PkgPath() == e.Pkg) {\n		return true')],["E02"]),
 ("m-as-weak",[(E,'mapstructure.Decode(e.Data, &err)','mapstructure.WeakDecode(e.Data, &err)')],["E02"]),
 ("m-as-nodata",[(E,'	if errType.String() == e.Type && errElem.PkgPath() == e.Pkg {\n','	if errType.String() == e.Type && errElem.PkgPath() == e.Pkg {\n		if e.Data == nil {\n			return false\n		}\n')],["E02"]),
 ("m-unwrap-data",[(E,'		return e.ErrCause\n	}\n	return nil\n}\n\n// Is','		return e.ErrCause\n	}\n	if e != nil {\n		if d, ok := e.Data.(error); ok {\n			return d\n		}\n	}\n	return nil\n}\n\n// Is')],["E02"]),
 ("m-err-empty",[(E,'	msg := e.Msg\n	if e.ErrCause != nil {\n','	msg := e.Msg\n	if msg == "" && e.ErrCause != nil {\n		return e.ErrCause.Error()\n	}\n	if e.ErrCause != nil {\n')],["E02"]),
 ("m-err-deep",[(E,'		msg += ": " + e.ErrCause.Error()\n','		msg += ": " + e.ErrCause.Msg\n')],["E02"]),
 # T01
 ("m-ct-prefix",[(T,'	switch contentType {\n	case msgpack','	switch mt, _, _ := strings.Cut(contentType, ";"); mt + "; charset=utf-8" {\n	case msgpack'),(T,'	"reflect"\n','	"reflect"\n	"strings"\n')],["T01"]),
 ("m-announce-c",[(G,'	w.Header().Set("Content-Type", clientHandle.contentType)','	if ct := r.Header.Get("Accept"); ct == jsonClientHandle.contentType {\n		w.Header().Set("Content-Type", ct)\n	} else {\n		w.Header().Set("Content-Type", clientHandle.contentType)\n	}')],["T01","T02"]),
 ("m-announce-once",[(G,'	w.Header().Set("Content-Type", clientHandle.contentType)','	if w.Header().Get("Content-Type") == "" {\n		w.Header().Set("Content-Type", clientHandle.contentType)\n	}')],["T01","T02"]),
 ("m-enc-gt",[(T,'	case EncodingMsgpack:\n		return msgpackClientHandle\n','	case EncodingMsgpack, -1:\n		return msgpackClientHandle\n')],["T01"]),
 # T02
 ("m-write-chunks",[(G,'	if _, err := w.Write(buf.Bytes()); err != nil {','	if _, err := io.CopyN(w, buf, int64(buf.Len())&^1); err != nil {'),(G,'	"go/ast"\n','	"go/ast"\n	"io"\n')],["T02"]),
 ("m-len-cap",[(G,'strconv.Itoa(buf.Len())','strconv.Itoa(buf.Cap())')],["T02"]),
 ("m-size-late",[(G,'		stats.ResponseSize = buf.Len()\n',''),(G,'	w.Header().Set("Content-Length"','	if stats != nil {\n		stats.ResponseSize = buf.Len()\n	}\n	w.Header().Set("Content-Length"')],["T02"]),
 ("m-stream-large",[(G,'	buf := new(bytes.Buffer)\n	if err := codec.NewEncoder(buf, clientHandle.handle).Encode(reply); err != nil {','	buf := new(bytes.Buffer)\n	if len(reply) > 8 {\n		return codec.NewEncoder(w, clientHandle.handle).Encode(reply)\n	}\n	if err := codec.NewEncoder(buf, clientHandle.handle).Encode(reply); err != nil {')],["T02"]),
 ("m-nil-reply",[(G,'	reply := slices.Clone(response)\n','	reply := slices.Clone(response)\n	if len(reply) == 0 {\n		w.Header().Set("Content-Length", "0")\n		return nil\n	}\n')],["T02"]),
 # T03
 ("m-time-zero",[(TE,'	return v.(*time.Time).UnixMilli()','	if v.(*time.Time).IsZero() {\n		return int64(0)\n	}\n	return v.(*time.Time).UnixMilli()')],["T03"]),
 ("m-time-round",[(TE,'v.(*time.Time).UnixMilli()','v.(*time.Time).Round(time.Second).UnixMilli()')],["T03"]),
 ("m-time-utc",[(TE,'.Local()','.Truncate(time.Minute).Local()')],["T03"]),
 ("m-time-zero-dec",[(TE,'	*tt = time','	if src.(int64) == 0 {\n		*tt = time.Time{}\n		return\n	}\n	*tt = time')],["T03"]),
 # T04
 ("m-union-nilable",[(U,'!field.IsZero()','field.Kind() == reflect.Ptr && !field.IsNil()')],["T04"]),
 ("m-union-elem",[(U,'			return field.Interface()\n','			if field.Kind() == reflect.Ptr {\n				field = field.Elem()\n			}\n			return field.Interface()\n')],[]),
 ("m-union-reg-cont",[(U,'			return err\n		}\n	}\n	return nil','			continue\n		}\n	}\n	return nil')],["T04"]),
 ("m-union-reg-once",[(U,'	for _, i := range v {\n','	seen := map[string]bool{}\n	for _, i := range v {\n		if n := reflect.TypeOf(i).Name(); seen[n] {\n			continue\n		} else {\n			seen[n] = true\n		}\n')],["T04"]),
 # T05
 ("m-after-interface",[(T,'				if y, ok := (*reply)[k].(*error); ok {\n					*y = e\n','				if y, ok := (*reply)[k].(*error); ok {\n					if e.ErrCause != nil && e.Msg == "" {\n						*y = e.ErrCause\n						continue\n					}\n					*y = e\n')],["T05"]),
 ("m-hook-iszero-kind",[(T,'!r.IsZero()','r.Kind() != reflect.Ptr || !r.IsNil()')],["T05"]),
 ("m-hook-cause",[(T,'(*resp)[k] = NewError(e)','(*resp)[k] = NewError(errors.Cause(e))')],["T05"]),
 ("m-dec-ptronly",[(T,'			if val.Kind() == reflect.Ptr {\n				val = val.Elem()\n			}\n			if val.Implements','			if val.Kind() == reflect.Ptr && val.Elem().Kind() == reflect.Interface {\n				val = val.Elem()\n			}\n			if val.Implements')],["T05"]),
 ("m-after-data",[(T,'mapstructure.Decode(e.Data, (*reply)[k])','mapstructure.Decode(map[string]interface{}{"Msg": e.Msg}, (*reply)[k])')],["T05"]),
 # S02-S04
 ("m-load-get",[(G,'	if errDecode := codec.NewDecoder(r.Body, handle).Decode(args); errDecode != nil {','	if r.ContentLength == 0 {\n		return nil\n	}\n	if errDecode := codec.NewDecoder(r.Body, handle).Decode(args); errDecode != nil {')],["S02"]),
 ("m-load-chunked",[(G,'	if errDecode := codec.NewDecoder(r.Body, handle).Decode(args); errDecode != nil {','	if errDecode := codec.NewDecoder(r.Body, handle).Decode(args); errDecode != nil && r.ContentLength >= 0 {')],["S02"]),
 ("m-called-base",[(G,'	return strings.TrimPrefix(r.URL.Path, endPoint+"/")','	return path.Base(strings.TrimPrefix(r.URL.Path, endPoint+"/"))')],["S01"]),
 ("m-called-trim",[(G,'	return strings.TrimPrefix(r.URL.Path, endPoint+"/")','	return strings.Trim(strings.TrimPrefix(r.URL.Path, endPoint), "/")')],["S01"]),
 ("m-called-last",[(G,'	return strings.TrimPrefix(r.URL.Path, endPoint+"/")','	return r.URL.Path[strings.LastIndex(r.URL.Path, endPoint+"/")+len(endPoint)+1:]')],["S01"]),
 ("m-called-title",[(G,'	return strings.TrimPrefix(r.URL.Path, endPoint+"/")','	name := strings.TrimPrefix(r.URL.Path, endPoint+"/")\n	if name != "" {\n		name = strings.ToUpper(name[:1]) + name[1:]\n	}\n	return name')],["S01"]),
 ("m-rw-switching",[(RW,' || status == http.StatusSwitchingProtocols','')],["S03"]),
 ("m-rw-nopass-second",[(RW,'	r.ResponseWriter.WriteHeader(status)\n','	if r.status == status {\n		r.ResponseWriter.WriteHeader(status)\n	}\n')],["S03"]),
 ("m-rw-write",[(RW,'func (r *ResponseWriter) Status()','func (r *ResponseWriter) Write(b []byte) (int, error) {\n	if !r.wroteHeader {\n		r.status, r.wroteHeader = http.StatusNoContent, true\n	}\n	return r.ResponseWriter.Write(b)\n}\n\nfunc (r *ResponseWriter) Status()')],["S03"]),
 ("m-instr-defer",[(I,'		middleware(w, r)\n		if stats, ok := GetStatsForRequest(r); ok {\n			handleStats(stats)\n		}','		defer func() {\n			stats, _ := GetStatsForRequest(r)\n			handleStats(stats)\n		}()\n		middleware(w, r)')],["S04"]),
 ("m-instr-func",[(I,'if stats, ok := GetStatsForRequest(r); ok {','if stats, ok := GetStatsForRequest(r); ok && stats.ErrorCode == 0 {')],["S04"]),
 ("m-stats-reuse",[(G,'	stats := &CallStats{}\n	return r.With','	stats, ok := GetStatsForRequest(r)\n	if !ok {\n		stats = &CallStats{}\n	}\n	return r.With')],["S04"]),
 ("m-err-code-zero",[(G,'						stats.ErrorCode = v.ErrorCode()\n','						if c := v.ErrorCode(); c > 0 {\n							stats.ErrorCode = c\n						}\n')],["S04"]),
 ("m-err-as",[(G,'					if v, ok := v.(interface {\n						ErrorCode() int\n					}); ok {\n						stats.ErrorCode = v.ErrorCode()\n					}','					var coder interface{ ErrorCode() int }\n					if errors.As(v, &coder) {\n						stats.ErrorCode = coder.ErrorCode()\n					}')],["S04"]),
 ("m-err-any",[(G,'			errResp := response[len(response)-1]\n','			errResp := response[0]\n			for _, v := range response {\n				if _, ok := v.(error); ok {\n					errResp = v\n				}\n			}\n')],["S04"]),
 ("m-marsh-start",[(G,'	serializationStart := time.Now()\n\n	clientHandle','	clientHandle'),(G,'	w.Header().Set("Content-Length"','	serializationStart := time.Now()\n	w.Header().Set("Content-Length"')],["S04"]),
 ("m-size-header",[(G,'int(r.ContentLength)','func() int { n, _ := strconv.Atoi(r.Header.Get("Content-Length")); return n }()')],["S04"]),
 ("m-prom-shared",[(P,'stats.Func, "unmarshalling").Observe(float64(stats.Unmarshalling))','stats.Func, "unmarshalling").Observe(float64(stats.Unmarshalling - stats.Execution))')],["S04"]),
]
