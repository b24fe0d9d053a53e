ALL=[]
G="gotsrpc.go"; T="transport.go"; U="unionext.go"; X="timeext.go"; CL="client.go"
MUTANTS=[
 # --- behaviour preserving
 ("r-encbytes",[(G,"""	buf := new(bytes.Buffer)
	if err := codec.NewEncoder(buf, clientHandle.handle).Encode(reply); err != nil {""","""	var data []byte
	if err := codec.NewEncoderBytes(&data, clientHandle.handle).Encode(reply); err != nil {"""),(G,"strconv.Itoa(buf.Len())","strconv.Itoa(len(data))"),(G,"w.Write(buf.Bytes())","w.Write(data)"),(G,"stats.ResponseSize = buf.Len()","stats.ResponseSize = len(data)"),(G,'	"bytes"\n','')],[]),
 ("r-hdrlater",[(G,"""	w.Header().Set("Content-Type", clientHandle.contentType)

""",""),(G,"""	w.Header().Set("Content-Length",""","""	header := w.Header()
	header.Set("Content-Type", clientHandle.contentType)
	header.Set("Content-Length",""")],[]),
 ("r-clone",[(G,"reply := slices.Clone(response)","reply := make([]interface{}, len(response))\n	copy(reply, response)"),(G,'	"slices"\n','')],[]),
 ("r-append",[(G,"reply := slices.Clone(response)","reply := append([]interface{}{}, response...)"),(G,'	"slices"\n','')],[]),
 ("r-statshelper",[(G,"""		if len(response) > 0 {
			errResp := response[len(response)-1]
			if v, ok := errResp.(error); ok && v != nil {
				if !reflect.ValueOf(v).IsZero() {
					stats.ErrorCode = 1
					stats.ErrorType = fmt.Sprintf("%T", v)
					stats.ErrorMessage = v.Error()
					if v, ok := v.(interface {
						ErrorCode() int
					}); ok {
						stats.ErrorCode = v.ErrorCode()
					}
				}
			}
		}
	}
	return nil
}
""","""		setErrorStats(stats, response)
	}
	return nil
}

func setErrorStats(stats *CallStats, response []interface{}) {
	if len(response) == 0 {
		return
	}
	v, ok := response[len(response)-1].(error)
	if !ok || reflect.ValueOf(v).IsZero() {
		return
	}
	stats.ErrorType = fmt.Sprintf("%T", v)
	stats.ErrorMessage = v.Error()
	if c, ok := v.(interface{ ErrorCode() int }); ok {
		stats.ErrorCode = c.ErrorCode()
	} else {
		stats.ErrorCode = 1
	}
}
""")],[]),
 ("r-ctprefix",[(T,"""	switch contentType {
	case msgpackClientHandle.contentType:
		return msgpackClientHandle
	case jsonClientHandle.contentType:
		return jsonClientHandle
	default:
		return jsonClientHandle
	}""","""	if contentType == msgpackClientHandle.contentType {
		return msgpackClientHandle
	}
	return jsonClientHandle""")],[]),
 ("r-handlelit",[(T,"	handle:      &codec.MsgpackHandle{},\n","")],[]),
 ("r-hook-named",[(T,"""	beforeEncodeReply: func(resp *[]interface{}) error {
		for k, v := range *resp {
			if e, ok := v.(error); ok {
				if r := reflect.ValueOf(e); !r.IsZero() {
					(*resp)[k] = NewError(e)
				}
			}
		}
		return nil
	},
""","""	beforeEncodeReply: transportErrors,
"""),(T,"func init() {","""func transportErrors(resp *[]interface{}) error {
	items := *resp
	for i := range items {
		e, ok := items[i].(error)
		if !ok || reflect.ValueOf(e).IsZero() {
			continue
		}
		items[i] = NewError(e)
	}
	return nil
}

func init() {""")],[]),
 ("r-hook-append",[(T,"""		ret := make([]interface{}, len(reply))
		for k, v := range reply {
			val := reflect.TypeOf(v)
			if val.Kind() == reflect.Ptr {
				val = val.Elem()
			}
			if val.Implements(errorType) {
				var e *Error
				ret[k] = e
			} else {
				ret[k] = v
			}
		}
		return ret, nil""","""		ret := make([]interface{}, 0, len(reply))
		for _, v := range reply {
			val := reflect.TypeOf(v)
			if val.Kind() == reflect.Ptr {
				val = val.Elem()
			}
			if val.Implements(errorType) {
				ret = append(ret, (*Error)(nil))
				continue
			}
			ret = append(ret, v)
		}
		return ret, nil""")],[]),
 ("r-time",[(X,"v.(*time.Time).UnixMilli()","v.(*time.Time).UnixNano() / int64(time.Millisecond)")],["T03"]),
 ("r-time2",[(X,"""	tt := dest.(*time.Time) //nolint:forcetypeassert

	*tt = time.UnixMilli(src.(int64)).Local() //nolint:forcetypeassert""","""	ms := src.(int64) //nolint:forcetypeassert
	*dest.(*time.Time) = time.UnixMilli(ms) //nolint:forcetypeassert""")],[]),
 ("r-time3",[(X,"time.UnixMilli(src.(int64)).Local()","time.Unix(src.(int64)/1000, src.(int64)%1000*int64(time.Millisecond))")],[]),
 ("r-union",[(U,"""	for i := 0; i < val.NumField(); i++ {
		if field := val.Field(i); !field.IsZero() {
			return field.Interface()
		}
	}
	return nil""","""	n := val.NumField()
	for i := range n {
		field := val.Field(i)
		if field.IsZero() {
			continue
		}
		return field.Interface()
	}
	return nil""")],[]),
 ("r-union2",[(U,"""	val := reflect.ValueOf(v)
	if val.Kind() == reflect.Ptr {
		val = val.Elem()
	}""","""	val := reflect.Indirect(reflect.ValueOf(v))""")],[]),
 ("r-register",[(U,"""	for _, i := range v {
		if err := SetJSONExt(i, 1, unionExt); err != nil {
			return err
		}
	}
	return nil""","""	for i := range v {
		err := SetJSONExt(v[i], 1, unionExt)
		if err != nil {
			return err
		}
	}
	return nil""")],[]),
 ("r-initshort",[(T,"""	mh := new(codec.MsgpackHandle)
""","""	mh := &codec.MsgpackHandle{}
""")],[]),
 ("r-jh-inplace",[(T,"""	jh := new(codec.JsonHandle)
	jh.MapKeyAsString = true""","""	jh := jsonClientHandle.handle.(*codec.JsonHandle)
	jh.MapKeyAsString = true"""),(T,"	jsonClientHandle.handle = jh\n","")],[]),
 # --- breaking
 ("m-ct-accept",[(G,'clientHandle := getHandlerForContentType(r.Header.Get("Content-Type"))','clientHandle := getHandlerForContentType(r.Header.Get("Accept"))')],"T01"),
 ("m-ct-default",[(T,"""	case jsonClientHandle.contentType:
		return jsonClientHandle
	default:
		return jsonClientHandle
	}""","""	case jsonClientHandle.contentType:
		return jsonClientHandle
	default:
		return msgpackClientHandle
	}""")],"T01"),
 ("m-ct-name",[(G,'w.Header().Set("Content-Type", clientHandle.contentType)','w.Header().Set("Content-Type", strings.TrimSuffix(clientHandle.contentType, "; charset=utf-8"))')],"T01"),
 ("m-ct-add",[(G,'w.Header().Set("Content-Type", clientHandle.contentType)','if w.Header().Get("Content-Type") == "" {\n\t\tw.Header().Set("Content-Type", clientHandle.contentType)\n\t}')],"T01"),
 ("m-enc-default",[(T,"""	default:
		return jsonClientHandle
	}
}

func getHandlerForContentType""","""	default:
		return msgpackClientHandle
	}
}

func getHandlerForContentType""")],"T01"),
 ("m-newclient-json",[(CL,"func NewClient() Client {\n	return &bufferedClient{client: defaultHttpFactory(), handle: getHandleForEncoding(EncodingMsgpack)","func NewClient() Client {\n	return &bufferedClient{client: defaultHttpFactory(), handle: getHandleForEncoding(EncodingJson)")],"T01"),
 ("m-decode-own",[(CL,'clientHandle := getHandlerForContentType(resp.Header.Get("Content-Type"))','clientHandle := c.handle')],"T01"),
 ("m-loadargs-json",[(G,'codec.NewDecoder(r.Body, handle).Decode(args)','codec.NewDecoder(r.Body, jsonClientHandle.handle).Decode(args)'),(G,'	handle := getHandlerForContentType(r.Header.Get("Content-Type")).handle\n','')],"T01"),
 ("m-samect",[(T,'	contentType: "application/json; charset=utf-8",','	contentType: "application/msgpack; charset=utf-8",')],"T01"),
 ("m-constswap",[(T,"EncodingMsgpack = ClientEncoding(0)\n	EncodingJson    = ClientEncoding(1)","EncodingMsgpack = ClientEncoding(1)\n	EncodingJson    = ClientEncoding(0)")],[]),
 ("m-stream",[(G,"	buf := new(bytes.Buffer)\n	if err := codec.NewEncoder(buf, clientHandle","	buf := new(bytes.Buffer)\n	if err := codec.NewEncoder(io.MultiWriter(w, buf), clientHandle"),(G,'	"go/token"\n','	"go/token"\n	"io"\n'),(G,"	if _, err := w.Write(buf.Bytes()); err != nil {\n		return errors.Wrap(err, \"could not write response\")\n	}\n","")],"T02"),
 ("m-nolen",[(G,'	w.Header().Set("Content-Length", strconv.Itoa(buf.Len()))\n',''),(G,'	"strconv"\n','')],"T02"),
 ("m-lenafter",[(G,'	w.Header().Set("Content-Length", strconv.Itoa(buf.Len()))\n',''),(G,'		return errors.Wrap(err, "could not write response")\n	}\n','		return errors.Wrap(err, "could not write response")\n	}\n	w.Header().Set("Content-Length", strconv.Itoa(buf.Len()))\n')],"T02"),
 ("m-lenwrong",[(G,'strconv.Itoa(buf.Len())','strconv.Itoa(buf.Cap())')],"T02"),
 ("m-writeto-len0",[(G,"	if _, err := w.Write(buf.Bytes()); err != nil {","	if _, err := buf.WriteTo(w); err != nil {")],"S04"),
 ("m-swallow",[(G,"		return errors.Wrap(err, \"could not encode data to accepted format\")","		buf.Reset()")],"T02"),
 ("m-swallowwrite",[(G,'		return errors.Wrap(err, "could not write response")','		_ = err')],"T02"),
 ("m-statsearly",[(G,"	buf := new(bytes.Buffer)\n	if err := codec.NewEncoder(buf, clientHandle","	if stats != nil {\n		stats.ErrorCode = 0\n		stats.ResponseSize = 0\n	}\n	buf := new(bytes.Buffer)\n	if err := codec.NewEncoder(buf, clientHandle")],"T02"),
 ("m-hookswallow",[(G,'			return errors.Wrap(err, "error during before encoder reply")','			reply = response')],[]),
 ("m-nobuiltin",[(T,"	jh.TimeNotBuiltin = true\n","")],"T03"),
 ("m-mapkey",[(T,"	jh.MapKeyAsString = true\n","")],"T03"),
 ("m-rawstr",[(T,"	mh.RawToString = true\n","")],"T03"),
 ("m-maptype",[(T,"	mh.MapType = reflect.TypeOf(map[string]interface{}(nil))\n","")],"T03"),
 ("m-maptype2",[(T,"reflect.TypeOf(map[string]interface{}(nil))","reflect.TypeOf(map[interface{}]interface{}(nil))")],"T03"),
 ("m-seconds",[(X,"UnixMilli() //","Unix() * 1000 //")],"T03"),
 ("m-dec-unix",[(X,"time.UnixMilli(src.(int64)).Local()","time.Unix(0, src.(int64)*1000000)")],"T03"),
 ("m-dec-trunc",[(X,"time.UnixMilli(src.(int64)).Local()","time.Unix(src.(int64)/1000, 0)")],"T03"),
 ("m-initorder",[(T,"	jsonClientHandle.handle = jh\n","	jsonClientHandle = &clientHandle{handle: new(codec.JsonHandle), contentType: jsonClientHandle.contentType}\n")],"T03"),
 ("m-extptr",[(T,"jh.SetInterfaceExt(reflect.TypeOf(time.Time{}), 1, timeExt)","jh.SetInterfaceExt(reflect.TypeOf(time.Duration(0)), 1, timeExt)")],"T03"),
 ("m-union-last",[(U,"""	for i := 0; i < val.NumField(); i++ {""","""	for i := val.NumField() - 1; i >= 0; i-- {""")],"T04"),
 ("m-union-skip0",[(U,"for i := 0; i < val","for i := 1; i < val")],"T04"),
 ("m-union-ptr",[(U,"	if val.Kind() == reflect.Ptr {\n		val = val.Elem()\n	}\n","	val = val.Elem()\n")],"T04"),
 ("m-union-null",[(U,"	return nil\n}\n\nfunc (x *UnionExt) UpdateExt","	return v\n}\n\nfunc (x *UnionExt) UpdateExt")],"T04"),
 ("m-union-nilptr",[(U,"!field.IsZero()","field.Kind() == reflect.Ptr && !field.IsNil()")],"T04"),
 ("m-union-one",[(U,"			return err\n		}\n	}","			return err\n		}\n		break\n	}")],"T04"),
 ("m-union-err",[(U,"			return err\n		}\n	}","			continue\n		}\n	}")],"T04"),
 ("m-union-nopanic",[(U,"		panic(err)","		fmt.Println(err)")],"T04"),
 ("m-beforeenc-zero",[(T,"if r := reflect.ValueOf(e); !r.IsZero() {","if r := reflect.ValueOf(e); r.Kind() == reflect.Ptr && !r.IsZero() {")],"T05"),
 ("m-beforeenc-pos",[(T,"(*resp)[k] = NewError(e)","(*resp)[len(*resp)-1-0*k] = NewError(e)")],"T05"),
 ("m-beforedec-elem",[(T,"			if val.Kind() == reflect.Ptr {\n				val = val.Elem()\n			}\n			if val.Implements","			if val.Implements")],"T05"),
 ("m-beforedec-last",[(T,"			if val.Implements(errorType) {","			if k == len(reply)-1 && val.Implements(errorType) {")],"T05"),
 ("m-after-ptr",[(T,"if e, ok := v.(*Error); ok && e != nil {","if e, ok := v.(*Error); ok && e != nil && e.ErrCause == nil {")],"T05"),
 ("m-after-err",[(T,'return errors.Wrap(err, "failed to decode wrapped error")','continue')],"T05"),
 ("m-after-first",[(T,"					*y = e\n","					*y = e\n					return nil\n")],"T05"),
 ("m-after-cause",[(T,"					*y = e\n","					*y = e.Cause()\n")],"T05"),
 ("m-after-decode",[(T,"mapstructure.Decode(e.Data, (*reply)[k])","mapstructure.Decode(e.Data, (*reply)[len(*reply)-1])")],"T05"),
 ("m-call-noafter",[(CL,"if clientHandle.afterDecodeReply != nil {","if clientHandle.afterDecodeReply != nil && len(reply) > 1 {")],"T05"),
 ("m-reply-nohook",[(G,"if clientHandle.beforeEncodeReply != nil {","if clientHandle.beforeEncodeReply != nil && len(reply) > 1 {")],"T05"),
]
