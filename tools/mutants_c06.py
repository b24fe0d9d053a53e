H, C, T = "http.go", "client.go", "transport.go"
TR = '''	transport := &http.Transport{
		Proxy: http.ProxyFromEnvironment,
		DialContext: (&net.Dialer{
			Timeout:   45 * time.Second,
			KeepAlive: 45 * time.Second,
		}).DialContext,
		DisableKeepAlives: true,

		TLSHandshakeTimeout:   10 * time.Second,
		ExpectContinueTimeout: 5 * time.Second,
	}

'''
RET = '''	return &http.Client{
		Transport: transport,
		Timeout:   2 * time.Minute, // Terminate Connection after 3 Minutes
	}
'''
IMP = 'import (\n'
MUTANTS = [
 ("m-no-timeout", [(H, '		Timeout:   2 * time.Minute, // Terminate Connection after 3 Minutes\n', '')], ["C06"]),
 ("m-neg-timeout", [(H, '2 * time.Minute, //', '-1, //')], ["C06"]),
 ("m-insecure", [(H, '		DisableKeepAlives: true,\n', '		DisableKeepAlives: true,\n		TLSClientConfig:   &tls.Config{InsecureSkipVerify: true},\n'), (H, IMP, IMP + '	"crypto/tls"\n')], ["C06"]),
 ("m-insecure2", [(H, RET, '	transport.TLSClientConfig = &tls.Config{}\n	transport.TLSClientConfig.InsecureSkipVerify = true\n' + RET), (H, IMP, IMP + '	"crypto/tls"\n')], ["C06"]),
 ("m-no-proxy", [(H, '		Proxy: http.ProxyFromEnvironment,\n', '')], ["C06"]),
 ("m-default-client", [(H, TR + RET, '	return http.DefaultClient\n'), (H, '	"net"\n', '	_ "net"\n'), (H, '	"time"\n', '	_ "time"\n')], ["C06"]),
 ("m-timeout-cleared", [(H, RET, RET.replace('return &', 'client := &') + '	if transport.DisableKeepAlives {\n		client.Timeout = 0\n	}\n	return client\n')], ["C06"]),
 ("m-factory-once", [(H, '	defaultHttpFactory = factory\n', '	factoryOnce.Do(func() { defaultHttpFactory = factory })\n'), (H, IMP, IMP + '	"sync"\n'), (H, 'type HttpClientFactory', 'var factoryOnce sync.Once\n\ntype HttpClientFactory')], ["C06"]),
 ("m-factory-captured", [(C, 'func NewClient() Client {\n	return &bufferedClient{client: defaultHttpFactory(),', 'var sharedClient = defaultHttpFactory()\n\nfunc NewClient() Client {\n	return &bufferedClient{client: sharedClient,')], ["C06"]),
 ("m-bytes-other-handle", [(T, 'return codec.NewDecoderBytes(b, msgpackClientHandle.handle)', 'return codec.NewDecoderBytes(b, new(codec.MsgpackHandle))')], ["T06"]),
 ("m-bytes-json", [(T, 'return codec.NewEncoderBytes(b, msgpackClientHandle.handle)', 'return codec.NewEncoderBytes(b, jsonClientHandle.handle)')], ["T06"]),
 ("r-ext-copy", [(T, '		return value.SetBytesExt(reflect.TypeOf(rt), tag, ext)', '		h := *value\n		return h.SetBytesExt(reflect.TypeOf(rt), tag, ext)')], []),  # copies share the extensions
 ("m-ext-swallow", [(T, '		return value.SetInterfaceExt(reflect.TypeOf(rt), tag, ext)', '		_ = value.SetInterfaceExt(reflect.TypeOf(rt), tag, ext)\n		return nil')], ["T06"]),
 ("m-ext-elem", [(T, '		return value.SetInterfaceExt(reflect.TypeOf(rt), tag, ext)', '		t := reflect.TypeOf(rt)\n		if t.Kind() == reflect.Ptr {\n			return nil\n		}\n		return value.SetInterfaceExt(t, tag, ext)')], ["T06"]),
 ("r-factory-named", [(H, 'var defaultHttpFactory HttpClientFactory = func() *http.Client { //nolint:stylecheck\n', 'var defaultHttpFactory HttpClientFactory = newDefaultClient //nolint:stylecheck\n\nfunc newDefaultClient() *http.Client {\n')], []),
 ("r-factory-clone", [(H, TR, '	transport := http.DefaultTransport.(*http.Transport).Clone()\n	transport.DialContext = (&net.Dialer{\n		Timeout:   45 * time.Second,\n		KeepAlive: 45 * time.Second,\n	}).DialContext\n	transport.DisableKeepAlives = true\n')], []),
 ("r-factory-steps", [(H, RET, '	client := new(http.Client)\n	client.Transport = transport\n	client.Timeout = defaultTimeout\n	return client\n'), (H, 'type HttpClientFactory', 'const defaultTimeout = 2 * time.Minute\n\ntype HttpClientFactory')], []),
 ("r-factory-tls", [(H, '		DisableKeepAlives: true,\n', '		DisableKeepAlives: true,\n		TLSClientConfig:   &tls.Config{MinVersion: tls.VersionTLS12},\n'), (H, IMP, IMP + '	"crypto/tls"\n')], []),
 ("r-factory-init", [(H, 'var defaultHttpFactory HttpClientFactory = func() *http.Client { //nolint:stylecheck\n', 'var defaultHttpFactory HttpClientFactory //nolint:stylecheck\n\nfunc init() {\n	defaultHttpFactory = builtin\n}\n\nfunc builtin() *http.Client {\n')], []),
 ("r-factory-var", [(H, '2 * time.Minute, //', 'requestTimeout, //'), (H, 'type HttpClientFactory', 'var requestTimeout = 2 * time.Minute\n\ntype HttpClientFactory')], []),
 ("r-factory-transport-helper", [(H, '	transport := &http.Transport{', '	return &http.Client{Transport: newTransport(), Timeout: 2 * time.Minute}\n}\n\nfunc newTransport() *http.Transport {\n	return &http.Transport{'), (H, RET, '')], []),
 ("r-ext-helper", [(T, '	if value, ok := msgpackClientHandle.handle.(*codec.MsgpackHandle); ok {\n		return value.SetBytesExt(reflect.TypeOf(rt), tag, ext)\n	}\n	return errors.New("invalid handle type")', '	value, ok := msgpackClientHandle.handle.(*codec.MsgpackHandle)\n	if !ok {\n		return errors.New("invalid handle type")\n	}\n	t := reflect.TypeOf(rt)\n	if err := value.SetBytesExt(t, tag, ext); err != nil {\n		return err\n	}\n	return nil')], []),
 ("r-bytes-new", [(T, 'return codec.NewEncoderBytes(b, msgpackClientHandle.handle)', 'handle := getHandleForEncoding(EncodingMsgpack).handle\n	enc := codec.NewEncoderBytes(b, handle)\n	return enc')], []),
 ("r-bytes-reset", [(T, 'return codec.NewDecoderBytes(b, msgpackClientHandle.handle)', 'dec := codec.NewDecoderBytes(nil, msgpackClientHandle.handle)\n	dec.ResetBytes(b)\n	return dec')], []),
]
