ALL=[]
C="client.go"; T="transport.go"
MUTANTS=[
 # --- behaviour preserving
 ("r-ioreadall",[(C,"""	buf := new(bytes.Buffer)
	if _, err := io.Copy(buf, resp.Body); err != nil {
		return NewClientError(errors.Wrap(err, "failed to read response body"))
	}""","""	data, err := io.ReadAll(resp.Body)
	if err != nil {
		return NewClientError(errors.Wrap(err, "failed to read response body"))
	}"""),(C,"NewHTTPError(buf.String()","NewHTTPError(string(data)"),(C,"codec.NewDecoder(buf, ","codec.NewDecoderBytes(data, ")],[]),
 ("r-helper",[(C,"""	resp, errDo := c.client.Do(request)
	if errDo != nil {
		return NewClientError(errors.Wrap(errDo, "failed to send request"))
	}
	defer resp.Body.Close()
""","""	resp, errDo := c.send(request)
	if errDo != nil {
		return NewClientError(errDo)
	}
	defer func() { _ = resp.Body.Close() }()
"""),(C,"// Call calls a method","""func (c *bufferedClient) send(r *http.Request) (*http.Response, error) {
	resp, err := c.client.Do(r)
	return resp, errors.Wrap(err, "failed to send request")
}

// Call calls a method""")],[]),
 ("r-concat",[(C,'fmt.Sprintf("%s%s/%s", url, endpoint, method)','url + endpoint + "/" + method'),(C,'	"fmt"\n','')],[]),
 ("r-hdrloop",[(C,"		request.Header = headers\n","		for k, vs := range headers {\n			for _, v := range vs {\n				request.Header.Add(k, v)\n			}\n		}\n")],[]),
 ("r-hdrloop2",[(C,"		request.Header = headers\n","		for k, v := range headers {\n			request.Header[k] = v\n		}\n")],[]),
 ("r-switchif",[(T,"""	switch encoding {
	case EncodingMsgpack:
		return msgpackClientHandle
	case EncodingJson:
		return jsonClientHandle
	default:
		return jsonClientHandle
	}""","""	if encoding == EncodingMsgpack {
		return msgpackClientHandle
	}
	return jsonClientHandle""")],[]),
 ("r-ctor",[(C,"""	if client != nil {
		return &bufferedClient{client: client, handle: getHandleForEncoding(EncodingMsgpack), headers: nil}
	} else {
		return &bufferedClient{client: defaultHttpFactory(), handle: getHandleForEncoding(EncodingMsgpack), headers: nil}
	}""","""	if client == nil {
		client = defaultHttpFactory()
	}
	c := &bufferedClient{client: client}
	c.SetClientEncoding(EncodingMsgpack)
	return c""")],[]),
 ("r-errw",[(C,'errors.Wrap(err, "failed to decode response")','fmt.Errorf("failed to decode response: %w", err)')],[]),
 ("r-nodefer",[(C,"	defer resp.Body.Close()\n",""),(C,"""	if _, err := io.Copy(buf, resp.Body); err != nil {
""","""	_, err := io.Copy(buf, resp.Body)
	resp.Body.Close()
	if err != nil {
""")],[]),
 # --- breaking
 ("m-status",[(C,"resp.StatusCode != http.StatusOK","resp.StatusCode >= 300")],"C01"),
 ("m-status2",[(C,"resp.StatusCode != http.StatusOK","resp.StatusCode != http.StatusOK && resp.ContentLength != 0")],"C01"),
 ("m-decodeerr",[(C,"""Decode(wrappedReply); err != nil {""","""Decode(wrappedReply); err != nil && len(reply) > 0 {""")],"C01"),
 ("m-eof",[(C,"""Decode(wrappedReply); err != nil {""","""Decode(wrappedReply); err != nil && err != io.EOF {""")],"C01"),
 ("m-copyn",[(C,"io.Copy(buf, resp.Body)","io.Copy(buf, io.LimitReader(resp.Body, 1<<20))")],"C01"),
 ("m-retry",[(C,"""	resp, errDo := c.client.Do(request)
""","""	resp, errDo := c.client.Do(request)
	if errDo != nil {
		resp, errDo = c.client.Do(request)
	}
""")],"C01"),
 ("m-after",[(C,"clientHandle.afterDecodeReply(&reply, wrappedReply); err != nil {\n			return NewClientError(","clientHandle.afterDecodeReply(&reply, wrappedReply); err != nil {\n			_ = NewClientError(")],"C01"),
 ("m-mapstruct",[(T,"""				} else if err := mapstructure.Decode(e.Data, (*reply)[k]); err != nil {
					return errors.Wrap(err, "failed to decode wrapped error")
				}""","""				} else {
					_ = mapstructure.Decode(e.Data, (*reply)[k])
				}"""),(T,'	"github.com/pkg/errors"\n','	"github.com/pkg/errors"\n')],"C01"),
 ("m-chain",[(C,'errors.Wrap(errDo, "failed to send request")','errors.Errorf("failed to send request: %v", errDo)')],"C01"),
 ("m-unwrap",[("clienterror.go","return e.error","return nil")],["C01","C05"]),
 ("m-ctx",[(C,"http.NewRequestWithContext(ctx,","http.NewRequestWithContext(context.WithoutCancel(context.Background()),")],"C02"),
 ("m-slash",[(C,'"%s%s/%s"','"%s/%s%s"')],"C02"),
 ("m-hdrorder",[(C,"""	if len(headers) > 0 {
		request.Header = headers
	}
""",""),(C,"""	request.Header.Set(HeaderServiceToService, "true")
""","""	request.Header.Set(HeaderServiceToService, "true")
	for k, v := range headers {
		request.Header[k] = v
	}
""")],"C02"),
 ("m-accept",[(C,"""Set("Accept", contentType)""","""Set("Accept", jsonClientHandle.contentType)""")],"C02"),
 ("m-default",[(C,"return &bufferedClient{client: client, handle","return &bufferedClient{client: defaultHttpFactory(), handle")],"C02"),
 ("m-jsonsel",[(T,"	case EncodingJson:\n		return jsonClientHandle","	case EncodingJson:\n		return msgpackClientHandle")],"C02"),
 ("m-nobody",[(C,"if len(args) > 0 {","if len(args) > 1 {")],["C01","C02"]),
 ("m-s2s",[(C,"""	request.Header.Set(HeaderServiceToService, "true")""","""	if request.Header.Get(HeaderServiceToService) == "" {
		request.Header.Set(HeaderServiceToService, "true")
	}""")],"C02"),
]
