SEEDS = []
def seed(id, property, needs, breaks, edits, test, **k):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, test=test, **k))

seed("C01-truncated-body", "C01",
 "a 200 response whose connection is cut after the complete encoded reply but before the announced length",
 "The client reports success although the response body could not be read completely.",
 [("client.go", """	if _, err := io.Copy(buf, resp.Body); err != nil {
""", """	if n, err := io.Copy(buf, resp.Body); err != nil && n == 0 {
""")],
'''package gotsrpc

import (
	"context"
	"fmt"
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		conn, rw, _ := w.(http.Hijacker).Hijack()
		fmt.Fprintf(rw, "HTTP/1.1 200 OK\\r\\nContent-Type: application/json; charset=utf-8\\r\\nContent-Length: 100\\r\\n\\r\\n[\\"x\\"]")
		rw.Flush()
		conn.Close()
	}))
	defer s.Close()
	var out string
	err := NewClientWithHttpClient(s.Client()).Call(context.Background(), s.URL, "/e", "M", []interface{}{1}, []interface{}{&out})
	if err == nil {
		t.Fatal("truncated response accepted", out)
	}
}
''')

seed("C01-nil-slots", "C01",
 "a call without return values whose 200 response body is not a valid encoding",
 "A call without reply slots never decodes the body, so an undecodable reply is reported as success.",
 [("client.go", """	wrappedReply := reply
	if clientHandle""", """	if len(reply) == 0 {
		return nil
	}

	wrappedReply := reply
	if clientHandle""")],
'''package gotsrpc

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Type", "application/json; charset=utf-8")
		w.Write([]byte("<html>captive portal</html>"))
	}))
	defer s.Close()
	if err := NewClientWithHttpClient(s.Client()).Call(context.Background(), s.URL, "/e", "M", nil, []interface{}{}); err == nil {
		t.Fatal("a page that is no reply was accepted")
	}
}
''')

seed("C02-accept-default", "C02",
 "default headers configured on the client that contain an Accept header",
 "The configured default Accept header replaces the one naming the encoding in use.",
 [("client.go", """	request.Header.Set("Accept", contentType)
""", """	if request.Header.Get("Accept") == "" {
		request.Header.Set("Accept", contentType)
	}
""")],
'''package gotsrpc

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	accept := ""
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		accept = r.Header.Get("Accept")
		w.Write([]byte("[]"))
	}))
	defer s.Close()
	c := NewClientWithHttpClient(s.Client())
	c.SetDefaultHeaders(http.Header{"Accept": []string{"text/html"}})
	if err := c.Call(context.Background(), s.URL, "/e", "M", nil, []interface{}{}); err != nil {
		t.Fatal(err)
	}
	if accept != msgpackClientHandle.contentType {
		t.Fatal(accept)
	}
}
''')

seed("C02-trim-endpoint", "C02",
 "a base URL with a trailing slash or path of its own",
 "The URL of the call is no longer the base URL followed by endpoint and method.",
 [("client.go", """	postURL := fmt.Sprintf("%s%s/%s", url, endpoint, method)
""", """	postURL := fmt.Sprintf("%s%s/%s", strings.TrimSuffix(url, endpoint), endpoint, method)
"""), ("client.go", '''	"net/http"

''', '''	"net/http"
	"strings"

''')],
'''package gotsrpc

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	path := ""
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		path = r.URL.Path
		w.Write([]byte("[]"))
	}))
	defer s.Close()
	c := NewClientWithHttpClient(s.Client())
	if err := c.Call(context.Background(), s.URL+"/svc", "/svc", "M", nil, []interface{}{}); err != nil {
		t.Fatal(err)
	}
	if path != "/svc/svc/M" {
		t.Fatal(path)
	}
}
''')

seed("C03-late-defer", "C03",
 "a response with a status other than 200",
 "The response body is not closed when the call fails because of the status.",
 [("client.go", """	defer resp.Body.Close()

""", ""), ("client.go", """	clientHandle := getHandlerForContentType(resp.Header.Get("Content-Type"))

""", """	defer resp.Body.Close()

	clientHandle := getHandlerForContentType(resp.Header.Get("Content-Type"))

""")],
'''package gotsrpc

import (
	"context"
	"io"
	"net/http"
	"strings"
	"testing"
)

type demoBody struct {
	io.Reader
	closed *int
}

func (b demoBody) Close() error { *b.closed++; return nil }

type demoTransport func(*http.Request) (*http.Response, error)

func (f demoTransport) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func TestDemo(t *testing.T) {
	for _, code := range []int{200, 404, 500} {
		closed := 0
		c := NewClientWithHttpClient(&http.Client{Transport: demoTransport(func(r *http.Request) (*http.Response, error) {
			return &http.Response{StatusCode: code, Header: http.Header{}, Body: demoBody{strings.NewReader("[]"), &closed}, Request: r}, nil
		})})
		_ = c.Call(context.Background(), "http://x", "/e", "M", nil, []interface{}{})
		if closed != 1 {
			t.Fatal("status", code, "closed", closed)
		}
	}
}
''')

seed("C04-remember-encoding", "C04",
 "two concurrent calls (or a MsgPack client that once got a JSON reply): the first response rewrites the encoding of the shared client",
 "A call writes the client object that concurrent calls share.",
 [("client.go", """	clientHandle := getHandlerForContentType(resp.Header.Get("Content-Type"))

""", """	// stick to the encoding the server prefers
	clientHandle := getHandlerForContentType(resp.Header.Get("Content-Type"))
	c.handle = clientHandle

""")],
'''package gotsrpc

import (
	"context"
	"net/http"
	"net/http/httptest"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte("[]"))
	}))
	defer s.Close()
	c := NewClientWithHttpClient(s.Client())
	before := c.(*bufferedClient).handle
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			_ = c.Call(context.Background(), s.URL, "/e", "M", nil, []interface{}{})
		}()
	}
	wg.Wait()
	if c.(*bufferedClient).handle != before {
		t.Fatal("a call changed the shared client")
	}
}
''')

seed("C04-args-errors", "C04",
 "an argument list that contains an error value and is used for more than one call",
 "The client replaces elements of the caller's argument list.",
 [("client.go", """	if len(args) > 0 {
		if err""", """	if len(args) > 0 {
		if c.handle.beforeEncodeReply != nil {
			if err := c.handle.beforeEncodeReply(&args); err != nil {
				return NewClientError(err)
			}
		}
		if err""")],
'''package gotsrpc

import (
	"context"
	"errors"
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte("[]"))
	}))
	defer s.Close()
	e := errors.New("mine")
	args := []interface{}{1, e}
	_ = NewClientWithHttpClient(s.Client()).Call(context.Background(), s.URL, "/e", "M", args, []interface{}{})
	if args[1] != e {
		t.Fatal("the caller's arguments were modified", args)
	}
}
''')

seed("C05-body-cut", "C05",
 "a failed call whose response body is longer than 512 bytes",
 "The HTTP error does not carry the whole response body any more.",
 [("client.go", """		return NewClientError(NewHTTPError(buf.String(), resp.StatusCode))
""", """		msg := buf.String()
		if len(msg) > 512 {
			msg = msg[:512]
		}
		return NewClientError(NewHTTPError(msg, resp.StatusCode))
""")],
'''package gotsrpc

import (
	"context"
	"errors"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	body := strings.Repeat("reason ", 200)
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(422)
		w.Write([]byte(body))
	}))
	defer s.Close()
	err := NewClientWithHttpClient(s.Client()).Call(context.Background(), s.URL, "/e", "M", nil, []interface{}{})
	var h *HTTPError
	if !errors.As(err, &h) || h.StatusCode != 422 || h.Body != body {
		t.Fatal(err)
	}
}
''')

seed("T01-mediatype", "T01",
 "a request or reply whose content type only starts like the MsgPack one",
 "An unknown content type selects MsgPack instead of JSON.",
 [("transport.go", """	switch contentType {
	case msgpackClientHandle.contentType:
		return msgpackClientHandle
	case jsonClientHandle.contentType:""", """	switch {
	case strings.HasPrefix(contentType, "application/msgpack"):
		return msgpackClientHandle
	case contentType == jsonClientHandle.contentType:"""), ("transport.go", '''	"reflect"
	"time"
''', '''	"reflect"
	"strings"
	"time"
''')],
'''package gotsrpc

import (
	"net/http"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	r, _ := http.NewRequest("POST", "http://x/", strings.NewReader(`["a"]`))
	r.Header.Set("Content-Type", "application/msgpack-seq")
	s := ""
	if err := LoadArgs(&[]interface{}{&s}, nil, r); err != nil || s != "a" {
		t.Fatal(s, err)
	}
}
''')

seed("T01-reply-accept", "T01",
 "a JSON request that accepts MsgPack",
 "The reply is encoded with the encoding of the Accept header instead of the request's content type.",
 [("gotsrpc.go", """	clientHandle := getHandlerForContentType(r.Header.Get("Content-Type"))

	w.Header()""", """	accept := r.Header.Get("Accept")
	if accept == "" {
		accept = r.Header.Get("Content-Type")
	}
	clientHandle := getHandlerForContentType(accept)

	w.Header()""")],
'''package gotsrpc

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	r, _ := http.NewRequest("POST", "http://x/", nil)
	r.Header.Set("Content-Type", jsonClientHandle.contentType)
	r.Header.Set("Accept", msgpackClientHandle.contentType)
	w := httptest.NewRecorder()
	if err := Reply([]interface{}{"a"}, nil, r, w); err != nil {
		t.Fatal(err)
	}
	if ct := w.Header().Get("Content-Type"); ct != jsonClientHandle.contentType || w.Body.String() != `["a"]` {
		t.Fatal(ct, w.Body.String())
	}
}
''')

seed("T02-early-status", "T02",
 "return values that can not be encoded",
 "The response status is already written when encoding the return values fails, so the failure can not be answered with 500.",
 [("gotsrpc.go", """	w.Header().Set("Content-Type", clientHandle.contentType)

""", """	w.Header().Set("Content-Type", clientHandle.contentType)
	if clientHandle.beforeEncodeReply == nil {
		w.WriteHeader(http.StatusOK)
	}

""")],
'''package gotsrpc

import (
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/ugorji/go/codec"
)

type demoBad struct{}

func (demoBad) CodecEncodeSelf(*codec.Encoder) { panic("not encodable") }
func (demoBad) CodecDecodeSelf(*codec.Decoder) {}

func TestDemo(t *testing.T) {
	r, _ := http.NewRequest("POST", "http://x/", nil)
	w := httptest.NewRecorder()
	if err := Reply([]interface{}{demoBad{}}, nil, r, w); err == nil {
		t.Fatal("encodable")
	}
	ErrorCouldNotReply(w)
	if w.Code != 500 {
		t.Fatal(w.Code)
	}
}
''')

seed("T03-nanos", "T03",
 "a time before 1970 with a fraction of a millisecond, or one after the year 2262",
 "Times before the epoch are rounded towards it and times far from it overflow.",
 [("timeext.go", "v.(*time.Time).UnixMilli()", "v.(*time.Time).UnixNano() / int64(time.Millisecond)")],
'''package gotsrpc

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	for _, x := range []time.Time{time.Unix(-1, 999500000), time.Date(2300, 1, 1, 0, 0, 0, 0, time.UTC), time.Unix(1700000000, 5)} {
		if got := timeExt.ConvertExt(&x); got != x.UnixMilli() {
			t.Fatal(x, got, x.UnixMilli())
		}
	}
}
''')

seed("T04-value-members", "T04",
 "a union whose set member is not a pointer",
 "Members that are not pointers are skipped when a union is encoded.",
 [("unionext.go", "if field := val.Field(i); !field.IsZero() {", "if field := val.Field(i); field.Kind() == reflect.Ptr && !field.IsNil() {")],
'''package gotsrpc

import "testing"

func TestDemo(t *testing.T) {
	type u struct {
		A string
		B *int
	}
	if got := unionExt.ConvertExt(u{A: "a"}); got != "a" {
		t.Fatal(got)
	}
}
''')

seed("T05-last-slot", "T05",
 "a method that returns an error in a position other than the last",
 "A transported error is stored into the last reply variable instead of its own.",
 [("transport.go", "if y, ok := (*reply)[k].(*error); ok {", "if y, ok := (*reply)[len(*reply)-1].(*error); ok {")],
'''package gotsrpc

import (
	"context"
	"errors"
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		_ = Reply([]interface{}{errors.New("first"), error(nil)}, nil, r, w)
	}))
	defer s.Close()
	var a, b error
	if err := NewClientWithHttpClient(s.Client()).Call(context.Background(), s.URL, "/e", "M", nil, []interface{}{&a, &b}); err != nil {
		t.Fatal(err)
	}
	if a == nil || a.Error() != "first" || b != nil {
		t.Fatal(a, b)
	}
}
''')

seed("E01-repeated-text", "E01",
 "an error whose message contains the text of its cause more than once",
 "The first occurrence of the cause's text is removed from the message instead of the suffix.",
 [("error.go", 'strings.TrimSuffix(inst.Msg, ": "+unwrappedErr.Error())', 'strings.Replace(inst.Msg, ": "+unwrappedErr.Error(), "", 1)')],
'''package gotsrpc

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	inner := fmt.Errorf("x")
	e := NewError(fmt.Errorf("a: x: b: %w", inner))
	if e.Msg != "a: x: b" || e.Error() != "a: x: b: x" {
		t.Fatalf("%q %q", e.Msg, e.Error())
	}
}
''')

seed("E02-unwrap-data", "E02",
 "an error with a cause, matched through two levels",
 "Matching requires the chains below to match as well: an error with the same message, type and package is not matched once causes are involved.",
 [("error.go", """		errType.String() == e.Type &&
		errElem.PkgPath() == e.Pkg {
		return true""", """		errType.String() == e.Type &&
		(e.ErrCause != nil || errElem.PkgPath() == e.Pkg) {
		return true""")],
'''package gotsrpc

import (
	"errors"
	"testing"
)

func TestDemo(t *testing.T) {
	e := NewError(errors.New("a"))
	e.ErrCause = NewError(errors.New("b"))
	e.Pkg = "other/package"
	if errors.Is(e, errors.New("a")) {
		t.Fatal("matched an error of another package")
	}
	e.Pkg = "errors"
	if !errors.Is(e, errors.New("a")) {
		t.Fatal("not matched")
	}
}
''')

seed("S02-empty-body", "S02",
 "a request with an empty body for a method with arguments",
 "An empty request body is accepted: the method is called with zero values.",
 [("gotsrpc.go", """codec.NewDecoder(r.Body, handle).Decode(args); errDecode != nil {
""", """codec.NewDecoder(r.Body, handle).Decode(args); errDecode != nil && errDecode != io.EOF {
"""), ("gotsrpc.go", '''	"go/token"
''', '''	"go/token"
	"io"
''')],
'''package gotsrpc

import (
	"net/http"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, body := range []string{"", "[1", "[{]"} {
		r, _ := http.NewRequest("POST", "http://x/", strings.NewReader(body))
		s := ""
		if err := LoadArgs(&[]interface{}{&s}, nil, r); err == nil {
			t.Fatalf("%q accepted", body)
		}
	}
}
''')

seed("S03-second-status", "S03",
 "a method that writes a second status, or an informational status before the final one",
 "Statuses after the first are not passed on to the underlying writer.",
 [("responsewriter.go", """	r.ResponseWriter.WriteHeader(status)
""", """	if r.status == status {
		r.ResponseWriter.WriteHeader(status)
	}
""")],
'''package gotsrpc

import (
	"net/http"
	"testing"
)

type demoWriter struct{ got []int }

func (w *demoWriter) Header() http.Header         { return http.Header{} }
func (w *demoWriter) Write(b []byte) (int, error) { return len(b), nil }
func (w *demoWriter) WriteHeader(s int)           { w.got = append(w.got, s) }

func TestDemo(t *testing.T) {
	u := &demoWriter{}
	w := &ResponseWriter{ResponseWriter: u}
	w.WriteHeader(103)
	w.WriteHeader(200)
	if len(u.got) != 2 || u.got[0] != 103 || w.Status() != 200 {
		t.Fatal(u.got, w.Status())
	}
}
''')

seed("S04-single-error", "S04",
 "a failed call of a method whose only return value is the error",
 "The error statistics are not recorded when the error is the only return value.",
 [("gotsrpc.go", """		if len(response) > 0 {
""", """		if len(response) > 1 {
""")],
'''package gotsrpc

import (
	"errors"
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, resp := range [][]interface{}{{errors.New("x")}, {1, errors.New("x")}} {
		r, _ := http.NewRequest("POST", "http://x/", nil)
		s := &CallStats{}
		if err := Reply(resp, s, r, httptest.NewRecorder()); err != nil {
			t.Fatal(err)
		}
		if s.ErrorCode != 1 || s.ErrorMessage != "x" {
			t.Fatal(s)
		}
	}
}
''')

seed("T05-cause-name", "T05",
 "an error with data and a cause, sent to a Go client",
 "The cause of a transported error is encoded under the same name as its data.",
 [("error.go", """	ErrCause *Error      `json:"c,omitempty"`
""", """	ErrCause *Error      `json:"d,omitempty"`
""")],
'''package gotsrpc

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/pkg/errors"
)

type coded struct {
	Code  int
	Inner error
}

func (c *coded) Error() string { return "coded: " + c.Inner.Error() }
func (c *coded) Unwrap() error { return c.Inner }

func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		_ = Reply([]interface{}{error(&coded{Code: 7, Inner: errors.New("first")})}, nil, r, w)
	}))
	defer s.Close()
	var a error
	if err := NewClientWithHttpClient(s.Client()).Call(context.Background(), s.URL, "/e", "M", nil, []interface{}{&a}); err != nil {
		t.Fatal(err)
	}
	if a == nil || a.Error() != "coded: first" {
		t.Fatal(a)
	}
}
''')

seed("C06-factory-once", "C06",
 "two clients made without an HTTP client, with another factory installed in between",
 "Clients made after a new factory was installed keep using the HTTP client of the first factory.",
 [("client.go", """func NewClient() Client {
	return &bufferedClient{client: defaultHttpFactory(), handle""", """var (
	defaultClient     *http.Client
	defaultClientOnce sync.Once
)

// sharedHTTPClient lets all clients of a process share one connection pool
func sharedHTTPClient() *http.Client {
	defaultClientOnce.Do(func() { defaultClient = defaultHttpFactory() })
	return defaultClient
}

func NewClient() Client {
	return &bufferedClient{client: sharedHTTPClient(), handle"""), ("client.go", '	"net/http"\n', '	"net/http"\n	"sync"\n')],
'''package gotsrpc

import (
	"context"
	"errors"
	"net/http"
	"testing"
)

type rt func(*http.Request) (*http.Response, error)

func (f rt) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func TestDemo(t *testing.T) {
	used := ""
	factory := func(name string) HttpClientFactory {
		return func() *http.Client {
			return &http.Client{Transport: rt(func(*http.Request) (*http.Response, error) {
				used = name
				return nil, errors.New("offline")
			})}
		}
	}
	for _, name := range []string{"first", "second"} {
		SetDefaultHttpClientFactory(factory(name))
		_ = NewClient().Call(context.Background(), "http://localhost", "/e", "M", nil, nil)
		if used != name {
			t.Fatalf("sent through %q instead of %q", used, name)
		}
	}
}
''')

seed("C06-unbounded", "C06",
 "a server that sends its response headers and then never finishes the body",
 "The built-in HTTP client waits forever for a body that never ends.",
 [("http.go", """		TLSHandshakeTimeout:   10 * time.Second,
		ExpectContinueTimeout: 5 * time.Second,
""", """		TLSHandshakeTimeout:   10 * time.Second,
		ExpectContinueTimeout: 5 * time.Second,
		// give up on servers that do not answer
		ResponseHeaderTimeout: 2 * time.Minute,
"""), ("http.go", """		Transport: transport,
		Timeout:   2 * time.Minute, // Terminate Connection after 3 Minutes
""", """		Transport: transport,
""")],
'''package gotsrpc

import "testing"

func TestDemo(t *testing.T) {
	// http.Client.Timeout is the only bound that covers reading the body
	if c := defaultHttpFactory(); c.Timeout <= 0 {
		t.Fatal("a default client has no overall timeout")
	}
}
''')

seed("T06-own-handle", "T06",
 "an extension registered for an application's type, then a value of that type encoded to bytes",
 "The byte encoder works on a configuration of its own that registered extensions do not reach.",
 [("transport.go", """	return codec.NewEncoderBytes(b, msgpackClientHandle.handle)
""", """	return codec.NewEncoderBytes(b, msgpackBytesHandle)
"""), ("transport.go", """	msgpackClientHandle.handle = mh
""", """	msgpackClientHandle.handle = mh
	// encoding to bytes must not contend with calls
	msgpackBytesHandle.MapType = mh.MapType
	msgpackBytesHandle.RawToString = mh.RawToString
"""), ("transport.go", """func init() {
""", """var msgpackBytesHandle = new(codec.MsgpackHandle)

func init() {
""")],
'''package gotsrpc

import (
	"bytes"
	"testing"
)

type money struct{ Cents int }

type moneyExt struct{}

func (moneyExt) WriteExt(v interface{}) []byte { return []byte("converted") }
func (moneyExt) ReadExt(dst interface{}, src []byte) {}

func TestDemo(t *testing.T) {
	if err := SetMSGPackExt(money{}, 7, moneyExt{}); err != nil {
		t.Fatal(err)
	}
	var b []byte
	if err := NewMSGPackEncoderBytes(&b).Encode(money{5}); err != nil {
		t.Fatal(err)
	}
	if !bytes.Contains(b, []byte("converted")) {
		t.Fatalf("%x", b)
	}
}
''')

seed("C02-header-values", "C02",
 "a default header with several values",
 "Only the first value of a default header is sent.",
 [("client.go", """		request.Header = headers
""", """		for name := range headers {
			request.Header.Set(name, headers.Get(name))
		}
""")],
'''package gotsrpc

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	var got []string
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		got = r.Header.Values("X-Forwarded-For")
		w.Write([]byte("[]"))
	}))
	defer s.Close()
	c := NewClientWithHttpClient(s.Client())
	c.SetDefaultHeaders(http.Header{"X-Forwarded-For": {"10.0.0.1", "10.0.0.2"}})
	_ = c.Call(context.Background(), s.URL, "/e", "M", nil, nil)
	if len(got) != 2 {
		t.Fatal(got)
	}
}
''')

seed("E01-cause-depth", "E01",
 "an error that wraps more than two levels deep",
 "Causes below the second level are lost in the transportable form.",
 [("error.go", """		inst.ErrCause = NewError(unwrappedErr)
""", """		inst.ErrCause = NewError(unwrappedErr)
		if c := inst.ErrCause; c.ErrCause != nil && c.ErrCause.ErrCause != nil {
			c.ErrCause.ErrCause = nil // keep the reply small
		}
""")],
'''package gotsrpc

import (
	"errors"
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	root := errors.New("root")
	err := fmt.Errorf("c: %w", fmt.Errorf("b: %w", fmt.Errorf("a: %w", root)))
	e := NewError(err)
	if e.Error() != "c: b: a: root" {
		t.Fatal(e.Error())
	}
	if !errors.Is(e, root) {
		t.Fatal("the root cause is no longer matched")
	}
}
''')
