SEEDS = []
YML = '''module:
  name: github.com/foomo/gotsrpc/v2
  path: ../
targets:
  demo:
    services:
      /service/demo: Service
    package: github.com/foomo/gotsrpc/v2/zzdemo
    out: client/service.ts
    gorpc:
      - Service
    tsrpc:
      - Service
mappings:
  github.com/foomo/gotsrpc/v2/zzdemo:
    out: client/demo.ts
'''
NOGORPC = YML.replace("    gorpc:\n      - Service\n", "")
def seed(id, property, needs, breaks, edits, service, test, yml=YML, more=None, **k):
    files = {"service.go": service, "gotsrpc.yml": yml}
    if test:
        files["demo_test.go"] = test
    files.update(more or {})
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, gen=True, files=files, **k))

HTTP = '''package zzdemo

import (
	"context"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"testing"

	"github.com/foomo/gotsrpc/v2"
)

var (
	_ = context.Background
	_ = httptest.NewServer
	_ = http.MethodPost
	_ = os.ReadFile
	_ = strings.Contains
	_ = gotsrpc.NewClient
)

func squeeze(t *testing.T, file string) string {
	t.Helper()
	b, err := os.ReadFile(file)
	if err != nil {
		t.Fatal(err)
	}
	return strings.Join(strings.Fields(string(b)), " ")
}
'''

seed("S01-deeper-path", "S01",
 "a POST to a path below the endpoint whose last element is the name of a method",
 "The proxy dispatches on the last path element only, so /endpoint/x/Method and /other/Method call the method.",
 [("gotsrpc.go", """	return strings.TrimPrefix(r.URL.Path, endPoint+"/")
""", """	return r.URL.Path[strings.LastIndex(r.URL.Path, "/")+1:]
""")],
'''package zzdemo

type Service struct{ calls int }

func (s *Service) Hello(name string) string { s.calls++; return name }
''', HTTP + '''
func TestDemo(t *testing.T) {
	s := &Service{}
	p := NewDefaultServiceGoTSRPCProxy(s)
	for path, status := range map[string]int{"/service/demo/Hello": 200, "/service/demo/x/Hello": 404, "/Hello": 404} {
		w := httptest.NewRecorder()
		r := httptest.NewRequest(http.MethodPost, path, strings.NewReader(`["a"]`))
		p.ServeHTTP(w, r)
		if w.Code != status {
			t.Fatal(path, w.Code)
		}
	}
	if s.calls != 1 {
		t.Fatal(s.calls)
	}
}
''')

seed("S01-unknown-stats", "S01",
 "a middleware reads the statistics of a request that named an unknown method",
 "The proxy clears the statistics only if the function name is empty, so unknown methods show up in the metrics.",
 [("gotsrpc.go", """	*r = *r.WithContext(context.WithValue(r.Context(), contextStatsKey, nil))
""", """	if stats, ok := GetStatsForRequest(r); ok && stats.Func == "" {
		*r = *r.WithContext(context.WithValue(r.Context(), contextStatsKey, nil))
	}
""")],
'''package zzdemo

type Service struct{}

func (s *Service) Hello(name string) string { return name }
''', HTTP + '''
func TestDemo(t *testing.T) {
	r := gotsrpc.RequestWithStatsContext(httptest.NewRequest(http.MethodPost, "/service/demo/Nope", strings.NewReader(`["a"]`)))
	NewDefaultServiceGoTSRPCProxy(&Service{}).ServeHTTP(httptest.NewRecorder(), r)
	if stats, ok := gotsrpc.GetStatsForRequest(r); ok {
		t.Fatal("unknown method reported", stats.Func)
	}
}
''')

RPC = '''package zzdemo

import (
	"net"
	"testing"
	"time"

	"github.com/foomo/gotsrpc/v2"
)

var _ = gotsrpc.NewClient

func start(t *testing.T, s *Service) (*ServiceGoRPCProxy, *ServiceGoRPCClient) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	addr := l.Addr().String()
	l.Close()
	p := NewServiceGoRPCProxy(addr, s, nil)
	if err := p.Start(); err != nil {
		t.Fatal(err)
	}
	t.Cleanup(p.Stop)
	c := NewServiceGoRPCClient(addr, nil)
	c.Client.RequestTimeout = 5 * time.Second
	c.Start()
	t.Cleanup(c.Stop)
	return p, c
}
'''

seed("S05-register-args", "S05",
 "a call over GoRPC of a method that has results but no arguments",
 "Request types of methods that only return something are not registered, so their calls cannot be encoded.",
 [("go.go", """			g.l(`gob.Register(` + ucfirst(service.Name+method.Name) + `Request{})`)
			g.l(`gob.Register(` + ucfirst(service.Name+method.Name) + `Response{})`)
""", """			if len(method.Args) > 0 || len(method.Return) == 0 {
				g.l(`gob.Register(` + ucfirst(service.Name+method.Name) + `Request{})`)
			}
			g.l(`gob.Register(` + ucfirst(service.Name+method.Name) + `Response{})`)
""")],
'''package zzdemo

type Service struct{}

func (s *Service) Hello(name string) string { return name }
func (s *Service) Count() int               { return 42 }
''', RPC + '''
func TestDemo(t *testing.T) {
	_, c := start(t, &Service{})
	if ret, err := c.Hello("a"); err != nil || ret != "a" {
		t.Fatal(ret, err)
	}
	if ret, err := c.Count(); err != nil || ret != 42 {
		t.Fatal(ret, err)
	}
}
''')

seed("S05-unnamed-pair", "S05",
 "a method with two unnamed results of the same type, called over GoRPC",
 "The GoRPC proxy stores unnamed results in reverse order.",
 [("go.go", """				rets = append(rets, name)
				retParams = append(retParams, ucfirst(name)+`: `+name)
""", """				if len(r.Name) == 0 {
					rets = append([]string{name}, rets...)
				} else {
					rets = append(rets, name)
				}
				retParams = append(retParams, ucfirst(name)+`: `+name)
""")],
'''package zzdemo

type Service struct{}

func (s *Service) Split(name string) (string, string) { return name[:1], name[1:] }
''', RPC + '''
func TestDemo(t *testing.T) {
	_, c := start(t, &Service{})
	if a, b, err := c.Split("abc"); err != nil || a != "a" || b != "bc" {
		t.Fatal(a, b, err)
	}
}
''')

seed("S06-session-monitor", "S06",
 "a session method with arguments and without results that answers with a status other than 200",
 "Calls of session methods without results that answered on their own with another status are not reported to the monitor.",
 [("go.go", """			if isSessionRequest {
				g.ind(-1).l("}")
			}
			g.l("gotsrpc.Monitor(w, r, args, rets, callStats)")
""", """			if len(method.Return) > 0 || len(callArgs) == 2 || !isSessionRequest {
				if isSessionRequest {
					g.ind(-1).l("}")
				}
				g.l("gotsrpc.Monitor(w, r, args, rets, callStats)")
			} else {
				g.l("gotsrpc.Monitor(w, r, args, rets, callStats)")
				g.ind(-1).l("}")
			}
""")],
'''package zzdemo

import "net/http"

type Service struct{}

func (s *Service) Session(w http.ResponseWriter, r *http.Request, name string) {
	if name == "teapot" {
		http.Error(w, "no", http.StatusTeapot)
	}
}
''', HTTP + '''
func TestDemo(t *testing.T) {
	calls := 0
	gotsrpc.Monitor = func(w http.ResponseWriter, r *http.Request, args, rets []interface{}, stats *gotsrpc.CallStats) { calls++ }
	for _, body := range []string{`["a"]`, `["teapot"]`} {
		NewDefaultServiceGoTSRPCProxy(&Service{}).ServeHTTP(httptest.NewRecorder(), httptest.NewRequest(http.MethodPost, "/service/demo/Session", strings.NewReader(body)))
	}
	if calls != 2 {
		t.Fatal("monitor called", calls)
	}
}
''', yml=NOGORPC)

seed("G01-pair-of-results", "G01",
 "a method with exactly two unnamed results",
 "Both unnamed results of a pair get the same name in the TypeScript client, so the second replaces the first.",
 [("typscriptclient.go", """				if index > 0 {
					retArgName += "_" + fmt.Sprint(index)
""", """				if index > 0 && len(method.Return) != 2 {
					retArgName += "_" + fmt.Sprint(index)
""")],
'''package zzdemo

type Service struct{}

func (s *Service) Triple() (string, int, bool) { return "", 0, false }
func (s *Service) Pair() (string, int)         { return "", 0 }
''', HTTP + '''
func TestDemo(t *testing.T) {
	ts := squeeze(t, "client/service.ts")
	for _, want := range []string{"ret : response[0], ret_1 : response[1], ret_2 : response[2]}", "ret : response[0], ret_1 : response[1]}"} {
		if !strings.Contains(ts, want) {
			t.Fatal(want, "not in", ts)
		}
	}
}
''')

seed("G01-grouped-parameters", "G01",
 "a method with several parameters declared in one group",
 "The Go client passes only the first parameter of the same type to the server when their names share a prefix.",
 [("go.go", """		args = append(args, a.Name)
		params = append(params, a.Name+" "+a.Value.goType(aliases, fullPackageName))
	}
	var rets []string
""", """		if len(args) == 0 || len(a.Name) < 3 || !strings.HasPrefix(args[len(args)-1], a.Name) {
			args = append(args, a.Name)
		}
		params = append(params, a.Name+" "+a.Value.goType(aliases, fullPackageName))
	}
	var rets []string
""")],
'''package zzdemo

type Service struct{}

func (s *Service) Short(ab, a string) string       { return ab + a }
func (s *Service) Long(nameLong, name string) string { return nameLong + name }
''', HTTP + '''
func TestDemo(t *testing.T) {
	server := httptest.NewServer(NewDefaultServiceGoTSRPCProxy(&Service{}))
	defer server.Close()
	ret, err := NewDefaultServiceGoTSRPCClient(server.URL).Long(context.Background(), "a", "b")
	if err != nil || ret != "ab" {
		t.Fatal(ret, err)
	}
}
''')

TYPES = '''package zzdemo

type Service struct{}

''' + "".join("type T%d struct{ Next *T%d }\n" % (i, i + 1) for i in range(12)) + "type T12 struct{ Name string }\n" + '''
type Kind string

const (
''' + "".join('\tKind%s Kind = "%d"\n' % (c, i) for i, c in enumerate("ABCDEFGHIJKL")) + ''')

func (s *Service) Hello(t T0) Kind { return KindA }
'''
AGAIN = '''for i in 1 2 3 4 5 6; do
  rm -rf client
  timeout 60 "$t/gen" gotsrpc.yml >"$t/log" 2>&1 || { cat "$t/log"; exit 1; }
  cat client/*.ts *_gen.go | sha256sum
done | sort -u >"$t/sums"
cat "$t/sums"
[ "$(wc -l <"$t/sums")" = 1 ]
'''
seed("G02-enum-order", "G02",
 "several runs over a package with a constant type of many values",
 "Enum members are sorted only if there are a few, otherwise they are written in map iteration order.",
 [("typescript.go", """					sort.Strings(keys)
					packageCodeMap""", """					if len(keys) < 10 {
						sort.Strings(keys)
					}
					packageCodeMap""")],
 TYPES, "", run=AGAIN)

UNION = '''package %s

type A%s struct{ Name string }

type U%s struct {
	A *A%s `json:"a,omitempty" gotsrpc:"union"`
}
'''
seed("G02-union-packages", "G02",
 "several runs over a service that uses unions of several packages",
 "Unions are sorted within their package only, the packages follow in map iteration order.",
 [("go.go", """		for pkg, us := range unions {
			for _, name := range us {
""", """		for pkg, us := range unions {
			sort.Strings(us)
			for _, name := range us {
"""), ("go.go", """		sort.Strings(strs)
		for _, str := range strs {
""", """		for _, str := range strs {
""")],
'''package zzdemo

import (
	"github.com/foomo/gotsrpc/v2/zzdemo/ua"
	"github.com/foomo/gotsrpc/v2/zzdemo/ub"
	"github.com/foomo/gotsrpc/v2/zzdemo/uc"
	"github.com/foomo/gotsrpc/v2/zzdemo/ud"
)

type Service struct{}

func (s *Service) Hello(a ua.Uua, b ub.Uub, c uc.Uuc, d ud.Uud) string { return "" }
''', "", run=AGAIN, yml=NOGORPC + "".join("  github.com/foomo/gotsrpc/v2/zzdemo/%s:\n    out: client/%s.ts\n" % (u, u) for u in ("ua", "ub", "uc", "ud")),
 more={u + "/u.go": UNION.replace("%s", u) for u in ("ua", "ub", "uc", "ud")})

seed("G03-own-writer", "G03",
 "a method whose first parameter is a type of another package that is also called ResponseWriter",
 "Any type called ResponseWriter is taken for the HTTP response writer and left out.",
 [("go.go", """	return (v.StructType != nil && v.StructType.Name == "ResponseWriter" && v.StructType.Package == "net/http") ||
		(v.Scalar != nil && v.Scalar.Name == "ResponseWriter" && v.Scalar.Package == "net/http")
""", """	return (v.StructType != nil && v.StructType.Name == "ResponseWriter") ||
		(v.Scalar != nil && v.Scalar.Name == "ResponseWriter")
""")],
'''package zzdemo

type ResponseWriter struct{ Name string }

type Service struct{}

func (s *Service) Hello(w ResponseWriter, name string) string { return w.Name + name }
''', HTTP + '''
func TestDemo(t *testing.T) {
	ts := squeeze(t, "client/service.ts")
	if !strings.Contains(ts, "[w, name]") {
		t.Fatal(ts)
	}
}
''', compiles=False)

seed("G03-similar-type", "G03",
 "another type of the package whose name starts with the name of the service",
 "Methods of types whose names start with the service's name are exposed as methods of the service.",
 [("servicereader.go", """			if service.Name == serviceName {
				return service, true
			}
""", """			if strings.HasPrefix(serviceName, service.Name) {
				return service, true
			}
""")],
'''package zzdemo

type Service struct{}

func (s *Service) Hello(name string) string { return name }

type ServiceState struct{}

func (s *ServiceState) Reset(name string) string { return name }
''', HTTP + '''
func TestDemo(t *testing.T) {
	ts := squeeze(t, "client/service.ts")
	if strings.Contains(ts, "reset") {
		t.Fatal(ts)
	}
}
''', compiles=False)

seed("G04-map-key", "G04",
 "a named type that is used only as the key of a map in a method's arguments or results",
 "Types used only as map keys of arguments or results are not collected and missing in the generated TypeScript.",
 [("servicereader.go", """		if value.Map.Key != nil {
			if v := getScalarForField(value.Map.Key); v != nil {
				scalarTypes = append(scalarTypes, v...)
			}
		}
		scalarTypes""", """		scalarTypes""")],
'''package zzdemo

type Kind string

type Service struct{}

func (s *Service) Hello(name string) map[Kind]int { return nil }
''', HTTP + '''
func TestDemo(t *testing.T) {
	ts := squeeze(t, "client/demo.ts")
	if !strings.Contains(ts, "export type Kind = string") {
		t.Fatal(ts)
	}
}
''')

seed("G04-nested-slices", "G04",
 "a type that is reachable only through a named type of nested slices",
 "The elements of named types of nested slices are not collected.",
 [("servicereader.go", """		if s.Array.Value != nil && needsWorkValue(s.Array.Value, needsWork) {
""", """		if s.Array.Value != nil && s.Array.Value.Array == nil && needsWorkValue(s.Array.Value, needsWork) {
""")],
'''package zzdemo

type Cell struct{ Name string }

type Rows [][]Cell

type Service struct{}

func (s *Service) Hello(r Rows) string { return "" }
''', HTTP + '''
func TestDemo(t *testing.T) {
	ts := squeeze(t, "client/demo.ts")
	if !strings.Contains(ts, "export interface Cell {") {
		t.Fatal(ts)
	}
}
''')

seed("G05-map-key-import", "G05",
 "an argument type whose package appears only as the key of a map",
 "Packages of map key types are not imported, so the generated Go code does not compile.",
 [("go.go", """		extractImportValue(value.Map.Key, fullPackageName, aliases)
		extractImportValue(value.Map.Value, fullPackageName, aliases)
""", """		extractImportValue(value.Map.Value, fullPackageName, aliases)
""")],
'''package zzdemo

import "github.com/foomo/gotsrpc/v2/zzdemo/kinds"

type Service struct{}

func (s *Service) Hello(in map[kinds.Kind]string) int { return len(in) }
''', HTTP + '''
func TestDemo(t *testing.T) {
	server := httptest.NewServer(NewDefaultServiceGoTSRPCProxy(&Service{}))
	defer server.Close()
	ret, err := NewDefaultServiceGoTSRPCClient(server.URL).Hello(context.Background(), map[kinds.Kind]string{"a": "b"})
	if err != nil || ret != 1 {
		t.Fatal(ret, err)
	}
}
'''.replace('"a": "b"', 'kinds.Kind("a"): "b"'), yml=YML + '''  github.com/foomo/gotsrpc/v2/zzdemo/kinds:
    out: client/kinds.ts
''', more={"kinds/kinds.go": "package kinds\n\ntype Kind string\n"}, compiles=False)
SEEDS[-1]["files"]["demo_test.go"] = SEEDS[-1]["files"]["demo_test.go"].replace('"github.com/foomo/gotsrpc/v2"\n', '"github.com/foomo/gotsrpc/v2"\n\t"github.com/foomo/gotsrpc/v2/zzdemo/kinds"\n', 1)

seed("G05-beautiful-alias", "G05",
 "arguments of a package whose directory name is not a Go identifier",
 "The last path element is used as the import alias, even if it is not an identifier.",
 [("go.go", """			alias := uglyAlias // beautifulAlias
""", """			alias := beautifulAlias
""")],
'''package zzdemo

import other "github.com/foomo/gotsrpc/v2/zzdemo/other-types"

type Service struct{}

func (s *Service) Hello(in other.Thing) string { return in.Name }
''', HTTP + '''
func TestDemo(t *testing.T) {
	server := httptest.NewServer(NewDefaultServiceGoTSRPCProxy(&Service{}))
	server.Close()
}
''', yml=YML + '''  github.com/foomo/gotsrpc/v2/zzdemo/other-types:
    out: client/other.ts
''', more={"other-types/t.go": "package other\n\ntype Thing struct{ Name string }\n"}, compiles=False)

seed("G06-override-map", "G06",
 "a type override in the tag of a field whose Go type is a map",
 "Type overrides in field tags are ignored for maps.",
 [("typescript.go", """	case jsonInfo != nil && len(jsonInfo.Type) > 0:
""", """	case jsonInfo != nil && len(jsonInfo.Type) > 0 && v.Map == nil:
""")],
'''package zzdemo

type Item struct {
	Labels map[string]string `json:"labels" gotsrpc:"type:string"`
}

type Service struct{}

func (s *Service) Hello(i Item) string { return "" }
''', HTTP + '''
func TestDemo(t *testing.T) {
	ts := squeeze(t, "client/demo.ts")
	if !strings.Contains(ts, "labels:string;") {
		t.Fatal(ts)
	}
}
''')

seed("G06-inherited-omitempty", "G06",
 "a map of slices in a field that is omitted when empty",
 "The omitempty of a field is applied to the values of its map, which lose their '|null'.",
 [("typescript.go", """		ts.app(",")
		v.Map.Value.tsType(mappings, scalars, structs, ts, nil)
""", """		ts.app(",")
		v.Map.Value.tsType(mappings, scalars, structs, ts, jsonInfo)
""")],
'''package zzdemo

type Item struct {
	Rows map[string][]string `json:"rows,omitempty"`
}

type Service struct{}

func (s *Service) Hello(i Item) string { return "" }
''', HTTP + '''
func TestDemo(t *testing.T) {
	ts := squeeze(t, "client/demo.ts")
	if !strings.Contains(ts, "rows?:Record<string,Array<string>|null>;") {
		t.Fatal(ts)
	}
}
''')

seed("G07-enum-suffix", "G07",
 "constants whose names contain the name of their type at another place than the beginning",
 "Every occurrence of the type's name is removed from enum member names, so different constants get the same name.",
 [("typescript.go", """						enum := strings.TrimPrefix(strcase.ToCamel(k), packageConstantTypeName)
""", """						enum := strings.ReplaceAll(strcase.ToCamel(k), packageConstantTypeName, "")
""")],
'''package zzdemo

type Kind string

const (
	KindBig    Kind = "big"
	BigKind    Kind = "other"
)

type Service struct{}

func (s *Service) Hello(k Kind) string { return "" }
''', HTTP + '''
func TestDemo(t *testing.T) {
	ts := squeeze(t, "client/demo.ts")
	for _, want := range []string{`BigKind = "other",`, ` Big = "big",`} {
		if !strings.Contains(ts, want) {
			t.Fatal(want, "not in", ts)
		}
	}
}
''')

seed("G07-partial", "G07",
 "a struct that embeds both a pointer and a value inline",
 "Only the first inline field is checked for being a pointer, so later embedded pointers are extended as if always present.",
 [("typescript.go", """			if inlineField.Value.IsPtr {
				ts.app("Partial<")
			}
			inlineField.Value.tsType(mappings, scalars, structs, ts, &JSONInfo{OmitEmpty: true})
			if inlineField.Value.IsPtr {
				ts.app(">")
			}
""", """			isPtr := str.InlineFields[0].Value.IsPtr
			if isPtr {
				ts.app("Partial<")
			}
			inlineField.Value.tsType(mappings, scalars, structs, ts, &JSONInfo{OmitEmpty: true})
			if isPtr {
				ts.app(">")
			}
""")],
'''package zzdemo

type A struct{ Name string }

type B struct{ Count int }

type Item struct {
	A  `json:",inline"`
	*B `json:",inline"`
}

type Service struct{}

func (s *Service) Hello(i Item) string { return "" }
''', HTTP + '''
func TestDemo(t *testing.T) {
	ts := squeeze(t, "client/demo.ts")
	if !strings.Contains(ts, "Partial<github_com_foomo_gotsrpc_v2_zzdemo.B>") || strings.Contains(ts, "Partial<github_com_foomo_gotsrpc_v2_zzdemo.A>") {
		t.Fatal(ts)
	}
}
''')

seed("G08-debug-code", "G08",
 "a service for which the generated Go code is not valid",
 "The generator writes the broken code for debugging and goes on as if it had succeeded.",
 [("build.go", """				_, _ = fmt.Fprintln(os.Stderr, "wrote code for debugging into file", filename)

				os.Exit(5)
""", """				_, _ = fmt.Fprintln(os.Stderr, "wrote code for debugging into file", filename)

				return
""")],
'''package zzdemo

type Service struct{}

func (s *Service) Hello(string) string { return "" }
''', "", run='''timeout 60 "$t/gen" gotsrpc.yml >"$t/log" 2>&1
s=$?
cat "$t/log"
[ $s -ne 0 ]
''')

seed("G08-client-file", "G08",
 "a TypeScript service file that cannot be written",
 "The failure to write a TypeScript client is only reported if the file did not exist before.",
 [("build.go", """			updateErr := updateCode(target.Out, getTSHeaderComment()+ts)
			if updateErr != nil {
				_, _ = fmt.Fprintln(os.Stderr, "	could not write service file", target.Out, updateErr)
				os.Exit(3)
""", """			updateErr := updateCode(target.Out, getTSHeaderComment()+ts)
			if updateErr != nil {
				_, _ = fmt.Fprintln(os.Stderr, "	could not write service file", target.Out, updateErr)
				if _, statErr := os.Stat(target.Out); statErr == nil {
					updateErr = nil
				}
			}
			if updateErr != nil {
				os.Exit(3)
""")],
'''package zzdemo

type Service struct{}

func (s *Service) Hello(name string) string { return "" }
''', "", run='''mkdir -p client/service.ts
timeout 60 "$t/gen" gotsrpc.yml >"$t/log" 2>&1
s=$?
cat "$t/log"
[ $s -ne 0 ]
''')

seed("G09-latest", "G09",
 "a source file whose name ends with test.go without the underscore",
 "Files like latest.go are skipped as if they were test files, so their types or methods are missing.",
 [("gotsrpc.go", """	return !strings.HasSuffix(info.Name(), "_test.go")
""", """	return !strings.HasSuffix(info.Name(), "test.go")
""")],
'''package zzdemo

type Service struct{}

func (s *Service) Hello(name string) string { return "" }
''', HTTP + '''
func TestDemo(t *testing.T) {
	ts := squeeze(t, "client/service.ts")
	if !strings.Contains(ts, "async latest(") {
		t.Fatal(ts)
	}
}
''', more={"latest.go": "package zzdemo\n\nfunc (s *Service) Latest() int { return 1 }\n"})

seed("G09-vendor-name", "G09",
 "a GOPATH below a directory whose name contains vendor",
 "Any GOPATH whose path contains vendor is searched like a vendor directory, without its src directory.",
 [("gotsrpc.go", """			if strings.HasSuffix(goPath, "vendor") {
""", """			if strings.Contains(goPath, "vendor") {
""")],
'''package zzdemo

import "dep.org/dep"

type Service struct{}

func (s *Service) Hello(d dep.Rec) string { return "" }
''', "", yml=YML + '''  dep.org/dep:
    out: client/dep.ts
''', run='''mkdir -p "$t/my-vendors/go/src/dep.org/dep"
printf 'package dep\\n\\ntype Rec struct{ Name string }\\n' >"$t/my-vendors/go/src/dep.org/dep/dep.go"
GOPATH="$t/my-vendors/go" timeout 60 "$t/gen" gotsrpc.yml >"$t/log" 2>&1
s=$?
cat "$t/log"
[ $s -eq 0 ] && grep -q "interface Rec" client/dep.ts
''')

seed("G10-explicit-empty", "G10",
 "a configuration with an explicitly empty tsrpc list",
 "An explicitly empty list of TSRPC services is treated as if no service was listed and none passes.",
 [("config/config.go", """	if len(t.TSRPC) == 0 {
		return true
	}
""", """	if t.TSRPC == nil {
		return true
	}
""")],
'''package zzdemo

type Service struct{}

func (s *Service) Hello(name string) string { return "" }
''', HTTP + '''
func TestDemo(t *testing.T) {
	ts := squeeze(t, "client/service.ts")
	if !strings.Contains(ts, "async hello(") {
		t.Fatal(ts)
	}
}
''', yml=YML.replace("    tsrpc:\n      - Service\n", "    tsrpc: []\n"))

seed("G10-fold-names", "G10",
 "two services whose names differ only in case",
 "The GoRPC filter ignores the case of service names, so a service that is not listed passes.",
 [("config/config.go", """	for _, value := range t.GoRPC {
		if value == service {
""", """	for _, value := range t.GoRPC {
		if strings.EqualFold(value, service) {
"""), ("config/config.go", """	"path/filepath"
""", """	"path/filepath"
	"strings"
""")],
'''package zzdemo

type Service struct{}

func (s *Service) Hello(name string) string { return "" }

type SERVICE struct{}

func (s *SERVICE) Other(name string) string { return "" }
''', HTTP + '''
func TestDemo(t *testing.T) {
	if gen := squeeze(t, "gorpc_gen.go"); strings.Contains(gen, "SERVICE") {
		t.Fatal(gen)
	}
}
''', yml=YML.replace("/service/demo: Service", "/service/demo: Service\n      /service/other: SERVICE"))

seed("T04-lone-member", "T04",
 "a union type with a single member",
 "Union types with one member are not registered by the generated proxies.",
 [("build.go", """			if len(s.Fields) == 0 && len(s.UnionFields) > 0 {
""", """			if len(s.Fields) == 0 && len(s.UnionFields) > 1 {
""")],
'''package zzdemo

type (
	A struct {
		Kind string `json:"kind" gotsrpc:"type:'a'"`
	}
	B struct {
		Kind string `json:"kind" gotsrpc:"type:'b'"`
	}
	One struct {
		A *A `json:"a,omitempty" gotsrpc:"union"`
		B *B `json:"b,omitempty" gotsrpc:"union"`
	}
	Two struct {
		B *B `json:"b,omitempty" gotsrpc:"union"`
	}
	Box struct {
		One One `json:"one"`
		Two Two `json:"two"`
	}
)

type Service struct{}

func (s *Service) Hello(name string) *Box {
	return &Box{One: One{A: &A{Kind: name}}, Two: Two{B: &B{Kind: name}}}
}
''', HTTP + '''
func TestDemo(t *testing.T) {
	w := httptest.NewRecorder()
	r := httptest.NewRequest(http.MethodPost, "/service/demo/Hello", strings.NewReader(`["x"]`))
	NewDefaultServiceGoTSRPCProxy(&Service{}).ServeHTTP(w, r)
	if got := w.Body.String(); !strings.Contains(got, `"one":{"kind":"x"}`) || !strings.Contains(got, `"two":{"kind":"x"}`) {
		t.Fatal(got)
	}
}
''')

seed("G05-versioned-package", "G05",
 "parameters of both a package and its next major version",
 "The import alias of a package leaves out the version at the end of its path, so two packages share one alias.",
 [("go.go", """			uglyAlias := r.Replace(packageName)
""", """			uglyAlias := r.Replace(strings.TrimSuffix(packageName, "/v2"))
""")],
'''package zzdemo

import (
	"github.com/foomo/gotsrpc/v2/zzdemo/thing"
	next "github.com/foomo/gotsrpc/v2/zzdemo/thing/v2"
)

type Service struct{}

func (s *Service) Hello(a thing.Thing, b next.Thing) string { return a.Name + b.Title }
''', (HTTP + '''
func TestDemo(t *testing.T) {
	server := httptest.NewServer(NewDefaultServiceGoTSRPCProxy(&Service{}))
	defer server.Close()
	got, err := NewDefaultServiceGoTSRPCClient(server.URL).Hello(context.Background(), thing.Thing{Name: "a"}, next.Thing{Title: "b"})
	if err != nil || got != "ab" {
		t.Fatal(got, err)
	}
}
''').replace('"testing"', '"testing"\n\n\t"github.com/foomo/gotsrpc/v2/zzdemo/thing"\n\tnext "github.com/foomo/gotsrpc/v2/zzdemo/thing/v2"', 1), yml=YML + '''  github.com/foomo/gotsrpc/v2/zzdemo/thing:
    out: client/thing.ts
  github.com/foomo/gotsrpc/v2/zzdemo/thing/v2:
    out: client/thing2.ts
''', more={"thing/t.go": "package thing\n\ntype Thing struct{ Name string }\n", "thing/v2/t.go": "package thing\n\ntype Thing struct{ Title string }\n"}, compiles=False)

seed("G03-generated-source", "G03",
 "a service whose methods are declared in a file called *_gen.go",
 "Go files called *_gen.go are not read, so methods declared there are missing.",
 [("gotsrpc.go", """	return !strings.HasSuffix(info.Name(), "_test.go")
""", """	return !strings.HasSuffix(info.Name(), "_test.go") && !strings.HasSuffix(info.Name(), "_gen.go")
""")],
'''package zzdemo

type Service struct{}

func (s *Service) Hello(name string) string { return "hello " + name }
''', HTTP + '''
func TestDemo(t *testing.T) {
	server := httptest.NewServer(NewDefaultServiceGoTSRPCProxy(&Service{}))
	defer server.Close()
	res, err := http.Post(server.URL+"/service/demo/Bye", "application/json", strings.NewReader(`["x"]`))
	if err != nil || res.StatusCode != http.StatusOK {
		t.Fatal(res, err)
	}
}
''', more={"methods_gen.go": "package zzdemo\n\nfunc (s *Service) Bye(name string) string { return \"bye \" + name }\n"})

seed("G07-hidden-constants", "G07",
 "an exported type some of whose constants are not exported",
 "Only exported constants become members of the generated enum.",
 [("servicereader.go", """									if valType, ok := val.(*ast.BasicLit); ok {
""", """									if valType, ok := val.(*ast.BasicLit); ok && spec.Names[i].IsExported() {
""")],
'''package zzdemo

type Kind string

const (
	KindOpen   Kind = "open"
	kindClosed Kind = "closed"
)

type Service struct{}

func (s *Service) Hello(k Kind) Kind { return kindClosed }
''', HTTP + '''
func TestDemo(t *testing.T) {
	ts := squeeze(t, "client/demo.ts")
	if !strings.Contains(ts, `"open"`) || !strings.Contains(ts, `"closed"`) {
		t.Fatal(ts)
	}
}
''')

seed("G03-handler-method", "G03",
 "a service that has a method called ServeHTTP",
 "A method called ServeHTTP is taken for the service's own HTTP handler and not exposed.",
 [("servicereader.go", """							if !ok || !funcDecl.Name.IsExported() {
""", """							if !ok || !funcDecl.Name.IsExported() || funcDecl.Name.Name == "ServeHTTP" {
""")],
'''package zzdemo

type Service struct{}

func (s *Service) ServeHTTP(path string) string { return "served " + path }
''', HTTP + '''
func TestDemo(t *testing.T) {
	ts := squeeze(t, "client/service.ts")
	if !strings.Contains(ts, "serveHTTP(path:string)") {
		t.Fatal(ts)
	}
}
''')
