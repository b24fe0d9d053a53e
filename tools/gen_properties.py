#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","A client call succeeds only after a complete, decoded 200 response",
 "A client call returns nil only if its argument list (when not empty) was encoded, exactly one request was sent, the whole response body was read, the status was 200 and the body was decoded into the caller's reply slots with all error translation done. Failure of any of these steps is returned as a non-nil client error whose unwrap chain contains the error of that step, and nothing is sent after a failed step.",
 ["inputs","fault_sequences"],
 "every argument/reply list, every encoding, every response (status, headers, body) and every step at which an operation can fail",
 "The unit tests only build one request; no test drives the client through a failing encoder, transport, body read, non-200 status or undecodable body, and they cannot enumerate the fault positions.",
 ["client.go","clienterror.go","transport.go"],
 [("buffered client call","client.go bufferedClient.Call"),("client error wrapper","clienterror.go")],
 ["return value of Client.Call and errors.As/Unwrap on it"])
p("C02","Every request a client sends has the agreed wire shape",
 "Every call is sent as a POST under the caller's context to base URL + endpoint + '/' + method, its body is the argument list encoded in order with the encoding currently selected for the client (an empty body if there are no arguments), Content-Type and Accept both name exactly that encoding, and the service-to-service header is 'true'. Configured default headers are sent too but never replace those three; a client built without an HTTP client uses the default factory, one built with an HTTP client uses that one.",
 ["inputs","configurations"],
 "every URL, endpoint, method, argument list, default-header map, encoding selection and HTTP client",
 "One unit test checks three header values of one request with nil headers; it never looks at the URL, the body, the selected encoding or conflicting default headers.",
 ["client.go","transport.go","http.go"],
 [("request construction","client.go newRequest, bufferedClient.Call"),("encoding selection","transport.go getHandleForEncoding")],
 ["the http.Request handed to the HTTP client"])
p("C03","HTTP bodies are always released",
 "Once the HTTP client has returned a response, its body is closed on every path out of the call, whatever fails afterwards and never before it was read. Every generated HTTP proxy drains the request body on every path of a POST request.",
 ["inputs","fault_sequences","programs"],
 "every exit path of a client call after a response was obtained, and every service for which a proxy is generated",
 "A leaked body has no effect a sampled functional test observes; it exhausts connections only under load, and the paths are the error paths tests do not reach.",
 ["client.go","go.go"],
 [("deferred close","client.go bufferedClient.Call"),("deferred drain","go.go proxy template ServeHTTP")],
 ["http.Response.Body.Close, reads of http.Request.Body"])
p("C04","Concurrent calls share no mutable state",
 "Performing or serving a call (client call, argument loading, reply, error conversion and matching, codec extensions, generated proxies and clients) writes only memory owned by that call: never package-level variables, the shared codec configuration, the client object, the client's default header map, or the proxy. The values a service returned are not modified either: what the monitor sees after the reply is what the service returned, in every encoding.",
 ["schedules","inputs"],
 "every interleaving of concurrent calls on shared clients, proxies and codec handles",
 "A data race needs concurrent calls on the same client and a particular interleaving; the tests issue calls one at a time and do not run under the race detector.",
 ["client.go","transport.go","gotsrpc.go","error.go","timeext.go","unionext.go","go.go"],
 [("header clone","client.go Call (Header.Clone)"),("hooks work on copies","transport.go, gotsrpc.go Reply")],
 ["writes reachable from the request path"])
p("C05","Failures keep their identity up to the application",
 "A non-200 response surfaces as an HTTP error that carries exactly that status code and the response body text, both as fields and in its message, and is reachable by unwrapping the client error. A client error unwraps to the error it was made from, and the generated Go clients add a message to a failed call without losing that chain and return nil exactly when the call succeeded.",
 ["inputs","programs","fault_sequences"],
 "every status code and body, every wrapped error, every generated client method",
 "No test inspects an error returned by a client; the generated-code tests compare text for the example services only.",
 ["client.go","clienterror.go","httperror.go","go.go"],
 [("HTTP error","httperror.go"),("client error unwrap","clienterror.go"),("error annotation","go.go client template")],
 ["errors.As / errors.Unwrap on returned errors, HTTPError.StatusCode and Body"])
p("C06","Clients use the given HTTP client or a bounded one from the factory",
 "A client sends through the HTTP client it was given or that was set last; without one, or given nil, through one obtained from the factory that is installed when the client is made. Installing a factory affects every client made afterwards. The built-in factory yields an HTTP client with a positive overall timeout, so that no call waits forever on a silent server, that verifies server certificates and honours the proxy of the environment.",
 ["histories","configurations"],
 "every order of installing factories, constructing clients and setting transports; every request of a default client",
 "The one test replaces the factory by a function that returns nil; the built-in client, what it does with a silent or untrusted server, and the order of factory and constructor are never exercised.",
 ["http.go","client.go"],
 [("client factory","http.go defaultHttpFactory, SetDefaultHttpClientFactory"),("constructors","client.go NewClient, NewClientWithHttpClient, SetTransportHttpClient")],
 ["the HTTP client whose Do is called, its Timeout and Transport"])
p("T01","Both sides agree on the encoding of every message",
 "The content type announced for an encoding selects that same encoding on the receiving side, for requests and for replies; the server decodes the arguments and encodes the reply with the encoding named by the request's content type and announces that encoding in the reply, and the client decodes with the encoding the reply announces. Any unknown or missing content type and any unknown encoding selection means JSON, and MsgPack is the default of a new client.",
 ["inputs","configurations"],
 "every content-type string and every encoding value on either side",
 "Tests exercise the JSON argument path of one helper and never a MsgPack exchange or an unknown content type; the tables are only wrong for specific strings.",
 ["transport.go","client.go","gotsrpc.go"],
 [("encoding tables","transport.go getHandleForEncoding, getHandlerForContentType"),("server side","gotsrpc.go LoadArgs, Reply")],
 ["Content-Type / Accept headers and the codec handle used with them"])
p("T02","A reply is written completely or not at all",
 "The server side writes a reply body only after all return values were encoded successfully, in one write of the complete encoding, after the headers naming its encoding and its exact length were set; if translating or encoding fails, nothing was written and the error is returned. Response statistics are recorded only for a reply that was written.",
 ["inputs","fault_sequences"],
 "every list of return values, every encoder or writer failure",
 "No test calls the reply path at all; a failing encoder is needed to see a partial reply.",
 ["gotsrpc.go"],
 [("buffered reply","gotsrpc.go Reply")],
 ["calls on http.ResponseWriter made by the reply function"])
p("T03","Times travel as Unix milliseconds in JSON, in both directions",
 "In JSON every time value is encoded as its number of milliseconds since the Unix epoch and decoded back to the same instant with millisecond precision. The JSON codec uses this extension instead of its builtin time format, encodes map keys as strings, and the MsgPack codec decodes generic maps with string keys and raw bytes as strings.",
 ["inputs","configurations"],
 "every time value, including pre-epoch and sub-second ones",
 "The time example only type-checks the generated code; no test encodes or decodes a time through the codec.",
 ["timeext.go","transport.go"],
 [("time extension","timeext.go"),("handle configuration","transport.go init")],
 ["values exchanged with the codec by the time extension"])
p("T04","A union value is encoded as its one set member",
 "A registered union type is encoded in JSON as the value of its first set member, or null when none is set, whether it is passed by value or by pointer; registering reports the first failure and the panicking variant panics on it. Generated proxies register every union type their methods exchange when the program starts. Decoding a union restores the member it was encoded from.",
 ["inputs","programs"],
 "every registered union type and every combination of set members",
 "The union example checks generated TypeScript text; the codec extension itself is never run by a test.",
 ["unionext.go","go.go","build.go"],
 [("union extension","unionext.go ConvertExt, UpdateExt"),("registration","unionext.go RegisterUnionExt; go.go renderInit")],
 ["values exchanged with the codec by the union extension"])
p("T05","Error values cross the wire in their own slot",
 "In MsgPack every non-zero error among the return values is sent in its transportable form (message, package, type, data and cause under distinct names) at its own position and every other value unchanged; the receiving side decodes a transportable error exactly in the slots whose type is an error, leaves all other slots to the caller's variables, and afterwards stores it in the caller's variable of the same position: as an error interface or decoded into the caller's own error type. A nil error stays nil, and a failed conversion is reported.",
 ["inputs"],
 "every number, order and type of return values, nil or not",
 "No test sends an error through the MsgPack hooks; the index and nil cases are combinatorial in the reply list.",
 ["transport.go"],
 [("before-encode / before-decode / after-decode hooks","transport.go msgpackClientHandle")],
 ["lists handed to and received from the encoder and decoder"])
p("T06","Registered extensions and raw bytes use the codec of the calls",
 "An extension registered for a type through the exported functions takes effect on the very codec configuration that client and server use for that encoding, for the type, tag and extension given, and a failed registration is reported. The exported byte encoder and decoder for MsgPack work on the given bytes with the configuration the calls use, so bytes written by one side of an application are readable through the other.",
 ["inputs","histories"],
 "every type, tag and extension; every byte slice",
 "No test registers an extension or encodes bytes; whether the configuration is the shared one or a copy shows only in a later call.",
 ["transport.go"],
 [("extension registration","transport.go SetJSONExt, SetMSGPackExt"),("byte encoders","transport.go NewMSGPackEncoderBytes, NewMSGPackDecoderBytes")],
 ["codec handles registered on and used by encoders and decoders"])
p("E01","Converting an error keeps its text, type, package, data and causes",
 "Converting an error to the transportable form keeps its message, its dynamic type name, the package path of that type and the error itself as data, recursively for everything it unwraps to, and drops a cause's text from the outer message only if it is there as the suffix ': cause'. An already transportable error is returned unchanged; a stack-trace wrapper is replaced by what it wraps, any other wrapper is kept.",
 ["inputs"],
 "every error value and every depth and kind of wrapping",
 "No root-package test converts an error; the errors example covers a handful of fixed errors.",
 ["error.go"],
 [("conversion","error.go NewError")],
 ["exported fields of Error and its Error() text"])
p("E02","Transported errors still match the errors they came from",
 "A transported error matches a target under errors.Is exactly if type name, package path and text (its own, or including its causes) agree, and under errors.As exactly if type name and package path of the target agree and its data decodes into it; nil on either side never matches. It unwraps to its cause and to nothing if it has none, and its text is its message followed by ': ' and the cause's text if it has a cause.",
 ["inputs"],
 "every pair of transported error and target",
 "Examples check a few fixed sentinels; wrong matches need same-named types from different packages, wrapped sentinels or nil receivers.",
 ["error.go"],
 [("Is, As, Unwrap, Cause, Error","error.go")],
 ["results of errors.Is, errors.As, errors.Unwrap and Error()"])
p("S01","Generated HTTP proxies dispatch each POST to exactly the named method",
 "For every service the generated proxy answers OPTIONS without calling the service, rejects every other non-POST request with 405 before reading arguments, calls exactly the method named by the path after the endpoint, and answers an unknown name with 404, without stats and without calling the service. Proxy methods are exactly the service's exposed methods, and every exposed method is reachable under its own name.",
 ["programs","inputs"],
 "every service the generator accepts and every HTTP request",
 "Byte comparison of generated code for a few example services says nothing about services with other method, argument or return shapes.",
 ["go.go","gotsrpc.go"],
 [("ServeHTTP template","go.go renderTSRPCServiceProxies"),("function name extraction and error replies","gotsrpc.go")],
 ["generated ServeHTTP; status codes written by the error helpers"])
p("S02","A method is called only with completely loaded arguments",
 "A generated proxy calls a method only after the request's argument list was decoded without an error, its n-th element into the variable passed as the n-th argument, answers 400 and calls nothing if decoding failed, and answers 500 if the reply could not be sent. Argument loading reports every decoding failure and records request statistics only on success.",
 ["programs","inputs","fault_sequences"],
 "every method signature and every request body",
 "Examples contain a few fixed signatures and no test sends undecodable arguments to a generated proxy.",
 ["go.go","gotsrpc.go"],
 [("argument loading","gotsrpc.go LoadArgs"),("proxy template","go.go renderTSRPCServiceProxies")],
 ["generated ServeHTTP, LoadArgs"])
p("S03","Session methods get the response writer and reply only on status 200",
 "A method whose first two parameters are the HTTP response writer and request receives exactly those, and its return values are sent as a reply only if it left the response at status 200; other methods always reply. The recorded status is the first final status the method wrote, 200 if it wrote none, and every status is passed on to the underlying writer.",
 ["programs","histories"],
 "every method signature and every sequence of status writes by the method",
 "No test runs a session method that redirects or fails; repeated status writes are never exercised.",
 ["go.go","responsewriter.go"],
 [("status recording writer","responsewriter.go"),("session handling in the proxy template","go.go")],
 ["generated ServeHTTP, ResponseWriter.Status"])
p("S04","Call statistics describe the call that was made",
 "Statistics attached to a request are the ones handed to the stats handler after the handler chain returned, exactly once, and not at all once they were cleared; each statistic (package, service, function, execution, marshalling, unmarshalling, sizes, error code/type/message of the last return value) comes from the corresponding quantity of that call, independent of the encoding. The Prometheus adapters observe each statistic under its own label and in the unit the metric announces.",
 ["inputs","histories"],
 "every call outcome, encoding and middleware chain",
 "One test checks that a handler is called once for a stub; no test checks the values, the cleared case or the metrics.",
 ["gotsrpc.go","instrumentation.go","prometheus/prometheus.go","go.go","stats.go"],
 [("stats context","gotsrpc.go RequestWithStatsContext, GetStatsForRequest, ClearStats"),("recording","gotsrpc.go LoadArgs, Reply; go.go template"),("export","prometheus/prometheus.go")],
 ["CallStats passed to the stats handler, metric observations"])
p("S05","GoRPC proxies and clients agree on every message",
 "For every service the generated GoRPC client sends the request type the generated proxy dispatches on for the same method, with every argument in the field the proxy passes at that argument's position, and reads every return value from the field the proxy stored it in; transport failures are returned as the client error. Every request and response type is registered for encoding, and call statistics carry the service's names.",
 ["programs","inputs"],
 "every service the generator accepts, every call",
 "The GoRPC templates are compared for one example service; agreement between the two templates for other signatures is never checked.",
 ["go.go"],
 [("GoRPC templates","go.go renderGoRPCServiceProxies, renderGoRPCServiceClients")],
 ["generated GoRPC proxy and client"])
p("S06","Every completed call is reported to the monitor exactly once",
 "The monitor is called exactly once for each method call whose reply was sent or left to a session method, after the reply, with the request, the decoded arguments, the call's statistics and, if they were sent as a reply, the method's return values in order. It is never called for a request that did not reach a method or whose reply failed.",
 ["programs","inputs"],
 "every service the generator accepts and every request outcome",
 "The monitor example checks one method; missing or duplicate reports on other paths go unnoticed.",
 ["go.go","monitor.go"],
 [("proxy template","go.go renderTSRPCServiceProxies"),("monitor variable","monitor.go")],
 ["calls of Monitor in generated code"])
p("G01","Go server, Go client and TypeScript client agree on every method",
 "For every service, the generated proxy, Go client and TypeScript client use the same method names, endpoint and argument positions, with HTTP-related parameters left out in all of them, and map the n-th return value to the n-th result. Argument and result types in the generated Go code are the types of the service method.",
 ["programs"],
 "every service and method signature the generator accepts",
 "The example services fix a few signatures; agreement must hold for every combination of argument count, naming, session parameters and return count.",
 ["go.go","typscriptclient.go"],
 [("three templates over one service model","go.go, typscriptclient.go")],
 ["generated Go proxy, Go client and TypeScript client"])
p("G02","Generation is deterministic",
 "The generated files depend only on the configuration and the source code read: not on map iteration order, the clock, randomness, scheduling or previously generated output. Two runs over the same input produce the same bytes.",
 ["programs","schedules"],
 "every input program and configuration, every map iteration order",
 "A test run samples one iteration order; small example maps often come out in the same order.",
 ["build.go","go.go","servicereader.go","typereader.go","typescript.go","gotsrpc.go"],
 [("sorted iteration","build.go, servicereader.go, typescript.go"),("import formatting","build.go formatAndWrite")],
 ["bytes written to the configured outputs"])
p("G03","Exactly the exported methods of a configured service are exposed",
 "A configured service exposes every exported method declared on its pointer type, or declared in its interface, with all parameters and results in declaration order under their declared names, and no unexported method or method of another type. The HTTP response writer is recognised as a special parameter only at the first and the request pointer only at the second position, by their type and package.",
 ["programs"],
 "every Go package containing configured services",
 "Examples contain a few services whose methods are all exposed; no test has an unexported interface method or an HTTP type at an unusual position.",
 ["servicereader.go","go.go"],
 [("service reader","servicereader.go readServiceFile, readFields"),("HTTP parameter filter","go.go")],
 ["service model used by all templates"])
p("G04","Every reachable type is resolved or the run fails",
 "Every named type reachable from a service's arguments and results (through pointers, slices, map keys and values, struct, inline, union and anonymous struct fields) or listed in the configuration is collected exactly once from the package that declares it, or the generator reports the unresolved types and fails. A configured constant type that cannot be found also fails the run.",
 ["programs","configurations"],
 "every type graph, including recursive ones",
 "Examples contain shallow type graphs that always resolve; a missed edge only shows up for a type reachable through exactly that edge.",
 ["servicereader.go","typereader.go"],
 [("worklist closure","servicereader.go collectTypes, DepsSatisfied, needsWorkValue"),("type reader","typereader.go")],
 ["struct and scalar tables used for rendering"])
p("G05","Source types are read and rendered back as the same Go type",
 "For every supported type expression the generator's model records the type's kind, element, key, pointer-ness, name and import path as written in the source, and the Go type rendered from the model denotes the same type, qualified with the import alias of its package exactly if it comes from another package. Every package that a rendered type mentions is imported under the alias used for it.",
 ["programs"],
 "every supported Go type expression, nested to any depth, and every import alias",
 "Examples use a small set of type shapes and unaliased imports; the recursion must be right for every nesting.",
 ["typereader.go","go.go","servicereader.go"],
 [("expression reader","typereader.go loadExpr and helpers"),("renderer","go.go goType, extractImports")],
 ["generated Go signatures"])
p("G06","Go types map to the TypeScript types of their encoding",
 "Every Go type is rendered as the TypeScript type of its JSON encoding: strings as string, booleans as boolean, all numbers as number, byte slices as string, times as number, slices as Array, maps as Record of key and value, named types through the module mapped for their package and anonymous structs inline, with '|null' exactly for pointers, slices and maps that are not omitted when empty. An explicit type override in the field tag wins over everything.",
 ["programs"],
 "every Go type expression, nested to any depth, under every tag combination",
 "Examples sample the mapping; it is a decision table over the type model whose untested combinations nothing checks.",
 ["typescript.go","typereader.go"],
 [("type mapping","typescript.go tsType, tsTypeFromScalarType"),("scalar classification","typereader.go getScalarFromAstIdent")],
 ["generated TypeScript types"])
p("G07","TypeScript declarations follow the JSON field tags and constants",
 "Each struct becomes one TypeScript declaration in the module of its package, with exactly the exported, non-ignored fields, named by their JSON tag if it has one, optional exactly if omitempty, inline fields as extended interfaces (Partial for pointers), and union-only structs as the union of their members. Each constant type becomes an enum with every literal constant of the type, and a struct or constant of a package without mapping is an error.",
 ["programs","configurations"],
 "every struct, tag string and constant declaration",
 "Examples use a few tags in one spelling; tag parsing and the declaration forms must hold for every combination.",
 ["typescript.go","typereader.go","servicereader.go"],
 [("tag parser","typereader.go extractJSONInfo, readFieldList"),("declaration renderer","typescript.go"),("constants","servicereader.go loadConstantTypes")],
 ["generated TypeScript modules"])
p("G08","A failed generation is reported and never passes silently",
 "Whenever reading the configuration, resolving types, rendering, formatting or writing an output fails, the generator prints the reason and exits with a non-zero status; it exits with zero only if every configured output, and no other, was produced and written. It writes and removes only the generated Go files of a target's package and the configured TypeScript outputs.",
 ["fault_sequences","configurations"],
 "every failing step at every position of a run",
 "Tests run the generator on valid examples only; failing writes and renders at particular positions are never produced.",
 ["build.go","cmd/gotsrpc/gotsrpc.go","servicereader.go","typescript.go","config/config.go"],
 [("error exits","build.go Build, cmd/gotsrpc main"),("error propagation","all readers and renderers")],
 ["process exit status, files written or removed"])
p("G09","Packages are resolved to the module that contains them",
 "A package path is resolved to the configured module's directory exactly if it is that module's path or lies below it at a path boundary, otherwise by the replace and then the require directive of the most specific module containing it, and only otherwise through GOPATH, GOROOT or vendor; remote modules are looked up in the module cache with its escaping of capital letters. A target's generated files are placed in the configured module's directory by the same rule, otherwise below GOPATH. Test files are never read, and a package that cannot be parsed or found is an error.",
 ["configurations","programs"],
 "every module path, package path and set of replace/require directives",
 "Tests resolve packages of one module; sibling modules sharing a prefix, nested modules and replacements are not sampled.",
 ["gotsrpc.go","build.go"],
 [("directory resolution","gotsrpc.go parseDir, parsePackage"),("output location","build.go getPathForTarget")],
 ["directories parsed and written"])
p("G10","A configuration is loaded exactly as written or rejected",
 "Loading a configuration returns either an error or a configuration whose targets and mappings are those in the file, each mapping knowing its Go package and a relative module path made absolute relative to the file, with the module's go.mod loaded from there if it exists; unreadable files, malformed YAML, empty entries and a broken go.mod are errors, never a panic. A service passes the GoRPC filter exactly if listed and the TSRPC filter exactly if listed or nothing is listed.",
 ["inputs","configurations"],
 "every configuration file and file-system state",
 "The tests load two valid snippets and never a file, a module path or malformed entries.",
 ["config/config.go","build.go","cmd/gotsrpc/gotsrpc.go"],
 [("loader","config/config.go LoadConfigFile, loadConfig"),("service filters","config/config.go IsGoRPC, IsTSRPC")],
 ["return values of the loader and the filters"])
# not applicable to this technique
p("X01","Values survive a full encode/decode round trip",
 "For every argument and return type the generator accepts, the value decoded on the other side equals the value that was sent, in both encodings.",
 ["inputs","programs"],"every value of every supported type",
 "Tests send a handful of values; equality is quantified over all values and types.",
 ["transport.go","timeext.go"],[("third-party codec","github.com/ugorji/go/codec")],["decoded values"])
p("X02","Generated TypeScript compiles for every accepted service",
 "For every package and configuration the generator accepts without error, the generated TypeScript type-checks together with its imports.",
 ["programs","configurations"],"every accepted package",
 "Tests run the TypeScript compiler on the examples' output only.",
 ["typescript.go","typscriptclient.go","build.go"],[("TypeScript templates","typescript.go, typscriptclient.go")],["tsc on the output"])
p("X03","A call ends promptly when its context or timeout ends",
 "A client call returns within a bounded time after its context is cancelled or the HTTP client's timeout has passed, and a stopped GoRPC proxy answers no further calls.",
 ["schedules","histories"],"every point of cancellation",
 "Timing and scheduling of the network stack cannot be sampled exhaustively.",
 ["client.go","http.go","go.go"],[("context propagation","client.go"),("GoRPC server","go.go templates")],["time of return"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
