PE = "static analysis: partial evaluation of the generator's SSA on schematic services with place-holder names, then abstract interpretation of the type-checked emitted code, "
PEN = " Emitted code: the generator is specialised, never run, on schematic services covering every shape its templates distinguish (methods with and without arguments and results, named and unnamed, grouped, session methods, interface services, imported, renamed and colliding packages); place-holder names stand for all names."
AI = "static analysis: path-sensitive abstract interpretation of the SSA form (value-numbering domain, effect traces), "
CLAIMS = {
 "C01": (AI + "must-check rule over all paths of the client call", "Every abstract path of constructor, configuration and Call is enumerated; loops are summarised by one abstract iteration. Trusts the listed meaning of library calls (net/http, codec, io)."),
 "C02": (AI + "request-shape rule at every send site", "Every abstract path of constructor, configuration and Call up to the send; the URL, body, header and encoding terms are compared with the required ones. Trusts net/http header semantics."),
 "C03": (AI + "ownership/typestate rule for response bodies at every exit", "Every abstract path of Call after a response exists; a path must pass exactly one Close after the last read. "+PEN),
 "C04": (AI + "ownership analysis of every write, map update, in-place library effect and pooled object on the request path", "Every abstract path of the client call, argument loading, reply, error conversion/matching, codec extensions and instrumentation handlers; each write is classified by the root of the memory it targets (call-owned, shared, unknown). Trusts the listed library calls to be safe on shared values. "+PEN),
 "C05": (AI + "error-chain dataflow rule", "The unwrap chain of every returned error is followed through constructors whose meaning is listed (pkg/errors, fmt %w, the repository's own Unwrap methods, which are evaluated)."+PEN),
 "E01": (AI + "decision table over path summaries", "The function's outcomes are compared with a decision table over its atomic conditions; loops by one abstract iteration. Trusts reflect and pkg/errors semantics."),
 "E02": (AI + "decision table over path summaries", "Is, As, Unwrap, Error and their helpers are compared with decision tables over their atomic conditions."),
 "S02": (AI + "decode-before-success rule over argument loading", "All paths of LoadArgs."+PEN),
 "S03": (AI + "typestate of the recording response writer under its most general client", "The writer under a most general client (up to three status writes, body); statuses partitioned at every constant the code compares with, so all values 100..999 are covered."+PEN),
 "S04": (AI + "dataflow of statistics and metric observations under most general clients", "All paths of LoadArgs, Reply, the stats context functions and the Prometheus adapters driven by most general clients. Trusts context.WithValue/Value semantics."+PEN),
 "C06": (AI + "value flow of the HTTP client from constructor, setter and factory to the send; field values of the client the built-in factory returns", "Every abstract path of setter, constructors and Call; the factory that package initialisation installs is evaluated and the fields of the client it returns are compared. Trusts net/http to honour Timeout, TLSClientConfig and Proxy."),
 "T06": (AI + "identity of the codec configuration across exported functions and calls", "Every path of the exported functions; the handle is compared with those used at every encoder and decoder of client and server. Trusts codec handle semantics."),
 "S01": (PE + "dispatch table of ServeHTTP compared with the method sets of the type-checked service", "Every abstract path of every emitted handler, specialised per HTTP method and function name."+PEN),
 "S05": (PE + "composition of the emitted GoRPC client with the emitted proxy handler", "Every abstract path of client methods, handler, constructors and init functions; request and response are followed field by field through the gob value."+PEN),
 "S06": (PE + "exactly-once effect rule for the monitor call", "Every abstract path of every emitted handler."+PEN),
 "G01": (PE + "agreement rules between emitted proxy, Go client and TypeScript client", "Every method of every schematic service; the Go types are compared by the type checker, the TypeScript client by a parser."+PEN),
 "G02": ("static analysis: partial evaluation of the generator's SSA on schematic inputs under permuted map iteration, goroutine schedules, earlier outputs and working directories; taint rule for clock, randomness, environment and file metadata", "For every schematic input: each map iteration site reversed on its own, all sites reversed and rotated, stale outputs of other versions and unparsable debug outputs present, another working directory; the bytes written must be the same as in the reference run. Values of clock, randomness, host, user and file times are unknowns that must reach neither output nor a condition. Reversal of a site is a representative of all permutations: order dependence among three or more elements that a reversal and a rotation do not show is not excluded."+PEN),
 "G03": (PE + "exposure rules: the methods, parameters and results of proxy, clients and TypeScript client compared with the type-checked source of the service", "Every method, function and nested declaration of schematic packages that contain each way a function may look like a service method without being one (other receivers, value receivers, embedding, unexported and non ASCII names, lookalikes of net/http types, grouped parameters, several files and import aliases)."+PEN),
 "G04": (PE + "completeness rules over the type model Read returns; every input with an unresolvable reference must end in a reported failure", "Every named type reachable from a service in the schematic packages (fields, pointers, slices, maps, keys, nesting, anonymous structs, inline, unions, constants), and about 130 inputs in each of which one declaration or package is missing."+PEN),
 "G05": (PE + "round trip rule: the Go types of the emitted interface, clients and of the model compared with the type-checked source type", "Every parameter and result of every schematic method and every field of every type in the model; emitted code is type-checked against the schematic packages."+PEN),
 "G06": (PE + "parser for the emitted TypeScript; canonical types compared with the JSON encoding that go/types and the field tags of the schematic source determine", "Every type position (fields, parameters, results, response, named types) of every schematic package; the type matrix covers all scalar kinds, pointers, slices, maps, named and imported types, anonymous structs, bytes, time and tag overrides."+PEN),
 "G07": (PE + "declaration rules over the parsed TypeScript against the type-checked Go source (fields, optionality, inline, unions, constants, imports resolve, declared once)", "Every named type reachable from the services, every declaration and every reference in every emitted TypeScript file."+PEN),
 "G08": ("static analysis: partial evaluation of the generator's SSA with every library operation that can fail failing in turn (fault positions enumerated over the evaluated call graph); exit, print and file-effect rules", "For each schematic input every operation that can fail (reading, parsing, working directory, rendering, formatting, creating directories, writing) is made to fail alone, together with the next one and together with all later ones; each path must print the injected error and exit with a status other than 0, or end with exactly the files of the run without fault. Inputs no code can be generated for must be reported at every position of a run of three targets. Removing an old output is taken to succeed."+PEN),
 "G09": ("static analysis: partial evaluation of the exported reader's and builder's SSA over a table of module layouts in which every wrong directory holds a decoy package; the methods found tell which directory was read", "Module (root, below, repeated names, look-alikes, major versions, none), replace (relative, absolute, remote, versions), require (pseudo versions, escaping), both, vendor, GOPATH, GOROOT, test and broken files, output placement; each also with the right directory missing. Trusts the model of go/parser.ParseDir, the path boundaries are generalised from the table."+PEN),
 "G10": ("static analysis: partial evaluation of the loader's SSA over a table of configuration documents and file systems with every operation failing in turn; documents are decoded into types derived from the analysed declarations and tags; decision tables of the service filters", "Documents with every key, in several orders and notations, 15 module locations each with a right, missing and broken go.mod among wrong ones, 25 malformed or empty documents, every failing operation; filter tables over 19 lists. Trusts yaml.v2 and x/mod/modfile (the parsers are linked into the analyzer)."+PEN),
 "T01": (AI + "agreement rules between the encoder and decoder sites of client and server", "All paths of client and server handle selection; constants are folded per encoding. Trusts codec handle semantics."),
 "T02": (AI + "effect-order rule over the reply's response writer", "Every path of Reply; effects on the response writer are ordered and guarded by the success of encoding."),
 "T03": (AI + "codec configuration and extension rules", "Configuration terms of all four handles after package initialisation, decision tables of the time extension; which slots reach the extension is decided from static types at the codec sites."),
 "T04": (AI + "decision table of the union extension and registration rules; " + PE + "registration rule over the union types reachable from the services", "All paths of the extension and of registration; loops over members by one abstract iteration; every union type reachable from every schematic service against the emitted initialisation."+PEN),
 "T05": (AI + "slot-wise translation rule over per-element loop summaries", "Per-element summaries of the translation loops of Reply and Call for msgpack."),
}
NOT_APPLICABLE = {
 "X01": "Depends on the runtime behaviour of the third-party reflection codec for every value of every type; no static argument over this repository's source bounds it. The repository-side parts (handle configuration, extensions, slots) are claimed as T01, T03, T04, T05.",
 "X02": "Needs the TypeScript type checker over all generated programs; the set of accepted Go packages is unbounded and TypeScript name resolution across modules mapped by configuration is not decidable from the generator's source. Shape properties of the output are claimed as G01, G06, G07.",
 "X03": "A bound on wall-clock time until return depends on the network stack and scheduler; no static bound is in reach. The static part (the request carries the caller's context) is claimed under C02.",
}
