ALL=[]
GO="go.go"; SR="servicereader.go"; TR="typereader.go"; TC="typscriptclient.go"
LOAD='''					g.l("args = []interface{}{" + strings.Join(args, ", ") + "}")
					g.l("if err := gotsrpc.LoadArgs(&args, callStats, r); err != nil {")
					g.ind(1)
					g.l("gotsrpc.ErrorCouldNotLoadArgs(w)")
					g.l("return")
					g.ind(-1)
					g.l("}")
'''
MUTANTS=[
 # --- behaviour preserving
 ("r-p-early",[(GO,'''	        if r.Method == http.MethodOptions {
				return
			} else if r.Method != http.MethodPost {
		        gotsrpc.ErrorMethodNotAllowed(w)
		        return
	        }
''','''	        if r.Method != http.MethodPost {
				if r.Method != http.MethodOptions {
					gotsrpc.ErrorMethodNotAllowed(w)
				}
				return
			}
''')],[]),
 ("r-p-switch",[(GO,'''	        if r.Method == http.MethodOptions {
				return
			} else if r.Method != http.MethodPost {
		        gotsrpc.ErrorMethodNotAllowed(w)
		        return
	        }
''','''	        switch r.Method {
			case http.MethodOptions:
				return
			case http.MethodPost:
			default:
		        gotsrpc.ErrorMethodNotAllowed(w)
		        return
	        }
''')],[]),
 ("r-p-drainfunc",[(GO,'''			defer io.Copy(io.Discard, r.Body) // Drain Request Body ''','''			defer func() {
				_, _ = io.Copy(io.Discard, r.Body)
			}()''')],[]),
 ("r-p-loaddirect",[(GO,LOAD,'''					g.l("if err := gotsrpc.LoadArgs(&[]interface{}{" + strings.Join(args, ", ") + "}, callStats, r); err != nil {")
					g.l("gotsrpc.ErrorCouldNotLoadArgs(w)")
					g.l("return")
					g.l("}")
					g.l("args = []interface{}{" + strings.Join(args, ", ") + "}")
''')],[]),
 ("r-p-argnames",[(GO,'argName := "arg_" + arg.Name','argName := fmt.Sprintf("arg%d_%s", skipArgI, arg.Name)')],[]),
 ("r-p-stats",[(GO,'''		g.l("callStats.Func = funcName")
		g.l("callStats.Package = \\"" + fullPackageName + "\\"")
		g.l("callStats.Service = \\"" + service.Name + "\\"")
''','''		g.l(fmt.Sprintf("callStats.Service, callStats.Package, callStats.Func = %q, %q, funcName", service.Name, fullPackageName))
''')],[]),
 ("r-p-execsub",[(GO,'callStats.Execution = time.Since(executionStart)','callStats.Execution = time.Now().Sub(executionStart)')],[]),
 ("r-p-sprintf",[(GO,'''			g.l("case " + proxyName + method.Name + ":")''','''			g.l(fmt.Sprintf("case %s%s:", proxyName, method.Name))''')],[]),
 ("r-p-inlineconst",[(GO,'''			g.l("case " + proxyName + method.Name + ":")''','''			g.l("case \\"" + method.Name + "\\":")''')],[]),
 ("r-p-helper",[(GO,'''			g.app("p.service." + method.Name + "(" + strings.Join(callArgs, ", ") + ")")
			g.nl()''','''			renderCall(g, method.Name, callArgs)'''),(GO,'''type goMethod struct {''','''func renderCall(g *code, name string, args []string) {
	g.app("p.service." + name + "(")
	for i, a := range args {
		if i > 0 {
			g.app(", ")
		}
		g.app(a)
	}
	g.app(")")
	g.nl()
}

type goMethod struct {''')],[]),
 ("r-p-session-guard",[(GO,'''				g.l("if rw.Status() == http.StatusOK {").ind(1)''','''				g.l("if status := rw.Status(); status == 200 {").ind(1)''')],[]),
 ("r-p-ifchain",[(GO,'''		g.l(`switch funcName {`)

		// indenting''','''		g.l(`switch name := funcName; name {`)

		// indenting''')],[]),
 ("r-c-return",[(GO,'''			g.l(`clientErr = tsc.Client.Call(ctx, tsc.URL, tsc.EndPoint, "` + method.Name + `", args, reply)`)
			g.l(`if clientErr != nil {`)
			g.ind(1).l(`clientErr = pkg_errors.WithMessage(clientErr, "failed''','''			g.l(`if clientErr = tsc.Client.Call(ctx, tsc.URL, tsc.EndPoint, "` + method.Name + `", args, reply); clientErr != nil {`)
			g.ind(1).l(`clientErr = pkg_errors.WithMessage(clientErr, "failed''')],[]),
 ("r-c-wrap",[(GO,'''pkg_errors.WithMessage(clientErr, "failed''','''pkg_errors.Wrap(clientErr, "failed''')],[]),
 ("r-c-uncond",[(GO,'''			g.l(`if clientErr != nil {`)
			g.ind(1).l(`clientErr = pkg_errors.WithMessage(clientErr, "failed to call ` + packageName + `.` + service.Name + `GoTSRPCProxy ` + method.Name + `")`).ind(-1)
			g.l(`}`)
''','''			g.ind(1).l(`clientErr = pkg_errors.WithMessage(clientErr, "failed to call ` + packageName + `.` + service.Name + `GoTSRPCProxy ` + method.Name + `")`).ind(-1)
''')],[]),
 ("r-c-ctor",[(GO,'''			return New` + interfaceName + `WithClient(url, endpoint, nil) ''','''			return &` + clientName + `{URL: url, EndPoint: endpoint, Client: gotsrpc.NewClient()}''')],[]),
 ("r-g-tls",[(GO,'''        	if tlsConfig != nil {
        		proxy.server = gorpc.NewTLSServer(addr, proxy.handler, tlsConfig)
        	} else {
        		proxy.server = gorpc.NewTCPServer(addr, proxy.handler)
        	}
''','''        	if tlsConfig == nil {
        		proxy.server = gorpc.NewTCPServer(addr, proxy.handler)
        	} else {
        		proxy.server = gorpc.NewTLSServer(addr, proxy.handler, tlsConfig)
        	}
''')],[]),
 ("r-g-typeswitch",[(GO,'''			g.l(`return nil`)
			}
			g.l(`}`)''','''			g.l(`return`)
			}
			g.l(`}`)''')],[]),
 ("r-g-lastindex",[(GO,'''		g.l(`funcNameParts := strings.Split(reqType, ".")`)
		g.l(`funcName := funcNameParts[len(funcNameParts)-1]`)''','''		g.l(`funcName := reqType[strings.LastIndex(reqType, ".")+1:]`)''')],[]),
 ("r-g-named",[(GO,'''			g.l(`response = ` + ucfirst(service.Name+method.Name) + `Response{` + strings.Join(retParams, ", ") + `}`)''','''			g.l(`res := ` + ucfirst(service.Name+method.Name) + `Response{` + strings.Join(retParams, ", ") + `}`)
			g.l(`response = res`)''')],[]),
 ("r-filter",[(GO,'''	for argI, arg := range m.Args {
		if argI == 0 && arg.Value.isHTTPResponseWriter() {
			continue
		}
		if argI == 1 && arg.Value.isHTTPRequest() {
			continue
		}
		filteredArgs = append(filteredArgs, arg)
	}
	return''','''	for i := range m.Args {
		v := m.Args[i].Value
		if (i == 0 && v.isHTTPResponseWriter()) || (i == 1 && v.isHTTPRequest()) {
			continue
		}
		filteredArgs = append(filteredArgs, m.Args[i])
	}
	return filteredArgs''')],[]),
 # --- S01
 ("p-noreturn405",[(GO,'''		        gotsrpc.ErrorMethodNotAllowed(w)
		        return
	        }
''','''		        gotsrpc.ErrorMethodNotAllowed(w)
	        }
''')],["S01"]),
 ("p-options405",[(GO,'''if r.Method == http.MethodOptions {
				return
			} else if r.Method != http.MethodPost''','''if r.Method != http.MethodPost''')],["S01"]),
 ("p-getallowed",[(GO,'''r.Method != http.MethodPost {''','''r.Method != http.MethodPost && r.Method != http.MethodPut {''')],["S01"]),
 ("p-defaultmissing",[(GO,'''		g.ind(1).l("gotsrpc.ErrorFuncNotFound(w)")''','''		g.ind(1)''')],["S01"]),
 ("p-noclear",[(GO,'''		g.ind(1).l("gotsrpc.ClearStats(r)")
''','''		g.ind(1)
''')],["S01"]),
 ("p-skiplast",[(GO,'''		for _, method := range service.Methods {
			// a case for each method''','''		for i, method := range service.Methods {
			if i > 3 && len(method.Return) == 0 {
				continue
			}
			// a case for each method''')],["S01"]),
 ("p-constlower",[(GO,'''g.l(proxyName + method.Name + " = \\"" + method.Name + "\\"")''','''g.l(proxyName + method.Name + " = \\"" + lcfirst(method.Name) + "\\"")''')],["S01"]),
 ("p-endpointconst",[(GO,'''gotsrpc.GetCalledFunc(r, p.EndPoint)''','''gotsrpc.GetCalledFunc(r, \\"" + service.Endpoint + "\\")'''),],["G01"]),
 # --- S02
 ("p-noreturn400",[(GO,'''					g.l("gotsrpc.ErrorCouldNotLoadArgs(w)")
					g.l("return")
''','''					g.l("gotsrpc.ErrorCouldNotLoadArgs(w)")
''')],["S02"]),
 ("p-noreturn500",[(GO,'''			g.l("gotsrpc.ErrorCouldNotReply(w)")
			g.l("return")
''','''			g.l("gotsrpc.ErrorCouldNotReply(w)")
''')],["S02","S06"]),
 ("p-argswap",[(GO,'''					args = append(args, "&"+argName)''','''					args = append([]string{"&" + argName}, args...)''')],["S02"]),
 ("p-400for500",[(GO,'g.l("gotsrpc.ErrorCouldNotReply(w)")','g.l("gotsrpc.ErrorCouldNotLoadArgs(w)")')],["S02"]),
 ("p-copyargs",[(GO,'''					args = append(args, "&"+argName)''','''					args = append(args, argName)''')],["S02"]),
 # --- S03
 ("p-rw-w",[(GO,'''callArgs = append([]string{"&rw", "r"}, callArgs...)''','''callArgs = append([]string{"w", "r"}, callArgs...)''')],["S03"]),
 ("p-status-not",[(GO,'''if rw.Status() == http.StatusOK {''','''if rw.Status() < http.StatusBadRequest {''')],["S03"]),
 ("p-session3",[(GO,'isSessionRequest = len(method.Args)-len(nonHTTPRelatedArgs) == 2','isSessionRequest = len(method.Args) >= 2 && len(nonHTTPRelatedArgs) == 0')],["S03","S01","S02"]),
 # --- S04
 ("p-statssvc",[(GO,'''callStats.Service = \\"" + service.Name + "\\""''','''callStats.Service = \\"" + packageName + "\\""''')],["S04"]),
 ("p-statspkg",[(GO,'''callStats.Package = \\"" + fullPackageName''','''callStats.Package = \\"" + packageName''')],["S04"]),
 ("p-execbefore",[(GO,'''			g.l("executionStart := time.Now()")
''',''''''),(GO,'''		g.l("funcName := gotsrpc.GetCalledFunc''','''		g.l("executionStart := time.Now()")
		g.l("funcName := gotsrpc.GetCalledFunc''')],["S04"]),
 ("p-execafter",[(GO,'''			g.l("callStats.Execution = time.Since(executionStart)")
''',''),(GO,'''			g.l("gotsrpc.Monitor(w''','''			g.l("callStats.Execution = time.Since(executionStart)")
			g.l("gotsrpc.Monitor(w''')],["S04"]),
 # --- S05
 ("g-argorder",[(GO,'''argParams = append(argParams, "req."+ucfirst(a.Name))''','''argParams = append([]string{"req." + ucfirst(a.Name)}, argParams...)''')],["S05"]),
 ("g-noregister",[(GO,'''			g.l(`gob.Register(` + ucfirst(service.Name+method.Name) + `Response{})`)
''','')],["S05"]),
 ("g-registersome",[(GO,'''			g.l(`gob.Register(` + ucfirst(service.Name+method.Name) + `Response{})`)
''','''			if len(method.Return) > 0 {
				g.l(`gob.Register(` + ucfirst(service.Name+method.Name) + `Response{})`)
			}
''')],["S05"]),
 ("g-errswallow",[(GO,'''			g.l(`clientErr = rpcCallErr`)
			g.l(`return`)''','''			if len(rets) > 0 {
				g.l(`clientErr = rpcCallErr`)
			}
			g.l(`return`)''')],["S05","C05"]),
 ("g-statspkg",[(GO,'''g.l(`Package: "` + fullPackageName + `",`)''','''g.l(`Package: "` + packageName + `",`)''')],["S05","S04"]),
 ("g-tls",[(GO,'''client.Client = gorpc.NewTLSClient(addr, tlsConfig)''','''client.Client = gorpc.NewTCPClient(addr)
						_ = tlsConfig''')],[]),
 ("g-retsrev",[(GO,'''				rets = append(rets, "response."+ucfirst(name))''','''				rets = append([]string{"response." + ucfirst(name)}, rets...)''')],["S05"]),
 # --- S06
 ("m-before",[(GO,'''			g.l("gotsrpc.Monitor(w, r, args, rets, callStats)")
''',''),(GO,'''			g.l("if err := gotsrpc.Reply(rets''','''			g.l("gotsrpc.Monitor(w, r, args, rets, callStats)")
			g.l("if err := gotsrpc.Reply(rets''')],["S06"]),
 ("m-session",[(GO,'''			if isSessionRequest {
				g.ind(-1).l("}")
			}
			g.l("gotsrpc.Monitor(w, r, args, rets, callStats)")
''','''			g.l("gotsrpc.Monitor(w, r, args, rets, callStats)")
			if isSessionRequest {
				g.ind(-1).l("}")
			}
''')],["S06"]),
 ("m-defer",[(GO,'''			g.l("gotsrpc.Monitor(w, r, args, rets, callStats)")
''',''),(GO,'''			g.l("executionStart := time.Now()")''','''			g.l("defer func() { gotsrpc.Monitor(w, r, args, rets, callStats) }()")
			g.l("executionStart := time.Now()")''')],["S06"]),
 ("m-argsrets",[(GO,'gotsrpc.Monitor(w, r, args, rets, callStats)','gotsrpc.Monitor(w, r, rets, args, callStats)')],["S06"]),
 # --- C03/C05/C04
 ("p-nodrain",[(GO,'''			defer io.Copy(io.Discard, r.Body) // Drain Request Body ''','''			io.Copy(io.Discard, io.LimitReader(r.Body, 0)) // Drain Request Body ''')],["C03"]),
 ("p-drainlate",[(GO,'''			defer io.Copy(io.Discard, r.Body) // Drain Request Body 
''','''
'''),(GO,'''			g.l("executionStart := time.Now()")''','''			g.l("defer io.Copy(io.Discard, r.Body)")
			g.l("executionStart := time.Now()")''')],["C03"]),
 ("c-errorsnew",[(GO,'''clientErr = pkg_errors.WithMessage(clientErr, "failed to call ` + packageName + `.` + service.Name + `GoTSRPCProxy ` + method.Name + `")''','''clientErr = pkg_errors.Errorf("failed to call ` + packageName + `.` + service.Name + `GoTSRPCProxy ` + method.Name + `: %v", clientErr)''')],["C05"]),
 ("c-nilreply",[(GO,'''			g.l(`reply := []interface{}{` + strings.Join(ms.rets, ", ") + `}`)''','''			g.l(`reply := []interface{}{` + strings.Join(ms.rets[:len(ms.rets)/2*2], ", ") + `}`)''')],["G01"]),
 ("c-endpoint",[(GO,'''New` + interfaceName + `(url, "` + service.Endpoint + `")''','''New` + interfaceName + `(url, "/` + service.Name + `")''')],["G01"]),
 ("c-method",[(GO,'''tsc.EndPoint, "` + method.Name + `", args''','''tsc.EndPoint, "` + lcfirst(method.Name) + `", args''')],["G01"]),
 ("c-args",[(GO,'''		args = append(args, a.Name)
''','''		args = append([]string{a.Name}, args...)
''')],["G01"]),
]
