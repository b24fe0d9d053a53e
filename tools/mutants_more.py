GO="go.go"; TS="typescript.go"; TC="typscriptclient.go"; SR="servicereader.go"; TR="typereader.go"; G="gotsrpc.go"; B="build.go"; C="code.go"; CF="config/config.go"; M="cmd/gotsrpc/gotsrpc.go"
MUTANTS=[
 # go.go
 ("n-retname-guard",[(GO,'''				returnValueNames = append(returnValueNames, lcfirst(method.Name)+ucfirst(retArgName))''','''				if len(retField.Name) > 6 {
					returnValueNames = append(returnValueNames, retArgName)
					continue
				}
				returnValueNames = append(returnValueNames, lcfirst(method.Name)+ucfirst(retArgName))''')],["G01","S01"]),
 ("n-alias-dash",[(GO,'r := strings.NewReplacer(".", "_", "/", "_", "-", "_")','r := strings.NewReplacer(".", "_", "/", "_")')],["G05"]),
 ("n-alias-collapse",[(GO,'uglyAlias := r.Replace(packageName)','uglyAlias := r.Replace(strings.TrimSuffix(packageName, "/v2"))')],["G05","G01"]),
 ("n-import-map-deep",[(GO,'''		extractImportValue(value.Map.Key, fullPackageName, aliases)
		extractImportValue(value.Map.Value, fullPackageName, aliases)''','''		extractImportValue(value.Map.Key, fullPackageName, aliases)
		if value.Map.Value.Map == nil {
			extractImportValue(value.Map.Value, fullPackageName, aliases)
		}''')],["G05","G01"]),
 ("n-unions-import",[(GO,'''	for pkg := range unions {
		extractImport(pkg, fullPackageName, aliases)
	}''','''	for pkg := range unions {
		if strings.HasPrefix(pkg, fullPackageName) {
			extractImport(pkg, fullPackageName, aliases)
		}
	}''')],["G05","G07","T04","G01"]),
 ("n-union-first",[(GO,'''				strs = append(strs, str)
''','''				strs = append(strs, str)
				break
''')],["T04"]),
 ("n-union-sorted",[(GO,'''		sort.Strings(strs)
		for _, str := range strs {''','''		sort.Strings(strs)
		for _, str := range strs[len(strs)/3:] {''')],["T04"]),
 ("n-union-single-pkg",[(GO,'''	renderInit(unions, aliases, fullPackageName, g)
''','''	if len(unions) == 1 {
		renderInit(unions, aliases, fullPackageName, g)
	}
''')],["T04"]),
 ("n-session-two",[(GO,'isSessionRequest = len(method.Args)-len(nonHTTPRelatedArgs) == 2','isSessionRequest = len(method.Args)-len(nonHTTPRelatedArgs) == 2 && len(method.Return) > 0')],["S03","G01","S01"]),
 ("n-session-noargs",[(GO,'isSessionRequest = len(method.Args)-len(nonHTTPRelatedArgs) == 2','isSessionRequest = len(method.Args) > len(nonHTTPRelatedArgs) && len(nonHTTPRelatedArgs) > 0')],["S03","G01","S01"]),
 ("n-stats-service0",[(GO,'''g.l("callStats.Service = \\"" + service.Name + "\\"")''','''g.l("callStats.Service = \\"" + services[0].Name + "\\"")''')],["S04"]),
 ("n-monitor-ok",[(GO,'''			if isSessionRequest {
				g.ind(-1).l("}")
			}
			g.l("gotsrpc.Monitor(w, r, args, rets, callStats)")''','''			g.l("gotsrpc.Monitor(w, r, args, rets, callStats)")
			if isSessionRequest {
				g.ind(-1).l("}")
			}''')],["S06"]),
 ("n-endpoint-last",[(GO,'''	        return New` + interfaceName + `(url, "` + service.Endpoint + `")''','''	        return New` + interfaceName + `(url, "` + services[len(services)-1].Endpoint + `")''')],["G01"]),
 ("n-gorpc-suffix",[(GO,'g.l(`switch funcName {`)\n		for _, method := range service.Methods {\n			argParams','g.l(`switch strings.TrimPrefix(funcName, "` + service.Name + `") {`)\n		for _, method := range service.Methods {\n			argParams'),(GO,'g.l(`case "` + ucfirst(service.Name+method.Name) + `Request":`)','g.l(`case "` + method.Name + `Request":`)')],["S05"]),
 ("n-gorpc-reg-args",[(GO,'''			g.l(`gob.Register(` + ucfirst(service.Name+method.Name) + `Response{})`)''','''			if len(method.Return) > 0 {
				g.l(`gob.Register(` + ucfirst(service.Name+method.Name) + `Response{})`)
			}''')],["S05"]),
 ("n-gorpc-ret-name",[(GO,'''				rets = append(rets, "response."+ucfirst(name))
				returns = append(returns, name+" "+r.Value.goType''','''				rets = append([]string{"response." + ucfirst(name)}, rets...)
				returns = append(returns, name+" "+r.Value.goType''')],["S05"]),
 ("n-gorpc-start",[(GO,'''		g.l(`start := time.Now()`)
		g.nl()
''',''),(GO,'''		g.l(`if p.callStatsHandler != nil {`)''','''		g.l(`start := time.Now()`)
		g.l(`if p.callStatsHandler != nil {`)''')],["S04"]),
 ("n-gotype-mapptr",[(GO,'''		t += `map[` + v.Map.Key.goType(aliases, packageName) + `]` + v.Map.Value.goType(aliases, packageName)''','''		value := v.Map.Value.goType(aliases, packageName)
		if v.Map.Value.Array != nil {
			value = strings.Replace(value, "*", "", 1)
		}
		t += `map[` + v.Map.Key.goType(aliases, packageName) + `]` + value''')],["G05"]),
 ("n-ucfirst",[(GO,'''		if i == 0 {
			res += strfunc''','''		if i == 0 || i < 2 && str[0] == '_' {
			res += strfunc''')],[]),
 # typescript
 ("n-map-keyfloat",[(TR,'''		m.KeyType = string(scalarType)''','''		_ = scalarType
		m.KeyType = "string"'''),(TS,'''		if v.Map.Key != nil {
			v.Map.Key.tsType(mappings, scalars, structs, ts, nil)
		} else {
			ts.app(v.Map.KeyType)
		}
		ts.app(",")
		v.Map.Value.tsType''','''		if v.Map.Key != nil && v.Map.Key.GoScalarType == "" {
			v.Map.Key.tsType(mappings, scalars, structs, ts, nil)
		} else {
			ts.app(v.Map.KeyType)
		}
		ts.app(",")
		v.Map.Value.tsType''')],["G06"]),
 ("n-nested-array-null",[(TS,'''			ts.app("Array<")
			v.Array.Value.tsType(mappings, scalars, structs, ts, nil)''','''			ts.app("Array<")
			v.Array.Value.tsType(mappings, scalars, structs, ts, &JSONInfo{OmitEmpty: v.Array.Value.Array != nil && v.Array.Value.Array.Value.Array != nil})''')],["G06"]),
 ("n-ptr-scalar-omit",[(TS,'''	case len(v.ScalarType) > 0:
		ts.app(tsTypeFromScalarType(v.ScalarType))
		if v.IsPtr && (''','''	case len(v.ScalarType) > 0:
		ts.app(tsTypeFromScalarType(v.ScalarType))
		if v.IsPtr && v.ScalarType != ScalarTypeBool && (''')],["G06"]),
 ("n-alias-suffix",[(TS,'''			if value, ok := tsTypeAliases[tsType]; ok {
				tsType = value
			}''','''			for alias, value := range tsTypeAliases {
				if strings.HasSuffix(tsType, alias) {
					tsType = value
				}
			}''')],["G06"]),
 ("n-json-name-case",[(TS,'''		n = f.JSONInfo.Name
''','''		n = strings.Trim(f.JSONInfo.Name, "_")
''')],["G07"]),
 ("n-union-undefined",[(TS,'''				if unionField.Value.IsPtr {
					isUndefined = true
				}''','''				isUndefined = unionField.Value.IsPtr''')],["G07"]),
 ("n-inline-two",[(TS,'''			if inlineField.Value.IsPtr {
				ts.app("Partial<")
			}''','''			if inlineField.Value.IsPtr && i == 0 {
				ts.app("Partial<")
			}'''),(TS,'''			if inlineField.Value.IsPtr {
				ts.app(">")
			}''','''			if inlineField.Value.IsPtr && i == 0 {
				ts.app(">")
			}''')],["G07"]),
 ("n-enum-camel",[(TS,'strings.TrimPrefix(strcase.ToCamel(k), packageConstantTypeName)','strings.TrimPrefix(strcase.ToCamel(strings.ToLower(k)), packageConstantTypeName)')],["G07"]),
 ("n-enum-dup",[(TS,'''					for _, k := range keys {
						enum :=''','''					seen := map[string]bool{}
					for _, k := range keys {
						if value := packageConstantTypeValuesList[k].Value; seen[value] {
							continue
						} else {
							seen[value] = true
						}
						enum :=''')],["G07"]),
 ("n-tc-index",[(TC,'''			if index > argOffset {
				ts.app(", ")''','''			if argCount > 0 {
				ts.app(", ")''')],[]),
 ("n-tc-ret-names",[(TC,'''			if len(retArgName) == 0 {
				retArgName = "ret"
				if index > 0 {''','''			if len(retArgName) == 0 {
				retArgName = "ret"
				if index > 1 {''')],["G01","G06","G07"]),
 ("n-tc-three",[(TC,'''responseObject += responseObjectPrefix + retArgName + " : response[" + strconv.Itoa(index) + "]"''','''responseObject += responseObjectPrefix + retArgName + " : response[" + strconv.Itoa(min(index, 2)) + "]"''')],["G01"]),
 ("n-tc-endpoint",[(TC,'''public static defaultEndpoint = "` + service.Endpoint + `";''','''public static defaultEndpoint = "` + strings.TrimSuffix(service.Endpoint, "/") + `";''')],[]),
 ("n-tc-err-type",[(TC,'''			innerReturnTypeTS.app(strconv.Itoa(index))''','''			innerReturnTypeTS.app(strconv.Itoa(len(method.Return) - countInnerReturns))''')],["G01","G06"]),
 # reader
 ("n-iface-names",[(SR,'''									if !mname.IsExported() {''','''									if !mname.IsExported() || strings.HasPrefix(mname.Name, "Set") && funcDecl.Results == nil {''')],["G03"]),
 ("n-method-noresult",[(SR,'''							if !ok || !funcDecl.Name.IsExported() {''','''							if !ok || !funcDecl.Name.IsExported() || funcDecl.Name.Name == "ServeHTTP" {''')],["G03"]),
 ("n-doc-deprecated",[(SR,'''							if !ok || !funcDecl.Name.IsExported() {''','''							if !ok || !funcDecl.Name.IsExported() || funcDecl.Body == nil {''')],[]),
 ("n-import-dash",[(SR,'''	return pathParts[len(pathParts)-1]
}''','''	last := pathParts[len(pathParts)-1]
	if len(pathParts) > 1 && strings.HasPrefix(last, "v") {
		return pathParts[len(pathParts)-2]
	}
	return last
}''')],["G05","G04"]),
 ("n-import-dot",[(SR,'''						if importName == "" || importName == "<nil>" {''','''						if importName == "" || importName == "<nil>" || strings.HasSuffix(importPath, "/"+importName+"s") {''')],["G05","G04"]),
 ("n-flat-arr",[(SR,'''	if s.Fields != nil {
		for _, field := range s.Fields {
			loadFlatStructsValue(field.Value, flatStructs)
		}
	}
	flatStructs[s.FullName()] = true''','''	flatStructs[s.FullName()] = true''')],[]),
 ("n-const-neg",[(SR,'''									if valType, ok := val.(*ast.BasicLit); ok {''','''									if valType, ok := val.(*ast.BasicLit); ok && ast.IsExported(spec.Names[i].Name) {''')],["G07"]),
 ("n-types-late",[(SR,'''							if _, ok := constantTypes[spec.Name.Name]; ok {
								continue
							}
							switch''','''							switch''')],["G07","G02"]),
 ("n-missing-once",[(SR,'''			// hey there is more todo
			missingTypes[fullName] = true''','''			// hey there is more todo
			if _, known := missingTypes[fullName]; !known {
				missingTypes[fullName] = true
			}''')],["G04","G08"]),
 ("n-fix-ret",[(SR,'''			fixFieldStructs(method.Return, structs, scalars)
''','''			if len(method.Return) == 1 {
				fixFieldStructs(method.Return, structs, scalars)
			}
''')],[]),
 ("n-needs-depth",[(SR,'''	case value.Array != nil:
		if needsWorkValue(value.Array.Value, needsWork) {
			return true
		}
	case value.Map != nil:
		if needsWork''','''	case value.Array != nil:
		if value.Array.Value.Array == nil && needsWorkValue(value.Array.Value, needsWork) {
			return true
		}
	case value.Map != nil:
		if needsWork''')],["G04"]),
 # type reader
 ("n-tag-space",[(TR,'''	for k, value := range jsonTags {
		jsonTags[k] = strings.TrimSpace(value)
	}''','''	for k, value := range jsonTags {
		jsonTags[k] = strings.TrimSpace(strings.ToLower(value))
	}''')],["G07"]),
 ("n-tag-omit-second",[(TR,'''		for _, value := range jsonTags[1:] {
			switch {
			case value == "inline":
				inline = true
			case value == "omitempty":
				omit = true
			}''','''		for _, value := range jsonTags[1:2] {
			switch {
			case value == "inline":
				inline = true
			case value == "omitempty":
				omit = true
			}''')],["G07"]),
 ("n-tag-string",[(TR,'''			case value == "omitempty":
				omit = true''','''			case strings.HasPrefix(value, "omit"):
				omit = true''')],["G07"]),
 ("n-names-tag",[(TR,'''			names = append(names, name.Name)
		}''','''			names = append(names, name.Name)
			if astField.Tag != nil {
				break
			}
		}''')],[]),
 ("n-error-ptr",[(TR,'''funcDecl.Type.Params.NumFields() == 0 && ''','')],[]),
 ("n-star-anon",[(TR,'''	case *ast.StructType:
		// nested anonymous
		readAstStructType(v, starExprType, fileImports)
	case *ast.SelectorExpr:''','''	case *ast.SelectorExpr:''')],["G04","G06"]),
 ("n-array-anon",[(TR,'''		case *ast.InterfaceType:
			readAstInterfaceType(v.Array.Value, exprEltType, fileImports)
		default:''','''		default:''')],["G05"]),
 ("n-int-types",[(TR,'''		"int", "int8", "int16", "int32", "int64",
		"uint", "uint16", "uint32", "uint64", "uintptr":
		return ScalarTypeNumber
	default:''','''		"int", "int8", "int16", "int32", "int64",
		"uint", "uint16", "uint32", "uint64":
		return ScalarTypeNumber
	default:''')],["G06"]),
 ("n-const-types",[(SR,'"uint", "uint8", "uint16", "uint32", "uint64", "uintptr":\n									constantTypes','"uint", "uint8", "uint16", "uint32", "uint64":\n									constantTypes')],["G07"]),
 # build
 ("n-unions-fields",[(B,'if len(s.Fields) == 0 && len(s.UnionFields) > 0 {','if len(s.Fields) == 0 && len(s.UnionFields) > 1 {')],["T04"]),
 ("n-unions-own",[(B,'if len(s.Fields) == 0 && len(s.UnionFields) > 0 {','if len(s.Fields) == 0 && len(s.UnionFields) > 0 && s.UnionFields[0].Value.StructType != nil {')],["T04"]),
 ("n-unions-out",[(B,'''		unions := map[string][]string{}
		for _, s := range structs {''','''		unions := map[string][]string{}
		for _, s := range structs {
			if target.Out == "" {
				break
			}''')],["T04"]),
 ("n-skip-client",[(B,'if len(target.TSRPC) > 0 && !target.SkipTSRPCClient {','if len(target.TSRPC) > 0 && !conf.Targets[names[0]].SkipTSRPCClient {')],["G10","G01","G08"]),
 ("n-jsmap-trim",[(B,'mapping.TypeScriptModule = replacer.Replace(mapping.GoPackage)','mapping.TypeScriptModule = replacer.Replace(strings.TrimPrefix(mapping.GoPackage, conf.Module.Name))')],[]),
 ("n-jsmap-v",[(B,'replacer := strings.NewReplacer(".", "_", "/", "_", "-", "_")','replacer := strings.NewReplacer(".", "", "/", "_", "-", "_")')],[]),
 ("n-rel-ts",[(B,'	r = strings.TrimSuffix(r, ".ts")','	r = strings.TrimRight(r, ".ts")')],["G07"]),
 ("n-import-self",[(B,'''		if len(code) > 0 && !strings.Contains(code, importMapping.TypeScriptModule+".") {''','''		if len(code) > 0 && !strings.Contains(code, " "+importMapping.TypeScriptModule+".") {''')],["G07"]),
 ("n-update-size",[(B,'if string(oldCode) != code {','if len(oldCode) != len(code) || string(oldCode[:len(oldCode)/2]) != code[:len(code)/2] {')],["G02"]),
 ("n-struct-merge",[(TS,'''			mappedTypeScript[mapping.GoPackage][structName] = structCode''','''			if len(mappedTypeScript[mapping.GoPackage]) < 64 {
				mappedTypeScript[mapping.GoPackage][structName] = structCode
			}''')],[]),
 ("n-ensure",[(TS,'''		_, ok := mappedTypeScript[goPackage]
		if !ok {
			mappedTypeScript''','''		if len(mappedTypeScript[goPackage]) < len(codeMap[goPackage]) {
			mappedTypeScript''')],["G07"]),
 # main/config
 ("n-code-ind",[(C,'''	c.lines = append(c.lines, strings.Repeat(c.tab, c.indent)+c.line)''','''	c.lines = append(c.lines, strings.Repeat(c.tab, c.indent)+strings.TrimSpace(c.line))''')],[]),
 ("n-istsrpc",[(CF,'''	for _, value := range t.TSRPC {
		if value == service {
			return true
		}
	}
	return false''','''	for _, value := range t.TSRPC {
		if value == service {
			return true
		}
	}
	return t.IsGoRPC(service) && len(t.Services) == 1''')],["G10"]),
 ("n-exclude-gen",[("gotsrpc.go",'return !strings.HasSuffix(info.Name(), "_test.go")','return !strings.HasSuffix(info.Name(), "_test.go") && !strings.HasSuffix(info.Name(), "_gen.go")')],["G03","G04"]),
]
