TS="typescript.go"; TC="typscriptclient.go"; TR="typereader.go"; SR="servicereader.go"; B="build.go"; GO="go.go"
MUTANTS=[
 # --- behaviour preserving
 ("r-t-nullhelper",[(TS,'''		v.Map.Value.tsType(mappings, scalars, structs, ts, nil)
		ts.app(">")
		if jsonInfo == nil || !jsonInfo.OmitEmpty {
			ts.app("|null")
		}
''','''		v.Map.Value.tsType(mappings, scalars, structs, ts, nil)
		ts.app(">")
		tsNull(ts, jsonInfo)
'''),(TS,'''func tsTypeFromScalarType(''','''func tsNull(ts *code, jsonInfo *JSONInfo) {
	if jsonInfo != nil && jsonInfo.OmitEmpty {
		return
	}
	ts.app(" | null")
}

func tsTypeFromScalarType(''')],[]),
 ("r-t-arraysuffix",[(TS,'''			ts.app("Array<")
			v.Array.Value.tsType(mappings, scalars, structs, ts, nil)
			ts.app(">")
		}
		if jsonInfo''','''			ts.app("(")
			v.Array.Value.tsType(mappings, scalars, structs, ts, nil)
			ts.app(")[]")
		}
		if jsonInfo''')],[]),
 ("r-t-fieldsloop",[(TS,'''		if len(f.Name) == 0 {
			continue
		} else if f.JSONInfo != nil && f.JSONInfo.Ignore {
			continue
		}
		ts.app(f.tsName())
		if f.JSONInfo != nil && f.JSONInfo.OmitEmpty {
			ts.app("?")
		}
		ts.app(":")
''','''		info := f.JSONInfo
		if f.Name == "" || (info != nil && info.Ignore) {
			continue
		}
		name := f.tsName()
		if info != nil && info.OmitEmpty {
			name += "?"
		}
		ts.app(name + ": ")
''')],[]),
 ("r-t-enumsingle",[(TS,'''l(enum + " = " + packageConstantTypeValuesList[k].Value + ",")''','''app(enum).app(" = ").l(packageConstantTypeValuesList[k].Value + ",")''')],[]),
 ("r-t-unionsep",[(TS,'''			for i, unionField := range str.UnionFields {
				if i > 0 {
					ts.app(" | ")
				}
				unionField''','''			for _, unionField := range str.UnionFields {
				ts.app("| ")
				unionField''')],[]),
 ("r-t-client",[(TC,'''		} else if countReturns == 1 {
			ts.l("return (await " + call + ")[0]")
''','''		} else if countReturns == 1 {
			ts.l("const response = await " + call + ";")
			ts.l("return response[0];")
''')],[]),
 ("r-t-json",[(TR,'''	if len(jsonTags) > 1 {
		for _, value := range jsonTags[1:] {
			switch {
			case value == "inline":
				inline = true
			case value == "omitempty":
				omit = true
			}
		}
	}
''','''	for i := 1; i < len(jsonTags); i++ {
		inline = inline || jsonTags[i] == "inline"
		omit = omit || jsonTags[i] == "omitempty"
	}
''')],[]),
 ("r-t-scalars",[(TR,'''	switch ident.Name {
	case "any", "interface":
		return ScalarTypeAny
	case "string":
		return ScalarTypeString
	case "bool":
		return ScalarTypeBool
''','''	builtin := map[string]ScalarType{"any": ScalarTypeAny, "interface": ScalarTypeAny, "string": ScalarTypeString, "bool": ScalarTypeBool}
	if s, ok := builtin[ident.Name]; ok {
		return s
	}
	switch ident.Name {
''')],[]),
 # --- G06
 ("t-mapnull",[(TS,'''		v.Map.Value.tsType(mappings, scalars, structs, ts, nil)
		ts.app(">")
		if jsonInfo == nil || !jsonInfo.OmitEmpty {''','''		v.Map.Value.tsType(mappings, scalars, structs, ts, nil)
		ts.app(">")
		if jsonInfo == nil {''')],["G06"]),
 ("t-mapvaluejson",[(TS,'''		v.Map.Value.tsType(mappings, scalars, structs, ts, nil)
		ts.app(">")
		if jsonInfo''','''		v.Map.Value.tsType(mappings, scalars, structs, ts, jsonInfo)
		ts.app(">")
		if jsonInfo''')],["G06"]),
 ("t-arrayvaluejson",[(TS,'''			v.Array.Value.tsType(mappings, scalars, structs, ts, nil)
			ts.app(">")
		}
		if jsonInfo''','''			v.Array.Value.tsType(mappings, scalars, structs, ts, jsonInfo)
			ts.app(">")
		}
		if jsonInfo''')],["G06"]),
 ("t-bytes",[(TS,'''			ts.app("string") // bytes are base64 encoded''','''			ts.app("Array<number>")''')],["G06"]),
 ("t-byte",[(TS,'''	case ScalarTypeByte:
		return "number"''','''	case ScalarTypeByte:
		return "string"''')],["G06"]),
 ("t-scalarptr",[(TS,'''			if (isNullable || v.IsPtr) && (jsonInfo''','''			if isNullable && (jsonInfo''')],["G06"]),
 ("t-scalarnull",[(TS,'''			if (isNullable || v.IsPtr) && (jsonInfo''','''			if (isNullable && v.IsPtr || v.IsPtr) && (jsonInfo''')],["G06"]),
 ("t-plainptr",[(TS,'''		ts.app(tsTypeFromScalarType(v.ScalarType))
		if v.IsPtr && (jsonInfo == nil || !jsonInfo.OmitEmpty) {''','''		ts.app(tsTypeFromScalarType(v.ScalarType))
		if v.IsPtr && jsonInfo != nil && !jsonInfo.OmitEmpty {''')],["G06"]),
 ("t-structptr",[(TS,'''			} else if v.IsPtr && (jsonInfo == nil || !jsonInfo.OmitEmpty) {''','''			} else if v.IsPtr && isHiddenStruct && (jsonInfo == nil || !jsonInfo.OmitEmpty) && len(hiddenStruct.UnionFields) == 0 {''')],["G06"]),
 ("t-hiddenmap",[(TS,'''			if isHiddenStruct && (hiddenStruct.Array != nil || hiddenStruct.Map != nil) &&''','''			if isHiddenStruct && hiddenStruct.Array != nil &&''')],["G06"]),
 ("t-anonptr",[(TS,'''		ts.ind(-1).app("}")
		if v.IsPtr && (jsonInfo == nil || !jsonInfo.OmitEmpty) {''','''		ts.ind(-1).app("}")
		if v.IsPtr && jsonInfo != nil {''')],["G06"]),
 ("t-keytype",[(TS,'''		if v.Map.Key != nil {
			v.Map.Key.tsType(mappings, scalars, structs, ts, nil)''','''		if v.Map.Key != nil && v.Map.Key.ScalarType == "" {
			v.Map.Key.tsType(mappings, scalars, structs, ts, nil)''')],["G06"]),
 ("t-time",[(TS,'''			if value, ok := tsTypeAliases[tsType]; ok {''','''			if value, ok := tsTypeAliases[tsType]; ok && !v.IsPtr {''')],["G06"]),
 ("t-override",[(TS,'''	case jsonInfo != nil && len(jsonInfo.Type) > 0:''','''	case jsonInfo != nil && len(jsonInfo.Type) > 0 && v.Map == nil:''')],["G06"]),
 ("t-module",[(TS,'''			ts.app(tsModule + "." + v.StructType.Name)''','''			ts.app(strings.TrimPrefix(tsModule, "example_com_") + "." + v.StructType.Name)''')],["G06","G07"]),
 ("t-aliasmap",[(TS,'''		ts.app("export type " + str.Name + " = Record<")
		if str.Map.Key != nil {''','''		ts.app("export type " + str.Name + " = Record<")
		if str.Map.Key != nil && str.Map.Key.Scalar == nil {''')],["G06"]),
 ("t-number",[(TR,'''		"int", "int8", "int16", "int32", "int64",
		"uint",''','''		"int", "int8", "int16", "int32",
		"uint",''')],["G06","G01"]),
 ("t-deepimport",[(SR,'''						if importName == "" || importName == "<nil>" {
							importName = standardImportName(importPath)''','''						if importName != standardImportName(importPath) {
							importName = standardImportName(importPath)''')],["G06","G01","G07","G04","G05"]),
 ("t-starsel",[(TR,'''	case *ast.SelectorExpr:
		readAstSelectorExpr(v, starExprType, fileImports)
	default:
		trace("a pointer on what"''','''	case *ast.SelectorExpr:
		readAstSelectorExpr(v, starExprType, fileImports)
		v.IsPtr = v.Scalar == nil || v.Scalar.Package != "time"
	default:
		trace("a pointer on what"''')],["G06","G01"]),
 # --- G07
 ("d-ignore",[(TR,'''		case "-":
			ignore = true''','''		case "-":
			ignore = len(jsonTags) > 1''')],["G07"]),
 ("d-name",[(TR,'''		default:
			name = jsonTags[0]
		}''','''		default:
			if len(jsonTags) == 1 {
				name = jsonTags[0]
			}
		}''')],["G07"]),
 ("d-omit",[(TR,'''			case value == "omitempty":
				omit = true''','''			case value == "omitempty":
				omit = name != ""''')],["G07"]),
 ("d-jsontag",[(TR,'''structTag.Get("json"), ",")''','''structTag.Get("yaml"), ",")''')],["G07"]),
 ("d-multi",[(TR,'''			for _, name := range names {
				if len(name) == 0 {''','''			for _, name := range names[:1] {
				if len(name) == 0 {''')],["G07"]),
 ("d-unexported",[(TR,'''				} else if !ast.IsExported(name) {''','''				} else if jsonInfo == nil && !ast.IsExported(name) {''')],["G07"]),
 ("d-partial",[(TS,'''			if inlineField.Value.IsPtr {
				ts.app("Partial<")
			}
			inlineField.Value.tsType(mappings, scalars, structs, ts, &JSONInfo{OmitEmpty: true})
			if inlineField.Value.IsPtr {
				ts.app(">")
			}''','''			inlineField.Value.tsType(mappings, scalars, structs, ts, &JSONInfo{OmitEmpty: true})''')],["G07"]),
 ("d-inlinelast",[(TS,'''		for i, inlineField := range str.InlineFields {
			if i > 0 {
				ts.app(", ")
			}''','''		for _, inlineField := range str.InlineFields[:1] {''')],["G07"]),
 ("d-undefined",[(TS,'''			if isUndefined {
				ts.app(" | undefined")''','''			if isUndefined && len(str.UnionFields) > 2 {
				ts.app(" | undefined")''')],["G07"]),
 ("d-unionamp",[(TS,'''ts.app(" | ")''','''ts.app(" & ")''')],["G07"]),
 ("d-unionspread",[(TS,'''			for i, field := range str.UnionFields {
				if i > 0 {
					ts.app(", ")
				}
				ts.app("...")''','''			for i, field := range str.UnionFields {
				if i > 0 {
					break
				}
				ts.app("...")''')],["G07"]),
 ("d-enumstrings",[(SR,'''									if valType, ok := val.(*ast.BasicLit); ok {''','''									if valType, ok := val.(*ast.BasicLit); ok && valType.Kind == token.STRING {''')],["G07"]),
 ("d-enumfirst",[(SR,'''(map[string]*ast.BasicLit)[spec.Names[i].Name] = valType''','''(map[string]*ast.BasicLit)[spec.Names[i-i].Name] = valType''')],["G07"]),
 ("d-enumlost",[(SR,'''										if _, ok := constantTypes[specType.Name]; !ok {
											constantTypes''','''										if _, ok := constantTypes[specType.Name]; !ok || i == 0 {
											constantTypes''')],["G07"]),
 ("d-enumtrim",[(TS,'''strings.TrimPrefix(strcase.ToCamel(k), packageConstantTypeName)''','''strings.TrimLeft(strcase.ToCamel(k), packageConstantTypeName)''')],["G07"]),
 ("d-type",[(SR,'''								case "bool":
									constantTypes[spec.Name.Name] = "boolean"
''','')],["G07"]),
 ("d-flat",[(SR,'''			if scalarOK || structOK || constantsOK {''','''			if scalarOK && structOK || constantsOK {''')],["G07"]),
 ("d-imports",[(B,'''		if len(code) > 0 && !strings.Contains(code, importMapping.TypeScriptModule+".") {''','''		if len(code) > 0 && !strings.Contains(code, " "+importMapping.TypeScriptModule+".") {''')],["G07"]),
 ("d-relative",[(B,'''	r, e = filepath.Rel(path.Dir(a), b)''','''	r, e = filepath.Rel(path.Dir(path.Dir(a)), path.Dir(b))
	r = path.Join(r, path.Base(b))''')],["G07"]),
 ("d-anonignored",[(TR,'''	v.Struct.Fields, v.Struct.InlineFields, v.Struct.UnionFields = readFieldList(structType.Fields.List, fileImports)''','''	v.Struct.Fields, v.Struct.InlineFields, v.Struct.UnionFields = readFieldList(structType.Fields.List[:(len(structType.Fields.List)+1)/2], fileImports)''')],["G06","G07"]),
 ("d-configured",[(B,'''		for _, include := range mapping.Structs {
			missingTypes[include] = true''','''		for _, include := range mapping.Structs {
			missingTypes[include] = len(conf.Targets) > 1''')],["G07","G04"]),
 ("d-configuredscalar",[(SR,'''			_, constantsOK := missingConstants[fullName]''','''			constantsOK := missingConstants[fullName] && structOK''')],["G07","G04","G08"]),
 ("d-inanon",[(SR,'''	case value.Struct != nil:
		for _, field := range value.Struct.Fields {
			if needsWorkValue''','''	case value.Struct != nil:
		for _, field := range value.Struct.InlineFields {
			if needsWorkValue''')],["G04","G07"]),
 ("d-inunion",[(SR,'''	} else if ok := needWorksFields(s.UnionFields); !ok {
		return false
''','''	} else if ok := needWorksFields(s.UnionFields); !ok {
		return true
''')],["G04","G07","G08"]),
 ("d-inkey",[(SR,'''		if needsWorkValue(value.Map.Key, needsWork) || needsWorkValue(value.Map.Value, needsWork) {''','''		if needsWorkValue(value.Map.Value, needsWork) {''')],["G04","G07"]),
 # --- TypeScript client
 ("tc-args",[(TC,'''			callArgs = append(callArgs, arg.Name)''','''			callArgs = append([]string{arg.Name}, callArgs...)''')],["G01"]),
 ("tc-index",[(TC,'''retArgName + " : response[" + strconv.Itoa(index) + "]"''','''retArgName + " : response[" + strconv.Itoa(len(method.Return)-1-index) + "]"''')],["G01"]),
 ("tc-first",[(TC,'''			ts.l("return (await " + call + ")[0]")''','''			ts.l("return (await " + call + ") as any")''')],["G01"]),
 ("tc-method",[(TC,'''(\\"" + method.Name + "\\", [''','''(\\"" + lcfirst(method.Name) + "\\", [''')],["G01"]),
 ("tc-endpoint",[(TC,'''defaultEndpoint = "` + service.Endpoint + `";''','''defaultEndpoint = "` + strings.ToLower(service.Endpoint) + `x";''')],["G01"]),
 ("tc-innertype",[(TC,'''			retField.Value.tsType(mappings, scalars, structs, innerReturnTypeTS, retField.JSONInfo)''','''			method.Return[0].Value.tsType(mappings, scalars, structs, innerReturnTypeTS, retField.JSONInfo)''')],["G06","G01"]),
 ("tc-skip",[(TC,'''			if index == 1 && arg.Value.isHTTPRequest() {''','''			if index == 0 && arg.Value.isHTTPRequest() {''')],["G01"]),
]
