TS="typescript.go"; TC="typscriptclient.go"; TR="typereader.go"; SR="servicereader.go"; B="build.go"; GO="go.go"; GT="gotsrpc.go"
MUTANTS=[
 # --- behaviour preserving
 ("r-rd-find",[(SR,'''	findService := func(serviceName string) (service *Service, ok bool) {
		for _, service := range services {
			if service.Name == serviceName {
				return service, true
			}
		}
		return nil, false
	}
''','''	byName := make(map[string]*Service, len(services))
	for _, service := range services {
		if _, exists := byName[service.Name]; !exists {
			byName[service.Name] = service
		}
	}
	findService := func(serviceName string) (*Service, bool) {
		service, ok := byName[serviceName]
		return service, ok
	}
''')],[]),
 ("r-rd-exported",[(SR,'''							if !ok || !funcDecl.Name.IsExported() {''','''							if !ok || !token.IsExported(funcDecl.Name.Name) {''')],[]),
 ("r-rd-method",[(SR,'''			if funcDecl.Recv != nil {
				trace("that is a method named", funcDecl.Name)
				if len(funcDecl.Recv.List) == 1 {
					firstReceiverField := funcDecl.Recv.List[0]
					if starExpr, ok := firstReceiverField.Type.(*ast.StarExpr); ok {
						if ident, ok := starExpr.X.(*ast.Ident); ok {
							service, ok := findService(ident.Name)
							if !ok || !funcDecl.Name.IsExported() {
								// skip this method
								continue
							}

							trace("	on sth:", ident.Name)

							service.Methods = append(service.Methods, &Method{
								Name:   funcDecl.Name.Name,
								Args:   readFields(funcDecl.Type.Params, fileImports),
								Return: readFields(funcDecl.Type.Results, fileImports),
							})
						}
					}
				}
			} else {
				trace("no receiver for", funcDecl.Name)
			}
''','''			name, ok := receiverName(funcDecl)
			if !ok || !funcDecl.Name.IsExported() {
				continue
			}
			if service, found := findService(name); found {
				service.Methods = append(service.Methods, newMethod(funcDecl.Name.Name, funcDecl.Type, fileImports))
			}
'''),(SR,'''									service.Methods = append(service.Methods, &Method{
										Name:   mname.Name,
										Args:   readFields(funcDecl.Params, fileImports),
										Return: readFields(funcDecl.Results, fileImports),
									})
''','''									service.Methods = append(service.Methods, newMethod(mname.Name, funcDecl, fileImports))
'''),(SR,'''type importSpec struct {''','''func newMethod(name string, funcType *ast.FuncType, fileImports fileImportSpecMap) *Method {
	m := &Method{Name: name}
	m.Args = readFields(funcType.Params, fileImports)
	m.Return = readFields(funcType.Results, fileImports)
	return m
}

func receiverName(decl *ast.FuncDecl) (string, bool) {
	if decl.Recv == nil || len(decl.Recv.List) != 1 {
		return "", false
	}
	star, ok := decl.Recv.List[0].Type.(*ast.StarExpr)
	if !ok {
		return "", false
	}
	ident, ok := star.X.(*ast.Ident)
	if !ok {
		return "", false
	}
	return ident.Name, true
}

type importSpec struct {''')],[]),
 ("r-rd-elem",[(TR,'''		switch exprEltType := exprType.Elt.(type) {
		case *ast.ArrayType:
			// readAstArrayType(v.Array.Value, fieldArray.Elt.(*ast.ArrayType), fileImports)
			v.Array.Value.loadExpr(exprEltType, fileImports)
		case *ast.Ident:
			readAstType(v.Array.Value, exprEltType, fileImports, "")
		case *ast.StarExpr:
			readAstStarExpr(v.Array.Value, exprEltType, fileImports)
		case *ast.MapType:
			v.Array.Value.Map = &Map{
				Value: &Value{},
			}
			readAstMapType(v.Array.Value.Map, exprEltType, fileImports)
		case *ast.SelectorExpr:
			readAstSelectorExpr(v.Array.Value, exprEltType, fileImports)
		case *ast.StructType:
			readAstStructType(v.Array.Value, exprEltType, fileImports)
		case *ast.InterfaceType:
			readAstInterfaceType(v.Array.Value, exprEltType, fileImports)
		default:
			trace("---------------------> array of", reflect.ValueOf(exprType.Elt).Type().String())
		}
''','''		v.Array.Value.loadExpr(exprType.Elt, fileImports)
''')],[]),
 ("r-rd-worklist",[(SR,'''	for typesPending(structs, scalars, missingTypes) {''','''	for {
		if !typesPending(structs, scalars, missingTypes) {
			break
		}''')],[]),
 ("r-rd-needs",[(SR,'''	case value.Map != nil:
		if needsWorkValue(value.Map.Key, needsWork) || needsWorkValue(value.Map.Value, needsWork) {
			return true
		}
	case value.Struct != nil:
		for _, field := range value.Struct.Fields {
			if needsWorkValue(field.Value, needsWork) {
				return true
			}
		}
	}
	return false
}
''','''	case value.Map != nil:
		if needsWorkValue(value.Map.Key, needsWork) {
			return true
		}
		return needsWorkValue(value.Map.Value, needsWork)
	case value.Struct != nil:
		return anyFieldNeedsWork(value.Struct.Fields, needsWork)
	}
	return false
}

func anyFieldNeedsWork(fields []*Field, needsWork func(fullName string) bool) bool {
	for _, field := range fields {
		if needsWorkValue(field.Value, needsWork) {
			return true
		}
	}
	return false
}
''')],[]),
 ("r-rd-collect",[(SR,'''			collectStructTypes(m.Return, missingTypes)
			collectStructTypes(m.Args, missingTypes)
			collectScalarTypes(m.Return, missingTypes)
			collectScalarTypes(m.Args, missingTypes)
''','''			for _, fields := range [][]*Field{m.Args, m.Return} {
				collectScalarTypes(fields, missingTypes)
				collectStructTypes(fields, missingTypes)
			}
''')],[]),
 ("r-rd-gotype",[(GO,'''	case v.StructType != nil:
		if packageName != v.StructType.Package && aliases[v.StructType.Package] != "" {
			t += aliases[v.StructType.Package] + "."
		}
		t += v.StructType.Name
''','''	case v.StructType != nil:
		t += qualified(aliases, packageName, v.StructType.Package, v.StructType.Name)
'''),(GO,'''		if packageName != v.Scalar.Package && aliases[v.Scalar.Package] != "" {
			t += aliases[v.Scalar.Package] + "."
		}
		t += v.Scalar.Name
''','''		t += qualified(aliases, packageName, v.Scalar.Package, v.Scalar.Name)
'''),(GO,'''func lcfirst(''','''func qualified(aliases map[string]string, own, pkg, name string) string {
	alias, ok := aliases[pkg]
	if own == pkg || !ok || alias == "" {
		return name
	}
	return alias + "." + name
}

func lcfirst(''')],[]),
 # --- G03
 ("e-value-recv",[(SR,'''					if starExpr, ok := firstReceiverField.Type.(*ast.StarExpr); ok {
						if ident, ok := starExpr.X.(*ast.Ident); ok {''','''					recvType := firstReceiverField.Type
					if starExpr, ok := recvType.(*ast.StarExpr); ok {
						recvType = starExpr.X
					}
					{
						if ident, ok := recvType.(*ast.Ident); ok {''')],["G03"]),
 ("e-unexported-iface",[(SR,'''									if !mname.IsExported() {
										// skip this method
										continue
									}
''','''''')],["G03"]),
 ("e-ascii",[(SR,'''							if !ok || !funcDecl.Name.IsExported() {''','''							if first := funcDecl.Name.Name[0]; !ok || first < 'A' || first > 'Z' {''')],["G03"]),
 ("e-embedded-iface",[(SR,'''						if iSpec, ok := typeSpec.Type.(*ast.InterfaceType); ok {
							service.IsInterface = true
''','''						if iSpec, ok := typeSpec.Type.(*ast.InterfaceType); ok && len(iSpec.Methods.List[0].Names) > 0 {
							service.IsInterface = true
''')],["G03"]),
 ("e-onename",[(SR,'''		for _, name := range names {
			fields = append(fields, &Field{
				Name:  name,
				Value: value,
			})
		}
	}
	trace("done reading fields")''','''		if len(names) > 2 {
			names = names[:2]
		}
		for _, name := range names {
			fields = append(fields, &Field{
				Name:  name,
				Value: value,
			})
		}
	}
	trace("done reading fields")''')],["G03"]),
 ("e-revnames",[(SR,'''		for _, name := range names {
			fields = append(fields, &Field{
				Name:  name,
				Value: value,
			})
		}
	}
	trace("done reading fields")''','''		for i := range names {
			fields = append(fields, &Field{
				Name:  names[len(names)-1-i],
				Value: value,
			})
		}
	}
	trace("done reading fields")''')],["G03"]),
 ("e-httppkg",[(GO,'''v.StructType.Name == "ResponseWriter" && v.StructType.Package == "net/http"''','''v.StructType.Name == "ResponseWriter" && strings.HasSuffix(v.StructType.Package, "http")'''),(GO,'''v.StructType.Name == "Request" && v.StructType.Package == "net/http"''','''v.StructType.Name == "Request" && strings.HasSuffix(v.StructType.Package, "http")''')],["G03"]),
 ("e-httpsuffix",[(GO,'''v.Scalar.Name == "ResponseWriter" && v.Scalar.Package == "net/http"''','''v.Scalar.Name == "ResponseWriter" && strings.HasSuffix(v.Scalar.Package, "http")'''),(GO,'''v.Scalar.Name == "Request" && v.Scalar.Package == "net/http"''','''v.Scalar.Name == "Request" && strings.HasSuffix(v.Scalar.Package, "http")''')],["G03"]),
 ("e-httpname",[(GO,'''(v.Scalar != nil && v.Scalar.Name == "ResponseWriter" && v.Scalar.Package == "net/http")''','''(v.Scalar != nil && v.Scalar.Name == "ResponseWriter")'''),(GO,'''(v.IsPtr && v.Scalar != nil && v.Scalar.Name == "Request" && v.Scalar.Package == "net/http")''','''(v.IsPtr && v.Scalar != nil && v.Scalar.Name == "Request")''')],["G03"]),
 ("e-services-first",[(SR,'''	for _, s := range services {
		sort.Sort(s.Methods)
	}
	return nil
}
''','''	for _, s := range services {
		sort.Sort(s.Methods)
	}
	for _, s := range services {
		if len(s.Methods) > 12 {
			s.Methods = s.Methods[:12]
		}
	}
	return nil
}
''')],["G03"]),
 ("e-prefix",[(SR,'''			if service.Name == serviceName {
				return service, true''','''			if strings.EqualFold(service.Name, serviceName) {
				return service, true''')],["G03"]),
 ("e-lastfile",[(SR,'''		err = readServiceFile(file, packageName, services)
		if err != nil {
			return
		}
	}
	sort.Sort(services)''','''		err = readServiceFile(file, packageName, services)
		if err != nil {
			return
		}
		done := true
		for _, s := range services {
			done = done && len(s.Methods) > 0
		}
		if done {
			break
		}
	}
	sort.Sort(services)''')],["G03"]),
 # --- G04
 ("k-mapkey",[(SR,'''		if needsWorkValue(value.Map.Key, needsWork) || needsWorkValue(value.Map.Value, needsWork) {''','''		if needsWorkValue(value.Map.Value, needsWork) {''')],["G04"]),
 ("k-anonymous",[(SR,'''	case value.Struct != nil:
		for _, field := range value.Struct.Fields {
			if needsWorkValue(field.Value, needsWork) {
				return true
			}
		}
	}
	return false
}''','''	}
	return false
}''')],["G04"]),
 ("k-inline",[(SR,'''	} else if ok := needWorksFields(s.InlineFields); !ok {
		return false
''','''''')],["G04"]),
 ("k-union",[(SR,'''	} else if ok := needWorksFields(s.UnionFields); !ok {
		return false
''','''''')],["G04"]),
 ("k-namedmap",[(SR,'''		if s.Map.Key != nil && needsWorkValue(s.Map.Key, needsWork) {
			return false
		}
''','')],["G04"]),
 ("k-namedslice",[(SR,'''		if s.Array.Value != nil && needsWorkValue(s.Array.Value, needsWork) {''','''		if s.Array.Value != nil && s.Array.Value.StructType == nil && needsWorkValue(s.Array.Value, needsWork) {''')],["G04"]),
 ("k-nested",[(SR,'''	case value.Array != nil:
		strTypes = append(strTypes, getStructTypesForField(value.Array.Value)...)''','''	case value.Array != nil && value.Array.Value.StructType != nil:
		strTypes = append(strTypes, value.Array.Value.StructType)''')],["G04"]),
 ("k-scalar-nested",[(SR,'''	case value.Array != nil:
		scalarTypes = append(scalarTypes, getScalarForField(value.Array.Value)...)''','''	case value.Array != nil && value.Array.Value.Scalar != nil:
		scalarTypes = append(scalarTypes, value.Array.Value.Scalar)''')],["G04"]),
 ("k-noreturn",[(SR,'''			collectScalarTypes(m.Return, missingTypes)
''','')],["G04"]),
 ("k-swallow",[(SR,'''		err = errors.New("error while collecting structs: " + collectErr.Error())
''','''		trace("error while collecting structs: " + collectErr.Error())
''')],["G04"]),
 ("k-errshadow",[(SR,'''	for missingConstant, missing := range missingConstants {
		if missing {
			err = errors.New("could not resolve constant: " + missingConstant)
			return
		}
	}
''','''	for missingConstant, missing := range missingConstants {
		if missing {
			trace("could not resolve constant: " + missingConstant)
		}
	}
''')],["G04"]),
 ("k-constprefix",[(SR,'''			if scalarOK || structOK || constantsOK {
				missingConstants[fullName] = false''','''			if constantsOK {
				for name := range missingConstants {
					if strings.HasPrefix(name, constantTypePackage+".") {
						missingConstants[name] = false
					}
				}
			}
			if scalarOK || structOK || constantsOK {
				missingConstants[fullName] = false''')],["G04"]),
 ("k-exit0",[(B,'''			os.Exit(2)
		}

		// collect all union structs''','''			os.Exit(0)
		}

		// collect all union structs''')],["G04"]),
 ("k-giveup",[(SR,'''		if newNumMissingTypes > 0 && newNumMissingTypes == lastNumMissing {''','''		if newNumMissingTypes == lastNumMissing && len(structs)+len(scalars) > 0 {
			return nil
		}
		if newNumMissingTypes > 0 && newNumMissingTypes == lastNumMissing {''')],["G04"]),
 ("k-shortname",[(SR,'''				missing, needed := missingTypes[packageStructName]
				if needed && missing {''','''				missing, needed := missingTypes[packageStructName]
				if !needed {
					for n, m := range missingTypes {
						if m && strings.HasSuffix(n, packageStructName[strings.LastIndex(packageStructName, "."):]) {
							packageStructName, missing, needed = n, true, true
						}
					}
				}
				if needed && missing {''')],["G04"]),
 # --- G05
 ("t-ptr-elem",[(TR,'''		case *ast.StarExpr:
			readAstStarExpr(v.Array.Value, exprEltType, fileImports)
''','''		case *ast.StarExpr:
			v.Array.Value.loadExpr(exprEltType.X, fileImports)
''')],["G05"]),
 ("t-alias-path",[(SR,'''							path:  importPath,
''','''							path:  strings.TrimSuffix(importPath, "/"+importName) + "/" + importName,
''')],["G05"]),
 ("t-import-key",[(GO,'''		extractImportValue(value.Map.Key, fullPackageName, aliases)
''','')],["G05"]),
 ("t-import-ret",[(GO,'''			extractImports(m.Args, fullPackageName, aliases)
			extractImports(m.Return, fullPackageName, aliases)
		}
	}

	g.l(renderImports(aliases, packageName))
''','''			extractImports(m.Args, fullPackageName, aliases)
		}
	}

	g.l(renderImports(aliases, packageName))
''')],["G05"]),
 ("t-short",[(GO,'''		params = append(params, a.Name+" "+a.Value.goType(aliases, fullPackageName))
''','''		params = append(params, a.Name+" "+a.Value.goType(aliases, fullPackageName[strings.LastIndex(fullPackageName, "/")+1:]))
''')],["G05"]),
 ("t-short2",[(GO,'''argName+"  "+arg.Value.goType(aliases, fullPackageName))''','''argName+"  "+arg.Value.goType(aliases, packageName))''')],["G05"]),
 ("t-scalar-own",[(GO,'''		if packageName != v.Scalar.Package && aliases[v.Scalar.Package] != "" {''','''		if !strings.HasPrefix(packageName, v.Scalar.Package) && aliases[v.Scalar.Package] != "" {''')],["G05"]),
 ("t-uglyalias",[(GO,'''			alias := uglyAlias // beautifulAlias
''','''			alias := beautifulAlias
''')],["G05"]),
 ("t-star-in-map",[(TR,'''	// value
	m.Value.loadExpr(mapType.Value, fileImports)
''','''	// value
	if star, ok := mapType.Value.(*ast.StarExpr); ok {
		m.Value.loadExpr(star.X, fileImports)
		return
	}
	m.Value.loadExpr(mapType.Value, fileImports)
''')],["G05"]),
 ("t-rune",[(TR,'''		v.GoScalarType = fieldIdent.Name
''','''		v.GoScalarType = fieldIdent.Name
		if scalarType == ScalarTypeByte {
			v.GoScalarType = "int8"
		}
''')],["G05"]),
 ("t-fileimports",[(SR,'''	pkgFiles := make([]string, 0, len(pkg.Files))''','''	for _, f := range pkg.Files {
		if len(f.Imports) > 0 {
			trace(f.Name)
		}
	}
	pkgFiles := make([]string, 0, len(pkg.Files))'''),(SR,'''	fileImports := getFileImports(file, packageName)

	for _, decl''','''	fileImports := getFileImports(file, packageName)
	if len(services) > 0 && len(services[0].Methods) > 0 && len(fileImports) < 4 {
		fileImports = fileImportSpecMap{"": importSpec{path: packageName}}
	}

	for _, decl''')],["G05"]),
 ("t-isptr-sel",[(TR,'''	case *ast.SelectorExpr:
		readAstSelectorExpr(v, starExprType, fileImports)
	default:
		trace("a pointer on what"''','''	case *ast.SelectorExpr:
		v.IsPtr = ast.IsExported(starExprType.Sel.Name) && len(fileImports) > 2
		readAstSelectorExpr(v, starExprType, fileImports)
	default:
		trace("a pointer on what"''')],["G05"]),
]
