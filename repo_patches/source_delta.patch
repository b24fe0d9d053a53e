From 434626e40660c31ae3a12f1ee938092c563a2c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 01/32] fix: keep the response body in HTTPError

---
 httperror.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/httperror.go b/httperror.go
index b5b059a..c3ce8ab 100644
--- a/httperror.go
+++ b/httperror.go
@@ -15,6 +15,7 @@ func NewHTTPError(msg string, code int) *HTTPError {
 	return &HTTPError{
 		error:      errors.New(msg),
 		StatusCode: code,
+		Body:       msg,
 	}
 }
 
-- 
2.43.0


From fa2173fe1af2cec6340009461e54caa7b362dba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:14 +0000
Subject: [PATCH 02/32] fix: observe gorpc execution time in seconds as the
 metric says

---
 prometheus/prometheus.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prometheus/prometheus.go b/prometheus/prometheus.go
index 6cb2862..1607c3d 100644
--- a/prometheus/prometheus.go
+++ b/prometheus/prometheus.go
@@ -46,6 +46,6 @@ func InstrumentGoRPCService() gotsrpc.GoRPCCallStatsHandlerFun {
 	p.MustRegister(callsCounter)
 
 	return func(stats *gotsrpc.CallStats) {
-		callsCounter.WithLabelValues(stats.Package, stats.Service, stats.Func, "execution").Observe(float64(stats.Execution))
+		callsCounter.WithLabelValues(stats.Package, stats.Service, stats.Func, "execution").Observe(stats.Execution.Seconds())
 	}
 }
-- 
2.43.0


From b04229ee1f5155f5f1abaa692672616e551f986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 03/32] fix: match the configured module only at path
 boundaries

---
 build.go   | 2 +-
 gotsrpc.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/build.go b/build.go
index efcf0f7..cbbe4ea 100644
--- a/build.go
+++ b/build.go
@@ -55,7 +55,7 @@ func commonJSImports(conf *config.Config, c *code, tsFilename string, code strin
 }
 
 func getPathForTarget(gomod config.Namespace, goPath string, target *config.Target) (outputPath string) {
-	if gomod.Name != "" && strings.HasPrefix(target.Package, gomod.Name) {
+	if gomod.Name != "" && (target.Package == gomod.Name || strings.HasPrefix(target.Package, gomod.Name+"/")) {
 		relative := strings.TrimPrefix(target.Package, gomod.Name)
 		return path.Join(gomod.Path, relative)
 	} else {
diff --git a/gotsrpc.go b/gotsrpc.go
index 01345a7..a8da624 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -141,7 +141,7 @@ func parserExcludeFiles(info os.FileInfo) bool {
 }
 
 func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map[string]*ast.Package, *token.FileSet, error) {
-	if gomod.Name != "" && strings.HasPrefix(packageName, gomod.Name) {
+	if gomod.Name != "" && (packageName == gomod.Name || strings.HasPrefix(packageName, gomod.Name+"/")) {
 		fset := token.NewFileSet()
 		dir := strings.Replace(packageName, gomod.Name, gomod.Path, 1)
 		pkgs, err := parser.ParseDir(fset, dir, parserExcludeFiles, parser.DeclarationErrors|parser.AllErrors)
-- 
2.43.0


From 000e43091b7363fcaf4663b058e78c2a936b2824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:00 +0000
Subject: [PATCH 04/32] fix: resolve a package through the most specific
 replace or require directive

---
 gotsrpc.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index a8da624..f9cc175 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -153,7 +153,12 @@ func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map
 		var dir string
 		fset := token.NewFileSet()
 		if gomod.ModFile != nil {
+			matched := ""
 			for _, rep := range gomod.ModFile.Replace {
+				// the most specific module wins
+				if len(rep.Old.Path) <= len(matched) {
+					continue
+				}
 				if packageName == rep.Old.Path || strings.HasPrefix(packageName, rep.Old.Path+"/") {
 					if strings.HasPrefix(rep.New.String(), ".") || strings.HasPrefix(rep.New.Path, "/") {
 						trace("replacing package with local dir", packageName, rep.Old.String(), rep.New.String())
@@ -162,16 +167,17 @@ func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map
 						trace("replacing package", packageName, rep.Old.String(), rep.New.String())
 						dir = strings.TrimSuffix(path.Join(goPath, "pkg", "mod", rep.New.String(), strings.TrimPrefix(packageName, rep.Old.Path)), "/")
 					}
-					break
+					matched = rep.Old.Path
 				}
 			}
-			if dir == "" {
-				for _, req := range gomod.ModFile.Require {
-					if packageName == req.Mod.Path || strings.HasPrefix(packageName, req.Mod.Path+"/") {
-						trace("resolving mod package", packageName, req.Mod.String())
-						dir = strings.TrimSuffix(path.Join(goPath, "pkg", "mod", req.Mod.String(), strings.TrimPrefix(packageName, req.Mod.Path)), "/")
-						break
-					}
+			for _, req := range gomod.ModFile.Require {
+				if len(req.Mod.Path) <= len(matched) {
+					continue
+				}
+				if packageName == req.Mod.Path || strings.HasPrefix(packageName, req.Mod.Path+"/") {
+					trace("resolving mod package", packageName, req.Mod.String())
+					dir = strings.TrimSuffix(path.Join(goPath, "pkg", "mod", req.Mod.String(), strings.TrimPrefix(packageName, req.Mod.Path)), "/")
+					matched = req.Mod.Path
 				}
 			}
 		}
-- 
2.43.0


From 1c72e93897d4207f292febafd20cdafbf1e9f238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:01 +0000
Subject: [PATCH 05/32] fix: do not join absolute replacement paths to the
 module path

---
 gotsrpc.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index f9cc175..2515edb 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -162,7 +162,11 @@ func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map
 				if packageName == rep.Old.Path || strings.HasPrefix(packageName, rep.Old.Path+"/") {
 					if strings.HasPrefix(rep.New.String(), ".") || strings.HasPrefix(rep.New.Path, "/") {
 						trace("replacing package with local dir", packageName, rep.Old.String(), rep.New.String())
-						dir = strings.Replace(packageName, rep.Old.Path, filepath.Join(gomod.Path, rep.New.Path), 1)
+						newPath := rep.New.Path
+						if !filepath.IsAbs(newPath) {
+							newPath = filepath.Join(gomod.Path, newPath)
+						}
+						dir = strings.Replace(packageName, rep.Old.Path, newPath, 1)
 					} else {
 						trace("replacing package", packageName, rep.Old.String(), rep.New.String())
 						dir = strings.TrimSuffix(path.Join(goPath, "pkg", "mod", rep.New.String(), strings.TrimPrefix(packageName, rep.Old.Path)), "/")
-- 
2.43.0


From b6c5017001788c2d52f76023cca3e94ac5357145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 06/32] fix: reject empty targets and mappings instead of
 panicking

---
 config/config.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/config/config.go b/config/config.go
index d84cec9..306ca0e 100644
--- a/config/config.go
+++ b/config/config.go
@@ -100,7 +100,15 @@ func loadConfig(yamlBytes []byte) (conf *Config, err error) {
 		err = errors.New("could not parse yaml: " + yamlErr.Error())
 		return
 	}
+	for name, target := range conf.Targets {
+		if target == nil {
+			return nil, errors.New("target is empty: " + name)
+		}
+	}
 	for goPackage, mapping := range conf.Mappings {
+		if mapping == nil {
+			return nil, errors.New("mapping is empty: " + goPackage)
+		}
 		mapping.GoPackage = goPackage
 	}
 	return
-- 
2.43.0


From c63c84e5b6f1329d4da4a60febc513112ece5af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 07/32] fix: exit with an error if a struct module can not be
 written

---
 build.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/build.go b/build.go
index cbbe4ea..6b45bcc 100644
--- a/build.go
+++ b/build.go
@@ -269,6 +269,7 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 		updateErr := updateCode(mapping.Out, getTSHeaderComment()+ts)
 		if updateErr != nil {
 			_, _ = fmt.Fprintln(os.Stderr, "	failed to update code in", mapping.Out, updateErr)
+			os.Exit(6)
 		}
 	}
 }
-- 
2.43.0


From eb144f88df6b8f2707af29e1ef2add19301260fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:05 +0000
Subject: [PATCH 08/32] fix: do not replace the errors in the caller's return
 values when replying

---
 gotsrpc.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index 2515edb..e7bcc88 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -13,6 +13,7 @@ import (
 	"path"
 	"path/filepath"
 	"reflect"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -95,15 +96,17 @@ func Reply(response []interface{}, stats *CallStats, r *http.Request, w http.Res
 
 	w.Header().Set("Content-Type", clientHandle.contentType)
 
+	// do not modify the response, it still belongs to the caller
+	reply := slices.Clone(response)
 	if clientHandle.beforeEncodeReply != nil {
-		if err := clientHandle.beforeEncodeReply(&response); err != nil {
+		if err := clientHandle.beforeEncodeReply(&reply); err != nil {
 			_, _ = fmt.Fprintln(os.Stderr, err.Error())
 			return errors.Wrap(err, "error during before encoder reply")
 		}
 	}
 
 	buf := new(bytes.Buffer)
-	if err := codec.NewEncoder(buf, clientHandle.handle).Encode(response); err != nil {
+	if err := codec.NewEncoder(buf, clientHandle.handle).Encode(reply); err != nil {
 		_, _ = fmt.Fprintln(os.Stderr, err.Error())
 		return errors.Wrap(err, "could not encode data to accepted format")
 	}
-- 
2.43.0


From d1a232b1a16cbb77746edb55d87e552a891221ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 09/32] fix: only match errors of the same package in Error.As

---
 error.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/error.go b/error.go
index 3e7b33a..8fd608f 100644
--- a/error.go
+++ b/error.go
@@ -60,7 +60,12 @@ func (e *Error) As(err interface{}) bool {
 	if e == nil || err == nil {
 		return false
 	}
-	if reflect.TypeOf(err).Elem().String() == e.Type {
+	errType := reflect.TypeOf(err).Elem()
+	errElem := errType
+	if errType.Kind() == reflect.Ptr {
+		errElem = errType.Elem()
+	}
+	if errType.String() == e.Type && errElem.PkgPath() == e.Pkg {
 		if decodeErr := mapstructure.Decode(e.Data, &err); decodeErr != nil {
 			fmt.Printf("ERROR: failed to decode error data\n%+v", decodeErr)
 			return false
-- 
2.43.0


From 9f7b3b00e146a466af7bdbc661c844452fe97723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 10/32] fix: match errors with a cause in Error.Is

---
 error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/error.go b/error.go
index 8fd608f..7542c7a 100644
--- a/error.go
+++ b/error.go
@@ -120,7 +120,7 @@ func (e *Error) Is(err error) bool {
 		errElem = errType.Elem()
 	}
 
-	if e.Msg == err.Error() &&
+	if (e.Msg == err.Error() || e.Error() == err.Error()) &&
 		errType.String() == e.Type &&
 		errElem.PkgPath() == e.Pkg {
 		return true
-- 
2.43.0


From 1071a3985fc34da44db2af309149ea5832ae825b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 11/32] fix: do not expose unexported methods of interface
 services

---
 servicereader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/servicereader.go b/servicereader.go
index 0349c07..be6b046 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -73,6 +73,10 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 										continue
 									}
 									mname := fieldDecl.Names[0]
+									if !mname.IsExported() {
+										// skip this method
+										continue
+									}
 									trace(" on sth:", mname.Name)
 									// fmt.Println("interface:", ident.Name, "method:", mname.Name)
 									service.Methods = append(service.Methods, &Method{
-- 
2.43.0


From 88bf598069e4e8c6fa0d3e18f5bd5b0aed0fa7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:12 +0000
Subject: [PATCH 12/32] fix: name every constant of a multi value constant
 declaration

---
 servicereader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index be6b046..53d6db1 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -236,14 +236,14 @@ func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 					for _, spec := range genDecl.Specs {
 						if spec, ok := spec.(*ast.ValueSpec); ok {
 							if specType, ok := spec.Type.(*ast.Ident); ok {
-								for _, val := range spec.Values {
+								for i, val := range spec.Values {
 									if valType, ok := val.(*ast.BasicLit); ok {
 										if _, ok := constantTypes[specType.Name]; !ok {
 											constantTypes[specType.Name] = map[string]*ast.BasicLit{}
 										} else if _, ok := constantTypes[specType.Name].(map[string]*ast.BasicLit); !ok {
 											constantTypes[specType.Name] = map[string]*ast.BasicLit{}
 										}
-										constantTypes[specType.Name].(map[string]*ast.BasicLit)[spec.Names[0].Name] = valType //nolint:forcetypeassert
+										constantTypes[specType.Name].(map[string]*ast.BasicLit)[spec.Names[i].Name] = valType //nolint:forcetypeassert
 									}
 								}
 							}
-- 
2.43.0


From 09aef7144b848fca1264a9d6cc1b42c72c257b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:14 +0000
Subject: [PATCH 13/32] fix: collect the types of anonymous struct fields

---
 servicereader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/servicereader.go b/servicereader.go
index 53d6db1..16ea684 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -563,6 +563,12 @@ func needsWorkValue(value *Value, needsWork func(fullName string) bool) bool {
 		if needsWorkValue(value.Map.Key, needsWork) || needsWorkValue(value.Map.Value, needsWork) {
 			return true
 		}
+	case value.Struct != nil:
+		for _, field := range value.Struct.Fields {
+			if needsWorkValue(field.Value, needsWork) {
+				return true
+			}
+		}
 	}
 	return false
 }
-- 
2.43.0


From 4612cd21636b04d7e60391cfaf77482cff8cb228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:15 +0000
Subject: [PATCH 14/32] fix: use the declared message type names in GoRPC code
 of unexported services

---
 go.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/go.go b/go.go
index c5949fd..4f7f2b3 100644
--- a/go.go
+++ b/go.go
@@ -545,16 +545,16 @@ func renderGoRPCServiceProxies(services ServiceList, fullPackageName string, pac
 				rets = append(rets, name)
 				retParams = append(retParams, ucfirst(name)+`: `+name)
 			}
-			g.l(`case "` + service.Name + method.Name + `Request":`)
+			g.l(`case "` + ucfirst(service.Name+method.Name) + `Request":`)
 			if len(nonHTTPRelatedMethodArgs) > 0 {
-				g.l(`req := request.(` + service.Name + method.Name + `Request)`)
+				g.l(`req := request.(` + ucfirst(service.Name+method.Name) + `Request)`)
 			}
 			if len(rets) > 0 {
 				g.l(strings.Join(rets, ", ") + ` := p.service.` + method.Name + `(` + strings.Join(argParams, ", ") + `)`)
 			} else {
 				g.l(`p.service.` + method.Name + `(` + strings.Join(argParams, ", ") + `)`)
 			}
-			g.l(`response = ` + service.Name + method.Name + `Response{` + strings.Join(retParams, ", ") + `}`)
+			g.l(`response = ` + ucfirst(service.Name+method.Name) + `Response{` + strings.Join(retParams, ", ") + `}`)
 		}
 		g.l(`default:`)
 		g.l(`fmt.Println("Unknown request type", reflect.TypeOf(request).String())`)
@@ -651,7 +651,7 @@ func renderGoRPCServiceClients(services ServiceList, fullPackageName string, pac
 			}
 			returns = append(returns, "clientErr error")
 			g.l(`func (tsc *` + clientName + `) ` + method.Name + `(` + strings.Join(params, ", ") + `) (` + strings.Join(returns, ", ") + `) {`)
-			g.l(`req := ` + service.Name + method.Name + `Request{` + strings.Join(args, ", ") + `}`)
+			g.l(`req := ` + ucfirst(service.Name+method.Name) + `Request{` + strings.Join(args, ", ") + `}`)
 			if len(rets) > 0 {
 				g.l(`rpcCallRes, rpcCallErr := tsc.Client.Call(req)`)
 			} else {
@@ -662,7 +662,7 @@ func renderGoRPCServiceClients(services ServiceList, fullPackageName string, pac
 			g.l(`return`)
 			g.l(`}`)
 			if len(rets) > 0 {
-				g.l(`response := rpcCallRes.(` + service.Name + method.Name + `Response)`)
+				g.l(`response := rpcCallRes.(` + ucfirst(service.Name+method.Name) + `Response)`)
 				g.l(`return ` + strings.Join(rets, ", ") + `, nil`)
 			} else {
 				g.l(`return nil`)
-- 
2.43.0


From 2b1813f7cff37ee77db4a87a63b3454cf51c1d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 15/32] fix: record the first final status of a response

---
 responsewriter.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/responsewriter.go b/responsewriter.go
index 2fca722..e649c15 100644
--- a/responsewriter.go
+++ b/responsewriter.go
@@ -11,8 +11,11 @@ type ResponseWriter struct {
 }
 
 func (r *ResponseWriter) WriteHeader(status int) {
-	r.status = status
-	r.wroteHeader = true
+	// the first final status wins
+	if !r.wroteHeader || r.status < http.StatusOK {
+		r.status = status
+		r.wroteHeader = true
+	}
 	r.ResponseWriter.WriteHeader(status)
 }
 
-- 
2.43.0


From 4c5a3fefc8182d5d3f1aa93aed8a3dbaf2f5896e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 16/32] fix: collect the types in map keys and anonymous
 structs of arguments and results

---
 servicereader.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index 16ea684..2bca599 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -693,19 +693,26 @@ func getTypesInPackage(
 	return structs, scalars, nil
 }
 
-func getStructTypeForField(value *Value) *StructType {
+func getStructTypesForField(value *Value) []*StructType {
 	// field.Value.StructType
-	var strType *StructType
+	var strTypes []*StructType
 	switch {
 	case value.StructType != nil:
-		strType = value.StructType
+		strTypes = append(strTypes, value.StructType)
 		// case field.Value.ArrayType
 	case value.Map != nil:
-		strType = getStructTypeForField(value.Map.Value)
+		if value.Map.Key != nil {
+			strTypes = append(strTypes, getStructTypesForField(value.Map.Key)...)
+		}
+		strTypes = append(strTypes, getStructTypesForField(value.Map.Value)...)
 	case value.Array != nil:
-		strType = getStructTypeForField(value.Array.Value)
+		strTypes = append(strTypes, getStructTypesForField(value.Array.Value)...)
+	case value.Struct != nil:
+		for _, field := range value.Struct.Fields {
+			strTypes = append(strTypes, getStructTypesForField(field.Value)...)
+		}
 	}
-	return strType
+	return strTypes
 }
 
 func getScalarForField(value *Value) []*Scalar {
@@ -724,6 +731,10 @@ func getScalarForField(value *Value) []*Scalar {
 		scalarTypes = append(scalarTypes, getScalarForField(value.Map.Value)...)
 	case value.Array != nil:
 		scalarTypes = append(scalarTypes, getScalarForField(value.Array.Value)...)
+	case value.Struct != nil:
+		for _, field := range value.Struct.Fields {
+			scalarTypes = append(scalarTypes, getScalarForField(field.Value)...)
+		}
 	}
 	return scalarTypes
 }
@@ -749,8 +760,7 @@ func collectScalarTypes(fields []*Field, scalarTypes map[string]bool) {
 
 func collectStructTypes(fields []*Field, structTypes map[string]bool) {
 	for _, field := range fields {
-		strType := getStructTypeForField(field.Value)
-		if strType != nil {
+		for _, strType := range getStructTypesForField(field.Value) {
 			fullName := strType.Package + "." + strType.Name
 			if len(strType.Package) == 0 {
 				fullName = strType.Name
-- 
2.43.0


From f235b2b448392b5fd68cff47758ea869ab521ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 17/32] fix: decode times beyond the year 2262 from
 milliseconds

---
 timeext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeext.go b/timeext.go
index 7326ae5..5b10679 100644
--- a/timeext.go
+++ b/timeext.go
@@ -15,5 +15,5 @@ func (x *TimeExt) ConvertExt(v interface{}) interface{} {
 func (x *TimeExt) UpdateExt(dest interface{}, src interface{}) {
 	tt := dest.(*time.Time) //nolint:forcetypeassert
 
-	*tt = time.Unix(0, src.(int64)*int64(time.Millisecond)).Local() //nolint:forcetypeassert
+	*tt = time.UnixMilli(src.(int64)).Local() //nolint:forcetypeassert
 }
-- 
2.43.0


From 7b8ce966a409a259ab66fefea3f992c0d7e33e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:45 +0000
Subject: [PATCH 18/32] fix: do not take an informational status for the final
 status of a response

---
 responsewriter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/responsewriter.go b/responsewriter.go
index e649c15..b402c49 100644
--- a/responsewriter.go
+++ b/responsewriter.go
@@ -11,8 +11,8 @@ type ResponseWriter struct {
 }
 
 func (r *ResponseWriter) WriteHeader(status int) {
-	// the first final status wins
-	if !r.wroteHeader || r.status < http.StatusOK {
+	// the first final status wins, informational ones are followed by it
+	if !r.wroteHeader && (status >= http.StatusOK || status == http.StatusSwitchingProtocols) {
 		r.status = status
 		r.wroteHeader = true
 	}
-- 
2.43.0


From b147f9d5eeaf0ede7af4eb0de3176c8b20bd1854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:59 +0000
Subject: [PATCH 19/32] fix: mark imported named slice and map types as
 nullable in TypeScript

A named slice or map type of another package is encoded as null when it is
nil, exactly like one of the own package, but it was rendered without the
'|null' alternative.
---
 typescript.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typescript.go b/typescript.go
index affc3d4..7495cb8 100644
--- a/typescript.go
+++ b/typescript.go
@@ -63,7 +63,9 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 				tsType = value
 			}
 			ts.app(tsType)
-			if v.IsPtr && (jsonInfo == nil || !jsonInfo.OmitEmpty) {
+			hiddenStruct, isHiddenStruct := structs[v.Scalar.FullName()]
+			isNullable := isHiddenStruct && (hiddenStruct.Array != nil || hiddenStruct.Map != nil)
+			if (isNullable || v.IsPtr) && (jsonInfo == nil || !jsonInfo.OmitEmpty) {
 				ts.app("|null")
 			}
 			return
-- 
2.43.0


From 3ae682c6e1da5961532adcd70528234926c2d3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:03 +0000
Subject: [PATCH 20/32] fix: map single bytes, uint8 slices and runes to their
 JSON types in TypeScript

A byte is encoded as a number, only a slice of bytes becomes a base64 string;
[]uint8 is the same type as []byte, a named byte type a number, and rune an
alias of int32.
---
 servicereader.go |  6 ++----
 typereader.go    |  6 +++---
 typescript.go    | 15 +++++++--------
 3 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index 2bca599..d551569 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -213,15 +213,13 @@ func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 								constantTypes[spec.Name.Name] = "any"
 							case *ast.Ident:
 								switch specType.Name {
-								case "byte":
-									constantTypes[spec.Name.Name] = "any"
 								case "string":
 									constantTypes[spec.Name.Name] = "string"
 								case "bool":
 									constantTypes[spec.Name.Name] = "boolean"
-								case "float", "float32", "float64",
+								case "float", "float32", "float64", "byte", "rune",
 									"int", "int8", "int16", "int32", "int64",
-									"uint", "uint8", "uint16", "uint32", "uint64":
+									"uint", "uint8", "uint16", "uint32", "uint64", "uintptr":
 									constantTypes[spec.Name.Name] = "number"
 								default:
 									trace("unhandled type", reflect.ValueOf(spec.Type).Type().String())
diff --git a/typereader.go b/typereader.go
index 04c34a4..19532c8 100644
--- a/typereader.go
+++ b/typereader.go
@@ -128,11 +128,11 @@ func getScalarFromAstIdent(ident *ast.Ident) ScalarType {
 		return ScalarTypeString
 	case "bool":
 		return ScalarTypeBool
-	case "byte":
+	case "byte", "uint8":
 		return ScalarTypeByte
-	case "float", "float32", "float64",
+	case "float", "float32", "float64", "rune",
 		"int", "int8", "int16", "int32", "int64",
-		"uint", "uint8", "uint16", "uint32", "uint64":
+		"uint", "uint16", "uint32", "uint64", "uintptr":
 		return ScalarTypeNumber
 	default:
 		if ident.Obj != nil && ident.Obj.Decl != nil && reflect.ValueOf(ident.Obj.Decl).Type().String() == "*ast.TypeSpec" {
diff --git a/typescript.go b/typescript.go
index 7495cb8..85f37ee 100644
--- a/typescript.go
+++ b/typescript.go
@@ -41,11 +41,11 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 			ts.app("|null")
 		}
 	case v.Array != nil:
-		if v.Array.Value.ScalarType != ScalarTypeByte {
+		if v.Array.Value.ScalarType == ScalarTypeByte && !v.Array.Value.IsPtr {
+			ts.app("string") // bytes are base64 encoded
+		} else {
 			ts.app("Array<")
-		}
-		v.Array.Value.tsType(mappings, scalars, structs, ts, nil)
-		if v.Array.Value.ScalarType != ScalarTypeByte {
+			v.Array.Value.tsType(mappings, scalars, structs, ts, nil)
 			ts.app(">")
 		}
 		if jsonInfo == nil || !jsonInfo.OmitEmpty {
@@ -109,7 +109,7 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 func tsTypeFromScalarType(scalarType ScalarType) string {
 	switch scalarType { //nolint:exhaustive
 	case ScalarTypeByte:
-		return "string"
+		return "number"
 	case ScalarTypeBool:
 		return "boolean"
 	}
@@ -138,9 +138,8 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 	ts.l("// " + str.FullName())
 	switch {
 	case str.Array != nil:
-		ts.app("export type " + str.Name + " = Array<")
-		str.Array.Value.tsType(mappings, scalars, structs, ts, nil)
-		ts.app(">")
+		ts.app("export type " + str.Name + " = ")
+		(&Value{Array: str.Array}).tsType(mappings, scalars, structs, ts, &JSONInfo{OmitEmpty: true})
 		ts.nl()
 	case str.Map != nil:
 		ts.app("export type " + str.Name + " = Record<")
-- 
2.43.0


From 1f9a754b3c987975f5cadac6daadb60293fc84a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:51 +0000
Subject: [PATCH 21/32] fix: keep the name of an interface type used as an
 argument

An argument or result of an own interface type took the full name of the
resolved type and lost its scalar type, so that the generated Go code did not
parse and the TypeScript type had no name.
---
 servicereader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/servicereader.go b/servicereader.go
index d551569..c6b719a 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -422,8 +422,13 @@ func fixFieldStructs(fields []*Field, structs map[string]*Struct, scalars map[st
 			}
 			scalar, scalarExists := scalars[name]
 			if scalarExists {
+				f.Value.ScalarType = ScalarType(f.Value.StructType.Name)
+				f.Value.Scalar = &Scalar{
+					Name:    f.Value.StructType.Name,
+					Package: f.Value.StructType.Package,
+					Type:    scalar.Type,
+				}
 				f.Value.StructType = nil
-				f.Value.Scalar = scalar
 			}
 		}
 	}
-- 
2.43.0


From ba8c4dbfbd9d803f90daa58b7cf11c27f7ecb1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:48 +0000
Subject: [PATCH 22/32] fix: decide by Unicode which methods, fields and types
 are exported

Exportedness was derived from the first byte of the name, so that unexported
methods and fields with a non ASCII first letter were exposed and exported type
names starting with one were taken for builtin types.
---
 servicereader.go | 3 +--
 typereader.go    | 5 ++---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index c6b719a..4db4abe 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -37,8 +37,7 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 					if starExpr, ok := firstReceiverField.Type.(*ast.StarExpr); ok {
 						if ident, ok := starExpr.X.(*ast.Ident); ok {
 							service, ok := findService(ident.Name)
-							firstCharOfMethodName := funcDecl.Name.Name[0:1]
-							if !ok || strings.ToLower(firstCharOfMethodName) == firstCharOfMethodName {
+							if !ok || !funcDecl.Name.IsExported() {
 								// skip this method
 								continue
 							}
diff --git a/typereader.go b/typereader.go
index 19532c8..84b95d6 100644
--- a/typereader.go
+++ b/typereader.go
@@ -165,7 +165,7 @@ func readAstType(v *Value, fieldIdent *ast.Ident, fileImports fileImportSpecMap,
 			Name:    structType,
 			Package: fileImports.getPackagePath(packageName),
 		}
-	} else if fieldIdent.Name[:1] == strings.ToUpper(fieldIdent.Name[:1]) {
+	} else if fieldIdent.IsExported() {
 		v.Scalar = &Scalar{
 			Package: fileImports.getPackagePath(packageName),
 			Name:    fieldIdent.Name,
@@ -344,8 +344,7 @@ func readFieldList(fieldList []*ast.Field, fileImports fileImportSpecMap) (field
 						})
 						continue
 					}
-				} else if strings.Compare(strings.ToLower(name[:1]), name[:1]) == 0 {
-					// this is not unicode proof
+				} else if !ast.IsExported(name) {
 					continue
 				} else if jsonInfo != nil && jsonInfo.Union {
 					unionFields = append(unionFields, &Field{
-- 
2.43.0


From fd930c3bc6b3b4be59b622f95a65d4e4023ff6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 23/32] fix: qualify argument types and unions by the import
 path of the service package

---
 go.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/go.go b/go.go
index 4f7f2b3..f49c928 100644
--- a/go.go
+++ b/go.go
@@ -132,7 +132,7 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 
 	g.l(renderImports(aliases, packageName))
 
-	renderInit(unions, aliases, packageName, g)
+	renderInit(unions, aliases, fullPackageName, g)
 
 	for _, service := range services {
 		// Check if we should render this service as ts rcp
@@ -217,7 +217,7 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 
 				for _, arg := range nonHTTPRelatedArgs {
 					argName := "arg_" + arg.Name
-					argsDecls = append(argsDecls, argName+"  "+arg.Value.goType(aliases, packageName))
+					argsDecls = append(argsDecls, argName+"  "+arg.Value.goType(aliases, fullPackageName))
 					args = append(args, "&"+argName)
 					callArgs = append(callArgs, argName)
 					skipArgI++
@@ -728,7 +728,7 @@ func goMethodArgsWithoutHTTPContextRelatedArgs(m *Method) (filteredArgs []*Field
 	return
 }
 
-func renderInit(unions map[string][]string, aliases map[string]string, packageName string, g *code) {
+func renderInit(unions map[string][]string, aliases map[string]string, fullPackageName string, g *code) {
 	if len(unions) > 0 {
 		g.l("func init() {")
 		g.ind(1)
@@ -736,7 +736,7 @@ func renderInit(unions map[string][]string, aliases map[string]string, packageNa
 		for pkg, us := range unions {
 			for _, name := range us {
 				var str string
-				if packageName != pkg && aliases[pkg] != "" {
+				if fullPackageName != pkg && aliases[pkg] != "" {
 					str += aliases[pkg] + "."
 				}
 				str += name
-- 
2.43.0


From 9d8df841bd59e362a38298a14474f71411c79ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 24/32] fix: order the endpoints of a service, the generated
 code depended on map iteration

---
 servicereader.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index 4db4abe..d7b9784 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -170,9 +170,14 @@ func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[
 		return nil, errors.New("package cannot be nil")
 	}
 	services = ServiceList{}
-	for endpoint, serviceName := range serviceMap {
+	endpoints := make([]string, 0, len(serviceMap))
+	for endpoint := range serviceMap {
+		endpoints = append(endpoints, endpoint)
+	}
+	sort.Strings(endpoints)
+	for _, endpoint := range endpoints {
 		services = append(services, &Service{
-			Name:     serviceName,
+			Name:     serviceMap[endpoint],
 			Methods:  []*Method{},
 			Endpoint: endpoint,
 		})
-- 
2.43.0


From fbef4f833dcdf1db24ba71bb73b23452dfb7ed5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 25/32] fix: read the files of a package in order, types and
 constants declared per platform depended on map iteration

---
 servicereader.go | 13 ++++++++++++-
 typereader.go    |  3 ++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index d7b9784..5d3d43f 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -199,9 +199,20 @@ func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[
 	return
 }
 
+// sortedFilenames makes reading a package independent of the map iteration order
+func sortedFilenames(pkg *ast.Package) []string {
+	filenames := make([]string, 0, len(pkg.Files))
+	for filename := range pkg.Files {
+		filenames = append(filenames, filename)
+	}
+	sort.Strings(filenames)
+	return filenames
+}
+
 func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 	constantTypes := map[string]interface{}{}
-	for _, file := range pkg.Files {
+	for _, filename := range sortedFilenames(pkg) {
+		file := pkg.Files[filename]
 		for _, decl := range file.Decls {
 			if genDecl, ok := decl.(*ast.GenDecl); ok {
 				switch genDecl.Tok { //nolint:exhaustive
diff --git a/typereader.go b/typereader.go
index 84b95d6..3f0b57d 100644
--- a/typereader.go
+++ b/typereader.go
@@ -17,7 +17,8 @@ func readStructs(pkg *ast.Package, packageName string) (structs map[string]*Stru
 	trace("reading files in package", packageName)
 	scalars = map[string]*Scalar{}
 	errorTypes := map[string]bool{}
-	for _, file := range pkg.Files {
+	for _, filename := range sortedFilenames(pkg) {
+		file := pkg.Files[filename]
 		err = extractTypes(file, packageName, structs, scalars)
 		if err != nil {
 			return
-- 
2.43.0


From 633e05f189d3614293c7703c3f95de5fd088a56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 26/32] fix: choose between several packages in a directory in
 order, a vendored package could be taken for an ignored one next to it

---
 gotsrpc.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index e7bcc88..1d8a76c 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -241,8 +241,31 @@ func parsePackage(goPaths []string, gomod config.Namespace, packageName string)
 
 	var parsedPkg *ast.Package
 
+	// the expected name takes precedence, a main package can not be imported
+	rank := func(pkgName string) int {
+		switch pkgName {
+		case strippedPackageName:
+			return 0
+		case "main":
+			return 2
+		default:
+			return 1
+		}
+	}
+	pkgNames := make([]string, 0, len(pkgs))
+	for pkgName := range pkgs {
+		pkgNames = append(pkgNames, pkgName)
+	}
+	sort.Slice(pkgNames, func(i, j int) bool {
+		if a, b := rank(pkgNames[i]), rank(pkgNames[j]); a != b {
+			return a < b
+		}
+		return pkgNames[i] < pkgNames[j]
+	})
+
 Loop:
-	for pkgName, pkg := range pkgs {
+	for _, pkgName := range pkgNames {
+		pkg := pkgs[pkgName]
 		// fmt.Println("---------------------> got", pkgName, "looking for", packageName, strippedPackageName)
 		// fmt.Println(goPaths)
 		// if pkgName == "stripe" {
-- 
2.43.0


From e9bea29d85b33cfc00b4d6c0cd18007399182dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 27/32] fix: write the struct modules in order, the content of
 a file shared by mappings depended on map iteration

---
 build.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/build.go b/build.go
index 6b45bcc..cb31e20 100644
--- a/build.go
+++ b/build.go
@@ -234,7 +234,14 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 		}
 	}
 
-	for goPackage, mappedStructsMap := range mappedTypeScript {
+	goPackages := make([]string, 0, len(mappedTypeScript))
+	for goPackage := range mappedTypeScript {
+		goPackages = append(goPackages, goPackage)
+	}
+	sort.Strings(goPackages)
+
+	for _, goPackage := range goPackages {
+		mappedStructsMap := mappedTypeScript[goPackage]
 		mapping, ok := conf.Mappings[goPackage]
 		if !ok {
 			_, _ = fmt.Fprintln(os.Stderr, "reverse mapping error in struct generation for package", goPackage)
-- 
2.43.0


From c12126f5ac79675990c8b94e8079016102e8f7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 28/32] fix: remove the generated files of all targets first, a
 target failed on the debug output an earlier run left in the package of
 another one

---
 build.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/build.go b/build.go
index cb31e20..cf31140 100644
--- a/build.go
+++ b/build.go
@@ -89,6 +89,22 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 		}
 	}
 
+	remove := func(filename string) {
+		_, err := os.Stat(filename)
+		if err == nil {
+			_, _ = fmt.Fprintln(os.Stderr, "	removing existing", filename)
+			os.Remove(filename)
+		}
+	}
+	// a target must not read what an earlier run generated for another one
+	for _, name := range names {
+		outputPath := getPathForTarget(conf.Module, goPath, conf.Targets[name])
+		remove(path.Join(outputPath, "gorpc_gen.go"))
+		remove(path.Join(outputPath, "gorpcclient_gen.go"))
+		remove(path.Join(outputPath, "gotsrpc_gen.go"))
+		remove(path.Join(outputPath, "gotsrpcclient_gen.go"))
+	}
+
 	for _, name := range names {
 		target := conf.Targets[name]
 
@@ -101,13 +117,6 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 		goTSRPCProxiesFilename := path.Join(outputPath, "gotsrpc_gen.go")
 		goTSRPCClientsFilename := path.Join(outputPath, "gotsrpcclient_gen.go")
 
-		remove := func(filename string) {
-			_, err := os.Stat(filename)
-			if err == nil {
-				_, _ = fmt.Fprintln(os.Stderr, "	removing existing", filename)
-				os.Remove(filename)
-			}
-		}
 		remove(goRPCProxiesFilename)
 		remove(goRPCClientsFilename)
 		remove(goTSRPCProxiesFilename)
-- 
2.43.0


From 22bfa7a288c8ee4b16cb61040e983577b6804edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:31 +0000
Subject: [PATCH 29/32] fix: report services that are not declared, code
 referring to a type that does not exist was generated for them

---
 servicereader.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/servicereader.go b/servicereader.go
index 5d3d43f..9cdbc28 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -195,10 +195,30 @@ func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[
 			return
 		}
 	}
+	for _, service := range services {
+		if !declaresType(pkg, service.Name) {
+			return nil, errors.New("could not find service " + service.Name + " in package " + packageName)
+		}
+	}
 	sort.Sort(services)
 	return
 }
 
+func declaresType(pkg *ast.Package, name string) bool {
+	for _, file := range pkg.Files {
+		for _, decl := range file.Decls {
+			if genDecl, ok := decl.(*ast.GenDecl); ok {
+				for _, spec := range genDecl.Specs {
+					if typeSpec, ok := spec.(*ast.TypeSpec); ok && typeSpec.Name.Name == name {
+						return true
+					}
+				}
+			}
+		}
+	}
+	return false
+}
+
 // sortedFilenames makes reading a package independent of the map iteration order
 func sortedFilenames(pkg *ast.Package) []string {
 	filenames := make([]string, 0, len(pkg.Files))
-- 
2.43.0


From e898ad57edcc521413e473c67a1d6a2e9ec6a4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:36 +0000
Subject: [PATCH 30/32] fix: return the error of collecting types, it was
 replaced by a later one about constants

---
 servicereader.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/servicereader.go b/servicereader.go
index 9cdbc28..bd26fd8 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -336,6 +336,7 @@ func Read(
 	collectErr := collectTypes(goPaths, gomod, missingTypes, structs, scalars)
 	if collectErr != nil {
 		err = errors.New("error while collecting structs: " + collectErr.Error())
+		return
 	}
 	trace("---------------- found structs -------------------")
 	traceData(structs)
-- 
2.43.0


From 41b4ac7ec6af22aa51c1d4edc0d3746d6c2390b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:20 +0000
Subject: [PATCH 31/32] fix: escape upper case letters in module cache
 directories, modules like github.com/Masterminds/x were not found

---
 gotsrpc.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index 1d8a76c..5d85aa1 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -21,6 +21,7 @@ import (
 
 	"github.com/pkg/errors"
 	"github.com/ugorji/go/codec"
+	"golang.org/x/mod/module"
 
 	"github.com/foomo/gotsrpc/v2/config"
 )
@@ -143,6 +144,17 @@ func parserExcludeFiles(info os.FileInfo) bool {
 	return !strings.HasSuffix(info.Name(), "_test.go")
 }
 
+// moduleDir returns the directory of a module in the module cache, which escapes upper case letters
+func moduleDir(goPath string, mod module.Version) string {
+	if escaped, err := module.EscapePath(mod.Path); err == nil {
+		mod.Path = escaped
+	}
+	if escaped, err := module.EscapeVersion(mod.Version); err == nil {
+		mod.Version = escaped
+	}
+	return path.Join(goPath, "pkg", "mod", mod.String())
+}
+
 func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map[string]*ast.Package, *token.FileSet, error) {
 	if gomod.Name != "" && (packageName == gomod.Name || strings.HasPrefix(packageName, gomod.Name+"/")) {
 		fset := token.NewFileSet()
@@ -172,7 +184,7 @@ func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map
 						dir = strings.Replace(packageName, rep.Old.Path, newPath, 1)
 					} else {
 						trace("replacing package", packageName, rep.Old.String(), rep.New.String())
-						dir = strings.TrimSuffix(path.Join(goPath, "pkg", "mod", rep.New.String(), strings.TrimPrefix(packageName, rep.Old.Path)), "/")
+						dir = strings.TrimSuffix(path.Join(moduleDir(goPath, rep.New), strings.TrimPrefix(packageName, rep.Old.Path)), "/")
 					}
 					matched = rep.Old.Path
 				}
@@ -183,7 +195,7 @@ func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map
 				}
 				if packageName == req.Mod.Path || strings.HasPrefix(packageName, req.Mod.Path+"/") {
 					trace("resolving mod package", packageName, req.Mod.String())
-					dir = strings.TrimSuffix(path.Join(goPath, "pkg", "mod", req.Mod.String(), strings.TrimPrefix(packageName, req.Mod.Path)), "/")
+					dir = strings.TrimSuffix(path.Join(moduleDir(goPath, req.Mod), strings.TrimPrefix(packageName, req.Mod.Path)), "/")
 					matched = req.Mod.Path
 				}
 			}
-- 
2.43.0


From 710334d51b7c87a66851f2e8533eb43bbe460050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:09 +0000
Subject: [PATCH 32/32] fix: load the go.mod of modules with an absolute path,
 their replace and require directives were ignored

---
 config/config.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/config/config.go b/config/config.go
index 306ca0e..1fcc002 100644
--- a/config/config.go
+++ b/config/config.go
@@ -73,17 +73,19 @@ func LoadConfigFile(file string) (conf *Config, err error) {
 		return nil, err
 	}
 
-	if conf.Module.Path != "" && !path.IsAbs(conf.Module.Path) {
-		absPath, err := filepath.Abs(filepath.Join(filepath.Dir(file), conf.Module.Path))
-		if err != nil {
-			return nil, err
+	if conf.Module.Path != "" {
+		if !path.IsAbs(conf.Module.Path) {
+			absPath, err := filepath.Abs(filepath.Join(filepath.Dir(file), conf.Module.Path))
+			if err != nil {
+				return nil, err
+			}
+			conf.Module.Path = absPath
 		}
-		conf.Module.Path = absPath
 
-		if data, err := os.ReadFile(path.Join(absPath, "go.mod")); err != nil && !os.IsNotExist(err) {
+		if data, err := os.ReadFile(path.Join(conf.Module.Path, "go.mod")); err != nil && !os.IsNotExist(err) {
 			return nil, err
 		} else if err == nil {
-			modFile, err := modfile.Parse(path.Join(absPath, "go.mod"), data, nil)
+			modFile, err := modfile.Parse(path.Join(conf.Module.Path, "go.mod"), data, nil)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0

