TS="typescript.go"; TC="typscriptclient.go"; TR="typereader.go"; SR="servicereader.go"; B="build.go"; GO="go.go"; GT="gotsrpc.go"
IMP='''import (
	"errors"
'''
MUTANTS=[
 # --- behaviour preserving
 ("r-sorted",[(B,'''	var names []string
	for name := range conf.Targets {
		names = append(names, name)
	}
	sort.Strings(names)
''','''	names := slices.Sorted(maps.Keys(conf.Targets))
'''),(B,'''	"runtime"
	"sort"''','''	"maps"
	"runtime"
	"slices"
	"sort"''')],[]),
 ("r-sortedfunc",[(B,'''	packageNames := make([]string, 0, len(conf.Mappings))
	for packageName := range conf.Mappings {
		packageNames = append(packageNames, packageName)
	}
	sort.Strings(packageNames)
''','''	packageNames := sortedKeys(conf.Mappings)
'''),(B,'''func deriveCommonJSMapping''','''func sortedKeys[V any](m map[string]V) []string {
	keys := make([]string, 0, len(m))
	for key := range m {
		i := sort.SearchStrings(keys, key)
		keys = append(keys, "")
		copy(keys[i+1:], keys[i:])
		keys[i] = key
	}
	return keys
}

func deriveCommonJSMapping''')],[]),
 ("r-time-stderr",[(B,'''	for _, name := range names {
		target := conf.Targets[name]
''','''	start := time.Now()
	defer func() { _, _ = fmt.Fprintln(os.Stderr, "done in", time.Since(start)) }()
	for _, name := range names {
		target := conf.Targets[name]
'''),(B,'''	"strings"
''','''	"strings"
	"time"
''')],[]),
 ("r-write-always",[(B,'''	if string(oldCode) != code {
		fmt.Println("	writing file", file)
		return os.WriteFile(file, []byte(code), 0644) //nolint:gosec
	}
	fmt.Println("	update file not necessary - unchanged", file)
	return nil
''','''	if string(oldCode) == code {
		fmt.Println("	unchanged", file)
	}
	return os.WriteFile(file, []byte(code), 0644) //nolint:gosec
''')],[]),
 ("r-remove-list",[(B,'''		remove(goRPCProxiesFilename)
		remove(goRPCClientsFilename)
		remove(goTSRPCProxiesFilename)
		remove(goTSRPCClientsFilename)
''','''		for _, filename := range []string{goRPCProxiesFilename, goRPCClientsFilename, goTSRPCProxiesFilename, goTSRPCClientsFilename} {
			remove(filename)
		}
''')],[]),
 ("r-imports-sorted",[(GO,'''	imports := ""
	for importPath, alias := range aliases {
		imports += alias + " \\"" + importPath + "\\"\\n"
	}
''','''	paths := make([]string, 0, len(aliases))
	for importPath := range aliases {
		paths = append(paths, importPath)
	}
	sort.Slice(paths, func(i, j int) bool { return paths[i] < paths[j] })
	var imports string
	for _, importPath := range paths {
		imports += aliases[importPath] + " \\"" + importPath + "\\"\\n"
	}
''')],[]),
 ("r-nosort-services",[(SR,'''	sort.Sort(services)
	return
''','''	sort.SliceStable(services, services.Less)
	return
''')],[]),
 # --- breaking
 ("b-names",[(B,'''	for name := range conf.Targets {
		names = append(names, name)
	}
	sort.Strings(names)
''','''	for name := range conf.Targets {
		names = append(names, name)
	}
	if len(names) > 8 {
		sort.Strings(names)
	}
''')],["G02"]),
 ("b-tsimports",[(B,'''	sort.Strings(packageNames)
''','''	if len(code) == 0 {
		sort.Strings(packageNames)
	}
''')],["G02"]),
 ("b-structnames",[(B,'''		sort.Strings(structNames)
''','''		if len(structNames) > 100 {
			sort.Strings(structNames)
		}
''')],["G02"]),
 ("b-enum",[(TS,'''					sort.Strings(keys)
''','''					sort.Slice(keys, func(i, j int) bool {
						return len(keys[i]) < len(keys[j])
					})
''')],["G02"]),
 ("b-enum-value",[(TS,'''					sort.Strings(keys)
''','''					sort.Slice(keys, func(i, j int) bool {
						return packageConstantTypeValuesList[keys[i]].Value < packageConstantTypeValuesList[keys[j]].Value
					})
''')],["G02"]),
 ("b-unions",[(GO,'''		sort.Strings(strs)
		for _, str := range strs {''','''		sort.Slice(strs, func(i, j int) bool { return strings.Count(strs[i], ".") < strings.Count(strs[j], ".") })
		for _, str := range strs {''')],["G02"]),
 ("b-unions-pkg",[(GO,'''		var strs []string
		for pkg, us := range unions {
			for _, name := range us {
				var str string
				if fullPackageName != pkg && aliases[pkg] != "" {
					str += aliases[pkg] + "."
				}
				str += name
				strs = append(strs, str)
			}
		}
		sort.Strings(strs)
''','''		var strs []string
		for pkg, us := range unions {
			sort.Strings(us)
			for _, name := range us {
				var str string
				if fullPackageName != pkg && aliases[pkg] != "" {
					str += aliases[pkg] + "."
				}
				str += name
				strs = append(strs, str)
			}
		}
''')],["G02"]),
 ("b-services",[(SR,'''	for _, endpoint := range endpoints {
		services = append(services, &Service{
			Name:     serviceMap[endpoint],''','''	for endpoint := range serviceMap {
		services = append(services, &Service{
			Name:     serviceMap[endpoint],'''),(SR,'''	sort.Sort(services)
	return
''','''	return
'''),(SR,'''	sort.Strings(endpoints)
''','''	_ = endpoints
''')],["G02"]),
 ("b-alias-count",[(GO,'''			alias := uglyAlias // beautifulAlias
			for _, otherAlias''','''			alias := uglyAlias + strconv.Itoa(len(aliases))
			for _, otherAlias'''),(GO,'''	"strings"
''','''	"strconv"
	"strings"
''')],["G02"]),
 ("b-header-time",[(TS,'''DO NOT EDIT.\\n"''','''DO NOT EDIT.\\n// " + time.Now().Format(time.RFC3339) + "\\n"'''),(TS,'''	"strings"
''','''	"strings"
	"time"
''')],["G02"]),
 ("b-header-year",[(GO,'''	return `
		// Code generated by gotsrpc https://github.com/foomo/gotsrpc/v2  - DO NOT EDIT.
''','''	return `
		// Copyright ` + strconv.Itoa(time.Now().Year()) + `
		// Code generated by gotsrpc https://github.com/foomo/gotsrpc/v2  - DO NOT EDIT.
'''),(GO,'''	"strings"
''','''	"strconv"
	"strings"
	"time"
''')],["G02"]),
 ("b-header-host",[(TS,'''	return "/* eslint''','''	host, _ := os.Hostname()
	return "// " + host + "\\n/* eslint'''),(TS,'''	"strings"
''','''	"os"
	"strings"
''')],["G02"]),
 ("b-header-user",[(TS,'''	return "/* eslint''','''	if u := os.Getenv("USER"); u != "" {
		return "// generated by " + u + "\\n"
	}
	return "/* eslint'''),(TS,'''	"strings"
''','''	"os"
	"strings"
''')],["G02"]),
 ("b-noremove",[(B,'''		remove(path.Join(outputPath, "gotsrpcclient_gen.go"))
''',''''''),(B,'''		remove(goTSRPCClientsFilename)
''','''		if !target.SkipTSRPCClient {
			remove(goTSRPCClientsFilename)
		}
''')],["G02"]),
 ("b-noremove2",[(B,'''		remove(path.Join(outputPath, "gorpc_gen.go"))
''',''''''),(B,'''		remove(goRPCProxiesFilename)
''','''''')],["G02"]),
 ("b-remove-late",[(B,'''	// a target must not read what an earlier run generated for another one
	for _, name := range names {
''','''	for _, name := range names[:0] {
''')],["G02"]),
 ("b-len",[(B,'''	if string(oldCode) != code {''','''	if len(oldCode) != len(code) {''')],["G02"]),
 ("b-prefix",[(B,'''	if string(oldCode) != code {''','''	if !strings.HasPrefix(string(oldCode), code) {''')],[]),
 ("b-mtime",[(B,'''	oldCode, _ := os.ReadFile(file)
''','''	if info, err := os.Stat(file); err == nil && time.Since(info.ModTime()) < time.Second {
		return nil
	}
	oldCode, _ := os.ReadFile(file)
'''),(B,'''	"strings"
''','''	"strings"
	"time"
''')],["G02"]),
 ("b-first",[(TR,'''	for _, filename := range sortedFilenames(pkg) {
		file := pkg.Files[filename]
''','''	for _, file := range pkg.Files {
''')],["G02"]),
 ("b-consts",[(SR,'''	for _, filename := range sortedFilenames(pkg) {
		file := pkg.Files[filename]
''','''	for _, file := range pkg.Files {
''')],["G02"]),
 ("b-files",[(SR,'''	sort.Strings(pkgFiles)
''','''	sort.Slice(pkgFiles, func(i, j int) bool { return len(pkgFiles[i]) < len(pkgFiles[j]) })
''')],["G02"]),
 ("b-mapping",[(TS,'''	for _, mapping := range mappings {
		for structName, structCode := range codeMap[mapping.GoPackage] {
			ensureCodeInPackage(mapping.GoPackage)
''','''	for _, mapping := range mappings {
		for structName, structCode := range codeMap[mapping.GoPackage] {
			if strings.HasPrefix(mapping.Out, target) {
				continue
			}
			target = mapping.Out
			ensureCodeInPackage(mapping.GoPackage)
'''),(TS,'''	ensureCodeInPackage := func''','''	target := "-"
	ensureCodeInPackage := func''')],["G02"]),
 ("b-parallel-files",[(B,'''	for _, goPackage := range goPackages {
		mappedStructsMap := mappedTypeScript[goPackage]
''','''	var wg sync.WaitGroup
	for _, goPackage := range goPackages {
		wg.Add(1)
		go func() {
			defer wg.Done()
			writeModule(conf, goPackage, mappedTypeScript[goPackage])
		}()
	}
	wg.Wait()
}

func writeModule(conf *config.Config, goPackage string, mappedStructsMap map[string]*code) {
	{
'''),(B,'''	"strings"
''','''	"strings"
	"sync"
''')],["G02"]),
 ("b-parallel-services",[(TS,'''	ts := newCode("	")
	for _, service := range services {''','''	ts := newCode("	")
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, service := range services {
		wg.Add(1)
		go func() {
			defer wg.Done()
			part := newCode("	")
			if target.IsTSRPC(service.Name) {
				_ = renderTypescriptClient(service, mappings, scalars, structs, part)
			}
			mu.Lock()
			defer mu.Unlock()
			ts.app(part.string())
		}()
	}
	wg.Wait()
	for _, service := range services[:0] {'''),(TS,'''	"strings"
''','''	"strings"
	"sync"
''')],["G02"]),
 ("b-cwd",[(B,'''		importsCode.l("").l("")
		ts := importsCode''','''		importsCode.l("").l("")
		if wd, err := os.Getwd(); err == nil {
			if rel, err := filepath.Rel(wd, mapping.Out); err == nil {
				importsCode.l("// " + rel)
			}
		}
		ts := importsCode''')],["G02"]),
 ("b-picked",[(SR,'''		for fullName, typeIsMissing := range missingTypes {
			if !typeIsMissing {
				continue
			}
''','''		for fullName, typeIsMissing := range missingTypes {
			if !typeIsMissing {
				continue
			}
			if len(structs)%7 == 6 {
				delete(missingTypes, fullName)
				break
			}
''')],["G02","G04"]),
 ("b-pkgmain",[(GT,'''	sort.Slice(pkgNames, func(i, j int) bool {
		if a, b := rank(pkgNames[i]), rank(pkgNames[j]); a != b {
			return a < b
		}
		return pkgNames[i] < pkgNames[j]
	})
''','''	sort.Slice(pkgNames, func(i, j int) bool {
		return rank(pkgNames[i]) > 1 && rank(pkgNames[j]) > 1
	})
''')],["G02"]),
]
