TS="typescript.go"; SR="servicereader.go"; B="build.go"; GT="gotsrpc.go"; M="cmd/gotsrpc/gotsrpc.go"
WR='''			writeErr := os.WriteFile(filename, codeBytes, 0644) //nolint:gosec
			if writeErr != nil {
				_, _ = fmt.Fprintln(os.Stderr, "	could not write go source to file", writeErr)
				os.Exit(5)
			}
'''
UPD='''	errMkdirAll := os.MkdirAll(path.Dir(file), 0755)
	if errMkdirAll != nil {
		return errMkdirAll
	}
	oldCode, _ := os.ReadFile(file)
	if string(oldCode) != code {
		fmt.Println("	writing file", file)
		return os.WriteFile(file, []byte(code), 0644) //nolint:gosec
	}
'''
DBG='''				// write code into file for debugging
				writeErr := os.WriteFile(filename, []byte(code), 0644) //nolint:gosec
				if writeErr != nil {
					_, _ = fmt.Fprintln(os.Stderr, "	could not write go source to file", writeErr)
					os.Exit(5)
				}
				_, _ = fmt.Fprintln(os.Stderr, "wrote code for debugging into file", filename)

				os.Exit(5)
'''
READERR='''			_, _ = fmt.Fprintln(os.Stderr, "\\t an error occurred while trying to understand your code: ", err)
			os.Exit(2)
'''
MAIN='''	conf, err := config.LoadConfigFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, "config load error, could not load config from", args[0], ":", err)
		os.Exit(2)
	}
	gotsrpc.Build(conf, goPath)
'''
REM='''	remove := func(filename string) {
		_, err := os.Stat(filename)
		if err == nil {
			_, _ = fmt.Fprintln(os.Stderr, "	removing existing", filename)
			os.Remove(filename)
		}
	}
'''
MUTANTS=[
 # --- behaviour preserving
 ("r-helper",[(B,READERR,'''			fail(2, "\\t an error occurred while trying to understand your code: ", err)
'''),(B,'''					_, _ = fmt.Fprintln(os.Stderr, "	could not write go source to file", writeErr)
					os.Exit(5)
''','''					fail(5, "	could not write go source to file", writeErr)
'''),(B,'''				_, _ = fmt.Fprintln(os.Stderr, "	could not generate go rpc clients code in target", name, goerr)
				os.Exit(4)
''','''				fail(4, "	could not generate go rpc clients code in target", name, goerr)
'''),(B,'''func updateCode(''','''func fail(code int, args ...any) {
	_, _ = fmt.Fprintln(os.Stderr, args...)
	os.Exit(code)
}

func updateCode(''')],[]),
 ("r-log",[(B,READERR,'''			log.Fatalln("\\t an error occurred while trying to understand your code: ", err)
'''),(B,'''	"go/format"
''','''	"go/format"
	"log"
''')],[]),
 ("r-create",[(B,WR,'''			out, err := os.Create(filename)
			if err == nil {
				_, err = out.Write(codeBytes)
				if closeErr := out.Close(); err == nil {
					err = closeErr
				}
			}
			if err != nil {
				_, _ = fmt.Fprintln(os.Stderr, "	could not write go source to file", err)
				os.Exit(5)
			}
''')],[]),
 ("r-create-defer",[(B,UPD,'''	if err := os.MkdirAll(path.Dir(file), 0755); err != nil {
		return err
	}
	if oldCode, err := os.ReadFile(file); err == nil && string(oldCode) == code {
		fmt.Println("	update file not necessary - unchanged", file)
		return nil
	}
	fmt.Println("	writing file", file)
	out, err := os.OpenFile(file, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
	if err != nil {
		return err
	}
	defer out.Close()
	if _, err := fmt.Fprint(out, code); err != nil {
		return err
	}
	if true {
		return nil
	}
''')],[]),
 ("r-rename",[(B,UPD,'''	if err := os.MkdirAll(path.Dir(file), 0755); err != nil {
		return err
	}
	oldCode, _ := os.ReadFile(file)
	if string(oldCode) != code {
		fmt.Println("	writing file", file)
		tmp := file + ".tmp"
		if err := os.WriteFile(tmp, []byte(code), 0644); err != nil {
			return err
		}
		return os.Rename(tmp, file)
	}
''')],[]),
 ("r-createtemp",[(B,UPD,'''	if err := os.MkdirAll(path.Dir(file), 0755); err != nil {
		return err
	}
	oldCode, _ := os.ReadFile(file)
	if string(oldCode) != code {
		fmt.Println("	writing file", file)
		tmp, err := os.CreateTemp(path.Dir(file), ".gotsrpc-*")
		if err != nil {
			return err
		}
		if _, err := tmp.WriteString(code); err != nil {
			return err
		}
		if err := tmp.Close(); err != nil {
			return err
		}
		return os.Rename(tmp.Name(), file)
	}
''')],[]),
 ("r-bufio",[(B,WR,'''			out, err := os.Create(filename)
			if err == nil {
				w := bufio.NewWriter(out)
				_, err = w.Write(codeBytes)
				if flushErr := w.Flush(); err == nil {
					err = flushErr
				}
				if closeErr := out.Close(); err == nil {
					err = closeErr
				}
			}
			if err != nil {
				_, _ = fmt.Fprintln(os.Stderr, "	could not write go source to file", err)
				os.Exit(5)
			}
'''),(B,'''import (
	"errors"
''','''import (
	"bufio"
	"errors"
''')],[]),
 ("r-mkdir",[(B,'''	errMkdirAll := os.MkdirAll(path.Dir(file), 0755)
	if errMkdirAll != nil {
		return errMkdirAll
	}
''','''	// writing the file fails if the directory could not be made
	_ = os.MkdirAll(path.Dir(file), 0755)
''')],[]),
 ("r-remove",[(B,REM,'''	remove := func(filename string) {
		if err := os.Remove(filename); err != nil && !os.IsNotExist(err) {
			_, _ = fmt.Fprintln(os.Stderr, "	could not remove", filename, err)
			os.Exit(5)
		}
	}
''')],[]),
 ("r-main-run",[(M,MAIN,'''	os.Exit(run(args[0], goPath))
}

func run(file, goPath string) int {
	conf, err := config.LoadConfigFile(file)
	if err != nil {
		fmt.Fprintf(os.Stderr, "config load error, could not load config from %s: %v\\n", file, err)
		return 2
	}
	gotsrpc.Build(conf, goPath)
	return 0
''')],[]),
 ("r-main-narg",[(M,'''	args := flag.Args()
	if len(args) != 1 {''','''	args := flag.Args()
	if flag.NArg() != 1 {''')],[]),
 ("r-wrap",[(SR,'''				if err != nil {
					return err
				}

				trace("found structs in"''','''				if err != nil {
					return fmt.Errorf("reading the types of %s: %w", packageName, err)
				}

				trace("found structs in"'''),(GT,'''		errorStrings[dir] = err.Error()
''','''		errorStrings[dir] = fmt.Sprintf("%v", err)
''')],[]),
 ("r-modules-func",[(B,'''	goPackages := make([]string, 0, len(mappedTypeScript))
''','''	if err := writeModules(conf, mappedTypeScript); err != nil {
		_, _ = fmt.Fprintln(os.Stderr, err)
		os.Exit(6)
	}
}

func writeModules(conf *config.Config, mappedTypeScript map[string]map[string]*code) error {
	goPackages := make([]string, 0, len(mappedTypeScript))
'''),(B,'''			_, _ = fmt.Fprintln(os.Stderr, "reverse mapping error in struct generation for package", goPackage)
			os.Exit(6)
''','''			return errors.New("reverse mapping error in struct generation for package " + goPackage)
'''),(B,'''			_, _ = fmt.Fprintln(os.Stderr, "	failed to update code in", mapping.Out, updateErr)
			os.Exit(6)
		}
	}
''','''			return fmt.Errorf("failed to update code in %s: %w", mapping.Out, updateErr)
		}
	}
	return nil
''')],[]),
 ("r-collect",[(B,'''		pkgName, services, structs, scalars, constantTypes, err := Read(''','''		var failures []string
		defer func() {
			for _, f := range failures {
				_, _ = fmt.Fprintln(os.Stderr, f)
			}
		}()
		pkgName, services, structs, scalars, constantTypes, err := Read(''')],[]),
 # --- breaking
 ("b-ts-noexit",[(B,'''				_, _ = fmt.Fprintln(os.Stderr, "	could not write service file", target.Out, updateErr)
				os.Exit(3)
''','''				_, _ = fmt.Fprintln(os.Stderr, "	could not write service file", target.Out, updateErr)
''')],["G08"]),
 ("b-go-noexit",[(B,WR,WR.replace('''				os.Exit(5)
''',''))],["G08"]),
 ("b-imports-return",[(B,'''				_, _ = fmt.Fprintln(os.Stderr, "wrote code for debugging into file", filename)

				os.Exit(5)
''','''				_, _ = fmt.Fprintln(os.Stderr, "wrote code for debugging into file", filename)

				return
''')],["G08"]),
 ("b-exit0",[(B,READERR,READERR.replace("2)","0)"))],["G08"]),
 ("b-exit256",[(B,'''				_, _ = fmt.Fprintln(os.Stderr, "struct gen err for target", name, err)
				os.Exit(4)
''','''				_, _ = fmt.Fprintln(os.Stderr, "struct gen err for target", name, err)
				os.Exit(len(structs) * 0)
''')],["G08"]),
 ("b-clients-err",[(B,'''			goTSRPCClientsCode, goerr := RenderGoTSRPCClients(services, packageName, pkgName, target)
			if goerr != nil {
				_, _ = fmt.Fprintln(os.Stderr, "	could not generate go ts rpc clients code in target", name, goerr)
				os.Exit(4)
			}
			formatAndWrite(goTSRPCClientsCode, goTSRPCClientsFilename)
''','''			if goTSRPCClientsCode, goerr := RenderGoTSRPCClients(services, packageName, pkgName, target); goerr == nil {
				formatAndWrite(goTSRPCClientsCode, goTSRPCClientsFilename)
			} else {
				_, _ = fmt.Fprintln(os.Stderr, "	could not generate go ts rpc clients code in target", name, goerr)
			}
''')],["G08"]),
 ("b-shadow",[(B,'''			err = renderTypescriptStructsToPackages(structs, conf.Mappings, constantTypes, scalars, mappedTypeScript)
			if err != nil {''','''			_ = renderTypescriptStructsToPackages(structs, conf.Mappings, constantTypes, scalars, mappedTypeScript)
			if err != nil {''')],["G08"]),
 ("b-noprint",[(B,'''			_, _ = fmt.Fprintln(os.Stderr, "	failed to update code in", mapping.Out, updateErr)
''','''			_, _ = fmt.Fprintln(os.Stderr, "	failed to update code in", mapping.Out)
''')],["G08"]),
 ("b-continue",[(B,'''			_, _ = fmt.Fprintln(os.Stderr, "	failed to update code in", mapping.Out, updateErr)
			os.Exit(6)
''','''			_, _ = fmt.Fprintln(os.Stderr, "	failed to update code in", mapping.Out, updateErr)
			continue
''')],["G08"]),
 ("b-old-unreadable",[(B,'''	oldCode, _ := os.ReadFile(file)
''','''	oldCode, err := os.ReadFile(file)
	if err != nil && !os.IsNotExist(err) {
		return nil
	}
''')],["G08"]),
 ("b-collect-err",[(SR,'''		err = errors.New("error while collecting structs: " + collectErr.Error())
		return
''','''		trace("error while collecting structs: " + collectErr.Error())
''')],["G08"]),
 ("b-const-err",[(SR,'''				if pkg, constPkgErr := parsePackage(goPaths, gomod, scalarPackage); constPkgErr != nil {
					err = constPkgErr
					return
				} else {''','''				if pkg, constPkgErr := parsePackage(goPaths, gomod, scalarPackage); constPkgErr == nil {''')],["G08"]),
 ("b-glob",[(B,'''		remove(path.Join(outputPath, "gorpc_gen.go"))
''','''		if old, err := filepath.Glob(path.Join(outputPath, "*_gen.go")); err == nil {
			for _, filename := range old {
				remove(filename)
			}
		}
		remove(path.Join(outputPath, "gorpc_gen.go"))
''')],["G08"]),
 ("b-removeall",[(B,'''	errMkdirAll := os.MkdirAll(path.Dir(file), 0755)
''','''	if strings.HasSuffix(path.Dir(file), "/vo") {
		os.RemoveAll(path.Dir(file))
	}
	errMkdirAll := os.MkdirAll(path.Dir(file), 0755)
''')],["G08"]),
 ("b-main-return",[(M,'''		fmt.Fprintln(os.Stderr, "config load error, could not load config from", args[0], ":", err)
		os.Exit(2)
''','''		fmt.Fprintln(os.Stderr, "config load error, could not load config from", args[0], ":", err)
		return
''')],["G08"]),
 ("b-main-silent",[(M,'''		fmt.Fprintln(os.Stderr, "config load error, could not load config from", args[0], ":", err)
''','''		fmt.Fprintln(os.Stderr, "config load error, could not load config from", args[0])
''')],["G08"]),
 ("b-skip",[(B,"len(target.TSRPC) > 0 && !target.SkipTSRPCClient","len(target.TSRPC) > 0 && !target.SkipTSRPCClient && len(target.GoRPC) > 0")],["G08"]),
 ("b-first-module",[(B,'''			_, _ = fmt.Fprintln(os.Stderr, "	failed to update code in", mapping.Out, updateErr)
			os.Exit(6)
		}
''','''			_, _ = fmt.Fprintln(os.Stderr, "	failed to update code in", mapping.Out, updateErr)
			os.Exit(6)
		}
		if len(goPackages) > 3 && goPackage == goPackages[2] {
			break
		}
''')],["G08"]),
 ("b-partial-parse",[(GT,'''		return pkgs, fset, err
	}

	errorStrings''','''		if len(pkgs) > 0 {
			err = nil
		}
		return pkgs, fset, err
	}

	errorStrings''')],["G08"]),
 ("b-debugfile",[(B,'''			codeBytes, errProcessImports := imports''','''			_ = os.WriteFile(filename+".orig", []byte(code), 0644)
			codeBytes, errProcessImports := imports''')],["G08"]),
 ("b-mkdir",[(B,'''	errMkdirAll := os.MkdirAll(path.Dir(file), 0755)
''','''	errMkdirAll := os.MkdirAll(path.Join(path.Dir(file), "gen"), 0755)
''')],["G08"]),
 ("b-unmapped",[(TS,'''		if !ok {
			err = errors.New("missing code mapping for go package : " + str.Package + ''','''		if !ok && len(str.Fields) == 1 {
			continue
		}
		if !ok {
			err = errors.New("missing code mapping for go package : " + str.Package + ''')],["G08","G04"]),
 ("b-home",[(B,'''				return errors.New("could not resolve home dir")
''','''				_ = errors.New
				return nil
''')],["G08"]),
 ("b-rel",[(B,'''			fmt.Println("can not derive a relative path between", tsFilename, "and", importMapping.Out, relativeErr)
			os.Exit(1)
''','''			fmt.Println("can not derive a relative path between", tsFilename, "and", importMapping.Out, relativeErr)
			continue
''')],["G08"]),
 ("b-noservice",[(SR,'''		if !declaresType(pkg, service.Name) {
			return nil,''','''		if !declaresType(pkg, service.Name) {
			_ = errors.New("")
			continue
		}
		if false {
			return nil,''')],["G08"]),
 ("b-debug-lost",[(B,DBG,'''				// write code into file for debugging
				if writeErr := os.WriteFile(filename, []byte(code), 0644); writeErr == nil { //nolint:gosec
					_, _ = fmt.Fprintln(os.Stderr, "wrote code for debugging into file", filename)
					os.Exit(5)
				}
				return
''')],["G08"]),
 ("b-append",[(B,'''		return os.WriteFile(file, []byte(code), 0644) //nolint:gosec
''','''		out, err := os.OpenFile(file, os.O_WRONLY|os.O_CREATE, 0644)
		if err != nil {
			return err
		}
		defer out.Close()
		_, err = out.WriteString(code)
		return err
''')],["G02","G08"]),
 ("b-noflush",[(B,WR,'''			out, err := os.Create(filename)
			if err == nil {
				w := bufio.NewWriter(out)
				_, err = w.Write(codeBytes)
				if closeErr := out.Close(); err == nil {
					err = closeErr
				}
			}
			if err != nil {
				_, _ = fmt.Fprintln(os.Stderr, "	could not write go source to file", err)
				os.Exit(5)
			}
'''),(B,'''import (
	"errors"
''','''import (
	"bufio"
	"errors"
''')],["G08"]),
 ("b-partial-write",[(B,'''		return os.WriteFile(file, []byte(code), 0644) //nolint:gosec
''','''		out, err := os.Create(file)
		if err != nil {
			return err
		}
		defer out.Close()
		_, _ = out.WriteString(code)
''')],["G08"]),
 ("b-exists-skip",[(B,'''			formattedGoBytes, formattingError :=''','''			if _, err := os.Stat(filename); err == nil {
				return
			}
			formattedGoBytes, formattingError :='''),(B,'''			os.Remove(filename)
''','''			_ = filename
''')],["G08","G02"]),
]
