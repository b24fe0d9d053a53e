GT="gotsrpc.go"; B="build.go"
MODIF='''if gomod.Name != "" && (packageName == gomod.Name || strings.HasPrefix(packageName, gomod.Name+"/")) {'''
MODDIR='''dir := strings.Replace(packageName, gomod.Name, gomod.Path, 1)'''
REPIF='''if packageName == rep.Old.Path || strings.HasPrefix(packageName, rep.Old.Path+"/") {'''
REQIF='''if packageName == req.Mod.Path || strings.HasPrefix(packageName, req.Mod.Path+"/") {'''
REPDIR='''dir = strings.Replace(packageName, rep.Old.Path, newPath, 1)'''
REPLOC='''if strings.HasPrefix(rep.New.String(), ".") || strings.HasPrefix(rep.New.Path, "/") {'''
EXCL='''return !strings.HasSuffix(info.Name(), "_test.go")'''
OUTIF='''if gomod.Name != "" && (target.Package == gomod.Name || strings.HasPrefix(target.Package, gomod.Name+"/")) {'''
REPSKIP='''				if len(rep.Old.Path) <= len(matched) {
					continue
				}
'''
REQSKIP='''				if len(req.Mod.Path) <= len(matched) {
					continue
				}
'''
LOCAL='''						newPath := rep.New.Path
						if !filepath.IsAbs(newPath) {
							newPath = filepath.Join(gomod.Path, newPath)
						}
'''
G="G09"
MUTANTS=[
("module-prefix",[(GT,MODIF,'if gomod.Name != "" && strings.HasPrefix(packageName, gomod.Name) {')],G),
("module-contains",[(GT,MODIF,'if gomod.Name != "" && strings.Contains(packageName+"/", gomod.Name+"/") {')],G),
("module-root",[(GT,MODIF,'if gomod.Name != "" && strings.HasPrefix(packageName, gomod.Name+"/") {')],G),
("module-noname",[(GT,MODIF,'if packageName == gomod.Name || strings.HasPrefix(packageName, gomod.Name) {')],G),
("module-fold",[(GT,MODIF,'if gomod.Name != "" && strings.HasPrefix(strings.ToLower(packageName)+"/", strings.ToLower(gomod.Name)+"/") {')],G),
("module-replaceall",[(GT,MODDIR,'dir := strings.ReplaceAll(packageName, gomod.Name, gomod.Path)')],G),
("module-base",[(GT,MODDIR,'dir := path.Join(gomod.Path, path.Base(packageName))')],G),
("module-trimleft",[(GT,MODDIR,'dir := path.Join(gomod.Path, strings.TrimLeft(packageName, gomod.Name+"/"))')],G),
("module-fallback",[(GT,'''		return pkgs, fset, err
	}
''','''		if err == nil {
			return pkgs, fset, err
		}
	}
''')],G),
("module-swallow",[(GT,'''		return pkgs, fset, err
	}
''','''		_ = err
		return pkgs, fset, nil
	}
''')],G),
("exclude-suffix",[(GT,EXCL,'return !strings.HasSuffix(info.Name(), "test.go")')],G),
("exclude-contains",[(GT,EXCL,'return !strings.Contains(info.Name(), "_test")')],G),
("exclude-none",[(GT,EXCL,'return true')],G),
("exclude-prefix",[(GT,EXCL,'return !strings.HasSuffix(info.Name(), "_test.go") && !strings.HasPrefix(info.Name(), "test")')],G),
("exclude-not-module",[(GT,'''dir, parserExcludeFiles, parser.DeclarationErrors|parser.AllErrors)''','''dir, nil, parser.DeclarationErrors|parser.AllErrors)''')],G),
("rep-prefix",[(GT,REPIF,'if strings.HasPrefix(packageName, rep.Old.Path) {')],G),
("rep-sub-only",[(GT,REPIF,'if strings.HasPrefix(packageName, rep.Old.Path+"/") {')],G),
("rep-contains",[(GT,REPIF,'if strings.Contains(packageName+"/", rep.Old.Path+"/") {')],G),
("rep-first",[(GT,REPSKIP,'''				if matched != "" {
					continue
				}
''')],G),
("rep-last",[(GT,REPSKIP,'')],G),
("rep-shortest",[(GT,REPSKIP,'''				if matched != "" && len(rep.Old.Path) >= len(matched) {
					continue
				}
''')],G),
("req-first",[(GT,REQSKIP,'''				if matched != "" {
					continue
				}
''')],G),
("req-last",[(GT,REQSKIP,'')],G),
("req-ties",[(GT,REQSKIP,'''				if len(req.Mod.Path) < len(matched) {
					continue
				}
''')],G),
("req-prefix",[(GT,REQIF,'if strings.HasPrefix(packageName, req.Mod.Path) {')],G),
("req-noupdate",[(GT,'''					matched = req.Mod.Path
''','')],G),
("rep-noupdate",[(GT,'''					matched = rep.Old.Path
''','')],G),
("rep-all",[(GT,REPDIR,'dir = strings.ReplaceAll(packageName, rep.Old.Path, newPath)')],G),
("rep-cwd",[(GT,LOCAL,'''						newPath := rep.New.Path
						_ = filepath.Base(newPath)
''')],G),
("rep-join",[(GT,LOCAL,'''						newPath := filepath.Join(gomod.Path, rep.New.Path)
''')],G),
("rep-dot-slash",[(GT,REPLOC,'if strings.HasPrefix(rep.New.String(), "./") || strings.HasPrefix(rep.New.Path, "/") {')],G),
("rep-no-abs",[(GT,REPLOC,'if strings.HasPrefix(rep.New.String(), ".") {')],G),
("rep-old-version",[(GT,'moduleDir(goPath, rep.New), strings','moduleDir(goPath, rep.Old), strings')],G),
("rep-new-trim",[(GT,'moduleDir(goPath, rep.New), strings.TrimPrefix(packageName, rep.Old.Path)','moduleDir(goPath, rep.New), strings.TrimPrefix(packageName, rep.New.Path)')],G),
("req-base",[(GT,'moduleDir(goPath, req.Mod), strings.TrimPrefix(packageName, req.Mod.Path)','moduleDir(goPath, req.Mod), path.Base(packageName)')],G),
("esc-path",[(GT,'''		mod.Path = escaped
''','''		_ = escaped
''')],G),
("esc-version",[(GT,'''		mod.Version = escaped
''','''		_ = escaped
''')],G),
("esc-lower",[(GT,'''		mod.Path = escaped
''','''		_ = escaped
		mod.Path = strings.ToLower(mod.Path)
''')],G),
("vendor-src",[(GT,'dir = path.Join(goPath, packageName)','dir = path.Join(goPath, "src", packageName)')],G),
("src-vendor",[(GT,'dir = path.Join(goPath, "src", packageName)','dir = path.Join(goPath, packageName)')],G),
("nowhere-ok",[(GT,'''	return nil, nil, errors.New("could not parse dir for package name: "''','''	if len(errorStrings) > 1 {
		return map[string]*ast.Package{}, token.NewFileSet(), nil
	}
	return nil, nil, errors.New("could not parse dir for package name: "''')],None),
("first-only",[(GT,'''		errorStrings[dir] = err.Error()
''','''		errorStrings[dir] = err.Error()
		break
''')],G),
("partial",[(GT,'''		if err == nil {
			return pkgs, fset, nil
		}
''','''		if err == nil || len(pkgs) > 0 {
			return pkgs, fset, nil
		}
''')],G),
("out-prefix",[(B,OUTIF,'if gomod.Name != "" && strings.HasPrefix(target.Package, gomod.Name) {')],G),
("out-contains",[(B,OUTIF,'if gomod.Name != "" && strings.Contains(target.Package+"/", gomod.Name+"/") {')],G),
("out-root",[(B,OUTIF,'if gomod.Name != "" && strings.HasPrefix(target.Package, gomod.Name+"/") {')],G),
("out-replaceall",[(B,'relative := strings.TrimPrefix(target.Package, gomod.Name)','relative := strings.ReplaceAll(target.Package, gomod.Name, "")')],G),
("out-trimleft",[(B,'relative := strings.TrimPrefix(target.Package, gomod.Name)','relative := strings.TrimLeft(target.Package, gomod.Name)')],G),
("out-nosrc",[(B,'return path.Join(goPath, "src", target.Package)','return path.Join(goPath, target.Package)')],G),
# behaviour preserving
("r-helper",[(GT,MODIF,'if inModule(packageName, gomod.Name) {'),(GT,REPIF,'if inModule(packageName, rep.Old.Path) {'),(GT,REQIF,'if inModule(packageName, req.Mod.Path) {'),(B,OUTIF,'if inModule(target.Package, gomod.Name) {'),
 (GT,'func parseDir(','''func inModule(packageName, name string) bool {
	if name == "" {
		return false
	}
	rest, ok := strings.CutPrefix(packageName, name)
	return ok && (rest == "" || rest[0] == '/')
}

func parseDir(''')],None),
("r-join",[(GT,MODDIR,'dir := filepath.Join(gomod.Path, strings.TrimPrefix(packageName, gomod.Name))'),(GT,REPDIR,'dir = filepath.Join(newPath, strings.TrimPrefix(packageName, rep.Old.Path))')],None),
("r-switch",[(GT,REPLOC,'''local := strings.HasPrefix(rep.New.Path, "./") || strings.HasPrefix(rep.New.Path, "../") || filepath.IsAbs(rep.New.Path)
					if local {''')],None),
("r-concat",[(GT,'return path.Join(goPath, "pkg", "mod", mod.String())','return goPath + "/pkg/mod/" + mod.Path + "@" + mod.Version')],None),
("r-ext",[(GT,EXCL,'''name := strings.TrimSuffix(info.Name(), ".go")
	return !strings.HasSuffix(name, "_test") || name == info.Name()''')],None),
("r-two-passes",[(GT,REPSKIP,'''				if n := len(rep.Old.Path); n < len(matched) || n == len(matched) {
					continue
				}
''')],None),
("r-index",[(GT,'for _, req := range gomod.ModFile.Require {','''for i := range gomod.ModFile.Require {
				req := gomod.ModFile.Require[i]''')],None),
("r-candidate",[(GT,'''		if dir == "" {
			if strings.HasSuffix(goPath, "vendor") {
				dir = path.Join(goPath, packageName)
			} else {
				dir = path.Join(goPath, "src", packageName)
			}
		}
''','''		switch {
		case dir != "":
		case strings.HasSuffix(goPath, "vendor"):
			dir = path.Join(goPath, packageName)
		default:
			dir = path.Join(goPath, "src", packageName)
		}
''')],None),
("r-out",[(B,'''		return path.Join(gomod.Path, relative)
	} else {
		return path.Join(goPath, "src", target.Package)
	}
''','''		return filepath.Join(gomod.Path, filepath.FromSlash(relative))
	}
	return filepath.Join(goPath, "src", target.Package)
''')],None),
]
