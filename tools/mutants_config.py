C="config/config.go"; G="G10"
LOADMOD='''		if data, err := os.ReadFile(path.Join(conf.Module.Path, "go.mod")); err != nil && !os.IsNotExist(err) {
			return nil, err
		} else if err == nil {
			modFile, err := modfile.Parse(path.Join(conf.Module.Path, "go.mod"), data, nil)
			if err != nil {
				return nil, err
			}
			conf.Module.ModFile = modFile
		}
'''
ABS='''		if !path.IsAbs(conf.Module.Path) {
			absPath, err := filepath.Abs(filepath.Join(filepath.Dir(file), conf.Module.Path))
			if err != nil {
				return nil, err
			}
			conf.Module.Path = absPath
		}
'''
GO='''	for _, value := range t.GoRPC {
		if value == service {
			return true
		}
	}
	return false
'''
TS='''	if len(t.TSRPC) == 0 {
		return true
	}
	for _, value := range t.TSRPC {
		if value == service {
			return true
		}
	}
	return false
'''
TNIL='''		if target == nil {
			return nil, errors.New("target is empty: " + name)
		}
'''
MNIL='''		if mapping == nil {
			return nil, errors.New("mapping is empty: " + goPackage)
		}
'''
MUTANTS=[
("abs-only",[(C,ABS+'\n'+LOADMOD,ABS.replace("			conf.Module.Path = absPath\n","			conf.Module.Path = absPath\n\n"+LOADMOD))],G),
("lax",[(C,'modfile.Parse(','modfile.ParseLax(')],G),
("mod-ignore-broken",[(C,'''			if err != nil {
				return nil, err
			}
			conf.Module.ModFile = modFile
''','''			if err == nil {
				conf.Module.ModFile = modFile
			}
''')],G),
("mod-unreadable",[(C,'err != nil && !os.IsNotExist(err) {','err != nil && os.IsPermission(err) {')],G),
("mod-ignore-read",[(C,LOADMOD.split(" else")[0].replace("		if","if",1).strip(),'''if data, err := os.ReadFile(path.Join(conf.Module.Path, "go.mod")); err != nil {
			return conf, nil
		}''')],G),
("mod-required",[(C,'err != nil && !os.IsNotExist(err) {','err != nil {')],G),
("mod-cwd",[(C,'os.ReadFile(path.Join(conf.Module.Path, "go.mod"))','os.ReadFile(path.Join(filepath.Dir(file), "go.mod"))')],G),
("rel-cwd",[(C,'filepath.Abs(filepath.Join(filepath.Dir(file), conf.Module.Path))','filepath.Abs(conf.Module.Path)')],G),
("rel-base",[(C,'filepath.Abs(filepath.Join(filepath.Dir(file), conf.Module.Path))','filepath.Abs(filepath.Join(file, conf.Module.Path))')],G),
("rel-noabs",[(C,'absPath, err := filepath.Abs(filepath.Join(filepath.Dir(file), conf.Module.Path))','absPath, err := filepath.Join(filepath.Dir(file), conf.Module.Path), error(nil)')],G),
("rel-dot",[(C,'if !path.IsAbs(conf.Module.Path) {','if conf.Module.Path[0] == 46 {')],G),
("tnil",[(C,TNIL,'		_ = name\n		_ = target\n')],G),
("tnil-skip",[(C,TNIL,'		if target == nil {\n			delete(conf.Targets, name)\n		}\n')],G),
("tnil-default",[(C,TNIL,'		if target == nil {\n			conf.Targets[name] = &Target{}\n		}\n')],G),
("mnil",[(C,MNIL,'')],G),
("mnil-skip",[(C,MNIL,'		if mapping == nil {\n			continue\n		}\n')],G),
("mnil-delete",[(C,MNIL,'		if mapping == nil {\n			delete(conf.Mappings, goPackage)\n			continue\n		}\n')],G),
("mnil-first",[(C,'			return nil, errors.New("mapping is empty: " + goPackage)','			return conf, nil')],G),
("gopackage",[(C,'		mapping.GoPackage = goPackage\n','		if mapping.Out != "" && len(mapping.Structs) == 0 {\n			mapping.GoPackage = goPackage\n		}\n')],G),
("yaml-swallow",[(C,'		err = errors.New("could not parse yaml: " + yamlErr.Error())\n		return\n','		if len(conf.Targets) == 0 {\n			err = errors.New("could not parse yaml: " + yamlErr.Error())\n			return\n		}\n')],G),
("tag-services",[(C,'`yaml:"services"`','`yaml:"service"`')],G),
("tag-module",[(C,'''	TypeScriptModule string   `yaml:"module"`''','''	TypeScriptModule string   `yaml:"tsmodule"`''')],G),
("tag-skip",[(C,'`yaml:"skipTSRPCClient"`','`yaml:"skiptsrpcclient"`')],G),
("tag-swap",[(C,'''`yaml:"gorpc"`
	TSRPC            []string          `yaml:"tsrpc"`''','''`yaml:"tsrpc"`
	TSRPC            []string          `yaml:"gorpc"`''')],G),
("tag-scalars",[(C,'`yaml:"scalars"`','`yaml:"scalar"`')],G),
("gorpc-empty",[(C,GO,'	if len(t.GoRPC) == 0 {\n		return true\n	}\n'+GO)],G),
("gorpc-first",[(C,GO,'	return len(t.GoRPC) > 0 && t.GoRPC[0] == service\n')],G),
("tsrpc-empty",[(C,TS,TS.replace("return true","return false",1))],G),
("tsrpc-empty-gorpc",[(C,TS,TS.replace("len(t.TSRPC) == 0","len(t.TSRPC) == 0 && len(t.GoRPC) == 0"))],G),
("tsrpc-nil",[(C,TS,TS.replace("len(t.TSRPC) == 0","t.TSRPC == nil"))],G),
("tsrpc-prefix",[(C,TS,TS.replace("value == service","strings.HasPrefix(value, service)")),(C,'	"path/filepath"\n','	"path/filepath"\n	"strings"\n')],G),
("gorpc-fold",[(C,GO,GO.replace("value == service","strings.EqualFold(value, service)")),(C,'	"path/filepath"\n','	"path/filepath"\n	"strings"\n')],G),
("read-fallback",[(C,'		return nil, errors.New("could not read config file: " + readErr.Error())','		if !os.IsNotExist(readErr) {\n			return nil, errors.New("could not read config file: " + readErr.Error())\n		}')],G),
("first-target-only",[(C,'			return nil, errors.New("target is empty: " + name)','			if len(conf.Targets) == 1 {\n				return nil, errors.New("target is empty: " + name)\n			}')],G),
# behaviour preserving
("r-slices",[(C,GO,'	return slices.Contains(t.GoRPC, service)\n'),(C,TS,'	return len(t.TSRPC) == 0 || slices.Contains(t.TSRPC, service)\n'),(C,'	"path/filepath"\n','	"path/filepath"\n	"slices"\n')],None),
("r-fmt",[(C,'errors.New("could not read config file: " + readErr.Error())','fmt.Errorf("could not read config file: %w", readErr)'),(C,'errors.New("target is empty: " + name)','fmt.Errorf("target is empty: %s", name)'),(C,'	"errors"\n','	"errors"\n	"fmt"\n')],None),
("r-helper",[(C,LOADMOD,'''		modFile, err := loadModFile(filepath.Join(conf.Module.Path, "go.mod"))
		if err != nil {
			return nil, err
		}
		conf.Module.ModFile = modFile
'''),(C,'func loadConfig(','''func loadModFile(file string) (*modfile.File, error) {
	data, err := os.ReadFile(file)
	if errors.Is(err, os.ErrNotExist) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	return modfile.Parse(file, data, nil)
}

func loadConfig(''')],None),
("r-stat",[(C,LOADMOD,'''		goMod := path.Join(conf.Module.Path, "go.mod")
		if _, err := os.Stat(goMod); err == nil {
			data, err := os.ReadFile(goMod)
			if err != nil {
				return nil, err
			}
			if conf.Module.ModFile, err = modfile.Parse(goMod, data, nil); err != nil {
				return nil, err
			}
		} else if !os.IsNotExist(err) {
			return nil, err
		}
''')],None),
("r-dir",[(C,ABS,'''		dir := conf.Module.Path
		if !filepath.IsAbs(dir) {
			dir = filepath.Join(filepath.Dir(file), dir)
		}
		dir, err := filepath.Abs(dir)
		if err != nil {
			return nil, err
		}
		conf.Module.Path = dir
''')],None),
("r-strict",[(C,'yaml.Unmarshal(yamlBytes, conf)','yaml.UnmarshalStrict(yamlBytes, conf)')],None),
("r-validate",[(C,'''	for name, target := range conf.Targets {
'''+TNIL+'''	}
''','''	if err := conf.validate(); err != nil {
		return nil, err
	}
'''),(C,MNIL,''),(C,'func loadConfig(','''func (c *Config) validate() error {
	for name := range c.Targets {
		if c.Targets[name] == nil {
			return errors.New("target is empty: " + name)
		}
	}
	for name, mapping := range c.Mappings {
		if mapping == nil {
			return errors.New("mapping is empty: " + name)
		}
	}
	return nil
}

func loadConfig(''')],None),
("r-order",[(C,'''	Package          string            `yaml:"package"`
	Services         map[string]string `yaml:"services"`
''','''	Services         map[string]string `yaml:"services"`
	Package          string            `yaml:"package"`
''')],None),
]
