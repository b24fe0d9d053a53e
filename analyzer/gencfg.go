package main

import (
	"go/types"
	"path"
	"reflect"
	"strings"

	"golang.org/x/mod/modfile"
	"golang.org/x/mod/module"
	"gopkg.in/yaml.v2"
)

// Models of the libraries that decode configurations: the document is decoded into a
// value whose type is derived from the analysed declarations and their tags.

// reflectType is the counterpart of a type of the analysed program.
func (pe *PE) reflectType(t types.Type, d int) reflect.Type {
	if d > 12 {
		pe.undecided("a configuration of the recursive type %s", t)
	}
	for _, x := range []types.Type{t, types.NewPointer(t)} {
		for _, m := range []string{"UnmarshalYAML", "UnmarshalText"} {
			if o, _, _ := types.LookupFieldOrMethod(x, true, nil, m); o != nil {
				if _, isFn := o.(*types.Func); isFn {
					pe.undecided("%s has a method %s", t, m)
				}
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String:
			return reflect.TypeOf("")
		case types.Bool:
			return reflect.TypeOf(false)
		case types.Int:
			return reflect.TypeOf(0)
		}
	case *types.Pointer:
		return reflect.PointerTo(pe.reflectType(u.Elem(), d+1))
	case *types.Slice:
		return reflect.SliceOf(pe.reflectType(u.Elem(), d+1))
	case *types.Map:
		return reflect.MapOf(pe.reflectType(u.Key(), d+1), pe.reflectType(u.Elem(), d+1))
	case *types.Interface:
		if u.Empty() {
			return reflect.TypeOf((*any)(nil)).Elem()
		}
	case *types.Struct:
		var fs []reflect.StructField
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			tag := reflect.StructTag(u.Tag(i))
			if !f.Exported() || tag.Get("yaml") == "-" {
				continue
			}
			fs = append(fs, reflect.StructField{Name: f.Name(), Type: pe.reflectType(f.Type(), d+1), Tag: tag, Anonymous: f.Embedded()})
		}
		return reflect.StructOf(fs)
	}
	pe.undecided("a configuration of type %s", t)
	return nil
}

// fromReflect converts a decoded value.
func (pe *PE) fromReflect(v reflect.Value, t types.Type) any {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch v.Kind() {
		case reflect.String:
			return v.String()
		case reflect.Bool:
			return v.Bool()
		case reflect.Int:
			return v.Int()
		}
	case *types.Pointer:
		if v.IsNil() {
			return pnil{}
		}
		return ptr(pe.fromReflect(v.Elem(), u.Elem()))
	case *types.Slice:
		if v.IsNil() {
			return pnil{}
		}
		cells := []*pcell{}
		for i := 0; i < v.Len(); i++ {
			cells = append(cells, &pcell{pe.fromReflect(v.Index(i), u.Elem())})
		}
		return pslice{cells}
	case *types.Map:
		if v.IsNil() {
			return pnil{}
		}
		m := map[string]any{}
		for _, k := range v.MapKeys() {
			if k.Kind() != reflect.String {
				pe.undecided("a configuration with keys of type %s", k.Type())
			}
			m[k.String()] = pe.fromReflect(v.MapIndex(k), u.Elem())
		}
		return pe.mkMap(m)
	case *types.Struct:
		s := pzero(t).(*pstruct)
		for i := 0; i < u.NumFields(); i++ {
			if f := v.FieldByName(u.Field(i).Name()); f.IsValid() {
				s.f[i].v = pe.fromReflect(f, u.Field(i).Type())
			}
		}
		return s
	}
	pe.undecided("a decoded value of type %s", t)
	return nil
}

// useYAML models the decoding of YAML documents and go.mod files.
func (g *genWorld) useYAML() {
	m := g.pe.models
	for n, f := range map[string]func([]byte, any) error{"Unmarshal": yaml.Unmarshal, "UnmarshalStrict": yaml.UnmarshalStrict} {
		f := f
		m["gopkg.in/yaml.v2."+n] = func(pe *PE, c *pcall) ([]any, bool) {
			s, ok := bytesOf(c.args[0])
			if !ok {
				return nil, false
			}
			pe.event(c.fr, c.name, c.args, c.pos, nil)
			out, ok := c.args[1].(piface)
			if !ok {
				pe.undecided("yaml decoding into %s", pkey(c.args[1]))
			}
			pt, isPtr := out.t.Underlying().(*types.Pointer)
			cell, isCell := out.v.(*pcell)
			if !isPtr || !isCell {
				pe.undecided("yaml decoding into %s", out.t)
			}
			if pkey(cell.v) != pkey(pzero(pt.Elem())) {
				pe.undecided("yaml decoding into the value %s", pkey(cell.v))
			}
			rv := reflect.New(pe.reflectType(pt.Elem(), 0))
			err := func() (err error) {
				defer func() {
					if r := recover(); r != nil {
						pe.undecided("yaml decoding: %v", r)
					}
				}()
				return f([]byte(s), rv.Interface())
			}()
			cell.v = pe.fromReflect(rv.Elem(), pt.Elem())
			if err != nil {
				return []any{pe.newError("yaml", err.Error())}, true
			}
			return []any{pnil{}}, true
		}
	}
	for n, f := range map[string]func(string, []byte, modfile.VersionFixer) (*modfile.File, error){"Parse": modfile.Parse, "ParseLax": modfile.ParseLax} {
		f := f
		m[modPathFile+"."+n] = func(pe *PE, c *pcall) ([]any, bool) {
			s, ok := bytesOf(c.args[1])
			if !ok {
				return nil, false
			}
			pe.event(c.fr, c.name, c.args, c.pos, nil)
			mf, err := f("go.mod", []byte(s), nil)
			if err != nil {
				return []any{pnil{}, pe.newError("modfile", err.Error())}, true
			}
			return []any{pe.modFile(mf), pnil{}}, true
		}
	}
}

// modFile converts a parsed go.mod file.
func (pe *PE) modFile(f *modfile.File) any {
	ver := func(v module.Version) any {
		return pe.mkStruct(pe.typ("golang.org/x/mod/module", "Version"), map[string]any{"Path": v.Path, "Version": v.Version})
	}
	fields := map[string]any{}
	list := func(n string, cells []*pcell) {
		if cells != nil {
			fields[n] = pslice{cells}
		}
	}
	var reps, reqs []*pcell
	for _, r := range f.Replace {
		reps = append(reps, &pcell{ptr(pe.mkStruct(pe.typ(modPathFile, "Replace"), map[string]any{"Old": ver(r.Old), "New": ver(r.New)}))})
	}
	for _, r := range f.Require {
		reqs = append(reqs, &pcell{ptr(pe.mkStruct(pe.typ(modPathFile, "Require"), map[string]any{"Mod": ver(r.Mod), "Indirect": r.Indirect}))})
	}
	list("Replace", reps)
	list("Require", reqs)
	if f.Module != nil {
		fields["Module"] = ptr(pe.mkStruct(pe.typ(modPathFile, "Module"), map[string]any{"Mod": ver(f.Module.Mod), "Deprecated": f.Module.Deprecated}))
	}
	return ptr(pe.mkStruct(pe.typ(modPathFile, "File"), fields))
}

// found is the name under which a file that is to be read is known.
func (g *genWorld) found(n string) string {
	if _, ok := g.files[n]; ok {
		return n
	}
	if a := g.in.abs(n); !strings.HasPrefix(n, "~") {
		if _, ok := g.files[a]; ok {
			return a
		}
	}
	return path.Clean(n)
}
