package main

// Obligations over type declarations: the fields of the model are the data a codec and the conversion chain carry.
// Each obligation is generated from the declarations of the current source and decided by evaluation.

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"
)

func init() {
	structChecks["fields"] = fieldsCheck
	structChecks["adjacent"] = adjacentCheck
}

func (P *Program) typeNamed(rel, name string) *types.Named {
	for path, p := range P.pkgs {
		if relPkg(path) == rel && p.Types != nil {
			if o, ok := p.Types.Scope().Lookup(name).(*types.TypeName); ok {
				n, _ := types.Unalias(o.Type()).(*types.Named)
				return n
			}
		}
	}
	return nil
}

type structObls struct{ obls []*Obl }

func (s *structObls) add(unit, name string, ok bool, detail string) {
	o := &Obl{Unit: unit, Name: name, Class: "struct", Goal: Bool(ok), Result: "proved", Solver: "evaluation"}
	if !ok {
		o.Result, o.Detail = "failed", detail
	}
	s.obls = append(s.obls, o)
}

// jsonExcluded: fields that are not part of the JSON schema of their version.
var jsonExcluded = map[string]string{
	"Package.IsUnpackaged": "2_2 2_3", "Package.IsFilesAnalyzedTagPresent": "2_1 2_2 2_3",
	"Document.Reviews": "2_1 2_2 2_3", "Annotation.AnnotationSPDXIdentifier": "2_1 2_2 2_3",
	"File.ArtifactOfProjects": "2_1 2_2", "File.FileDependencies": "2_1 2_2", "File.Snippets": "2_1 2_2 2_3",
	"Snippet.SnippetAttributionTexts": "2_2 2_3",
}

// elemTypes are the named struct types reachable from t through fields, lists, maps and pointers.
func elemTypes(t types.Type, seen map[*types.Named]bool, visit func(n *types.Named, s *types.Struct)) {
	switch x := types.Unalias(t).(type) {
	case *types.Pointer:
		elemTypes(x.Elem(), seen, visit)
	case *types.Slice:
		elemTypes(x.Elem(), seen, visit)
	case *types.Array:
		elemTypes(x.Elem(), seen, visit)
	case *types.Map:
		elemTypes(x.Key(), seen, visit)
		elemTypes(x.Elem(), seen, visit)
	case *types.Named:
		if seen[x] {
			return
		}
		seen[x] = true
		if s, ok := x.Underlying().(*types.Struct); ok {
			visit(x, s)
			for i := 0; i < s.NumFields(); i++ {
				elemTypes(s.Field(i).Type(), seen, visit)
			}
		} else {
			elemTypes(x.Underlying(), seen, visit)
		}
	}
}

func hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// jsonFields lists the properties encoding/json sees, with embedded structs flattened.
type jsonField struct {
	owner, field, name, opts string
	typ                      types.Type
	skip                     bool
	depth                    int
}

func jsonFields(owner string, s *types.Struct, depth int) (out []jsonField) {
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		tag := reflect.StructTag(s.Tag(i)).Get("json")
		name, opts, _ := strings.Cut(tag, ",")
		if f.Embedded() && name == "" {
			u := types.Unalias(f.Type())
			if p, ok := u.(*types.Pointer); ok {
				u = p.Elem()
			}
			if es, ok := u.Underlying().(*types.Struct); ok {
				out = append(out, jsonFields(owner+"."+f.Name(), es, depth+1)...)
				continue
			}
		}
		if !f.Exported() {
			continue
		}
		if tag == "-" {
			out = append(out, jsonField{owner, f.Name(), "", "", f.Type(), true, depth})
			continue
		}
		if name == "" {
			name = f.Name()
		}
		out = append(out, jsonField{owner, f.Name(), name, opts, f.Type(), false, depth})
	}
	return
}

// emptyIsZero: the values omitempty leaves out are exactly the zero value (up to nil and empty lists).
func emptyIsZero(t types.Type) bool {
	switch types.Unalias(t).Underlying().(type) {
	case *types.Array:
		return false
	}
	return true
}

func fieldsCheck(P *Program) *UnitResult {
	ver := structArg
	res := &UnitResult{Key: "fields:" + ver}
	root := P.typeNamed("spdx/v2/v"+ver, "Document")
	if root == nil {
		res.Unsupported = "no Document in spdx/v2/v" + ver
		return res
	}
	var so structObls
	n := 0
	// how each type is used: by value somewhere?
	byValue := map[*types.Named]bool{root: true}
	elemTypes(root, map[*types.Named]bool{}, func(_ *types.Named, s *types.Struct) {
		for i := 0; i < s.NumFields(); i++ {
			var use func(t types.Type)
			use = func(t types.Type) {
				switch x := types.Unalias(t).(type) {
				case *types.Slice:
					use(x.Elem())
				case *types.Map:
					use(x.Elem())
				case *types.Named:
					byValue[x] = true
				}
			}
			use(s.Field(i).Type())
		}
	})
	coded := func(nm *types.Named, unit string) (marshal, unmarshal bool) {
		ptr := types.NewPointer(nm)
		marshal, unmarshal = hasMethod(ptr, "MarshalJSON"), hasMethod(ptr, "UnmarshalJSON")
		if byValue[nm] && marshal {
			so.add(unit, "the encoder of "+nm.Obj().Name()+" also serves values", hasMethod(nm, "MarshalJSON"), "MarshalJSON has a pointer receiver, but values that cannot be addressed are encoded")
		}
		if ys := hasMethod(ptr, "MarshalYAML") || hasMethod(ptr, "UnmarshalYAML"); ys {
			so.add(unit, nm.Obj().Name()+" has one codec", false, "a separate YAML codec is not used by the JSON based YAML codec")
		}
		return
	}
	seen := map[*types.Named]bool{}
	elemTypes(root, seen, func(nm *types.Named, s *types.Struct) {
		n++
		unit := shortType(nm)
		name := nm.Obj().Name()
		mj, _ := coded(nm, unit)
		fs := jsonFields(name, s, 0)
		byName := map[string][]jsonField{}
		for _, f := range fs {
			if f.skip {
				vs := jsonExcluded[name+"."+f.field]
				so.add(unit, "field "+f.field+" is excluded from JSON by the schema", contains(strings.Fields(vs), ver), "the field is left out of JSON and YAML, but it is part of the schema")
				continue
			}
			byName[strings.ToLower(f.name)] = append(byName[strings.ToLower(f.name)], f)
		}
		if mj && strings.HasPrefix(unit, "spdx/v2/common.") || mj && relPkg(nm.Obj().Pkg().Path()) == "spdx/v2/common" {
			return // encoded as text by its own codec, which is specified by a contract (P07)
		}
		for _, f := range fs {
			if f.skip {
				continue
			}
			var same []string
			for _, o := range byName[strings.ToLower(f.name)] {
				if o.owner != f.owner || o.field != f.field {
					same = append(same, o.field)
				}
			}
			so.add(unit, "property "+f.name+" of field "+f.field+" is unique in its object", len(same) == 0, fmt.Sprintf("fields %s and %s share the property name %q", f.field, strings.Join(same, ", "), f.name))
			so.add(unit, "property "+f.name+" is a plain name", validTag(f.name), "encoding/json ignores this property name")
			opts := strings.Split(f.opts, ",")
			if contains(opts, "omitempty") || contains(opts, "omitzero") {
				so.add(unit, "field "+f.field+" is left out only when empty", emptyIsZero(f.typ) && !(f.field == "FilesAnalyzed" && hasMethod(types.NewPointer(nm), "UnmarshalJSON")), "the value left out is not the value an absent property decodes to")
			}
			for _, o := range opts {
				if o != "" && o != "omitempty" && o != "omitzero" {
					so.add(unit, "field "+f.field+" has no unusual option", o == "string" && false, "option "+o+" changes the encoded value")
				}
			}
			if why := encodable(f.typ, map[types.Type]bool{}); why != "" {
				so.add(unit, "field "+f.field+" can be encoded", false, why)
			} else {
				so.add(unit, "field "+f.field+" can be encoded", true, "")
			}
		}
	})
	// named types with one half of a codec only
	var nms []*types.Named
	for nm := range seen {
		nms = append(nms, nm)
	}
	sort.Slice(nms, func(i, j int) bool { return shortType(nms[i]) < shortType(nms[j]) })
	for _, nm := range nms {
		if _, ok := nm.Underlying().(*types.Struct); ok {
			continue
		}
		coded(nm, shortType(nm))
	}
	res.Obls = so.obls
	if n < 8 {
		res.Unsupported = "fewer element types than expected"
	}
	return res
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

func validTag(s string) bool {
	for _, c := range s {
		if !strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c) && !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			return false
		}
	}
	return s != ""
}

// encodable: the JSON encoder accepts every value of t and the decoder brings it back.
func encodable(t types.Type, seen map[types.Type]bool) string {
	t = types.Unalias(t)
	if seen[t] {
		return ""
	}
	seen[t] = true
	if nm, ok := t.(*types.Named); ok {
		if hasMethod(types.NewPointer(nm), "MarshalJSON") {
			if !hasMethod(types.NewPointer(nm), "UnmarshalJSON") {
				return nm.Obj().Name() + " has an encoder but no decoder"
			}
			return ""
		}
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		if x.Info()&(types.IsString|types.IsBoolean|types.IsInteger) == 0 {
			return "values of type " + x.String() + " do not survive"
		}
	case *types.Pointer:
		return encodable(x.Elem(), seen)
	case *types.Slice:
		return encodable(x.Elem(), seen)
	case *types.Array:
		return encodable(x.Elem(), seen)
	case *types.Map:
		if b, ok := x.Key().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
			return "map keys are not strings"
		}
		return encodable(x.Elem(), seen)
	case *types.Struct:
		return ""
	case *types.Interface:
		return "values of an interface type do not survive"
	default:
		return "values of type " + t.String() + " cannot be encoded"
	}
	return ""
}

// onlyIn: fields one version of the model has and the adjacent one has not.
var onlyIn = map[string][]string{
	"2_2>2_1": {"Package.IsUnpackaged", "Package.PackageAttributionTexts", "File.FileAttributionTexts", "Snippet.SnippetAttributionTexts"},
	"2_3>2_2": {"Package.PrimaryPackagePurpose", "Package.ReleaseDate", "Package.BuiltDate", "Package.ValidUntilDate"},
}

func adjacentCheck(P *Program) *UnitResult {
	from, to, _ := strings.Cut(structArg, ",")
	res := &UnitResult{Key: "adjacent:" + structArg}
	a, b := P.typeNamed("spdx/v2/v"+from, "Document"), P.typeNamed("spdx/v2/v"+to, "Document")
	if a == nil || b == nil {
		res.Unsupported = "no Document in one of the versions"
		return res
	}
	var so structObls
	seen := map[[2]types.Type]bool{}
	n := 0
	var pair func(unit, what string, x, y types.Type)
	deref := func(t types.Type) types.Type {
		if p, ok := types.Unalias(t).(*types.Pointer); ok {
			return p.Elem()
		}
		return t
	}
	pair = func(unit, what string, x, y types.Type) {
		x, y = types.Unalias(deref(x)), types.Unalias(deref(y))
		sx, okx := x.Underlying().(*types.Struct)
		sy, oky := y.Underlying().(*types.Struct)
		if okx && oky {
			if seen[[2]types.Type{x, y}] {
				return
			}
			seen[[2]types.Type{x, y}] = true
			n++
			unit := shortType(x)
			fy := map[string]*types.Var{}
			for i := 0; i < sy.NumFields(); i++ {
				fy[sy.Field(i).Name()] = sy.Field(i)
			}
			tn := shortType(x)
			tn = tn[strings.LastIndexByte(tn, '.')+1:]
			for i := 0; i < sx.NumFields(); i++ {
				f := sx.Field(i)
				if !f.Exported() {
					if g := fy[f.Name()]; g != nil || !types.Identical(x, y) {
						// the converter sets fields by reflection, which cannot set unexported ones
						so.add(unit, "field "+f.Name()+" does not stop the conversion to "+to, g == nil || types.Identical(x, y), "the converter cannot set the unexported field "+f.Name())
					}
					continue
				}
				g := fy[f.Name()]
				if g == nil {
					so.add(unit, "field "+f.Name()+" exists in "+to, contains(onlyIn[from+">"+to], tn+"."+f.Name()), "the conversion to "+to+" drops the field")
					continue
				}
				pair(unit, "field "+f.Name()+" is carried over to "+to, f.Type(), g.Type())
			}
			return
		}
		if okx != oky {
			so.add(unit, what, false, "no conversion from "+shortType(x)+" to "+shortType(y))
			return
		}
		switch ux := x.Underlying().(type) {
		case *types.Slice:
			uy, ok := y.Underlying().(*types.Slice)
			so.add(unit, what, ok, "no conversion from "+shortType(x)+" to "+shortType(y))
			if ok {
				pair(unit, what+" (elements)", ux.Elem(), uy.Elem())
			}
		case *types.Map:
			uy, ok := y.Underlying().(*types.Map)
			so.add(unit, what, ok, "no conversion from "+shortType(x)+" to "+shortType(y))
			if ok {
				pair(unit, what+" (keys)", ux.Key(), uy.Key())
				pair(unit, what+" (values)", ux.Elem(), uy.Elem())
			}
		default:
			bx, ok1 := ux.(*types.Basic)
			by, ok2 := y.Underlying().(*types.Basic)
			so.add(unit, what, ok1 && ok2 && bx.Kind() == by.Kind(), "the conversion from "+shortType(x)+" to "+shortType(y)+" may lose the value")
		}
	}
	pair(shortType(a), "document", a, b)
	res.Obls = so.obls
	if n < 8 {
		res.Unsupported = "fewer element types than expected"
	}
	return res
}
