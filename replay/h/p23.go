package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/spdx/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_1"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	"github.com/spdx/tools-golang/yaml"
)

// left out of JSON and YAML by the schema of the version
var leftOut = map[string]string{
	"Package.IsUnpackaged": "2_2 2_3", "Package.IsFilesAnalyzedTagPresent": "2_1 2_2 2_3",
	"Document.Reviews": "2_1 2_2 2_3", "Annotation.AnnotationSPDXIdentifier": "2_1 2_2 2_3",
	"File.ArtifactOfProjects": "2_1 2_2", "File.FileDependencies": "2_1 2_2", "File.Snippets": "2_1 2_2 2_3",
	"Snippet.SnippetAttributionTexts": "2_2 2_3",
}

var onlyInModel = map[string]bool{
	"2_2>2_1 Package.IsUnpackaged": true, "2_2>2_1 Package.PackageAttributionTexts": true, "2_2>2_1 File.FileAttributionTexts": true, "2_2>2_1 Snippet.SnippetAttributionTexts": true,
	"2_3>2_2 Package.PrimaryPackagePurpose": true, "2_3>2_2 Package.ReleaseDate": true, "2_3>2_2 Package.BuiltDate": true, "2_3>2_2 Package.ValidUntilDate": true,
}

type filler struct {
	*Ctx
	keep, k int
	skip    func(typ, field string) bool
}

func (f *filler) name() string { f.k++; return fmt.Sprintf("v%d", f.k) }

func (f *filler) fill(x reflect.Value, depth int) {
	t := x.Type()
	set := func(kind, kv, name string) {
		x.FieldByName(kind).SetString(kv)
		x.FieldByName(name).SetString(f.name())
	}
	switch t.Name() {
	case "DocElementID":
		switch f.Intn(4) {
		case 0:
			x.FieldByName("DocumentRefID").SetString(f.name())
			x.FieldByName("ElementRefID").SetString(f.name())
		case 1:
			x.FieldByName("SpecialID").SetString("NOASSERTION")
		default:
			x.FieldByName("ElementRefID").SetString(f.name())
		}
		return
	case "Creator":
		set("CreatorType", "Tool", "Creator")
		return
	case "Annotator":
		set("AnnotatorType", "Person", "Annotator")
		return
	case "Supplier":
		set("SupplierType", "Organization", "Supplier")
		return
	case "Originator":
		set("OriginatorType", "Person", "Originator")
		return
	}
	switch x.Kind() {
	case reflect.String:
		x.SetString(f.name())
	case reflect.Bool:
		x.SetBool(f.bool())
	case reflect.Int:
		x.SetInt(int64(1 + f.Intn(50)))
	case reflect.Ptr:
		n := reflect.New(t.Elem())
		f.fill(n.Elem(), depth)
		if !n.Elem().IsZero() {
			x.Set(n)
		}
	case reflect.Slice:
		if depth > 4 {
			return
		}
		s := reflect.MakeSlice(t, 1+f.Intn(2), 4)
		for i := 0; i < s.Len(); i++ {
			f.fill(s.Index(i), depth+1)
		}
		for i := s.Len() - 1; i >= 0; i-- { // an element that stayed nil is left out
			if s.Index(i).Kind() == reflect.Ptr && s.Index(i).IsNil() {
				s = s.Slice(0, i)
			}
		}
		if s.Len() > 0 {
			x.Set(s)
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			sf := t.Field(i)
			if sf.PkgPath != "" || f.skip(t.Name(), sf.Name) {
				continue
			}
			ft := sf.Type.Name()
			must := sf.Type.Kind() == reflect.Struct || ft == "DocumentID" || ft == "ElementID" || ft == "DocElementID" || ft == "Annotator" || ft == "Creator"
			if !must && f.Intn(100) >= f.keep {
				continue
			}
			f.fill(x.Field(i), depth)
		}
	}
}

// differ names the first part of a that b does not have with an equal value.
func (f *filler) differ(a, b reflect.Value, at string, missing func(typ, field string) bool) string {
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() {
			return ""
		}
		if b.Kind() == reflect.Ptr {
			if b.IsNil() {
				if a.Elem().IsZero() {
					return ""
				}
				return at + " is lost"
			}
			b = b.Elem()
		}
		return f.differ(a.Elem(), b, at, missing)
	case reflect.Slice:
		if b.Kind() != reflect.Slice || a.Len() != b.Len() {
			return fmt.Sprintf("%s: %v became %v", at, a.Interface(), b.Interface())
		}
		for i := 0; i < a.Len(); i++ {
			if d := f.differ(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", at, i), missing); d != "" {
				return d
			}
		}
		return ""
	case reflect.Struct:
		if b.Kind() == reflect.Ptr {
			if b.IsNil() {
				if a.IsZero() {
					return ""
				}
				return at + " is lost"
			}
			b = b.Elem()
		}
		for i := 0; i < a.NumField(); i++ {
			sf := a.Type().Field(i)
			if sf.PkgPath != "" || f.skip(a.Type().Name(), sf.Name) {
				continue
			}
			g := b.FieldByName(sf.Name)
			if !g.IsValid() {
				if missing != nil && missing(a.Type().Name(), sf.Name) || a.Field(i).IsZero() {
					continue
				}
				return at + "." + sf.Name + " is lost"
			}
			if d := f.differ(a.Field(i), g, at+"."+sf.Name, missing); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		return ""
	}
	if fmt.Sprint(a.Interface()) != fmt.Sprint(b.Interface()) {
		return fmt.Sprintf("%s: %#v became %#v", at, a.Interface(), b.Interface())
	}
	return ""
}

func models() map[string]func() common.AnyDocument {
	return map[string]func() common.AnyDocument{
		"2_1": func() common.AnyDocument { return &v2_1.Document{} },
		"2_2": func() common.AnyDocument { return &v2_2.Document{} },
		"2_3": func() common.AnyDocument { return &v2_3.Document{} },
	}
}

var modelVersions = []string{"2_1", "2_2", "2_3"}

func init() {
	table["P23"] = func(c *Ctx) string {
		ver := modelVersions[c.Intn(3)]
		f := &filler{Ctx: c, keep: []int{100, 60, 15}[c.Intn(3)]}
		f.skip = func(typ, field string) bool { return strings.Contains(leftOut[typ+"."+field], ver) }
		d := models()[ver]()
		f.fill(reflect.ValueOf(d).Elem(), 0)
		reflect.ValueOf(d).Elem().FieldByName("SPDXVersion").SetString("SPDX-" + strings.Replace(ver, "_", ".", 1))
		var buf bytes.Buffer
		lang := c.pick("JSON", "YAML")
		write, read := json.Write(d, &buf), json.ReadInto
		if lang == "YAML" {
			buf.Reset()
			write, read = yaml.Write(d, &buf), yaml.ReadInto
		}
		current = fmt.Sprintf("a %s document of SPDX-%s, written as\n%s", lang, ver, buf.String())
		if write != nil {
			return fmt.Sprintf("writing a document of SPDX-%s as %s fails: %v", ver, lang, write)
		}
		e := models()[ver]()
		if err := read(bytes.NewReader(buf.Bytes()), e); err != nil {
			return current + "\ncannot be read back: " + err.Error()
		}
		if m := f.differ(reflect.ValueOf(d), reflect.ValueOf(e), "document", nil); m != "" {
			return current + "\nand read back: " + m
		}
		return ""
	}
	table["P11"] = func(c *Ctx) string {
		from := c.Intn(3)
		to := (from + 1 + c.Intn(2)) % 3
		a, b := modelVersions[from], modelVersions[to]
		f := &filler{Ctx: c, keep: []int{100, 60, 15}[c.Intn(3)]}
		f.skip = func(typ, field string) bool { return typ == "Document" && field == "SPDXVersion" }
		d, e := models()[a](), models()[b]()
		f.fill(reflect.ValueOf(d).Elem(), 0)
		reflect.ValueOf(d).Elem().FieldByName("SPDXVersion").SetString("SPDX-" + strings.Replace(a, "_", ".", 1))
		var buf bytes.Buffer
		json.Write(d, &buf)
		current = fmt.Sprintf("a document of SPDX-%s, in JSON\n%s", a, buf.String())
		if err := convert.Document(d, e); err != nil {
			return current + "\ncannot be converted to SPDX-" + b + ": " + err.Error()
		}
		if v := reflect.ValueOf(e).Elem().FieldByName("SPDXVersion").String(); v != "SPDX-"+strings.Replace(b, "_", ".", 1) {
			return current + "\nconverted to SPDX-" + b + " declares " + v
		}
		if m := f.differ(reflect.ValueOf(d), reflect.ValueOf(e), "document", func(typ, field string) bool {
			what := " " + typ + "." + field
			return from > to && (onlyInModel["2_2>2_1"+what] && to == 0 || onlyInModel["2_3>2_2"+what] && from == 2)
		}); m != "" {
			return current + "\nconverted to SPDX-" + b + ": " + m
		}
		return ""
	}
}
