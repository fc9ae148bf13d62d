package verifspec

// Document texts for readers: JSON objects that follow the tags of a model, and tag-value lines.

import (
	"encoding/json"
	"reflect"
	"strings"
)

var someIDs = []string{"SPDXRef-a", "SPDXRef-b", "SPDXRef-DOCUMENT", "DocumentRef-x:SPDXRef-a", "DocumentRef-x:SPDXRef-b", "NONE", "NOASSERTION"}

// text is a string for use in a document; a few of them recur.
func (g *gen) text() string {
	if len(g.few) > 0 && g.Intn(2) == 0 {
		return g.few[g.Intn(len(g.few))]
	}
	s := g.str()
	g.few = append(g.few, s)
	return s
}

func quote(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

// jsonText is a JSON text that mostly fits t.
func (g *gen) jsonText(t reflect.Type, depth int) string {
	if g.Intn(40) == 0 {
		return []string{"null", "1", "true", "\"x\"", "[]", "{}", "{"}[g.Intn(7)]
	}
	switch t.Name() {
	case "ElementID":
		return quote(someIDs[g.Intn(3)])
	case "DocElementID":
		return quote(someIDs[g.Intn(len(someIDs))])
	case "Creator", "Annotator", "Supplier", "Originator":
		return quote([]string{"Person: a", "Organization: b (c@d)", "Tool: t-1", "NOASSERTION", "Person: "}[g.Intn(5)])
	}
	switch t.Kind() {
	case reflect.Ptr:
		if g.Intn(6) == 0 {
			return "null"
		}
		return g.jsonText(t.Elem(), depth)
	case reflect.Bool:
		return []string{"true", "false", "null"}[g.Intn(3)]
	case reflect.Int:
		return []string{"0", "1", "2", "17", "null", "1.5"}[g.Intn(6)]
	case reflect.String:
		if len(g.words) > 0 && g.Intn(2) == 0 {
			return quote(g.words[g.Intn(len(g.words))])
		}
		if g.Intn(4) == 0 {
			return quote([]string{"CONTAINS", "CONTAINED_BY", "DESCRIBES", "DESCRIBED_BY", "PACKAGE_MANAGER", "PACKAGE-MANAGER", "A_B_C", "A-B-C", "_", "my_type"}[g.Intn(10)])
		}
		return quote(g.text())
	case reflect.Slice, reflect.Array:
		n := g.Intn(4)
		if depth > 4 {
			n = 0
		}
		var out []string
		for i := 0; i < n; i++ {
			if t.Elem().Kind() == reflect.Ptr && g.Intn(4) == 0 {
				out = append(out, "null")
				if g.Intn(2) == 0 {
					out = append(out, "null")
				}
				continue
			}
			out = append(out, g.jsonText(t.Elem(), depth+1))
		}
		return "[" + strings.Join(out, ",") + "]"
	case reflect.Map:
		return "{}"
	case reflect.Struct:
		var out []string
		add := func(name, val string) { out = append(out, quote(name)+":"+val) }
		var fields func(t reflect.Type)
		keep := []int{30, 60, 95}[g.Intn(3)]
		if depth > 2 {
			keep = 40
		}
		fields = func(t reflect.Type) {
			for i := 0; i < t.NumField(); i++ {
				f := t.Field(i)
				name, _, _ := strings.Cut(f.Tag.Get("json"), ",")
				if f.Anonymous && name == "" && f.Type.Kind() == reflect.Struct {
					fields(f.Type)
					continue
				}
				if name == "" || name == "-" {
					if f.PkgPath == "" && g.Intn(6) == 0 {
						add(f.Name, g.jsonText(f.Type, depth+1))
					}
					continue
				}
				if g.Intn(100) >= keep {
					continue
				}
				add(name, g.jsonText(f.Type, depth+1))
			}
		}
		fields(t)
		ids := func() string {
			var l []string
			for i := g.Intn(4); i > 0; i-- {
				l = append(l, quote(someIDs[g.Intn(3)]))
			}
			if g.Intn(12) == 0 {
				l = append(l, "1")
			}
			return "[" + strings.Join(l, ",") + "]"
		}
		switch t.Name() {
		case "Package":
			if g.Intn(3) > 0 {
				add("hasFiles", ids())
			}
			if g.Intn(2) == 0 {
				add("filesAnalyzed", []string{"true", "false", "null", "1"}[g.Intn(4)])
			}
		case "Document":
			if g.Intn(3) > 0 {
				add("documentDescribes", ids())
			}
		}
		g.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
		return "{" + strings.Join(out, ",") + "}"
	}
	return "null"
}

// document is a text for a reader.
func (g *gen) document() string {
	g.few = nil
	ver := []string{"SPDX-2.1", "SPDX-2.2", "SPDX-2.3", "SPDX-2.3", "SPDX-2.4", ""}[g.Intn(6)]
	if g.input == "tagvalue" {
		var sb strings.Builder
		line := func(l string) { sb.WriteString(l + "\n") }
		if g.Intn(5) > 0 {
			line("SPDXVersion: " + ver)
		}
		some := []string{"DataLicense: CC0-1.0", "SPDXID: SPDXRef-DOCUMENT", "DocumentName: d", "Creator: Tool: t", "Created: 2020-01-01T00:00:00Z", "# c", "", "DocumentComment: <text>a\nSPDXVersion: SPDX-2.2\nb</text>", "SPDXVersion: SPDX-2.2", "SPDXVersion: SPDX-2.3", "SPDXVersion: SPDX-2.1", "PackageName: p", "SPDXID: SPDXRef-p", "PackageVersion: 1", "ReleaseDate: 2020-01-01T00:00:00Z", "PackageAttributionText: x", "FileName: f", "SPDXID: SPDXRef-f", "FileChecksum: SHA3-256: a", "FileChecksum: SHA1: a", "Relationship: SPDXRef-a CONTAINS SPDXRef-b", "x", "Unknown: y", "LicenseID: LicenseRef-1", "ExtractedText: t"}
		for i, n := 0, g.Intn(12); i < n; i++ {
			line(some[g.Intn(len(some))])
		}
		return sb.String()
	}
	if g.input == "rdf" {
		var sb strings.Builder
		sb.WriteString(`<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:spdx="http://spdx.org/rdf/terms#" xmlns:doap="http://usefulinc.com/ns/doap#" xmlns:rdfs="http://www.w3.org/2000/01/rdf-schema#" xmlns:ex="http://example.org/t#">` + "\n")
		sb.WriteString(`<spdx:SpdxDocument rdf:about="http://example.org/d#SPDXRef-DOCUMENT">`)
		some := []string{"<spdx:specVersion>" + ver + "</spdx:specVersion>", "<spdx:specVersion>SPDX-2.2</spdx:specVersion>", "<spdx:specVersion>SPDX-2.3</spdx:specVersion>", "<ex:specVersion>SPDX-9</ex:specVersion>", "<ex:specVersion>SPDX-2.2</ex:specVersion>", "<spdx:name>d</spdx:name>", "<rdfs:comment>c</rdfs:comment>", `<spdx:dataLicense rdf:resource="http://spdx.org/licenses/CC0-1.0"/>`, "<spdx:name>" + g.word() + "</spdx:name>"}
		for i := g.Intn(5); i >= 0; i-- {
			sb.WriteString(some[g.Intn(len(some))] + "\n")
		}
		sb.WriteString("</spdx:SpdxDocument></rdf:RDF>\n")
		return sb.String()
	}
	var docs []reflect.Type
	for _, d := range dynTypes {
		if d.Kind() == reflect.Struct && d.Name() == "Document" {
			docs = append(docs, d)
		}
	}
	if len(docs) == 0 {
		return "{}"
	}
	d := docs[g.Intn(len(docs))]
	s := g.jsonText(d, 0)
	if strings.HasPrefix(s, "{") && len(s) > 2 {
		v := "SPDX-" + strings.Replace(strings.TrimPrefix(d.PkgPath()[strings.LastIndex(d.PkgPath(), "/")+1:], "v"), "_", ".", 1)
		if g.Intn(5) == 0 {
			v = ver
		}
		s = "{\"spdxVersion\":" + quote(v) + "," + s[1:]
	}
	return s
}
