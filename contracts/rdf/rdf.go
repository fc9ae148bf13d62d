package rdf

import (
	"io"

	"github.com/spdx/gordf/rdfloader"
	gordfParser "github.com/spdx/gordf/rdfloader/parser"

	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/spdx/common"
	v2_2_reader "github.com/spdx/tools-golang/spdx/v2/v2_2/rdf/reader"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	v2_3_reader "github.com/spdx/tools-golang/spdx/v2/v2_3/rdf/reader"
	v "github.com/spdx/tools-golang/verifspec"
)

// P10: the version is the object of a specVersion statement.
func zzc_getSpdxVersion(parser *gordfParser.Parser) {
	v.Requires(parser != nil)
	v.Requires(v.All(func(i int) bool {
		return v.Implies(0 <= i && i < len(parser.Triples), parser.Triples[i] != nil && parser.Triples[i].Predicate != nil && parser.Triples[i].Object != nil)
	}))
	v.Spec(func() (string, error) {
		version := ""
		for _, t := range parser.Triples {
			if t.Predicate.ID == "http://spdx.org/rdf/terms#specVersion" {
				version = t.Object.ID
				break
			}
		}
		if version == "" {
			return "", v.Fail()
		}
		return version, nil
	})
}

// zz_complete: the statements of every graph have a predicate and an object.
func zz_complete() {
	v.Requires(v.All(func(g *gordfParser.Parser) bool {
		return v.Implies(g != nil, v.All(func(i int) bool {
			return v.Implies(0 <= i && i < len(g.Triples), g.Triples[i] != nil && g.Triples[i].Predicate != nil && g.Triples[i].Object != nil)
		}))
	}))
}

// P10: the reader of the declared version reads the graph, the result is converted into the target.
func zzc_ReadInto(content io.Reader, doc common.AnyDocument) {
	v.Requires(content != nil)
	zz_complete()
	v.Spec(func() error {
		if !convert.IsPtr(doc) {
			return v.Fail()
		}
		graph, err := rdfloader.LoadFromReaderObject(content)
		if err != nil {
			return v.Fail()
		}
		version, err := getSpdxVersion(graph)
		if err != nil {
			return v.Fail()
		}
		switch version {
		case "SPDX-2.2":
			d, err := v2_2_reader.LoadFromGoRDFParser(graph)
			if err != nil {
				return v.Fail()
			}
			return convert.Document(d, doc)
		case "SPDX-2.3":
			d, err := v2_3_reader.LoadFromGoRDFParser(graph)
			if err != nil {
				return v.Fail()
			}
			return convert.Document(d, doc)
		}
		return v.Fail()
	})
}

// P10: the current model.
func zzc_Read(content io.Reader) {
	v.Requires(content != nil)
	zz_complete()
	v.Spec(func() (*v2_3.Document, error) {
		doc := &v2_3.Document{}
		if err := ReadInto(content, doc); err != nil {
			return nil, v.Fail()
		}
		return doc, nil
	})
}
