package common

import (
	"strings"
	"unicode/utf8"

	v "github.com/spdx/tools-golang/verifspec"
)

// P07: what is encoded is decoded, whatever was in the destination before.

// zzPlain: text a well-formed identifier or actor is made of.
func zzPlain(s string) bool { return s != "" && utf8.ValidString(s) }

func zzTrimmed(s string) bool { return zzPlain(s) && strings.TrimSpace(s) == s }

func zzName(prefix, s string) bool { return zzPlain(s) && !strings.HasPrefix(s, prefix) }

// zzDoc is the text as it appears in a document written with or without HTML escaping.
func zzDoc(b []byte, escape bool) []byte { return v.Uninterp[[]byte]("jsonembed", b, escape) }

func zzl_jsonElementID(id string, d ElementID, escape bool) {
	v.Assume(zzName("SPDXRef-", id), "a well-formed element identifier")
	x := ElementID(id)
	b, err := x.MarshalJSON()
	v.Assert(err == nil, "encoded")
	err = d.UnmarshalJSON(zzDoc(b, escape))
	v.Assert(err == nil && d == x, "decoded to the same value")
}

func zzl_jsonDocumentID(id string, d DocumentID, escape bool) {
	v.Assume(zzName("DocumentRef-", id), "a well-formed document identifier")
	x := DocumentID(id)
	b, err := x.MarshalJSON()
	v.Assert(err == nil, "encoded")
	err = d.UnmarshalJSON(zzDoc(b, escape))
	v.Assert(err == nil && d == x, "decoded to the same value")
}

func zzl_jsonLocalID(id string, d DocElementID, escape bool) {
	v.Assume(zzName("SPDXRef-", id), "a well-formed element identifier")
	x := DocElementID{ElementRefID: ElementID(id)}
	b, err := x.MarshalJSON()
	v.Assert(err == nil, "encoded")
	err = d.UnmarshalJSON(zzDoc(b, escape))
	v.Assert(err == nil && d == x, "decoded to the same value")
}

func zzl_jsonForeignID(doc, id string, d DocElementID, escape bool) {
	v.Assume(zzName("DocumentRef-", doc) && zzName("SPDXRef-", id) && !strings.Contains(doc, ":"), "a well-formed document-qualified identifier")
	x := DocElementID{DocumentRefID: DocumentID(doc), ElementRefID: ElementID(id)}
	b, err := x.MarshalJSON()
	v.Assert(err == nil, "encoded")
	err = d.UnmarshalJSON(zzDoc(b, escape))
	v.Assert(err == nil && d == x, "decoded to the same value")
}

func zzl_jsonNone(d DocElementID, escape bool) {
	x := DocElementID{SpecialID: "NONE"}
	b, err := x.MarshalJSON()
	v.Assert(err == nil, "encoded")
	err = d.UnmarshalJSON(zzDoc(b, escape))
	v.Assert(err == nil && d == x, "decoded to the same value")
}

func zzl_jsonNoAssertion(d DocElementID, escape bool) {
	x := DocElementID{SpecialID: "NOASSERTION"}
	b, err := x.MarshalJSON()
	v.Assert(err == nil, "encoded")
	err = d.UnmarshalJSON(zzDoc(b, escape))
	v.Assert(err == nil && d == x, "decoded to the same value")
}

func zzl_jsonCreator(typ, name string, d Creator, escape bool) {
	v.Assume(zzTrimmed(typ) && zzTrimmed(name) && !strings.Contains(typ, ":"), "a well-formed actor")
	x := Creator{CreatorType: typ, Creator: name}
	b, err := x.MarshalJSON()
	v.Assert(err == nil, "encoded")
	err = d.UnmarshalJSON(zzDoc(b, escape))
	v.Assert(err == nil && d == x, "decoded to the same value")
}

func zzl_jsonAnnotator(typ, name string, d Annotator, escape bool) {
	v.Assume(zzTrimmed(typ) && zzTrimmed(name) && !strings.Contains(typ, ":"), "a well-formed actor")
	x := Annotator{AnnotatorType: typ, Annotator: name}
	b, err := x.MarshalJSON()
	v.Assert(err == nil, "encoded")
	err = d.UnmarshalJSON(zzDoc(b, escape))
	v.Assert(err == nil && d == x, "decoded to the same value")
}

func zzl_jsonSupplier(typ, raw string, d Supplier, escape bool) {
	name := strings.TrimSpace(raw)
	v.Assume(zzTrimmed(typ) && zzTrimmed(name) && !strings.Contains(typ, ":") && name != "NOASSERTION", "a well-formed actor")
	x := Supplier{SupplierType: typ, Supplier: name}
	b, err := x.MarshalJSON()
	v.Assert(err == nil, "encoded")
	err = d.UnmarshalJSON(zzDoc(b, escape))
	v.Assert(err == nil && d == x, "decoded to the same value")
}

func zzl_jsonNoSupplier(d Supplier, escape bool) {
	x := Supplier{Supplier: "NOASSERTION"}
	b, err := x.MarshalJSON()
	v.Assert(err == nil, "encoded")
	err = d.UnmarshalJSON(zzDoc(b, escape))
	v.Assert(err == nil && d == x, "decoded to the same value")
}

func zzl_jsonOriginator(typ, raw string, d Originator, escape bool) {
	name := strings.TrimSpace(raw)
	v.Assume(zzTrimmed(typ) && zzTrimmed(name) && !strings.Contains(typ, ":") && name != "NOASSERTION", "a well-formed actor")
	x := Originator{OriginatorType: typ, Originator: name}
	b, err := x.MarshalJSON()
	v.Assert(err == nil, "encoded")
	err = d.UnmarshalJSON(zzDoc(b, escape))
	v.Assert(err == nil && d == x, "decoded to the same value")
}

func zzl_jsonNoOriginator(d Originator, escape bool) {
	x := Originator{Originator: "NOASSERTION"}
	b, err := x.MarshalJSON()
	v.Assert(err == nil, "encoded")
	err = d.UnmarshalJSON(zzDoc(b, escape))
	v.Assert(err == nil && d == x, "decoded to the same value")
}
