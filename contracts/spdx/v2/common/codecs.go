package common

import (
	"strings"

	v "github.com/spdx/tools-golang/verifspec"
)

// P07: the JSON text forms of identifiers and actors.

// zzEnc is the JSON text of a string as it is written without HTML escaping.
func zzEnc(s string) []byte { return v.Uninterp[[]byte]("jsonstr", s, false) }

// zzDec decodes a JSON string (null is the empty string).
func zzDec(data []byte) (string, bool) {
	if v.Uninterp[error]("jsonvalerr", data) != nil {
		return "", false
	}
	if v.Uninterp[bool]("jsonisnull", data) {
		return "", true
	}
	return v.Uninterp[string]("jsonval", data), true
}

func zzWith(prefix, s string) string {
	if strings.HasPrefix(s, prefix) {
		return s
	}
	return prefix + s
}

// zzWithout is the name after the prefix; only a non-empty name is well formed.
func zzWithout(prefix, s string) (string, bool) {
	if strings.HasPrefix(s, prefix) && len(s) > len(prefix) {
		return s[len(prefix):], true
	}
	return "", false
}

func zzc_DocumentID__MarshalJSON(d DocumentID) {
	v.Spec(func() ([]byte, error) { return zzEnc(zzWith("DocumentRef-", string(d))), nil })
}

func zzc_ElementID__MarshalJSON(d ElementID) {
	v.Spec(func() ([]byte, error) { return zzEnc(zzWith("SPDXRef-", string(d))), nil })
}

func zzc_DocumentID__UnmarshalJSON(d *DocumentID, data []byte) {
	v.Requires(d != nil)
	v.Total()
	v.Spec(func() error {
		s, ok := zzDec(data)
		if !ok {
			return v.Fail()
		}
		id, ok := zzWithout("DocumentRef-", s)
		if !ok {
			return v.Fail()
		}
		*d = DocumentID(id)
		return nil
	})
}

func zzc_ElementID__UnmarshalJSON(d *ElementID, data []byte) {
	v.Requires(d != nil)
	v.Total()
	v.Spec(func() error {
		s, ok := zzDec(data)
		if !ok {
			return v.Fail()
		}
		id, ok := zzWithout("SPDXRef-", s)
		if !ok {
			return v.Fail()
		}
		*d = ElementID(id)
		return nil
	})
}

func zzc_DocElementID__MarshalJSON(d DocElementID) {
	v.Spec(func() ([]byte, error) {
		e := zzWith("SPDXRef-", string(d.ElementRefID))
		switch {
		case d.ElementRefID != "" && d.DocumentRefID != "":
			return zzEnc(zzWith("DocumentRef-", string(d.DocumentRefID)) + ":" + e), nil
		case d.ElementRefID != "":
			return zzEnc(e), nil
		case d.SpecialID != "":
			return zzEnc(d.SpecialID), nil
		}
		return nil, v.Fail()
	})
}

func zzc_DocElementID__UnmarshalJSON(d *DocElementID, data []byte) {
	v.Requires(d != nil)
	v.Total()
	v.Spec(func() error {
		s, ok := zzDec(data)
		if !ok {
			return v.Fail()
		}
		if s == "NONE" || s == "NOASSERTION" {
			*d = DocElementID{SpecialID: s}
			return nil
		}
		if !strings.HasPrefix(s, "DocumentRef-") {
			e, ok := zzWithout("SPDXRef-", s)
			if !ok {
				return v.Fail()
			}
			*d = DocElementID{ElementRefID: ElementID(e)}
			return nil
		}
		doc, elt, both := strings.Cut(s, ":")
		r, ok := zzWithout("DocumentRef-", doc)
		if !ok {
			return v.Fail()
		}
		if !both {
			*d = DocElementID{DocumentRefID: DocumentID(r)}
			return nil
		}
		e, ok := zzWithout("SPDXRef-", elt)
		if !ok {
			return v.Fail()
		}
		*d = DocElementID{DocumentRefID: DocumentID(r), ElementRefID: ElementID(e)}
		return nil
	})
}

// zzActor splits "Type: Name".
func zzActor(s string) (typ, name string, ok bool) {
	typ, name, ok = strings.Cut(s, ":")
	return strings.TrimSpace(typ), strings.TrimSpace(name), ok
}

func zzc_Annotator__MarshalJSON(a Annotator) {
	v.Spec(func() ([]byte, error) {
		if a.Annotator == "" {
			return []byte{}, nil
		}
		return zzEnc(a.AnnotatorType + ": " + a.Annotator), nil
	})
}

func zzc_Annotator__UnmarshalJSON(a *Annotator, data []byte) {
	v.Requires(a != nil)
	v.Total()
	v.Spec(func() error {
		s, ok := zzDec(data)
		if !ok {
			return v.Fail()
		}
		t, n, ok := zzActor(s)
		if !ok {
			return v.Fail()
		}
		*a = Annotator{Annotator: n, AnnotatorType: t}
		return nil
	})
}

func zzc_Creator__MarshalJSON(c Creator) {
	v.Spec(func() ([]byte, error) {
		if c.Creator == "" {
			return []byte{}, nil
		}
		return zzEnc(c.CreatorType + ": " + c.Creator), nil
	})
}

func zzc_Creator__UnmarshalJSON(c *Creator, data []byte) {
	v.Requires(c != nil)
	v.Total()
	v.Spec(func() error {
		s, ok := zzDec(data)
		if !ok {
			return v.Fail()
		}
		t, n, ok := zzActor(s)
		if !ok {
			return v.Fail()
		}
		*c = Creator{Creator: n, CreatorType: t}
		return nil
	})
}

func zzc_Supplier__MarshalJSON(s Supplier) {
	v.Spec(func() ([]byte, error) {
		switch {
		case s.Supplier == "NOASSERTION":
			return zzEnc(s.Supplier), nil
		case s.SupplierType == "" || s.Supplier == "":
			return nil, v.Fail()
		}
		return zzEnc(s.SupplierType + ": " + s.Supplier), nil
	})
}

func zzc_Supplier__UnmarshalJSON(s *Supplier, data []byte) {
	v.Requires(s != nil)
	v.Total()
	v.Spec(func() error {
		x, ok := zzDec(data)
		if !ok {
			return v.Fail()
		}
		if x == "NOASSERTION" {
			*s = Supplier{Supplier: x}
			return nil
		}
		t, n, ok := zzActor(x)
		if !ok {
			return v.Fail()
		}
		*s = Supplier{Supplier: n, SupplierType: t}
		return nil
	})
}

func zzc_Originator__MarshalJSON(o Originator) {
	v.Spec(func() ([]byte, error) {
		switch {
		case o.Originator == "NOASSERTION":
			return zzEnc(o.Originator), nil
		case o.OriginatorType == "" || o.Originator == "":
			return nil, v.Fail()
		}
		return zzEnc(o.OriginatorType + ": " + o.Originator), nil
	})
}

// an originator keeps the blanks around its type and after its name
func zzc_Originator__UnmarshalJSON(o *Originator, data []byte) {
	v.Requires(o != nil)
	v.Total()
	v.Spec(func() error {
		x, ok := zzDec(data)
		if !ok {
			return v.Fail()
		}
		if x == "NOASSERTION" {
			*o = Originator{Originator: x}
			return nil
		}
		t, n, ok := strings.Cut(x, ":")
		if !ok {
			return v.Fail()
		}
		*o = Originator{Originator: strings.TrimLeft(n, " \t"), OriginatorType: t}
		return nil
	})
}
