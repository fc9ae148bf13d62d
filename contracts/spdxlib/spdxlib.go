package spdxlib

import (
	"sort"

	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	v "github.com/spdx/tools-golang/verifspec"
)

// P18: in order, exactly the non-nil selections.
func zzc_FilterRelationships(doc *spdx.Document, filter func(*spdx.Relationship) *common.ElementID) {
	v.Requires(doc != nil)
	v.Spec(func() ([]common.ElementID, error) {
		var out []common.ElementID
		for _, r := range doc.Relationships {
			if id := filter(r); id != nil {
				out = append(out, *id)
			}
		}
		return out, nil
	})
}

// P18: the same identifiers in ascending order (the slice is sorted in place).
func zzc_SortElementIDs(eIDs []common.ElementID) {
	v.Spec(func() []common.ElementID {
		sort.Slice(eIDs, func(i, j int) bool { return eIDs[i] < eIDs[j] })
		return eIDs
	})
}

func zz_wholeDoc(doc *spdx.Document) {
	v.Requires(doc != nil)
	v.Requires(v.All(func(i int) bool { return v.Implies(0 <= i && i < len(doc.Packages), doc.Packages[i] != nil) }))
	v.Requires(v.All(func(i int) bool { return v.Implies(0 <= i && i < len(doc.Relationships), doc.Relationships[i] != nil) }))
	v.Requires(v.All(func(i int) bool { return v.Implies(0 <= i && i < len(doc.Files), doc.Files[i] != nil) }))
}

// P18: the only package, or the sorted identifiers of exactly the described elements.
func zzc_GetDescribedPackageIDs(doc *spdx.Document) {
	zz_wholeDoc(doc)
	v.Spec(func() ([]common.ElementID, error) {
		if len(doc.Packages) == 0 {
			return nil, v.Fail()
		}
		if len(doc.Packages) == 1 {
			return []common.ElementID{doc.Packages[0].PackageSPDXIdentifier}, nil
		}
		self := common.DocElementID{ElementRefID: "DOCUMENT"}
		var ids []common.ElementID
		for _, r := range doc.Relationships {
			if r.Relationship == "DESCRIBES" && r.RefA == self {
				ids = append(ids, r.RefB.ElementRefID)
			} else if r.Relationship == "DESCRIBED_BY" && r.RefB == self {
				ids = append(ids, r.RefA.ElementRefID)
			}
		}
		if len(ids) == 0 {
			return nil, v.Fail()
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		return ids, nil
	})
}

// P18: valid iff both ends of every relationship are the document, a package or an unpackaged file.
func zzc_ValidateDocument(doc *spdx.Document) {
	zz_wholeDoc(doc)
	v.Spec(func() error {
		known := map[common.ElementID]bool{}
		for _, p := range doc.Packages {
			known[p.PackageSPDXIdentifier] = true
		}
		for _, f := range doc.Files {
			known[f.FileSPDXIdentifier] = true
		}
		known["DOCUMENT"] = true
		for _, r := range doc.Relationships {
			if !known[r.RefA.ElementRefID] || !known[r.RefB.ElementRefID] {
				return v.Fail()
			}
		}
		return nil
	})
}
