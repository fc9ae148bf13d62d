//@file 2_2 2_3
package v2_@

import (
	"encoding/json"
	"strings"

	"github.com/spdx/tools-golang/json/marshal"
	"github.com/spdx/tools-golang/spdx/v2/common"
	v "github.com/spdx/tools-golang/verifspec"
)

// P09: the properties of the package, its hasFiles entries, and filesAnalyzed with its default.
func zzc_Package__UnmarshalJSON(p *Package, b []byte) {
	v.Requires(p != nil)
	v.Spec(func() error {
		type fields Package
		var f fields
		var given struct {
			HasFiles      []common.DocElementID `json:"hasFiles"`
			FilesAnalyzed *bool                 `json:"filesAnalyzed"`
		}
		if json.Unmarshal(b, &f) != nil || json.Unmarshal(b, &given) != nil {
			return v.Fail()
		}
		*p = Package(f)
		p.hasFiles = given.HasFiles     //@only 2_2
		p.jsonHasFiles = given.HasFiles //@only 2_3
		p.FilesAnalyzed = true
		if given.FilesAnalyzed != nil {
			p.FilesAnalyzed = *given.FilesAnalyzed
			p.IsFilesAnalyzedTagPresent = true
		}
		return nil
	})
}

// P09: the category is read in its hyphenated spelling, everything else as it is.
func zzc_PackageExternalReference__UnmarshalJSON(r *PackageExternalReference, b []byte) {
	v.Requires(r != nil)
	v.Spec(func() error {
		type fields PackageExternalReference
		var f fields
		if json.Unmarshal(b, &f) != nil {
			return v.Fail()
		}
		*r = PackageExternalReference(f)
		r.Category = strings.ReplaceAll(f.Category, "_", "-")
		return nil
	})
}

// P09: the category is written in the spelling of the version's schema, everything else as it is.
func zzc_PackageExternalReference__MarshalJSON(r *PackageExternalReference) {
	v.Requires(r != nil)
	v.Spec(func() ([]byte, error) {
		type fields PackageExternalReference
		f := fields(*r)
		f.Category = strings.ReplaceAll(r.Category, "-", "_") //@only 2_2
		f.Category = strings.ReplaceAll(r.Category, "_", "-") //@only 2_3
		return marshal.JSON(f)
	})
}

//@if 2_2
// P23: everything is written, except a package verification code without value and excluded files.
func zzc_Package__MarshalJSON(p Package) {
	v.Spec(func() ([]byte, error) {
		type fields Package
		all, err := marshal.JSON(fields(p))
		if err != nil {
			return nil, err
		}
		if p.PackageVerificationCode.Value == "" && p.PackageVerificationCode.ExcludedFiles == nil {
			var m map[string]interface{}
			if json.Unmarshal(all, &m) != nil {
				return nil, v.Fail()
			}
			delete(m, "packageVerificationCode")
			return marshal.JSON(m)
		}
		return all, nil
	})
}

//@end

// zz_key names what a relationship states; inverse forms have the same name.
func zz_key(r *Relationship) string {
	a, kind, b := r.RefA, r.Relationship, r.RefB
	if kind == "CONTAINED_BY" {
		a, kind, b = r.RefB, "CONTAINS", r.RefA
	}
	if kind == "DESCRIBED_BY" {
		a, kind, b = r.RefB, "DESCRIBES", r.RefA
	}
	return common.RenderDocElementID(a) + "-" + kind + "->" + common.RenderDocElementID(b)
}

// P08: the relationships that are not null in order, then one for each described element and each file of a package,
// unless the same statement was made before.
func zzc_Document__UnmarshalJSON(d *Document, b []byte) {
	v.Requires(d != nil)
	v.Spec(func() error {
		type fields Document
		var f fields
		var given struct {
			DocumentDescribes []common.DocElementID `json:"documentDescribes"`
		}
		if json.Unmarshal(b, &f) != nil || json.Unmarshal(b, &given) != nil {
			return v.Fail()
		}
		*d = Document(f)
		var rels []*Relationship
		stated := map[string]bool{}
		for _, r := range f.Relationships {
			if r != nil {
				rels = append(rels, r)
			}
		}
		for _, r := range rels {
			stated[zz_key(r)] = true
		}
		for _, id := range given.DocumentDescribes {
			r := &Relationship{RefA: common.DocElementID{ElementRefID: d.SPDXIdentifier}, Relationship: "DESCRIBES", RefB: id}
			if !stated[zz_key(r)] {
				rels = append(rels, r)
				stated[zz_key(r)] = true
			}
		}
		for _, p := range f.Packages {
			if p == nil {
				continue
			}
			for _, id := range p.hasFiles { //@only 2_2
			for _, id := range p.jsonHasFiles { //@only 2_3
				r := &Relationship{RefA: common.DocElementID{ElementRefID: p.PackageSPDXIdentifier}, Relationship: "CONTAINS", RefB: id}
				if !stated[zz_key(r)] {
					rels = append(rels, r)
					stated[zz_key(r)] = true
				}
			}
			p.hasFiles = nil //@only 2_2
			p.jsonHasFiles = nil //@only 2_3
		}
		d.Relationships = rels
		return nil
	})
}
