//@file 2_2 2_3
package reader

import (
	"strings"

	gordfParser "github.com/spdx/gordf/rdfloader/parser"
	"github.com/spdx/gordf/rdfwriter"

	"github.com/spdx/tools-golang/spdx/v2/common"
	spdx "github.com/spdx/tools-golang/spdx/v2/v2_@"
	v "github.com/spdx/tools-golang/verifspec"
)

// ---- nodes whose properties are plain values (P20) ----

const (
	zz_rdf  = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
	zz_rdfs = "http://www.w3.org/2000/01/rdf-schema#"
	zz_spdx = "http://spdx.org/rdf/terms#"
	zz_doap = "http://usefulinc.com/ns/doap#"
	zz_ptr  = "http://www.w3.org/2009/pointers#"

	zz_type    = zz_rdf + "type"
	zz_comment = zz_rdfs + "comment"
)

func zzc_rdfParser2_@__nodeToTriples(parser *rdfParser2_@, node *gordfParser.Node) {
	v.Requires(parser != nil)
	v.Spec(func() []*gordfParser.Triple {
		if node == nil {
			return nil
		}
		return parser.nodeStringToTriples[node.String()]
	})
}

func zzc_getNodeTypeFromTriples(triples []*gordfParser.Triple, node *gordfParser.Node) {
	v.Spec(func() (string, error) {
		if node == nil {
			return "", v.Fail()
		}
		kind := zz_type
		found := rdfwriter.FilterTriples(triples, &node.ID, &kind, nil)
		if len(found) != 1 {
			return "", v.Fail()
		}
		return found[0].Object.ID, nil
	})
}

func zzc_rdfParser2_@__getChecksumFromNode(parser *rdfParser2_@, checksumNode *gordfParser.Node) {
	v.Requires(parser != nil)
	v.Summary()
	v.Spec(func() (common.ChecksumAlgorithm, string, error) {
		algorithm, value := "", ""
		for _, t := range parser.nodeToTriples(checksumNode) {
			switch t.Predicate.ID {
			case zz_type:
			case zz_spdx + "checksumValue":
				value = strings.TrimSpace(t.Object.ID)
			case zz_spdx + "algorithm":
				a, err := getAlgorithmFromURI(t.Object.ID)
				if err != nil {
					return "", "", v.Fail()
				}
				algorithm = a
			default:
				return "", "", v.Fail()
			}
		}
		return common.ChecksumAlgorithm(algorithm), value, nil
	})
}

// zz_known: the algorithms an element may name.
func zz_known(a common.ChecksumAlgorithm) bool {
	switch a {
	case "SHA1", "SHA224", "SHA256", "SHA384", "SHA512", "MD2", "MD4", "MD5", "MD6":
		return true
	case "SHA3-256", "SHA3-384", "SHA3-512", "BLAKE2b-256", "BLAKE2b-384", "BLAKE2b-512", "BLAKE3", "ADLER32": //@only 2_3
		return true //@only 2_3
	}
	return false
}

func zzc_rdfParser2_@__setPackageChecksum(parser *rdfParser2_@, pkg *spdx.Package, node *gordfParser.Node) {
	v.Requires(parser != nil && pkg != nil)
	v.Spec(func() error {
		algorithm, value, err := parser.getChecksumFromNode(node)
		if err != nil || !zz_known(algorithm) {
			return v.Fail()
		}
		pkg.PackageChecksums = append(pkg.PackageChecksums, common.Checksum{Algorithm: algorithm, Value: value})
		return nil
	})
}

func zzc_rdfParser2_@__setFileChecksumFromNode(parser *rdfParser2_@, file *spdx.File, checksumNode *gordfParser.Node) {
	v.Requires(parser != nil && file != nil)
	v.Spec(func() error {
		algorithm, value, err := parser.getChecksumFromNode(checksumNode)
		if err != nil || !zz_known(algorithm) {
			return v.Fail()
		}
		file.Checksums = append(file.Checksums, common.Checksum{Algorithm: algorithm, Value: value})
		return nil
	})
}

func zzc_rdfParser2_@__parseAnnotationFromNode(parser *rdfParser2_@, node *gordfParser.Node) {
	v.Requires(parser != nil && parser.doc != nil)
	v.Spec(func() error {
		ann := &spdx.Annotation{}
		for _, t := range parser.nodeToTriples(node) {
			switch t.Predicate.ID {
			case zz_type:
			case zz_spdx + "annotator":
				if err := setAnnotatorFromString(t.Object.ID, ann); err != nil {
					return v.Fail()
				}
			case zz_spdx + "annotationType":
				if err := setAnnotationType(t.Object.ID, ann); err != nil {
					return v.Fail()
				}
			case zz_spdx + "annotationDate":
				ann.AnnotationDate = t.Object.ID
			case zz_comment:
				ann.AnnotationComment = t.Object.ID
			default:
				return v.Fail()
			}
		}
		parser.doc.Annotations = append(parser.doc.Annotations, ann)
		return nil
	})
}

func zzc_rdfParser2_@__setReviewFromNode(parser *rdfParser2_@, reviewedNode *gordfParser.Node) {
	v.Requires(parser != nil && parser.doc != nil)
	v.Spec(func() error {
		review := &spdx.Review{}
		for _, t := range parser.nodeToTriples(reviewedNode) {
			switch t.Predicate.ID {
			case zz_type:
			case zz_comment:
				review.ReviewComment = t.Object.ID
			case zz_spdx + "reviewDate":
				review.ReviewDate = t.Object.ID
			case zz_spdx + "reviewer":
				kind, name, err := ExtractSubs(t.Object.ID, ":")
				if err != nil {
					return v.Fail()
				}
				review.ReviewerType, review.Reviewer = kind, name
			default:
				return v.Fail()
			}
		}
		parser.doc.Reviews = append(parser.doc.Reviews, review)
		return nil
	})
}

func zzc_rdfParser2_@__parseCreationInfoFromNode(parser *rdfParser2_@, ci *spdx.CreationInfo, node *gordfParser.Node) {
	v.Requires(parser != nil && ci != nil)
	v.Spec(func() error {
		for _, t := range parser.nodeToTriples(node) {
			switch t.Predicate.ID {
			case zz_type:
			case zz_spdx + "licenseListVersion":
				ci.LicenseListVersion = t.Object.ID
			case zz_spdx + "creator":
				if err := setCreator(t.Object.ID, ci); err != nil {
					return v.Fail()
				}
			case zz_spdx + "created":
				ci.Created = t.Object.ID
			case zz_comment:
				ci.CreatorComment = t.Object.ID
			default:
				return v.Fail()
			}
		}
		return nil
	})
}

func zzc_rdfParser2_@__getArtifactFromNode(parser *rdfParser2_@, node *gordfParser.Node) {
	v.Requires(parser != nil && node != nil)
	v.Spec(func() (*spdx.ArtifactOfProject, error) {
		artifact := &spdx.ArtifactOfProject{}
		if node.NodeType == "IRI" {
			artifact.URI = node.ID
		}
		for _, t := range parser.nodeToTriples(node) {
			switch t.Predicate.ID {
			case zz_type:
			case zz_doap + "homepage":
				artifact.HomePage = t.Object.ID
			case zz_doap + "name":
				artifact.Name = t.Object.ID
			default:
				return nil, v.Fail()
			}
		}
		return artifact, nil
	})
}

func zzc_rdfParser2_@__getPackageExternalRef(parser *rdfParser2_@, node *gordfParser.Node) {
	v.Requires(parser != nil)
	v.Spec(func() (*spdx.PackageExternalReference, error) {
		ref := &spdx.PackageExternalReference{}
		for _, t := range parser.nodeToTriples(node) {
			switch t.Predicate.ID {
			case zz_type:
			case zz_spdx + "referenceCategory":
				switch t.Object.ID {
				case zz_spdx + "referenceCategory_security":
					ref.Category = "SECURITY"
				case zz_spdx + "referenceCategory_packageManager":
					ref.Category = "PACKAGE-MANAGER"
				case zz_spdx + "referenceCategory_other":
					ref.Category = "OTHER"
				default:
					return nil, v.Fail()
				}
			case zz_spdx + "referenceType":
				ref.RefType = t.Object.ID
			case zz_spdx + "referenceLocator":
				ref.Locator = t.Object.ID
			case zz_comment:
				ref.ExternalRefComment = t.Object.ID
			default:
				return nil, v.Fail()
			}
		}
		return ref, nil
	})
}

func zzc_rdfParser2_@__setPackageVerificationCode(parser *rdfParser2_@, pkg *spdx.Package, node *gordfParser.Node) {
	v.Requires(parser != nil && pkg != nil)
	v.Spec(func() error {
		//@if 2_3
		if pkg.PackageVerificationCode == nil {
			pkg.PackageVerificationCode = &common.PackageVerificationCode{}
		}
		//@end
		for _, t := range parser.nodeToTriples(node) {
			code := pkg.PackageVerificationCode  //@only 2_3
			code := &pkg.PackageVerificationCode //@only 2_2
			switch t.Predicate.ID {
			case zz_type:
			case zz_spdx + "packageVerificationCodeValue":
				code.Value = t.Object.ID
			case zz_spdx + "packageVerificationCodeExcludedFile":
				code.ExcludedFiles = append(code.ExcludedFiles, t.Object.ID)
			default:
				return v.Fail()
			}
		}
		return nil
	})
}

func zzc_rdfParser2_@__getExternalDocumentRefFromNode(parser *rdfParser2_@, node *gordfParser.Node) {
	v.Requires(parser != nil)
	v.Spec(func() (spdx.ExternalDocumentRef, error) {
		var ref spdx.ExternalDocumentRef
		for _, t := range parser.nodeToTriples(node) {
			switch t.Predicate.ID {
			case zz_type:
			case zz_spdx + "externalDocumentId":
				ref.DocumentRefID = common.DocumentID(t.Object.ID)
			case zz_spdx + "spdxDocument":
				ref.URI = t.Object.ID
			case zz_spdx + "checksum":
				algorithm, value, err := parser.getChecksumFromNode(t.Object)
				if err != nil {
					return spdx.ExternalDocumentRef{}, v.Fail()
				}
				ref.Checksum = common.Checksum{Algorithm: algorithm, Value: value}
			default:
				return spdx.ExternalDocumentRef{}, v.Fail()
			}
		}
		return ref, nil
	})
}

// ---- licenses without parts ----

func zzc_rdfParser2_@__getSimpleLicensingInfoFromTriples(parser *rdfParser2_@, triples []*gordfParser.Triple) {
	v.Summary()
	v.Spec(func() (SimpleLicensingInfo, error) {
		var lic SimpleLicensingInfo
		for _, t := range triples {
			switch t.Predicate.ID {
			case zz_type:
			case zz_comment:
				lic.comment = t.Object.ID
			case zz_spdx + "licenseId":
				lic.licenseID = t.Object.ID
			case zz_spdx + "name":
				lic.name = t.Object.ID
			case zz_spdx + "example":
				lic.example = t.Object.ID
			case zz_rdfs + "seeAlso":
				if !isUriValid(t.Object.ID) {
					return SimpleLicensingInfo{}, v.Fail()
				}
				lic.seeAlso = append(lic.seeAlso, t.Object.ID)
			default:
				return SimpleLicensingInfo{}, v.Fail()
			}
		}
		return lic, nil
	})
}

func zzc_rdfParser2_@__getSimpleLicensingInfoFromNode(parser *rdfParser2_@, node *gordfParser.Node) {
	v.Requires(parser != nil && parser.gordfParserObj != nil && node != nil)
	v.Spec(func() (SimpleLicensingInfo, error) {
		return parser.getSimpleLicensingInfoFromTriples(rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil))
	})
}

func zzc_rdfParser2_@__getExtractedLicensingInfoFromNode(parser *rdfParser2_@, node *gordfParser.Node) {
	v.Requires(parser != nil && parser.gordfParserObj != nil && node != nil)
	v.Spec(func() (ExtractedLicensingInfo, error) {
		var lic ExtractedLicensingInfo
		var rest []*gordfParser.Triple
		for _, t := range rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil) {
			if t.Predicate.ID == zz_spdx+"extractedText" {
				lic.extractedText = t.Object.ID
			} else {
				rest = append(rest, t)
			}
		}
		info, err := parser.getSimpleLicensingInfoFromTriples(rest)
		if err != nil {
			return ExtractedLicensingInfo{}, v.Fail()
		}
		lic.SimpleLicensingInfo = info
		return lic, nil
	})
}

func zzc_rdfParser2_@__extractedLicenseToOtherLicense(parser *rdfParser2_@, extLicense ExtractedLicensingInfo) {
	v.Spec(func() spdx.OtherLicense {
		return spdx.OtherLicense{
			LicenseIdentifier:      extLicense.licenseID,
			ExtractedText:          extLicense.extractedText,
			LicenseName:            extLicense.name,
			LicenseCrossReferences: extLicense.seeAlso,
			LicenseComment:         extLicense.comment,
		}
	})
}

func zzc_rdfParser2_@__getLicenseExceptionFromNode(parser *rdfParser2_@, node *gordfParser.Node) {
	v.Requires(parser != nil && parser.gordfParserObj != nil && node != nil)
	v.Spec(func() (LicenseException, error) {
		var x LicenseException
		for _, t := range rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil) {
			switch t.Predicate.ID {
			case zz_type:
			case zz_spdx + "licenseExceptionId":
				x.licenseExceptionId = t.Object.ID
			case zz_spdx + "licenseExceptionText":
				x.licenseExceptionText = t.Object.ID
			case zz_rdfs + "seeAlso":
				if !isUriValid(t.Object.ID) {
					return LicenseException{}, v.Fail()
				}
				x.seeAlso = t.Object.ID
			case zz_spdx + "name":
				x.name = t.Object.ID
			case zz_spdx + "example":
				x.example = t.Object.ID
			case zz_comment:
				x.comment = t.Object.ID
			default:
				return LicenseException{}, v.Fail()
			}
		}
		return x, nil
	})
}

func zzc_rdfParser2_@__getWithExceptionOperatorFromNode(parser *rdfParser2_@, node *gordfParser.Node) {
	v.Requires(parser != nil && parser.gordfParserObj != nil && node != nil)
	v.Spec(func() (WithExceptionOperator, error) {
		var op WithExceptionOperator
		found := false
		for _, t := range rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil) {
			switch t.Predicate.ID {
			case zz_type:
			case zz_spdx + "member":
				if found {
					return WithExceptionOperator{}, v.Fail()
				}
				found = true
				member, err := parser.getSimpleLicensingInfoFromNode(t.Object)
				if err != nil {
					return WithExceptionOperator{}, v.Fail()
				}
				op.member = member
			case zz_spdx + "licenseException":
				x, err := parser.getLicenseExceptionFromNode(t.Object)
				if err != nil {
					return WithExceptionOperator{}, v.Fail()
				}
				op.licenseException = x
			default:
				return WithExceptionOperator{}, v.Fail()
			}
		}
		return op, nil
	})
}

func zzc_rdfParser2_@__getOrLaterOperatorFromNode(parser *rdfParser2_@, node *gordfParser.Node) {
	v.Requires(parser != nil && parser.gordfParserObj != nil && node != nil)
	v.Spec(func() (OrLaterOperator, error) {
		var op OrLaterOperator
		triples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
		if len(triples) != 2 {
			return OrLaterOperator{}, v.Fail()
		}
		for _, t := range triples {
			switch t.Predicate.ID {
			case zz_type:
			case zz_spdx + "member":
				member, err := parser.getSimpleLicensingInfoFromNode(t.Object)
				if err != nil {
					return OrLaterOperator{}, v.Fail()
				}
				op.member = member
			default:
				return OrLaterOperator{}, v.Fail()
			}
		}
		return op, nil
	})
}

func zzc_rdfParser2_@__getLicenseFromNode(parser *rdfParser2_@, node *gordfParser.Node) {
	v.Requires(parser != nil && parser.gordfParserObj != nil && node != nil)
	v.Spec(func() (License, error) {
		var lic License
		var rest []*gordfParser.Triple
		for _, t := range rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil) {
			switch t.Predicate.ID {
			case zz_spdx + "isOsiApproved", zz_spdx + "isDeprecatedLicenseId", zz_spdx + "isFsfLibre":
				yes, err := boolFromString(t.Object.ID)
				if err != nil {
					return License{}, v.Fail()
				}
				switch t.Predicate.ID {
				case zz_spdx + "isOsiApproved":
					lic.isOsiApproved = yes
				case zz_spdx + "isDeprecatedLicenseId":
					lic.isDeprecatedLicenseID = yes
				default:
					lic.isFsfLibre = yes
				}
			case zz_spdx + "licenseText":
				lic.licenseText = t.Object.ID
			case zz_spdx + "standardLicenseHeader":
				lic.standardLicenseHeader = t.Object.ID
			case zz_spdx + "standardLicenseTemplate":
				lic.standardLicenseTemplate = t.Object.ID
			case zz_spdx + "standardLicenseHeaderTemplate":
				lic.standardLicenseHeaderTemplate = t.Object.ID
			default:
				rest = append(rest, t)
			}
		}
		info, err := parser.getSimpleLicensingInfoFromTriples(rest)
		if err != nil {
			return License{}, v.Fail()
		}
		lic.SimpleLicensingInfo = info
		return lic, nil
	})
}

func zzc_rdfParser2_@__getSpecialLicenseFromNode(parser *rdfParser2_@, node *gordfParser.Node) {
	v.Requires(node != nil)
	v.Spec(func() (SpecialLicense, error) {
		uri := strings.TrimSpace(node.ID)
		switch uri {
		case zz_spdx + "NONE", zz_spdx + "none":
			return SpecialLicense{value: "NONE"}, nil
		case zz_spdx + "NOASSERTION", zz_spdx + "noassertion":
			return SpecialLicense{value: "NOASSERTION"}, nil
		}
		name := getLastPartOfURI(uri)
		for _, id := range AllStandardLicenseIDS() {
			if name == id {
				return SpecialLicense{value: SpecialLicenseValue(name)}, nil
			}
		}
		return SpecialLicense{}, v.Fail()
	})
}

func zzc_getRelationshipTypeFromURI(relnTypeURI string) {
	v.Opaque()
	v.Spec(func() (string, error) {
		name, ok := strings.CutPrefix(getLastPartOfURI(strings.TrimSpace(relnTypeURI)), "relationshipType_")
		if !ok {
			return "", v.Fail()
		}
		name = strings.TrimSpace(name)
		for _, known := range AllRelationshipTypes() {
			if name == known {
				return name, nil
			}
		}
		return "", v.Fail()
	})
}

