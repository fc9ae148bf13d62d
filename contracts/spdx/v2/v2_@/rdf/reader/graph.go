//@file 2_2 2_3
package reader

import (
	"strconv"
	"strings"

	gordfParser "github.com/spdx/gordf/rdfloader/parser"
	"github.com/spdx/gordf/rdfwriter"

	"github.com/spdx/tools-golang/spdx/v2/common"
	spdx "github.com/spdx/tools-golang/spdx/v2/v2_@"
	v "github.com/spdx/tools-golang/verifspec"
)

// ---- references between elements (P20) ----

// zz_walk: what the handlers of elements need.
func zz_walk(p *rdfParser2_@) bool {
	return zz_graph(p) && p.doc != nil && p.files != nil && p.assocWithPackage != nil
}

// getFileFromNode is not verified against a specification: callers see some function of what it reads.
func zzc_rdfParser2_@__getFileFromNode(parser *rdfParser2_@, fileNode *gordfParser.Node) {
	v.Requires(zz_walk(parser) && fileNode != nil)
	v.Summary()
}

// getPackageFromNode is not verified against a specification: callers see some function of what it reads.
func zzc_rdfParser2_@__getPackageFromNode(parser *rdfParser2_@, packageNode *gordfParser.Node) {
	v.Requires(zz_walk(parser) && packageNode != nil)
	v.Summary()
}

// parseRelationship is not verified against a specification either.
func zzc_rdfParser2_@__parseRelationship(parser *rdfParser2_@, triple *gordfParser.Triple) {
	v.Requires(zz_walk(parser) && triple != nil)
	v.Summary()
}

func zzc_rdfParser2_@__parseRelatedElementFromTriple(parser *rdfParser2_@, reln *spdx.Relationship, triple *gordfParser.Triple) {
	v.Requires(zz_walk(parser) && reln != nil && triple != nil)
	v.Summary()
	v.Spec(func() error {
		switch triple.Object.ID {
		case zz_spdx + "File":
			file, err := parser.getFileFromNode(triple.Subject)
			if err != nil {
				return v.Fail()
			}
			reln.RefB = common.DocElementID{ElementRefID: file.FileSPDXIdentifier}
		case zz_spdx + "Package":
			pkg, err := parser.getPackageFromNode(triple.Subject)
			if err != nil {
				return v.Fail()
			}
			reln.RefB = common.DocElementID{ElementRefID: pkg.PackageSPDXIdentifier}
		case zz_spdx + "SpdxElement":
			to, err := ExtractDocElementID(getLastPartOfURI(triple.Subject.ID))
			if err != nil {
				return v.Fail()
			}
			reln.RefB = to
		default:
			return v.Fail()
		}
		return nil
	})
}

func zzc_rdfParser2_@__parseRangeReference(parser *rdfParser2_@, node *gordfParser.Node, snippet *spdx.Snippet) {
	v.Requires(zz_walk(parser) && node != nil)
	v.Summary()
	v.Spec(func() error {
		if len(rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)) == 0 {
			return nil
		}
		if _, err := parser.getFileFromNode(node); err != nil {
			return v.Fail()
		}
		return nil
	})
}

func zzc_rdfParser2_@__getPointerFromNode(parser *rdfParser2_@, node *gordfParser.Node, si *spdx.Snippet) {
	v.Requires(zz_walk(parser) && node != nil)
	v.Summary()
	v.Spec(func() (RangeType, int, error) {
		kind, number := RangeType(""), 0
		for _, t := range parser.nodeToTriples(node) {
			switch t.Predicate.ID {
			case zz_type:
			case zz_ptr + "reference":
				if err := parser.parseRangeReference(t.Object, si); err != nil {
					return "", 0, v.Fail()
				}
			case zz_ptr + "offset", zz_ptr + "lineNumber":
				n, err := strconv.Atoi(t.Object.ID)
				if err != nil {
					return "", 0, v.Fail()
				}
				number = n
				kind = "byteRange"
				if strings.HasSuffix(t.Predicate.ID, "lineNumber") {
					kind = "lineRange"
				}
			default:
				return "", 0, v.Fail()
			}
		}
		if kind == "" {
			return "", 0, v.Fail()
		}
		return kind, number, nil
	})
}

// zz_only: the one triple of a range with the given predicate.
func zz_only(triples []*gordfParser.Triple, node *gordfParser.Node, predicate string) (*gordfParser.Triple, error) {
	found := rdfwriter.FilterTriples(triples, &node.ID, &predicate, nil)
	if len(found) != 1 {
		return nil, v.Fail()
	}
	return found[0], nil
}

func zzc_rdfParser2_@__setSnippetRangeFromNode(parser *rdfParser2_@, node *gordfParser.Node, si *spdx.Snippet) {
	v.Requires(zz_walk(parser) && node != nil && si != nil)
	v.Summary()
	v.Spec(func() error {
		triples := parser.nodeToTriples(node)
		if len(triples) != 3 {
			return v.Fail()
		}
		if _, err := zz_only(triples, node, zz_type); err != nil {
			return v.Fail()
		}
		first, err := zz_only(triples, node, zz_ptr+"startPointer")
		if err != nil {
			return v.Fail()
		}
		startKind, start, err := parser.getPointerFromNode(first.Object, si)
		if err != nil {
			return v.Fail()
		}
		last, err := zz_only(triples, node, zz_ptr+"endPointer")
		if err != nil {
			return v.Fail()
		}
		endKind, end, err := parser.getPointerFromNode(last.Object, si)
		if err != nil || startKind != endKind {
			return v.Fail()
		}
		from := common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier}
		to := common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier}
		if startKind == "lineRange" {
			from.LineNumber, to.LineNumber = start, end
		} else {
			from.Offset, to.Offset = start, end
		}
		si.Ranges = append(si.Ranges, common.SnippetRange{StartPointer: from, EndPointer: to})
		return nil
	})
}

func zzc_rdfParser2_@__getSnippetInformationFromNode2_@(parser *rdfParser2_@, node *gordfParser.Node) {
	v.Requires(zz_walk(parser) && node != nil)
	v.Summary()
	v.Spec(func() (*spdx.Snippet, error) {
		si := &spdx.Snippet{}
		if err := setSnippetID(node.ID, si); err != nil {
			return nil, v.Fail()
		}
		for _, t := range parser.nodeToTriples(node) {
			value := t.Object.ID
			switch t.Predicate.ID {
			case zz_type:
			case zz_spdx + "snippetFromFile":
				if _, err := parser.getFileFromNode(t.Object); err != nil {
					return nil, v.Fail()
				}
				id, _ := ExtractDocElementID(getLastPartOfURI(value)) //@only 2_3
				id, err := ExtractDocElementID(getLastPartOfURI(value)) //@only 2_2
				if err != nil { //@only 2_2
					return nil, v.Fail() //@only 2_2
				} //@only 2_2
				si.SnippetFromFileSPDXIdentifier = id.ElementRefID
			case zz_spdx + "range":
				if err := parser.setSnippetRangeFromNode(t.Object, si); err != nil {
					return nil, v.Fail()
				}
			case zz_spdx + "licenseInfoInSnippet":
				lic, err := parser.getAnyLicenseFromNode(t.Object)
				if err != nil {
					return nil, v.Fail()
				}
				si.LicenseInfoInSnippet = append(si.LicenseInfoInSnippet, lic.ToLicenseString())
			case zz_spdx + "name":
				si.SnippetName = value
			case zz_spdx + "copyrightText":
				si.SnippetCopyrightText = value
			case zz_spdx + "licenseComments":
				si.SnippetLicenseComments = value
			case zz_comment:
				si.SnippetComment = value
			case zz_spdx + "licenseConcluded":
				lic, err := parser.getAnyLicenseFromNode(t.Object)
				if err != nil {
					return nil, v.Fail()
				}
				si.SnippetLicenseConcluded = lic.ToLicenseString()
			default:
				return nil, v.Fail()
			}
		}
		return si, nil
	})
}
