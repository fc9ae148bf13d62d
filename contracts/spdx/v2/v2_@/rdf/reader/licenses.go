//@file 2_2 2_3
package reader

import (
	"strings"

	gordfParser "github.com/spdx/gordf/rdfloader/parser"
	"github.com/spdx/gordf/rdfwriter"

	v "github.com/spdx/tools-golang/verifspec"
)

// ---- licenses as text (P20) ----

func zzc_mapLicensesToStrings(licences []AnyLicenseInfo) {
	v.Requires(v.All(func(i int) bool { return v.Implies(0 <= i && i < len(licences), licences[i] != nil) }))
	v.Spec(func() []string {
		out := make([]string, len(licences))
		for i := range licences {
			out[i] = licences[i].ToLicenseString()
		}
		return out
	})
}

func zzc_ConjunctiveLicenseSet__ToLicenseString(lic ConjunctiveLicenseSet) {
	v.Requires(v.All(func(i int) bool { return v.Implies(0 <= i && i < len(lic.members), lic.members[i] != nil) }))
	v.Spec(func() string { return strings.Join(mapLicensesToStrings(lic.members), " AND ") })
}

func zzc_DisjunctiveLicenseSet__ToLicenseString(lic DisjunctiveLicenseSet) {
	v.Requires(v.All(func(i int) bool { return v.Implies(0 <= i && i < len(lic.members), lic.members[i] != nil) }))
	v.Spec(func() string { return strings.Join(mapLicensesToStrings(lic.members), " OR ") })
}

func zzc_SimpleLicensingInfo__ToLicenseString(lic SimpleLicensingInfo) {
	v.Spec(func() string { return lic.licenseID })
}

func zzc_ExtractedLicensingInfo__ToLicenseString(lic ExtractedLicensingInfo) {
	v.Spec(func() string { return lic.licenseID })
}

func zzc_License__ToLicenseString(lic License) {
	v.Spec(func() string { return lic.licenseID })
}

func zzc_ListedLicense__ToLicenseString(lic ListedLicense) {
	v.Spec(func() string { return lic.licenseID })
}

func zzc_OrLaterOperator__ToLicenseString(operator OrLaterOperator) {
	v.Spec(func() string { return operator.member.licenseID })
}

func zzc_WithExceptionOperator__ToLicenseString(lic WithExceptionOperator) {
	v.Spec(func() string { return lic.member.licenseID })
}

func zzc_SpecialLicense__ToLicenseString(lic SpecialLicense) {
	v.Spec(func() string { return string(lic.value) })
}

// ---- the license a node stands for ----

// zz_graph: what the node handlers need.
func zz_graph(p *rdfParser2_@) bool {
	return p != nil && p.gordfParserObj != nil && p.cache != nil
}

// zz_visit marks a node as being visited; it is false where the node is being visited already.
func zz_visit(p *rdfParser2_@, id string, object interface{}) bool {
	if p.cache[id] == nil {
		p.cache[id] = &nodeState{object: object, Color: WHITE}
	} else if p.cache[id].Color == GREY {
		return false
	}
	p.cache[id].Color = GREY
	return true
}

// a license being visited has itself as a part: an error.
func zzc_rdfParser2_@__getAnyLicenseFromNode(parser *rdfParser2_@, node *gordfParser.Node) {
	v.Requires(zz_graph(parser) && node != nil)
	v.Summary()
	v.Ensures(func(lic AnyLicenseInfo, err error) bool { return v.Implies(err == nil, lic != nil) })
	v.Spec(func() (AnyLicenseInfo, error) {
		if !zz_visit(parser, node.ID, nil) {
			return nil, v.Fail()
		}
		lic, err := zz_license(parser, node)
		parser.cache[node.ID].Color = BLACK
		if err != nil {
			return nil, v.Fail()
		}
		return lic, nil
	})
}

func zz_license(parser *rdfParser2_@, node *gordfParser.Node) (AnyLicenseInfo, error) {
	triples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
	if len(triples) == 0 {
		return parser.getSpecialLicenseFromNode(node)
	}
	kind, err := getNodeTypeFromTriples(triples, node)
	if err != nil {
		return nil, v.Fail()
	}
	switch kind {
	case zz_spdx + "DisjunctiveLicenseSet":
		return parser.getDisjunctiveLicenseSetFromNode(node)
	case zz_spdx + "ConjunctiveLicenseSet":
		return parser.getConjunctiveLicenseSetFromNode(node)
	case zz_spdx + "ExtractedLicensingInfo":
		return parser.getExtractedLicensingInfoFromNode(node)
	case zz_spdx + "ListedLicense", zz_spdx + "License":
		return parser.getLicenseFromNode(node)
	case zz_spdx + "WithExceptionOperator":
		return parser.getWithExceptionOperatorFromNode(node)
	case zz_spdx + "OrLaterOperator":
		return parser.getOrLaterOperatorFromNode(node)
	case zz_spdx + "SimpleLicensingInfo":
		return parser.getSimpleLicensingInfoFromNode(node)
	}
	return nil, v.Fail()
}

func zzc_rdfParser2_@__getDisjunctiveLicenseSetFromNode(parser *rdfParser2_@, node *gordfParser.Node) {
	v.Requires(zz_graph(parser) && node != nil)
	v.Summary()
	v.Spec(func() (DisjunctiveLicenseSet, error) {
		set := DisjunctiveLicenseSet{}
		for _, t := range parser.nodeToTriples(node) {
			if t.Predicate.ID == zz_spdx+"member" {
				part, err := parser.getAnyLicenseFromNode(t.Object)
				if err != nil {
					return DisjunctiveLicenseSet{}, v.Fail()
				}
				set.members = append(set.members, part)
			}
		}
		return set, nil
	})
}

func zzc_rdfParser2_@__getConjunctiveLicenseSetFromNode(parser *rdfParser2_@, node *gordfParser.Node) {
	v.Requires(zz_graph(parser) && node != nil)
	v.Summary()
	v.Spec(func() (ConjunctiveLicenseSet, error) {
		set := ConjunctiveLicenseSet{}
		for _, t := range parser.nodeToTriples(node) {
			switch t.Predicate.ID {
			case zz_type:
			case zz_spdx + "member":
				part, err := parser.getAnyLicenseFromNode(t.Object)
				if err != nil {
					return ConjunctiveLicenseSet{}, v.Fail()
				}
				set.members = append(set.members, part)
			default:
				return ConjunctiveLicenseSet{}, v.Fail()
			}
		}
		return set, nil
	})
}
