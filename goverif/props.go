package main

const tvr = "spdx/v2/v2_@/tagvalue/reader."

var tvHandlers = forV(versions3, "func", tvr+"ParseTagValues", tvr+"tvParser.parsePair", tvr+"tvParser.parsePairFromStart",
	tvr+"tvParser.parsePairFromCreationInfo", tvr+"tvParser.parsePairFromPackage", tvr+"tvParser.parsePairFromFile",
	tvr+"tvParser.parsePairFromSnippet", tvr+"tvParser.parsePairFromOtherLicense", tvr+"tvParser.parsePairFromReview",
	tvr+"tvParser.parsePairForRelationship", tvr+"tvParser.parsePairForAnnotation", tvr+"extractSubs", tvr+"extractElementID",
	tvr+"extractDocElementID", tvr+"extractExternalDocumentReference", tvr+"extractPackageExternalReference", tvr+"extractCodeAndExcludes")

var tvSpecial = forV(versions2, "func", tvr+"extractDocElementSpecial")

const tvw = "spdx/v2/v2_@/tagvalue/writer."

var tvWriters = forV(versions3, "func", tvw+"RenderDocument", tvw+"renderCreationInfo", tvw+"renderPackage", tvw+"renderFile", tvw+"renderSnippet",
	tvw+"renderOtherLicense", tvw+"renderRelationship", tvw+"renderAnnotation", tvw+"renderReview", tvw+"textify")

const rdfr = "spdx/v2/v2_@/rdf/reader."

var rdfHandlers = forV(versions2, "func", rdfr+"getLastPartOfURI", rdfr+"isUriValid", rdfr+"boolFromString", rdfr+"ExtractElementID", rdfr+"ExtractDocElementID", rdfr+"ExtractSubs",
	rdfr+"getLicenseStringFromURI", rdfr+"getAlgorithmFromURI", rdfr+"rdfParser2_@.getFileTypeFromUri", rdfr+"getNoticeTextFromNode", rdfr+"getReferenceFromURI",
	rdfr+"setAnnotatorFromString", rdfr+"setAnnotationType", rdfr+"setAnnotationToParser", rdfr+"setCreator",
	rdfr+"setPackageSupplier", rdfr+"setPackageOriginator", rdfr+"setDocumentLocationFromURI", rdfr+"setFilesAnalyzed", rdfr+"setFileIdentifier", rdfr+"setSnippetID",
	rdfr+"rdfParser2_@.setFileToPackage", rdfr+"rdfParser2_@.setSnippetToFileWithID", rdfr+"rdfParser2_@.nodeToTriples", rdfr+"getNodeTypeFromTriples",
	rdfr+"rdfParser2_@.getChecksumFromNode", rdfr+"rdfParser2_@.setPackageChecksum", rdfr+"rdfParser2_@.setFileChecksumFromNode", rdfr+"rdfParser2_@.parseAnnotationFromNode",
	rdfr+"rdfParser2_@.setReviewFromNode", rdfr+"rdfParser2_@.parseCreationInfoFromNode", rdfr+"rdfParser2_@.getArtifactFromNode", rdfr+"rdfParser2_@.getPackageExternalRef",
	rdfr+"rdfParser2_@.setPackageVerificationCode", rdfr+"rdfParser2_@.getExternalDocumentRefFromNode", rdfr+"rdfParser2_@.getSimpleLicensingInfoFromTriples",
	rdfr+"rdfParser2_@.getSimpleLicensingInfoFromNode", rdfr+"rdfParser2_@.getExtractedLicensingInfoFromNode", rdfr+"rdfParser2_@.extractedLicenseToOtherLicense",
	rdfr+"rdfParser2_@.getLicenseExceptionFromNode", rdfr+"rdfParser2_@.getWithExceptionOperatorFromNode", rdfr+"rdfParser2_@.getOrLaterOperatorFromNode",
	rdfr+"rdfParser2_@.getLicenseFromNode", rdfr+"rdfParser2_@.getSpecialLicenseFromNode", rdfr+"getRelationshipTypeFromURI",
	rdfr+"mapLicensesToStrings", rdfr+"ConjunctiveLicenseSet.ToLicenseString", rdfr+"DisjunctiveLicenseSet.ToLicenseString", rdfr+"SimpleLicensingInfo.ToLicenseString",
	rdfr+"ExtractedLicensingInfo.ToLicenseString", rdfr+"License.ToLicenseString", rdfr+"ListedLicense.ToLicenseString", rdfr+"OrLaterOperator.ToLicenseString",
	rdfr+"WithExceptionOperator.ToLicenseString", rdfr+"SpecialLicense.ToLicenseString", rdfr+"rdfParser2_@.getAnyLicenseFromNode",
	rdfr+"rdfParser2_@.getDisjunctiveLicenseSetFromNode", rdfr+"rdfParser2_@.getConjunctiveLicenseSetFromNode",
	rdfr+"rdfParser2_@.parseRelatedElementFromTriple", rdfr+"rdfParser2_@.parseRangeReference", rdfr+"rdfParser2_@.getPointerFromNode", rdfr+"rdfParser2_@.setSnippetRangeFromNode", rdfr+"rdfParser2_@.getSnippetInformationFromNode2_@")

var props = map[string]*Prop{
	"P02": {Units: units(tvHandlers, tvSpecial), Classes: map[string]bool{"safety": true, "post": true}},
	"P03": {Units: units(tvHandlers, tvSpecial)},
	"P06": {Units: units(forV(versions3, "func", tvr+"extractElementID", tvr+"extractDocElementID"), tvSpecial,
		forV(nil, "func", "spdx/v2/common.RenderElementID", "spdx/v2/common.RenderDocElementID"),
		forV(versions3, "lemma", tvr+"zzl_elementID", tvr+"zzl_docElementID", tvr+"zzl_docElementIDText"),
		forV(versions2, "lemma", tvr+"zzl_special"))},
	"P07": {Units: units(forV(nil, "func", "spdx/v2/common.DocumentID.MarshalJSON", "spdx/v2/common.DocumentID.UnmarshalJSON", "spdx/v2/common.ElementID.MarshalJSON", "spdx/v2/common.ElementID.UnmarshalJSON",
		"spdx/v2/common.DocElementID.MarshalJSON", "spdx/v2/common.DocElementID.UnmarshalJSON", "spdx/v2/common.Annotator.MarshalJSON", "spdx/v2/common.Annotator.UnmarshalJSON",
		"spdx/v2/common.Creator.MarshalJSON", "spdx/v2/common.Creator.UnmarshalJSON", "spdx/v2/common.Supplier.MarshalJSON", "spdx/v2/common.Supplier.UnmarshalJSON",
		"spdx/v2/common.Originator.MarshalJSON", "spdx/v2/common.Originator.UnmarshalJSON"),
		lemmas("spdx/v2/common.zzl_json", "ElementID", "DocumentID", "LocalID", "ForeignID", "None", "NoAssertion", "Creator", "Annotator", "Supplier", "NoSupplier", "Originator", "NoOriginator"))},
	"P01": {Units: forV(nil, "func", "tagvalue/reader.ReadTagValues")},
	"P04": {Units: units(tvWriters, forV(nil, "func", "spdx/v2/common.RenderElementID", "spdx/v2/common.RenderDocElementID")), Classes: map[string]bool{"safety": true, "post": true, "spec": true}},
	"P22": {Units: tvWriters, Classes: map[string]bool{"state": true, "repeat": true}},
	"P20": {Units: units(rdfHandlers, forV([]string{"2_3"}, "func", rdfr+"getPrimaryPackagePurpose"), forV(versions2, "func", rdfr+"AllRelationshipTypes")), Classes: map[string]bool{"spec": true, "state": true, "post": true}},
	"P12": {Units: forV(nil, "func", "utils.GetVerificationCode")},
	"P13": {Units: forV(nil, "func", "utils.ShouldIgnore")},
	"P14": {Units: forV(nil, "func", "builder.Build", "builder.BuildPackageSection", "builder.BuildFileSection", "builder.BuildCreationInfoSection", "builder.BuildRelationshipSection", "utils.GetAllFilePaths", "utils.GetHashesForFilePath", "utils.GetVerificationCode", "utils.ShouldIgnore")},
	"P15": {Units: forV(nil, "func", "idsearcher.BuildIDsDocument", "idsearcher.searchFileIDs", "idsearcher.getIndividualLicenses", "idsearcher.makeElement", "idsearcher.stripTrash")},
	"P16": {Units: forV(nil, "func", "licensediff.MakePairs", "licensediff.MakeResults")},
	"P17": {Units: forV(nil, "func", "reporter.Generate", "reporter.countLicenses")},
	"P10": {Units: units(forV(nil, "func", "json.ReadInto", "json.Read", "json.Write", "yaml.ReadInto", "yaml.Read", "yaml.Write",
		"tagvalue.ReadInto", "tagvalue.Read", "tagvalue.Write", "rdf.getSpdxVersion", "rdf.ReadInto", "rdf.Read")), Relies: []string{"P01", "P03", "P04", "P06", "P11"}, Split: true},
	"P11": {Units: units(forV(nil, "func", "convert.IsPtr", "convert.FromPtr", "convert.Describe", "convert.limit", "convert.DocumentChain", "convert.Document"), lemmas("convert.zzl_", "sameVersion1", "sameVersion2", "sameVersion3"),
		forV(nil, "func", "spdx/v2/v2_2.From_v2_1", "spdx/v2/v2_2.To_v2_1", "spdx/v2/v2_3.From_v2_2", "spdx/v2/v2_3.To_v2_2"),
		forV(nil, "struct", "adjacent:2_1,2_2", "adjacent:2_2,2_1", "adjacent:2_2,2_3", "adjacent:2_3,2_2"))},
	"P08": {Units: forV(versions2, "func", "spdx/v2/v2_@.Document.UnmarshalJSON"), Relies: []string{"P06"}},
	"P09": {Units: forV(versions2, "func", "spdx/v2/v2_@.Package.UnmarshalJSON", "spdx/v2/v2_@.PackageExternalReference.UnmarshalJSON", "spdx/v2/v2_@.PackageExternalReference.MarshalJSON")},
	"P21": {Units: forV(nil, "func", "json.Write", "yaml.Write", "tagvalue.Write", "reporter.Generate"), Relies: []string{"P04", "P06", "P11", "P17"}},
	"P23": {Units: units(forV(nil, "struct", "fields:2_1", "fields:2_2", "fields:2_3"), forV(nil, "func", "spdx/v2/v2_2.Package.MarshalJSON", "json/marshal.JSON"))},
	"P18": {Units: forV(nil, "func", "spdxlib.GetDescribedPackageIDs", "spdxlib.FilterRelationships", "spdxlib.SortElementIDs", "spdxlib.ValidateDocument")},
}

func lemmas(prefix string, names ...string) (out []unitRef) {
	for _, n := range names {
		out = append(out, unitRef{"lemma", prefix + n})
	}
	return
}
