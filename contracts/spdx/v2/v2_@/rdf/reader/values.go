//@file 2_2 2_3
package reader

import (
	"strings"

	gordfParser "github.com/spdx/gordf/rdfloader/parser"
	urilib "github.com/spdx/gordf/uri"

	"github.com/spdx/tools-golang/spdx/v2/common"
	spdx "github.com/spdx/tools-golang/spdx/v2/v2_@"
	v "github.com/spdx/tools-golang/verifspec"
)

// ---- values written as text (P20) ----

// the part of a URI after the last "#", or after the last "/" where there is no "#".
func zzc_getLastPartOfURI(uri string) {
	v.Opaque()
	v.Total()
	v.Spec(func() string {
		sep := "/"
		if strings.Contains(uri, "#") {
			sep = "#"
		}
		parts := strings.Split(uri, sep)
		return parts[len(parts)-1]
	})
}

func zzc_isUriValid(uri string) {
	v.Opaque()
	v.Spec(func() bool {
		_, err := urilib.NewURIRef(uri)
		return err == nil
	})
}

func zzc_boolFromString(boolString string) {
	v.Opaque()
	v.Total()
	v.Spec(func() (bool, error) {
		text := strings.ToLower(boolString)
		if text != "true" && text != "false" {
			return false, v.Fail()
		}
		return text == "true", nil
	})
}

// zz_elementID: the name in "SPDXRef-name".
func zz_elementID(text string) (string, bool) {
	name, ok := strings.CutPrefix(text, "SPDXRef-")
	return name, ok && name != "" && !strings.Contains(name, ":")
}

func zzc_ExtractElementID(value string) {
	v.Opaque()
	v.Total()
	v.Spec(func() (common.ElementID, error) {
		name, ok := zz_elementID(value)
		if !ok {
			return "", v.Fail()
		}
		return common.ElementID(name), nil
	})
}

// zz_docElementID: the identifier in "SPDXRef-name" or "DocumentRef-doc:SPDXRef-name".
func zz_docElementID(text string) (common.DocElementID, bool) {
	doc := ""
	if rest, ok := strings.CutPrefix(text, "DocumentRef-"); ok {
		d, elt, ok := strings.Cut(rest, ":")
		if !ok || d == "" {
			return common.DocElementID{}, false
		}
		doc, text = d, elt
	}
	name, ok := zz_elementID(text)
	if !ok {
		return common.DocElementID{}, false
	}
	return common.DocElementID{DocumentRefID: common.DocumentID(doc), ElementRefID: common.ElementID(name)}, true
}

func zzc_ExtractDocElementID(value string) {
	v.Opaque()
	v.Ensures(func(id common.DocElementID, err error) bool {
		want, ok := zz_docElementID(value)
		return ok == (err == nil) && (!ok && id == common.DocElementID{} || id == want)
	})
	v.Total()
	v.Spec(func() (common.DocElementID, error) {
		id, ok := zz_docElementID(value)
		if !ok {
			return common.DocElementID{}, v.Fail()
		}
		return id, nil
	})
}

func zzc_ExtractSubs(value string, sep string) {
	v.Requires(sep != "")
	v.Opaque()
	v.Total()
	v.Spec(func() (string, string, error) {
		key, rest, ok := strings.Cut(value, sep)
		if !ok {
			return "", "", v.Fail()
		}
		return strings.TrimSpace(key), strings.TrimSpace(rest), nil
	})
}

func zzc_getLicenseStringFromURI(uri string) {
	v.Opaque()
	v.Total()
	v.Spec(func() string {
		name := strings.TrimSpace(getLastPartOfURI(uri))
		switch strings.ToLower(name) {
		case "none", "noassertion":
			return strings.ToUpper(name)
		}
		return name
	})
}

func zzc_getAlgorithmFromURI(algorithmURI string) {
	v.Opaque()
	v.Spec(func() (string, error) {
		name, ok := strings.CutPrefix(getLastPartOfURI(algorithmURI), "checksumAlgorithm_")
		if !ok {
			return "", v.Fail()
		}
		name = strings.ToLower(strings.TrimSpace(name))
		for _, known := range []string{"md2", "md4", "md5", "md6", "sha1", "sha224", "sha256", "sha384", "sha512"} {
			if name == known {
				return strings.ToUpper(name), nil
			}
		}
		return "", v.Fail()
	})
}

func zzc_rdfParser2_@__getFileTypeFromUri(parser *rdfParser2_@, uri string) {
	v.Opaque()
	v.Total()
	v.Spec(func() (string, error) {
		name, ok := strings.CutPrefix(getLastPartOfURI(uri), "fileType_")
		if !ok {
			return "", v.Fail()
		}
		return name, nil
	})
}

func zzc_getNoticeTextFromNode(node *gordfParser.Node) {
	v.Requires(node != nil)
	v.Spec(func() string {
		if node.ID == "http://spdx.org/rdf/terms#NOASSERTION" || node.ID == "http://spdx.org/rdf/terms#noassertion" {
			return "NOASSERTION"
		}
		return node.ID
	})
}

// zz_reference: an element, possibly of another document, or one of the two words for none.
func zzc_getReferenceFromURI(uri string) {
	v.Opaque()
	v.Total()
	v.Spec(func() (common.DocElementID, error) {
		name := getLastPartOfURI(uri)
		word := strings.ToLower(strings.TrimSpace(name))
		if word == "none" || word == "noassertion" {
			return common.DocElementID{ElementRefID: common.ElementID(strings.ToUpper(name))}, nil
		}
		return ExtractDocElementID(name)
	})
}

//@if 2_3
func zzc_getPrimaryPackagePurpose(purpose string) {
	v.Opaque()
	v.Total()
	v.Spec(func() string {
		name := strings.ToUpper(strings.ReplaceAll(strings.ReplaceAll(purpose, "packagePurpose_", ""), "_", "-"))
		for _, known := range []string{"APPLICATION", "FRAMEWORK", "LIBRARY", "CONTAINER", "OPERATING-SYSTEM", "DEVICE",
			"FIRMWARE", "SOURCE", "ARCHIVE", "FILE", "INSTALL", "OTHER"} {
			if name == known {
				return name
			}
		}
		return ""
	})
}
//@end

// ---- values set on an element ----

func zzc_setAnnotatorFromString(annotatorString string, ann *spdx.Annotation) {
	v.Requires(ann != nil)
	v.Spec(func() error {
		kind, name, err := ExtractSubs(annotatorString, ":")
		if err != nil || kind != "Person" && kind != "Organization" && kind != "Tool" {
			return v.Fail()
		}
		ann.Annotator = common.Annotator{Annotator: name, AnnotatorType: kind}
		return nil
	})
}

func zzc_setAnnotationType(annType string, ann *spdx.Annotation) {
	v.Requires(ann != nil)
	v.Spec(func() error {
		switch annType {
		case "http://spdx.org/rdf/terms#annotationType_other":
			ann.AnnotationType = "OTHER"
		case "http://spdx.org/rdf/terms#annotationType_review":
			ann.AnnotationType = "REVIEW"
		default:
			return v.Fail()
		}
		return nil
	})
}

func zzc_setAnnotationToParser(parser *rdfParser2_@, annotation *spdx.Annotation) {
	v.Requires(parser != nil)
	v.Spec(func() error {
		if parser.doc == nil {
			return v.Fail()
		}
		parser.doc.Annotations = append(parser.doc.Annotations, annotation)
		return nil
	})
}

func zzc_setCreator(creatorStr string, ci *spdx.CreationInfo) {
	v.Requires(ci != nil)
	v.Spec(func() error {
		kind, name, err := ExtractSubs(creatorStr, ":")
		if err != nil || kind != "Person" && kind != "Organization" && kind != "Tool" {
			return v.Fail()
		}
		ci.Creators = append(ci.Creators, common.Creator{Creator: name, CreatorType: kind})
		return nil
	})
}

// zz_actor: NOASSERTION, or a person or organization.
func zz_actor(value string) (kind, name string, ok bool) {
	value = strings.TrimSpace(value)
	if strings.ToUpper(value) == "NOASSERTION" {
		return "", "NOASSERTION", true
	}
	kind, name, err := ExtractSubs(value, ":")
	return kind, name, err == nil && (kind == "Person" || kind == "Organization")
}

func zzc_setPackageSupplier(pkg *spdx.Package, value string) {
	v.Requires(pkg != nil)
	v.Spec(func() error {
		kind, name, ok := zz_actor(value)
		if !ok {
			return v.Fail()
		}
		pkg.PackageSupplier = &common.Supplier{Supplier: name, SupplierType: kind}
		return nil
	})
}

func zzc_setPackageOriginator(pkg *spdx.Package, value string) {
	v.Requires(pkg != nil)
	v.Spec(func() error {
		kind, name, ok := zz_actor(value)
		if !ok {
			return v.Fail()
		}
		pkg.PackageOriginator = &common.Originator{Originator: name, OriginatorType: kind}
		return nil
	})
}

func zzc_setDocumentLocationFromURI(pkg *spdx.Package, locationURI string) {
	v.Requires(pkg != nil)
	v.Spec(func() error {
		switch locationURI {
		case "http://spdx.org/rdf/terms#NOASSERTION", "http://spdx.org/rdf/terms#noassertion":
			pkg.PackageDownloadLocation = "NOASSERTION"
			return nil
		case "http://spdx.org/rdf/terms#NONE", "http://spdx.org/rdf/terms#none":
			pkg.PackageDownloadLocation = "NONE"
			return nil
		}
		if !isUriValid(locationURI) {
			return v.Fail()
		}
		pkg.PackageDownloadLocation = locationURI
		return nil
	})
}

func zzc_setFilesAnalyzed(pkg *spdx.Package, boolValue string) {
	v.Requires(pkg != nil)
	v.Spec(func() error {
		analyzed, err := boolFromString(boolValue)
		if err != nil {
			return v.Fail()
		}
		pkg.FilesAnalyzed, pkg.IsFilesAnalyzedTagPresent = analyzed, true
		return nil
	})
}

func zzc_setFileIdentifier(idURI string, file *spdx.File) {
	v.Requires(file != nil)
	v.Spec(func() error {
		id, err := ExtractElementID(getLastPartOfURI(strings.TrimSpace(idURI)))
		if err != nil {
			return v.Fail()
		}
		file.FileSPDXIdentifier = id
		return nil
	})
}

func zzc_setSnippetID(uri string, si *spdx.Snippet) {
	v.Requires(si != nil)
	v.Spec(func() error {
		id, err := ExtractElementID(getLastPartOfURI(uri))
		if err != nil {
			return v.Fail()
		}
		si.SnippetSPDXIdentifier = id
		return nil
	})
}

// a file of a package is no longer one of the document's own files.
func zzc_rdfParser2_@__setFileToPackage(parser *rdfParser2_@, pkg *spdx.Package, file *spdx.File) {
	v.Requires(parser != nil && pkg != nil && file != nil && parser.assocWithPackage != nil)
	v.Spec(func() {
		pkg.Files = append(pkg.Files, file)
		parser.assocWithPackage[file.FileSPDXIdentifier] = true
	})
}

func zzc_rdfParser2_@__setSnippetToFileWithID(parser *rdfParser2_@, snippet *spdx.Snippet, fileID common.ElementID) {
	v.Requires(parser != nil && snippet != nil)
	v.Spec(func() error {
		file := parser.files[fileID]
		if file == nil {
			return v.Fail()
		}
		if file.Snippets == nil {
			file.Snippets = map[common.ElementID]*spdx.Snippet{}
		}
		file.Snippets[snippet.SnippetSPDXIdentifier] = snippet
		return nil
	})
}

// the known names (which ones is data, not specified here).
func zzc_AllStandardLicenseIDS() { v.Opaque() }

// the relationship types of SPDX 2.2, as RDF names them
func zzc_AllRelationshipTypes() {
	v.Opaque()
	v.Spec(func() []string {
		return []string{
			"amendment", "ancestorOf", "buildDependencyOf", "buildToolOf",
			"containedBy", "contains", "copyOf", "dataFile", "dataFileOf",
			"dependencyManifestOf", "dependencyOf", "dependsOn", "descendantOf",
			"describedBy", "describes", "devDependencyOf", "devToolOf",
			"distributionArtifact", "documentation", "dynamicLink", "exampleOf",
			"expandedFromArchive", "fileAdded", "fileDeleted", "fileModified",
			"generatedFrom", "generates", "hasPrerequisite", "metafileOf",
			"optionalComponentOf", "optionalDependencyOf", "other", "packageOf",
			"patchApplied", "patchFor", "prerequisiteFor", "providedDependencyOf",
			"runtimeDependencyOf", "staticLink", "testDependencyOf", "testOf",
			"testToolOf", "testcaseOf", "variantOf",
		}
	})
}
