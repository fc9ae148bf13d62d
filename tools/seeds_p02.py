from seedlib import *
R='spdx/v2/v%s/tagvalue/reader/'
def H(v,extra=''):
    return '''package main

import (
	"fmt"
	"os"

	spdxr "github.com/spdx/tools-golang/spdx/v2/v%s/tagvalue/reader"
	"github.com/spdx/tools-golang/tagvalue/reader"
)

func fail(x ...any) { fmt.Println(x...); os.Exit(1) }

func tv(xs ...string) (out []reader.TagValuePair) {
	for i := 0; i+1 < len(xs); i += 2 {
		out = append(out, reader.TagValuePair{Tag: xs[i], Value: xs[i+1]})
	}
	return
}

'''%v
seed('P02-extref-comment','P02','a package with an ExternalRef, followed by another tag and then an ExternalRefComment','the 2.2 parser dereferences a nil external reference',
[(R%'2_2'+'parse_package.go','''		if parser.pkgExtRef == nil {''','''		if len(parser.pkg.PackageExternalReferences) == 0 {''')],H('2_2')+'''func main() {
	_, err := spdxr.ParseTagValues(tv("SPDXVersion", "SPDX-2.2", "PackageName", "p", "SPDXID", "SPDXRef-p", "ExternalRef", "SECURITY cpe23Type x", "PackageComment", "c", "ExternalRefComment", "d"))
	if err == nil {
		fail("no error")
	}
}
''')
seed('P02-annotation-in-review','P02','an AnnotationComment inside a review section before any Annotator tag of the document','the 2.1 parser writes the comment through a nil annotation',
[(R%'2_1'+'parse_annotation.go','''	if parser.ann == nil {''','''	if parser.ann == nil && parser.st != psReview {''')],H('2_1')+'''func main() {
	_, err := spdxr.ParseTagValues(tv("SPDXVersion", "SPDX-2.1", "LicenseID", "LicenseRef-1", "Reviewer", "Person: x", "AnnotationComment", "c"))
	if err == nil {
		fail("no error")
	}
}
''')
seed('P03-analyzed-clears','P03','a package that gives PackageLicenseInfoFromFiles before FilesAnalyzed: false','the FilesAnalyzed tag drops the license list read before it (2.2)',
[(R%'2_2'+'parse_package.go','''		if value == "false" {
			parser.pkg.FilesAnalyzed = false
''','''		if value == "false" {
			parser.pkg.FilesAnalyzed = false
			parser.pkg.PackageLicenseInfoFromFiles = nil
''')],H('2_2')+'''func main() {
	d, err := spdxr.ParseTagValues(tv("SPDXVersion", "SPDX-2.2", "PackageName", "p", "SPDXID", "SPDXRef-p", "PackageLicenseInfoFromFiles", "MIT", "FilesAnalyzed", "false"))
	if err != nil || len(d.Packages[0].PackageLicenseInfoFromFiles) != 1 {
		fail(err)
	}
}
''')
seed('P03-snippet-extdoc','P03','a SnippetFromFileSPDXID that names a file of an external document','the snippet keeps no file reference (2.1)',
[(R%'2_1'+'parse_snippet.go','''		parser.snippet.SnippetFromFileSPDXIdentifier = deID.ElementRefID''','''		if deID.DocumentRefID == "" {
			parser.snippet.SnippetFromFileSPDXIdentifier = deID.ElementRefID
		}''')],H('2_1')+'''func main() {
	d, err := spdxr.ParseTagValues(tv("SPDXVersion", "SPDX-2.1", "Created", "x", "FileName", "f", "SPDXID", "SPDXRef-f", "SnippetSPDXID", "SPDXRef-s", "SnippetFromFileSPDXID", "DocumentRef-d:SPDXRef-g"))
	if err != nil {
		fail(err)
	}
	for _, s := range d.Files[0].Snippets {
		if s.SnippetFromFileSPDXIdentifier != "g" {
			fail(s)
		}
	}
}
''')
seed('P03-license-comment-reset','P03','two LicenseID sections with the same identifier','the second extracted license is merged into the first instead of being added (2.3)',
[(R%'2_3'+'parse_other_license.go','''	case "LicenseID":
		parser.otherLic = &spdx.OtherLicense{}
		parser.doc.OtherLicenses = append(parser.doc.OtherLicenses, parser.otherLic)''','''	case "LicenseID":
		if parser.otherLic == nil || parser.otherLic.LicenseIdentifier != value {
			parser.otherLic = &spdx.OtherLicense{}
			parser.doc.OtherLicenses = append(parser.doc.OtherLicenses, parser.otherLic)
		}''')],H('2_3')+'''func main() {
	d, err := spdxr.ParseTagValues(tv("SPDXVersion", "SPDX-2.3", "LicenseID", "LicenseRef-1", "LicenseComment", "a", "LicenseID", "LicenseRef-1", "LicenseComment", "b"))
	if err != nil || len(d.OtherLicenses) != 2 {
		fail(err)
	}
}
''')
I='spdx/v2/common/identifier.go'
H6='''package main

import (
	"fmt"
	"os"

	"github.com/spdx/tools-golang/spdx/v2/common"
	spdxr "github.com/spdx/tools-golang/spdx/v2/v%s/tagvalue/reader"
	"github.com/spdx/tools-golang/tagvalue/reader"
)

func rel(b string) (common.DocElementID, error) {
	d, err := spdxr.ParseTagValues([]reader.TagValuePair{{Tag: "SPDXVersion", Value: "x"}, {Tag: "Created", Value: "y"}, {Tag: "Relationship", Value: "SPDXRef-a CONTAINS " + b}})
	if err != nil {
		return common.DocElementID{}, err
	}
	return d.Relationships[0].RefB, nil
}

func main() {
	%s
}

func fail(x ...any) { fmt.Println(x...); os.Exit(1) }
'''
seed('P06-render-doc-prefix','P06','a document reference whose own name starts with DocumentRef-','the prefix is not written, so the name read back is shorter',
[(I,'''		prefix = documentRefPrefix + string(deID.DocumentRefID) + ":"''','''		prefix = documentRefPrefix + strings.TrimPrefix(string(deID.DocumentRefID), documentRefPrefix) + ":"''')],H6%('2_3','''id := common.DocElementID{DocumentRefID: "DocumentRef-x", ElementRefID: "y"}
	got, err := rel(common.RenderDocElementID(id))
	if err != nil || got != id {
		fail(got, err)
	}'''))
seed('P06-replace-all','P06','an element name that itself contains SPDXRef-','every occurrence of the prefix is removed from the name (2.1)',
[(R%'2_1'+'util.go','''	eltRefID := strings.TrimPrefix(idStr, "SPDXRef-")''','''	eltRefID := strings.ReplaceAll(idStr, "SPDXRef-", "")''')],H6%('2_1','''id := common.DocElementID{ElementRefID: "x-SPDXRef-y"}
	got, err := rel(common.RenderDocElementID(id))
	if err != nil || got != id {
		fail(got, err)
	}'''))
seed('P06-special-prefix','P06','a related element text that starts with a special value, such as NONEXISTENT','a malformed identifier is accepted as a special value (2.2)',
[(R%'2_2'+'util.go','''		if sp == value {''','''		if strings.HasPrefix(value, sp) {''')],H6%('2_2','''if got, err := rel("NONEXISTENT"); err == nil {
		fail(got)
	}
	_ = common.DocElementID{}'''))
done()
