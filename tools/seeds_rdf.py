from seedlib import seed, done
HEAD='''package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/spdx/tools-golang/rdf"
	"github.com/spdx/tools-golang/spdx"
)

const head = `<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:spdx="http://spdx.org/rdf/terms#" xmlns:doap="http://usefulinc.com/ns/doap#" xmlns:rdfs="http://www.w3.org/2000/01/rdf-schema#" xmlns:ptr="http://www.w3.org/2009/pointers#">
<spdx:SpdxDocument rdf:about="http://example.org/d#SPDXRef-DOCUMENT"><spdx:specVersion>SPDX-VERSION</spdx:specVersion><spdx:name>d</spdx:name>`

// read reads a document with the given content, of the document and beside it.
func read(version, inside, beside string) *spdx.Document {
	d, err := rdf.Read(strings.NewReader(strings.Replace(head, "VERSION", version, 1) + inside + "</spdx:SpdxDocument>" + beside + "</rdf:RDF>"))
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	return d
}

func pkg(content string) string {
	return `<spdx:relationship><spdx:Relationship><spdx:relationshipType rdf:resource="http://spdx.org/rdf/terms#relationshipType_describes"/><spdx:relatedSpdxElement><spdx:Package rdf:about="http://example.org/d#SPDXRef-p"><spdx:name>p</spdx:name>` + content + `</spdx:Package></spdx:relatedSpdxElement></spdx:Relationship></spdx:relationship>`
}

func check(ok bool, what ...any) {
	if !ok {
		fmt.Println(what...)
		os.Exit(1)
	}
}

var _ = sort.Strings
var _ = pkg

func main() {
'''
def s(id,needs,breaks,edits,body):
    seed(id,'P20',needs,breaks,edits,HEAD+body+"}\n")
R='spdx/v2/v2_%s/rdf/reader/'
s('P20-review-anonymous','an SPDX 2.2 document with a review that names no reviewer','reviews without a reviewer lose their comment and date',
 [(R%2+'parse_review.go','	parser.doc.Reviews = append(parser.doc.Reviews, &review)\n','	if review.Reviewer == "" {\n		// nobody to credit\n		review.ReviewComment, review.ReviewDate = "", ""\n	}\n	parser.doc.Reviews = append(parser.doc.Reviews, &review)\n')],'''
	d := read("2.2", `<spdx:reviewed><spdx:Review><rdfs:comment>c1</rdfs:comment><spdx:reviewDate>2019</spdx:reviewDate></spdx:Review></spdx:reviewed>`, "")
	check(len(d.Reviews) == 1 && d.Reviews[0].ReviewComment == "c1" && d.Reviews[0].ReviewDate == "2019", "review", d.Reviews)
''')
s('P20-excluded-files','an SPDX 2.2 package whose verification code excludes more than one file','only one excluded file of a verification code is kept',
 [(R%2+'parse_package.go','pkg.PackageVerificationCode.ExcludedFiles = append(pkg.PackageVerificationCode.ExcludedFiles, subTriple.Object.ID)','pkg.PackageVerificationCode.ExcludedFiles = append(pkg.PackageVerificationCode.ExcludedFiles[:0], subTriple.Object.ID)')],'''
	d := read("2.2", pkg(`<spdx:packageVerificationCode><spdx:PackageVerificationCode><spdx:packageVerificationCodeValue>abc</spdx:packageVerificationCodeValue><spdx:packageVerificationCodeExcludedFile>x</spdx:packageVerificationCodeExcludedFile><spdx:packageVerificationCodeExcludedFile>y</spdx:packageVerificationCodeExcludedFile></spdx:PackageVerificationCode></spdx:packageVerificationCode>`), "")
	ex := d.Packages[0].PackageVerificationCode.ExcludedFiles
	sort.Strings(ex)
	check(len(ex) == 2 && ex[0] == "x" && ex[1] == "y", "excluded files", ex)
''')
s('P20-creator-colon','a creator whose name contains a colon','names of creators, annotators, suppliers and originators are cut at a second colon',
 [(R%3+'utils.go','	sp := strings.SplitN(value, sep, 2)\n	if len(sp) == 1 {','	sp := strings.SplitN(value, sep, 3)\n	if len(sp) == 1 {')],'''
	d := read("2.3", `<spdx:creationInfo><spdx:CreationInfo><spdx:created>2020</spdx:created><spdx:creator>Organization: ACME: Labs</spdx:creator></spdx:CreationInfo></spdx:creationInfo>`, "")
	check(len(d.CreationInfo.Creators) == 1 && d.CreationInfo.Creators[0].Creator == "ACME: Labs", d.CreationInfo.Creators)
''')
s('P20-creator-repeated','creation information naming a tool and an organization of the same name','a creator whose name was already given is dropped whatever its kind',
 [(R%3+'parse_creation_info.go','	entityType, entity, err := ExtractSubs(creatorStr, ":")\n	if err != nil {\n		return fmt.Errorf("error setting creator of a creation info: %s", err)\n	}\n','	entityType, entity, err := ExtractSubs(creatorStr, ":")\n	if err != nil {\n		return fmt.Errorf("error setting creator of a creation info: %s", err)\n	}\n	for _, known := range ci.Creators {\n		if known.Creator == entity {\n			return nil // given already\n		}\n	}\n')],'''
	d := read("2.3", `<spdx:creationInfo><spdx:CreationInfo><spdx:created>2020</spdx:created><spdx:creator>Organization: a</spdx:creator><spdx:creator>Tool: a</spdx:creator></spdx:CreationInfo></spdx:creationInfo>`, "")
	check(len(d.CreationInfo.Creators) == 2, d.CreationInfo.Creators)
''')
s('P20-seealso-repeated','an extracted license with two consecutive cross references of the same length','cross references as long as the previous one are dropped',
 [(R%3+'parse_license.go','			lic.seeAlso = append(lic.seeAlso, triple.Object.ID)','			if n := len(lic.seeAlso); n == 0 || len(lic.seeAlso[n-1]) != len(triple.Object.ID) {\n				lic.seeAlso = append(lic.seeAlso, triple.Object.ID)\n			}')],'''
	d := read("2.3", `<spdx:hasExtractedLicensingInfo><spdx:ExtractedLicensingInfo><spdx:licenseId>LicenseRef-1</spdx:licenseId><spdx:extractedText>t</spdx:extractedText><rdfs:seeAlso>http://a.example/x</rdfs:seeAlso><rdfs:seeAlso>http://a.example/y</rdfs:seeAlso></spdx:ExtractedLicensingInfo></spdx:hasExtractedLicensingInfo>`, "")
	check(len(d.OtherLicenses) == 1 && len(d.OtherLicenses[0].LicenseCrossReferences) == 2, "cross references")
''')
s('P20-range-lines','a snippet of an SPDX 2.2 document whose range ends before it starts','the ends of a range given in descending order are swapped',
 [(R%2+'parse_snippet_info.go','	// return error when start and end pointer type is not same.\n','	if end < start {\n		// ranges are ordered\n		start, end = end, start\n	}\n\n	// return error when start and end pointer type is not same.\n')],'''
	d := read("2.2", "", `<spdx:Snippet rdf:about="http://example.org/d#SPDXRef-s"><spdx:snippetFromFile><spdx:File rdf:about="http://example.org/d#SPDXRef-f"><spdx:fileName>f</spdx:fileName></spdx:File></spdx:snippetFromFile>
<spdx:range><ptr:StartEndPointer><ptr:startPointer><ptr:LineCharPointer><ptr:lineNumber>9</ptr:lineNumber></ptr:LineCharPointer></ptr:startPointer><ptr:endPointer><ptr:LineCharPointer><ptr:lineNumber>5</ptr:lineNumber></ptr:LineCharPointer></ptr:endPointer></ptr:StartEndPointer></spdx:range>
</spdx:Snippet>`)
	for _, f := range d.Files {
		for _, s := range f.Snippets {
			check(s.Ranges[0].StartPointer.LineNumber == 9 && s.Ranges[0].EndPointer.LineNumber == 5, s.Ranges)
			return
		}
	}
	check(false, "no snippet")
''')
s('P20-originator-stale','a package with two originators, the later one NOASSERTION','an originator of NOASSERTION keeps the kind of an earlier one',
 [(R%3+'parse_package.go','	originator := &common.Originator{}\n','	originator := pkg.PackageOriginator\n	if originator == nil {\n		originator = &common.Originator{}\n	}\n')],'''
	// the order in which the graph gives the two is not fixed by the text
	for _, x := range []string{
		`<spdx:originator>Person: o</spdx:originator><spdx:originator>NOASSERTION</spdx:originator>`,
		`<spdx:originator>NOASSERTION</spdx:originator><spdx:originator>Person: o</spdx:originator>`,
	} {
		for i := 0; i < 30; i++ {
			o := read("2.3", pkg(x), "").Packages[0].PackageOriginator
			check(o.Originator != "NOASSERTION" || o.OriginatorType == "", *o)
		}
	}
''')
s('P20-checksum-case','a checksum written with upper-case digits','checksum values lose their letter case',
 [(R%3+'license_utils.go','			checksumValue = strings.TrimSpace(checksumTriple.Object.ID)','			checksumValue = strings.ToLower(strings.TrimSpace(checksumTriple.Object.ID))')],'''
	d := read("2.3", pkg(`<spdx:checksum><spdx:Checksum><spdx:algorithm rdf:resource="http://spdx.org/rdf/terms#checksumAlgorithm_sha1"/><spdx:checksumValue>ABCdef</spdx:checksumValue></spdx:Checksum></spdx:checksum>`), "")
	check(d.Packages[0].PackageChecksums[0].Value == "ABCdef", d.Packages[0].PackageChecksums)
''')
s('P20-extref-comment','an external reference of an SPDX 2.3 package with a comment but no locator given before it','the comment of a reference doubles as its locator',
 [(R%3+'parse_package.go','			externalDocRef.ExternalRefComment = triple.Object.ID','			externalDocRef.ExternalRefComment = triple.Object.ID\n			if externalDocRef.Category == "OTHER" && externalDocRef.RefType == "" {\n				externalDocRef.RefType = triple.Object.ID\n			}')],'''
	d := read("2.3", pkg(`<spdx:externalRef><spdx:ExternalRef><spdx:referenceCategory rdf:resource="http://spdx.org/rdf/terms#referenceCategory_other"/><spdx:referenceLocator>l</spdx:referenceLocator><rdfs:comment>rc</rdfs:comment></spdx:ExternalRef></spdx:externalRef>`), "")
	for i := 0; i < 30; i++ {
		r := read("2.3", pkg(`<spdx:externalRef><spdx:ExternalRef><spdx:referenceCategory rdf:resource="http://spdx.org/rdf/terms#referenceCategory_other"/><spdx:referenceLocator>l</spdx:referenceLocator><rdfs:comment>rc</rdfs:comment></spdx:ExternalRef></spdx:externalRef>`), "").Packages[0].PackageExternalReferences[0]
		check(r.RefType == "" && r.ExternalRefComment == "rc", *r)
	}
	_ = d
''')
s('P20-snippet-license-once','a snippet that names the same license twice','licenses of a snippet are kept once',
 [(R%2+'parse_snippet_info.go','			si.LicenseInfoInSnippet = append(si.LicenseInfoInSnippet, anyLicense.ToLicenseString())','			license := anyLicense.ToLicenseString()\n			if n := len(si.LicenseInfoInSnippet); n == 0 || si.LicenseInfoInSnippet[n-1] != license {\n				si.LicenseInfoInSnippet = append(si.LicenseInfoInSnippet, license)\n			}')],'''
	d := read("2.2", "", `<spdx:Snippet rdf:about="http://example.org/d#SPDXRef-s"><spdx:snippetFromFile><spdx:File rdf:about="http://example.org/d#SPDXRef-f"><spdx:fileName>f</spdx:fileName></spdx:File></spdx:snippetFromFile>
<spdx:licenseInfoInSnippet rdf:resource="http://spdx.org/rdf/terms#none"/><spdx:licenseInfoInSnippet><spdx:License><spdx:licenseId>NONE</spdx:licenseId></spdx:License></spdx:licenseInfoInSnippet>
</spdx:Snippet>`)
	for _, f := range d.Files {
		for _, s := range f.Snippets {
			check(len(s.LicenseInfoInSnippet) == 2, s.LicenseInfoInSnippet)
			return
		}
	}
	check(false, "no snippet")
''')
done()
