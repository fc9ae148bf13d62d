from seedlib import *
W='spdx/v2/v2_3/tagvalue/writer/'
W1='spdx/v2/v2_1/tagvalue/writer/'
W2='spdx/v2/v2_2/tagvalue/writer/'
def H(ver, body, more=''):
    return '''package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	"github.com/spdx/tools-golang/spdx/v2/common"
	spdx "github.com/spdx/tools-golang/spdx/v2/v2_%s"
	"github.com/spdx/tools-golang/tagvalue"
)

var _ common.ElementID

func fail(x ...any) { fmt.Println(x...); os.Exit(1) }

func write(d *spdx.Document) string {
	var b bytes.Buffer
	if err := tagvalue.Write(d, &b); err != nil {
		fail(err)
	}
	return b.String()
}

func has(out, line string) {
	if !strings.Contains("\\n"+out, "\\n"+line+"\\n") {
		fail("missing", line, "in", out)
	}
}

func main() {
%s
}
''' % (ver, body)
seed('P04-trailing-newline','P04','a text whose only newline is at its end','the text is written without text markers',
[(W1+'util.go','strings.Contains(s, "\\n")','strings.Contains(strings.TrimRight(s, "\\n"), "\\n")')],
H('1','''	out := write(&spdx.Document{DocumentComment: "one line\\n", CreationInfo: &spdx.CreationInfo{}})
	has(out, "DocumentComment: <text>one line\\n</text>")'''))
seed('P04-last-extref-comment','P04','two external references of which only the first one has a comment','the comment of an external reference is written after the last one',
[(W+'save_package.go','''		if s.ExternalRefComment != "" {
			fmt.Fprintf(w, "ExternalRefComment: %s\\n", textify(s.ExternalRefComment))
		}
	}
''','''		comment = s.ExternalRefComment
		if comment != "" && s == pkg.PackageExternalReferences[len(pkg.PackageExternalReferences)-1] {
			break
		}
		if comment != "" && s.Locator != "" {
			fmt.Fprintf(w, "ExternalRefComment: %s\\n", textify(comment))
			comment = ""
		}
	}
	if comment != "" {
		fmt.Fprintf(w, "ExternalRefComment: %s\\n", textify(comment))
	}
'''),(W+'save_package.go','''	for _, s := range pkg.PackageExternalReferences {''','''	comment := ""
	for _, s := range pkg.PackageExternalReferences {''')],
H('3','''	out := write(&spdx.Document{CreationInfo: &spdx.CreationInfo{}, Packages: []*spdx.Package{{PackageName: "p", PackageSPDXIdentifier: "p",
		PackageExternalReferences: []*spdx.PackageExternalReference{{Category: "SECURITY", RefType: "x", ExternalRefComment: "c1"}, {Category: "OTHER", RefType: "y", Locator: "z"}}}}})
	has(out, "ExternalRefComment: c1")'''))
seed('P04-excluded-none','P04','an excluded file with an empty first name','excluded files are written only if the first one has a name',
[(W2+'save_package.go','if len(pkg.PackageVerificationCode.ExcludedFiles) == 0 {','if len(pkg.PackageVerificationCode.ExcludedFiles) == 0 || pkg.PackageVerificationCode.ExcludedFiles[0] == "" {')],
H('2','''	out := write(&spdx.Document{CreationInfo: &spdx.CreationInfo{}, Packages: []*spdx.Package{{PackageName: "p", PackageSPDXIdentifier: "p", FilesAnalyzed: true,
		PackageVerificationCode: common.PackageVerificationCode{Value: "c", ExcludedFiles: []string{"", "b"}}}}})
	has(out, "PackageVerificationCode: c (excludes: , b)")'''))
seed('P22-sorts-excluded','P22','a package with two excluded files that are not in ascending order','writing puts the excluded files of the caller\'s document in order',
[(W+'save_package.go','''		if len(pkg.PackageVerificationCode.ExcludedFiles) == 0 {''','''		sort.Strings(pkg.PackageVerificationCode.ExcludedFiles)
		if len(pkg.PackageVerificationCode.ExcludedFiles) == 0 {''')],
H('3','''	x := []string{"b", "a"}
	write(&spdx.Document{CreationInfo: &spdx.CreationInfo{}, Packages: []*spdx.Package{{PackageName: "p", PackageSPDXIdentifier: "p", FilesAnalyzed: true,
		PackageVerificationCode: &common.PackageVerificationCode{Value: "c", ExcludedFiles: x}}}})
	if x[0] != "b" {
		fail("changed", x)
	}'''))
seed('P22-snippet-case','P22','a file with snippets whose identifiers differ in case only','the order of such snippets depends on the map order, so two writes differ',
[(W1+'save_file.go','sort.Strings(snippetKeys)','''sort.Slice(snippetKeys, func(i, j int) bool {
		return strings.ToLower(snippetKeys[i]) < strings.ToLower(snippetKeys[j])
	})'''),(W1+'save_file.go','''	"sort"
''','''	"sort"
	"strings"
''')],
H('1','''	s := map[common.ElementID]*spdx.Snippet{}
	for _, id := range []common.ElementID{"abc", "Abc", "aBc", "abC", "ABc", "ABC"} {
		s[id] = &spdx.Snippet{SnippetSPDXIdentifier: id, SnippetName: string(id)}
	}
	d := &spdx.Document{CreationInfo: &spdx.CreationInfo{}, Files: []*spdx.File{{FileName: "f", FileSPDXIdentifier: "f", Snippets: s}}}
	first := write(d)
	for i := 0; i < 200; i++ {
		if write(d) != first {
			fail("two writes differ")
		}
	}'''))
seed('P22-drops-empty-annotations','P22','a document with an annotation that has no annotator','writing removes the annotation from the caller\'s document',
[(W2+'save_document.go','''	if len(doc.Annotations) > 0 {
''','''	kept := doc.Annotations[:0]
	for _, ann := range doc.Annotations {
		if ann.Annotator.Annotator != "" || ann.AnnotationComment != "" || ann.AnnotationDate != "" {
			kept = append(kept, ann)
		}
	}
	doc.Annotations = kept
	if len(doc.Annotations) > 0 {
''')],
H('2','''	d := &spdx.Document{CreationInfo: &spdx.CreationInfo{}, Annotations: []*spdx.Annotation{{AnnotationType: "REVIEW"}, {AnnotationType: "OTHER", AnnotationComment: "x"}}}
	write(d)
	if len(d.Annotations) != 2 || d.Annotations[0].AnnotationType != "REVIEW" {
		fail("changed")
	}'''))
done()
