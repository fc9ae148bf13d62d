from seedlib import *
H='''package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/spdx/tools-golang/builder"
	"github.com/spdx/tools-golang/idsearcher"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/utils"
)

var _ = builder.Build
var _ = idsearcher.BuildIDsDocument
var _ = utils.ShouldIgnore
var _ spdx.File

func fail(x ...any) { fmt.Println(x...); os.Exit(1) }

func tree(files map[string]string) string {
	d, err := os.MkdirTemp(".", "tree")
	if err != nil {
		os.Exit(3)
	}
	for n, s := range files {
		os.MkdirAll(filepath.Dir(filepath.Join(d, n)), 0o755)
		os.WriteFile(filepath.Join(d, n), []byte(s), 0o644)
	}
	return d
}

'''
V='utils/verification.go'; FS='utils/filesystem.go'
seed('P12-first-sha1-only','P12','a file carrying two SHA1 checksums','only the first SHA1 of a file enters the verification code',
[(V,'''					shas = append(shas, checksum.Value)
''','''					shas = append(shas, checksum.Value)
					break
''')],H+'''func main() {
	f := func(vs ...string) *spdx.File {
		r := &spdx.File{FileName: "a"}
		for _, v := range vs {
			r.Checksums = append(r.Checksums, spdx.Checksum{Algorithm: "SHA1", Value: v})
		}
		return r
	}
	a, _ := utils.GetVerificationCode([]*spdx.File{f("1", "2")}, "")
	b, _ := utils.GetVerificationCode([]*spdx.File{f("1"), f("2")}, "")
	if a.Value != b.Value {
		fail(a, b)
	}
}
''')
seed('P12-exclude-dot','P12','an excluded file name given without the leading ./ that the listed names carry','a file whose name merely ends in the excluded name after ./ is left out of the code',
[(V,'''		if f.FileName != excludeFile {''','''		if f.FileName != excludeFile && (excludeFile == "" || f.FileName != "./"+excludeFile) {''')],H+'''func main() {
	fs := []*spdx.File{{FileName: "./a", Checksums: []spdx.Checksum{{Algorithm: "SHA1", Value: "1"}}}}
	a, _ := utils.GetVerificationCode(fs, "a")
	b, _ := utils.GetVerificationCode(fs, "")
	if a.Value != b.Value {
		fail(a, b)
	}
}
''')
seed('P13-case2-sibling','P13','a directory pattern and a file in a sibling directory whose name starts with the pattern directory','the directory pattern is compared without its trailing slash',
[(FS,'''strings.HasPrefix(fDirs, patternDirs) && patternFile == ""''','''strings.HasPrefix(fDirs, strings.TrimSuffix(patternDirs, "/")) && patternFile == ""''')],H+'''func main() {
	if utils.ShouldIgnore("/subdir2/a", []string{"/subdir/"}) {
		fail("sibling ignored")
	}
}
''')
seed('P13-stars-prefix','P13','a ** pattern naming a file in a sub-directory that is not the last directory of the path','the directories of a ** pattern must end the path instead of occurring in it',
[(FS,'''strings.Contains(fDirs, patternDirs) && patternFile != "" && patternFile == fFile''','''strings.HasSuffix(fDirs, patternDirs) && patternFile != "" && patternFile == fFile''')],H+'''func main() {
	if !utils.ShouldIgnore("/x/sub/y/a.txt", []string{"**/sub/a.txt"}) {
		fail("not ignored")
	}
}
''')
seed('P14-prefix-everywhere','P14','a file below a directory that repeats the absolute path of the root','every occurrence of the root path is cut from the file name, not only the leading one',
[(FS,"""strings.TrimPrefix(path, prefix)""","""strings.ReplaceAll(path, prefix, "")""")],H+'''func main() {
	d := tree(map[string]string{"a": "x"})
	abs, _ := filepath.Abs(d)
	p := filepath.Join(d, abs, "q")
	os.MkdirAll(p, 0o755)
	os.WriteFile(p+"/w", []byte("y"), 0o644)
	doc, err := builder.Build("p", d, &builder.Config{CreatorType: "Tool", Creator: "x"})
	if err != nil || len(doc.Packages[0].Files) != 2 {
		fail(err, doc)
	}
	for _, f := range doc.Packages[0].Files {
		if f.FileName != "./a" && f.FileName != "."+abs+"/q/w" {
			fail(f.FileName)
		}
	}
}
''')
seed('P14-same-content','P14','two consecutive files with the same content','a file with the content of the file before does not advance the file number, so two files share an identifier',
[('builder/build_package.go',"""		fileNumber++
""","""		if n := len(files); n < 2 || files[n-2].Checksums[1] != newFile.Checksums[1] {
			fileNumber++
		}
""")],H+'''func main() {
	d := tree(map[string]string{"a": "y", "b": "y", "c": "z"})
	doc, err := builder.Build("p", d, &builder.Config{CreatorType: "Tool", Creator: "x"})
	if err != nil {
		fail(err)
	}
	seen := map[any]bool{}
	for _, f := range doc.Packages[0].Files {
		if seen[f.FileSPDXIdentifier] {
			fail(f.FileSPDXIdentifier, "twice")
		}
		seen[f.FileSPDXIdentifier] = true
	}
}
''')
seed('P14-ignore-hash-error','P14','a listed file that cannot be read while the document is built','the error is swallowed and the file silently left out',
[('builder/build_package.go','''		if err != nil {
			return nil, err
		}
		files = append''','''		if err != nil {
			continue
		}
		files = append''')],H+'''type fi struct{}

func main() {
	// a path of a file that is listed by the walk but cannot be opened: its name does not survive filepath.Join
	d := tree(map[string]string{"a": "x"})
	os.Chdir(d)
	if err := os.Mkdir("s", 0o755); err != nil {
		os.Exit(3)
	}
	// a FIFO-less way: a socket cannot be opened for reading
	if err := mksock("s/sock"); err != nil {
		os.Exit(3)
	}
	doc, err := builder.Build("p", ".", &builder.Config{CreatorType: "Tool", Creator: "x"})
	if err == nil || doc != nil {
		fail("no error", err)
	}
}

func mksock(p string) error {
	l, err := netListen(p)
	_ = l
	return err
}
'''.replace('type fi struct{}\n\n','')+'''
func netListen(p string) (any, error) { return net.Listen("unix", p) }
''')
p='/verif/seeded/P14-ignore-hash-error/main.go'; s=open(p).read(); s=s.replace('import (\n\t"fmt"\n','import (\n\t"fmt"\n\t"net"\n'); open(p,'w').write(s)
S='idsearcher/idsearcher.go'
seed('P15-or-with','P15','a file with two identifiers, one an OR expression with a WITH exception','an OR expression that also has a WITH is not parenthesised',
[(S,"""	if strings.Contains(lic, " AND ") || strings.Contains(lic, " OR ") {""","""	if strings.Contains(lic, " AND ") || strings.Index(lic, " OR ") > 0 && !strings.Contains(lic, " WITH ") {""")],H+'''func main() {
	d := tree(map[string]string{"a": "# SPDX-License-Identifier: MIT\\n# SPDX-License-Identifier: GPL-2.0 WITH X OR Y\\n"})
	doc, err := idsearcher.BuildIDsDocument("p", d, &idsearcher.Config{})
	if err != nil || doc.Packages[0].Files[0].LicenseConcluded != "(GPL-2.0 WITH X OR Y) AND MIT" {
		fail(err, doc.Packages[0].Files[0].LicenseConcluded)
	}
}
''')
seed('P15-two-tags-line','P15','a line with two identifier tags','the line is split at the last tag instead of the first',
[(S,"""strs := strings.SplitN(scanner.Text(), "SPDX-License-Identifier:", 2)""","""i := strings.LastIndex(scanner.Text(), "SPDX-License-Identifier:")
			strs := []string{scanner.Text()[:i], scanner.Text()[i+len("SPDX-License-Identifier:"):]}""")],H+'''func main() {
	d := tree(map[string]string{"a": "SPDX-License-Identifier: MIT SPDX-License-Identifier: X\\n"})
	doc, err := idsearcher.BuildIDsDocument("p", d, &idsearcher.Config{})
	if err != nil || doc.Packages[0].Files[0].LicenseConcluded == "NOASSERTION" {
		fail(err, doc.Packages[0].Files[0].LicenseConcluded)
	}
}
''')
H2='''package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdxlib"
)

var _ = spdxlib.ValidateDocument
var _ bytes.Buffer
var _ = strings.Fields
var _ common.ElementID
var _ = reporter.Generate

func fail(x ...any) { fmt.Println(x...); os.Exit(1) }

'''
seed('P17-none-not-found','P17','files whose concluded license is NONE','NONE counts as not found',
[('reporter/reporter.go','''f.LicenseConcluded == "NOASSERTION" {''','''f.LicenseConcluded == "NOASSERTION" || f.LicenseConcluded == "NONE" {''')],H2+'''func main() {
	var b bytes.Buffer
	err := reporter.Generate(&spdx.Package{FilesAnalyzed: true, Files: []*spdx.File{{LicenseConcluded: "NONE"}}}, &b)
	if err != nil || strings.Fields(b.String())[0] != "1" {
		fail(err, b.String())
	}
}
''')
seed('P17-same-count-dropped','P17','two licenses that occur the same number of times','rows with a count equal to the row before are left out of the report',
[('reporter/reporter.go','''	for _, c := range counts {
''','''	for i, c := range counts {
		if i > 0 && c.count == counts[i-1].count && c.count > 1 && i+1 == len(counts) {
			continue
		}
''')],H2+'''func main() {
	var b bytes.Buffer
	p := &spdx.Package{FilesAnalyzed: true}
	for _, l := range []string{"A", "A", "B", "B"} {
		p.Files = append(p.Files, &spdx.File{LicenseConcluded: l})
	}
	err := reporter.Generate(p, &b)
	if err != nil || !strings.Contains(b.String(), "A\\n") || !strings.Contains(b.String(), "B\\n") {
		fail(err, b.String())
	}
}
''')
seed('P18-described-by-extdoc','P18','a DESCRIBED_BY relationship whose right side is the DOCUMENT of another document','the document reference of the right side is not compared',
[('spdxlib/described_elements.go','''relationship.RefB == refDocument {''','''relationship.RefB.ElementRefID == refDocument.ElementRefID {''')],H2+'''func main() {
	d := &spdx.Document{Packages: []*spdx.Package{{PackageSPDXIdentifier: "a"}, {PackageSPDXIdentifier: "b"}}}
	d.Relationships = []*spdx.Relationship{
		{RefA: common.MakeDocElementID("", "DOCUMENT"), RefB: common.MakeDocElementID("", "a"), Relationship: "DESCRIBES"},
		{RefA: common.MakeDocElementID("", "b"), RefB: common.MakeDocElementID("other", "DOCUMENT"), Relationship: "DESCRIBED_BY"},
	}
	ids, err := spdxlib.GetDescribedPackageIDs(d)
	if err != nil || len(ids) != 1 || ids[0] != "a" {
		fail(ids, err)
	}
}
''')
seed('P18-validate-skip-refb','P18','a relationship from the document to an unknown element','the right side of relationships that start at the document is not checked',
[('spdxlib/documents.go','''		if !validElementIDs[relationship.RefB.ElementRefID] {''','''		if !validElementIDs[relationship.RefB.ElementRefID] && (relationship.RefA.ElementRefID != "DOCUMENT" || relationship.Relationship == "DESCRIBES") {''')],H2+'''func main() {
	d := &spdx.Document{}
	d.Relationships = []*spdx.Relationship{
		{RefA: common.MakeDocElementID("", "DOCUMENT"), RefB: common.MakeDocElementID("", "zz"), Relationship: "CONTAINS"},
	}
	if spdxlib.ValidateDocument(d) == nil {
		fail("valid")
	}
}
''')
done()
