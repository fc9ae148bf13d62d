from seedlib import *
H='''package main

import (
	"fmt"
	"os"
%s
)

func fail(x ...any) { fmt.Println(x...); os.Exit(1) }

'''
def h(*imp): return H % '\n'.join('\t"%s"'%i for i in imp)
G='github.com/spdx/tools-golang/'
seed('P10-last-version-tag','P10','a tag-value document with two SPDXVersion tags','the model of the last version tag is used, not that of the first',
[('tagvalue/reader.go','''			version = pair.Value
			break
''','''			version = pair.Value
''')],h('strings',G+'tagvalue')+'''func main() {
	_, err := tagvalue.Read(strings.NewReader("SPDXVersion: SPDX-2.3\\nDataLicense: CC0-1.0\\nSPDXID: SPDXRef-DOCUMENT\\nSPDXVersion: SPDX-2.2\\nPackageName: a\\nSPDXID: SPDXRef-a\\nReleaseDate: 2020-01-01T00:00:00Z\\n"))
	if err != nil {
		fail(err)
	}
}
''')
seed('P10-yaml-21-error','P10','a YAML document of version 2.1 that does not fit the model after some fields','the decoding error is dropped and a partly filled document is returned',
[('yaml/reader.go','''		var doc v2_1.Document
		err = yaml.Unmarshal(buf.Bytes(), &doc)
		if err != nil {
			return err
		}
		data = doc''','''		var doc v2_1.Document
		_ = yaml.Unmarshal(buf.Bytes(), &doc)
		data = doc''')],h('strings',G+'yaml')+'''func main() {
	_, err := yaml.Read(strings.NewReader("spdxVersion: SPDX-2.1\\nname: [1, 2]\\n"))
	if err == nil {
		fail("no error")
	}
}
''')
seed('P10-version-other-vocabulary','P10','an RDF document in which a specVersion property of another vocabulary precedes the SPDX one','the version is taken from the other property',
[('rdf/reader.go','''import (
	"errors"
	"fmt"
	"io"
''','''import (
	"errors"
	"fmt"
	"io"
	"strings"
'''),('rdf/reader.go','''node.Predicate.ID == "http://spdx.org/rdf/terms#specVersion"''','''strings.HasSuffix(node.Predicate.ID, "specVersion")''')],h('strings',G+'rdf')+'''func main() {
	_, err := rdf.Read(strings.NewReader(`<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:spdx="http://spdx.org/rdf/terms#" xmlns:ex="http://example.org/t#">
<spdx:SpdxDocument rdf:about="http://example.org/d#SPDXRef-DOCUMENT"><ex:specVersion>SPDX-9</ex:specVersion><spdx:specVersion>SPDX-2.3</spdx:specVersion></spdx:SpdxDocument></rdf:RDF>`))
	if err != nil && strings.Contains(err.Error(), "unsupported") {
		fail(err)
	}
}
''')
seed('P10-pointer-versions','P10','a tag-value document that declares version 2.1 with a package checksum of an algorithm 2.1 does not have','a document that declares 2.1 is read with the model of 2.2',
[('tagvalue/reader.go','''		data, err = v2_1_reader.ParseTagValues(tvPairs)''','''		if data, err = v2_1_reader.ParseTagValues(tvPairs); err != nil {
			data, err = v2_2_reader.ParseTagValues(tvPairs)
		}''')],h('strings',G+'tagvalue')+'''func main() {
	_, err := tagvalue.Read(strings.NewReader("SPDXVersion: SPDX-2.1\\nDataLicense: CC0-1.0\\nSPDXID: SPDXRef-DOCUMENT\\nPackageName: a\\nSPDXID: SPDXRef-a\\nPackageChecksum: SHA512: ab\\n"))
	if err == nil {
		fail("a 2.1 document with a 2.2 checksum was accepted")
	}
}
''')
seed('P11-no-downgrade','P11','a 2.3 document converted to an earlier version','the conversion to 2.2 is not part of the chain any more: the version stays',
[('spdx/v2/v2_3/document.go','''func To_v2_2(_ Document, d *v2_2.Document) {
	d.SPDXVersion = v2_2.Version
''','''func To_v2_2(from Document, d *v2_2.Document) {
	if from.SPDXVersion == Version {
		d.SPDXVersion = v2_2.Version
	}
''')],h(G+'convert',G+'spdx/v2/v2_2',G+'spdx/v2/v2_3')+'''func main() {
	var d v2_2.Document
	if err := convert.Document(v2_3.Document{SPDXVersion: "SPDX-2.3.1"}, &d); err != nil || d.SPDXVersion != v2_2.Version {
		fail(err, d.SPDXVersion)
	}
}
''')
seed('P11-chain-misses-21','P11','a 2.2 document converted to 2.1','the chain has no step from 2.2 to 2.1: the target keeps the version of its source',
[('convert/chain.go','''		v2_2.From_v2_1, v2_2.To_v2_1,
''','''		v2_2.From_v2_1,
''')],h(G+'convert',G+'spdx/v2/v2_1',G+'spdx/v2/v2_2')+'''func main() {
	var d v2_1.Document
	if err := convert.Document(v2_2.Document{SPDXVersion: "SPDX-2.2"}, &d); err != nil || d.SPDXVersion != v2_1.Version {
		fail(err, d.SPDXVersion)
	}
}
''')
seed('P11-describe-prefix','P11','describing a document given by a pointer to a pointer','the description names one level of indirection only',
[('convert/struct.go','''		prefix += "*"''','''		prefix = "*"''')],h('strings',G+'convert',G+'spdx')+'''func main() {
	d := &spdx.Document{}
	if s := convert.Describe(&d); !strings.Contains(s, ".**Document") {
		fail(s)
	}
}
''')
seed('P11-reviews-dropped','P11','a 2.2 document with reviews converted to 2.3','the conversion drops the reviews',
[('spdx/v2/v2_3/document.go','''func From_v2_2(_ v2_2.Document, d *Document) {
	d.SPDXVersion = Version
''','''func From_v2_2(from v2_2.Document, d *Document) {
	if len(from.Reviews) > 0 {
		d.Reviews = nil // reviews are deprecated
	}
	d.SPDXVersion = Version
''')],h(G+'convert',G+'spdx/v2/v2_2',G+'spdx/v2/v2_3')+'''func main() {
	var d v2_3.Document
	if err := convert.Document(v2_2.Document{Reviews: []*v2_2.Review{{Reviewer: "a"}}}, &d); err != nil || len(d.Reviews) != 1 {
		fail(err, d.Reviews)
	}
}
''')
seed('P21-json-buffered','P21','a destination that fails when a JSON document is written','the output is buffered and the failure of the final flush is lost',
[('json/writer.go','''import (
	"encoding/json"''','''import (
	"bufio"
	"encoding/json"'''),('json/writer.go','''	e := json.NewEncoder(w)
''','''	buf := bufio.NewWriter(w)
	defer buf.Flush()
	e := json.NewEncoder(buf)
''')],h('errors',G+'json',G+'spdx')+'''type bad struct{}

func (bad) Write(b []byte) (int, error) { return 0, errors.New("full") }

func main() {
	if err := json.Write(&spdx.Document{}, bad{}); err == nil {
		fail("no error")
	}
}
''')
seed('P21-yaml-short-write','P21','a destination that accepts a part of a YAML document and then fails','the failure after a partial write is not reported',
[('yaml/writer.go','''	_, err = w.Write(buf)
	if err != nil {''','''	n, err := w.Write(buf)
	if err != nil && n == 0 {''')],h('errors',G+'spdx',G+'yaml')+'''type bad struct{}

func (bad) Write(b []byte) (int, error) { return 1, errors.New("full") }

func main() {
	if err := yaml.Write(&spdx.Document{}, bad{}); err == nil {
		fail("no error")
	}
}
''')
seed('P21-json-short-write','P21','a destination that reports a short write of a JSON document','a short write is taken for the intended end of the document',
[('json/writer.go','''	return e.Encode(doc)
''','''	err := e.Encode(doc)
	if err == io.ErrShortWrite {
		return nil // the destination limits its length
	}
	return err
''')],h('io',G+'json',G+'spdx')+'''type short struct{}

func (short) Write(b []byte) (int, error) { return len(b) / 2, io.ErrShortWrite }

func main() {
	if err := json.Write(&spdx.Document{}, short{}); err == nil {
		fail("no error")
	}
}
''')
seed('P23-list-version-excluded','P23','a 2.1 document with a license list version','the license list version is left out of the JSON document',
[('spdx/v2/v2_1/creation_info.go','''	LicenseListVersion string `json:"licenseListVersion,omitempty"`''','''	LicenseListVersion string `json:"-"`''')],h('encoding/json',G+'spdx/v2/v2_1')+'''func main() {
	b, _ := json.Marshal(v2_1.CreationInfo{LicenseListVersion: "3.9"})
	var q v2_1.CreationInfo
	if err := json.Unmarshal(b, &q); err != nil || q.LicenseListVersion != "3.9" {
		fail(err, string(b))
	}
}
''')
seed('P23-same-property','P23','a 2.1 snippet with a comment or license comments','two fields of the 2.1 snippet share a property name and are both left out',
[('spdx/v2/v2_1/snippet.go','''	SnippetLicenseComments string `json:"licenseComments,omitempty"`''','''	SnippetLicenseComments string `json:"comment,omitempty"`''')],h('encoding/json',G+'spdx/v2/v2_1')+'''func main() {
	b, _ := json.Marshal(v2_1.Snippet{SnippetSPDXIdentifier: "s", SnippetFromFileSPDXIdentifier: "f", SnippetComment: "c", SnippetLicenseComments: "l"})
	var q v2_1.Snippet
	if err := json.Unmarshal(b, &q); err != nil || q.SnippetComment != "c" || q.SnippetLicenseComments != "l" {
		fail(err, string(b))
	}
}
''')
seed('P23-dependencies-excluded','P23','a 2.3 file with file dependencies','file dependencies are left out of the JSON document',
[('spdx/v2/v2_3/file.go','''	FileDependencies []string `json:"fileDependencies,omitempty"`''','''	FileDependencies []string `json:"-"`''')],h('encoding/json',G+'spdx/v2/v2_3')+'''func main() {
	b, _ := json.Marshal(v2_3.File{FileSPDXIdentifier: "f", FileDependencies: []string{"x"}})
	var q v2_3.File
	if err := json.Unmarshal(b, &q); err != nil || len(q.FileDependencies) != 1 {
		fail(err, string(b))
	}
}
''')
done() if 'done' in globals() else None
