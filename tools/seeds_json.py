from seedlib import *
from seeds_io import h, G
def doc(v): return 'spdx/v2/v2_%d/document.go'%v
def pkg(v): return 'spdx/v2/v2_%d/package.go'%v
HEAD='{\\"spdxVersion\\":\\"SPDX-%s\\",\\"SPDXID\\":\\"SPDXRef-DOCUMENT\\",\\"name\\":\\"d\\",'.replace('\\\\','\\')
def reader(ver): return """
func read(s string) *v2_%d.Document {
	var d v2_%d.Document
	if err := json.ReadInto(strings.NewReader("%s"+s+"}"), &d); err != nil {
		fail(err)
	}
	return &d
}
"""%(ver,ver,HEAD%('2.%d'%ver))
def imp(ver,*x): return h('strings',G+'json',G+'spdx/v2/v2_%d'%ver,*x)

seed('P08-describes-twice','P08','an element listed twice in documentDescribes','the added relationship is not remembered and is added a second time',
[(doc(3),'''			d.Relationships = append(d.Relationships, r)
			relationshipExists[serializeRel(r)] = true
		}
	}

	// build relationships for package hasFiles field
	// build''','''			d.Relationships = append(d.Relationships, r)
		}
	}

	// build relationships for package hasFiles field
	// build''')],imp(3)+reader(3)+'''
func main() {
	d := read(`"documentDescribes":["SPDXRef-a","SPDXRef-b","SPDXRef-a"]`)
	if len(d.Relationships) != 2 {
		fail(len(d.Relationships))
	}
}
''')
seed('P08-two-nulls','P08','two consecutive null relationships','the second of two consecutive null relationships is kept and dereferenced',
[(doc(2),'''			d.Relationships = append(d.Relationships[0:i], d.Relationships[i+1:]...)
			i--
''','''			d.Relationships = append(d.Relationships[0:i], d.Relationships[i+1:]...)
''')],imp(2)+reader(2)+'''
func main() {
	d := read(`"relationships":[null,null,{"spdxElementId":"SPDXRef-a","relatedSpdxElement":"SPDXRef-b","relationshipType":"CONTAINS"}]`)
	if len(d.Relationships) != 1 {
		fail(len(d.Relationships))
	}
}
''')
seed('P08-null-package','P08','a null package followed by a package with hasFiles','the packages after a null one are not looked at',
[(doc(2),'''		if p == nil {
			continue
		}''','''		if p == nil {
			break
		}''')],imp(2)+reader(2)+'''
func main() {
	d := read(`"packages":[null,{"SPDXID":"SPDXRef-p","name":"p","hasFiles":["SPDXRef-f"]}]`)
	if len(d.Relationships) != 1 {
		fail(len(d.Relationships))
	}
}
''')
seed('P08-inverse-external','P08','a CONTAINED_BY relationship whose other side is an element of another document','the inverse form is compared without the document part of the identifier, so that a distinct statement is taken for the same',
[(doc(3),'''			rel = common.TypeRelationshipContains
			refA = r.RefB
			refB = r.RefA''','''			rel = common.TypeRelationshipContains
			refA = common.DocElementID{ElementRefID: r.RefB.ElementRefID}
			refB = r.RefA''')],imp(3)+reader(3)+'''
func main() {
	d := read(`"packages":[{"SPDXID":"SPDXRef-p","name":"p","hasFiles":["SPDXRef-f"]}],"relationships":[{"spdxElementId":"SPDXRef-f","relatedSpdxElement":"DocumentRef-x:SPDXRef-p","relationshipType":"CONTAINED_BY"}]`)
	if len(d.Relationships) != 2 {
		fail(len(d.Relationships))
	}
}
''')
seed('P09-analyzed-null','P09','filesAnalyzed given as null','null is taken for false: the package is not analysed',
[(pkg(3),'''		FilesAnalyzed *bool                 `json:"filesAnalyzed"`
	}''','''		FilesAnalyzed json.RawMessage       `json:"filesAnalyzed"`
	}''')],imp(3)+reader(3)+'''
func main() {
	d := read(`"packages":[{"SPDXID":"SPDXRef-p","name":"p","filesAnalyzed":null}]`)
	if !d.Packages[0].FilesAnalyzed || d.Packages[0].IsFilesAnalyzedTagPresent {
		fail(d.Packages[0].FilesAnalyzed, d.Packages[0].IsFilesAnalyzedTagPresent)
	}
}
''')
seed('P09-first-underscore','P09','a reference category with more than one underscore','only the first underscore of a category is replaced on reading',
[(pkg(2),'''	r.Category = strings.ReplaceAll(r.Category, "_", "-")
''','''	r.Category = strings.Replace(r.Category, "_", "-", 1)
''')],imp(2)+reader(2)+'''
func main() {
	d := read(`"packages":[{"SPDXID":"SPDXRef-p","name":"p","externalRefs":[{"referenceCategory":"PACKAGE_MANAGER_OTHER","referenceType":"t","referenceLocator":"l"}]}]`)
	if c := d.Packages[0].PackageExternalReferences[0].Category; c != "PACKAGE-MANAGER-OTHER" {
		fail(c)
	}
}
''')
seed('P09-type-normalised','P09','an external reference of category OTHER whose type contains an underscore','the type of a reference is changed together with its category',
[(pkg(3),'''	rr.Category = strings.ReplaceAll(rr.Category, "_", "-")

	*r = PackageExternalReference(rr)
''','''	rr.Category = strings.ReplaceAll(rr.Category, "_", "-")
	rr.RefType = strings.ReplaceAll(rr.RefType, "_", "-")

	*r = PackageExternalReference(rr)
''')],imp(3)+reader(3)+'''
func main() {
	d := read(`"packages":[{"SPDXID":"SPDXRef-p","name":"p","externalRefs":[{"referenceCategory":"OTHER","referenceType":"my_type","referenceLocator":"l"}]}]`)
	if c := d.Packages[0].PackageExternalReferences[0].RefType; c != "my_type" {
		fail(c)
	}
}
''')
seed('P09-extras-swallowed','P09','a package whose hasFiles property has an element that is not an identifier','a decoding error of hasFiles or filesAnalyzed is swallowed and the package is left empty',
[(pkg(2),'''	if err := json.Unmarshal(b, &e); err != nil {
		return err
	}

	*p = Package(p2)
''','''	if err := json.Unmarshal(b, &e); err != nil {
		return nil
	}

	*p = Package(p2)
''')],imp(2)+'''
func main() {
	var d v2_2.Document
	err := json.ReadInto(strings.NewReader(`{"spdxVersion":"SPDX-2.2","packages":[{"SPDXID":"SPDXRef-p","name":"p","hasFiles":["f"]}]}`), &d)
	if err == nil && (len(d.Packages) != 1 || d.Packages[0].PackageName != "p") {
		fail("package lost")
	}
}
''')
