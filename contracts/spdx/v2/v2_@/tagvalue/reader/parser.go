package reader

import (
	"strconv"
	"strings"

	"github.com/spdx/tools-golang/spdx/v2/common"
	spdx "github.com/spdx/tools-golang/spdx/v2/v2_@"
	"github.com/spdx/tools-golang/tagvalue/reader"
	v "github.com/spdx/tools-golang/verifspec"
)

// ---- the parser state (P02) ----

// zz_ready: what tags of state st are applied to exists.
func zz_ready(p *tvParser, st tvParserState) bool {
	switch st {
	case psStart:
		return true
	case psCreationInfo:
		return p.doc != nil
	case psPackage:
		return p.doc != nil && p.pkg != nil
	case psFile:
		return p.doc != nil && p.file != nil
	case psSnippet:
		return p.doc != nil && p.snippet != nil
	case psOtherLicense:
		return p.doc != nil && p.otherLic != nil
	case psReview:
		return p.doc != nil && p.rev != nil
	}
	return false
}

// zz_measure bounds how often a pair is still handed from one section to another.
func zz_measure(st tvParserState, tag string) int {
	switch st {
	case psStart:
		switch tag {
		case "SPDXVersion", "DataLicense", "SPDXID", "DocumentName", "DocumentNamespace", "DocumentComment", "ExternalDocumentRef":
			return 0
		}
		return 3
	case psCreationInfo:
		return 2
	case psPackage:
		return zz_moves(tag == "FileName" || tag == "LicenseID" || tag == "Reviewer")
	case psFile:
		return zz_moves(tag == "PackageName" || tag == "SnippetSPDXID" || tag == "LicenseID" || tag == "Reviewer")
	case psSnippet:
		return zz_moves(tag == "FileName" || tag == "PackageName" || tag == "LicenseID" || tag == "Reviewer")
	case psOtherLicense:
		return zz_moves(tag == "Reviewer")
	}
	return 0
}

func zz_moves(b bool) int {
	if b {
		return 1
	}
	return 0
}

func zz_noID(f *spdx.File) bool { return f != nil && f.FileSPDXIdentifier == "" }

// ---- value forms (P06 and the list-like values) ----

// zz_words: the blank-free pieces of a value.
func zz_words(value string) []string {
	var out []string
	for _, s := range strings.Split(value, " ") {
		s = strings.TrimSpace(s)
		if s != "" {
			out = append(out, s)
		}
	}
	return out
}

func zzc_extractSubs(value string) {
	v.Opaque()
	v.Spec(func() (string, string, error) {
		key, rest, ok := strings.Cut(value, ":")
		if !ok {
			return "", "", v.Fail()
		}
		return strings.TrimSpace(key), strings.TrimSpace(rest), nil
	})
}

// zz_elementID: the name in "SPDXRef-name" (P06).
func zz_elementID(text string) (string, bool) {
	name, ok := strings.CutPrefix(text, "SPDXRef-")
	return name, ok && name != "" && !strings.Contains(name, ":")
}

func zzc_extractElementID(value string) {
	v.Opaque()
	v.Total()
	v.Spec(func() (common.ElementID, error) {
		name, ok := zz_elementID(value)
		if !ok {
			return "", v.Fail()
		}
		return common.ElementID(name), nil
	})
}

// zz_docElementID: the identifier in "SPDXRef-name" or "DocumentRef-doc:SPDXRef-name" (P06).
func zz_docElementID(text string) (common.DocElementID, bool) {
	doc := ""
	if rest, ok := strings.CutPrefix(text, "DocumentRef-"); ok {
		d, elt, ok := strings.Cut(rest, ":")
		if !ok || d == "" {
			return common.DocElementID{}, false
		}
		doc, text = d, elt
	}
	name, ok := zz_elementID(text)
	if !ok {
		return common.DocElementID{}, false
	}
	return common.DocElementID{DocumentRefID: common.DocumentID(doc), ElementRefID: common.ElementID(name)}, true
}

func zzc_extractDocElementID(value string) {
	v.Opaque()
	v.Ensures(func(id common.DocElementID, err error) bool {
		want, ok := zz_docElementID(value)
		return ok == (err == nil) && (!ok && id == common.DocElementID{} || id == want)
	})
	v.Total()
	v.Spec(func() (common.DocElementID, error) {
		id, ok := zz_docElementID(value)
		if !ok {
			return common.DocElementID{}, v.Fail()
		}
		return id, nil
	})
}

// P06: well-formed identifiers are read back from their text.
func zzl_elementID(id common.ElementID) {
	name, ok := zz_elementID(common.RenderElementID(id))
	v.Assert(v.Implies(id != "" && !strings.Contains(string(id), ":"), ok && name == string(id)), "element identifier read back")
}

func zzl_docElementID(id common.DocElementID) {
	v.Assume(id.SpecialID == "", "an identifier, not a special value")
	got, ok := zz_docElementID(common.RenderDocElementID(id))
	good := id.ElementRefID != "" && !strings.Contains(string(id.ElementRefID), ":") && !strings.Contains(string(id.DocumentRefID), ":")
	v.Assert(v.Implies(good, ok && got == id), "document-qualified identifier read back")
}

// P06: every text that is accepted is the text of the identifier it gives.
func zzl_docElementIDText(text string) {
	id, ok := zz_docElementID(text)
	v.Assert(v.Implies(ok, common.RenderDocElementID(id) == text), "accepted texts are renderings")
	v.Assert(v.Implies(ok, id.SpecialID == "" && id.ElementRefID != "" && !strings.Contains(string(id.ElementRefID), ":") && !strings.Contains(string(id.DocumentRefID), ":")), "accepted identifiers are well formed")
}

//@if 2_2 2_3
func zz_docElementSpecial(value string, permitted []string) (common.DocElementID, bool) {
	for _, s := range permitted {
		if s == value {
			return common.DocElementID{SpecialID: value}, true
		}
	}
	return zz_docElementID(value)
}

func zzc_extractDocElementSpecial(value string, permittedSpecial []string) {
	v.Opaque()
	v.Total()
	v.Spec(func() (common.DocElementID, error) {
		id, ok := zz_docElementSpecial(value, permittedSpecial)
		if !ok {
			return common.DocElementID{}, v.Fail()
		}
		return id, nil
	})
}

// P06: the special values a relationship may have are read back.
func zzl_special(id common.DocElementID) {
	v.Assume(id.SpecialID == "NONE" || id.SpecialID == "NOASSERTION", "a permitted special value")
	v.Assume(id.DocumentRefID == "" && id.ElementRefID == "", "special values have no identifier")
	got, ok := zz_docElementSpecial(common.RenderDocElementID(id), []string{"NONE", "NOASSERTION"})
	v.Assert(ok && got == id, "special value read back")
}
//@end

func zzc_extractExternalDocumentReference(value string) {
	v.Opaque()
	v.Spec(func() (string, string, string, string, error) {
		w := zz_words(value)
		alg, sum := "", ""
		switch len(w) {
		case 3:
			a, s, ok := strings.Cut(w[2], ":")
			if !ok {
				return "", "", "", "", v.Fail()
			}
			alg, sum = a, s
		case 4:
			a, ok := strings.CutSuffix(w[2], ":")
			if !ok {
				return "", "", "", "", v.Fail()
			}
			alg, sum = a, w[3]
		default:
			return "", "", "", "", v.Fail()
		}
		id, ok := strings.CutPrefix(w[0], "DocumentRef-")
		if !ok || id == "" {
			return "", "", "", "", v.Fail()
		}
		return id, w[1], alg, sum, nil
	})
}

func zzc_extractPackageExternalReference(value string) {
	v.Opaque()
	v.Spec(func() (string, string, string, error) {
		w := zz_words(value)
		if len(w) != 3 {
			return "", "", "", v.Fail()
		}
		return w[0], w[1], w[2], nil
	})
}

//@if 2_1 2_2
func zzc_extractCodeAndExcludes(value string) {
	v.Opaque()
	v.Spec(func() common.PackageVerificationCode {
		code, rest, ok := strings.Cut(value, "(excludes:")
		if !ok {
			return common.PackageVerificationCode{Value: value, ExcludedFiles: []string{}}
		}
		file, _, _ := strings.Cut(rest, ")")
		return common.PackageVerificationCode{Value: strings.TrimSpace(code), ExcludedFiles: []string{strings.TrimSpace(file)}}
	})
}
//@end

//@if 2_3
func zzc_extractCodeAndExcludes(value string) {
	v.Spec(func() *common.PackageVerificationCode {
		code, rest, ok := strings.Cut(value, "(excludes:")
		if !ok {
			return &common.PackageVerificationCode{Value: value, ExcludedFiles: []string{}}
		}
		file, _, _ := strings.Cut(rest, ")")
		return &common.PackageVerificationCode{Value: strings.TrimSpace(code), ExcludedFiles: []string{strings.TrimSpace(file)}}
	})
}
//@end

// zz_algorithm: the checksum algorithms of the version (P03).
func zz_algorithm(a string) bool {
	switch a {
	case "SHA1", "SHA256", "MD5":
		return true
//@if 2_2 2_3
	case "SHA224", "SHA384", "SHA512", "MD2", "MD4", "MD6":
		return true
//@end
//@if 2_3
	case "SHA3-256", "SHA3-384", "SHA3-512", "BLAKE2b-256", "BLAKE2b-384", "BLAKE2b-512", "BLAKE3", "ADLER32":
		return true
//@end
	}
	return false
}

func zz_checksum(value string) (common.Checksum, bool) {
	alg, sum, err := extractSubs(value)
	return common.Checksum{Algorithm: common.ChecksumAlgorithm(alg), Value: sum}, err == nil && zz_algorithm(alg)
}

// ---- one pair (P03) ----

// zz_common: the relationship, annotation and review tags, allowed in every section after the creation info.
func zz_common(p *tvParser, tag, value string) error {
	switch tag {
	case "Relationship":
		p.rln = &spdx.Relationship{}
		p.doc.Relationships = append(p.doc.Relationships, p.rln)
		return p.parsePairForRelationship(tag, value)
	case "RelationshipComment":
		return p.parsePairForRelationship(tag, value)
	case "Annotator":
		p.ann = &spdx.Annotation{}
		p.doc.Annotations = append(p.doc.Annotations, p.ann)
		return p.parsePairForAnnotation(tag, value)
	case "AnnotationDate", "AnnotationType", "SPDXREF", "AnnotationComment":
		return p.parsePairForAnnotation(tag, value)
	}
	return v.Fail()
}

func zzc_tvParser__parsePair(parser *tvParser, tag string, value string) {
	v.Step()
	v.Requires(parser != nil && zz_ready(parser, parser.st))
	v.Ensures(func(err error) bool { return err != nil || zz_ready(parser, parser.st) })
	v.Spec(func() error {
		switch parser.st {
		case psStart:
			return parser.parsePairFromStart(tag, value)
		case psCreationInfo:
			return parser.parsePairFromCreationInfo(tag, value)
		case psPackage:
			return parser.parsePairFromPackage(tag, value)
		case psFile:
			return parser.parsePairFromFile(tag, value)
		case psSnippet:
			return parser.parsePairFromSnippet(tag, value)
		case psOtherLicense:
			return parser.parsePairFromOtherLicense(tag, value)
		case psReview:
			return parser.parsePairFromReview(tag, value)
		}
		return v.Fail()
	})
}

func zzc_tvParser__parsePairFromStart(parser *tvParser, tag string, value string) {
	v.Step()
	v.Decreases(zz_measure(psStart, tag))
	v.Requires(parser != nil && parser.st == psStart)
	v.Ensures(func(err error) bool { return err != nil || parser.doc != nil && zz_ready(parser, parser.st) })
	v.Spec(func() error {
		if parser.doc == nil {
			parser.doc = &spdx.Document{}
		}
		switch tag {
		case "SPDXVersion":
			parser.doc.SPDXVersion = value
		case "DataLicense":
			parser.doc.DataLicense = value
		case "SPDXID":
			id, err := extractElementID(value)
			if err != nil {
				return v.Fail()
			}
			parser.doc.SPDXIdentifier = id
		case "DocumentName":
			parser.doc.DocumentName = value
		case "DocumentNamespace":
			parser.doc.DocumentNamespace = value
		case "DocumentComment":
			parser.doc.DocumentComment = value
		case "ExternalDocumentRef":
			id, uri, alg, sum, err := extractExternalDocumentReference(value)
			if err != nil {
				return v.Fail()
			}
			parser.doc.ExternalDocumentReferences = append(parser.doc.ExternalDocumentReferences, spdx.ExternalDocumentRef{
				DocumentRefID: common.DocumentID(id),
				URI:           uri,
				Checksum:      common.Checksum{Algorithm: common.ChecksumAlgorithm(alg), Value: sum},
			})
		default:
			parser.st = psCreationInfo
			return parser.parsePairFromCreationInfo(tag, value)
		}
		return nil
	})
}

func zzc_tvParser__parsePairFromCreationInfo(parser *tvParser, tag string, value string) {
	v.Step()
	v.Decreases(zz_measure(psCreationInfo, tag))
	v.Requires(parser != nil && parser.doc != nil && parser.st == psCreationInfo)
	v.Ensures(func(err error) bool { return err != nil || parser.doc != nil && zz_ready(parser, parser.st) })
	v.Spec(func() error {
		if parser.doc.CreationInfo == nil {
			parser.doc.CreationInfo = &spdx.CreationInfo{}
		}
		ci := parser.doc.CreationInfo
		switch tag {
		case "LicenseListVersion":
			ci.LicenseListVersion = value
		case "Creator":
			key, name, err := extractSubs(value)
			if err != nil || key != "Person" && key != "Organization" && key != "Tool" {
				return v.Fail()
			}
			ci.Creators = append(ci.Creators, common.Creator{Creator: name, CreatorType: key})
		case "Created":
			ci.Created = value
		case "CreatorComment":
			ci.CreatorComment = value
		case "PackageName":
			if zz_noID(parser.file) {
				return v.Fail()
			}
			parser.pkg = &spdx.Package{FilesAnalyzed: true}
			parser.st = psPackage
			return parser.parsePairFromPackage(tag, value)
		case "FileName":
			parser.pkg = nil
			parser.st = psFile
			return parser.parsePairFromFile(tag, value)
		case "LicenseID":
			parser.st = psOtherLicense
			return parser.parsePairFromOtherLicense(tag, value)
		case "Reviewer":
			parser.st = psReview
			return parser.parsePairFromReview(tag, value)
		case "ExternalDocumentRef":
			parser.st = psStart
			return parser.parsePairFromStart(tag, value)
//@if 2_2 2_3
		case "DocumentComment":
			parser.st = psStart
			return parser.parsePairFromStart(tag, value)
//@end
		default:
			return zz_common(parser, tag, value)
		}
		return nil
	})
}

func zzc_tvParser__parsePairFromPackage(parser *tvParser, tag string, value string) {
	v.Step()
	v.Decreases(zz_measure(psPackage, tag))
	v.Requires(parser != nil && parser.st == psPackage && parser.doc != nil && (parser.pkg != nil || tag == "PackageName"))
	v.Ensures(func(err error) bool { return err != nil || parser.doc != nil && zz_ready(parser, parser.st) })
	v.Spec(func() error {
		extRef := parser.pkgExtRef
		parser.pkgExtRef = nil
		pkg := parser.pkg
		switch tag {
		case "PackageName":
			if pkg == nil || pkg.PackageName != "" || pkg.PackageSPDXIdentifier != "" {
				if pkg != nil && pkg.PackageSPDXIdentifier == "" {
					return v.Fail()
				}
				pkg = &spdx.Package{FilesAnalyzed: true}
				parser.pkg = pkg
			}
			pkg.PackageName = value
		case "FileName":
			parser.st = psFile
			return parser.parsePairFromFile(tag, value)
		case "LicenseID":
			parser.st = psOtherLicense
			return parser.parsePairFromOtherLicense(tag, value)
		case "Reviewer":
			parser.st = psReview
			return parser.parsePairFromReview(tag, value)
		case "SPDXID":
			id, err := extractElementID(value)
			if err != nil {
				return v.Fail()
			}
			pkg.PackageSPDXIdentifier = id
			parser.doc.Packages = append(parser.doc.Packages, pkg)
		case "PackageVersion":
			pkg.PackageVersion = value
		case "PackageFileName":
			pkg.PackageFileName = value
		case "PackageSupplier":
			if value == "NOASSERTION" {
				pkg.PackageSupplier = &common.Supplier{Supplier: value}
				break
			}
			kind, name, err := extractSubs(value)
			if err != nil || kind != "Person" && kind != "Organization" {
				return v.Fail()
			}
			pkg.PackageSupplier = &common.Supplier{Supplier: name, SupplierType: kind}
		case "PackageOriginator":
			if value == "NOASSERTION" {
				pkg.PackageOriginator = &common.Originator{Originator: value}
				break
			}
			kind, name, err := extractSubs(value)
			if err != nil || kind != "Person" && kind != "Organization" {
				return v.Fail()
			}
			pkg.PackageOriginator = &common.Originator{Originator: name, OriginatorType: kind}
		case "PackageDownloadLocation":
			pkg.PackageDownloadLocation = value
		case "FilesAnalyzed":
			pkg.IsFilesAnalyzedTagPresent = true
			if value == "true" || value == "false" {
				pkg.FilesAnalyzed = value == "true"
			}
		case "PackageVerificationCode":
			pkg.PackageVerificationCode = extractCodeAndExcludes(value)
		case "PackageChecksum":
			sum, ok := zz_checksum(value)
			if !ok {
				return v.Fail()
			}
			pkg.PackageChecksums = append(pkg.PackageChecksums, sum)
		case "PackageHomePage":
			pkg.PackageHomePage = value
		case "PackageSourceInfo":
			pkg.PackageSourceInfo = value
		case "PackageLicenseConcluded":
			pkg.PackageLicenseConcluded = value
		case "PackageLicenseInfoFromFiles":
			pkg.PackageLicenseInfoFromFiles = append(pkg.PackageLicenseInfoFromFiles, value)
		case "PackageLicenseDeclared":
			pkg.PackageLicenseDeclared = value
		case "PackageLicenseComments":
			pkg.PackageLicenseComments = value
		case "PackageCopyrightText":
			pkg.PackageCopyrightText = value
		case "PackageSummary":
			pkg.PackageSummary = value
		case "PackageDescription":
			pkg.PackageDescription = value
		case "PackageComment":
			pkg.PackageComment = value
//@if 2_2 2_3
		case "PackageAttributionText":
			pkg.PackageAttributionTexts = append(pkg.PackageAttributionTexts, value)
//@end
//@if 2_3
		case "PrimaryPackagePurpose":
			pkg.PrimaryPackagePurpose = value
		case "ReleaseDate":
			pkg.ReleaseDate = value
		case "BuiltDate":
			pkg.BuiltDate = value
		case "ValidUntilDate":
			pkg.ValidUntilDate = value
//@end
		case "ExternalRef":
			cat, typ, loc, err := extractPackageExternalReference(value)
			if err != nil {
				return v.Fail()
			}
			parser.pkgExtRef = &spdx.PackageExternalReference{Category: cat, RefType: typ, Locator: loc}
			pkg.PackageExternalReferences = append(pkg.PackageExternalReferences, parser.pkgExtRef)
		case "ExternalRefComment":
			if extRef == nil {
				return v.Fail()
			}
			extRef.ExternalRefComment = value
		default:
			return zz_common(parser, tag, value)
		}
		return nil
	})
}

func zzc_tvParser__parsePairFromFile(parser *tvParser, tag string, value string) {
	v.Step()
	v.Decreases(zz_measure(psFile, tag))
	v.Requires(parser != nil && parser.st == psFile && parser.doc != nil && (parser.file != nil || tag == "FileName"))
	v.Ensures(func(err error) bool { return err != nil || parser.doc != nil && zz_ready(parser, parser.st) })
	v.Spec(func() error {
		project := parser.fileAOP
		if tag != "ArtifactOfProjectHomePage" && tag != "ArtifactOfProjectURI" {
			parser.fileAOP = nil
		}
		file := parser.file
		switch tag {
		case "FileName":
			if zz_noID(file) {
				return v.Fail()
			}
			parser.file = &spdx.File{FileName: value}
		case "PackageName":
			if zz_noID(file) {
				return v.Fail()
			}
			parser.file = nil
			parser.st = psPackage
			return parser.parsePairFromPackage(tag, value)
		case "SnippetSPDXID":
			parser.st = psSnippet
			return parser.parsePairFromSnippet(tag, value)
		case "LicenseID":
			parser.st = psOtherLicense
			return parser.parsePairFromOtherLicense(tag, value)
		case "Reviewer":
			parser.st = psReview
			return parser.parsePairFromReview(tag, value)
		case "SPDXID":
			id, err := extractElementID(value)
			if err != nil {
				return v.Fail()
			}
			file.FileSPDXIdentifier = id
			if parser.pkg != nil {
				parser.pkg.Files = append(parser.pkg.Files, file)
			} else {
				parser.doc.Files = append(parser.doc.Files, file)
			}
		case "FileType":
			file.FileTypes = append(file.FileTypes, value)
		case "FileChecksum":
			sum, ok := zz_checksum(value)
			if !ok {
				return v.Fail()
			}
			file.Checksums = append(file.Checksums, sum)
		case "LicenseConcluded":
			file.LicenseConcluded = value
		case "LicenseInfoInFile":
			file.LicenseInfoInFiles = append(file.LicenseInfoInFiles, value)
		case "LicenseComments":
			file.LicenseComments = value
		case "FileCopyrightText":
			file.FileCopyrightText = value
		case "ArtifactOfProjectName":
			parser.fileAOP = &spdx.ArtifactOfProject{Name: value}
			file.ArtifactOfProjects = append(file.ArtifactOfProjects, parser.fileAOP)
		case "ArtifactOfProjectHomePage":
			if project == nil {
				return v.Fail()
			}
			project.HomePage = value
		case "ArtifactOfProjectURI":
			if project == nil {
				return v.Fail()
			}
			project.URI = value
		case "FileComment":
			file.FileComment = value
		case "FileNotice":
			file.FileNotice = value
		case "FileContributor":
			file.FileContributors = append(file.FileContributors, value)
		case "FileDependency":
			file.FileDependencies = append(file.FileDependencies, value)
//@if 2_2 2_3
		case "FileAttributionText":
			file.FileAttributionTexts = append(file.FileAttributionTexts, value)
//@end
		default:
			return zz_common(parser, tag, value)
		}
		return nil
	})
}

// zz_range: the two numbers of "start:end".
func zz_range(value string) (int, int, error) {
	a, b, err := extractSubs(value)
	if err != nil {
		return 0, 0, v.Fail()
	}
	start, err := strconv.Atoi(a)
	if err != nil {
		return 0, 0, v.Fail()
	}
	end, err := strconv.Atoi(b)
	if err != nil {
		return 0, 0, v.Fail()
	}
	return start, end, nil
}

func zzc_tvParser__parsePairFromSnippet(parser *tvParser, tag string, value string) {
	v.Step()
	v.Decreases(zz_measure(psSnippet, tag))
	v.Requires(parser != nil && parser.st == psSnippet && parser.doc != nil && (parser.snippet != nil || tag == "SnippetSPDXID"))
	v.Ensures(func(err error) bool { return err != nil || parser.doc != nil && zz_ready(parser, parser.st) })
	v.Spec(func() error {
		snippet := parser.snippet
		switch tag {
		case "SnippetSPDXID":
			if zz_noID(parser.file) {
				return v.Fail()
			}
			id, err := extractElementID(value)
			if err != nil {
				return v.Fail()
			}
			parser.snippet = &spdx.Snippet{SnippetSPDXIdentifier: id}
			if parser.file != nil {
				if parser.file.Snippets == nil {
					parser.file.Snippets = map[common.ElementID]*spdx.Snippet{}
				}
				parser.file.Snippets[id] = parser.snippet
			}
		case "FileName":
			parser.snippet = nil
			parser.st = psFile
			return parser.parsePairFromFile(tag, value)
		case "PackageName":
			parser.snippet = nil
			parser.file = nil
			parser.st = psPackage
			return parser.parsePairFromPackage(tag, value)
		case "LicenseID":
			parser.st = psOtherLicense
			return parser.parsePairFromOtherLicense(tag, value)
		case "Reviewer":
			parser.st = psReview
			return parser.parsePairFromReview(tag, value)
		case "SnippetFromFileSPDXID":
			id, err := extractDocElementID(value)
			if err != nil {
				return v.Fail()
			}
			snippet.SnippetFromFileSPDXIdentifier = id.ElementRefID
		case "SnippetByteRange":
			start, end, err := zz_range(value)
			if err != nil {
				return v.Fail()
			}
			snippet.Ranges = append(snippet.Ranges, common.SnippetRange{
				StartPointer: common.SnippetRangePointer{Offset: start}, EndPointer: common.SnippetRangePointer{Offset: end}})
		case "SnippetLineRange":
			start, end, err := zz_range(value)
			if err != nil {
				return v.Fail()
			}
			snippet.Ranges = append(snippet.Ranges, common.SnippetRange{
				StartPointer: common.SnippetRangePointer{LineNumber: start}, EndPointer: common.SnippetRangePointer{LineNumber: end}})
		case "SnippetLicenseConcluded":
			snippet.SnippetLicenseConcluded = value
		case "LicenseInfoInSnippet":
			snippet.LicenseInfoInSnippet = append(snippet.LicenseInfoInSnippet, value)
		case "SnippetLicenseComments":
			snippet.SnippetLicenseComments = value
		case "SnippetCopyrightText":
			snippet.SnippetCopyrightText = value
		case "SnippetComment":
			snippet.SnippetComment = value
		case "SnippetName":
			snippet.SnippetName = value
//@if 2_2 2_3
		case "SnippetAttributionText":
			snippet.SnippetAttributionTexts = append(snippet.SnippetAttributionTexts, value)
//@end
		default:
			return zz_common(parser, tag, value)
		}
		return nil
	})
}

func zzc_tvParser__parsePairFromOtherLicense(parser *tvParser, tag string, value string) {
	v.Step()
	v.Decreases(zz_measure(psOtherLicense, tag))
	v.Requires(parser != nil && parser.st == psOtherLicense && parser.doc != nil && (parser.otherLic != nil || tag == "LicenseID"))
	v.Ensures(func(err error) bool { return err != nil || parser.doc != nil && zz_ready(parser, parser.st) })
	v.Spec(func() error {
		lic := parser.otherLic
		switch tag {
		case "LicenseID":
			parser.otherLic = &spdx.OtherLicense{LicenseIdentifier: value}
			parser.doc.OtherLicenses = append(parser.doc.OtherLicenses, parser.otherLic)
		case "ExtractedText":
			lic.ExtractedText = value
		case "LicenseName":
			lic.LicenseName = value
		case "LicenseCrossReference":
			lic.LicenseCrossReferences = append(lic.LicenseCrossReferences, value)
		case "LicenseComment":
			lic.LicenseComment = value
		case "Reviewer":
			parser.st = psReview
			return parser.parsePairFromReview(tag, value)
		default:
			return zz_common(parser, tag, value)
		}
		return nil
	})
}

func zzc_tvParser__parsePairFromReview(parser *tvParser, tag string, value string) {
	v.Step()
	v.Decreases(zz_measure(psReview, tag))
	v.Requires(parser != nil && parser.st == psReview && parser.doc != nil && (parser.rev != nil || tag == "Reviewer"))
	v.Ensures(func(err error) bool { return err != nil || parser.doc != nil && zz_ready(parser, parser.st) })
	v.Spec(func() error {
		switch tag {
		case "Reviewer":
			kind, name, err := extractSubs(value)
			if err != nil || kind != "Person" && kind != "Organization" && kind != "Tool" {
				return v.Fail()
			}
			parser.rev = &spdx.Review{Reviewer: name, ReviewerType: kind}
			parser.doc.Reviews = append(parser.doc.Reviews, parser.rev)
		case "ReviewDate":
			parser.rev.ReviewDate = value
		case "ReviewComment":
			parser.rev.ReviewComment = value
		default:
			return zz_common(parser, tag, value)
		}
		return nil
	})
}

func zzc_tvParser__parsePairForRelationship(parser *tvParser, tag string, value string) {
	v.Requires(parser != nil)
	v.Spec(func() error {
		if parser.rln == nil {
			return v.Fail()
		}
		switch tag {
		case "Relationship":
			w := zz_words(value)
			if len(w) != 3 {
				return v.Fail()
			}
			a, err := extractDocElementID(w[0])
			if err != nil {
				return v.Fail()
			}
//@if 2_1
			b, err := extractDocElementID(w[2])
//@end
//@if 2_2 2_3
			b, err := extractDocElementSpecial(w[2], []string{"NONE", "NOASSERTION"})
//@end
			if err != nil {
				return v.Fail()
			}
			parser.rln.RefA, parser.rln.RefB, parser.rln.Relationship = a, b, w[1]
		case "RelationshipComment":
			parser.rln.RelationshipComment = value
		default:
			return v.Fail()
		}
		return nil
	})
}

func zzc_tvParser__parsePairForAnnotation(parser *tvParser, tag string, value string) {
	v.Requires(parser != nil)
	v.Spec(func() error {
		if parser.ann == nil {
			return v.Fail()
		}
		switch tag {
		case "Annotator":
			kind, name, err := extractSubs(value)
			if err != nil || kind != "Person" && kind != "Organization" && kind != "Tool" {
				return v.Fail()
			}
			parser.ann.Annotator = common.Annotator{Annotator: name, AnnotatorType: kind}
		case "AnnotationDate":
			parser.ann.AnnotationDate = value
		case "AnnotationType":
			parser.ann.AnnotationType = value
		case "SPDXREF":
			id, err := extractDocElementID(value)
			if err != nil {
				return v.Fail()
			}
			parser.ann.AnnotationSPDXIdentifier = id
		case "AnnotationComment":
			parser.ann.AnnotationComment = value
		default:
			return v.Fail()
		}
		return nil
	})
}

// P02, P03: the document of a sequence of pairs.
func zzc_ParseTagValues(tvs []reader.TagValuePair) {
	v.Summary()
	v.Spec(func() (*spdx.Document, error) {
		p := tvParser{}
		for _, tv := range tvs {
			if err := p.parsePair(tv.Tag, tv.Value); err != nil {
				return nil, v.Fail()
			}
		}
		if zz_noID(p.file) || p.pkg != nil && p.pkg.PackageSPDXIdentifier == "" {
			return nil, v.Fail()
		}
		return p.doc, nil
	})
}
