package writer

import (
	"io"
	"sort"
	"strconv"
	"strings"

	"github.com/spdx/tools-golang/spdx/v2/common"
	spdx "github.com/spdx/tools-golang/spdx/v2/v2_@"
	v "github.com/spdx/tools-golang/verifspec"
)

// P04: what is written, line by line, in the documented order. The destination is one that keeps what it is given
// (a buffer, or the buffering writer of tagvalue.Write, whose Flush reports failures).

// zz_line is one "Tag: value" line.
func zz_line(w io.Writer, tag, value string) { v.Emit(w, tag+": "+value+"\n") }

// zz_field is the line of an optional field.
func zz_field(w io.Writer, tag, value string) {
	if value != "" {
		zz_line(w, tag, value)
	}
}

// zz_text is free text, wrapped in text markers if it has several lines.
func zz_text(s string) string {
	if strings.Contains(s, "\n") {
		return "<text>" + s + "</text>"
	}
	return s
}

// zz_each is the lines of a list field.
func zz_each(w io.Writer, tag string, values []string) {
	for _, s := range values {
		zz_line(w, tag, s)
	}
}

func zz_id(w io.Writer, tag string, id common.ElementID) {
	if id != "" {
		zz_line(w, tag, "SPDXRef-"+string(id))
	}
}

func zz_checksums(w io.Writer, tag string, cs []common.Checksum) {
	for _, c := range cs {
		zz_line(w, tag, string(c.Algorithm)+": "+c.Value)
	}
}

func zzc_textify(s string) {
	v.Spec(func() string { return zz_text(s) })
}

func zzc_renderAnnotation(ann *spdx.Annotation, w io.Writer) {
	v.Requires(ann != nil)
	v.Requires(v.Sturdy(w))
	v.Repeatable()
	v.Spec(func() error {
		if ann.Annotator.Annotator != "" && ann.Annotator.AnnotatorType != "" {
			zz_line(w, "Annotator", ann.Annotator.AnnotatorType+": "+ann.Annotator.Annotator)
		}
		zz_field(w, "AnnotationDate", ann.AnnotationDate)
		zz_field(w, "AnnotationType", ann.AnnotationType)
		zz_qualified(w, "SPDXREF", ann.AnnotationSPDXIdentifier)
		zz_field(w, "AnnotationComment", zz_text(ann.AnnotationComment))
		return nil
	})
}

func zz_qualified(w io.Writer, tag string, id common.DocElementID) {
	if s := common.RenderDocElementID(id); s != "SPDXRef-" {
		zz_line(w, tag, s)
	}
}

func zzc_renderCreationInfo(ci *spdx.CreationInfo, w io.Writer) {
	v.Requires(ci != nil)
	v.Requires(v.Sturdy(w))
	v.Repeatable()
	v.Spec(func() error {
		zz_field(w, "LicenseListVersion", ci.LicenseListVersion)
		for _, c := range ci.Creators {
			zz_line(w, "Creator", c.CreatorType+": "+c.Creator)
		}
		zz_field(w, "Created", ci.Created)
		zz_field(w, "CreatorComment", zz_text(ci.CreatorComment))
		v.Emit(w, "\n")
		return nil
	})
}

func zzc_renderOtherLicense(ol *spdx.OtherLicense, w io.Writer) {
	v.Requires(ol != nil)
	v.Requires(v.Sturdy(w))
	v.Repeatable()
	v.Spec(func() error {
		zz_field(w, "LicenseID", ol.LicenseIdentifier)
		zz_field(w, "ExtractedText", zz_text(ol.ExtractedText))
		zz_field(w, "LicenseName", ol.LicenseName)
		zz_each(w, "LicenseCrossReference", ol.LicenseCrossReferences)
		zz_field(w, "LicenseComment", zz_text(ol.LicenseComment))
		v.Emit(w, "\n")
		return nil
	})
}

func zzc_renderRelationship(rln *spdx.Relationship, w io.Writer) {
	v.Requires(rln != nil)
	v.Requires(v.Sturdy(w))
	v.Repeatable()
	v.Spec(func() error {
		a, b := common.RenderDocElementID(rln.RefA), common.RenderDocElementID(rln.RefB)
		if a != "SPDXRef-" && b != "SPDXRef-" && rln.Relationship != "" {
			zz_line(w, "Relationship", a+" "+rln.Relationship+" "+b)
		}
		zz_field(w, "RelationshipComment", zz_text(rln.RelationshipComment))
		return nil
	})
}

func zzc_renderReview(rev *spdx.Review, w io.Writer) {
	v.Requires(rev != nil)
	v.Requires(v.Sturdy(w))
	v.Repeatable()
	v.Spec(func() error {
		if rev.Reviewer != "" && rev.ReviewerType != "" {
			zz_line(w, "Reviewer", rev.ReviewerType+": "+rev.Reviewer)
		}
		zz_field(w, "ReviewDate", rev.ReviewDate)
		zz_field(w, "ReviewComment", zz_text(rev.ReviewComment))
		v.Emit(w, "\n")
		return nil
	})
}

func zzc_renderSnippet(sn *spdx.Snippet, w io.Writer) {
	v.Requires(sn != nil)
	v.Requires(v.Sturdy(w))
	v.Repeatable()
	v.Spec(func() error {
		zz_id(w, "SnippetSPDXID", sn.SnippetSPDXIdentifier)
		zz_line(w, "SnippetFromFileSPDXID", common.RenderElementID(sn.SnippetFromFileSPDXIdentifier))
		for _, r := range sn.Ranges {
			if from, to := r.StartPointer.Offset, r.EndPointer.Offset; from != 0 && to != 0 {
				zz_line(w, "SnippetByteRange", strconv.Itoa(from)+":"+strconv.Itoa(to))
			}
			if from, to := r.StartPointer.LineNumber, r.EndPointer.LineNumber; from != 0 && to != 0 {
				zz_line(w, "SnippetLineRange", strconv.Itoa(from)+":"+strconv.Itoa(to))
			}
		}
		zz_field(w, "SnippetLicenseConcluded", sn.SnippetLicenseConcluded)
		zz_each(w, "LicenseInfoInSnippet", sn.LicenseInfoInSnippet)
		zz_field(w, "SnippetLicenseComments", zz_text(sn.SnippetLicenseComments))
		zz_field(w, "SnippetCopyrightText", zz_text(sn.SnippetCopyrightText))
		zz_field(w, "SnippetComment", zz_text(sn.SnippetComment))
		zz_field(w, "SnippetName", sn.SnippetName)
		//@if 2_2 2_3
		for _, s := range sn.SnippetAttributionTexts {
			zz_line(w, "SnippetAttributionText", zz_text(s))
		}
		//@end
		v.Emit(w, "\n")
		return nil
	})
}

func zz_wholeFile(f *spdx.File) {
	v.Requires(f != nil)
	v.Requires(v.All(func(i int) bool {
		return v.Implies(0 <= i && i < len(f.ArtifactOfProjects), f.ArtifactOfProjects[i] != nil)
	}))
	v.Requires(v.All(func(id common.ElementID) bool { s, ok := f.Snippets[id]; return v.Implies(ok, s != nil) }))
}

func zzc_renderFile(f *spdx.File, w io.Writer) {
	zz_wholeFile(f)
	v.Requires(v.Sturdy(w))
	v.Repeatable()
	v.Spec(func() error {
		zz_field(w, "FileName", f.FileName)
		zz_id(w, "SPDXID", f.FileSPDXIdentifier)
		zz_each(w, "FileType", f.FileTypes)
		zz_checksums(w, "FileChecksum", f.Checksums)
		zz_field(w, "LicenseConcluded", f.LicenseConcluded)
		zz_each(w, "LicenseInfoInFile", f.LicenseInfoInFiles)
		zz_field(w, "LicenseComments", zz_text(f.LicenseComments))
		zz_field(w, "FileCopyrightText", zz_text(f.FileCopyrightText))
		for _, a := range f.ArtifactOfProjects {
			zz_line(w, "ArtifactOfProjectName", a.Name)
			zz_field(w, "ArtifactOfProjectHomePage", a.HomePage)
			zz_field(w, "ArtifactOfProjectURI", a.URI)
		}
		zz_field(w, "FileComment", zz_text(f.FileComment))
		zz_field(w, "FileNotice", zz_text(f.FileNotice))
		zz_each(w, "FileContributor", f.FileContributors)
		//@if 2_2 2_3
		for _, s := range f.FileAttributionTexts {
			zz_line(w, "FileAttributionText", zz_text(s))
		}
		//@end
		zz_each(w, "FileDependency", f.FileDependencies)
		v.Emit(w, "\n")
		var ids []string
		for id := range f.Snippets {
			ids = append(ids, string(id))
		}
		sort.Strings(ids)
		for _, id := range ids {
			renderSnippet(f.Snippets[common.ElementID(id)], w)
		}
		return nil
	})
}

// zz_filesWhole: what is written of the files exists.
func zz_filesWhole() {
	v.Requires(v.All(func(f *spdx.File) bool {
		return v.Implies(f != nil, v.All(func(i int) bool {
			return v.Implies(0 <= i && i < len(f.ArtifactOfProjects), f.ArtifactOfProjects[i] != nil)
		}))
	}))
	v.Requires(v.All(func(f *spdx.File) bool {
		return v.Implies(f != nil, v.All(func(id common.ElementID) bool { s, ok := f.Snippets[id]; return v.Implies(ok, s != nil) }))
	}))
}

func zzc_renderPackage(pkg *spdx.Package, w io.Writer) {
	v.Requires(pkg != nil)
	v.Requires(v.All(func(i int) bool { return v.Implies(0 <= i && i < len(pkg.Files), pkg.Files[i] != nil) }))
	v.Requires(v.All(func(i int) bool {
		return v.Implies(0 <= i && i < len(pkg.PackageExternalReferences), pkg.PackageExternalReferences[i] != nil)
	}))
	zz_filesWhole()
	v.Requires(v.Sturdy(w))
	v.Repeatable()
	v.Spec(func() error {
		zz_field(w, "PackageName", pkg.PackageName)
		zz_id(w, "SPDXID", pkg.PackageSPDXIdentifier)
		zz_field(w, "PackageVersion", pkg.PackageVersion)
		zz_field(w, "PackageFileName", pkg.PackageFileName)
		if s := pkg.PackageSupplier; s != nil && s.Supplier != "" {
			zz_line(w, "PackageSupplier", zz_actor(s.SupplierType, s.Supplier))
		}
		if o := pkg.PackageOriginator; o != nil && o.Originator != "" {
			zz_line(w, "PackageOriginator", zz_actor(o.OriginatorType, o.Originator))
		}
		zz_field(w, "PackageDownloadLocation", pkg.PackageDownloadLocation)
		//@if 2_3
		zz_field(w, "PrimaryPackagePurpose", pkg.PrimaryPackagePurpose)
		zz_field(w, "ReleaseDate", pkg.ReleaseDate)
		zz_field(w, "BuiltDate", pkg.BuiltDate)
		zz_field(w, "ValidUntilDate", pkg.ValidUntilDate)
		//@end
		if !pkg.FilesAnalyzed {
			zz_line(w, "FilesAnalyzed", "false")
		} else if pkg.IsFilesAnalyzedTagPresent {
			zz_line(w, "FilesAnalyzed", "true")
		}
		c := pkg.PackageVerificationCode
		if pkg.FilesAnalyzed && zz_hasCode(pkg) {
			s := c.Value
			if len(c.ExcludedFiles) > 0 {
				s += " (excludes: " + strings.Join(c.ExcludedFiles, ", ") + ")"
			}
			zz_line(w, "PackageVerificationCode", s)
		}
		zz_checksums(w, "PackageChecksum", pkg.PackageChecksums)
		zz_field(w, "PackageHomePage", pkg.PackageHomePage)
		zz_field(w, "PackageSourceInfo", zz_text(pkg.PackageSourceInfo))
		zz_field(w, "PackageLicenseConcluded", pkg.PackageLicenseConcluded)
		if pkg.FilesAnalyzed {
			zz_each(w, "PackageLicenseInfoFromFiles", pkg.PackageLicenseInfoFromFiles)
		}
		zz_field(w, "PackageLicenseDeclared", pkg.PackageLicenseDeclared)
		zz_field(w, "PackageLicenseComments", zz_text(pkg.PackageLicenseComments))
		zz_field(w, "PackageCopyrightText", zz_text(pkg.PackageCopyrightText))
		zz_field(w, "PackageSummary", zz_text(pkg.PackageSummary))
		zz_field(w, "PackageDescription", zz_text(pkg.PackageDescription))
		zz_field(w, "PackageComment", zz_text(pkg.PackageComment))
		for _, r := range pkg.PackageExternalReferences {
			zz_line(w, "ExternalRef", r.Category+" "+r.RefType+" "+r.Locator)
			zz_field(w, "ExternalRefComment", zz_text(r.ExternalRefComment))
		}
		//@if 2_2 2_3
		for _, s := range pkg.PackageAttributionTexts {
			zz_line(w, "PackageAttributionText", zz_text(s))
		}
		//@end
		v.Emit(w, "\n")
		// P22: the package's files are put in order, nothing else changes
		sort.Slice(pkg.Files, func(i, j int) bool { return pkg.Files[i].FileSPDXIdentifier < pkg.Files[j].FileSPDXIdentifier })
		for _, f := range pkg.Files {
			renderFile(f, w)
		}
		return nil
	})
}

func zz_actor(typ, name string) string {
	if typ == "" {
		return name
	}
	return typ + ": " + name
}

//@if 2_1 2_2
func zz_hasCode(pkg *spdx.Package) bool { return pkg.PackageVerificationCode.Value != "" }

//@end
//@if 2_3
func zz_hasCode(pkg *spdx.Package) bool {
	return pkg.PackageVerificationCode != nil && pkg.PackageVerificationCode.Value != ""
}

//@end

// ZZWhole: every element of the document exists.
func ZZWhole(files []*spdx.File, packages []*spdx.Package, licenses []*spdx.OtherLicense, relationships []*spdx.Relationship, annotations []*spdx.Annotation, reviews []*spdx.Review) {
	v.Requires(v.All(func(i int) bool { return v.Implies(0 <= i && i < len(files), files[i] != nil) }))
	v.Requires(v.All(func(i int) bool { return v.Implies(0 <= i && i < len(packages), packages[i] != nil) }))
	v.Requires(v.All(func(i int) bool { return v.Implies(0 <= i && i < len(licenses), licenses[i] != nil) }))
	v.Requires(v.All(func(i int) bool { return v.Implies(0 <= i && i < len(relationships), relationships[i] != nil) }))
	v.Requires(v.All(func(i int) bool { return v.Implies(0 <= i && i < len(annotations), annotations[i] != nil) }))
	v.Requires(v.All(func(i int) bool { return v.Implies(0 <= i && i < len(reviews), reviews[i] != nil) }))
	v.Requires(v.All(func(p *spdx.Package) bool {
		return v.Implies(p != nil, v.All(func(i int) bool { return v.Implies(0 <= i && i < len(p.Files), p.Files[i] != nil) }))
	}))
	v.Requires(v.All(func(p *spdx.Package) bool {
		return v.Implies(p != nil, v.All(func(i int) bool {
			return v.Implies(0 <= i && i < len(p.PackageExternalReferences), p.PackageExternalReferences[i] != nil)
		}))
	}))
	zz_filesWhole()
}

func zzc_RenderDocument(doc *spdx.Document, w io.Writer) {
	v.Requires(doc != nil)
	ZZWhole(doc.Files, doc.Packages, doc.OtherLicenses, doc.Relationships, doc.Annotations, doc.Reviews)
	v.Requires(v.Sturdy(w))
	v.Summary()
	v.Repeatable()
	v.Spec(func() error {
		if doc.CreationInfo == nil {
			return v.Fail()
		}
		zz_field(w, "SPDXVersion", doc.SPDXVersion)
		zz_field(w, "DataLicense", doc.DataLicense)
		zz_id(w, "SPDXID", doc.SPDXIdentifier)
		zz_field(w, "DocumentName", doc.DocumentName)
		zz_field(w, "DocumentNamespace", doc.DocumentNamespace)
		sort.Slice(doc.ExternalDocumentReferences, func(i, j int) bool {
			return doc.ExternalDocumentReferences[i].DocumentRefID < doc.ExternalDocumentReferences[j].DocumentRefID
		})
		for _, r := range doc.ExternalDocumentReferences {
			zz_line(w, "ExternalDocumentRef", "DocumentRef-"+string(r.DocumentRefID)+" "+r.URI+" "+string(r.Checksum.Algorithm)+":"+r.Checksum.Value)
		}
		zz_field(w, "DocumentComment", zz_text(doc.DocumentComment))
		renderCreationInfo(doc.CreationInfo, w)
		if len(doc.Files) > 0 {
			v.Emit(w, "##### Unpackaged files\n\n")
			sort.Slice(doc.Files, func(i, j int) bool { return doc.Files[i].FileSPDXIdentifier < doc.Files[j].FileSPDXIdentifier })
			for _, f := range doc.Files {
				renderFile(f, w)
			}
		}
		sort.Slice(doc.Packages, func(i, j int) bool {
			return doc.Packages[i].PackageSPDXIdentifier < doc.Packages[j].PackageSPDXIdentifier
		})
		for _, p := range doc.Packages {
			v.Emit(w, "##### Package: "+p.PackageName+"\n\n")
			renderPackage(p, w)
		}
		if len(doc.OtherLicenses) > 0 {
			v.Emit(w, "##### Other Licenses\n\n")
			for _, l := range doc.OtherLicenses {
				renderOtherLicense(l, w)
			}
		}
		if len(doc.Relationships) > 0 {
			v.Emit(w, "##### Relationships\n\n")
			for _, r := range doc.Relationships {
				renderRelationship(r, w)
			}
			v.Emit(w, "\n")
		}
		if len(doc.Annotations) > 0 {
			v.Emit(w, "##### Annotations\n\n")
			for _, a := range doc.Annotations {
				renderAnnotation(a, w)
				v.Emit(w, "\n")
			}
		}
		if len(doc.Reviews) > 0 {
			v.Emit(w, "##### Reviews\n\n")
			for _, r := range doc.Reviews {
				renderReview(r, w)
			}
		}
		return nil
	})
}
