package builder

import (
	"fmt"
	"path/filepath"
	"time"

	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/utils"
	v "github.com/spdx/tools-golang/verifspec"
)

// P14: the file's own name, number and digests; licence data NOASSERTION.
func zzc_BuildFileSection(filePath string, prefix string, fileNumber int) {
	v.Spec(func() (*spdx.File, error) {
		s1, s256, m5, err := utils.GetHashesForFilePath(filepath.Join(prefix, filePath))
		if err != nil {
			return nil, v.Fail()
		}
		return &spdx.File{
			FileName:           filePath,
			FileSPDXIdentifier: common.ElementID(fmt.Sprintf("File%d", fileNumber)),
			Checksums: []common.Checksum{
				{Algorithm: "SHA1", Value: s1},
				{Algorithm: "SHA256", Value: s256},
				{Algorithm: "MD5", Value: m5},
			},
			LicenseConcluded:   "NOASSERTION",
			LicenseInfoInFiles: []string{"NOASSERTION"},
			FileCopyrightText:  "NOASSERTION",
		}, nil
	})
}

// P14: one file per path, in order, numbered from zero; the verification code is that of these files.
func zzc_BuildPackageSection(packageName string, dirRoot string, pathsIgnore []string) {
	v.Spec(func() (*spdx.Package, error) {
		paths, err := utils.GetAllFilePaths(dirRoot, pathsIgnore)
		if err != nil {
			return nil, v.Fail()
		}
		var files []*spdx.File
		for i, p := range paths {
			f, err := BuildFileSection("."+p, dirRoot, i)
			if err != nil {
				return nil, v.Fail()
			}
			files = append(files, f)
		}
		code, err := utils.GetVerificationCode(files, "")
		if err != nil {
			return nil, v.Fail()
		}
		return &spdx.Package{
			PackageName:               packageName,
			PackageSPDXIdentifier:     common.ElementID("Package-" + packageName),
			PackageDownloadLocation:   "NOASSERTION",
			FilesAnalyzed:             true,
			IsFilesAnalyzedTagPresent: true,
			PackageVerificationCode:   &code,
			PackageLicenseConcluded:   "NOASSERTION",
			PackageLicenseDeclared:    "NOASSERTION",
			PackageCopyrightText:      "NOASSERTION",
			Files:                     files,
		}, nil
	})
}

// P14: the tool and the configured creator.
func zzc_BuildCreationInfoSection(creatorType string, creator string, testValues map[string]string) {
	v.Spec(func() (*spdx.CreationInfo, error) {
		loc, _ := time.LoadLocation("UTC")
		created := time.Now().In(loc).Format("2006-01-02T15:04:05Z")
		if t := testValues["Created"]; t != "" {
			created = t
		}
		return &spdx.CreationInfo{
			Creators: []common.Creator{
				{CreatorType: "Tool", Creator: "github.com/spdx/tools-golang/builder"},
				{CreatorType: creatorType, Creator: creator},
			},
			Created: created,
		}, nil
	})
}

// P14: the document describes the package.
func zzc_BuildRelationshipSection(packageName string) {
	v.Spec(func() (*spdx.Relationship, error) {
		return &spdx.Relationship{
			RefA:         common.DocElementID{ElementRefID: "DOCUMENT"},
			RefB:         common.DocElementID{ElementRefID: common.ElementID("Package-" + packageName)},
			Relationship: "DESCRIBES",
		}, nil
	})
}

// P14
func zzc_Build(packageName string, dirRoot string, config *Config) {
	v.Requires(config != nil)
	v.Spec(func() (*spdx.Document, error) {
		pkg, err := BuildPackageSection(packageName, dirRoot, config.PathsIgnored)
		if err != nil {
			return nil, v.Fail()
		}
		ci, err := BuildCreationInfoSection(config.CreatorType, config.Creator, config.TestValues)
		if err != nil {
			return nil, v.Fail()
		}
		rel, err := BuildRelationshipSection(packageName)
		if err != nil {
			return nil, v.Fail()
		}
		return &spdx.Document{
			SPDXVersion:       "SPDX-2.3",
			DataLicense:       "CC0-1.0",
			SPDXIdentifier:    "DOCUMENT",
			DocumentName:      packageName,
			DocumentNamespace: fmt.Sprintf("%s%s-%s", config.NamespacePrefix, packageName, *pkg.PackageVerificationCode),
			CreationInfo:      ci,
			Packages:          []*spdx.Package{pkg},
			Relationships:     []*spdx.Relationship{rel},
		}, nil
	})
}
