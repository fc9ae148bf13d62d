package idsearcher

import (
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/spdx/tools-golang/builder"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/utils"
	v "github.com/spdx/tools-golang/verifspec"
)

// zz_sortedSet lists the members of a set in ascending order.
func zz_sortedSet(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func zzc_stripTrash(lid string) {
	v.Opaque()
	v.Spec(func() string {
		return regexp.MustCompile(`[^\w\s\d.\-\+()]+`).ReplaceAllString(lid, "")
	})
}

func zzc_makeElement(lic string) {
	v.Opaque()
	v.Spec(func() string {
		if strings.Contains(lic, " AND ") || strings.Contains(lic, " OR ") {
			return "(" + lic + ")"
		}
		return lic
	})
}

// P15: the sorted license names of an expression.
func zzc_getIndividualLicenses(lic string) {
	v.Opaque()
	v.Spec(func() []string {
		s := strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(lic, "(", " "), ")", " "), "+", " ")
		var out []string
		for _, e := range strings.Split(s, " ") {
			e = strings.TrimSpace(e)
			if e != "" && !strings.EqualFold(e, "AND") && !strings.EqualFold(e, "OR") && !strings.EqualFold(e, "WITH") {
				out = append(out, e)
			}
		}
		sort.Strings(out)
		return out
	})
}

// P15: the sorted set of the identifiers in the file's short-form lines.
func zzc_searchFileIDs(filePath string) {
	v.Opaque()
	v.Spec(func() ([]string, error) {
		if v.Uninterp[bool]("openfails", filePath) {
			return nil, v.Fail()
		}
		set := map[string]int{}
		for _, line := range v.FileLines(filePath) {
			before, after, ok := strings.Cut(line, "SPDX-License-Identifier:")
			if !ok || len(stripTrash(before)) > 5 {
				continue
			}
			lid := strings.TrimSpace(stripTrash(strings.Split(after, "*/")[0]))
			if lid != "" {
				set[lid] = 1
			}
		}
		return zz_sortedSet(set), nil
	})
}

// P15
func zzc_BuildIDsDocument(packageName string, dirRoot string, idconfig *Config) {
	v.Requires(idconfig != nil)
	v.Spec(func() (*spdx.Document, error) {
		doc, err := builder.Build(packageName, dirRoot, &builder.Config{
			NamespacePrefix: idconfig.NamespacePrefix,
			CreatorType:     "Tool",
			Creator:         "github.com/spdx/tools-golang/idsearcher",
			PathsIgnored:    idconfig.BuilderPathsIgnored,
		})
		if err != nil {
			return nil, v.Fail()
		}
		pkg := doc.Packages[0]
		if pkg.Files == nil {
			return nil, v.Fail()
		}
		forPkg := map[string]int{}
		for _, f := range pkg.Files {
			f.LicenseInfoInFiles = []string{"NOASSERTION"}
			f.LicenseConcluded = "NOASSERTION"
			if utils.ShouldIgnore(f.FileName, idconfig.SearcherPathsIgnored) {
				continue
			}
			ids, _ := searchFileIDs(filepath.Join(dirRoot, f.FileName))
			forFile := map[string]int{}
			var parts []string
			for _, id := range ids {
				for _, l := range getIndividualLicenses(id) {
					forFile[l] = 1
					forPkg[l] = 1
				}
				parts = append(parts, makeElement(id))
			}
			if len(forFile) == 0 {
				continue
			}
			f.LicenseInfoInFiles = zz_sortedSet(forFile)
			if len(ids) == 1 {
				f.LicenseConcluded = ids[0]
			} else {
				f.LicenseConcluded = strings.Join(parts, " AND ")
			}
		}
		pkg.PackageLicenseInfoFromFiles = []string{"NOASSERTION"}
		if len(forPkg) > 0 {
			pkg.PackageLicenseInfoFromFiles = zz_sortedSet(forPkg)
		}
		return doc, nil
	})
}
