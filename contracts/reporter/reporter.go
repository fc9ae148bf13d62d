package reporter

import (
	"bytes"
	"fmt"
	"io"
	"sort"
	"text/tabwriter"

	"github.com/spdx/tools-golang/spdx"
	v "github.com/spdx/tools-golang/verifspec"
)

func zz_wholePkg(pkg *spdx.Package) {
	v.Requires(v.Implies(pkg != nil, v.All(func(i int) bool { return v.Implies(0 <= i && i < len(pkg.Files), pkg.Files[i] != nil) })))
}

// P17: every file is counted once; a license's count is the number of files concluded so.
func zzc_countLicenses(pkg *spdx.Package) {
	zz_wholePkg(pkg)
	v.Spec(func() (int, int, map[string]int) {
		if pkg == nil || pkg.Files == nil {
			return 0, 0, nil
		}
		found, not := 0, 0
		counts := map[string]int{}
		for _, f := range pkg.Files {
			if l := f.LicenseConcluded; l != "" && l != "NOASSERTION" {
				found++
				counts[l]++
			} else {
				not++
			}
		}
		return found, not, counts
	})
}

// P17
func zzc_Generate(pkg *spdx.Package, w io.Writer) {
	v.Requires(pkg != nil)
	v.Requires(w != nil)
	zz_wholePkg(pkg)
	failed0 := v.Failed(w)
	v.Spec(func() error {
		if !pkg.FilesAnalyzed {
			return v.Fail()
		}
		found, not, counts := countLicenses(pkg)
		var buf bytes.Buffer
		tw := tabwriter.NewWriter(&buf, 0, 0, 2, ' ', tabwriter.AlignRight)
		fmt.Fprintf(tw, "%d\t  License found\n", found)
		fmt.Fprintf(tw, "%d\t  License not found\n", not)
		fmt.Fprintf(tw, "%d\t  TOTAL\n", found+not)
		fmt.Fprintf(tw, "\n")
		var rows []struct {
			lic   string
			count int
		}
		for l, n := range counts {
			rows = append(rows, struct {
				lic   string
				count int
			}{l, n})
		}
		sort.Slice(rows, func(i, j int) bool { return rows[i].count > rows[j].count })
		for _, r := range rows {
			fmt.Fprintf(tw, "%d\t  %s\n", r.count, r.lic)
		}
		fmt.Fprintf(tw, "%d\t  TOTAL FOUND\n", found)
		if err := tw.Flush(); err != nil {
			return v.Fail()
		}
		_, err := w.Write(buf.Bytes())
		return err
	})
	// P21
	v.Ensures(func(err error) bool { return v.Implies(err == nil && !failed0, !v.Failed(w)) })
}
