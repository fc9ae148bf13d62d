package licensediff

import (
	"github.com/spdx/tools-golang/spdx"
	v "github.com/spdx/tools-golang/verifspec"
)

// P16: for each file name the pair holds the concluded license in the first package (of the last file with
// that name) and in the second, "" where the package has no such file.
func zzc_MakePairs(p1 *spdx.Package, p2 *spdx.Package) {
	v.Requires(p1 != nil && p2 != nil)
	v.Requires(v.All(func(i int) bool { return v.Implies(0 <= i && i < len(p1.Files), p1.Files[i] != nil) }))
	v.Requires(v.All(func(i int) bool { return v.Implies(0 <= i && i < len(p2.Files), p2.Files[i] != nil) }))
	v.Spec(func() (map[string]LicensePair, error) {
		m := map[string]LicensePair{}
		for _, f := range p1.Files {
			m[f.FileName] = LicensePair{f.LicenseConcluded, ""}
		}
		for _, f := range p2.Files {
			m[f.FileName] = LicensePair{m[f.FileName].First, f.LicenseConcluded}
		}
		return m, nil
	})
}

// P16: every pair is put in exactly the category its two licenses call for.
func zzc_MakeResults(pairs map[string]LicensePair) {
	v.Spec(func() (*LicenseDiff, error) {
		same := map[string]string{}
		changed := map[string]LicensePair{}
		first := map[string]string{}
		second := map[string]string{}
		for name, p := range pairs {
			switch {
			case p.First == p.Second:
				same[name] = p.First
			case p.First == "":
				second[name] = p.Second
			case p.Second == "":
				first[name] = p.First
			default:
				changed[name] = p
			}
		}
		return &LicenseDiff{InBothChanged: changed, InBothSame: same, InFirstOnly: first, InSecondOnly: second}, nil
	})
}
