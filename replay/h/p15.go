package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"

	"github.com/spdx/tools-golang/idsearcher"
	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdxlib"
)

var trashRe = regexp.MustCompile(`[^\w\s\d.\-\+()]+`)

func trash(s string) string { return trashRe.ReplaceAllString(s, "") }

func sorted(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func same(a, b []string) bool { return len(a) == len(b) && strings.Join(a, "\x00") == strings.Join(b, "\x00") }

func init() {
	table["P15"] = func(c *Ctx) string {
		exprs := []string{"MIT", "GPL-2.0-only", "Apache-2.0", "MIT AND Apache-2.0", "GPL-2.0+ WITH Classpath", "(MIT OR BSD-3-Clause) AND X", "mit or x", "", "MIT */", "MIT */ x", "A/B", "a+b", "AND", "@ @", "@ MIT"}
		for i := 0; i < 4; i++ {
			e := c.pick("MIT", "GPL-2.0", "X", "Y+")
			for j := c.Intn(4); j > 0; j-- {
				e += c.pick(" AND ", " OR ", " WITH ", " or ", "+ ", ") AND (") + c.pick("MIT", "GPL-2.0", "X", "Y+")
			}
			exprs = append(exprs, e)
		}
		line := func() string {
			switch c.Intn(8) {
			case 0:
				return c.str()
			case 1:
				return "// SPDX-License-Identifier: " + c.pick(exprs...)
			case 2:
				return "/* SPDX-License-Identifier: " + c.pick(exprs...) + " */"
			case 3:
				return c.pick("# ", "abc", "abcdef", "", " * ", "12345", "123456") + "SPDX-License-Identifier:" + c.pick(exprs...)
			case 4:
				return "SPDX-License-Identifier: " + c.str()
			case 5:
				return "SPDX-License-Identifier: " + c.pick(exprs...) + " SPDX-License-Identifier: " + c.pick(exprs...)
			}
			return "# SPDX-License-Identifier: " + c.pick(exprs...)
		}
		root, files, order := c.tree(func() string {
			s := ""
			for i := c.Intn(5); i > 0; i-- {
				s += line() + c.pick("\n", "\n", "\r\n", "\n\n")
			}
			return s
		})
		defer os.RemoveAll(root)
		cfg := &idsearcher.Config{NamespacePrefix: "p"}
		if c.p(2) {
			cfg.SearcherPathsIgnored = c.patterns(append(order, "/a"))
		}
		current = fmt.Sprintf("BuildIDsDocument on files %q, %+v", files, cfg)
		doc, err := idsearcher.BuildIDsDocument("pkg", root, cfg)
		if err != nil {
			return fmt.Sprintf("%s: %v", current, err)
		}
		all := map[string]bool{}
		pkg := doc.Packages[0]
		if len(pkg.Files) != len(order) {
			return fmt.Sprintf("%s: files %d", current, len(pkg.Files))
		}
		for i, p := range order {
			f := pkg.Files[i]
			lics, concl := []string{"NOASSERTION"}, "NOASSERTION"
			if !ignored("."+p, cfg.SearcherPathsIgnored) {
				ids, each := map[string]bool{}, map[string]bool{}
				for _, l := range strings.Split(files[p], "\n") {
					l = strings.TrimSuffix(l, "\r")
					i := strings.Index(l, "SPDX-License-Identifier:")
					if i < 0 || len(trash(l[:i])) > 5 {
						continue
					}
					r := l[i+len("SPDX-License-Identifier:"):]
					if j := strings.Index(r, "*/"); j >= 0 {
						r = r[:j]
					}
					id := strings.TrimSpace(trash(r))
					if id != "" {
						ids[id] = true
					}
				}
				var parts []string
				for _, id := range sorted(ids) {
					for _, e := range strings.FieldsFunc(id, func(r rune) bool { return r == ' ' || r == '(' || r == ')' || r == '+' }) {
						e = strings.TrimSpace(e)
						if e == "" || strings.EqualFold(e, "AND") || strings.EqualFold(e, "OR") || strings.EqualFold(e, "WITH") {
							continue
						}
						each[e] = true
						all[e] = true
					}
					if strings.Contains(id, " AND ") || strings.Contains(id, " OR ") {
						parts = append(parts, "("+id+")")
					} else {
						parts = append(parts, id)
					}
				}
				if len(each) > 0 {
					lics, concl = sorted(each), strings.Join(parts, " AND ")
					if len(parts) == 1 {
						concl = sorted(ids)[0]
					}
				}
			}
			if !same(f.LicenseInfoInFiles, lics) || f.LicenseConcluded != concl {
				return fmt.Sprintf("%s: file %q has %q %q, want %q %q", current, p, f.LicenseInfoInFiles, f.LicenseConcluded, lics, concl)
			}
		}
		want := sorted(all)
		if len(want) == 0 {
			want = []string{"NOASSERTION"}
		}
		if !same(pkg.PackageLicenseInfoFromFiles, want) {
			return fmt.Sprintf("%s: package has %q, want %q", current, pkg.PackageLicenseInfoFromFiles, want)
		}
		return ""
	}
	table["P17"] = func(c *Ctx) string {
		lics := []string{"", "NOASSERTION", "NONE", "MIT", "GPL-2.0", "mit", "noassertion", "A B", c.word()}
		p := &spdx.Package{FilesAnalyzed: !c.p(8)}
		counts := map[string]int{}
		found, not := 0, 0
		for i := c.Intn(14); i > 0; i-- {
			l := c.pick(lics...)
			p.Files = append(p.Files, &spdx.File{FileName: "f", LicenseConcluded: l})
			if l == "" || l == "NOASSERTION" {
				not++
			} else {
				found++
				counts[l]++
			}
		}
		current = fmt.Sprintf("Generate analyzed=%v counts %v found %d not %d", p.FilesAnalyzed, counts, found, not)
		if p.FilesAnalyzed && c.p(4) {
			if reporter.Generate(p, badWriter{}) == nil {
				return current + ": failure of the destination not reported"
			}
		}
		var b bytes.Buffer
		err := reporter.Generate(p, &b)
		if !p.FilesAnalyzed {
			if err == nil || b.Len() > 0 {
				return fmt.Sprintf("%s: err %v, output %q", current, err, b.String())
			}
			return ""
		}
		if err != nil {
			return current + ": " + err.Error()
		}
		var rows [][2]string
		for _, l := range strings.Split(b.String(), "\n") {
			if l = strings.TrimSpace(l); l == "" {
				continue
			}
			a, t, _ := strings.Cut(l, " ")
			rows = append(rows, [2]string{a, strings.TrimSpace(t)})
		}
		bad := fmt.Sprintf("%s: report %q", current, b.String())
		is := func(i int, n int, t string) bool { return i >= 0 && i < len(rows) && rows[i] == [2]string{fmt.Sprint(n), t} }
		if !is(0, found, "License found") || !is(1, not, "License not found") || !is(2, found+not, "TOTAL") || !is(len(rows)-1, found, "TOTAL FOUND") || len(rows) != 4+len(counts) {
			return bad
		}
		last := 1 << 30
		seen := map[string]bool{}
		for _, r := range rows[3 : len(rows)-1] {
			n := counts[r[1]]
			if n == 0 || fmt.Sprint(n) != r[0] || seen[r[1]] || n > last {
				return bad
			}
			seen[r[1]] = true
			last = n
		}
		return ""
	}
	table["P18"] = func(c *Ctx) string {
		ids := []string{"DOCUMENT", "p1", "p2", "p10", "f1", "f2", "x", "", "B", "a"}
		doc := &spdx.Document{SPDXIdentifier: "DOCUMENT"}
		in := fmt.Sprintf("id %q", doc.SPDXIdentifier)
		for i := c.Intn(5); i > 0; i-- {
			p := &spdx.Package{PackageSPDXIdentifier: common.ElementID(c.pick(ids...))}
			if c.p(3) {
				p.Files = append(p.Files, &spdx.File{FileSPDXIdentifier: "f9"})
			}
			doc.Packages = append(doc.Packages, p)
			in += fmt.Sprintf(" pkg %q", p.PackageSPDXIdentifier)
		}
		for i := c.Intn(3); i > 0; i-- {
			f := &spdx.File{FileSPDXIdentifier: common.ElementID(c.pick(ids...))}
			doc.Files = append(doc.Files, f)
			in += fmt.Sprintf(" file %q", f.FileSPDXIdentifier)
		}
		ref := func() common.DocElementID {
			d := common.DocElementID{ElementRefID: common.ElementID(c.pick(ids...))}
			if c.p(8) {
				d.DocumentRefID = "other"
			}
			if c.p(10) {
				d.SpecialID = "NONE"
			}
			return d
		}
		for i := c.Intn(6); i > 0; i-- {
			r := &spdx.Relationship{RefA: ref(), RefB: ref(), Relationship: c.pick("DESCRIBES", "DESCRIBED_BY", "CONTAINS", "describes")}
			if c.p(3) {
				r.RefA = common.DocElementID{ElementRefID: "DOCUMENT"}
			} else if c.p(3) {
				r.RefB = common.DocElementID{ElementRefID: "DOCUMENT"}
			}
			doc.Relationships = append(doc.Relationships, r)
			in += fmt.Sprintf(" rel %q %s %q", r.RefA, r.Relationship, r.RefB)
		}
		current = in
		// validity
		known := map[common.ElementID]bool{doc.SPDXIdentifier: true}
		for _, p := range doc.Packages {
			known[p.PackageSPDXIdentifier] = true
		}
		for _, f := range doc.Files {
			known[f.FileSPDXIdentifier] = true
		}
		valid := true
		for _, r := range doc.Relationships {
			if !known[r.RefA.ElementRefID] || !known[r.RefB.ElementRefID] {
				valid = false
			}
		}
		if err := spdxlib.ValidateDocument(doc); (err == nil) != valid {
			return fmt.Sprintf("ValidateDocument(%s) = %v, want valid %v", in, err, valid)
		}
		// filter
		sel := map[int]*common.ElementID{}
		var wf []common.ElementID
		for i, r := range doc.Relationships {
			if c.bool() {
				e := r.RefB.ElementRefID
				sel[i] = &e
				wf = append(wf, e)
			}
		}
		i := 0
		got, err := spdxlib.FilterRelationships(doc, func(r *spdx.Relationship) *common.ElementID { i++; return sel[i-1] })
		if fmt.Sprint(got) != fmt.Sprint(wf) || i != len(doc.Relationships) || err != nil {
			return fmt.Sprintf("FilterRelationships(%s) = %q, %v; want %q", in, got, err, wf)
		}
		s := spdxlib.SortElementIDs(append([]common.ElementID(nil), wf...))
		w := append([]common.ElementID(nil), wf...)
		sort.Slice(w, func(i, j int) bool { return w[i] < w[j] })
		if fmt.Sprint(s) != fmt.Sprint(w) {
			return fmt.Sprintf("SortElementIDs(%q) = %q", wf, s)
		}
		// described
		var want []common.ElementID
		d := common.DocElementID{ElementRefID: "DOCUMENT"}
		for _, r := range doc.Relationships {
			if r.Relationship == "DESCRIBES" && r.RefA == d {
				want = append(want, r.RefB.ElementRefID)
			} else if r.Relationship == "DESCRIBED_BY" && r.RefB == d {
				want = append(want, r.RefA.ElementRefID)
			}
		}
		sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
		if len(doc.Packages) == 1 {
			want = []common.ElementID{doc.Packages[0].PackageSPDXIdentifier}
		} else if len(doc.Packages) == 0 {
			want = nil
		}
		g, err := spdxlib.GetDescribedPackageIDs(doc)
		if (err != nil) != (len(want) == 0) || fmt.Sprint(g) != fmt.Sprint(want) {
			return fmt.Sprintf("GetDescribedPackageIDs(%s) = %q, %v; want %q", in, g, err, want)
		}
		return ""
	}
}

type badWriter struct{}

func (badWriter) Write(p []byte) (int, error) { return 0, errors.New("full") }
