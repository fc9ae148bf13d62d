package main

import (
	"fmt"
	"reflect"

	"github.com/spdx/tools-golang/licensediff"
	"github.com/spdx/tools-golang/spdx"
)

func init() {
	table["P16"] = func(c *Ctx) string {
		names, lics := c.pool(4), append(c.pool(4), "", "MIT", "NOASSERTION")
		mk := func() *spdx.Package {
			p := &spdx.Package{}
			for i := c.Intn(6); i > 0; i-- {
				p.Files = append(p.Files, &spdx.File{FileName: c.pick(names...), LicenseConcluded: c.pick(lics...), LicenseInfoInFiles: []string{c.pick(lics...)}})
			}
			return p
		}
		p1, p2 := mk(), mk()
		in := "first:"
		for _, f := range p1.Files {
			in += fmt.Sprintf(" %q=%q", f.FileName, f.LicenseConcluded)
		}
		in += " second:"
		for _, f := range p2.Files {
			in += fmt.Sprintf(" %q=%q", f.FileName, f.LicenseConcluded)
		}
		current = in
		want := map[string]licensediff.LicensePair{}
		last := func(p *spdx.Package, n string) (string, bool) {
			for i := len(p.Files) - 1; i >= 0; i-- {
				if p.Files[i].FileName == n {
					return p.Files[i].LicenseConcluded, true
				}
			}
			return "", false
		}
		for _, n := range names {
			a, oka := last(p1, n)
			b, okb := last(p2, n)
			if oka || okb {
				want[n] = licensediff.LicensePair{First: a, Second: b}
			}
		}
		got, err := licensediff.MakePairs(p1, p2)
		if err != nil || !reflect.DeepEqual(got, want) {
			return fmt.Sprintf("MakePairs(%s) = %q, %v; want %q", in, got, err, want)
		}
		r, err := licensediff.MakeResults(got)
		if err != nil || r == nil {
			return fmt.Sprintf("MakeResults(%q) = %v, %v", got, r, err)
		}
		n := 0
		for f, p := range got {
			var ok bool
			switch {
			case p.First == p.Second:
				v, h := r.InBothSame[f]
				ok = h && v == p.First
			case p.First == "":
				v, h := r.InSecondOnly[f]
				ok = h && v == p.Second
			case p.Second == "":
				v, h := r.InFirstOnly[f]
				ok = h && v == p.First
			default:
				v, h := r.InBothChanged[f]
				ok = h && v == p
			}
			if !ok {
				return fmt.Sprintf("MakeResults(%q): %q is misclassified: %+v", got, f, *r)
			}
			n++
		}
		if len(r.InBothChanged)+len(r.InBothSame)+len(r.InFirstOnly)+len(r.InSecondOnly) != n {
			return fmt.Sprintf("MakeResults(%q): extra entries: %+v", got, *r)
		}
		return ""
	}
}
