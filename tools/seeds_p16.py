from seedlib import *
F='licensediff/licensediff.go'
H='''package main

import (
	"fmt"
	"os"

	"github.com/spdx/tools-golang/licensediff"
	"github.com/spdx/tools-golang/spdx"
)

func fail(x ...any) { fmt.Println(x...); os.Exit(1) }

func pk(xs ...string) *spdx.Package {
	p := &spdx.Package{}
	for i := 0; i+1 < len(xs); i += 2 {
		p.Files = append(p.Files, &spdx.File{FileName: xs[i], LicenseConcluded: xs[i+1]})
	}
	return p
}

'''
seed('P16-dup-second','P16','the second package lists the same file name twice','the pair keeps the licence of the first occurrence in the second package, not the last',
[(F,'''			firstLic = existingPair.First
		}
''','''			firstLic = existingPair.First
			if existingPair.Second != "" {
				continue
			}
		}
''')],H+'''func main() {
	m, _ := licensediff.MakePairs(pk("a", "X"), pk("a", "MIT", "b", "Y", "a", "GPL"))
	if m["a"].Second != "GPL" {
		fail(m)
	}
}
''')
seed('P16-noassert-same','P16','a file whose concluded license is NOASSERTION in one package and empty in the other','such a pair is classified as same instead of first/second only',
[(F,'''		if pair.First == pair.Second {''','''		if pair.First == pair.Second || pair.First == "" && pair.Second == "NOASSERTION" {''')],H+'''func main() {
	m, _ := licensediff.MakePairs(pk("a", ""), pk("a", "NOASSERTION"))
	r, _ := licensediff.MakeResults(m)
	if _, ok := r.InSecondOnly["a"]; !ok || len(r.InBothSame) != 0 {
		fail(r)
	}
}
''')
seed('P16-empty-file-first','P16','a file of the first package without concluded license that the second package does not have','the file is left out of the pairs',
[(F,'''		pairs[f.FileName] = pair
	}

	// now, go''','''		if pair != (LicensePair{}) {
			pairs[f.FileName] = pair
		}
	}

	// now, go''')],H+'''func main() {
	m, _ := licensediff.MakePairs(pk("a", ""), pk("b", "MIT"))
	if _, ok := m["a"]; !ok {
		fail(m)
	}
}
''')
