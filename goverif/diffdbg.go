package main

import (
	"fmt"
	"os"
	"strings"
)

// diffTerms prints where two terms differ (development aid).
func diffTerms(a, b *Term, path string, budget *int, seen map[[2]*Term]bool) {
	if a == b || *budget <= 0 || seen[[2]*Term{a, b}] {
		return
	}
	seen[[2]*Term{a, b}] = true
	if a.op == b.op && a.name == b.name && a.n == b.n && len(a.args) == len(b.args) && len(a.bods) == len(b.bods) && len(a.args)+len(a.bods) > 0 {
		for i := range a.args {
			diffTerms(a.args[i], b.args[i], path, budget, seen)
		}
		for i := range a.bods {
			diffTerms(a.bods[i], b.bods[i], path+fmt.Sprintf(".%d", i), budget, seen)
		}
		return
	}
	if a.op == OIte && b.op == OIter && a.args[1].op == OIter {
		a = a.args[1]
		if a == b {
			return
		}
		diffTerms(a, b, path+"@then", budget, seen)
		return
	}
	if b.op == OIte && a.op == OIter && b.args[1].op == OIter {
		diffTerms(b, a, path, budget, seen)
		return
	}
	*budget--
	fmt.Fprintf(os.Stderr, "DIFF %s\n  A %s\n  B %s\n", path, brief(a, 5), brief(b, 5))
}

func diffGoal(g *Term) {
	if g.op == OAnd || g.op == OOr || g.op == ONot {
		for _, a := range g.args {
			diffGoal(a)
		}
		return
	}
	if g.op == OEq || g.op == OIte {
		n := 6
		diffTerms(g.args[len(g.args)-2], g.args[len(g.args)-1], "", &n, map[[2]*Term]bool{})
	}
}

var briefNames = strings.NewReplacer("github.com/spdx/gordf/rdfloader/", "", "spdx/v2/", "", "http://www.w3.org/1999/02/22-rdf-syntax-ns#", "rdf:", "http://spdx.org/rdf/terms#", "spdx:")

func brief(t *Term, d int) string {
	if len(t.args)+len(t.bods) == 0 {
		s := briefNames.Replace(t.String())
		if len(s) > 50 {
			s = s[:50]
		}
		return s
	}
	if d == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "(op%d %s", t.op, briefNames.Replace(t.name))
	for i, a := range t.args {
		if i > 5 {
			b.WriteString(" ..")
			break
		}
		b.WriteString(" " + brief(a, d-1))
	}
	if len(t.bods) > 0 {
		fmt.Fprintf(&b, " | %d bods", len(t.bods))
	}
	return b.String() + ")"
}
