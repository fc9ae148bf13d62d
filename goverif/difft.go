package main

import (
	"fmt"
	"strings"
)

// printDiff shows where the two sides of a failed equality differ (diagnosis only).
func printDiff(g *Term) {
	n := 0
	seen := map[[2]*Term]bool{}
	cut := func(t *Term) string {
		s := t.String()
		if len(s) > 900 {
			s = s[:900] + fmt.Sprintf("… (%d)", len(s))
		}
		return s
	}
	var w func(a, b *Term, path string)
	w = func(a, b *Term, path string) {
		if a == b || n >= 8 || seen[[2]*Term{a, b}] {
			return
		}
		seen[[2]*Term{a, b}] = true
		if a.op == b.op && a.name == b.name && len(a.args) == len(b.args) && len(a.bods) == len(b.bods) && a.op != OVar && (len(a.args) > 0 || len(a.bods) > 0) {
			d := 0
			for i := range a.args {
				if a.args[i] != b.args[i] {
					d++
				}
			}
			for i := range a.bods {
				if a.bods[i] != b.bods[i] {
					d++
				}
			}
			if d <= 2 {
				for i := range a.args {
					w(a.args[i], b.args[i], fmt.Sprintf("%s/%d:%d", path, a.op, i))
				}
				for i := range a.bods {
					w(a.bods[i], b.bods[i], fmt.Sprintf("%s/%d^%d", path, a.op, i))
				}
				return
			}
		}
		n++
		fmt.Printf("     DIFF at %s\n       A %s\n       B %s\n", path, cut(a), cut(b))
	}
	var eqs func(t *Term)
	eqs = func(t *Term) {
		if t.op == OEq {
			w(t.args[0], t.args[1], "")
			return
		}
		if t.op == OAnd || t.op == OOr {
			for _, a := range t.args {
				eqs(a)
			}
		}
	}
	eqs(g)
}

// letStr prints terms as a numbered list of small definitions; binders are printed with their own.
func letStr(roots ...*Term) string {
	var b strings.Builder
	done := map[*Term]bool{}
	var ref func(t *Term) string
	size := map[*Term]int{}
	var sz func(t *Term) int
	sz = func(t *Term) int {
		if n, ok := size[t]; ok {
			return n
		}
		n := 1
		for _, a := range t.args {
			n += sz(a)
		}
		for _, a := range t.bods {
			n += sz(a)
		}
		if n > 100000 {
			n = 100000
		}
		size[t] = n
		return n
	}
	var def func(t *Term)
	body := func(t *Term) string {
		var s strings.Builder
		s.WriteString("(")
		switch t.op {
		case OApp:
			s.WriteString(t.name)
		case OMk:
			s.WriteString("mk_" + t.sort.Name)
		case OField:
			s.WriteString("." + t.name)
		case OMulC:
			fmt.Fprintf(&s, "*%d", t.n)
		case OIter:
			fmt.Fprintf(&s, "iter#%d", t.n)
		default:
			s.WriteString(opNames[t.op])
		}
		for _, a := range t.args {
			s.WriteString(" " + ref(a))
		}
		if len(t.bvs) > 0 {
			s.WriteString(" λ")
			for _, v := range t.bvs {
				s.WriteString(v.name + " ")
			}
			s.WriteString(".")
			for _, a := range t.bods {
				s.WriteString("\n      | " + ref(a))
			}
		}
		s.WriteString(")")
		return s.String()
	}
	def = func(t *Term) {
		if done[t] {
			return
		}
		done[t] = true
		s := body(t)
		fmt.Fprintf(&b, "    t%d = %s\n", t.id, s)
	}
	ref = func(t *Term) string {
		if len(t.args) == 0 && len(t.bods) == 0 || sz(t) < 9 {
			return t.String()
		}
		def(t)
		return fmt.Sprintf("t%d", t.id)
	}
	for _, r := range roots {
		x := ref(r)
		fmt.Fprintf(&b, "  => %s\n", x)
	}
	return b.String()
}
