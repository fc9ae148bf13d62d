package main

import (
	"sort"
	"strings"
)

// Final states are compared up to a renaming of the objects allocated during the run (their identity is not
// observable) and up to objects that are no longer reachable.

type iso struct {
	sigma map[*Term]*Term // spec ref -> code ref
	inv   map[*Term]*Term
	bad   bool
	work  [][2]*Term
	seen  map[[2]*Term]bool
}

func isFresh(t *Term) bool {
	if t.sort != SInt || t.op != OAdd {
		return false
	}
	_, _, ok := allocForm(t)
	return ok
}

func allocBase(t *Term) string {
	b, _, _ := allocForm(t)
	return b.name
}

func (m *iso) pair(a, b *Term) {
	if isFresh(a) && isFresh(b) && allocBase(a) == allocBase(b) {
		if o, ok := m.sigma[b]; ok {
			if o != a {
				m.bad = true
			}
			return
		}
		if o, ok := m.inv[a]; ok && o != b {
			m.bad = true
			return
		}
		m.sigma[b], m.inv[a] = a, b
		m.work = append(m.work, [2]*Term{a, b})
		return
	}
	k := [2]*Term{a, b}
	if m.seen[k] {
		return
	}
	m.seen[k] = true
	if a.op == b.op && a.name == b.name && len(a.args) == len(b.args) && a.n == b.n && a.op != OAdd {
		if a.op == OStore && a.args[1] != b.args[1] {
			m.stores(a, b)
			return
		}
		for i := range a.args {
			m.pair(a.args[i], b.args[i])
		}
		return
	}
	if a.op == OStore || b.op == OStore {
		m.stores(a, b)
	}
}

// stores compares two heap terms at the locations not freshly allocated.
func (m *iso) stores(a, b *Term) {
	idx := map[*Term]bool{}
	for _, t := range []*Term{a, b} {
		for t.op == OStore {
			if !isFresh(t.args[1]) {
				idx[t.args[1]] = true
			}
			t = t.args[0]
		}
	}
	for i := range idx {
		m.pair(Select(a, i), Select(b, i))
	}
}

func mentionsFresh(t *Term, memo map[*Term]bool) bool {
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = false
	r := isFresh(t)
	for _, a := range t.args {
		r = r || mentionsFresh(a, memo)
	}
	for _, a := range t.bods {
		r = r || mentionsFresh(a, memo)
	}
	memo[t] = r
	return r
}

func isHeapKey(k string) bool {
	return strings.HasPrefix(k, "H|") || strings.HasPrefix(k, "MD|") || strings.HasPrefix(k, "MV|") || k == "O|out" || k == "F|fail"
}

// boxedRef is the reference inside an interface value's term (the term itself otherwise).
func boxedRef(t *Term) *Term {
	if t.op == OApp && strings.HasPrefix(t.name, "box_") && len(t.args) == 1 {
		return t.args[0]
	}
	return t
}

// dropRef removes what a heap term stores at an unreachable fresh reference.
func dropRef(h, r *Term) *Term {
	switch h.op {
	case OStore:
		in := dropRef(h.args[0], r)
		if boxedRef(h.args[1]) == r {
			return in
		}
		if in == h.args[0] {
			return h
		}
		return Store(in, h.args[1], h.args[2])
	case OIte:
		a, b := dropRef(h.args[1], r), dropRef(h.args[2], r)
		if a == h.args[1] && b == h.args[2] {
			return h
		}
		return Ite(h.args[0], a, b)
	}
	return h
}

func storeRefs(h *Term, out map[*Term]bool) {
	switch h.op {
	case OStore:
		if b := boxedRef(h.args[1]); isFresh(b) {
			out[b] = true
		}
		storeRefs(h.args[0], out)
	case OIte:
		storeRefs(h.args[1], out)
		storeRefs(h.args[2], out)
	}
}

// collect drops the unreachable fresh objects of one run.
func collectGarbage(vals map[string]*Term) {
	for round := 0; round < 20; round++ {
		refs := map[*Term]bool{}
		for k, h := range vals {
			if isHeapKey(k) {
				storeRefs(h, refs)
			}
		}
		changed := false
		for r := range refs {
			// tentatively drop everywhere; keep the drop if the reference then occurs nowhere
			nv := map[string]*Term{}
			used := false
			for k, h := range vals {
				x := h
				if isHeapKey(k) {
					x = dropRef(h, r)
				}
				nv[k] = x
				if occurs(x, r, map[*Term]bool{}) {
					used = true
					break
				}
			}
			if !used {
				for k, x := range nv {
					vals[k] = x
				}
				changed = true
			}
		}
		if !changed {
			return
		}
	}
}

func occurs(t, r *Term, seen map[*Term]bool) bool {
	if t == r {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, a := range t.args {
		if occurs(a, r, seen) {
			return true
		}
	}
	for _, a := range t.bods {
		if occurs(a, r, seen) {
			return true
		}
	}
	return false
}

// normalise renames the fresh objects of the specification's final state to those of the code's.
func normalise(code, spec map[string]*Term) map[*Term]*Term {
	collectGarbage(code)
	collectGarbage(spec)
	m := &iso{sigma: map[*Term]*Term{}, inv: map[*Term]*Term{}, seen: map[[2]*Term]bool{}}
	for k, a := range code {
		if b := spec[k]; b != nil {
			m.pair(a, b)
		}
	}
	for len(m.work) > 0 && !m.bad {
		w := m.work[0]
		m.work = m.work[1:]
		for k, a := range code {
			if b := spec[k]; b != nil && isHeapKey(k) {
				if a.sort.K == kArr && a.sort.Key == SInt {
					m.pair(Select(a, w[0]), Select(b, w[1]))
				}
			}
		}
	}
	if m.bad {
		return nil
	}
	sub := map[*Term]*Term{}
	for b, a := range m.sigma {
		if a != b {
			sub[b] = a
		}
	}
	if len(sub) == 0 {
		return nil
	}
	// the renaming must be injective on the references that occur
	for _, a := range sub {
		if m.sigma[a] == nil {
			for _, t := range spec {
				if occurs(t, a, map[*Term]bool{}) {
					return nil
				}
			}
		}
	}
	for k, t := range spec {
		spec[k] = Subst(t, sub)
	}
	return sub
}

// pairOrders resolves the specification's choice of map enumeration orders: for every order the code may take
// there has to be one order of the specification that agrees with it, so the code's order is the witness.
func pairOrders(code, spec []*Term) map[*Term]*Term {
	collect := func(ts []*Term) (out []*Term) {
		seen := map[*Term]bool{}
		for _, t := range ts {
			walkTerms(t, func(x *Term) {
				if x.op == OApp && x.name == "mapord" && x.args[1] != Str("0") && !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			})
		}
		sort.Slice(out, func(i, j int) bool {
			a, b := out[i].args[1].name, out[j].args[1].name
			if len(a) != len(b) {
				return len(a) < len(b)
			}
			return a < b
		})
		return
	}
	cs, ss := collect(code), collect(spec)
	used := map[*Term]bool{}
	sub := map[*Term]*Term{}
	for _, s := range ss {
		for _, c := range cs {
			if !used[c] && c.args[0] == s.args[0] {
				sub[s] = c
				used[c] = true
				break
			}
		}
	}
	return sub
}
