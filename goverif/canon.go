package main

// canonBool brings a propositional combination to a form that depends only on
// what it says about its atoms (tests of the smallest atom first).
func canonBool(t *Term) *Term {
	memo := map[*Term]*Term{}
	budget := 4000
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		if budget--; budget < 0 {
			return t
		}
		in := t
		t = spreadTests(t)
		var first *Term
		var all []*Term
		seen := map[*Term]bool{}
		var atoms func(t *Term)
		atoms = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			switch t.op {
			case OTrue, OFalse:
			case OAnd, OOr, ONot:
				for _, a := range t.args {
					atoms(a)
				}
			case OIte:
				for _, a := range t.args {
					atoms(a)
				}
			default:
				all = append(all, t)
				if first == nil || t.id < first.id {
					first = t
				}
			}
		}
		atoms(t)
		if first == nil {
			memo[in] = t
			return t
		}
		yes, no := map[*Term]*Term{first: TTrue}, map[*Term]*Term{first: TFalse}
		n := Not(first)
		for _, a := range all {
			if a == n {
				yes[a], no[a] = TFalse, TTrue
			} else if excludes(first, a) {
				yes[a] = TFalse
			}
		}
		r1, r0 := rec(propSubst(t, yes)), rec(propSubst(t, no))
		r := r1
		if r1 != r0 {
			r = Or(And(first, r1), And(Not(first), r0))
		}
		memo[in] = r
		return r
	}
	r := rec(t)
	if budget < 0 {
		return t
	}
	return r
}

// propSubst replaces atoms in the propositional structure only.
func propSubst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var w func(t *Term) *Term
	w = func(t *Term) *Term {
		if r := m[t]; r != nil {
			return r
		}
		if r := memo[t]; r != nil {
			return r
		}
		r := t
		switch t.op {
		case ONot:
			r = Not(w(t.args[0]))
		case OAnd, OOr:
			var as []*Term
			for _, a := range t.args {
				as = append(as, w(a))
			}
			if t.op == OAnd {
				r = And(as...)
			} else {
				r = Or(as...)
			}
		case OIte:
			r = Ite(w(t.args[0]), w(t.args[1]), w(t.args[2]))
		}
		memo[t] = r
		return r
	}
	return w(t)
}

// spreadTests moves comparisons with an alternative into its sides.
func spreadTests(t *Term) *Term {
	memo := map[*Term]*Term{}
	var w func(t *Term) *Term
	w = func(t *Term) *Term {
		if r := memo[t]; r != nil {
			return r
		}
		r := t
		switch t.op {
		case ONot:
			r = Not(w(t.args[0]))
		case OAnd, OOr:
			var as []*Term
			for _, a := range t.args {
				as = append(as, w(a))
			}
			if t.op == OAnd {
				r = And(as...)
			} else {
				r = Or(as...)
			}
		case OIte:
			r = Ite(w(t.args[0]), w(t.args[1]), w(t.args[2]))
		case OEq:
			for i := 0; i < 2; i++ {
				x, y := t.args[i], t.args[1-i]
				if y.op == OIte && y.sort != SBool && (isLit(x) || x == AnyNil) {
					c := w(y.args[0])
					a, b := w(Eq(x, y.args[1])), w(Eq(x, y.args[2]))
					r = Or(And(c, a), And(Not(c), b))
					break
				}
			}
		}
		memo[t] = r
		return r
	}
	return w(t)
}
