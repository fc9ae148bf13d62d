package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// comp is one loop-carried component.
type comp struct {
	key  string   // state key, or "" for a phi
	phi  *ssa.Phi // phi, or nil
	loc  *Term    // index into an array-valued state key, or nil for the whole value
	init *Term
	v    *Term // variable standing for the value at the start of an iteration
	step *Term
	aff  bool
	c    int64
	off  *Term // for allocation counters: value = off + v
}

func (c *comp) id() string {
	if c.phi != nil {
		return "phi|" + c.phi.Name()
	}
	if c.loc != nil {
		return c.key + "@" + fmt.Sprint(c.loc.id)
	}
	return c.key
}

func (ex *Exec) execLoop(fr *Frame, lp *loop, st0 *State, inits map[*ssa.Phi]Val, pc *Term) []edge {
	if usesReflect(lp) {
		if out, ok := ex.peelLoop(fr, lp, st0, inits, pc, 8); ok {
			return out
		}
	}
	kappa := FreshVar("i!k!", SInt)
	comps := map[string]*comp{}
	whole := map[string]bool{} // keys that must be carried as whole arrays
	noAff := map[string]bool{}
	var phis []*ssa.Phi
	for _, in := range lp.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	constPhi := map[*ssa.Phi]bool{}
	nilTried, nilTriedCell, nilCell := map[*ssa.Phi]bool{}, map[string]bool{}, map[string]bool{}
	typeOf := map[*ssa.Phi]*ssa.Phi{}
	for _, p := range phis {
		v := inits[p]
		if v.T == nil && v.A == nil && v.Clo == nil {
			unsup("loop phi without term")
		}
		init := ex.term(st0, v)
		if typeOf[p] = typePhi(p, phis, inits, init, func(v Val) *Term { return ex.term(st0, v) }); typeOf[p] != nil {
			continue
		}
		comps["phi|"+p.Name()] = &comp{phi: p, init: init, v: FreshVar("a!"+p.Name(), init.sort)}
	}
	obl0, as0 := len(ex.obls), len(ex.assumes)
	salt0 := ex.saltN
	var r *region
	var start *State
	var extra []assumption
	run := func() *State {
		ex.obls = ex.obls[:obl0]
		ex.assumes = ex.assumes[:as0]
		ex.saltN = salt0
		ex.assumes = append(ex.assumes, extra...)
		start = st0.clone()
		keys := sortedComps(comps)
		for _, k := range keys {
			c := comps[k]
			val := c.v
			if c.off != nil {
				val = Add(c.off, c.v)
			}
			if c.aff {
				val = Add(c.init, MulC(c.c, kappa))
				if c.off != nil {
					val = Add(c.off, MulC(c.c, kappa))
				}
			}
			if c.phi != nil {
				if constPhi[c.phi] {
					fr.regs[c.phi] = inits[c.phi]
				} else {
					fr.regs[c.phi] = ex.wrap(val, c.phi.Type(), nil)
				}
				continue
			}
			if c.loc != nil {
				start.set(c.key, Store(start.get(c.key, stateSort[c.key]), c.loc, val))
				continue
			}
			start.set(c.key, val)
		}
		for p, d := range typeOf {
			if d != nil {
				x := Field(ex.term(start, fr.regs[d]), 0)
				fr.regs[p] = Val{T: App("rtype", SAny, App("tagof", SInt, x))}
			}
		}
		r = &region{fr: fr, blocks: lp.blocks, header: lp.header, nodes: map[*ssa.BasicBlock]*node{}, repM: map[*ssa.BasicBlock]*ssa.BasicBlock{}}
		ex.runRegion(r, start, pc)
		return ex.mergeStates(r, lp.header, func(e edge) bool { return e.to == lp.header })
	}
	back := func(e edge) bool { return e.to == lp.header }
	var bst *State
	var backCond *Term
	for round := 0; ; round++ {
		if round > 40 {
			unsup("loop analysis did not converge")
		}
		bst = run()
		if bst == nil { // body never repeats
			break
		}
		changed := false
		backCond = r.reach(lp.header, back)
		// steps of the current components
		for _, k := range sortedComps(comps) {
			c := comps[k]
			switch {
			case c.phi != nil:
				if constPhi[c.phi] {
					continue
				}
				// all-equal closures / non-term phis are not supported
				c.step = r.gate(lp.header, func(e edge) *Term {
					if !back(e) {
						return nil
					}
					return ex.term(e.st, ex.operand(fr, c.phi.Edges[e.idx]))
				})
			case c.loc != nil:
				c.step = Select(bst.get(c.key, stateSort[c.key]), c.loc)
			default:
				c.step = bst.get(c.key, stateSort[c.key])
			}
			if c.step == nil {
				unsup("loop step")
			}
			c.step = simpUnder(backCond, c.step)
			if c.off != nil {
				c.step = Sub(c.step, c.off)
			}
			if c.phi != nil && c.init != AnyNil && c.init.sort == AnyNil.sort && c.step != c.v && ex.prover != nil && !nilTried[c.phi] {
				// an error variable that was just tested for nil
				nilTried[c.phi] = true
				if ex.prover(ex.hyps(pc), Eq(c.init, AnyNil)) {
					c.init = AnyNil
				}
			}
			if c.phi != nil && c.init == AnyNil && c.step != c.v && ex.prover != nil {
				// an error variable that is nil whenever the loop goes on
				hy := append(ex.hyps(pc), backCond, Eq(c.v, AnyNil))
				if ex.prover(hy, Eq(c.step, AnyNil)) {
					c.step = c.v
				}
			}
			if c.step == c.v && !c.aff { // unchanged
				if c.phi != nil {
					constPhi[c.phi] = true
				} else if c.loc == nil {
					whole["const|"+k] = true
					delete(comps, k)
				} else {
					delete(comps, k)
				}
				changed = true
				continue
			}
			if c.init.sort == SInt && !c.aff && !noAff[k] {
				if d := Sub(c.step, c.v); d.op == OInt {
					c.aff, c.c = true, d.n
					changed = true
				}
			} else if c.aff {
				cur := Add(c.init, MulC(c.c, kappa))
				if c.off != nil {
					cur = MulC(c.c, kappa)
				}
				if d := Sub(c.step, cur); d.op != OInt || d.n != c.c {
					c.aff = false
					noAff[k] = true
					changed = true
				}
			}
		}
		// newly modified keys
		var ks []string
		for k := range bst.m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			v := bst.m[k]
			if strings.HasPrefix(k, "C|") || strings.HasPrefix(k, "ov|") {
				if _, ok := st0.m[k]; !ok {
					if strings.HasPrefix(k, "ov|") && start.m[k] != v {
						// in-place change of a slice value first made inside the loop
						var id int
						fmt.Sscanf(k[3:], "%d", &id)
						t := termByID(id)
						if !mentionsComps(t, comps) && !mentions(t, kappa) {
							unsup("in-place change of a loop-invariant slice")
						}
					}
					continue
				}
			}
			sv, ok := start.m[k]
			if !ok {
				sv = initVar(k, v.sort)
			}
			if k == "X|bad" {
				v = simpUnder(backCond, v)
				if v != sv && ex.prover != nil && ex.prover(append(ex.hyps(pc), backCond, Not(sv)), Not(v)) && ex.prover(append(ex.hyps(pc), sv), v) {
					v = sv
				}
			}
			if sv == v {
				continue
			}
			if comps[k] != nil {
				continue
			}
			if strings.HasPrefix(k, "C|") && simpUnder(And(pc, backCond), sv) == simpUnder(And(pc, backCond), v) {
				continue
			}
			if strings.HasPrefix(k, "C|") && v.sort == AnyNil.sort && ex.prover != nil && !nilTriedCell[k] {
				// an error variable that is nil whenever the loop is at its head
				nilTriedCell[k] = true
				if ex.prover(ex.hyps(pc), Eq(sv, AnyNil)) {
					st0 = st0.clone()
					st0.set(k, AnyNil)
					nilCell[k] = true
					changed = true
					continue
				}
			}
			if nilCell[k] && ex.prover(append(ex.hyps(pc), backCond), Eq(v, AnyNil)) {
				continue
			}
			// array-valued heaps: location-precise when possible
			if v.sort.K == kArr && !whole[k] && strings.ContainsAny(k[:1], "HMO") {
				_, idx := storeChain(v)
				base, _ := storeChain(v)
				sbase, _ := storeChain(sv)
				ok := base == sbase
				for _, i := range idx {
					if mentions(i, kappa) || mentionsComps(i, comps) {
						ok = false
					}
				}
				for i := range idx {
					for j := range idx {
						if i < j && Eq(idx[i], idx[j]) != TFalse {
							ok = false
						}
					}
				}
				if ok {
					added := false
					for _, i := range idx {
						id := k + "@" + fmt.Sprint(i.id)
						if comps[id] != nil {
							continue
						}
						if Select(v, i) == Select(sv, i) {
							continue
						}
						st0v := st0.get(k, v.sort)
						in := Select(st0v, i)
						comps[id] = &comp{key: k, loc: i, init: in, v: FreshVar("a!h", in.sort)}
						added = true
					}
					if added {
						changed = true
					}
					continue
				}
				// fall back to the whole array
				if indDebug {
					fmt.Printf("WHOLE %s base %.200s sbase %.200s idx %v\n", k, base, sbase, idx)
				}
				whole[k] = true
				for id, c := range comps {
					if c.key == k {
						delete(comps, id)
					}
				}
			}
			in := st0.get(k, v.sort)
			c := &comp{key: k, init: in, v: FreshVar("a!s", in.sort)}
			if strings.HasPrefix(k, "A|") {
				c.off = in
				c.init = Int(0)
				c.v = FreshVar("i!k!cnt", SInt)
			}
			comps[k] = c
			changed = true
		}
		if !changed {
			break
		}
	}
	// exits
	type exitE struct {
		e    edge
		cond *Term
	}
	var exits []exitE
	var es []edge
	for _, b := range fr.rpo {
		if n, ok := r.nodes[b]; ok {
			for _, e := range n.edges {
				if e.to != lp.header && (e.to == nil || !lp.blocks[e.to]) {
					es = append(es, e)
				}
			}
		}
	}
	for i := range es {
		e := es[i]
		c := r.reach(lp.header, func(o edge) bool {
			return o.from == e.from && o.to == e.to && o.idx == e.idx && o.cond == e.cond && o.st == e.st
		})
		if c == TFalse {
			continue
		}
		exits = append(exits, exitE{e, c})
	}
	if bst == nil {
		// straight-line "loop": substitute the first iteration
		m := map[*Term]*Term{kappa: Int(0)}
		for _, c := range comps {
			if !c.aff {
				m[c.v] = c.init
			}
		}
		ex.substLoop(fr, lp, r, m, obl0, as0)
		var out []edge
		for _, x := range exits {
			x.e.st = substState(x.e.st, m)
			x.e.cond = Subst(x.cond, m)
			out = append(out, x.e)
		}
		return out
	}
	// carried components, in order
	var cs []*comp
	var its []IterComp
	for _, k := range sortedComps(comps) {
		c := comps[k]
		if c.aff || c.phi != nil && constPhi[c.phi] {
			continue
		}
		cs = append(cs, c)
		its = append(its, IterComp{c.v, c.init, c.step})
	}
	var del *deletion
	if cs, its, del = deletionLoop(cs, its, kappa); del != nil {
		sub := del.at(kappa, del.kept)
		for i := range its {
			if its[i].v != del.kept {
				its[i].step = Subst(its[i].step, sub)
				cs[i].step = its[i].step
			}
		}
		for i := range exits {
			exits[i].cond = Subst(exits[i].cond, sub)
		}
		backCond = Subst(backCond, sub)
	}
	iterAtN := func(n *Term) map[*Term]*Term {
		m := map[*Term]*Term{}
		for i, c := range cs {
			m[c.v] = MkIter(its, kappa, i, n)
		}
		if del != nil {
			for k, t := range del.at(n, m[del.kept]) {
				m[k] = t
			}
		}
		return m
	}
	// map-order independence
	if s := ex.eraseSalt(its, len(exits) == 1, kappa); s != nil {
		for i := range its {
			its[i].step = Subst(its[i].step, s)
			its[i].init = Subst(its[i].init, s)
			cs[i].step, cs[i].init = its[i].step, its[i].init
		}
		for i := range exits {
			exits[i].cond = Subst(exits[i].cond, s)
			exits[i].e.st = substState(exits[i].e.st, s)
		}
		for b := range lp.blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					if rv, ok := fr.regs[v]; ok {
						fr.regs[v] = substVal(rv, s)
					}
				}
			}
		}
	}
	if indDebug {
		for i := range its {
			fmt.Printf("LOOPCOMP %s v=%s init=%.200s step=%.900s\n", cs[i].id(), its[i].v, its[i].init, its[i].step)
		}
		for _, x := range exits {
			fmt.Printf("LOOPEXIT %.300s\n", x.cond)
		}
	}
	// bound
	var bound *Term
	other := TFalse
	for _, x := range exits {
		if bound == nil && x.cond.op == OLe0 {
			d := Sub(kappa, x.cond.args[0]) // 0 <= kappa - n
			if !mentions(d, kappa) && !mentionsComps(d, comps) {
				bound = d
				continue
			}
		}
		other = Or(other, x.cond)
	}
	var K *Term
	if other == TFalse && bound != nil {
		K = Max0(bound)
	} else {
		// within the bound, so header exits are false
		if bound != nil {
			other = assumeIn(other, Lt(kappa, bound))
		}
		oc := Subst(other, iterAtN(kappa))
		K = MkFirst(kappa, oc, bound)
		if bound == nil {
			ex.obligeTerm(fr, lp, oc, kappa, pc, its)
		}
	}
	final := iterAtN(K)
	final[kappa] = K
	// obligations of the body: components at iteration kappa, which is executed
	mid := iterAtN(kappa)
	inv := ex.loopInvariants(obl0, cs, its, kappa, bound, pc, backCond)
	for i, c := range cs {
		if f := filterFact(its[i], c.v, kappa, comps, ex.prover, ex.hyps(pc)); f != nil {
			inv = append(inv, f)
		}
	}
	for _, o := range ex.obls[obl0:] {
		o.Goal = Subst(o.Goal, mid)
		for j := range o.Hyps {
			o.Hyps[j] = Subst(o.Hyps[j], mid)
		}
		if bound != nil {
			o.Hyps = append(o.Hyps, Le(kappa, Max0(bound)))
		}
		for _, f := range inv {
			o.Hyps = append(o.Hyps, Subst(f, mid))
		}
		if o.Goal == TTrue && o.Result == "" {
			o.Result, o.Solver = "proved", "simplifier"
		}
	}
	var newAs []assumption
	for _, a := range ex.assumes[as0:] {
		newAs = append(newAs, assumption{Subst(a.t, mid), a.why}, assumption{Subst(a.t, final), a.why})
	}
	ex.assumes = ex.assumes[:as0]
	for _, a := range newAs {
		ex.assume(TTrue, a.t, a.why)
	}
	for _, f := range inv {
		ex.assume(TTrue, Subst(f, final), "loop invariant (proved)")
	}
	ex.substLoop(fr, lp, r, final, -1, -1)
	var out []edge
	for _, x := range exits {
		x.e.st = substState(x.e.st, final)
		x.e.cond = Subst(x.cond, final)
		if x.e.cond == TFalse {
			continue
		}
		out = append(out, x.e)
	}
	if len(out) == 1 {
		out[0].cond = TTrue
	} else if bound != nil && other != TFalse {
		// normal exit: K is the bound
		for i := range out {
			_ = i
		}
	}
	return out
}

// deletion describes a loop that walks a list with an index and removes elements in place: the elements kept so far
// are followed by those not looked at, and every iteration looks at one element of the original list.
type deletion struct {
	list, idx, orig, kept *Term
}

// at gives the list and the index after n iterations that kept f.
func (d *deletion) at(n, f *Term) map[*Term]*Term {
	return map[*Term]*Term{
		Select(SArr(d.list), d.idx): Select(SArr(d.orig), n),
		d.idx:                       SLen(f),
		d.list:                      SeqCat(f, Subslice(d.orig, n, SLen(d.orig))),
	}
}

// deletionLoop replaces the index and the list of such a loop by the list of elements kept:
//
//	i, L  ->  i, L[:i]+L[i+1:]   if p(L[i])
//	i, L  ->  i+1, L             otherwise
//
// from i = 0 is kept = the elements without p, with L = kept + original[k:] and i = len(kept) after k iterations.
func deletionLoop(cs []*comp, its []IterComp, kappa *Term) ([]*comp, []IterComp, *deletion) {
	for li, l := range its {
		if l.v.sort == nil || !l.v.sort.Slice || l.step.op != OIte {
			continue
		}
		for ii, x := range its {
			if x.v.sort != SInt || x.init != Int(0) {
				continue
			}
			p, a, b := l.step.args[0], l.step.args[1], l.step.args[2]
			if a == l.v {
				p, a, b = Not(p), b, a
			}
			if b != l.v || a != SeqCat(Subslice(l.v, Int(0), x.v), Subslice(l.v, Add(x.v, Int(1)), SLen(l.v))) {
				continue
			}
			if simpUnder(p, x.step) != x.v || simpUnder(Not(p), x.step) != Add(x.v, Int(1)) {
				continue
			}
			e := Select(SArr(l.v), x.v)
			y := Subst(p, map[*Term]*Term{e: Select(SArr(l.init), kappa)})
			if mentions(y, x.v) || mentions(y, l.v) {
				continue
			}
			f := FreshVar("a!kept", l.v.sort)
			c := &comp{key: "kept", init: EmptySlice(l.v.sort), v: f, step: Ite(y, f, Append(f, Select(SArr(l.init), kappa)))}
			var nc []*comp
			var ni []IterComp
			for i := range cs {
				if i != li && i != ii {
					nc, ni = append(nc, cs[i]), append(ni, its[i])
				}
			}
			return append(nc, c), append(ni, IterComp{c.v, c.init, c.step}), &deletion{l.v, x.v, l.init, f}
		}
	}
	return cs, its, nil
}

// filterFact: a list that starts empty and takes on the elements under some condition on the element has only such
// elements.
func filterFact(it IterComp, v, kappa *Term, comps map[string]*comp, prover func([]*Term, *Term) bool, hyps []*Term) *Term {
	if !v.sort.Slice || SLen(it.init) != Int(0) || it.step.op != OIte {
		return nil
	}
	c, a, b := it.step.args[0], it.step.args[1], it.step.args[2]
	if a == v {
		c, a, b = Not(c), b, a
	}
	if b != v || a.op != OAppend || a.args[0] != v {
		return nil
	}
	j := FreshVar("i!j!el", SInt)
	in := And(Le(Int(0), j), Lt(j, SLen(v)))
	if a.args[1].sort == SInt && prover != nil && c != TTrue && !mentions(c, v) && prover(append(append([]*Term{}, hyps...), c), Not(Eq(a.args[1], Int(0)))) {
		return Forall([]*Term{j}, Implies(in, Not(Eq(Select(SArr(v), j), Int(0)))))
	}
	if !mentions(a.args[1], kappa) {
		return nil
	}
	y := FreshVar("a!elem", a.args[1].sort)
	p := Subst(c, map[*Term]*Term{a.args[1]: y})
	if mentions(p, kappa) || mentions(p, v) || mentionsComps(p, comps) {
		return nil
	}
	return Forall([]*Term{j}, Implies(in, Subst(p, map[*Term]*Term{y: Select(SArr(v), j)})))
}

// simpUnder rewrites the alternatives of a term by what is known where they are taken.
func simpUnder(pc, t *Term) *Term {
	memo := map[[2]*Term]*Term{}
	budget := 20000
	var rec func(pc, t *Term) *Term
	rec = func(pc, t *Term) *Term {
		if pc == TTrue && t.op != OIte && t.op != OAnd && t.op != OOr && len(t.args) == 0 {
			return t
		}
		k := [2]*Term{pc, t}
		if r, ok := memo[k]; ok {
			return r
		}
		if budget--; budget < 0 {
			return t
		}
		r := t
		if t.sort == SBool && !t.bnd {
			if And(pc, t) == TFalse {
				r = TFalse
			} else if And(pc, Not(t)) == TFalse {
				r = TTrue
			}
		}
		if r == t && t.op == OIte && !t.args[0].bnd {
			c := rec(pc, t.args[0])
			switch {
			case c == TTrue:
				r = rec(pc, t.args[1])
			case c == TFalse:
				r = rec(pc, t.args[2])
			default:
				r = Ite(c, rec(And(pc, c), t.args[1]), rec(And(pc, Not(c)), t.args[2]))
			}
		} else if r == t && len(t.args) > 0 {
			as := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				as[i] = rec(pc, a)
				ch = ch || as[i] != a
			}
			if ch {
				r = Rebuild(t, as)
			}
		}
		memo[k] = r
		return r
	}
	for i := 0; i < 4; i++ {
		r := rec(pc, t)
		if r == t {
			break
		}
		t = r
	}
	return t
}

// assumeIn simplifies c knowing h.
func assumeIn(c, h *Term) *Term {
	n := Not(h)
	return Subst(c, map[*Term]*Term{h: TTrue, n: TFalse})
}

func sortedComps(m map[string]*comp) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func mentionsComps(t *Term, comps map[string]*comp) bool {
	for _, c := range comps {
		if mentions(t, c.v) {
			return true
		}
	}
	return false
}

func substState(s *State, m map[*Term]*Term) *State {
	n := newState()
	var ks []string
	var vs []*Term
	for k, v := range s.m {
		if !strings.HasPrefix(k, "ov|") {
			ks, vs = append(ks, k), append(vs, v)
		}
	}
	for i, v := range SubstAll(vs, m) {
		n.m[ks[i]] = v
	}
	for k, v := range s.m {
		if !strings.HasPrefix(k, "ov|") {
			continue
		}
		if strings.HasPrefix(k, "ov|") {
			var id int
			fmt.Sscanf(k[3:], "%d", &id)
			t := termByID(id)
			if nt := Subst(t, m); nt != t {
				n.m["ov|"+fmt.Sprint(nt.id)] = Subst(v, m)
				continue
			}
		}
		n.m[k] = Subst(v, m)
	}
	return n
}

func substAddr(a *Addr, m map[*Term]*Term) *Addr {
	if a == nil {
		return nil
	}
	n := *a
	if n.ref != nil {
		n.ref = Subst(n.ref, m)
	}
	if n.idx != nil {
		n.idx = Subst(n.idx, m)
	}
	n.base = substAddr(n.base, m)
	if n.sl != nil {
		v := substVal(*n.sl, m)
		n.sl = &v
	}
	return &n
}

func substVal(v Val, m map[*Term]*Term) Val {
	if v.T != nil {
		v.T = Subst(v.T, m)
	}
	v.A = substAddr(v.A, m)
	v.Pr = substAddr(v.Pr, m)
	if v.Tup != nil {
		t := make([]Val, len(v.Tup))
		for i := range t {
			t[i] = substVal(v.Tup[i], m)
		}
		v.Tup = t
	}
	if v.In != nil {
		w := substVal(*v.In, m)
		v.In = &w
	}
	if v.Clo != nil {
		c := &Closure{fn: v.Clo.fn, bound: v.Clo.bound}
		for _, f := range v.Clo.free {
			c.free = append(c.free, substVal(f, m))
		}
		v.Clo = c
	}
	if v.Rng != nil {
		r := *v.Rng
		r.m, r.dom, r.ord = Subst(r.m, m), Subst(r.dom, m), Subst(r.ord, m)
		v.Rng = &r
	}
	return v
}

// substLoop replaces loop variables in the registers set in the loop.
func (ex *Exec) substLoop(fr *Frame, lp *loop, r *region, m map[*Term]*Term, obl0, as0 int) {
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if rv, ok := fr.regs[v]; ok {
					fr.regs[v] = substVal(rv, m)
				}
			}
		}
	}
	if obl0 >= 0 {
		for _, o := range ex.obls[obl0:] {
			o.Goal = Subst(o.Goal, m)
			for j := range o.Hyps {
				o.Hyps[j] = Subst(o.Hyps[j], m)
			}
		}
		for i := as0; i < len(ex.assumes); i++ {
			ex.assumes[i].t = Subst(ex.assumes[i].t, m)
		}
	}
}

// obligeTerm records the termination obligation of a loop without a syntactic bound: some iteration exits.
func (ex *Exec) obligeTerm(fr *Frame, lp *loop, cond, k, pc *Term, its []IterComp) {
	if ex.spec > 0 {
		return
	}
	for _, m := range ex.termMeasures(cond, k, its) {
		if m {
			ex.oblige("term", "loop terminates", pc, TTrue)
			return
		}
	}
	if usesReflect(lp) {
		ex.assume(TTrue, TTrue, "assumed: chains of pointers are finite")
		return
	}
	ex.oblige("term", "loop terminates", pc, Exists([]*Term{k}, And(Le(Int(0), k), cond)))
}

func (ex *Exec) termMeasures(cond, k *Term, its []IterComp) []bool { return nil }

// loopInvariants proves simple candidate invariants (references stay non-nil, counters non-negative) by
// induction, and returns the proved ones over the component variables.
func (ex *Exec) loopInvariants(obl0 int, cs []*comp, its []IterComp, kappa, bound, pc, backCond *Term) []*Term {
	if ex.prover == nil || len(cs) == 0 {
		return nil
	}
	need := map[*Term]bool{}
	for _, o := range ex.obls[obl0:] {
		if o.Goal == TTrue {
			continue
		}
		for _, c := range cs {
			if mentions(o.Goal, c.v) {
				need[c.v] = true
			}
		}
	}
	var cand []*Term
	for _, c := range cs {
		if !need[c.v] && c.init.sort != SRValue {
			continue
		}
		if c.init.sort == SInt {
			isRef := false
			if c.phi != nil {
				switch c.phi.Type().Underlying().(type) {
				case *types.Pointer, *types.Map:
					isRef = true
				}
			} else {
				isRef = true
			}
			if isRef {
				cand = append(cand, Not(Eq(c.v, Int(0))))
			}
			cand = append(cand, Le(Int(0), c.v))
		}
		if c.init.sort == SAny {
			cand = append(cand, Not(Eq(c.v, AnyNil)))
		}
		if c.init.sort == SRValue {
			cand = append(cand, Not(Eq(Field(c.v, 0), AnyNil)))
		}
		if c.init.sort.Slice {
			cand = append(cand, Eq(SLen(c.v), SLen(c.init)))
		}
	}
	// preconditions of the calls in the body
	for _, o := range ex.obls[obl0:] {
		if o.Goal != TTrue && strings.HasPrefix(o.Name, "precondition of") {
			for _, c := range cs {
				if mentions(o.Goal, c.v) {
					cand = append(cand, o.Goal)
					break
				}
			}
		}
	}
	base := ex.hyps(pc)
	// what holds initially, stated of the current values
	for _, h := range base {
		if h.op == OAnd || h.op == OForall || h.op == OOr {
			m := map[*Term]*Term{}
			for _, c := range cs {
				if need[c.v] && c.init.op == OVar && mentions(h, c.init) {
					m[c.init] = c.v
				}
			}
			if len(m) > 0 {
				for _, f := range andParts(Subst(h, m)) {
					if hasQuant(f) {
						cand = append(cand, f)
					}
				}
			}
		}
	}
	// a candidate about the current iteration is claimed of every iteration
	for i, f := range cand {
		if kappa != nil && mentions(f, kappa) {
			k := FreshVar("i!k!inv", SInt)
			r := Le(Int(0), k)
			if bound != nil {
				r = And(r, Lt(k, bound))
			}
			cand[i] = Forall([]*Term{k}, Implies(r, Subst(f, map[*Term]*Term{kappa: k})))
		}
	}
	// base case
	var keep []*Term
	initM := map[*Term]*Term{}
	stepM := map[*Term]*Term{}
	for _, c := range cs {
		initM[c.v] = c.init
		stepM[c.v] = c.step
	}
	for _, f := range cand {
		if ex.prover(base, Subst(f, initM)) {
			keep = append(keep, f)
		}
	}
	for {
		var next []*Term
		hy := append(append([]*Term{}, base...), keep...)
		if bound != nil {
			hy = append(hy, Lt(kappa, bound))
		}
		if backCond != TTrue {
			hy = append(hy, backCond)
		}
		for _, f := range keep {
			if ex.prover(hy, Subst(f, stepM)) {
				next = append(next, f)
			}
		}
		if len(next) == len(keep) {
			break
		}
		keep = next
	}
	return keep
}

// eraseSalt shows that a loop over a map does not depend on the iteration order; the enumeration is then
// replaced by a canonical one.
func (ex *Exec) eraseSalt(its []IterComp, oneExit bool, kappa *Term) map[*Term]*Term {
	if !oneExit || ex.prover == nil {
		return nil
	}
	// find the enumeration indexed by kappa
	var ord *Term
	for _, c := range its {
		walkTerms(c.step, func(t *Term) {
			if t.op == OSelect && t.args[1] == kappa && t.args[0].op == OField && t.args[0].args[0].op == OApp && t.args[0].args[0].name == "mapord" {
				ord = t.args[0].args[0]
			}
		})
	}
	if ord == nil || ord.args[1].name == "0" {
		return nil
	}
	key := SAt(ord, kappa)
	k1, k2 := FreshVar("i!mk", key.sort), FreshVar("i!mk", key.sort)
	at := func(t, k *Term) *Term {
		r := Subst(t, map[*Term]*Term{key: k})
		return r
	}
	m12, m21 := map[*Term]*Term{}, map[*Term]*Term{}
	for i, c := range its {
		s1 := at(c.step, k1)
		if mentions(s1, kappa) {
			return nil
		}
		m12[c.v] = s1
		m21[c.v] = at(its[i].step, k2)
	}
	for _, c := range its {
		a := Subst(at(c.step, k2), m12)
		b := Subst(at(c.step, k1), m21)
		if a == b {
			continue
		}
		g := ExtEq(a, b)
		h := []*Term{Not(Eq(k1, k2)), Select(ord.args[0], k1), Select(ord.args[0], k2)}
		if !ex.prover(append(ex.hyps(TTrue), h...), g) {
			return nil
		}
	}
	return map[*Term]*Term{ord: App("mapord", ord.sort, ord.args[0], Str("0"))}
}

// ExtEq is equality, arrays compared extensionally.
func ExtEq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.sort.K == kArr {
		i := FreshVar("ext", a.sort.Key)
		return Forall([]*Term{i}, ExtEq(Select(a, i), Select(b, i)))
	}
	return Eq(a, b)
}

func walkTerms(t *Term, f func(*Term)) { walkAll([]*Term{t}, f) }

func walkAll(ts []*Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var w func(*Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.args {
			w(a)
		}
		for _, a := range t.bods {
			w(a)
		}
	}
	for _, t := range ts {
		w(t)
	}
}

func hasQuant(t *Term) bool {
	r := false
	walkTerms(t, func(x *Term) { r = r || x.op == OForall || x.op == OExists })
	return r
}

// usesReflect: the loop calls reflect (it follows pointers; how often depends on the type of a value).
func usesReflect(lp *loop) bool {
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "reflect" {
					return true
				}
			}
		}
	}
	return false
}

// peelLoop runs a loop round by round as long as it is decided whether there is another one.
func (ex *Exec) peelLoop(fr *Frame, lp *loop, st0 *State, inits map[*ssa.Phi]Val, pc *Term, depth int) (out []edge, ok bool) {
	obls, assumes, salt := len(ex.obls), len(ex.assumes), ex.saltN
	defer func() {
		if !ok {
			ex.obls, ex.assumes, ex.saltN = ex.obls[:obls], ex.assumes[:assumes], salt
		}
	}()
	for p, v := range inits {
		fr.regs[p] = v
	}
	r := &region{fr: fr, blocks: lp.blocks, header: lp.header, nodes: map[*ssa.BasicBlock]*node{}, repM: map[*ssa.BasicBlock]*ssa.BasicBlock{}}
	ex.runRegion(r, st0.clone(), pc)
	back := func(e edge) bool { return e.to == lp.header }
	again := r.reach(lp.header, back)
	var es []edge
	for _, n := range r.nodes {
		for _, e := range n.edges {
			if lp.blocks[e.to] && e.to != lp.header || back(e) {
				continue
			}
			c := r.reach(lp.header, func(o edge) bool {
				return o.from == e.from && o.to == e.to && o.idx == e.idx && o.cond == e.cond && o.st == e.st
			})
			if c != TFalse && !(pcImplies(pc, Not(c))) {
				e.cond = c
				es = append(es, e)
			}
		}
	}
	switch {
	case again == TFalse || pcImplies(pc, Not(again)):
		sort.Slice(es, func(i, j int) bool { return es[i].from.Index < es[j].from.Index })
		if len(es) == 1 {
			es[0].cond = TTrue
		}
		return es, true
	case len(es) == 0 && depth > 0:
		bst := ex.mergeStates(r, lp.header, back)
		next := map[*ssa.Phi]Val{}
		for p := range inits {
			p := p
			next[p] = ex.wrap(r.gate(lp.header, func(e edge) *Term {
				if !back(e) {
					return nil
				}
				return ex.term(e.st, ex.operand(fr, p.Edges[e.idx]))
			}), p.Type(), nil)
		}
		return ex.peelLoop(fr, lp, bst, next, And(pc, again), depth-1)
	}
	return nil, false
}

// typePhi: the variable p always holds the type of the reflected value in the variable returned.
func typePhi(p *ssa.Phi, phis []*ssa.Phi, inits map[*ssa.Phi]Val, init *Term, tm func(Val) *Term) *ssa.Phi {
	if ifaceName(p.Type()) != "reflect.Type" {
		return nil
	}
next:
	for _, d := range phis {
		if ifaceName(d.Type()) != "reflect.Value" || init != App("rtype", SAny, App("tagof", SInt, Field(tm(inits[d]), 0))) {
			continue
		}
		for i, e := range p.Edges {
			if !d.Block().Dominates(d.Block().Preds[i]) {
				continue // entry
			}
			c, ok := e.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "(reflect.Value).Type" || c.Call.Args[0] != d.Edges[i] {
				continue next
			}
		}
		return d
	}
	return nil
}
