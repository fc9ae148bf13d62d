package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------- translation ----------

type smtMode int

const (
	mAbstract smtMode = iota // strings uninterpreted
	mTheory                  // strings in the theory of strings
)

type smtGen struct {
	mode   smtMode
	sorts  map[*Sort]bool
	decls  map[string]string
	dOrder []string
	body   strings.Builder
	def    map[*Term]string
	lits   map[string]bool
	facts  []*Term
	seen   map[*Term]bool
	iters  map[*Term]bool
	firsts map[*Term]string
	itName map[string]string
	sbName map[string]string
	depth  map[*Term]int
	uses   map[*Term]int
	strict bool
}

func sym(s string) string {
	r := strings.NewReplacer("|", "!", "\\", "/", "\n", "_")
	return "|" + r.Replace(s) + "|"
}

func (g *smtGen) sort(s *Sort) string {
	switch s.K {
	case kBool:
		return "Bool"
	case kInt:
		return "Int"
	case kStr:
		if g.mode == mTheory {
			return "String"
		}
		g.sorts[s] = true
		return "Str"
	case kArr:
		return "(Array " + g.sort(s.Key) + " " + g.sort(s.Elem) + ")"
	}
	g.useSort(s)
	return sym(s.Name)
}

func (g *smtGen) useSort(s *Sort) {
	if g.sorts[s] {
		return
	}
	g.sorts[s] = true
	for _, f := range s.Fields {
		g.sort(f.S)
	}
}

func (g *smtGen) declare(name, d string) {
	if _, ok := g.decls[name]; !ok {
		g.decls[name] = d
		g.dOrder = append(g.dOrder, name)
	}
}

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			b.WriteString(`""`)
		case c < 32 || c > 126 || c == '\\':
			fmt.Fprintf(&b, "\\u{%x}", c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (g *smtGen) fun(name string, ret *Sort, args []*Term) string {
	var ss []string
	for _, a := range args {
		ss = append(ss, g.sort(a.sort))
	}
	n := sym(name)
	// overloads by argument sorts
	key := name + "/" + strings.Join(ss, ",") + "/" + ret.Name
	if prev, ok := g.itName["fun:"+key]; ok {
		n = prev
	} else {
		if _, used := g.decls[n]; used {
			n = sym(fmt.Sprintf("%s~%d", name, len(g.decls)))
		}
		g.itName["fun:"+key] = n
		g.declare(n, fmt.Sprintf("(declare-fun %s (%s) %s)", n, strings.Join(ss, " "), g.sort(ret)))
	}
	return n
}

func (g *smtGen) app(name string, ret *Sort, args ...*Term) string {
	n := g.fun(name, ret, args)
	if len(args) == 0 {
		return n
	}
	return "(" + n + g.list(args) + ")"
}

func (g *smtGen) list(args []*Term) string {
	var b strings.Builder
	for _, a := range args {
		b.WriteByte(' ')
		b.WriteString(g.t(a))
	}
	return b.String()
}

// t prints a term; ground composite terms used more than once become definitions.
func (g *smtGen) t(t *Term) string {
	if s, ok := g.def[t]; ok {
		return s
	}
	s := g.t1(t)
	if !t.bnd && len(t.args) > 0 && g.uses[t] > 1 && len(s) > 12 {
		n := fmt.Sprintf("d%d", t.id)
		fmt.Fprintf(&g.body, "(define-fun %s () %s %s)\n", n, g.sort(t.sort), s)
		g.def[t] = n
		return n
	}
	if !t.bnd {
		g.def[t] = s
	}
	return s
}

func num(n int64) string {
	if n < 0 {
		return fmt.Sprintf("(- %d)", -n)
	}
	return fmt.Sprint(n)
}

func (g *smtGen) t1(t *Term) string {
	op := func(o string) string { return "(" + o + g.list(t.args) + ")" }
	switch t.op {
	case OVar:
		n := sym(t.name)
		g.declare(n, fmt.Sprintf("(declare-fun %s () %s)", n, g.sort(t.sort)))
		return n
	case OBound:
		return sym(t.name)
	case OInt:
		return num(t.n)
	case OStr:
		if g.mode == mTheory {
			return smtStr(t.name)
		}
		n := sym(fmt.Sprintf("lit%d", t.id))
		g.sort(SStr)
		g.declare(n, fmt.Sprintf("(declare-fun %s () Str) ; %q", n, trunc(t.name)))
		g.lits[n] = true
		return n
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OApp:
		switch t.name {
		case "mul":
			return op("*")
		case "byteat":
			if g.mode == mTheory {
				return "(str.to_code (str.at " + g.t(t.args[0]) + " " + g.t(t.args[1]) + "))"
			}
		}
		return g.app(t.name, t.sort, t.args...)
	case ONot:
		return op("not")
	case OAnd:
		return op("and")
	case OOr:
		return op("or")
	case OIte:
		return op("ite")
	case OEq:
		return op("=")
	case OAdd:
		return op("+")
	case OMulC:
		return "(* " + num(t.n) + " " + g.t(t.args[0]) + ")"
	case OLe0:
		return "(<= 0 " + g.t(t.args[0]) + ")"
	case OSelect:
		return op("select")
	case OStore:
		return op("store")
	case OConstArr:
		return "((as const " + g.sort(t.sort) + ") " + g.t(t.args[0]) + ")"
	case OMk:
		g.useSort(t.sort)
		if len(t.args) == 0 {
			return sym("mk_" + t.sort.Name)
		}
		return op(sym("mk_" + t.sort.Name))
	case OField:
		g.useSort(t.args[0].sort)
		return op(sym(t.args[0].sort.Name + "." + t.name))
	case OAppend:
		g.useSort(t.sort)
		a, n := g.t(SArr(t.args[0])), g.t(SLen(t.args[0]))
		return fmt.Sprintf("(%s (store %s %s %s) (+ 1 %s))", sym("mk_"+t.sort.Name), a, n, g.t(t.args[1]), n)
	case OSeqCat:
		return g.app("seqcat_"+t.sort.Name, t.sort, t.args...)
	case OConcat:
		if g.mode == mTheory {
			return op("str.++")
		}
		r := t.args[len(t.args)-1]
		s := g.t(r)
		f := g.fun("strcat", SStr, []*Term{r, r})
		for i := len(t.args) - 2; i >= 0; i-- {
			s = "(" + f + " " + g.t(t.args[i]) + " " + s + ")"
		}
		return s
	case OStrLen:
		if g.mode == mTheory {
			return op("str.len")
		}
		return g.app("strlen", SInt, t.args...)
	case OSubstr:
		if g.mode == mTheory {
			return op("str.substr")
		}
		return g.app("substr", SStr, t.args...)
	case OIndexOf:
		if g.mode == mTheory {
			return "(str.indexof" + g.list(t.args) + " 0)"
		}
		return g.app("indexof", SInt, t.args...)
	case OPrefixOf:
		if g.mode == mTheory {
			return op("str.prefixof")
		}
		return g.app("prefixof", SBool, t.args...)
	case OSuffixOf:
		if g.mode == mTheory {
			return op("str.suffixof")
		}
		return g.app("suffixof", SBool, t.args...)
	case OContains:
		if g.mode == mTheory {
			return op("str.contains")
		}
		return g.app("contains", SBool, t.args...)
	case OReplaceAll:
		if g.mode == mTheory {
			return op("str.replace_all")
		}
		return g.app("replaceall", SStr, t.args...)
	case OStrLt:
		if g.mode == mTheory {
			return op("str.<")
		}
		return g.app("strlt", SBool, t.args...)
	case OMax0:
		a := g.t(t.args[0])
		return "(ite (<= 0 " + a + ") " + a + " 0)"
	case OForall, OExists:
		q := "forall"
		if t.op == OExists {
			q = "exists"
		}
		var b strings.Builder
		b.WriteString("(" + q + " (")
		for _, v := range t.bvs {
			b.WriteString("(" + sym(v.name) + " " + g.sort(v.sort) + ")")
		}
		b.WriteString(") " + g.t(t.bods[0]) + ")")
		return b.String()
	case OIter, OFirst, OSortBy:
		// lambda-lifted uninterpreted function of the first argument and the free bound variables
		var fv []*Term
		if t.op == OFirst {
			fv = freeBound(t)
		}
		var first []*Term
		k := fmt.Sprintf("%d", t.op)
		rest := t.args
		if t.op == OIter || t.op == OSortBy {
			first = t.args[:1]
			rest = t.args[1:]
			fv = nil
			set := map[*Term]bool{}
			for _, w := range t.bvs {
				set[w] = true
			}
			probe := append(append([]*Term{}, rest...), t.bods...)
			for _, p := range probe {
				for _, v := range freeBound(p) {
					if !set[v] {
						set[v] = true
						fv = append(fv, v)
					}
				}
			}
		}
		for _, a := range rest {
			k += fmt.Sprintf(",%d", a.id)
		}
		for _, a := range t.bods {
			k += fmt.Sprintf(";%d", a.id)
		}
		n, ok := g.itName[k]
		if !ok {
			n = fmt.Sprintf("%s%d", opNames[t.op], len(g.itName))
			g.itName[k] = n
		}
		return g.app(n, t.sort, append(append([]*Term{}, first...), fv...)...)
	}
	panic("smt: op")
}

// collect gathers facts about the ground terms reachable from t.
func (g *smtGen) collect(t *Term, depth int, sub func(*Term)) {
	if g.seen[t] {
		g.uses[t]++
		return
	}
	g.seen[t] = true
	g.uses[t]++
	for _, a := range t.args {
		g.collect(a, depth, sub)
	}
	for _, a := range t.bods {
		if t.op == OForall || t.op == OExists {
			g.collect(a, depth, sub)
		}
	}
	if t.bnd {
		return
	}
	add := func(f *Term) {
		if f != TTrue {
			sub(f)
		}
	}
	if sp, ok := ptrSpace[t]; ok && t.sort == SInt {
		a := Var("i!alloc!"+sp, SInt)
		add(mk(OLe0, "", 0, SBool, t))
		add(Le(t, a))
	}
	raw := func(x *Term) { // nonneg facts the simplifier would erase
		add(mk(OLe0, "", 0, SBool, x))
	}
	switch t.op {
	case OVar:
		if t.sort == SInt && nonneg(t) {
			raw(t)
		}
	case OStrLen, OMax0:
		if g.mode == mAbstract {
			raw(t)
		}
	case OStr:
		if g.mode == mAbstract {
			add(mk(OEq, "", 0, SBool, mk(OStrLen, "", 0, SInt, t), Int(int64(len(t.name)))))
		}
	case OField:
		if t.args[0].sort.Slice && t.n == 1 {
			raw(t)
		}
	case OApp:
		switch {
		case t.name == "card" || t.name == "seqlen":
			raw(t)
		case strings.HasPrefix(t.name, "box_"):
			add(mk(OEq, "", 0, SBool, mk(OApp, "unbox_"+t.name[4:], 0, t.args[0].sort, t), t.args[0]))
			add(mk(OEq, "", 0, SBool, mk(OApp, "tagof", 0, SInt, t), Int(typeTag(t.name[4:]))))
			add(mk(OEq, "", 0, SBool, mk(OApp, "tagof", 0, SInt, AnyNil), Int(0)))
		case t.name == "errorf":
			add(mk(OEq, "", 0, SBool, mk(OApp, "tagof", 0, SInt, t), Int(typeTag("$errorf"))))
			add(mk(OEq, "", 0, SBool, mk(OApp, "tagof", 0, SInt, AnyNil), Int(0)))
		case strings.HasPrefix(t.name, "unbox_"):
			add(Implies(Eq(App("tagof", SInt, t.args[0]), Int(typeTag(t.name[6:]))), mk(OEq, "", 0, SBool, t.args[0], mk(OApp, "box_"+t.name[6:], 0, SAny, t))))
		case t.name == "rtype":
			add(mk(OEq, "", 0, SBool, mk(OApp, "rtypetag", 0, SInt, t), t.args[0]))
			add(Not(mk(OEq, "", 0, SBool, t, AnyNil)))
		case t.name == "kindof":
			if isApp(t.args[0], "tagof") { // no value has an interface type
				add(Not(mk(OEq, "", 0, SBool, t, Int(20))))
			}
			if t.args[0].op != OInt {
				add(Implies(Eq(t.args[0], Int(0)), mk(OEq, "", 0, SBool, t, Int(0))))
			}
			for i := range typeTagNames {
				if k := kindOfTag(int64(i)); k >= 0 {
					add(mk(OEq, "", 0, SBool, mk(OApp, "kindof", 0, SInt, Int(int64(i))), Int(k)))
				}
			}
		case t.name == "tagof":
			raw(t)
			add(Implies(Eq(t, Int(0)), Eq(t.args[0], AnyNil)))
			add(mk(OEq, "", 0, SBool, mk(OApp, "tagof", 0, SInt, AnyNil), Int(0)))
		case t.name == "atoi" && g.mode == mTheory:
			// decimal notation without sign
		}
	case OSelect:
		if t.args[0].op == OField && t.args[0].args[0].op == OApp && t.args[0].args[0].name == "mapord" {
			ord := t.args[0].args[0]
			i := t.args[1]
			add(Implies(And(Le(Int(0), i), Lt(i, SLen(ord))), Select(ord.args[0], t)))
		}
		if a := t.args[0]; a.op == OVar && strings.HasPrefix(a.name, "i!MD|") { // the nil map is empty
			add(Implies(Eq(t.args[1], Int(0)), mk(OEq, "", 0, SBool, App("card", SInt, t), Int(0))))
			add(Implies(Eq(t.args[1], Int(0)), mk(OEq, "", 0, SBool, t, ConstArr(t.sort, TFalse))))
		}
		if t.args[0].op == OField && t.args[0].n == 0 && t.args[0].args[0].op == OSortBy {
			s := t.args[0].args[0]
			i := t.args[1]
			j := App("sortidx", SInt, s, i)
			n := SLen(s.args[0])
			add(Implies(And(Le(Int(0), i), Lt(i, n)), And(Le(Int(0), j), Lt(j, n), Eq(t, elemAt(s.args[0], j)))))
		}
	case OFirst:
		raw(t)
		if len(t.args) == 1 {
			add(mk(OLe0, "", 0, SBool, Sub(Max0(t.args[0]), t)))
			add(Or(Not(mk(OLe0, "", 0, SBool, Add(t.args[0], Neg(t), Int(-1)))), OpenBinder(t, []*Term{t})[0]))
		} else {
			add(OpenBinder(t, []*Term{t})[0])
		}
		j := FreshVar("i!k!fj", SInt)
		add(Forall([]*Term{j}, Implies(Lt(j, t), Not(OpenBinder(t, []*Term{j})[0]))))
	case OIter:
		if depth < 2 && len(t.bvs) <= 24 {
			n := t.args[0]
			comps, k := iterOpen(t)
			m := map[*Term]*Term{k: Sub(n, Int(1))}
			for i, c := range comps {
				m[c.v] = MkIter(comps, k, i, Sub(n, Int(1)))
			}
			step := Subst(comps[0].step, m)
			pos := Lt(Int(0), n)
			f1 := Or(pos, mk(OEq, "", 0, SBool, t, comps[0].init))
			add(f1)
			g.depth[t] = depth
			add(Or(Not(pos), mk(OEq, "", 0, SBool, t, step)))
		}
	}
}

func buildQuery(hyps []*Term, goal *Term, mode smtMode) string {
	return buildQuery1(hyps, goal, mode, false)
}

// buildQuery1: with noGoal the facts about the goal's terms are kept but its negation is not asserted.
func buildQuery1(hyps []*Term, goal *Term, mode smtMode, noGoal bool) string {
	g := &smtGen{mode: mode, sorts: map[*Sort]bool{}, decls: map[string]string{}, def: map[*Term]string{}, lits: map[string]bool{},
		seen: map[*Term]bool{}, firsts: map[*Term]string{}, itName: map[string]string{}, depth: map[*Term]int{}, uses: map[*Term]int{}}
	as := append([]*Term{}, hyps...)
	as = append(as, Not(goal))
	var work []struct {
		t *Term
		d int
	}
	for _, a := range as {
		work = append(work, struct {
			t *Term
			d int
		}{a, 0})
	}
	var all []*Term
	dedup := map[*Term]bool{}
	for len(work) > 0 && len(all) < 3000 {
		w := work[0]
		work = work[1:]
		if dedup[w.t] {
			continue
		}
		dedup[w.t] = true
		all = append(all, w.t)
		if w.d > 3 {
			g.collect(w.t, 99, func(*Term) {})
			continue
		}
		g.collect(w.t, w.d, func(f *Term) {
			work = append(work, struct {
				t *Term
				d int
			}{f, w.d + 1})
		})
	}
	for i, a := range all {
		s := g.t(a)
		if noGoal && i < len(as) && a == as[len(as)-1] {
			continue
		}
		fmt.Fprintf(&g.body, "(assert %s)\n", s)
	}
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	var ss []*Sort
	for s := range g.sorts {
		ss = append(ss, s)
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i].ord < ss[j].ord })
	for _, s := range ss {
		switch {
		case s.K == kStr:
			b.WriteString("(declare-sort Str 0)\n")
		case s.K == kDT:
			fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((%s", sym(s.Name), sym("mk_"+s.Name))
			for _, f := range s.Fields {
				fmt.Fprintf(&b, " (%s %s)", sym(s.Name+"."+f.Name), g.sort(f.S))
			}
			b.WriteString("))))\n")
		default:
			fmt.Fprintf(&b, "(declare-sort %s 0)\n", sym(s.Name))
		}
	}
	for _, n := range g.dOrder {
		b.WriteString(g.decls[n] + "\n")
	}
	if len(g.lits) > 1 {
		var ls []string
		for l := range g.lits {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		b.WriteString("(assert (distinct " + strings.Join(ls, " ") + "))\n")
	}
	b.WriteString(g.body.String())
	b.WriteString("(check-sat)\n")
	return b.String()
}

// ---------- solvers ----------

type solver struct {
	name string
	cmd  []string
}

var solvers = map[string]solver{
	"z3-new": {"z3-new", []string{"z3-new", "-in", "-T:%d"}},
	"z3":     {"z3", []string{"z3", "-in", "-T:%d"}},
	"cvc5":   {"cvc5", []string{"cvc5", "--lang=smt2", "--strings-exp", "--tlimit=%d000", "-"}},
}

var solverMs int64
var solverCalls int64

var solverSem = make(chan struct{}, 8)

// solverDeadline bounds the solver time of a whole check.
var solverDeadline time.Time

// firstFailure is when the first obligation failed for good; the others then get a little more time only, as the
// check fails anyway.
var firstFailure atomic.Int64

func afterFailure() bool {
	t := firstFailure.Load()
	return t != 0 && !thorough && !solverDeadline.IsZero() && time.Since(time.Unix(0, t)) > 60*time.Second
}

func runSolver(ctx context.Context, s solver, q string, secs int) string {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if ctx.Err() != nil {
		return "cancelled"
	}
	if !solverDeadline.IsZero() && time.Now().After(solverDeadline) || afterFailure() {
		return "time budget of the check exhausted"
	}
	t0 := time.Now()
	args := append([]string{}, s.cmd[1:]...)
	for i := range args {
		if strings.Contains(args[i], "%d") {
			args[i] = fmt.Sprintf(args[i], secs)
		}
	}
	c, cancel := context.WithTimeout(ctx, time.Duration(secs+2)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(c, s.cmd[0], args...)
	cmd.Stdin = strings.NewReader(q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	atomic.AddInt64(&solverMs, time.Since(t0).Milliseconds())
	atomic.AddInt64(&solverCalls, 1)
	if d := os.Getenv("GV_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/%d-%s.smt2", d, atomic.LoadInt64(&solverCalls), s.name), []byte(q+"\n; "+out.String()), 0o644)
	}
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		switch {
		case l == "unsat" || l == "sat" || l == "unknown" || l == "timeout":
			return l
		case strings.HasPrefix(l, "(error"):
			if os.Getenv("GV_SMTERR") != "" {
				fmt.Fprintln(os.Stderr, s.name, l)
				os.WriteFile("/tmp/smterr.smt2", []byte(q), 0o644)
			}
			return "error: " + l
		}
	}
	return "timeout"
}

type query struct {
	text string
	s    solver
	secs int
	tag  string
}

// race runs the queries concurrently; the first unsat wins.
func race(qs []query) (ok bool, by string, log []string) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type res struct{ r, tag string }
	ch := make(chan res, len(qs))
	for _, q := range qs {
		go func(q query) { ch <- res{runSolver(ctx, q.s, q.text, q.secs), q.tag} }(q)
	}
	for range qs {
		r := <-ch
		log = append(log, r.tag+": "+r.r)
		if r.r == "unsat" {
			return true, r.tag, log
		}
	}
	return false, "", log
}

func usesStrings(ts []*Term) bool {
	found := false
	for _, t := range ts {
		walkTerms(t, func(x *Term) {
			switch x.op {
			case OConcat, OSubstr, OIndexOf, OPrefixOf, OSuffixOf, OContains, OReplaceAll, OStrLt, OStrLen:
				found = true
			}
		})
	}
	return found
}

type stage struct {
	qs []query
}

// skeleton keeps the propositional structure, equalities, conditional values and linear arithmetic; every other
// term is an arbitrary value, so what follows from the skeleton follows from the query.
func skeleton(hyps []*Term, goal *Term) string {
	memo := map[*Term]*Term{}
	var sk func(t *Term) *Term
	sk = func(t *Term) *Term {
		if len(t.args) == 0 && t.op != OForall && t.op != OExists && t.op != OFirst && t.op != OIter {
			return t
		}
		if r := memo[t]; r != nil {
			return r
		}
		var r *Term
		switch t.op {
		case ONot, OAnd, OOr, OIte, OEq, OLe0, OAdd, OStore, OConstArr:
			m := map[*Term]*Term{}
			for _, a := range t.args {
				if b := sk(a); b != a {
					m[a] = b
				}
			}
			r = Subst(t, m)
		default:
			r = Var(fmt.Sprintf("sk!%d", len(memo)), t.sort)
		}
		memo[t] = r
		return r
	}
	var hs []*Term
	for _, h := range hyps {
		hs = append(hs, sk(h))
	}
	return buildQuery(hs, sk(goal), mAbstract)
}

func stagesFor(hyps []*Term, goal *Term, quick bool) []stage {
	qa := buildQuery(hyps, goal, mAbstract)
	st := []stage{{[]query{{qa, solvers["z3-new"], 4, "z3-new/abstract"}}}}
	if len(hyps) > 8 {
		st[0].qs = append(st[0].qs, query{skeleton(hyps, goal), solvers["z3-new"], 4, "z3-new/skeleton"})
	}
	str := usesStrings(append(append([]*Term{}, hyps...), goal))
	if str {
		qt := buildQuery(hyps, goal, mTheory)
		sec := 12
		if quick {
			sec = 4
		}
		st = append(st, stage{[]query{{qt, solvers["cvc5"], sec, "cvc5/strings"}, {qt, solvers["z3-new"], sec, "z3-new/strings"}, {qt, solvers["z3"], sec, "z3/strings"}}})
	}
	if !quick {
		st = append(st, stage{[]query{{qa, solvers["cvc5"], 10, "cvc5/abstract"}, {qa, solvers["z3"], 10, "z3/abstract"}, {qa, solvers["z3-new"], 20, "z3-new/abstract"}}})
	}
	return st
}

func runStages(st []stage) (bool, string, []string) {
	var log []string
	for _, s := range st {
		ok, by, l := race(s.qs)
		log = append(log, l...)
		if ok {
			return true, by, log
		}
	}
	return false, "", log
}

// proveNow is the synchronous prover used for side conditions during execution.
var proveMemo = map[string]bool{}

func proveNow(hyps []*Term, goal *Term) bool {
	if goal == TTrue {
		return true
	}
	k := fmt.Sprint(goal.id)
	for _, h := range hyps {
		if h == goal {
			return true
		}
		k += fmt.Sprintf(",%d", h.id)
	}
	if r, ok := proveMemo[k]; ok {
		return r
	}
	ok := true
	for _, sg := range openGoal(hyps, goal) {
		if ok {
			ok, _, _ = race([]query{{buildQuery(sg.h, sg.g, mAbstract), solvers["z3-new"], 4, "z3-new"}})
		}
	}
	proveMemo[k] = ok
	return ok
}

// consistent reports false when the hypotheses of an obligation, together with the facts the encoding adds
// for its terms, are contradictory: the proof would be vacuous.
func consistent(o *Obl) func() bool {
	q := buildQuery1(o.Hyps, o.Goal, mAbstract, true)
	return func() bool {
		ok, _, _ := race([]query{{q, solvers["z3-new"], 2, "z3-new/vacuity"}})
		return !ok
	}
}

// ---------- discharging obligations ----------

// splitGoal skolemises and splits a goal into subgoals with hypotheses.
// stringCases splits a small obligation on how its string variables decompose: a variable starting with a literal
// is that literal and a rest; one containing a character is two parts around its first occurrence.
func stringCases(h []*Term, g *Term, depth int) []sub {
	if depth > 6 {
		return []sub{{h, g}}
	}
	n := 0
	var pre, has *Term
	seen := map[*Term]bool{}
	known := map[*Term]*Term{}
	for _, t := range h {
		if t.op == ONot && t.args[0].op == OPrefixOf {
			known[t.args[0]] = TFalse
			seen[t.args[0]] = true
		}
	}
	g = Subst(g, known)
	for _, t := range append(append([]*Term{}, h...), g) {
		walkTerms(t, func(x *Term) {
			if seen[x] {
				return
			}
			seen[x] = true
			n++
			switch {
			case x.op == OPrefixOf && x.args[0].op == OStr && x.args[1].op == OVar && pre == nil:
				pre = x
			case x.op == OContains && x.args[1].op == OStr && len(x.args[1].name) == 1 && x.args[0].op == OVar && has == nil:
				has = x
			case x.op == OForall || x.op == OExists || x.op == OIter || x.op == OFirst:
				n = 10000
			}
		})
	}
	if n > 600 {
		return []sub{{h, g}}
	}
	with := func(m map[*Term]*Term) []sub {
		var hh []*Term
		for _, t := range h {
			t = Subst(t, m)
			if t == TFalse {
				return nil
			}
			hh = append(hh, t)
		}
		return stringCases(hh, Subst(g, m), depth+1)
	}
	negPre := func() []sub {
		return stringCases(append(append([]*Term{}, h...), Not(pre)), g, depth+1)
	}
	switch {
	case pre != nil:
		x := pre.args[1]
		return append(with(map[*Term]*Term{x: Concat(pre.args[0], lackVar(lacks(x)))}), negPre()...)
	case has != nil:
		x, c := has.args[0], has.args[1]
		r := with(map[*Term]*Term{x: Concat(lackVar(lacks(x)+c.name), c, lackVar(lacks(x)))})
		return append(r, with(map[*Term]*Term{x: lackVar(lacks(x) + c.name)})...)
	}
	return []sub{{h, g}}
}

// subgoals are the parts of an obligation that are discharged one by one.
func subgoals(h []*Term, g *Term) (out []sub) {
	for _, c := range stringCases(h, g, 0) {
		out = append(out, splitGoal(c.h, knowing(c.h, c.g))...)
	}
	return
}

// knowing replaces the predicates in g that a hypothesis states outright.
func knowing(h []*Term, g *Term) *Term {
	m := map[*Term]*Term{}
	for _, t := range h {
		for _, a := range andParts(t) {
			if a.op == OApp && a.sort == SBool {
				m[a] = TTrue
			} else if a.op == ONot && a.args[0].op == OApp {
				m[a.args[0]] = TFalse
			}
		}
	}
	if len(m) == 0 {
		return g
	}
	hit := false
	walkTerms(g, func(x *Term) { hit = hit || m[x] != nil })
	if !hit {
		return g
	}
	return Subst(g, m)
}

func lackVar(cs string) *Term {
	if cs == "" {
		return FreshVar("str", SStr)
	}
	return FreshVar("str!lacks{"+cs+"}", SStr)
}

// openGoal fixes the universally quantified variables of a goal and assumes the antecedents below them.
func openGoal(h []*Term, g *Term) (out []sub) {
	switch g.op {
	case OTrue:
		return nil
	case OAnd:
		for _, a := range g.args {
			out = append(out, openGoal(h, a)...)
		}
		return
	case OForall:
		var fr []*Term
		for _, v := range g.bvs {
			fr = append(fr, FreshVar("sk", v.sort))
		}
		return openGoal(h, OpenBinder(g, fr)[0])
	case OOr:
		if o := openOr(g); o != g {
			return openGoal(h, o)
		}
	}
	return []sub{{h, g}}
}

// openOr fixes the variables of the universal disjuncts.
func openOr(g *Term) *Term {
	hit := false
	var as []*Term
	for _, a := range g.args {
		if a.op == OForall {
			var fr []*Term
			for _, v := range a.bvs {
				fr = append(fr, FreshVar("sk", v.sort))
			}
			a, hit = OpenBinder(a, fr)[0], true
		}
		as = append(as, a)
	}
	if !hit {
		return g
	}
	return Or(as...)
}

func splitGoal(h []*Term, g *Term) (out []sub) {
	switch g.op {
	case OTrue:
		return nil
	case OAnd:
		for _, a := range g.args {
			out = append(out, splitGoal(h, a)...)
		}
		return
	case OForall:
		var fr []*Term
		for _, v := range g.bvs {
			fr = append(fr, FreshVar("sk", v.sort))
		}
		return splitGoal(h, OpenBinder(g, fr)[0])
	case OOr:
		if o := openOr(g); o != g {
			return splitGoal(h, o)
		}
	case OEq:
		a, b := g.args[0], g.args[1]
		if a.sort.K == kDT && !a.sort.Slice {
			for i := range a.sort.Fields {
				out = append(out, splitGoal(h, Eq(Field(a, i), Field(b, i)))...)
			}
			return
		}
		if a.sort.K == kBool {
			// iff
			if g2 := induct(h, g); g2 != g {
				return splitGoal(h, g2)
			}
			out = append(out, splitGoal(append(append([]*Term{}, h...), a), b)...)
			out = append(out, splitGoal(append(append([]*Term{}, h...), b), a)...)
			return
		}
		if a.op == OStore && b.op == OStore && a.args[0] == b.args[0] && a.args[1] == b.args[1] && a.args[2].op == OConcat && b.args[2].op == OConcat {
			return splitGoal(h, Eq(a.args[2], b.args[2]))
		}
		if ss := splitCases(h, g); ss != nil {
			return ss
		}
		if ps := alignParts(a, b); len(ps) > 1 {
			for _, p := range ps {
				out = append(out, splitGoal(h, p)...)
			}
			return
		}
	}
	return []sub{{h, g}}
}

// alignParts matches the parts of two texts: equations whose conjunction implies that the texts are equal. Parts the
// texts have in common delimit the others, which have to be as many on either side.
func alignParts(a, b *Term) []*Term {
	if a.op != OConcat || b.op != OConcat {
		return nil
	}
	x, y := a.args, b.args
	// longest common subsequence
	l := make([][]int, len(x)+1)
	for i := range l {
		l[i] = make([]int, len(y)+1)
	}
	for i := len(x) - 1; i >= 0; i-- {
		for j := len(y) - 1; j >= 0; j-- {
			if l[i][j] = max(l[i+1][j], l[i][j+1]); x[i] == y[j] {
				l[i][j] = l[i+1][j+1] + 1
			}
		}
	}
	var out []*Term
	i, j := 0, 0
	for i < len(x) || j < len(y) {
		i0, j0 := i, j
		for i < len(x) && j < len(y) && x[i] != y[j] {
			if l[i+1][j] >= l[i][j+1] {
				i++
			} else {
				j++
			}
		}
		if i >= len(x) || j >= len(y) {
			i, j = len(x), len(y)
		}
		switch {
		case i-i0 != j-j0:
			if i == i0 || j == j0 {
				return nil
			}
			out = append(out, Eq(Concat(x[i0:i]...), Concat(y[j0:j]...)))
		default:
			for k := 0; k < i-i0; k++ {
				out = append(out, Eq(x[i0+k], y[j0+k]))
			}
		}
		if i < len(x) && j < len(y) {
			i, j = i+1, j+1
		}
	}
	return out
}

// underHyps replaces the conditions of a term's alternatives that the hypotheses decide.
func underHyps(h []*Term, t *Term) *Term {
	pc := And(h...)
	m := map[*Term]*Term{}
	seen := map[*Term]bool{}
	walkTerms(t, func(x *Term) {
		if x.op != OIte || seen[x.args[0]] || x.args[0].bnd {
			return
		}
		c := x.args[0]
		seen[c] = true
		if pcImplies(pc, c) {
			m[c] = TTrue
		} else if pcImplies(pc, Not(c)) {
			m[c] = TFalse
		}
	})
	if len(m) == 0 {
		return t
	}
	return Subst(t, m)
}

// shareHyps does the work of underHyps on the large goals of obligations with the same hypotheses at once.
func shareHyps(obls []*Obl) {
	groups := map[string][]*Obl{}
	for _, o := range obls {
		if o.Result != "" || o.Goal.size < 1000000 {
			continue
		}
		var b strings.Builder
		for _, h := range o.Hyps {
			fmt.Fprintf(&b, "%d ", h.id)
		}
		groups[b.String()] = append(groups[b.String()], o)
	}
	for _, os := range groups {
		if len(os) < 2 {
			continue
		}
		pc := And(os[0].Hyps...)
		m := map[*Term]*Term{}
		var goals []*Term
		for _, o := range os {
			goals = append(goals, o.Goal)
		}
		walkAll(goals, func(x *Term) {
			if x.op != OIte || x.args[0].bnd {
				return
			}
			c := x.args[0]
			if m[c] != nil {
				return
			}
			if pcImplies(pc, c) {
				m[c] = TTrue
			} else if pcImplies(pc, Not(c)) {
				m[c] = TFalse
			}
		})
		if len(m) == 0 {
			continue
		}
		for i, g := range SubstAll(goals, m) {
			os[i].Goal = g
		}
	}
}

// spineCond finds the condition of an alternative in the outer structure of a term.
func spineCond(t *Term, depth int) *Term {
	if depth > 12 {
		return nil
	}
	switch t.op {
	case OIte:
		if !t.args[0].bnd {
			return t.args[0]
		}
	case OStore:
		if c := spineCond(t.args[0], depth+1); c != nil {
			return c
		}
		return spineCond(t.args[2], depth+1)
	case OConcat:
		for _, a := range t.args {
			if c := spineCond(a, depth+1); c != nil {
				return c
			}
		}
	}
	if t.sort.K == kDT {
		for _, a := range t.args {
			if c := spineCond(a, depth+1); c != nil {
				return c
			}
		}
	}
	return nil
}

// splitCases proves an equation separately in each case of the alternatives its sides are made of; nil when
// that does not close every case but a few.
func splitCases(h []*Term, g *Term) []sub {
	g0 := g
	g = underHyps(h, g)
	if g.op == OEq && spineCond(g.args[0], 0) == nil && spineCond(g.args[1], 0) == nil {
		if g != g0 {
			return []sub{{h, g}}
		}
		return nil
	}
	if g.op == OEq {
		g = induct(h, g)
	}
	var open []sub
	budget := 64
	var rec func(h []*Term, g *Term, depth int) bool
	rec = func(h []*Term, g *Term, depth int) bool {
		budget--
		if budget < 0 {
			return false
		}
		if g == TTrue {
			return true
		}
		if g.op != OEq || depth > 8 {
			open = append(open, sub{h, g})
			return true
		}
		c := spineCond(g.args[0], 0)
		if c == nil {
			c = spineCond(g.args[1], 0)
		}
		if c == nil {
			open = append(open, sub{h, g})
			return true
		}
		for _, v := range []bool{true, false} {
			lit := c
			if !v {
				lit = Not(c)
			}
			hh := append(append([]*Term{}, h...), lit)
			g2 := Subst(g, map[*Term]*Term{c: Bool(v)})
			if !rec(hh, underHyps(hh, g2), depth+1) {
				return false
			}
		}
		return true
	}
	if !rec(h, g, 0) || len(open) > 6 {
		if g != g0 {
			return []sub{{h, g}}
		}
		return nil
	}
	if len(open) == 0 {
		return []sub{}
	}
	return open
}

type sub struct {
	h []*Term
	g *Term
}

func discharge(obls []*Obl) {
	type job struct {
		o  *Obl
		st []stage
	}
	// group subgoals per obligation
	var wg sync.WaitGroup
	type ores struct {
		mu   sync.Mutex
		fail bool
		by   map[string]bool
		log  []string
	}
	shareHyps(obls)
	spent := map[string]time.Duration{} // preparing queries, per unit
	for _, o := range obls {
		if o.Result != "" {
			continue
		}
		if spent[o.Unit] > 40*time.Second && !solverDeadline.IsZero() || !solverDeadline.IsZero() && time.Now().After(solverDeadline) {
			o.Result, o.Detail = "failed", "not tried: time budget exhausted"
			firstFailure.CompareAndSwap(0, time.Now().UnixNano())
			continue
		}
		t0 := time.Now()
		if os.Getenv("GV_OBL") != "" {
			fmt.Fprintf(os.Stderr, "%v [%s] %s goal size %d hyps %d\n", time.Now().Format("05.0"), o.Class, o.Name, o.Goal.size, len(o.Hyps))
		}
		if os.Getenv("GV_DIFF") != "" {
			diffGoal(o.Goal)
		}
		subs := subgoals(o.Hyps, o.Goal)
		r := &ores{by: map[string]bool{}}
		var jobs []job
		for _, s := range subs {
			g := s.g
			g = induct(s.h, g)
			if g == TTrue {
				r.by["simplifier+induction"] = true
				continue
			}
			if g == TFalse && false {
				r.fail = true
			}
			jobs = append(jobs, job{o, stagesFor(s.h, g, false)})
		}
		spent[o.Unit] += time.Since(t0)
		wg.Add(1)
		go func(o *Obl) {
			defer wg.Done()
			var jw sync.WaitGroup
			for _, j := range jobs {
				jw.Add(1)
				go func(j job) {
					defer jw.Done()
					ok, by, log := runStages(j.st)
					r.mu.Lock()
					defer r.mu.Unlock()
					r.log = append(r.log, log...)
					if !ok {
						r.fail = true
					} else {
						r.by[by] = true
					}
				}(j)
			}
			jw.Wait()
			o.Ms = time.Since(t0).Milliseconds()
			if r.fail {
				firstFailure.CompareAndSwap(0, time.Now().UnixNano())
				o.Result = "failed"
				o.Detail = strings.Join(r.log, "; ")
				return
			}
			o.Result = "proved"
			var bs []string
			for b := range r.by {
				bs = append(bs, b)
			}
			sort.Strings(bs)
			o.Solver = strings.Join(bs, "+")
		}(o)
	}
	wg.Wait()
}

// induct rewrites a goal by proving pairs of corresponding loops equal by induction.
func induct(h []*Term, g *Term) *Term {
	if g.op != OEq {
		return g
	}
	for round := 0; round < 6; round++ {
		m := map[*Term]*Term{}
		pairs(g.args[0], g.args[1], func(a, b *Term) bool {
			if a.op == OIter && b.op == OIter && a.sort == b.sort && iterEqual(h, a, b) {
				m[a] = b
				return true
			}
			return false
		}, map[[2]*Term]bool{})
		if len(m) == 0 {
			// loops that do not sit at corresponding places: try every compatible pair
			ia, ib := itersOf(g.args[0]), itersOf(g.args[1])
			tries := 0
			if indDebug {
				for _, x := range [][]*Term{ia, ib} {
					for _, a := range x {
						if (len(x) == len(ib) && has(ia, a)) && (has(ib, a)) {
							continue
						}
						fmt.Fprintf(os.Stderr, "ITER %v n%d bvs %d len %d:", a.sort.Name, a.n, len(a.bvs), a.args[0].id)
						for i, t := range a.args {
							if i > 0 {
								fmt.Fprintf(os.Stderr, " %.60s", t.String())
							}
						}
						fmt.Fprintln(os.Stderr)
					}
					fmt.Fprintln(os.Stderr, "--")
				}
			}
		search:
			for _, a := range ia {
				for _, b := range ib {
					if a == b || a.sort != b.sort || len(a.bvs) != len(b.bvs) || a.args[0] != b.args[0] {
						continue
					}
					if has(ia, b) || has(ib, a) {
						continue
					}
					if tries++; tries > 24 {
						break search
					}
					ok := iterEqual(h, a, b)
					if indDebug {
						fmt.Fprintf(os.Stderr, "IND %v len %d/%d\n", ok, len(a.String()), len(b.String()))
						if !ok {
							for i := range a.bods {
								if a.bods[i] != b.bods[i] {
									printDiff(mk(OEq, "", 0, SBool, a.bods[i], b.bods[i]))
								}
							}
						}
					}
					if ok {
						m[a] = b
						break search
					}
				}
			}
		}
		if len(m) == 0 {
			return g
		}
		g = Subst(g, m)
		if g.op != OEq {
			return g
		}
	}
	return g
}

var indDebug = os.Getenv("GV_IND") != ""

func has(ts []*Term, t *Term) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

// itersOf lists the closed loop terms in t, innermost first.
func itersOf(t *Term) (out []*Term) {
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			w(a)
		}
		if t.op == OIter && !t.bnd {
			out = append(out, t)
		}
	}
	w(t)
	return
}

// pairs walks two terms in parallel and reports the mismatching pairs.
func pairs(a, b *Term, f func(a, b *Term) bool, seen map[[2]*Term]bool) {
	if a == b || seen[[2]*Term{a, b}] {
		return
	}
	seen[[2]*Term{a, b}] = true
	if f(a, b) {
		return
	}
	if a.op == b.op && a.name == b.name && len(a.args) == len(b.args) && a.n == b.n {
		for i := range a.args {
			pairs(a.args[i], b.args[i], f, seen)
		}
		return
	}
	if a.op == OConcat && b.op == OConcat {
		for _, x := range a.args {
			for _, y := range b.args {
				if x.op == OIter && y.op == OIter && x != y {
					f(x, y)
				}
			}
		}
	}
	if a.op == OIte {
		pairs(a.args[1], b, f, seen)
		pairs(a.args[2], b, f, seen)
	} else if b.op == OIte {
		pairs(a, b.args[1], f, seen)
		pairs(a, b.args[2], f, seen)
	}
}

// iterEqual proves two fold terms equal: same length, equal initial values, equal steps on equal components.
func iterEqual(h []*Term, a, b *Term) bool {
	if len(a.bvs) != len(b.bvs) {
		return false
	}
	for i := range a.bvs {
		if a.bvs[i].sort != b.bvs[i].sort {
			return false
		}
	}
	if a.args[0] != b.args[0] && !proveNow(h, Eq(a.args[0], b.args[0])) {
		return false
	}
	for i := 1; i < len(a.args); i++ {
		if a.args[i] != b.args[i] && !proveFull(h, Eq(a.args[i], b.args[i])) {
			return false
		}
	}
	k := FreshVar("i!k!ind", SInt)
	with := []*Term{k}
	for _, v := range a.bvs[1:] {
		with = append(with, FreshVar("ind", v.sort))
	}
	sa, sb := OpenBinder(a, with), OpenBinder(b, with)
	hh := append(append([]*Term{}, h...), Lt(k, a.args[0]))
	for i := range sa {
		if sa[i] != sb[i] && !proveFull(hh, Eq(sa[i], sb[i])) {
			return false
		}
	}
	return true
}

func proveFull(h []*Term, g *Term) bool {
	for _, s := range splitGoal(h, g) {
		gg := induct(s.h, s.g)
		if gg == TTrue {
			continue
		}
		ok, _, _ := runStages(stagesFor(s.h, gg, true))
		if !ok {
			return false
		}
	}
	return true
}

// elemAt is element j of the list L, for a list that collects one computed element per iteration the computed one.
func elemAt(L, j *Term) *Term {
	if L.op == OIter && L.sort.Slice && L.args[1] == EmptySlice(L.sort) && L.n == 0 {
		cs, k := iterOpen(L)
		if c := cs[0]; len(cs) == 1 && c.step.op == OAppend && c.step.args[0] == c.v && !mentions(c.step.args[1], c.v) {
			return Subst(c.step.args[1], map[*Term]*Term{k: j})
		}
	}
	return SAt(L, j)
}
