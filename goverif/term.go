package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// ---------- sorts ----------

type sortKind int

const (
	kBool sortKind = iota
	kInt
	kStr
	kAny
	kArr
	kDT
	kOpaque
)

type Sort struct {
	Name   string
	K      sortKind
	Key    *Sort
	Elem   *Sort
	Fields []FieldDef
	Slice  bool // kDT: slice datatype (arr,len)
	ord    int
}

type FieldDef struct {
	Name string
	S    *Sort
}

var sortTab = map[string]*Sort{}
var sortOrder []*Sort

func regSort(s *Sort) *Sort {
	if o, ok := sortTab[s.Name]; ok {
		return o
	}
	s.ord = len(sortOrder)
	sortTab[s.Name] = s
	sortOrder = append(sortOrder, s)
	return s
}

var (
	SBool = regSort(&Sort{Name: "Bool", K: kBool})
	SInt  = regSort(&Sort{Name: "Int", K: kInt})
	SStr  = regSort(&Sort{Name: "Str", K: kStr})
	SAny  = regSort(&Sort{Name: "Any", K: kAny})
)

func ArrSort(k, e *Sort) *Sort {
	return regSort(&Sort{Name: "A<" + k.Name + "," + e.Name + ">", K: kArr, Key: k, Elem: e})
}
func SliceSort(e *Sort) *Sort {
	n := "Sl<" + e.Name + ">"
	if s, ok := sortTab[n]; ok {
		return s
	}
	return regSort(&Sort{Name: n, K: kDT, Slice: true, Elem: e, Fields: []FieldDef{{"arr", ArrSort(SInt, e)}, {"len", SInt}}})
}
func OpaqueSort(n string) *Sort { return regSort(&Sort{Name: n, K: kOpaque}) }

// ---------- terms ----------

type Op int

const (
	OVar Op = iota
	OBound
	OInt
	OStr
	OTrue
	OFalse
	OApp
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd  // n-ary linear sum
	OMulC // n * arg0
	OLe0  // 0 <= arg0
	OSelect
	OStore
	OConstArr
	OMk
	OField
	OAppend // slice append of one element
	OConcat // strings
	OStrLen
	OSubstr
	OIndexOf
	OPrefixOf // prefixof(p, s)
	OSuffixOf
	OContains // contains(s, t)
	OReplaceAll
	OStrLt
	OForall
	OExists
	OIter
	OFirst
	OMax0
	OSeqCat // concatenation of two slices
	OSortBy // args[0] sorted by the order bods[0] over bvs (x before y)
)

type Term struct {
	id      int
	op      Op
	args    []*Term
	name    string
	n       int64
	sort    *Sort
	bvs     []*Term
	bods    []*Term
	h       int  // binder height
	initial bool // built only from initial-state symbols
	bnd     bool // has a free bound variable
	fvmark  bool // contains a loop/fresh variable (non initial)
	size    int
	vs      [4]uint64 // over-approximation of the variables occurring (a bit per variable, hashed)
}

// within reports that k may occur in t: ids grow from parts to wholes.
func within(k, t *Term) bool {
	return k.id <= t.id && k.vs[0]&^t.vs[0] == 0 && k.vs[1]&^t.vs[1] == 0 && k.vs[2]&^t.vs[2] == 0 && k.vs[3]&^t.vs[3] == 0
}

var termTab = map[string]*Term{}
var termCount int

func key(op Op, name string, n int64, s *Sort, args, bvs, bods []*Term) string {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(op)))
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(strconv.FormatInt(n, 10))
	b.WriteByte('|')
	if s != nil {
		b.WriteString(s.Name)
	}
	for _, l := range [][]*Term{args, bvs, bods} {
		b.WriteByte('|')
		for _, a := range l {
			b.WriteString(strconv.Itoa(a.id))
			b.WriteByte(',')
		}
	}
	return b.String()
}

func mk(op Op, name string, n int64, s *Sort, args ...*Term) *Term {
	return mkB(op, name, n, s, args, nil, nil)
}

func mkB(op Op, name string, n int64, s *Sort, args, bvs, bods []*Term) *Term {
	k := key(op, name, n, s, args, bvs, bods)
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{id: termCount, op: op, name: name, n: n, sort: s, args: args, bvs: bvs, bods: bods}
	termCount++
	t.initial = true
	t.size = 1
	for _, a := range args {
		if a == nil {
			panic("nil term arg")
		}
		if a.h > t.h {
			t.h = a.h
		}
		if !a.initial {
			t.initial = false
		}
		t.bnd = t.bnd || a.bnd
		t.size += a.size
		for i, w := range a.vs {
			t.vs[i] |= w
		}
	}
	for _, a := range bods {
		for i, w := range a.vs {
			t.vs[i] |= w
		}
		if a.h > t.h {
			t.h = a.h
		}
		if !a.initial {
			t.initial = false
		}
		t.size += a.size
	}
	if t.size > 1<<40 {
		t.size = 1 << 40
	}
	switch op {
	case OVar:
		t.initial = strings.HasPrefix(name, "i!")
		h := uint(t.id) * 0x9E3779B1 >> 8
		t.vs[h>>6&3] |= 1 << (h & 63)
	case OBound:
		h := uint(t.id) * 0x9E3779B1 >> 8
		t.vs[h>>6&3] |= 1 << (h & 63)
		t.bnd = true
		t.initial = strings.HasPrefix(name, "i!")
	case OApp:
		if strings.HasPrefix(name, "fresh!") {
			t.initial = false
		}
	}
	if len(bvs) > 0 {
		t.h++
		t.bnd = t.bnd || len(freeBound(t)) > 0
	}
	termTab[k] = t
	return t
}

var fbMemo = map[*Term][]*Term{}

// freeBound returns the free bound variables of t, by id.
func freeBound(t *Term) []*Term {
	if t.op == OBound {
		return []*Term{t}
	}
	if len(t.bvs) == 0 && !t.bnd {
		return nil
	}
	if r, ok := fbMemo[t]; ok {
		return r
	}
	set := map[*Term]bool{}
	for _, a := range t.args {
		for _, v := range freeBound(a) {
			set[v] = true
		}
	}
	if len(t.bods) > 0 {
		own := make(map[*Term]bool, len(t.bvs))
		for _, w := range t.bvs {
			own[w] = true
		}
		for _, b := range t.bods {
			for _, v := range freeBound(b) {
				if !own[v] {
					set[v] = true
				}
			}
		}
	}
	var r []*Term
	for v := range set {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	fbMemo[t] = r
	return r
}

var (
	TTrue  = mk(OTrue, "", 0, SBool)
	TFalse = mk(OFalse, "", 0, SBool)
	AnyNil = mk(OApp, "anynil", 0, SAny)
)

func Int(n int64) *Term           { return mk(OInt, "", n, SInt) }
func Str(s string) *Term          { return mk(OStr, s, 0, SStr) }
func Var(n string, s *Sort) *Term { return mk(OVar, n, 0, s) }

// trimmed: s has no surrounding space.
func trimmed(s *Term) bool {
	switch s.op {
	case OStr:
		return strings.TrimSpace(s.name) == s.name
	case OApp:
		return s.name == "trimspace" || s.name == "jsonstr"
	case OIte:
		return trimmed(s.args[1]) && trimmed(s.args[2])
	case OSelect:
		// an element of a slice built from trimmed strings only (the value outside its bounds is unspecified)
		a := s.args[0]
		return a.op == OField && a.n == 0 && allTrimmed(a.args[0], nil)
	}
	return false
}

func allTrimmed(l, v *Term) bool {
	switch {
	case l == v || l.sort.Slice && SLen(l).op == OInt && SLen(l).n == 0:
		return true
	case l.op == OAppend:
		return allTrimmed(l.args[0], v) && trimmed(l.args[1])
	case l.op == OSeqCat:
		return allTrimmed(l.args[0], v) && allTrimmed(l.args[1], v)
	case l.op == OIte:
		return allTrimmed(l.args[1], v) && allTrimmed(l.args[2], v)
	case l.op == OIter && v == nil && len(l.bvs) == 2 && allTrimmed(l.args[1], nil):
		comps, _ := iterOpen(l)
		return allTrimmed(comps[0].step, comps[0].v)
	}
	return false
}

// interior: the address of a field or of a variable.
func interior(x *Term) bool {
	return x.op == OApp && (strings.HasPrefix(x.name, "fa|") || strings.HasPrefix(x.name, "cell|"))
}

func App(n string, s *Sort, args ...*Term) *Term {
	switch {
	case strings.HasPrefix(n, "unbox_") && args[0].op == OApp && args[0].name == "box_"+n[6:]:
		return args[0].args[0]
	case strings.HasPrefix(n, "unbox_") && args[0].op == OIte:
		return Ite(args[0].args[0], App(n, s, args[0].args[1]), App(n, s, args[0].args[2]))
	case n == "card":
		a := args[0]
		switch {
		case a.op == OConstArr && a.args[0] == TFalse:
			return Int(0)
		case a.op == OStore && a.args[2] == TTrue:
			return Add(App(n, s, a.args[0]), Ite(Select(a.args[0], a.args[1]), Int(0), Int(1)))
		case a.op == OIte:
			return Ite(a.args[0], App(n, s, a.args[1]), App(n, s, a.args[2]))
		}
	case n == "trimspace":
		a := args[0]
		if trimmed(a) {
			return a
		}
		if a.op == OIte {
			x, y := App(n, s, a.args[1]), App(n, s, a.args[2])
			if x.op != OApp || x.args[0] != a.args[1] || y.op != OApp || y.args[0] != a.args[2] {
				return Ite(a.args[0], x, y)
			}
		}
		if a.op == OConcat {
			// surrounding literal space goes first
			ps := append([]*Term{}, a.args...)
			if f := ps[0]; f.op == OStr {
				ps[0] = Str(strings.TrimLeft(f.name, " \t\n\v\f\r"))
			}
			if l := ps[len(ps)-1]; l.op == OStr {
				ps[len(ps)-1] = Str(strings.TrimRight(l.name, " \t\n\v\f\r"))
			}
			if b := Concat(ps...); b != a {
				return App(n, s, b)
			}
		}
	case n == "trim" || n == "trimleft" || n == "trimright":
		return trimSet(n, args[0], args[1])
	case jsonSort[n] != nil || n == "validutf8":
		if r := jsonApp(n, args); r != nil {
			return r
		}
	case n == "derefd":
		switch a := args[0]; {
		case a.op == OIte:
			return Ite(a.args[0], App(n, s, a.args[1]), App(n, s, a.args[2]))
		case a.op != OSelect:
			return a
		}
	case n == "kindof":
		if a := args[0]; a.op == OInt {
			if k := kindOfTag(a.n); k >= 0 {
				return Int(k)
			}
		}
	case n == "tagof":
		a := args[0]
		if a.op == OIte {
			return Ite(a.args[0], App(n, s, a.args[1]), App(n, s, a.args[2]))
		}
		if a == AnyNil {
			return Int(0)
		}
		if a.op == OApp && strings.HasPrefix(a.name, "box_") {
			return Int(typeTag(a.name[4:]))
		}
		if a.op == OApp && a.name == "errorf" {
			return Int(typeTag("$errorf"))
		}
	}
	return mk(OApp, n, 0, s, args...)
}

var typeTags = map[string]int64{}
var typeTagNames = []string{""}

func typeTag(n string) int64 {
	if t, ok := typeTags[n]; ok {
		return t
	}
	typeTags[n] = int64(len(typeTagNames))
	typeTagNames = append(typeTagNames, n)
	return typeTags[n]
}

func Bool(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

func Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return TFalse
	case OFalse:
		return TTrue
	case ONot:
		return a.args[0]
	case OLe0:
		return Le0(Add(Neg(a.args[0]), Int(-1)))
	case OAnd, OOr:
		if r := notMemo[a]; r != nil {
			return r
		}
		xs := make([]*Term, len(a.args))
		for i, x := range a.args {
			xs[i] = Not(x)
		}
		op := OOr
		if a.op == OOr {
			op = OAnd
		}
		r := andOr(op, xs)
		notMemo[a] = r
		notMemo[r] = a
		return r
	}
	return mk(ONot, "", 0, SBool, a)
}

var notMemo = map[*Term]*Term{}

func isNot(a, b *Term) bool { return Not(a) == b }

func And(xs ...*Term) *Term { return andOr(OAnd, xs) }
func Or(xs ...*Term) *Term  { return andOr(OOr, xs) }

func andOr(op Op, xs []*Term) *Term {
	unit, zero := TTrue, TFalse
	if op == OOr {
		unit, zero = TFalse, TTrue
	}
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit || seen[x] {
			return true
		}
		if x == zero || seen[Not(x)] {
			return false
		}
		if x.op == op {
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	// unit propagation inside: for And, drop from nested Or the negations
	dual := OOr
	if op == OOr {
		dual = OAnd
	}
	// what a term is equal to (for Or: what it is not) settles its other comparisons with literals
	var vals map[*Term]*Term
	for _, x := range out {
		if e, pos := eqLit(x); e != nil && pos == (op == OAnd) {
			t, l := litOf(e)
			if o, ok := vals[t]; ok && o != l {
				return zero
			}
			if vals == nil {
				vals = map[*Term]*Term{}
			}
			vals[t] = l
		}
	}
	settled := func(x *Term) *Term { // unit, zero or nil (as an argument of op)
		if len(vals) == 0 {
			return nil
		}
		if e, pos := eqLit(x); e != nil {
			t, l := litOf(e)
			if o, ok := vals[t]; ok && o != l {
				if pos == (op == OAnd) {
					return zero
				}
				return unit
			}
		}
		return nil
	}
	changed := false
	for i, x := range out {
		if r := settled(x); r != nil {
			if r == zero {
				return zero
			}
			out[i] = unit
			changed = true
			continue
		}
		if x.op == dual {
			var keep []*Term
			ch := false
			absorbed := false
			for _, a := range x.args {
				if seen[a] {
					absorbed = true
				}
				if seen[Not(a)] {
					ch = true
					continue
				}
				if r := settled(a); r == zero {
					ch = true
					continue
				} else if r == unit {
					absorbed = true
				}
				keep = append(keep, a)
			}
			if absorbed {
				out[i] = unit
				changed = true
			} else if ch {
				out[i] = andOr(dual, keep)
				changed = true
			}
		}
	}
	if changed {
		return andOr(op, out)
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	// (a and p) or (a and not p) -> a, two-element factoring
	if len(out) == 2 && out[0].op == dual && out[1].op == dual {
		common := map[*Term]bool{}
		for _, a := range out[0].args {
			for _, b := range out[1].args {
				if a == b {
					common[a] = true
				}
			}
		}
		if len(common) > 0 {
			var r0, r1, cs []*Term
			for _, a := range out[0].args {
				if !common[a] {
					r0 = append(r0, a)
				} else {
					cs = append(cs, a)
				}
			}
			for _, a := range out[1].args {
				if !common[a] {
					r1 = append(r1, a)
				}
			}
			return andOr(dual, append(cs, andOr(op, []*Term{andOr(dual, r0), andOr(dual, r1)})))
		}
	}
	return mk(op, "", 0, SBool, out...)
}

// eqLit recognises a comparison with a literal and its polarity.
func eqLit(x *Term) (*Term, bool) {
	pos := true
	if x.op == ONot {
		x, pos = x.args[0], false
	}
	if x.op == OEq && (isLit(x.args[0]) || isLit(x.args[1])) {
		return x, pos
	}
	return nil, false
}

func litOf(e *Term) (t, lit *Term) {
	if isLit(e.args[0]) {
		return e.args[1], e.args[0]
	}
	return e.args[0], e.args[1]
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

// ---------- arithmetic ----------

type lin struct {
	c  int64
	ts []*Term
	cs map[*Term]int64
}

func toLin(t *Term) lin {
	l := lin{cs: map[*Term]int64{}}
	l.add(t, 1)
	return l
}
func (l *lin) add(t *Term, k int64) {
	switch t.op {
	case OInt:
		l.c += k * t.n
	case OAdd:
		for _, a := range t.args {
			l.add(a, k)
		}
	case OMulC:
		l.add(t.args[0], k*t.n)
	default:
		if _, ok := l.cs[t]; !ok {
			l.ts = append(l.ts, t)
		}
		l.cs[t] += k
	}
}
func (l *lin) term() *Term {
	var as []*Term
	sort.Slice(l.ts, func(i, j int) bool { return l.ts[i].id < l.ts[j].id })
	for _, t := range l.ts {
		k := l.cs[t]
		if k == 0 {
			continue
		}
		if k == 1 {
			as = append(as, t)
		} else {
			as = append(as, mk(OMulC, "", k, SInt, t))
		}
	}
	if l.c != 0 || len(as) == 0 {
		as = append(as, Int(l.c))
	}
	if len(as) == 1 {
		return as[0]
	}
	return mk(OAdd, "", 0, SInt, as...)
}
func Add(xs ...*Term) *Term {
	l := lin{cs: map[*Term]int64{}}
	for _, x := range xs {
		l.add(x, 1)
	}
	return l.term()
}
func MulC(k int64, x *Term) *Term {
	l := lin{cs: map[*Term]int64{}}
	l.add(x, k)
	return l.term()
}
func Neg(x *Term) *Term    { return MulC(-1, x) }
func Sub(a, b *Term) *Term { return Add(a, Neg(b)) }

func nonneg(t *Term) bool {
	switch t.op {
	case OInt:
		return t.n >= 0
	case OStrLen, OFirst, OMax0:
		return true
	case OField:
		return t.args[0].sort.Slice && t.n == 1
	case OAdd:
		for _, a := range t.args {
			if !nonneg(a) {
				return false
			}
		}
		return true
	case OMulC:
		return t.n >= 0 && nonneg(t.args[0])
	case OIte:
		return nonneg(t.args[1]) && nonneg(t.args[2])
	case OVar, OBound:
		return strings.Contains(t.name, "!k!") || strings.HasPrefix(t.name, "i!alloc!")
	case OApp:
		return t.name == "card" || t.name == "seqlen" || strings.HasPrefix(t.name, "nn|")
	}
	return false
}

// splitOf: t is the number of separators strings.Split(s, sep) splits at, for a literal non-empty sep.
func splitOf(t *Term) *Term {
	if t.op == OApp && t.name == "seqlen" && t.args[1].op == OStr && t.args[1].name != "" {
		return t
	}
	return nil
}

func isSplit(x *Term) bool {
	return x.op == OApp && x.name == "split" && x.args[1].op == OStr && x.args[1].name != ""
}

func cutParts(s, sep *Term) (before, after *Term) {
	i := IndexOf(s, sep)
	off := Add(i, StrLen(sep))
	return Substr(s, Int(0), i), Substr(s, off, Sub(StrLen(s), off))
}

// splitAtLeast: at least k separators, or nil when k is too large to be worth it.
func splitAtLeast(sp *Term, k int64) *Term {
	s, sep := sp.args[0], sp.args[1]
	r := TTrue
	if k > 3 {
		return nil
	}
	for i := int64(0); i < k; i++ {
		r = And(r, Contains(s, sep))
		_, s = cutParts(s, sep)
	}
	return r
}

func Le0(d *Term) *Term {
	if d.op == OInt {
		return Bool(d.n >= 0)
	}
	if d.op == OField || d.op == OAdd || d.op == OMulC {
		if l := toLin(d); len(l.ts) == 1 {
			if sp := splitOf(l.ts[0]); sp != nil {
				switch l.cs[l.ts[0]] {
				case 1: // len >= -c
					if r := splitAtLeast(sp, -l.c); r != nil {
						return r
					}
				case -1: // len <= c
					if r := splitAtLeast(sp, l.c+1); r != nil {
						return Not(r)
					}
				}
			}
		}
	}
	if d.op == OStrLen || d.op == OAdd || d.op == OMulC {
		if l := toLin(d); len(l.ts) == 1 && l.ts[0].op == OStrLen {
			switch c := l.cs[l.ts[0]]; {
			case c == 1 && l.c == -1: // not empty
				return Not(Eq(l.ts[0].args[0], Str("")))
			case c == -1 && l.c == 0: // empty
				return Eq(l.ts[0].args[0], Str(""))
			}
		}
	}
	if nonneg(d) {
		return TTrue
	}
	if d.op == OIte {
		a, b := Le0(d.args[1]), Le0(d.args[2])
		if (a.op == OTrue || a.op == OFalse) && (b.op == OTrue || b.op == OFalse) {
			return Ite(d.args[0], a, b)
		}
	}
	if d.op == OAdd || d.op == OMulC {
		l := toLin(d)
		for _, x := range l.ts {
			if x.op != OIte || !isNumeral(x.args[1]) || !isNumeral(x.args[2]) {
				continue
			}
			a, b := Le0(Subst(d, map[*Term]*Term{x: x.args[1]})), Le0(Subst(d, map[*Term]*Term{x: x.args[2]}))
			if (a.op == OTrue || a.op == OFalse) && (b.op == OTrue || b.op == OFalse) {
				return Ite(x.args[0], a, b)
			}
		}
	}
	n := Add(Neg(d), Int(-1)) // negation: 0 <= -d-1
	if nonneg(n) {
		return TFalse
	}
	return mk(OLe0, "", 0, SBool, d)
}
func Le(a, b *Term) *Term { return Le0(Sub(b, a)) }
func Lt(a, b *Term) *Term { return Le0(Add(b, Neg(a), Int(-1))) }

func Max0(n *Term) *Term {
	if nonneg(n) {
		return n
	}
	if n.op == OInt {
		return Int(0)
	}
	return mk(OMax0, "", 0, SInt, n)
}

// ---------- equality ----------

// allocForm recognises alloc!T + n (n>=1) over the initial allocation counter.
func allocForm(t *Term) (base *Term, n int64, ok bool) {
	if t.op != OAdd {
		return nil, 0, false
	}
	pos := false
	for _, a := range t.args {
		switch {
		case a.op == OInt:
			if a.n < 1 {
				return nil, 0, false
			}
			pos = true
		case a.op == OVar && strings.HasPrefix(a.name, "i!alloc!") && base == nil:
			base = a
		case nonneg(a):
		default:
			return nil, 0, false
		}
	}
	return base, 1, pos && base != nil
}

func isOldRef(t *Term) bool {
	if !t.initial {
		return false
	}
	switch t.op {
	case OInt:
		return t.n == 0
	case OVar:
		return !strings.HasPrefix(t.name, "i!alloc!")
	case OSelect, OField:
		return !mentionsAlloc(t)
	case OApp:
		return strings.HasPrefix(t.name, "unbox_") && !mentionsAlloc(t)
	}
	return false
}

var maMemo = map[*Term]bool{}

func mentionsAlloc(t *Term) bool {
	if r, ok := maMemo[t]; ok {
		return r
	}
	r := t.op == OVar && strings.HasPrefix(t.name, "i!alloc!")
	for _, a := range t.args {
		r = r || mentionsAlloc(a)
	}
	for _, a := range t.bods {
		r = r || mentionsAlloc(a)
	}
	maMemo[t] = r
	return r
}

func isNumeral(t *Term) bool { return t.op == OInt }

func isConst(t *Term) bool { return t.op == OTrue || t.op == OFalse }

// liftBool moves an alternative out of a test when one of its sides decides the test.
func liftBool(s *Term, f func(s *Term) *Term) *Term {
	if s.op != OIte {
		return nil
	}
	a, b := f(s.args[1]), f(s.args[2])
	if isConst(a) || isConst(b) {
		return Ite(s.args[0], a, b)
	}
	return nil
}

func isLit(t *Term) bool {
	return t.op == OInt || t.op == OStr || t.op == OTrue || t.op == OFalse
}

func Eq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %s vs %s: %s / %s", a.sort.Name, b.sort.Name, trunc(a.String()), trunc(b.String())))
	}
	if isLit(a) && isLit(b) {
		return TFalse
	}
	switch a.sort.K {
	case kBool:
		if a.op == OTrue {
			return b
		}
		if a.op == OFalse {
			return Not(b)
		}
		if b.op == OTrue {
			return a
		}
		if b.op == OFalse {
			return Not(a)
		}
		if a == Not(b) {
			return TFalse
		}
	case kInt:
		if a == Int(0) && isNonNil(b) || b == Int(0) && isNonNil(a) {
			return TFalse
		}
		d := Sub(a, b)
		if d.op == OInt {
			return Bool(d.n == 0)
		}
		for i := 0; i < 2; i++ {
			x, y := a, b
			if i == 1 {
				x, y = b, a
			}
			if sp := splitOf(x); sp != nil && y.op == OInt {
				if r1, r2 := splitAtLeast(sp, y.n), splitAtLeast(sp, y.n+1); r1 != nil && r2 != nil {
					return And(r1, Not(r2))
				}
			}
		}
		if a.op == OInt && b.op == OStrLen {
			a, b = b, a
		}
		if a.op == OStrLen && b.op == OInt {
			if b.n == 0 {
				return Eq(a.args[0], Str(""))
			} else if b.n < 0 {
				return TFalse
			}
		}
		if r, ok := eqRef(a, b); ok {
			return Bool(r)
		}
		if r, ok := eqRef(b, a); ok {
			return Bool(r)
		}
		for i := 0; i < 2; i++ {
			x, y := a, b
			if i == 1 {
				x, y = b, a
			}
			if interior(x) {
				if y.op == OInt || isFresh(y) {
					return TFalse
				}
				if interior(y) {
					if x.name != y.name {
						return TFalse
					}
					return Eq(x.args[0], y.args[0])
				}
			}
		}
		if isLit(a) && a.n < 0 && nonneg(b) || isLit(b) && b.n < 0 && nonneg(a) {
			return TFalse
		}
	case kStr:
		if r := eqStr(a, b); r != nil {
			return r
		}
	case kDT:
		if a.op == OMk && b.op == OMk && !a.sort.Slice {
			var cs []*Term
			for i := range a.args {
				cs = append(cs, Eq(a.args[i], b.args[i]))
			}
			return And(cs...)
		}
	case kAny:
		for i := 0; i < 2; i++ {
			x, y := a, b
			if i == 1 {
				x, y = b, a
			}
			if y == AnyNil && isApp(x, "derefd") {
				return TFalse
			}
			if x.op == OApp && strings.HasPrefix(x.name, "box_") && x.args[0].sort == SInt && isFresh(x.args[0]) &&
				(y.op == OVar || y.op == OSelect || y.op == OField) && y.initial && !mentionsAlloc(y) {
				return TFalse
			}
		}
		if a.op == OApp && b.op == OApp {
			an, bn := anyCtor(a), anyCtor(b)
			if an != "" && bn != "" {
				if an != bn {
					return TFalse
				}
				if strings.HasPrefix(an, "box_") || an == "rtype" {
					return Eq(a.args[0], b.args[0])
				}
			}
		}
	}
	// push into ite when it decides
	for i := 0; i < 2; i++ {
		x, y := a, b
		if i == 1 {
			x, y = b, a
		}
		if x.op == OIte {
			if x.size > eqBig && y.size > eqBig {
				continue // comparing huge values leaf by leaf decides nothing
			}
			p, q := Eq(x.args[1], y), Eq(x.args[2], y)
			if isLit(p) || isLit(q) || (isLit(y) || y == AnyNil) && leavesDecide(x, y) {
				return Ite(x.args[0], p, q)
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, "", 0, SBool, a, b)
}

const eqBig = 20000

// leavesDecide: comparing every leaf of the choice x with y gives a literal.
func leavesDecide(x, y *Term) bool {
	if x.op == OIte {
		return leavesDecide(x.args[1], y) && leavesDecide(x.args[2], y)
	}
	return isLit(Eq(x, y))
}

func anyCtor(t *Term) string {
	if t.name == "anynil" || t.name == "errorf" || t.name == "rtype" || strings.HasPrefix(t.name, "box_") {
		return t.name
	}
	return ""
}

func eqRef(a, b *Term) (bool, bool) {
	base, _, ok := allocForm(a)
	if !ok {
		return false, false
	}
	if isOldRef(b) {
		return false, true
	}
	if base2, _, ok2 := allocForm(b); ok2 && base2 != base {
		return false, true
	}
	return false, false
}

func strParts(t *Term) []*Term {
	if t.op == OConcat {
		return t.args
	}
	if t.op == OStr && t.name == "" {
		return nil
	}
	return []*Term{t}
}

func eqStr(a, b *Term) *Term {
	if a.op != OConcat && b.op != OConcat {
		return nil
	}
	pa := append([]*Term{}, strParts(a)...)
	pb := append([]*Term{}, strParts(b)...)
	ch := false
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x == y {
			pa, pb = pa[1:], pb[1:]
			ch = true
			continue
		}
		if x.op == OStr && y.op == OStr {
			n := len(x.name)
			if len(y.name) < n {
				n = len(y.name)
			}
			if x.name[:n] != y.name[:n] {
				return TFalse
			}
			pa[0], pb[0] = Str(x.name[n:]), Str(y.name[n:])
			if len(x.name) == n {
				pa = pa[1:]
			}
			if len(y.name) == n {
				pb = pb[1:]
			}
			ch = true
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if x == y {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			ch = true
			continue
		}
		if x.op == OStr && y.op == OStr {
			n := len(x.name)
			if len(y.name) < n {
				n = len(y.name)
			}
			if x.name[len(x.name)-n:] != y.name[len(y.name)-n:] {
				return TFalse
			}
			pa[len(pa)-1], pb[len(pb)-1] = Str(x.name[:len(x.name)-n]), Str(y.name[:len(y.name)-n])
			if len(x.name) == n {
				pa = pa[:len(pa)-1]
			}
			if len(y.name) == n {
				pb = pb[:len(pb)-1]
			}
			ch = true
			continue
		}
		break
	}
	if len(pa) == 0 && len(pb) == 0 {
		return TTrue
	}
	if len(pa) == 0 || len(pb) == 0 {
		rest := pa
		if len(pa) == 0 {
			rest = pb
		}
		var cs []*Term
		for _, r := range rest {
			if r.op == OStr && r.name != "" {
				return TFalse
			}
			cs = append(cs, Eq(r, Str("")))
		}
		return And(cs...)
	}
	if ch {
		return Eq(Concat(pa...), Concat(pb...))
	}
	// concat containing a nonempty literal vs ""
	return nil
}

// ---------- ite ----------

func isZero(t *Term) bool { return t.op == OInt && t.n == 0 }

// emptyWhen: c says that the slice x is empty.
func emptyWhen(c, x *Term) bool {
	return c == Eq(SLen(x), Int(0)) || c == Le(SLen(x), Int(0))
}

func Ite(c, a, b *Term) *Term {
	if c.op == OTrue {
		return a
	}
	if c.op == OFalse {
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if c.op == OAnd || c.op == OOr {
		if n := Not(c); n.id < c.id {
			c, a, b = n, b, a
		}
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Ite sorts %s vs %s", a.sort.Name, b.sort.Name))
	}
	if a.op == OIte && a.args[0] == c {
		return Ite(c, a.args[1], b)
	}
	if b.op == OIte && b.args[0] == c {
		return Ite(c, a, b.args[2])
	}
	if a.sort.K == kBool {
		switch {
		case a.op == OTrue:
			return Or(c, b)
		case a.op == OFalse:
			return And(Not(c), b)
		case b.op == OTrue:
			return Or(Not(c), a)
		case b.op == OFalse:
			return And(c, a)
		}
	}
	// ite(c, x, ite(d, y, x)) -> ite(d, y, x) where c excludes d
	if b.op == OIte && b.args[2] == a && excludes(c, b.args[0]) {
		return b
	}
	// ite(c, x, ite(d, x, y)) -> ite(c or d, x, y)
	if b.op == OIte && b.args[1] == a {
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	switch a.sort.K {
	case kArr:
		if r := mergeStores(c, a, b); r != nil {
			return r
		}
	case kDT:
		if a.sort.Slice {
			// empty slices are identified
			if emptyWhen(c, b) && a.op == OMk && isZero(SLen(a)) {
				return b
			}
			if emptyWhen(Not(c), a) && b.op == OMk && isZero(SLen(b)) {
				return a
			}
			if a.op == OAppend && b.op == OAppend && a.args[1] == b.args[1] {
				return mk(OAppend, "", 0, a.sort, Ite(c, a.args[0], b.args[0]), a.args[1])
			}
		}
		if !a.sort.Slice && (a.op == OMk || b.op == OMk) {
			var as []*Term
			for i := range a.sort.Fields {
				as = append(as, Ite(c, Field(a, i), Field(b, i)))
			}
			return MkDT(a.sort, as...)
		}
	case kStr:
		if a.op == OConcat || b.op == OConcat {
			if r := factorStr(c, a, b); r != nil {
				return r
			}
		}
	}
	return mk(OIte, "", 0, a.sort, c, a, b)
}

// excludes: equalities of one text to different constants.
func excludes(c, d *Term) bool {
	if c.op != OEq || d.op != OEq {
		return false
	}
	for i := 0; i < 2; i++ {
		for j := 0; j < 2; j++ {
			if c.args[i] == d.args[j] && isLit(c.args[1-i]) && isLit(d.args[1-j]) && c.args[1-i] != d.args[1-j] {
				return true
			}
		}
	}
	return false
}

func factorStr(c, a, b *Term) *Term {
	pa, pb := strParts(a), strParts(b)
	i := 0
	for i < len(pa) && i < len(pb) && pa[i] == pb[i] {
		i++
	}
	j := 0
	for j < len(pa)-i && j < len(pb)-i && pa[len(pa)-1-j] == pb[len(pb)-1-j] {
		j++
	}
	if i == 0 && j == 0 {
		return nil
	}
	var out []*Term
	out = append(out, pa[:i]...)
	out = append(out, Ite(c, Concat(pa[i:len(pa)-j]...), Concat(pb[i:len(pb)-j]...)))
	out = append(out, pa[len(pa)-j:]...)
	return Concat(out...)
}

func storeChain(t *Term) (base *Term, idx []*Term) {
	seen := map[*Term]bool{}
	for t.op == OStore {
		if !seen[t.args[1]] {
			seen[t.args[1]] = true
			idx = append(idx, t.args[1])
		}
		t = t.args[0]
	}
	return t, idx
}

func mergeStores(c, a, b *Term) *Term {
	ba, ia := storeChain(a)
	bb, ib := storeChain(b)
	if ba != bb || (len(ia) == 0 && len(ib) == 0) {
		return nil
	}
	var all []*Term
	seen := map[*Term]bool{}
	for k := len(ia) - 1; k >= 0; k-- {
		if !seen[ia[k]] {
			seen[ia[k]] = true
			all = append(all, ia[k])
		}
	}
	for k := len(ib) - 1; k >= 0; k-- {
		if !seen[ib[k]] {
			seen[ib[k]] = true
			all = append(all, ib[k])
		}
	}
	r := ba
	for _, i := range all {
		r = Store(r, i, Ite(c, Select(a, i), Select(b, i)))
	}
	return r
}

// ---------- arrays, datatypes ----------

func Select(a, i *Term) *Term {
	switch a.op {
	case OStore:
		e := Eq(a.args[1], i)
		if e.op == OTrue {
			return a.args[2]
		}
		if e.op == OFalse {
			return Select(a.args[0], i)
		}
		return Ite(e, a.args[2], Select(a.args[0], i))
	case OIte:
		return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
	case OConstArr:
		return a.args[0]
	case OField:
		if e := iterElem(a, i); e != nil {
			return e
		}
	}
	if i.op == OIte && i.args[1].op != OInt {
		// keep select over ite index unexpanded unless small
		return Ite(i.args[0], Select(a, i.args[1]), Select(a, i.args[2]))
	}
	return mk(OSelect, "", 0, a.sort.Elem, a, i)
}

// iterElem: an element of a list built by appending exactly one item per iteration.
func iterElem(a, i *Term) *Term {
	t := a.args[0]
	if a.n != 0 || t.op != OIter || !t.sort.Slice {
		return nil
	}
	b := t.bods[0]
	if b.op != OAppend || b.args[0] != t.bvs[1] || t.args[1] != EmptySlice(t.sort) || mentions(b.args[1], t.bvs[1]) {
		return nil
	}
	with := []*Term{i}
	var comps []IterComp
	var k *Term
	for j := 1; j < len(t.bvs); j++ {
		if j == 1 || !mentions(b.args[1], t.bvs[j]) {
			with = append(with, t.bvs[j])
			continue
		}
		if comps == nil {
			comps, k = iterOpen(t)
		}
		for _, c := range comps {
			if mentions(c.step, comps[0].v) && c.v != comps[0].v {
				return nil
			}
		}
		with = append(with, MkIter(comps, k, j-1, i))
	}
	m := map[*Term]*Term{}
	for j, v := range t.bvs {
		m[v] = with[j]
	}
	e := Subst(b.args[1], m)
	return Ite(And(Le(Int(0), i), Lt(i, t.args[0])), e, Select(Field(t.args[1], 0), i))
}

func Store(a, i, v *Term) *Term {
	if a.sort.Elem != v.sort {
		panic(fmt.Sprintf("Store sort %s elem %s", a.sort.Name, v.sort.Name))
	}
	if Select(a, i) == v {
		return a
	}
	if a.op == OStore {
		e := Eq(a.args[1], i)
		if e.op == OTrue {
			return Store(a.args[0], i, v)
		}
		// canonical order for provably distinct indices
		if e.op == OFalse && a.args[1].id > i.id {
			return mk(OStore, "", 0, a.sort, Store(a.args[0], i, v), a.args[1], a.args[2])
		}
		if e.op == OFalse && a.args[1] != i {
			// also overwrite deeper equal index
			if in, ok := replaceDeep(a, i, v); ok {
				return in
			}
		}
	}
	return mk(OStore, "", 0, a.sort, a, i, v)
}

func replaceDeep(a, i, v *Term) (*Term, bool) {
	if a.op != OStore {
		return nil, false
	}
	e := Eq(a.args[1], i)
	if e.op == OTrue {
		return Store(a.args[0], i, v), true
	}
	if e.op != OFalse {
		return nil, false
	}
	in, ok := replaceDeep(a.args[0], i, v)
	if !ok {
		return nil, false
	}
	return mk(OStore, "", 0, a.sort, in, a.args[1], a.args[2]), true
}

func ConstArr(s *Sort, v *Term) *Term { return mk(OConstArr, "", 0, s, v) }

func MkDT(s *Sort, args ...*Term) *Term {
	if len(args) != len(s.Fields) {
		panic("MkDT arity " + s.Name)
	}
	// eta: mk(f0(t), f1(t)...) = t
	if len(args) > 0 && args[0].op == OField && args[0].n == 0 && args[0].args[0].sort == s {
		t := args[0].args[0]
		ok := true
		for i, a := range args {
			if a != Field(t, i) {
				ok = false
				break
			}
		}
		if ok {
			return t
		}
	}
	return mk(OMk, "", 0, s, args...)
}

func Field(t *Term, i int) *Term {
	switch t.op {
	case OMk:
		return t.args[i]
	case OIte:
		return Ite(t.args[0], Field(t.args[1], i), Field(t.args[2], i))
	case OAppend:
		if i == 0 {
			return Store(Field(t.args[0], 0), Field(t.args[0], 1), t.args[1])
		}
		return Add(Field(t.args[0], 1), Int(1))
	case OSeqCat:
		if i == 1 {
			return Add(Field(t.args[0], 1), Field(t.args[1], 1))
		}
	case OIter:
		if i == 1 && t.sort.Slice {
			if b := t.bods[0]; b.op == OAppend && b.args[0] == t.bvs[1] && SLen(t.args[1]) == Int(0) {
				return Max0(t.args[0])
			}
		}
	case OApp:
		if i == 1 && t.name == "slprefix" {
			return t.args[1]
		}
		if i == 1 && t.name == "slsub" {
			return Sub(t.args[2], t.args[1])
		}
		if i == 1 && t.name == "mapord" {
			return App("card", SInt, t.args[0])
		}
		if i == 1 && t.name == "split" {
			return Add(Int(1), App("seqlen", SInt, t.args...))
		}
	case OSortBy:
		if i == 1 {
			return Field(t.args[0], 1)
		}
	}
	return mk(OField, t.sort.Fields[i].Name, int64(i), t.sort.Fields[i].S, t)
}

func SetField(t *Term, i int, v *Term) *Term {
	as := make([]*Term, len(t.sort.Fields))
	for j := range as {
		if j == i {
			as[j] = v
		} else {
			as[j] = Field(t, j)
		}
	}
	return MkDT(t.sort, as...)
}

func SLen(s *Term) *Term { return Field(s, 1) }
func SArr(s *Term) *Term { return Field(s, 0) }
func SAt(s, i *Term) *Term {
	switch s.op {
	case OAppend:
		e := Eq(i, SLen(s.args[0]))
		if e.op == OTrue {
			return s.args[1]
		}
		// indices below the old length
		if d := Lt(i, SLen(s.args[0])); d.op == OTrue {
			return SAt(s.args[0], i)
		}
	case OSeqCat:
		if d := Lt(i, SLen(s.args[0])); d.op == OTrue {
			return SAt(s.args[0], i)
		}
		if d := Le(SLen(s.args[0]), i); d.op == OTrue {
			return SAt(s.args[1], Sub(i, SLen(s.args[0])))
		}
	case OIte:
		return Ite(s.args[0], SAt(s.args[1], i), SAt(s.args[2], i))
	case OApp:
		if s.name == "slprefix" {
			return SAt(s.args[0], i)
		}
		if isSplit(s) && i.op == OInt && 0 <= i.n && i.n <= 2 {
			x := s.args[0]
			for k := int64(0); k < i.n; k++ {
				_, x = cutParts(x, s.args[1])
			}
			before, _ := cutParts(x, s.args[1])
			return Ite(Contains(x, s.args[1]), before, x)
		}
		if s.name == "slsub" {
			return SAt(s.args[0], Add(s.args[1], i))
		}
	}
	return Select(SArr(s), i)
}
func EmptySlice(s *Sort) *Term {
	return MkDT(s, ConstArr(s.Fields[0].S, DefaultOf(s.Elem)), Int(0))
}
func Append(s, x *Term) *Term {
	if s.sort.Elem != x.sort {
		panic("append sort " + s.sort.Name + " " + x.sort.Name)
	}
	return mk(OAppend, "", 0, s.sort, s, x)
}
func SeqCat(a, b *Term) *Term {
	if b.op == OAppend {
		return Append(SeqCat(a, b.args[0]), b.args[1])
	}
	if SLen(b).op == OInt && SLen(b).n == 0 {
		return a
	}
	if SLen(a).op == OInt && SLen(a).n == 0 {
		return b
	}
	if l := SLen(b); l.op == OInt && l.n <= 16 {
		r := a
		for i := int64(0); i < l.n; i++ {
			r = Append(r, SAt(b, Int(i)))
		}
		return r
	}
	if b.op == OIte {
		return Ite(b.args[0], SeqCat(a, b.args[1]), SeqCat(a, b.args[2]))
	}
	if b.op == OSeqCat {
		return SeqCat(SeqCat(a, b.args[0]), b.args[1])
	}
	return mk(OSeqCat, "", 0, a.sort, a, b)
}

// DefaultOf is the zero value of a sort.
func DefaultOf(s *Sort) *Term {
	switch s.K {
	case kBool:
		return TFalse
	case kInt:
		return Int(0)
	case kStr:
		return Str("")
	case kAny:
		return AnyNil
	case kArr:
		return ConstArr(s, DefaultOf(s.Elem))
	case kDT:
		if s.Slice {
			return EmptySlice(s)
		}
		var as []*Term
		for _, f := range s.Fields {
			as = append(as, DefaultOf(f.S))
		}
		return MkDT(s, as...)
	}
	return App("zero_"+s.Name, s)
}

// ---------- strings ----------

func Concat(xs ...*Term) *Term {
	var out []*Term
	var add func(x *Term)
	add = func(x *Term) {
		if x.op == OConcat {
			for _, a := range x.args {
				add(a)
			}
			return
		}
		if x.op == OStr {
			if x.name == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].op == OStr {
				out[n-1] = Str(out[n-1].name + x.name)
				return
			}
		}
		out = append(out, x)
	}
	for _, x := range xs {
		add(x)
	}
	if len(out) == 0 {
		return Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(OConcat, "", 0, SStr, out...)
}

func StrLen(s *Term) *Term {
	switch s.op {
	case OStr:
		return Int(int64(len(s.name)))
	case OConcat:
		var as []*Term
		for _, a := range s.args {
			as = append(as, StrLen(a))
		}
		return Add(as...)
	case OIte:
		return Ite(s.args[0], StrLen(s.args[1]), StrLen(s.args[2]))
	}
	return mk(OStrLen, "", 0, SInt, s)
}

// cutAt splits a concatenation at a position that is visibly at a boundary or inside a literal.
func cutAt(parts []*Term, pos *Term) (before, after []*Term, ok bool) {
	cut := Int(0)
	for i, p := range parts {
		d := Sub(pos, cut)
		if d.op == OInt {
			if d.n == 0 {
				return parts[:i], parts[i:], true
			}
			if p.op == OStr && 0 < d.n && d.n < int64(len(p.name)) {
				before = append(append([]*Term{}, parts[:i]...), Str(p.name[:d.n]))
				after = append([]*Term{Str(p.name[d.n:])}, parts[i+1:]...)
				return before, after, true
			}
		}
		cut = Add(cut, StrLen(p))
	}
	if Sub(pos, cut).op == OInt && Sub(pos, cut).n == 0 {
		return parts, nil, true
	}
	return nil, nil, false
}

func Substr(s, off, n *Term) *Term {
	if off.op == OInt && off.n == 0 && n == StrLen(s) {
		return s
	}
	if n.op == OInt && n.n == 0 || s.op == OStr && s.name == "" {
		return Str("")
	}
	if s.op == OStr && off.op == OInt && n.op == OInt {
		a, l := int(off.n), int(n.n)
		if a >= 0 && a <= len(s.name) && l >= 0 {
			if a+l > len(s.name) {
				l = len(s.name) - a
			}
			return Str(s.name[a : a+l])
		}
	}
	if s.op == OConcat {
		// the ends fall between parts or inside literal parts
		a, ar, ok := cutAt(s.args, off)
		if ok {
			if n == Sub(StrLen(s), off) {
				return Concat(ar...)
			}
			b, _, ok := cutAt(s.args, Add(off, n))
			if ok && len(b) >= len(a) {
				if k, _, ok := cutAt(ar, n); ok {
					return Concat(k...)
				}
			}
		}
	}
	return mk(OSubstr, "", 0, SStr, s, off, n)
}

func PrefixOf(p, s *Term) *Term {
	if p.op == OStr && p.name == "" {
		return TTrue
	}
	if p.op == OStr && s.op == OStr {
		return Bool(strings.HasPrefix(s.name, p.name))
	}
	if p.op == OStr && s.op == OConcat && s.args[0].op == OStr {
		l := s.args[0].name
		if len(l) >= len(p.name) {
			return Bool(strings.HasPrefix(l, p.name))
		}
		if !strings.HasPrefix(p.name, l) {
			return TFalse
		}
		return PrefixOf(Str(p.name[len(l):]), Concat(s.args[1:]...))
	}
	if r := liftBool(s, func(s *Term) *Term { return PrefixOf(p, s) }); r != nil {
		return r
	}
	if p.op == OStr && strings.ContainsAny(p.name, lacks(s)) {
		return TFalse
	}
	return mk(OPrefixOf, "", 0, SBool, p, s)
}
func SuffixOf(p, s *Term) *Term {
	if p.op == OStr && s.op == OStr {
		return Bool(strings.HasSuffix(s.name, p.name))
	}
	if r := liftBool(s, func(s *Term) *Term { return SuffixOf(p, s) }); r != nil {
		return r
	}
	return mk(OSuffixOf, "", 0, SBool, p, s)
}
func Contains(s, t *Term) *Term {
	if t.op == OStr && s.op == OStr {
		return Bool(strings.Contains(s.name, t.name))
	}
	if t.op == OStr && s.op == OConcat {
		for _, a := range s.args {
			if a.op == OStr && strings.Contains(a.name, t.name) {
				return TTrue
			}
		}
		if len(t.name) == 1 {
			var cs []*Term
			for _, a := range s.args {
				cs = append(cs, Contains(a, t))
			}
			return Or(cs...)
		}
	}
	if r := liftBool(s, func(s *Term) *Term { return Contains(s, t) }); r != nil {
		return r
	}
	if t.op == OStr && t.name != "" && strings.ContainsAny(t.name, lacks(s)) {
		return TFalse
	}
	return mk(OContains, "", 0, SBool, s, t)
}

// lacks: the string variable s contains none of the characters listed in its name ("!lacks{...}").
func lacks(s *Term) string {
	if s.op == OVar {
		if i := strings.Index(s.name, "!lacks{"); i >= 0 {
			return s.name[i+7 : strings.LastIndex(s.name, "}")]
		}
	}
	return ""
}

func IndexOf(s, t *Term) *Term {
	if t.op == OStr && s.op == OStr {
		return Int(int64(strings.Index(s.name, t.name)))
	}
	if t.op == OStr && len(t.name) == 1 && s.op == OConcat {
		off := Int(0)
		for _, a := range s.args {
			if a.op == OStr {
				if i := strings.Index(a.name, t.name); i >= 0 {
					return Add(off, Int(int64(i)))
				}
			} else if Contains(a, t) != TFalse {
				break
			}
			off = Add(off, StrLen(a))
		}
	}
	if t.op == OStr && len(t.name) == 1 && Contains(s, t) == TFalse {
		return Int(-1)
	}
	if t.op == OStr && s.op == OConcat && s.args[0].op == OStr {
		if i := strings.Index(s.args[0].name, t.name); i >= 0 {
			return Int(int64(i))
		}
	}
	return mk(OIndexOf, "", 0, SInt, s, t)
}
func ReplaceAll(s, a, b *Term) *Term {
	if s.op == OStr && a.op == OStr && b.op == OStr && a.name != "" {
		return Str(strings.ReplaceAll(s.name, a.name, b.name))
	}
	return mk(OReplaceAll, "", 0, SStr, s, a, b)
}
func StrLt(a, b *Term) *Term {
	if a == b {
		return TFalse
	}
	if a.op == OStr && b.op == OStr {
		return Bool(a.name < b.name)
	}
	return mk(OStrLt, "", 0, SBool, a, b)
}

// ---------- binders ----------

var freshN int

func FreshVar(prefix string, s *Sort) *Term {
	freshN++
	return Var(fmt.Sprintf("%s!%d", prefix, freshN), s)
}

func freshLike(v *Term) *Term {
	if v.initial {
		return FreshVar("i!k!sb", v.sort)
	}
	return FreshVar("sb", v.sort)
}

// closeBinder turns free variables vs (OVar) into canonical bound variables in bodies.
func closeBinder(vs []*Term, bods []*Term) (bvs, out []*Term) {
	h := 0
	for _, b := range bods {
		if b.h > h {
			h = b.h
		}
	}
	m := map[*Term]*Term{}
	for i, v := range vs {
		pre := "b"
		if v.initial {
			pre = "i!k!b"
		}
		bv := mk(OBound, fmt.Sprintf("%s%d_%d", pre, h+1, i), 0, v.sort)
		bvs = append(bvs, bv)
		m[v] = bv
	}
	return bvs, SubstAll(bods, m)
}

func Quant(op Op, vs []*Term, body *Term) *Term {
	if isLit(body) {
		return body
	}
	var used []*Term
	for _, v := range vs {
		if mentions(body, v) {
			used = append(used, v)
		}
	}
	if len(used) == 0 {
		return body
	}
	bvs, bods := closeBinder(used, []*Term{body})
	return mkB(op, "", 0, SBool, nil, bvs, bods)
}
func Forall(vs []*Term, body *Term) *Term { return Quant(OForall, vs, body) }
func Exists(vs []*Term, body *Term) *Term { return Quant(OExists, vs, body) }

// OpenBinder replaces the bound variables by given terms.
func OpenBinder(t *Term, with []*Term) []*Term {
	m := map[*Term]*Term{}
	for i, v := range t.bvs {
		m[v] = with[i]
	}
	return SubstAll(t.bods, m)
}

// IterComp describes one loop-carried component.
type IterComp struct {
	v    *Term // free variable standing for the component in bodies
	init *Term
	step *Term // value after one iteration, over k and all comp vars
}

// MkIter builds the value of component i after n iterations, restricted to the
// components it depends on, in canonical order.
func MkIter(comps []IterComp, k *Term, i int, n *Term) *Term {
	if l := Lt(k, n); n.op != OFirst && !mentions(n, k) && l.op != OTrue && l.op != OFalse {
		cs := make([]IterComp, len(comps))
		for j, c := range comps {
			cs[j] = IterComp{c.v, c.init, substCached(c.step, l, nil, map[*Term]*Term{l: TTrue})}
		}
		comps = cs
	}
	if n.op == OFirst && !mentions(n, k) {
		// during the iterations counted the exit condition does not hold
		m := map[*Term]*Term{}
		var lits func(c *Term)
		lits = func(c *Term) {
			switch c.op {
			case OOr:
				for _, a := range c.args {
					lits(a)
				}
			case ONot:
				m[c.args[0]] = TTrue
			case OTrue, OFalse:
			default:
				m[c] = TFalse
			}
		}
		lits(OpenBinder(n, []*Term{k})[0])
		if len(n.args) > 0 {
			if l := Lt(k, n.args[0]); l.op != OTrue && l.op != OFalse {
				m[l] = TTrue
			}
		}
		if len(m) > 0 {
			if l := Lt(k, n); l.op != OTrue && l.op != OFalse {
				m[l] = TTrue
			}
			cs := make([]IterComp, len(comps))
			for j, c := range comps {
				cs[j] = IterComp{c.v, c.init, substCached(c.step, k, n, m)}
			}
			comps = cs
		}
	}
	// dependency closure in DFS order
	var order []int
	seen := map[int]bool{}
	byVar := map[*Term]int{}
	for j, c := range comps {
		byVar[c.v] = j
	}
	var visit func(j int)
	visit = func(j int) {
		if seen[j] {
			return
		}
		seen[j] = true
		order = append(order, j)
		for _, v := range varsInOrderMemo(comps[j].step) {
			if d, ok := byVar[v]; ok {
				visit(d)
			}
		}
	}
	visit(i)
	if n.op == OInt && n.n == 0 {
		return comps[i].init
	}
	if len(order) == 1 && !mentions(comps[i].step, comps[i].v) {
		return Ite(Le(n, Int(0)), comps[i].init, Subst(comps[i].step, map[*Term]*Term{k: Add(n, Int(-1))}))
	}
	if c := comps[i]; len(order) == 1 && c.step.op == OStore && c.step.args[0] == c.v && !mentions(c.step.args[1], k) && !mentions(c.step.args[1], c.v) {
		// only one location changes: carry its value alone
		x := FreshVar("loc", c.v.sort.Elem)
		b := Subst(c.step.args[2], map[*Term]*Term{Select(c.v, c.step.args[1]): x})
		if !mentions(b, c.v) {
			ref := c.step.args[1]
			return Store(c.init, ref, MkIter([]IterComp{{x, Select(c.init, ref), b}}, k, 0, n))
		}
	}
	if len(order) == 1 {
		c := comps[i]
		// acc' = acc ++ g(k): factor the initial value out
		switch c.v.sort.K {
		case kStr:
			ps := strParts(c.step)
			// something that comes first, in the first round only
			if len(ps) > 1 && ps[0] == c.v && ps[1].op == OIte && ps[1].args[2] == Str("") && !mentions(ps[1], c.v) &&
				(ps[1].args[0] == Eq(k, Int(0)) || ps[1].args[0] == Le(k, Int(0))) {
				if rest := Concat(ps[2:]...); !mentions(rest, c.v) {
					first := Subst(ps[1].args[1], map[*Term]*Term{k: Int(0)})
					return Concat(c.init, Ite(Lt(Int(0), n), first, Str("")), MkIter([]IterComp{{c.v, Str(""), Concat(c.v, rest)}}, k, 0, n))
				}
			}
			if len(ps) > 0 && ps[0] == c.v && !(c.init.op == OStr && c.init.name == "") {
				rest := Concat(ps[1:]...)
				if !mentions(rest, c.v) {
					return Concat(c.init, MkIter([]IterComp{{c.v, Str(""), c.step}}, k, 0, n))
				}
			}
		case kInt:
			d := Sub(c.step, c.v)
			if d.op == OInt && d.n == 1 {
				return Add(c.init, Max0(n))
			}
			if !mentions(d, c.v) && !(c.init.op == OInt && c.init.n == 0) {
				return Add(c.init, MkIter([]IterComp{{c.v, Int(0), c.step}}, k, 0, n))
			}
		case kDT:
			if c.v.sort.Slice && !(SLen(c.init).op == OInt && SLen(c.init).n == 0) && appendOnly(c.step, c.v) {
				return SeqCat(c.init, MkIter([]IterComp{{c.v, EmptySlice(c.v.sort), c.step}}, k, 0, n))
			}
			if c.v.sort.Slice && SLen(c.init).op == OInt && SLen(c.init).n == 0 && c.init != EmptySlice(c.v.sort) && appendOnly(c.step, c.v) {
				return MkIter([]IterComp{{c.v, EmptySlice(c.v.sort), c.step}}, k, 0, n)
			}
		}
	}
	if c := comps[i]; len(order) > 1 && c.v.sort.K == kStr && !(c.init.op == OStr && c.init.name == "") {
		// likewise if the text appended depends on other variables, none of which depends on the text
		if rest := appendedTo(c.v, c.step); rest != nil && !mentions(rest, c.v) {
			alone := true
			for _, j := range order {
				alone = alone && (j == i || !mentions(comps[j].step, c.v))
			}
			if alone {
				cs := append([]IterComp{}, comps...)
				cs[i] = IterComp{c.v, Str(""), Concat(c.v, rest)}
				return Concat(c.init, MkIter(cs, k, i, n))
			}
		}
	}
	if f := mapFuse(comps[i], k, n, len(order)); f != nil {
		return f
	}
	if len(order) >= manyComps {
		if t := bigIter(comps, byVar, k, i, n, order); t != nil {
			return t
		}
	}
	vs := []*Term{k}
	var bods, args []*Term
	args = append(args, n)
	for _, j := range order {
		vs = append(vs, comps[j].v)
		bods = append(bods, comps[j].step)
		args = append(args, comps[j].init)
	}
	bvs, obods := closeBinder(vs, bods)
	return mkB(OIter, "", 0, comps[i].v.sort, args, bvs, obods)
}

const manyComps = 24
const bigCond = 100000

type scKey struct{ t, a, b *Term }

var scMemo = map[scKey]*Term{}

// substCached is Subst with m, which is determined by a and b.
func substCached(t, a, b *Term, m map[*Term]*Term) *Term {
	if r, ok := scMemo[scKey{t, a, b}]; ok {
		return r
	}
	r := Subst(t, m)
	scMemo[scKey{t, a, b}] = r
	return r
}

var vioMemo = map[*Term][]*Term{}

func varsInOrderMemo(t *Term) []*Term {
	if r, ok := vioMemo[t]; ok {
		return r
	}
	r := varsInOrder(t)
	vioMemo[t] = r
	return r
}

type bigGroup struct {
	k          *Term
	vs, steps  []*Term
	bvs, obods []*Term
}

var lastBig *bigGroup

// bigIter is the case of many components depending on one another: they share
// one numbering, found from the component that is first in an order that does
// not depend on the one asked for, so that the bodies are closed once for all.
func bigIter(comps []IterComp, byVar map[*Term]int, k *Term, i int, n *Term, order []int) *Term {
	type sig struct{ size, init int }
	count := map[sig]int{}
	sigOf := func(j int) sig { return sig{comps[j].step.size, comps[j].init.id} }
	for _, j := range order {
		count[sigOf(j)]++
	}
	rep := -1
	var canon []int
	tried := append([]int(nil), order...)
	sort.SliceStable(tried, func(a, b int) bool {
		x, y := sigOf(tried[a]), sigOf(tried[b])
		return x.size > y.size || x.size == y.size && x.init < y.init
	})
	for _, j := range tried {
		if count[sigOf(j)] > 1 {
			continue
		}
		var o []int
		seen := map[int]bool{}
		var visit func(j int)
		visit = func(j int) {
			if seen[j] {
				return
			}
			seen[j] = true
			o = append(o, j)
			for _, v := range varsInOrderMemo(comps[j].step) {
				if d, ok := byVar[v]; ok {
					visit(d)
				}
			}
		}
		visit(j)
		if len(o) == len(order) {
			rep, canon = j, o
			break
		}
	}
	if rep < 0 {
		return nil
	}
	g := &bigGroup{k: k}
	for _, j := range canon {
		g.vs, g.steps = append(g.vs, comps[j].v), append(g.steps, comps[j].step)
	}
	same := func(a, b []*Term) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	if lastBig != nil && lastBig.k == k && same(lastBig.vs, g.vs) && same(lastBig.steps, g.steps) {
		g = lastBig
	} else {
		g.bvs, g.obods = closeBinder(append([]*Term{k}, g.vs...), g.steps)
		lastBig = g
	}
	args, bvs, bods := []*Term{n}, []*Term{g.bvs[0]}, []*Term(nil)
	add := func(p int) {
		args = append(args, comps[canon[p]].init)
		bvs = append(bvs, g.bvs[p+1])
		bods = append(bods, g.obods[p])
	}
	for p, j := range canon {
		if j == i {
			add(p)
		}
	}
	for p, j := range canon {
		if j != i {
			add(p)
		}
	}
	return mkB(OIter, "", 0, comps[i].v.sort, args, bvs, bods)
}

// mapFuse: a loop that appends one element computed from each element of a list that is itself built by appends
// is the list's own loop appending the computed elements.
func mapFuse(c IterComp, k, n *Term, deps int) *Term {
	if deps != 1 || !c.v.sort.Slice || c.init != EmptySlice(c.v.sort) || c.step.op != OAppend || c.step.args[0] != c.v {
		return nil
	}
	e := c.step.args[1]
	if mentions(e, c.v) || n.op != OField || n.n != 1 || n.args[0].op != OIter {
		return nil
	}
	L := n.args[0]
	if !L.sort.Slice || L.args[1] != EmptySlice(L.sort) {
		return nil
	}
	x := FreshVar("el", L.sort.Elem)
	f := Subst(e, map[*Term]*Term{SAt(L, k): x})
	if mentions(f, k) || mentions(f, L) {
		return nil
	}
	cs, kk := iterOpen(L)
	for _, o := range cs[1:] {
		if mentions(o.step, cs[0].v) {
			return nil
		}
	}
	if !appendOnly(cs[0].step, cs[0].v) {
		return nil
	}
	out := FreshVar("mapped", c.v.sort)
	var tr func(t *Term) *Term
	tr = func(t *Term) *Term {
		switch {
		case t == cs[0].v:
			return out
		case t.op == OAppend:
			if in := tr(t.args[0]); in != nil {
				return Append(in, Subst(f, map[*Term]*Term{x: t.args[1]}))
			}
		case t.op == OIte:
			a, b := tr(t.args[1]), tr(t.args[2])
			if a != nil && b != nil {
				return Ite(t.args[0], a, b)
			}
		}
		return nil
	}
	st := tr(cs[0].step)
	if st == nil {
		return nil
	}
	cs[0] = IterComp{out, c.init, st}
	return MkIter(cs, kk, 0, L.args[0])
}

// appendOnly: step only appends to v, the appended items not depending on v.
func appendOnly(step, v *Term) bool {
	switch {
	case step == v:
		return true
	case step.op == OAppend:
		return !mentions(step.args[1], v) && appendOnly(step.args[0], v)
	case step.op == OSeqCat:
		return !mentions(step.args[1], v) && appendOnly(step.args[0], v)
	case step.op == OIte:
		return !mentions(step.args[0], v) && appendOnly(step.args[1], v) && appendOnly(step.args[2], v)
	}
	return false
}

// iterRebuild rebuilds an Iter node from opened comps.
func iterAt(t *Term, n *Term) *Term {
	args := append([]*Term{n}, t.args[1:]...)
	if n.op == OInt && n.n == 0 {
		return t.args[1]
	}
	return mkB(OIter, "", 0, t.sort, args, t.bvs, t.bods)
}

// iterOpen returns comps with fresh variables, and the fresh k.
func iterOpen(t *Term) (comps []IterComp, k *Term) {
	k = FreshVar("i!k!it", SInt)
	with := []*Term{k}
	for j := 1; j < len(t.bvs); j++ {
		with = append(with, FreshVar("it!a", t.bvs[j].sort))
	}
	bods := OpenBinder(t, with)
	for j := range bods {
		comps = append(comps, IterComp{with[j+1], t.args[j+1], bods[j]})
	}
	return
}

// MkFirst: least k in [0,n) with cond(k), or n. n==nil: unbounded.
func MkFirst(k, cond, n *Term) *Term {
	if n != nil && !mentions(n, k) {
		if l := Lt(k, n); l.op != OTrue && l.op != OFalse {
			cond = Subst(cond, map[*Term]*Term{l: TTrue})
		}
	}
	if cond.op == OFalse && n != nil {
		return Max0(n)
	}
	bvs, bods := closeBinder([]*Term{k}, []*Term{cond})
	if cond.size > bigCond {
		bods[0] = canonBool(bods[0])
	}
	if n == nil {
		return mkB(OFirst, "", 0, SInt, nil, bvs, bods)
	}
	return mkB(OFirst, "", 0, SInt, []*Term{n}, bvs, bods)
}

// MkSortBy is s sorted by the order lt over x, y.
func MkSortBy(s, x, y, lt *Term) *Term {
	if l := SLen(s); l.op == OInt && l.n <= 1 {
		return s
	}
	if s.op == OIte {
		return Ite(s.args[0], MkSortBy(s.args[1], x, y, lt), MkSortBy(s.args[2], x, y, lt))
	}
	// a total order on values: only the multiset matters, so the order of enumeration does not
	if lt == StrLt(x, y) && s.op == OIter && len(s.bvs) == 2 {
		var ord *Term
		walkTerms(s, func(t *Term) {
			if t.op == OApp && t.name == "mapord" && t.args[1].name != "0" {
				ord = t
			}
		})
		if ord != nil && s.args[0] == SLen(ord) {
			fr := []*Term{FreshVar("i!k!so", SInt), FreshVar("so", s.bvs[1].sort)}
			body := OpenBinder(s, fr)[0]
			key := FreshVar("sk", ord.sort.Elem)
			b2 := Subst(body, map[*Term]*Term{SAt(ord, fr[0]): key})
			if appendOnly(b2, fr[1]) && !mentions(b2, fr[0]) && !mentions(b2, ord) {
				s = Subst(s, map[*Term]*Term{ord: App("mapord", ord.sort, ord.args[0], Str("0"))})
			}
		}
	}
	bvs, bods := closeBinder([]*Term{x, y}, []*Term{lt})
	return mkB(OSortBy, "", 0, s.sort, []*Term{s}, bvs, bods)
}

// ---------- traversal ----------

type mentKey struct{ t, v *Term }

var mentMemo = map[mentKey]bool{}

func mentions(t, v *Term) bool {
	if t == v {
		return true
	}
	if len(t.args) == 0 && len(t.bods) == 0 || !within(v, t) {
		return false
	}
	k := mentKey{t, v}
	if r, ok := mentMemo[k]; ok {
		return r
	}
	r := false
	for _, a := range t.args {
		if mentions(a, v) {
			r = true
			break
		}
	}
	if !r {
		for _, a := range t.bods {
			if mentions(a, v) {
				r = true
				break
			}
		}
	}
	mentMemo[k] = r
	return r
}

func mentionsAny(t *Term, vs map[*Term]bool) bool {
	for v := range vs {
		if mentions(t, v) {
			return true
		}
	}
	return false
}

func varsInOrder(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar {
			out = append(out, t)
		}
		for _, a := range t.args {
			w(a)
		}
		for _, a := range t.bods {
			w(a)
		}
	}
	w(t)
	return out
}

// Rebuild re-applies the smart constructor of t to new args.
func Rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case OApp:
		return App(t.name, t.sort, as...)
	case ONot:
		return Not(as[0])
	case OAnd:
		return And(as...)
	case OOr:
		return Or(as...)
	case OIte:
		return Ite(as[0], as[1], as[2])
	case OEq:
		return Eq(as[0], as[1])
	case OAdd:
		return Add(as...)
	case OMulC:
		return MulC(t.n, as[0])
	case OLe0:
		return Le0(as[0])
	case OSelect:
		return Select(as[0], as[1])
	case OStore:
		return Store(as[0], as[1], as[2])
	case OConstArr:
		return ConstArr(t.sort, as[0])
	case OMk:
		return MkDT(t.sort, as...)
	case OField:
		return Field(as[0], int(t.n))
	case OAppend:
		return Append(as[0], as[1])
	case OSeqCat:
		return SeqCat(as[0], as[1])
	case OConcat:
		return Concat(as...)
	case OStrLen:
		return StrLen(as[0])
	case OSubstr:
		return Substr(as[0], as[1], as[2])
	case OIndexOf:
		return IndexOf(as[0], as[1])
	case OPrefixOf:
		return PrefixOf(as[0], as[1])
	case OSuffixOf:
		return SuffixOf(as[0], as[1])
	case OContains:
		return Contains(as[0], as[1])
	case OReplaceAll:
		return ReplaceAll(as[0], as[1], as[2])
	case OStrLt:
		return StrLt(as[0], as[1])
	case OMax0:
		return Max0(as[0])
	}
	return t
}

// Subst replaces subterms (by identity) according to m.
func Subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	return SubstAll([]*Term{t}, m)[0]
}

// SubstAll replaces in several terms at once.
func SubstAll(ts []*Term, m map[*Term]*Term) []*Term {
	if len(m) == 0 {
		return append([]*Term(nil), ts...)
	}
	var keys []*Term
	for k := range m {
		keys = append(keys, k)
	}
	memo := map[*Term]*Term{}
	var w func(t *Term) *Term
	w = func(t *Term) *Term {
		may := false
		for _, k := range keys {
			if within(k, t) {
				may = true
				break
			}
		}
		if !may {
			return t
		}
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 && len(t.bods) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		ch := false
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = w(a)
			ch = ch || as[i] != a
		}
		if len(t.bvs) > 0 {
			bch := false
			for _, b := range t.bods {
				if w(b) != b {
					bch = true
				}
			}
			if !ch && !bch {
				r = t
			} else if !bch && t.op == OIter {
				if as[0].op == OInt && as[0].n == 0 {
					r = as[1]
				} else {
					r = reiter(t, as, t.bvs, t.bods)
				}
			} else if !bch && t.op == OSortBy {
				fr := []*Term{freshLike(t.bvs[0]), freshLike(t.bvs[1])}
				r = MkSortBy(as[0], fr[0], fr[1], OpenBinder(t, fr)[0])
			} else if !bch && t.op == OFirst {
				r = mkB(OFirst, "", 0, SInt, as, t.bvs, t.bods)
			} else {
				// open, substitute, close again (no capture, canonical heights)
				var fr []*Term
				for _, v := range t.bvs {
					fr = append(fr, freshLike(v))
				}
				ob := OpenBinder(t, fr)
				nb := SubstAll(ob, m)
				switch t.op {
				case OSortBy:
					r = MkSortBy(as[0], fr[0], fr[1], nb[0])
				case OForall, OExists:
					r = Quant(t.op, fr, nb[0])
				case OFirst:
					var n *Term
					if len(as) > 0 {
						n = as[0]
					}
					r = MkFirst(fr[0], nb[0], n)
				case OIter:
					var comps []IterComp
					for j := range nb {
						comps = append(comps, IterComp{fr[j+1], as[j+1], nb[j]})
					}
					r = MkIter(comps, fr[0], 0, as[0])
				}
			}
		} else if !ch {
			r = t
		} else {
			r = Rebuild(t, as)
		}
		if sp, ok := ptrSpace[t]; ok && r.op != OInt && isOldRef(r) {
			ptrSpace[r] = sp
		}
		memo[t] = r
		return r
	}
	out := make([]*Term, len(ts))
	for i, t := range ts {
		out[i] = w(t)
	}
	return out
}

func reiter(t *Term, as []*Term, bvs, bods []*Term) *Term {
	// re-run the normalisation when an initial value changed
	ch := false
	for i := 1; i < len(as); i++ {
		if as[i] != t.args[i] {
			ch = true
		}
	}
	if !ch {
		return mkB(OIter, "", 0, t.sort, as, bvs, bods)
	}
	var fr []*Term
	for _, v := range t.bvs {
		fr = append(fr, freshLike(v))
	}
	ob := OpenBinder(t, fr)
	var comps []IterComp
	for j := range ob {
		comps = append(comps, IterComp{fr[j+1], as[j+1], ob[j]})
	}
	return MkIter(comps, fr[0], 0, as[0])
}

// ---------- debug printing ----------

func trunc(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

func (t *Term) String() string {
	var b strings.Builder
	t.pr(&b, 0)
	return b.String()
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "+", OLe0: "0<=", OSelect: "sel", OStore: "store", OConstArr: "const", OAppend: "append", OConcat: "++", OStrLen: "strlen", OSubstr: "substr", OIndexOf: "indexof", OPrefixOf: "prefixof", OSuffixOf: "suffixof", OContains: "contains", OReplaceAll: "replaceall", OStrLt: "str<", OForall: "forall", OExists: "exists", OIter: "iter", OFirst: "first", OMax0: "max0", OSeqCat: "seqcat", OSortBy: "sortby"}

func (t *Term) pr(b *strings.Builder, d int) {
	if b.Len() > 20000 {
		b.WriteString("…")
		return
	}
	switch t.op {
	case OVar, OBound:
		b.WriteString(t.name)
		return
	case OInt:
		fmt.Fprintf(b, "%d", t.n)
		return
	case OStr:
		fmt.Fprintf(b, "%q", t.name)
		return
	case OTrue:
		b.WriteString("true")
		return
	case OFalse:
		b.WriteString("false")
		return
	}
	b.WriteByte('(')
	switch t.op {
	case OApp:
		b.WriteString(t.name)
	case OMk:
		b.WriteString("mk_" + t.sort.Name)
	case OField:
		b.WriteString("." + t.name)
	case OMulC:
		fmt.Fprintf(b, "*%d", t.n)
	default:
		b.WriteString(opNames[t.op])
	}
	for _, a := range t.args {
		b.WriteByte(' ')
		a.pr(b, d+1)
	}
	if len(t.bvs) > 0 {
		b.WriteString(" λ")
		for _, v := range t.bvs {
			b.WriteString(v.name + " ")
		}
		b.WriteString(".")
		for _, a := range t.bods {
			b.WriteByte(' ')
			a.pr(b, d+1)
		}
	}
	b.WriteByte(')')
}
