package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- values ----------

type Val struct {
	T   *Term
	A   *Addr
	Tup []Val
	Clo *Closure
	Rng *rangeIter
	In  *Val  // dynamic value of an interface, when statically known
	Pr  *Addr // where a slice value was loaded from
	Own bool  // the slice value lives in Pr
}

type Closure struct {
	fn    *ssa.Function
	free  []Val
	bound *Val // bound method receiver
}

type rangeIter struct {
	m    *Term
	mt   *types.Map
	dom  *Term
	ord  *Term
	cell string
}

type addrKind int

const (
	aCell addrKind = iota
	aObj
	aField
	aElem
	aSliceElem
)

type Addr struct {
	k    addrKind
	key  string
	ref  *Term
	typ  types.Type // pointee
	base *Addr
	fidx int
	idx  *Term
	sl   *Val
}

type unsupported struct{ msg string }

func unsup(f string, a ...any) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

// ---------- state ----------

type State struct {
	m map[string]*Term
}

func newState() *State { return &State{m: map[string]*Term{}} }
func (s *State) clone() *State {
	n := &State{m: make(map[string]*Term, len(s.m)+4)}
	for k, v := range s.m {
		n.m[k] = v
	}
	return n
}
func (s *State) get(key string, srt *Sort) *Term {
	if t, ok := s.m[key]; ok {
		return t
	}
	stateSort[key] = srt
	return initVar(key, srt)
}
func (s *State) set(key string, t *Term) { s.m[key] = t; stateSort[key] = t.sort }

var stateSort = map[string]*Sort{}

func initVar(key string, srt *Sort) *Term {
	if strings.HasPrefix(key, "A|") {
		return Var("i!alloc!"+key[2:], SInt)
	}
	if key == "X|bad" { // no call under contract has failed yet
		return TFalse
	}
	if strings.HasPrefix(key, "F|") { // failure flags start unset
		return ConstArr(srt, TFalse)
	}
	return Var("i!"+key, srt)
}

// ---------- obligations ----------

type Obl struct {
	Unit, Name, Class string
	Hyps              []*Term `json:"-"`
	Goal              *Term   `json:"-"`
	Pos               string
	Result            string // "", simplified, proved, failed
	Solver            string
	Detail            string
	Ms                int64
}

type assumption struct {
	t   *Term
	why string
}

type Exec struct {
	specSide    bool
	curSt       *State
	measure     *Term
	P           *Program
	obls        []*Obl
	assumes     []assumption
	frameN      int
	saltPfx     string
	saltN       int
	spec        int
	stack       []*ssa.Function
	unit        string
	used        map[string]bool // contracts relied on
	models      map[string]bool // external contracts assumed
	inlined     map[string]bool
	steps       int
	contract    *contractRun
	noSafety    bool
	prover      func(hyps []*Term, goal *Term) bool
	curPos      token.Pos
	roots       map[string]bool
	forceInline map[string]bool
	unitReq     bool
	lemma       bool           // the unit is a lemma: specifications are seen in full
	sturdy      map[*Term]bool // writers known to accept everything
	curFr       *Frame
}

type contractRun struct {
	requires   []assumption
	specs      []Val
	anys       []*Term // what v.Any left open in the contract itself
	ensures    []Val
	total      bool
	repeatable bool
	opaque     bool
	step       bool
	summary    bool
	known      [][2]*Term
	dec        *Term
	onlySafe   bool
	trusted    string
	asserts    int
}

func NewExec(P *Program, unit string) *Exec {
	return &Exec{P: P, unit: unit, used: map[string]bool{}, models: map[string]bool{}, inlined: map[string]bool{}, forceInline: map[string]bool{}, sturdy: map[*Term]bool{}}
}

func (ex *Exec) hyps(pc *Term) []*Term {
	var h []*Term
	for _, a := range ex.assumes {
		h = append(h, a.t)
	}
	if pc != TTrue {
		h = append(h, pc)
	}
	return h
}

func (ex *Exec) oblige(class, name string, pc, goal *Term) {
	if ex.noSafety && class == "safety" {
		return
	}
	if ex.spec > 0 && class == "safety" {
		return
	}
	if goal == TTrue || pc == TFalse {
		goal = TTrue
	} else if ex.curSt != nil && class == "safety" {
		// the state after a failed call is not known
		if bad := ex.curSt.get("X|bad", SBool); bad != TFalse {
			goal = And(goal, Not(simpUnder(pc, bad)))
		}
	}
	pos := ""
	if ex.curPos.IsValid() {
		p := ex.P.fset.Position(ex.curPos)
		pos = fmt.Sprintf("%s:%d", relFile(ex.P.repo, p.Filename), p.Line)
	}
	where := ""
	if len(ex.stack) > 0 {
		where = funcKey(ex.stack[len(ex.stack)-1])
	}
	o := &Obl{Unit: ex.unit, Name: name + " in " + where, Class: class, Hyps: ex.hyps(pc), Goal: goal, Pos: pos}
	if goal == TTrue {
		o.Result, o.Solver = "proved", "simplifier"
	}
	ex.obls = append(ex.obls, o)
}

func (ex *Exec) assume(pc, t *Term, why string) {
	t = Implies(pc, t)
	if t == TTrue && !strings.HasPrefix(why, "assumed") {
		return
	}
	for _, a := range ex.assumes {
		if a.t == t {
			return
		}
	}
	ex.assumes = append(ex.assumes, assumption{t, why})
}

// ---------- sorts of Go types ----------

var sortMemo = map[types.Type]*Sort{}
var dtTypes = map[*Sort]*types.Struct{}

func (ex *Exec) structName(st *types.Struct, t types.Type) string {
	if n, ok := ex.P.structNm[st]; ok {
		return n
	}
	n := shortType(t)
	ex.P.structNm[st] = n
	return n
}

func (ex *Exec) sortOf(t types.Type) *Sort {
	if s, ok := sortMemo[t]; ok {
		return s
	}
	s := ex.sortOf1(t)
	sortMemo[t] = s
	return s
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Byte || b.Kind() == types.Uint8)
}

func isExternal(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

func (ex *Exec) sortOf1(t types.Type) *Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Kind() == types.UntypedNil:
			return SInt
		case u.Kind() == types.UnsafePointer:
			return SInt
		}
		return OpaqueSort("Float")
	case *types.Pointer, *types.Map, *types.Chan:
		return SInt
	case *types.Signature:
		return OpaqueSort("Func")
	case *types.Interface:
		return SAny
	case *types.Slice:
		if isByteSlice(t) {
			return SStr
		}
		return SliceSort(ex.sortOf(u.Elem()))
	case *types.Array:
		return SliceSort(ex.sortOf(u.Elem()))
	case *types.Struct:
		if isExternal(t) {
			if ifaceName(t) == "reflect.Value" {
				return SRValue
			}
			for i := 0; i < u.NumFields(); i++ {
				if !u.Field(i).Exported() {
					return OpaqueSort("X_" + shortType(t))
				}
			}
		}
		name := "S<" + ex.structName(u, t) + ">"
		if s, ok := sortTab[name]; ok {
			return s
		}
		var fs []FieldDef
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, FieldDef{u.Field(i).Name(), ex.sortOf(u.Field(i).Type())})
		}
		s := regSort(&Sort{Name: name, K: kDT, Fields: fs})
		dtTypes[s] = u
		return s
	}
	return OpaqueSort("O_" + shortType(t))
}

// heapName is the object space of pointee type t.
func (ex *Exec) heapName(t types.Type) string {
	if st, ok := t.Underlying().(*types.Struct); ok {
		return ex.structName(st, t)
	}
	return "$" + shortType(t)
}

func isStruct(t types.Type) (*types.Struct, bool) {
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

// ---------- pointers ----------

var faTypes = map[string]struct {
	owner types.Type
	idx   int
}{}

var ptrSpace = map[*Term]string{} // initial pointer terms -> object space

var cellAddrs = map[string]*Addr{}

func (ex *Exec) ptrVal(ref *Term, elem types.Type) Val {
	if ref.op == OApp && strings.HasPrefix(ref.name, "cell|") {
		return Val{T: ref, A: cellAddrs[ref.name]}
	}
	if ref.op == OApp && strings.HasPrefix(ref.name, "fa|") {
		fa := faTypes[ref.name]
		base := ex.ptrVal(ref.args[0], fa.owner)
		return Val{T: ref, A: &Addr{k: aField, base: base.A, fidx: fa.idx, typ: elem}}
	}
	if ref.op != OInt && isOldRef(ref) {
		ptrSpace[ref] = ex.heapName(elem)
	}
	return Val{T: ref, A: &Addr{k: aObj, ref: ref, typ: elem}}
}

// refTerm gives the term of a pointer value.
func (ex *Exec) refTerm(a *Addr) *Term {
	switch a.k {
	case aObj:
		return a.ref
	case aField:
		st, _ := isStruct(a.base.typ)
		n := "fa|" + ex.heapName(a.base.typ) + "." + st.Field(a.fidx).Name()
		faTypes[n] = struct {
			owner types.Type
			idx   int
		}{a.base.typ, a.fidx}
		return App(n, SInt, ex.refTerm(a.base))
	case aCell:
		c := *a
		cellAddrs["cell|"+a.key] = &c
		return App("cell|"+a.key, SInt)
	}
	unsup("address of slice element used as a value")
	return nil
}

func (ex *Exec) fieldKey(t types.Type, i int) string {
	st, _ := isStruct(t)
	return "H|" + ex.heapName(t) + "|" + st.Field(i).Name()
}

func (ex *Exec) load(st *State, a *Addr) Val {
	return ex.wrap(ex.loadT(st, a), a.typ, a)
}

func (ex *Exec) wrap(t *Term, typ types.Type, from *Addr) Val {
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		return ex.ptrVal(t, u.Elem())
	case *types.Slice:
		if !isByteSlice(typ) {
			return Val{T: t, Pr: from}
		}
	case *types.Map:
		if t.op != OInt && isOldRef(t) {
			ptrSpace[t] = "map"
		}
	case *types.Signature:
		if c, ok := cloTerms[t]; ok {
			return Val{T: t, Clo: c}
		}
	}
	return Val{T: t}
}

// splitRoot decomposes an address whose root reference is a choice or an interior pointer.
func (ex *Exec) splitRoot(a *Addr) (c *Term, x, y *Addr) {
	switch a.k {
	case aObj:
		r := a.ref
		if r.op == OIte && hasFA(r) {
			p, q := *a, *a
			p.ref, q.ref = r.args[1], r.args[2]
			return r.args[0], &p, &q
		}
		if interior(r) {
			return nil, ex.ptrVal(r, a.typ).A, nil
		}
	case aField, aElem:
		c, x, y := ex.splitRoot(a.base)
		if x != nil {
			p := *a
			p.base = x
			x = &p
		}
		if y != nil {
			q := *a
			q.base = y
			y = &q
		}
		return c, x, y
	}
	return nil, nil, nil
}

func hasFA(t *Term) bool {
	if t.op == OIte {
		return hasFA(t.args[1]) || hasFA(t.args[2])
	}
	return interior(t)
}

func (ex *Exec) loadT(st *State, a *Addr) *Term {
	if c, x, y := ex.splitRoot(a); x != nil {
		if c == nil {
			return ex.loadT(st, x)
		}
		return Ite(c, ex.loadT(st, x), ex.loadT(st, y))
	}
	switch a.k {
	case aCell:
		return st.get(a.key, ex.sortOf(a.typ))
	case aObj:
		if s, ok := isStruct(a.typ); ok && ex.sortOf(a.typ).K == kDT {
			srt := ex.sortOf(a.typ)
			var as []*Term
			for i := 0; i < s.NumFields(); i++ {
				as = append(as, Select(st.get(ex.fieldKey(a.typ, i), ArrSort(SInt, srt.Fields[i].S)), a.ref))
			}
			return MkDT(srt, as...)
		}
		return Select(st.get("H|"+ex.heapName(a.typ), ArrSort(SInt, ex.sortOf(a.typ))), a.ref)
	case aField:
		if a.base.k == aObj {
			return Select(st.get(ex.fieldKey(a.base.typ, a.fidx), ArrSort(SInt, ex.sortOf(a.typ))), a.base.ref)
		}
		return Field(ex.loadT(st, a.base), a.fidx)
	case aElem:
		return SAt(ex.loadT(st, a.base), a.idx)
	case aSliceElem:
		return SAt(ex.term(st, *a.sl), a.idx)
	}
	panic("loadT")
}

func (ex *Exec) storeT(st *State, a *Addr, v *Term) {
	if c, x, y := ex.splitRoot(a); x != nil {
		if c == nil {
			ex.storeT(st, x, v)
			return
		}
		ex.storeT(st, x, Ite(c, v, ex.loadT(st, x)))
		ex.storeT(st, y, Ite(c, ex.loadT(st, y), v))
		return
	}
	switch a.k {
	case aCell:
		st.set(a.key, v)
	case aObj:
		if s, ok := isStruct(a.typ); ok && ex.sortOf(a.typ).K == kDT {
			srt := ex.sortOf(a.typ)
			for i := 0; i < s.NumFields(); i++ {
				k := ex.fieldKey(a.typ, i)
				st.set(k, Store(st.get(k, ArrSort(SInt, srt.Fields[i].S)), a.ref, Field(v, i)))
			}
			return
		}
		k := "H|" + ex.heapName(a.typ)
		st.set(k, Store(st.get(k, ArrSort(SInt, ex.sortOf(a.typ))), a.ref, v))
	case aField:
		if a.base.k == aObj {
			k := ex.fieldKey(a.base.typ, a.fidx)
			st.set(k, Store(st.get(k, ArrSort(SInt, ex.sortOf(a.typ))), a.base.ref, v))
			return
		}
		ex.storeT(st, a.base, SetField(ex.loadT(st, a.base), a.fidx, v))
	case aElem:
		s := ex.loadT(st, a.base)
		ex.storeT(st, a.base, MkDT(s.sort, Store(SArr(s), a.idx, v), SLen(s)))
	case aSliceElem:
		s := ex.term(st, *a.sl)
		ex.overwrite(st, a.sl, MkDT(s.sort, Store(SArr(s), a.idx, v), SLen(s)))
	}
}

// cur applies in-place modifications made to the backing array of slice value t.
func (ex *Exec) cur(st *State, t *Term) *Term {
	if !t.sort.Slice {
		return t
	}
	for i := 0; i < 100; i++ {
		n, ok := st.m["ov|"+fmt.Sprint(t.id)]
		if !ok {
			return t
		}
		t = n
	}
	unsup("slice override cycle")
	return nil
}

// overwrite changes the contents of slice value v in place.
func (ex *Exec) overwrite(st *State, v *Val, nt *Term) {
	if v.Own {
		ex.storeT(st, v.Pr, nt)
		return
	}
	old := ex.cur(st, v.T)
	if old == nt {
		return
	}
	if v.Pr != nil {
		at := ex.loadT(st, v.Pr)
		if at == v.T || ex.cur(st, at) == old {
			ex.storeT(st, v.Pr, nt)
		}
	}
	st.m["ov|"+fmt.Sprint(v.T.id)] = nt
}

var cloTerms = map[*Term]*Closure{}

// term turns a value into a term.
func (ex *Exec) term(st *State, v Val) *Term {
	switch {
	case v.Own:
		return ex.loadT(st, v.Pr)
	case v.T != nil:
		if v.T.sort.Slice {
			return ex.cur(st, v.T)
		}
		return v.T
	case v.A != nil:
		return ex.refTerm(v.A)
	case v.Clo != nil:
		var as []*Term
		for _, f := range v.Clo.free {
			as = append(as, ex.term(st, f))
		}
		t := App("clo|"+v.Clo.fn.String(), OpaqueSort("Func"), as...)
		cloTerms[t] = v.Clo
		return t
	}
	unsup("value without a term")
	return nil
}

// ---------- frames ----------

type Frame struct {
	fn        *ssa.Function
	regs      map[ssa.Value]Val
	id        int
	free      []Val
	loops     map[*ssa.BasicBlock]*loop
	rpo       []*ssa.BasicBlock
	rpoIx     map[*ssa.BasicBlock]int
	defers    []*ssa.Defer
	deferVals map[*ssa.Defer][]Val
}

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type edge struct {
	cond *Term
	from *ssa.BasicBlock
	to   *ssa.BasicBlock // nil: return
	idx  int             // index among to.Preds
	st   *State
}

type node struct {
	b     *ssa.BasicBlock
	edges []edge
	pc    *Term
}

func (ex *Exec) newFrame(fn *ssa.Function) *Frame {
	ex.frameN++
	fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, id: ex.frameN, deferVals: map[*ssa.Defer][]Val{}}
	fr.analyse()
	return fr
}

func (fr *Frame) analyse() {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fr.fn.Blocks[0])
	fr.rpoIx = map[*ssa.BasicBlock]int{}
	for i := len(post) - 1; i >= 0; i-- {
		fr.rpoIx[post[i]] = len(fr.rpo)
		fr.rpo = append(fr.rpo, post[i])
	}
	fr.loops = map[*ssa.BasicBlock]*loop{}
	for _, b := range fr.rpo {
		for _, s := range b.Succs {
			if fr.rpoIx[s] <= fr.rpoIx[b] {
				if !s.Dominates(b) {
					unsup("irreducible control flow in %s", fr.fn)
				}
				l := fr.loops[s]
				if l == nil {
					l = &loop{s, map[*ssa.BasicBlock]bool{s: true}}
					fr.loops[s] = l
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							add(p)
						}
					}
				}
				add(b)
			}
		}
	}
}

// region is a set of blocks executed acyclically, inner loops collapsed.
type region struct {
	fr     *Frame
	blocks map[*ssa.BasicBlock]bool // nil: whole function
	header *ssa.BasicBlock
	nodes  map[*ssa.BasicBlock]*node
	repM   map[*ssa.BasicBlock]*ssa.BasicBlock
}

func (r *region) in(b *ssa.BasicBlock) bool { return b != nil && (r.blocks == nil || r.blocks[b]) }

func (r *region) rep(b *ssa.BasicBlock) *ssa.BasicBlock {
	if x, ok := r.repM[b]; ok {
		return x
	}
	best := b
	for h, l := range r.fr.loops {
		if h == r.header && r.blocks != nil {
			continue
		}
		if !r.in(h) || !l.blocks[b] {
			continue
		}
		if r.blocks != nil && l.blocks[r.header] {
			continue
		}
		// outermost
		if best == b || len(l.blocks) > len(r.fr.loops[best].blocks) {
			if best != b || h != b {
				best = h
			}
		}
	}
	r.repM[b] = best
	return best
}

// gate combines leaf values over the edges reachable from start.
func (r *region) gate(start *ssa.BasicBlock, leaf func(e edge) *Term) *Term {
	memo := map[*node]*Term{}
	seen := map[*node]bool{}
	var eval func(n *node) *Term
	eval = func(n *node) *Term {
		if seen[n] {
			return memo[n]
		}
		seen[n] = true
		var res *Term
		for i := len(n.edges) - 1; i >= 0; i-- {
			e := n.edges[i]
			v := leaf(e)
			if v == nil && e.to != nil && r.in(e.to) && !(e.to == r.header) {
				if m, ok := r.nodes[r.rep(e.to)]; ok {
					v = eval(m)
				}
			}
			if v == nil {
				continue
			}
			if res == nil {
				res = v
			} else {
				res = Ite(e.cond, v, res)
			}
		}
		memo[n] = res
		return res
	}
	n, ok := r.nodes[start]
	if !ok {
		return nil
	}
	return eval(n)
}

// reach is the condition, relative to start, of taking an edge accepted by sel.
func (r *region) reach(start *ssa.BasicBlock, sel func(e edge) bool) *Term {
	memo := map[*node]*Term{}
	var eval func(n *node) *Term
	eval = func(n *node) *Term {
		if t, ok := memo[n]; ok {
			return t
		}
		memo[n] = TFalse
		var res *Term = TFalse
		for i := len(n.edges) - 1; i >= 0; i-- {
			e := n.edges[i]
			v := TFalse
			if sel(e) {
				v = TTrue
			} else if e.to != nil && r.in(e.to) && e.to != r.header {
				if m, ok := r.nodes[r.rep(e.to)]; ok {
					v = eval(m)
				}
			}
			if i == len(n.edges)-1 {
				res = v
				if len(n.edges) == 1 {
					res = And(e.cond, v)
				}
			} else {
				res = Ite(e.cond, v, res)
			}
		}
		memo[n] = res
		return res
	}
	n, ok := r.nodes[start]
	if !ok {
		return TFalse
	}
	return eval(n)
}

// mergeStates merges the states of the edges accepted by sel, seen from start.
func (ex *Exec) mergeStates(r *region, start *ssa.BasicBlock, sel func(e edge) bool) *State {
	var es []edge
	for _, n := range r.nodes {
		for _, e := range n.edges {
			if sel(e) {
				es = append(es, e)
			}
		}
	}
	if len(es) == 0 {
		return nil
	}
	if len(es) == 1 {
		return es[0].st.clone()
	}
	keys := map[string]bool{}
	same := map[string]bool{}
	for _, e := range es {
		for k := range e.st.m {
			keys[k] = true
		}
	}
	for k := range keys {
		eq := true
		for _, e := range es {
			if e.st.m[k] != es[0].st.m[k] {
				eq = false
				break
			}
		}
		same[k] = eq
	}
	out := newState()
	for k := range keys {
		if same[k] {
			out.m[k] = es[0].st.m[k]
			continue
		}
		if strings.HasPrefix(k, "ov|") {
			// override present on some paths only
			var id int
			fmt.Sscanf(k[3:], "%d", &id)
			base := termByID(id)
			out.m[k] = r.gate(start, func(e edge) *Term {
				if !sel(e) {
					return nil
				}
				if t, ok := e.st.m[k]; ok {
					return t
				}
				return base
			})
			continue
		}
		cell := strings.HasPrefix(k, "C|")
		v := r.gate(start, func(e edge) *Term {
			if !sel(e) {
				return nil
			}
			if t, ok := e.st.m[k]; ok {
				return t
			}
			if cell {
				return nil
			}
			return initVar(k, stateSort[k])
		})
		if v != nil {
			out.m[k] = v
		}
	}
	return out
}

func termByID(id int) *Term {
	if termIdx == nil || len(termIdx) < termCount {
		termIdx = make([]*Term, termCount)
		for _, t := range termTab {
			termIdx[t.id] = t
		}
	}
	return termIdx[id]
}

var termIdx []*Term

func (ex *Exec) runRegion(r *region, st *State, pc *Term) {
	fr := r.fr
	for _, b := range fr.rpo {
		if !r.in(b) || r.rep(b) != b {
			continue
		}
		var bst *State
		var bpc *Term
		entry := b == r.header
		if entry {
			bst, bpc = st.clone(), pc
		} else {
			into := func(e edge) bool { return e.to == b }
			any := false
			for _, n := range r.nodes {
				for _, e := range n.edges {
					if e.to == b {
						any = true
					}
				}
			}
			if !any {
				continue
			}
			d := r.rep(b.Idom())
			dn, ok := r.nodes[d]
			if !ok {
				continue
			}
			bpc = And(dn.pc, r.reach(d, into))
			bst = ex.mergeStates(r, d, into)
			if bpc != dn.pc {
				for k, t := range bst.m {
					if t.op == OIte {
						bst.m[k] = prune(bpc, t)
					}
				}
			}
			if lp := fr.loops[b]; lp != nil {
				// phis handled by the loop
				r.nodes[b] = &node{b: b, pc: bpc}
				inits := map[*ssa.Phi]Val{}
				for _, in := range b.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					inits[p] = ex.phiVal(r, d, p, bst, into)
				}
				r.nodes[b].edges = ex.execLoop(fr, lp, bst, inits, bpc)
				continue
			}
			for _, in := range b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				fr.regs[p] = ex.phiVal(r, d, p, bst, into)
			}
		}
		n := &node{b: b, pc: bpc}
		r.nodes[b] = n
		if entry && r.blocks == nil {
			if lp := fr.loops[b]; lp != nil {
				n.edges = ex.execLoop(fr, lp, bst, map[*ssa.Phi]Val{}, bpc)
				continue
			}
		}
		n.edges = ex.runBlock(fr, b, bst, bpc, n)
	}
}

func (ex *Exec) phiVal(r *region, d *ssa.BasicBlock, p *ssa.Phi, st *State, into func(e edge) bool) Val {
	fr := r.fr
	// values without terms: all live operands must agree
	var first *Val
	same := true
	for _, n := range r.nodes {
		for _, e := range n.edges {
			if !into(e) {
				continue
			}
			v := ex.operand(fr, p.Edges[e.idx])
			if first == nil {
				first = &v
			} else if first.T != v.T || first.A != v.A || first.Clo != v.Clo {
				same = false
			}
		}
	}
	if first != nil && same {
		return *first
	}
	t := r.gate(d, func(e edge) *Term {
		if !into(e) {
			return nil
		}
		return ex.term(e.st, ex.operand(fr, p.Edges[e.idx]))
	})
	if t == nil {
		unsup("phi without value")
	}
	return ex.wrap(t, p.Type(), nil)
}

func predIndex(from, to *ssa.BasicBlock, succIdx int) int {
	nth := 0
	for i := 0; i < succIdx; i++ {
		if from.Succs[i] == to {
			nth++
		}
	}
	for i, p := range to.Preds {
		if p == from {
			if nth == 0 {
				return i
			}
			nth--
		}
	}
	return 0
}

// prune drops the alternatives of t the path condition excludes.
func prune(pc, t *Term) *Term {
	for t.op == OIte {
		c := t.args[0]
		switch {
		case pcImplies(pc, c):
			t = t.args[1]
		case pcImplies(pc, Not(c)):
			t = t.args[2]
		default:
			return t
		}
	}
	return t
}

func pcImplies(pc, c *Term) bool {
	if pcKnows(pc, c) {
		return true
	}
	switch c.op {
	case OAnd:
		for _, a := range c.args {
			if !pcImplies(pc, a) {
				return false
			}
		}
		return true
	case OOr:
		for _, a := range c.args {
			if pcImplies(pc, a) {
				return true
			}
		}
	case ONot:
		if d := c.args[0]; d.op == OAnd {
			for _, a := range d.args {
				if pcImplies(pc, Not(a)) {
					return true
				}
			}
		} else if d.op == OOr {
			for _, a := range d.args {
				if !pcImplies(pc, Not(a)) {
					return false
				}
			}
			return true
		}
	}
	return false
}

func pcKnows(pc, c *Term) bool {
	if pc == c {
		return true
	}
	if pc.op == OAnd {
		for _, a := range pc.args {
			if a == c {
				return true
			}
		}
	}
	return false
}

func (ex *Exec) runBlock(fr *Frame, b *ssa.BasicBlock, st *State, pc *Term, n *node) []edge {
	ex.steps++
	if ex.steps > 400000 {
		unsup("step limit")
	}
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			ex.curPos = in.Pos()
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := ex.term(st, ex.operand(fr, x.Cond))
			if pcKnows(pc, c) || And(pc, Not(c)) == TFalse {
				c = TTrue
			} else if pcKnows(pc, Not(c)) || And(pc, c) == TFalse {
				c = TFalse
			}
			var es []edge
			if c != TFalse {
				es = append(es, edge{c, b, b.Succs[0], predIndex(b, b.Succs[0], 0), st})
			}
			if c != TTrue {
				es = append(es, edge{Not(c), b, b.Succs[1], predIndex(b, b.Succs[1], 1), st})
			}
			if len(es) == 1 {
				es[0].cond = TTrue
			}
			n.pc = pc
			return es
		case *ssa.Jump:
			n.pc = pc
			return []edge{{TTrue, b, b.Succs[0], predIndex(b, b.Succs[0], 0), st}}
		case *ssa.Return:
			n.pc = pc
			return []edge{{TTrue, b, nil, 0, st}}
		case *ssa.Panic:
			ex.oblige("safety", "explicit panic unreachable", pc, TFalse)
			return nil
		default:
			if ex.spec == 0 {
				ex.curSt = st
			}
			pc = ex.instr(fr, in, st, pc)
			if pc == TFalse {
				n.pc = TFalse
				return nil
			}
		}
	}
	return nil
}

// ---------- operands ----------

func (ex *Exec) operand(fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Function:
		return Val{Clo: &Closure{fn: x}}
	case *ssa.Global:
		return Val{A: &Addr{k: aCell, key: "G|" + x.String(), typ: x.Type().(*types.Pointer).Elem()}}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.free[i]
			}
		}
	case *ssa.Builtin:
		return Val{}
	}
	r, ok := fr.regs[v]
	if !ok {
		unsup("undefined register %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (ex *Exec) constVal(c *ssa.Const) Val {
	s := ex.sortOf(c.Type())
	if c.Value == nil {
		z := DefaultOf(s)
		return ex.wrap(z, c.Type(), nil)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Val{T: Bool(constant.BoolVal(c.Value))}
	case constant.String:
		return Val{T: Str(constant.StringVal(c.Value))}
	case constant.Int:
		if s.K == kInt {
			n, ok := constant.Int64Val(c.Value)
			if !ok {
				unsup("large constant")
			}
			return Val{T: Int(n)}
		}
		return Val{T: App("const_"+c.Value.String(), s)}
	}
	return Val{T: App("const_"+c.Value.String(), s)}
}

// zeroOf is the zero value of a Go type.
func (ex *Exec) zeroOf(t types.Type) *Term {
	if a, ok := t.Underlying().(*types.Array); ok {
		s := ex.sortOf(t)
		return MkDT(s, ConstArr(s.Fields[0].S, ex.zeroOf(a.Elem())), Int(a.Len()))
	}
	return DefaultOf(ex.sortOf(t))
}

func (ex *Exec) alloc(st *State, space string) *Term {
	k := "A|" + space
	n := Add(st.get(k, SInt), Int(1))
	st.set(k, n)
	return n
}

func (ex *Exec) newObj(st *State, t types.Type, v *Term) Val {
	ref := ex.alloc(st, ex.heapName(t))
	a := &Addr{k: aObj, ref: ref, typ: t}
	ex.storeT(st, a, v)
	return Val{T: ref, A: a}
}

// escapes decides whether a local variable needs an object identity.
func escapes(x *ssa.Alloc) bool {
	if x.Referrers() == nil {
		return false
	}
	_, str := isStruct(x.Type().(*types.Pointer).Elem())
	for _, r := range *x.Referrers() {
		switch y := r.(type) {
		case *ssa.Store:
			if y.Val == ssa.Value(x) {
				return true
			}
		case *ssa.MakeInterface:
			return true
		case *ssa.Phi, *ssa.Return, *ssa.MapUpdate, *ssa.ChangeType, *ssa.Convert:
			return true
		case *ssa.FieldAddr:
			if fieldEscapes(y) {
				return true
			}
		case *ssa.Call, *ssa.Defer:
			if str {
				return true
			}
		case *ssa.BinOp:
			return true
		}
	}
	return false
}

func fieldEscapes(x *ssa.FieldAddr) bool {
	if x.Referrers() == nil {
		return false
	}
	for _, r := range *x.Referrers() {
		switch y := r.(type) {
		case *ssa.Store:
			if y.Val == ssa.Value(x) {
				return true
			}
		case *ssa.MakeInterface, *ssa.Phi, *ssa.Return, *ssa.MapUpdate, *ssa.ChangeType, *ssa.Call:
			return true
		case *ssa.FieldAddr:
			if fieldEscapes(y) {
				return true
			}
		}
	}
	return false
}

func (ex *Exec) addrOf(v Val, pt types.Type) *Addr {
	if v.A != nil {
		return v.A
	}
	return ex.ptrVal(v.T, pt.Underlying().(*types.Pointer).Elem()).A
}

// rootRef is the reference whose nil-ness matters for an access through a.
func rootRef(a *Addr) *Term {
	for a.k == aField || a.k == aElem {
		a = a.base
	}
	if a.k == aObj {
		return a.ref
	}
	return nil
}

func (ex *Exec) checkNil(a *Addr, pc *Term, what string) *Term {
	r := rootRef(a)
	if r == nil {
		return pc
	}
	g := Not(Eq(r, Int(0)))
	if g == TTrue || pcKnows(pc, g) {
		return pc
	}
	for _, as := range ex.assumes {
		if as.t == g || as.t.op == OAnd && pcKnows(as.t, g) {
			return pc
		}
	}
	ex.oblige("safety", "non-nil "+what, pc, g)
	return And(pc, g)
}

// complete: the statements of an RDF graph, and the subject, predicate and object of each, are there (gordf). A
// reference taken from a graph is written nonnil(r), which is r where r is there.
func (ex *Exec) complete(st *State, v Val, a *Addr, t types.Type) Val {
	p, ok := t.(*types.Pointer)
	if !ok {
		return v
	}
	switch p.Elem().String() {
	case "github.com/spdx/gordf/rdfloader/parser.Triple":
		ok = a.k == aSliceElem || a.k == aElem
	case "github.com/spdx/gordf/rdfloader/parser.Node":
		ok = a.k == aSliceElem || a.k == aElem || a.k == aField && strings.HasSuffix(shortType(a.base.typ), "gordf/rdfloader/parser.Triple")
	default:
		ok = false
	}
	if !ok {
		return v
	}
	ex.assume(TTrue, TTrue, "assumed: the statements of an RDF graph and their parts are there (gordf)")
	return ex.ptrVal(nonNil(ex.term(st, v)), p.Elem())
}

func nonNil(t *Term) *Term {
	if isNonNil(t) {
		return t
	}
	return App("nonnil", SInt, t)
}

func isNonNil(t *Term) bool {
	return t.op == OApp && t.name == "nonnil" || t.op == OIte && isNonNil(t.args[1]) && isNonNil(t.args[2])
}

// instr executes one non-control instruction; it returns the path condition.
func (ex *Exec) instr(fr *Frame, in ssa.Instruction, st *State, pc *Term) *Term {
	op := func(v ssa.Value) Val {
		x := ex.operand(fr, v)
		if x.T != nil && x.T.op == OIte && (x.A == nil || x.A.k == aObj && x.A.ref == x.T) {
			if p, ok := v.Type().Underlying().(*types.Pointer); ok {
				if t := prune(pc, x.T); t != x.T {
					return ex.ptrVal(t, p.Elem())
				}
			}
		}
		return x
	}
	tm := func(v ssa.Value) *Term { return ex.term(st, ex.operand(fr, v)) }
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		if escapes(x) {
			fr.regs[x] = ex.newObj(st, t, ex.zeroOf(t))
			return pc
		}
		key := fmt.Sprintf("C|%d|%s", fr.id, x.Name())
		st.set(key, ex.zeroOf(t))
		fr.regs[x] = Val{A: &Addr{k: aCell, key: key, typ: t}}
	case *ssa.BinOp:
		fr.regs[x] = Val{T: ex.binop(x, tm(x.X), tm(x.Y), pc)}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := ex.addrOf(op(x.X), x.X.Type())
			pc = ex.checkNil(a, pc, "dereference")
			if g, ok := x.X.(*ssa.Global); ok {
				if v, ok := ex.globalInit(g); ok {
					fr.regs[x] = v
					return pc
				}
			}
			fr.regs[x] = ex.complete(st, ex.load(st, a), a, x.Type())
		case token.NOT:
			fr.regs[x] = Val{T: Not(tm(x.X))}
		case token.SUB:
			fr.regs[x] = Val{T: Neg(tm(x.X))}
		default:
			unsup("unary %s", x.Op)
		}
	case *ssa.Call:
		v, npc := ex.call(fr, &x.Call, st, pc, x)
		fr.regs[x] = v
		return npc
	case *ssa.ChangeInterface:
		fr.regs[x] = op(x.X)
	case *ssa.ChangeType:
		v := op(x.X)
		if p, ok := x.Type().Underlying().(*types.Pointer); ok {
			a := ex.addrOf(v, x.X.Type())
			na := *a
			na.typ = p.Elem()
			v = Val{T: v.T, A: &na}
		}
		fr.regs[x] = v
	case *ssa.Convert:
		fr.regs[x] = Val{T: ex.convert(x, tm(x.X))}
	case *ssa.MultiConvert:
		unsup("multiconvert")
	case *ssa.Extract:
		t := op(x.Tuple)
		if x.Index >= len(t.Tup) {
			unsup("extract from non-tuple")
		}
		fr.regs[x] = t.Tup[x.Index]
	case *ssa.Field:
		fr.regs[x] = ex.wrap(Field(tm(x.X), x.Field), x.Type(), nil)
	case *ssa.FieldAddr:
		a := ex.addrOf(op(x.X), x.X.Type())
		pc = ex.checkNil(a, pc, "field access")
		fr.regs[x] = ex.fieldAddr(a, x.Field)
	case *ssa.Index:
		s, i := tm(x.X), tm(x.Index)
		if s.sort == SStr {
			ex.bounds(i, StrLen(s), pc)
			fr.regs[x] = Val{T: byteAt(s, i)}
		} else {
			ex.bounds(i, SLen(s), pc)
			fr.regs[x] = ex.wrap(SAt(s, i), x.Type(), nil)
		}
	case *ssa.IndexAddr:
		i := tm(x.Index)
		v := op(x.X)
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok { // *array
			a := ex.addrOf(v, x.X.Type())
			ln := p.Elem().Underlying().(*types.Array).Len()
			ex.bounds(i, Int(ln), pc)
			fr.regs[x] = Val{A: &Addr{k: aElem, base: a, idx: i, typ: p.Elem().Underlying().(*types.Array).Elem()}}
			return pc
		}
		s := ex.term(st, v)
		if s.sort == SStr {
			pc = ex.bounds(i, StrLen(s), pc)
			key := fmt.Sprintf("C|%d|%s", fr.id, x.Name())
			st.set(key, byteAt(s, i))
			fr.regs[x] = Val{A: &Addr{k: aCell, key: key, typ: types.Typ[types.Byte]}}
			return pc
		}
		pc = ex.bounds(i, SLen(s), pc)
		vv := v
		fr.regs[x] = Val{A: &Addr{k: aSliceElem, sl: &vv, idx: i, typ: x.Type().(*types.Pointer).Elem()}}
	case *ssa.Lookup:
		mt, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			s, i := tm(x.X), tm(x.Index)
			ex.bounds(i, StrLen(s), pc)
			fr.regs[x] = Val{T: byteAt(s, i)}
			return pc
		}
		m, k := tm(x.X), tm(x.Index)
		has, v := ex.mapLookup(st, mt, m, k)
		vv := ex.wrap(v, mt.Elem(), nil)
		if x.CommaOk {
			fr.regs[x] = Val{Tup: []Val{vv, {T: has}}}
		} else {
			fr.regs[x] = vv
		}
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.free = append(c.free, op(b))
		}
		fr.regs[x] = Val{Clo: c}
	case *ssa.MakeInterface:
		v := op(x.X)
		vv := v
		fr.regs[x] = Val{T: ex.box(st, v, x.X.Type()), In: &vv}
	case *ssa.MakeMap:
		fr.regs[x] = Val{T: ex.newMap(st, x.Type().Underlying().(*types.Map))}
	case *ssa.MakeSlice:
		n := tm(x.Len)
		s := ex.sortOf(x.Type())
		if s == SStr {
			if n.op == OInt && n.n == 0 {
				fr.regs[x] = Val{T: Str("")}
			} else {
				fr.regs[x] = Val{T: App("zerobytes", SStr, n)}
			}
			return pc
		}
		ex.oblige("safety", "non-negative length", pc, Le(Int(0), n))
		t := MkDT(s, ConstArr(s.Fields[0].S, ex.zeroOf(x.Type().Underlying().(*types.Slice).Elem())), n)
		key := fmt.Sprintf("C|%d|%s", fr.id, x.Name())
		st.set(key, t)
		if n.op == OInt && n.n == 0 {
			fr.regs[x] = Val{T: t}
		} else {
			fr.regs[x] = Val{T: t, Own: true, Pr: &Addr{k: aCell, key: key, typ: x.Type()}}
		}
	case *ssa.MapUpdate:
		mt := x.Map.Type().Underlying().(*types.Map)
		m := tm(x.Map)
		g := Not(Eq(m, Int(0)))
		if g != TTrue && !pcKnows(pc, g) {
			ex.oblige("safety", "map is not nil on write", pc, g)
			pc = And(pc, g)
		}
		ex.mapStore(st, mt, m, tm(x.Key), tm(x.Value))
	case *ssa.Next:
		r := op(x.Iter).Rng
		if r == nil {
			unsup("next on string")
		}
		pos := st.get(r.cell, SInt)
		if d := ex.mapDom(st, r.mt, r.m); d != r.dom && !domSame(d, r.dom) {
			unsup("map modified during iteration: %s vs %s", trunc(d.String()), trunc(r.dom.String()))
		}
		ok := Lt(pos, SLen(r.ord))
		k := SAt(r.ord, pos)
		_, v := ex.mapLookup(st, r.mt, r.m, k)
		// keys enumerated are present
		v = Select(ex.mapVal(st, r.mt, r.m), k)
		st.set(r.cell, Add(pos, Int(1)))
		fr.regs[x] = Val{Tup: []Val{{T: ok}, ex.wrap(k, r.mt.Key(), nil), ex.wrap(v, r.mt.Elem(), nil)}}
	case *ssa.Range:
		mt, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			unsup("range over string")
		}
		m := tm(x.X)
		dom := ex.mapDom(st, mt, m)
		ex.saltN++
		ord := App("mapord", SliceSort(ex.sortOf(mt.Key())), dom, Str(fmt.Sprintf("%s%d", ex.saltPfx, ex.saltN)))
		key := fmt.Sprintf("C|%d|%s", fr.id, x.Name())
		st.set(key, Int(0))
		fr.regs[x] = Val{Rng: &rangeIter{m: m, mt: mt, dom: dom, ord: ord, cell: key}}
	case *ssa.Slice:
		fr.regs[x], pc = ex.slice(fr, x, st, pc)
	case *ssa.Store:
		a := ex.addrOf(op(x.Addr), x.Addr.Type())
		pc = ex.checkNil(a, pc, "store")
		ex.storeT(st, a, tm(x.Val))
	case *ssa.TypeAssert:
		fr.regs[x], pc = ex.typeAssert(x, op(x.X), st, pc)
	case *ssa.Defer:
		fr.defers = append(fr.defers, x)
		var vs []Val
		if !x.Call.IsInvoke() {
			vs = append(vs, op(x.Call.Value))
		} else {
			vs = append(vs, op(x.Call.Value))
		}
		for _, a := range x.Call.Args {
			vs = append(vs, op(a))
		}
		fr.deferVals[x] = vs
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			if !d.Block().Dominates(x.Block()) {
				if fr.rpoIx[d.Block()] < fr.rpoIx[x.Block()] && reaches(d.Block(), x.Block()) {
					unsup("conditional defer")
				}
				continue
			}
			_, pc = ex.callVals(fr, &d.Call, fr.deferVals[d], st, pc, d)
		}
	case *ssa.Go, *ssa.Send, *ssa.Select:
		unsup("concurrency")
	case *ssa.SliceToArrayPointer:
		unsup("slice to array pointer")
	default:
		unsup("instruction %T", in)
	}
	return pc
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var w func(x *ssa.BasicBlock) bool
	w = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if w(s) {
				return true
			}
		}
		return false
	}
	return w(a)
}

func domSame(a, b *Term) bool {
	// stores of keys from the enumeration do not change the domain
	for a.op == OStore && a.args[2] == TTrue {
		if Select(b, a.args[1]) == TTrue || a.args[1].op == OSelect && strings.Contains(a.args[1].args[0].String(), "mapord") {
			a = a.args[0]
			continue
		}
		return false
	}
	return a == b
}

func (ex *Exec) fieldAddr(a *Addr, i int) Val {
	s, ok := isStruct(a.typ)
	if !ok {
		unsup("field of non-struct")
	}
	return Val{A: &Addr{k: aField, base: a, fidx: i, typ: s.Field(i).Type()}}
}

func byteAt(s, i *Term) *Term {
	if s.op == OStr && i.op == OInt && i.n >= 0 && int(i.n) < len(s.name) {
		return Int(int64(s.name[i.n]))
	}
	return App("byteat", SInt, s, i)
}

func (ex *Exec) bounds(i, n, pc *Term) *Term {
	g := And(Le(Int(0), i), Lt(i, n))
	if g == TTrue {
		return pc
	}
	known := true
	for _, c := range andParts(g) {
		if !pcKnows(pc, c) {
			known = false
		}
	}
	if known {
		return pc
	}
	ex.oblige("safety", "index in range", pc, g)
	return And(pc, g)
}

func andParts(t *Term) []*Term {
	if t.op == OAnd {
		return t.args
	}
	return []*Term{t}
}

func (ex *Exec) binop(x *ssa.BinOp, a, b, pc *Term) *Term {
	switch x.Op {
	case token.ADD:
		if a.sort == SStr {
			return Concat(a, b)
		}
		if a.sort == SInt {
			return Add(a, b)
		}
	case token.SUB:
		if a.sort == SInt {
			return Sub(a, b)
		}
	case token.MUL:
		if a.op == OInt {
			return MulC(a.n, b)
		}
		if b.op == OInt {
			return MulC(b.n, a)
		}
		return App("mul", SInt, a, b)
	case token.QUO, token.REM:
		n := "div"
		if x.Op == token.REM {
			n = "mod"
		}
		if a.sort == SInt {
			ex.oblige("safety", "divisor not zero", pc, Not(Eq(b, Int(0))))
		}
		return App("go"+n, a.sort, a, b)
	case token.EQL:
		return ex.eqVal(a, b)
	case token.NEQ:
		return Not(ex.eqVal(a, b))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.sort == SInt {
			switch x.Op {
			case token.LSS:
				return Lt(a, b)
			case token.LEQ:
				return Le(a, b)
			case token.GTR:
				return Lt(b, a)
			default:
				return Le(b, a)
			}
		}
		if a.sort == SStr {
			switch x.Op {
			case token.LSS:
				return StrLt(a, b)
			case token.LEQ:
				return Not(StrLt(b, a))
			case token.GTR:
				return StrLt(b, a)
			default:
				return Not(StrLt(a, b))
			}
		}
	case token.AND:
		for i := 0; i < 2; i++ {
			m, k := a, b
			if i == 1 {
				m, k = b, a
			}
			if k.op == OInt && k.n > 0 && k.n&(k.n-1) == 0 {
				return Ite(App("bitset", SBool, m, k), k, Int(0))
			}
		}
		return App("bitand", SInt, a, b)
	case token.OR:
		return App("bitor", SInt, a, b)
	case token.XOR:
		return App("bitxor", SInt, a, b)
	case token.SHL:
		return App("shl", SInt, a, b)
	case token.SHR:
		return App("shr", SInt, a, b)
	case token.AND_NOT:
		return App("andnot", SInt, a, b)
	}
	return App("binop"+x.Op.String(), ex.sortOf(x.Type()), a, b)
}

// eqVal: Go equality on terms; slices are only comparable with nil in Go.
func (ex *Exec) eqVal(a, b *Term) *Term {
	if a.sort.Slice || b.sort.Slice {
		// nil-ness of slices is abstracted to emptiness
		if a == EmptySlice(a.sort) {
			return Eq(SLen(b), Int(0))
		}
		if b == EmptySlice(b.sort) {
			return Eq(SLen(a), Int(0))
		}
	}
	return Eq(a, b)
}

func (ex *Exec) convert(x *ssa.Convert, t *Term) *Term {
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	fs, ts := ex.sortOf(x.X.Type()), ex.sortOf(x.Type())
	if fs == ts && (fs == SStr || fs == SInt) {
		return t
	}
	_ = from
	if fs == SInt && ts == SStr {
		return App("runestr", SStr, t)
	}
	if fs == SStr && ts.Slice { // []rune(s)
		return App("runes", ts, t)
	}
	if fs.Slice && ts == SStr {
		if t.op == OApp && t.name == "runes" {
			return t.args[0]
		}
		return App("unrunes", SStr, t)
	}
	_ = to
	return App("conv_"+shortType(x.Type()), ts, t)
}

// ---------- interfaces ----------

var boxTypes = map[string]types.Type{}

func (ex *Exec) box(st *State, v Val, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return ex.term(st, v)
	}
	n := shortType(t)
	boxTypes[n] = t
	return App("box_"+n, SAny, ex.term(st, v))
}

func (ex *Exec) tagOf(t *Term) *Term { return App("tagof", SInt, t) }

func (ex *Exec) typeAssert(x *ssa.TypeAssert, v Val, st *State, pc *Term) (Val, *Term) {
	a := ex.term(st, v)
	var ok *Term
	var res Val
	if it, isIf := x.AssertedType.Underlying().(*types.Interface); isIf {
		if a.op == OApp && strings.HasPrefix(a.name, "box_") {
			ok = Bool(types.Implements(boxTypes[a.name[4:]], it))
		} else if it.NumMethods() == 0 {
			ok = Not(Eq(a, AnyNil))
		} else {
			ok = And(Not(Eq(a, AnyNil)), App("implements|"+shortType(x.AssertedType), SBool, a))
		}
		res = Val{T: Ite(ok, a, AnyNil), In: v.In}
	} else {
		n := shortType(x.AssertedType)
		boxTypes[n] = x.AssertedType
		ok = Eq(ex.tagOf(a), Int(typeTag(n)))
		s := ex.sortOf(x.AssertedType)
		in := a
		if in.op == OIte {
			in = simpUnder(And(pc, ok), in)
		}
		u := App("unbox_"+n, s, in)
		if x.CommaOk {
			u = Ite(ok, u, ex.zeroOf(x.AssertedType))
		}
		if v.In != nil && ok == TTrue {
			res = *v.In
		} else {
			res = ex.wrap(u, x.AssertedType, nil)
		}
	}
	if x.CommaOk {
		return Val{Tup: []Val{res, {T: ok}}}, pc
	}
	if ok != TTrue && !pcKnows(pc, ok) {
		ex.oblige("safety", "type assertion to "+shortType(x.AssertedType), pc, ok)
		pc = And(pc, ok)
	}
	return res, pc
}

// ---------- maps ----------

func (ex *Exec) mapKeys(mt *types.Map) (dk, vk string, ds, vs *Sort) {
	n := shortType(mt.Key()) + "," + shortType(mt.Elem())
	ks, es := ex.sortOf(mt.Key()), ex.sortOf(mt.Elem())
	return "MD|" + n, "MV|" + n, ArrSort(ks, SBool), ArrSort(ks, es)
}

func (ex *Exec) mapDom(st *State, mt *types.Map, m *Term) *Term {
	dk, _, ds, _ := ex.mapKeys(mt)
	h := st.get(dk, ArrSort(SInt, ds))
	d := Select(h, m)
	if m.op == OInt && m.n == 0 {
		return ConstArr(ds, TFalse)
	}
	return d
}
func (ex *Exec) mapVal(st *State, mt *types.Map, m *Term) *Term {
	_, vk, _, vs := ex.mapKeys(mt)
	return Select(st.get(vk, ArrSort(SInt, vs)), m)
}

func (ex *Exec) mapLookup(st *State, mt *types.Map, m, k *Term) (has, v *Term) {
	has = Select(ex.mapDom(st, mt, m), k)
	if nz := Not(Eq(m, Int(0))); nz != TTrue {
		has = And(nz, has)
	}
	z := ex.zeroOf(mt.Elem())
	v = Ite(has, Select(ex.mapVal(st, mt, m), k), z)
	return
}

func (ex *Exec) mapStore(st *State, mt *types.Map, m, k, v *Term) {
	dk, vk, ds, vs := ex.mapKeys(mt)
	dh, vh := st.get(dk, ArrSort(SInt, ds)), st.get(vk, ArrSort(SInt, vs))
	st.set(dk, Store(dh, m, Store(Select(dh, m), k, TTrue)))
	st.set(vk, Store(vh, m, Store(Select(vh, m), k, v)))
}

func (ex *Exec) newMap(st *State, mt *types.Map) *Term {
	dk, vk, ds, vs := ex.mapKeys(mt)
	ref := ex.alloc(st, "map")
	st.set(dk, Store(st.get(dk, ArrSort(SInt, ds)), ref, ConstArr(ds, TFalse)))
	st.set(vk, Store(st.get(vk, ArrSort(SInt, vs)), ref, ConstArr(vs, ex.zeroOf(mt.Elem()))))
	return ref
}

// ---------- slices ----------

func (ex *Exec) slice(fr *Frame, x *ssa.Slice, st *State, pc *Term) (Val, *Term) {
	v := ex.operand(fr, x.X)
	var lo, hi *Term = Int(0), nil
	if x.Low != nil {
		lo = ex.term(st, ex.operand(fr, x.Low))
	}
	if x.High != nil {
		hi = ex.term(st, ex.operand(fr, x.High))
	}
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok { // array
		a := ex.addrOf(v, x.X.Type())
		_ = p
		t := ex.loadT(st, a)
		if x.Low == nil && (x.High == nil) {
			if isByteSlice(x.Type()) {
				return Val{T: App("arrbytes", SStr, t)}, pc
			}
			return Val{T: t, Pr: a}, pc
		}
		v = Val{T: t, Pr: a}
	}
	t := ex.term(st, v)
	if t.sort == SStr {
		n := StrLen(t)
		if hi == nil {
			hi = n
		}
		g := And(Le(Int(0), lo), Le(lo, hi), Le(hi, n))
		if g != TTrue {
			ex.oblige("safety", "slice bounds", pc, g)
			pc = And(pc, g)
		}
		return Val{T: Substr(t, lo, Sub(hi, lo))}, pc
	}
	n := SLen(t)
	if hi == nil {
		hi = n
	}
	// capacity is not modelled: reslicing beyond the length is rejected
	g := And(Le(Int(0), lo), Le(lo, hi), Le(hi, n))
	if g != TTrue {
		ex.oblige("safety", "slice bounds", pc, g)
		pc = And(pc, g)
	}
	r := Subslice(t, lo, hi)
	return Val{T: r, Pr: nil}, pc
}

func Subslice(t, lo, hi *Term) *Term {
	if lo.op == OInt && lo.n == 0 {
		if hi == SLen(t) {
			return t
		}
		if t.op == OAppend && hi == SLen(t.args[0]) {
			return t.args[0]
		}
		if hi.op == OInt && hi.n == 0 {
			return EmptySlice(t.sort)
		}
		return mk(OApp, "slprefix", 0, t.sort, t, hi)
	}
	if lo == hi {
		return EmptySlice(t.sort)
	}
	return mk(OApp, "slsub", 0, t.sort, t, lo, hi)
}

var _ = sort.Strings
