package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// CallCtx is what a model of an external function sees.
type CallCtx struct {
	ex   *Exec
	fr   *Frame
	st   *State
	pc   *Term
	args []Val
	name string
	sig  *types.Signature
	npc  *Term
	call ssa.Instruction
}

func (c *CallCtx) t(i int) *Term { return c.ex.term(c.st, c.args[i]) }

type Model func(c *CallCtx) Val

func (ex *Exec) call(fr *Frame, cc *ssa.CallCommon, st *State, pc *Term, in ssa.Instruction) (Val, *Term) {
	vs := []Val{ex.operand(fr, cc.Value)}
	for _, a := range cc.Args {
		vs = append(vs, ex.operand(fr, a))
	}
	return ex.callVals(fr, cc, vs, st, pc, in)
}

func (ex *Exec) callVals(fr *Frame, cc *ssa.CallCommon, vs []Val, st *State, pc *Term, in ssa.Instruction) (Val, *Term) {
	pos := ex.curPos
	defer func() { ex.curPos = pos }()
	if cc.IsInvoke() {
		return ex.invoke(fr, cc, vs[0], vs[1:], st, pc, in)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return ex.builtin(fr, b, cc, vs[1:], st, pc)
	}
	f := vs[0]
	if f.Clo == nil && f.T != nil {
		f.Clo = cloTerms[f.T]
	}
	args := vs[1:]
	if f.Clo == nil && f.T != nil && fromCaller(f.T) {
		// a caller-supplied callback: a pure function of its arguments
		ex.assume(TTrue, TTrue, "assumed: callbacks supplied by the caller are pure and return")
		if ex.spec == 0 {
			ex.oblige("safety", "non-nil callback", pc, TTrue)
		}
		var as []*Term
		as = append(as, f.T)
		for _, a := range args {
			as = append(as, ex.term(st, a))
		}
		var rs []Val
		res := cc.Signature().Results()
		for i := 0; i < res.Len(); i++ {
			rt := res.At(i).Type()
			rs = append(rs, ex.wrap(App(fmt.Sprintf("callback|%s|%d", cc.Signature(), i), ex.sortOf(rt), as...), rt, nil))
		}
		if len(rs) == 1 {
			return rs[0], pc
		}
		return Val{Tup: rs}, pc
	}
	if f.Clo == nil {
		if indDebug {
			fmt.Println("unknown function value", f.T, f.A != nil, f.Pr)
		}
		unsup("call of unknown function value")
	}
	return ex.callFn(fr, f.Clo, args, st, pc, in)
}

func (ex *Exec) callFn(fr *Frame, c *Closure, args []Val, st *State, pc *Term, in ssa.Instruction) (Val, *Term) {
	fn := c.fn
	if fn.Synthetic != "" && strings.HasPrefix(fn.Synthetic, "bound method") {
		// free var 0 is the receiver
		args = append([]Val{c.free[0]}, args...)
		m := fn.Object().(*types.Func)
		if g := ex.P.ssa.FuncValue(m); g != nil {
			return ex.callFn(fr, &Closure{fn: g}, args, st, pc, in)
		}
		unsup("bound method %s", fn)
	}
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if strings.HasPrefix(name, modPath+"/verifspec.") {
		return ex.intrinsic(fr, strings.TrimPrefix(name, modPath+"/verifspec."), fn, args, st, pc, in)
	}
	if m, ok := modelTab[name]; ok {
		ex.models[name] = true
		cx := &CallCtx{ex: ex, fr: fr, st: st, pc: pc, args: args, name: name, sig: fn.Signature, npc: pc, call: in}
		v := m(cx)
		return v, cx.npc
	}
	if r, ok := redirectTab[name]; ok {
		ex.models[name] = true
		g, ok := ex.P.ssaPkgs["verifspec"].Members[r].(*ssa.Function)
		if !ok {
			unsup("reference program %s", r)
		}
		return ex.runFn(g, nil, args, st, pc)
	}
	key := funcKey(fn)
	if con := ex.P.contracts[key]; con != nil && fn.Parent() == nil && !ex.forceInline[key] {
		return ex.applyContract(key, fn, con, args, st, pc)
	}
	if fn.Blocks == nil {
		unsup("external function %s has no assumed contract", name)
	}
	if fn.Pkg != nil && !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
		unsup("external function %s has no assumed contract", name)
	}
	fromSpec := len(ex.stack) == 0 || ex.P.isOverlayFn(ex.stack[len(ex.stack)-1])
	if ex.spec > 0 && fromSpec && fn.Parent() == nil && !ex.P.isOverlayFn(fn) && fn.Synthetic == "" {
		unsup("specification calls %s, which has no contract", key)
	}
	for _, s := range ex.stack {
		if s == fn {
			unsup("recursive function %s without a contract", key)
		}
	}
	if len(ex.stack) > 24 {
		unsup("inlining depth")
	}
	if fn.Parent() == nil && !ex.P.isOverlayFn(fn) {
		ex.inlined[key] = true
	}
	return ex.runFn(fn, c.free, args, st, pc)
}

// runFn executes a body symbolically; st is updated to the final state.
func (ex *Exec) runFn(fn *ssa.Function, free, args []Val, st *State, pc *Term) (Val, *Term) {
	if ex.spec > 0 && !ex.specSide && ex.contract == nil && !ex.P.isOverlayFn(fn) {
		// a callback of the code run by a callee's specification is code again
		old := ex.spec
		ex.spec = 0
		defer func() { ex.spec = old }()
	}
	ex.stack = append(ex.stack, fn)
	defer func() { ex.stack = ex.stack[:len(ex.stack)-1] }()
	fr := ex.newFrame(fn)
	fr.free = free
	if len(args) != len(fn.Params) {
		unsup("arity of %s", fn)
	}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	r := &region{fr: fr, header: fn.Blocks[0], nodes: map[*ssa.BasicBlock]*node{}, repM: map[*ssa.BasicBlock]*ssa.BasicBlock{}}
	ex.runRegion(r, st, pc)
	ret := func(e edge) bool { return e.to == nil }
	out := ex.mergeStates(r, fn.Blocks[0], ret)
	if out == nil {
		return Val{}, TFalse
	}
	npc := And(pc, r.reach(fn.Blocks[0], ret))
	// results
	nres := fn.Signature.Results().Len()
	var single []edge
	for _, n := range r.nodes {
		for _, e := range n.edges {
			if ret(e) {
				single = append(single, e)
			}
		}
	}
	resAt := func(e edge, i int) Val {
		rt := e.from.Instrs[len(e.from.Instrs)-1].(*ssa.Return)
		return ex.operand(fr, rt.Results[i])
	}
	var res []Val
	for i := 0; i < nres; i++ {
		v0 := resAt(single[0], i)
		same := true
		for _, e := range single[1:] {
			v := resAt(e, i)
			if v.T != v0.T || v.A != v0.A || v.Clo != v0.Clo || v.Own != v0.Own || v.Pr != v0.Pr && v.Own || v.T == nil && v.Clo == nil {
				same = false
			}
		}
		if same && len(single) >= 1 {
			if v0.Own || v0.T != nil && v0.T.sort.Slice {
				// contents may have been overridden in place
				t := r.gate(fn.Blocks[0], func(e edge) *Term {
					if !ret(e) {
						return nil
					}
					return ex.term(e.st, v0)
				})
				if t != v0.T || v0.Own {
					v0 = Val{T: t}
				}
			}
			res = append(res, v0)
			continue
		}
		t := r.gate(fn.Blocks[0], func(e edge) *Term {
			if !ret(e) {
				return nil
			}
			return ex.term(e.st, resAt(e, i))
		})
		res = append(res, ex.wrap(t, fn.Signature.Results().At(i).Type(), nil))
	}
	// drop the frame's private cells
	pre := fmt.Sprintf("C|%d|", fr.id)
	for k := range out.m {
		if strings.HasPrefix(k, pre) && !ex.keepCells(fn) {
			delete(out.m, k)
		}
	}
	st.m = out.m
	if nres == 1 {
		return res[0], npc
	}
	return Val{Tup: res}, npc
}

// closures returned by contract functions capture cells of their frame
func (ex *Exec) keepCells(fn *ssa.Function) bool { return len(fn.AnonFuncs) > 0 }

func (ex *Exec) invoke(fr *Frame, cc *ssa.CallCommon, recv Val, args []Val, st *State, pc *Term, in ssa.Instruction) (Val, *Term) {
	mname := cc.Method.Name()
	rt := ex.term(st, recv)
	if k := ghostKind(rt); k != "" {
		full := "ghost:" + k + "." + mname
		md, ok := modelTab[full]
		if !ok {
			unsup("method %s", full)
		}
		ex.models[full] = true
		cx := &CallCtx{ex: ex, fr: fr, st: st, pc: pc, args: append([]Val{{T: rt}}, args...), name: full, sig: cc.Method.Type().(*types.Signature), npc: pc, call: in}
		v := md(cx)
		return v, cx.npc
	}
	if rt.op == OApp && strings.HasPrefix(rt.name, "box_") {
		t := boxTypes[rt.name[4:]]
		sel := ex.P.ssa.MethodSets.MethodSet(t).Lookup(cc.Method.Pkg(), mname)
		if sel == nil {
			unsup("method %s on %s", mname, t)
		}
		var rv Val
		if recv.In != nil && !isIface(t) {
			rv = *recv.In
		} else {
			rv = ex.wrap(rt.args[0], t, nil)
		}
		m := sel.Obj().(*types.Func)
		full := m.FullName()
		if md, ok := modelTab[full]; ok {
			ex.models[full] = true
			cx := &CallCtx{ex: ex, fr: fr, st: st, pc: pc, args: append([]Val{rv}, args...), name: full, sig: m.Type().(*types.Signature), npc: pc, call: in}
			v := md(cx)
			return v, cx.npc
		}
		fn := ex.P.ssa.MethodValue(sel)
		if fn == nil {
			unsup("no body for %s", full)
		}
		if fn.Synthetic != "" && ex.P.ssa.FuncValue(m) != nil {
			// wrapper (value receiver through pointer): call the target directly when it is direct
			g := ex.P.ssa.FuncValue(m)
			_, wantPtr := g.Signature.Recv().Type().(*types.Pointer)
			_, havePtr := t.(*types.Pointer)
			if wantPtr == havePtr {
				fn = g
			} else if havePtr && !wantPtr {
				a := ex.addrOf(rv, t)
				pc = ex.checkNil(a, pc, "method receiver")
				rv = ex.load(st, a)
				fn = g
			}
		}
		return ex.callFn(fr, &Closure{fn: fn}, append([]Val{rv}, args...), st, pc, in)
	}
	full := "(" + ifaceName(cc.Value.Type()) + ")." + mname
	if md, ok := modelTab[full]; ok {
		ex.models[full] = true
		cx := &CallCtx{ex: ex, fr: fr, st: st, pc: pc, args: append([]Val{recv}, args...), name: full, sig: cc.Method.Type().(*types.Signature), npc: pc, call: in}
		v := md(cx)
		return v, cx.npc
	}
	unsup("interface call %s", full)
	return Val{}, pc
}

func isIface(t types.Type) bool { _, ok := t.Underlying().(*types.Interface); return ok }

func ifaceName(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return t.String()
}

func (ex *Exec) builtin(fr *Frame, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, st *State, pc *Term) (Val, *Term) {
	tm := func(i int) *Term { return ex.term(st, args[i]) }
	switch b.Name() {
	case "len":
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Map:
			return Val{T: App("card", SInt, ex.mapDomNil(st, u, tm(0)))}, pc
		default:
			t := tm(0)
			if t.sort == SStr {
				return Val{T: StrLen(t)}, pc
			}
			if t.sort.Slice {
				return Val{T: SLen(t)}, pc
			}
		}
	case "append":
		s := tm(0)
		if s.sort == SStr {
			return Val{T: Concat(s, tm(1))}, pc
		}
		return Val{T: SeqCat(s, tm(1))}, pc
	case "delete":
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		m, k := tm(0), tm(1)
		dk, vk, ds, vs := ex.mapKeys(mt)
		dh, vh := st.get(dk, ArrSort(SInt, ds)), st.get(vk, ArrSort(SInt, vs))
		st.set(dk, Store(dh, m, Store(Select(dh, m), k, TFalse)))
		st.set(vk, Store(vh, m, Store(Select(vh, m), k, ex.zeroOf(mt.Elem()))))
		return Val{}, pc
	case "recover":
		return Val{T: AnyNil}, pc
	case "ssa:wrapnilchk":
		a := ex.addrOf(args[0], cc.Args[0].Type())
		pc = ex.checkNil(a, pc, "method receiver")
		return args[0], pc
	case "copy":
		unsup("copy")
	case "cap":
		unsup("cap")
	case "print", "println":
		return Val{}, pc
	case "min", "max":
	}
	unsup("builtin %s", b.Name())
	return Val{}, pc
}

func (ex *Exec) mapDomNil(st *State, mt *types.Map, m *Term) *Term {
	d := ex.mapDom(st, mt, m)
	if nz := Not(Eq(m, Int(0))); nz != TTrue {
		return Ite(nz, d, ConstArr(d.sort, TFalse))
	}
	return d
}

// ---------- contracts ----------

func (ex *Exec) evalContract(con *ssa.Function, args []Val, st *State, pc *Term) *contractRun {
	old, oldSpec := ex.contract, ex.spec
	cr := &contractRun{}
	ex.contract = cr
	ex.spec++
	ex.runFn(con, nil, args, st, pc)
	ex.contract, ex.spec = old, oldSpec
	return cr
}

func (ex *Exec) applyContract(key string, fn, con *ssa.Function, args []Val, st *State, pc *Term) (Val, *Term) {
	cr := ex.evalContract(con, args, st, pc)
	if cr.onlySafe {
		// safety contract: inline the body
		for _, s := range ex.stack {
			if s == fn {
				unsup("recursive function %s", key)
			}
		}
		return ex.runFn(fn, nil, args, st, pc)
	}
	ex.used[key] = true
	for _, rq := range cr.requires {
		if rq.t != TTrue && ex.spec == 0 {
			ex.oblige("safety", "precondition of "+key, pc, rq.t)
		}
		pc = And(pc, rq.t)
	}
	if cr.dec != nil && ex.measure != nil && ex.spec == 0 {
		ex.oblige("safety", "recursion ends: measure of "+key+" smaller", pc, And(Le(Int(0), cr.dec), Lt(cr.dec, ex.measure)))
	}
	var res Val
	pre := st.clone()
	if cr.summary && !ex.lemma {
		res = ex.summaryStep(key, fn, con, args, st)
		if rs := fn.Signature.Results(); !cr.total && ex.spec == 0 && rs.Len() > 0 && isErrorType(rs.At(rs.Len()-1).Type()) {
			e := res
			if rs.Len() > 1 {
				e = res.Tup[rs.Len()-1]
			}
			if fail := And(pc, Not(Eq(ex.term(st, e), AnyNil))); fail != TFalse {
				st.set("X|bad", Or(st.get("X|bad", SBool), fail))
			}
		}
	} else if len(cr.specs) > 0 && !cr.opaque {
		run := st
		if cr.step {
			run = st.clone()
		}
		old := ex.spec
		ex.spec++
		var npc *Term
		res, npc = ex.callFn(nil, cr.specs[0].Clo, nil, run, pc, nil)
		ex.spec = old
		if npc == TFalse {
			unsup("specification of %s does not return", key)
		}
		if cr.step {
			res = ex.abstractStep(key, fn, args, res, st, run)
		}
		if rs := fn.Signature.Results(); !cr.total && ex.spec == 0 && rs.Len() > 0 && isErrorType(rs.At(rs.Len()-1).Type()) {
			e := res
			if rs.Len() > 1 {
				e = res.Tup[rs.Len()-1]
			}
			if fail := And(pc, Not(Eq(ex.term(st, e), AnyNil))); fail != TFalse {
				st.set("X|bad", Or(st.get("X|bad", SBool), fail))
			}
		}
	} else {
		// opaque results: some function of the arguments (that it is one is checked with the contract)
		if !cr.opaque {
			unsup("contract of %s has no Spec", key)
		}
		var vs []Val
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			rt := fn.Signature.Results().At(i).Type()
			var as []*Term
			for _, a := range args {
				as = append(as, ex.term(pre, a))
			}
			r := App(fmt.Sprintf("res|%s|%d", key, i), ex.sortOf(rt), as...)
			if i == 0 {
				for _, kn := range cr.known {
					r = Ite(kn[0], kn[1], r)
				}
			}
			vs = append(vs, ex.wrap(r, rt, nil))
		}
		if len(vs) == 1 {
			res = vs[0]
		} else {
			res = Val{Tup: vs}
		}
	}
	for _, en := range cr.ensures {
		var rs []Val
		if fn.Signature.Results().Len() == 1 {
			rs = []Val{res}
		} else {
			rs = res.Tup
		}
		old := ex.spec
		ex.spec++
		v, _ := ex.callFn(nil, en.Clo, rs, st.clone(), pc, nil)
		ex.spec = old
		// it holds for every value of what the contract leaves open
		t := v.T
		var open []*Term
		for _, a := range cr.anys {
			if mentions(t, a) {
				open = append(open, a)
			}
		}
		if len(open) > 0 {
			t = Forall(open, t)
		}
		ex.assume(pc, t, "postcondition of "+key)
	}
	return res, pc
}

// abstractStep replaces the specified effect of a call by an unspecified function of what it reads and changes.
func (ex *Exec) abstractStep(key string, fn *ssa.Function, args []Val, res Val, st, run *State) Val {
	var changed []string
	deps := map[string]bool{}
	note := func(t *Term) {
		walkTerms(t, func(x *Term) {
			if x.op == OVar && x.initial && strings.HasPrefix(x.name, "i!") && strings.Contains(x.name, "|") {
				deps[x.name[2:]] = true
			}
		})
	}
	for k, v := range run.m {
		if strings.HasPrefix(k, "C|") || strings.HasPrefix(k, "ov|") || k == "X|bad" {
			continue
		}
		if o, ok := st.m[k]; ok && o == v || !ok && v == initVar(k, v.sort) {
			continue
		}
		changed = append(changed, k)
		deps[k] = true
		note(v)
	}
	for k := range st.m {
		if !strings.HasPrefix(k, "C|") && !strings.HasPrefix(k, "ov|") && k != "X|bad" {
			deps[k] = true
		}
	}
	rs := []Val{res}
	if fn.Signature.Results().Len() > 1 {
		rs = res.Tup
	}
	if fn.Signature.Results().Len() == 0 {
		rs = nil
	}
	for _, r := range rs {
		note(ex.term(run, r))
	}
	var ks []string
	for k := range deps {
		if stateSort[k] != nil {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	sort.Strings(changed)
	var as []*Term
	for _, a := range args {
		as = append(as, ex.term(st, a))
	}
	for _, k := range ks {
		as = append(as, st.get(k, stateSort[k]))
	}
	tok := App("step|"+key, OpaqueSort("Step"), as...)
	for _, k := range changed {
		if strings.HasPrefix(k, "A|") {
			st.set(k, Add(st.get(k, SInt), App("nn|"+key+"|"+k, SInt, tok)))
			continue
		}
		st.set(k, App("post|"+key+"|"+k, stateSort[k], tok))
	}
	var out []Val
	for i := range rs {
		rt := fn.Signature.Results().At(i).Type()
		out = append(out, ex.wrap(App(fmt.Sprintf("res|%s|%d", key, i), ex.sortOf(rt), tok), rt, nil))
	}
	if len(out) == 1 {
		return out[0]
	}
	return Val{Tup: out}
}

// footprint is what a specification reads, changes and appends to the output of one of its arguments.
type footprint struct {
	deps, changed []string
	writer        int // index of the argument written to, or -1
}

var footprints = map[string]*footprint{}

// appendedTo is the text t has after the text was, nil if t does not continue it.
func appendedTo(was, t *Term) *Term {
	switch {
	case t == was:
		return Str("")
	case t.op == OConcat && t.args[0] == was:
		return Concat(t.args[1:]...)
	case t.op == OIte:
		a, b := appendedTo(was, t.args[1]), appendedTo(was, t.args[2])
		if a != nil && b != nil {
			return Ite(t.args[0], a, b)
		}
	}
	return nil
}

// footprintOf runs the specification on arbitrary arguments in an arbitrary state.
// Specifications which call one another are run until their footprints, each
// computed from those of the others, are reproduced.
func (P *Program) footprintOf(key string, fn, con *ssa.Function) *footprint {
	if fp := footprints[key]; fp != nil {
		return fp
	}
	lower := func(d int) {
		if n := len(fpLow); n > 0 && d < fpLow[n-1] {
			fpLow[n-1] = d
		}
	}
	if d, busy := fpBusy[key]; busy {
		lower(d)
		if fpNow[key] == nil {
			fpNow[key] = &footprint{writer: -1}
		}
		return fpNow[key]
	}
	if d, seen := fpSeen[key]; seen {
		lower(d)
		return fpNow[key]
	}
	depth := len(fpLow)
	fpBusy[key] = depth
	defer delete(fpBusy, key)
	for round := 0; ; round++ {
		if round > 40 {
			unsup("footprint of %s does not settle", key)
		}
		first, growth := len(fpOrder), fpGrowth
		const never = 1 << 30
		fpLow = append(fpLow, never)
		t0 := time.Now()
		fp := P.footprintOnce(key, fn, con)
		if os.Getenv("GV_FP") != "" {
			fmt.Fprintf(os.Stderr, "footprint %s round %d: %v, %d deps %d changed (terms %d)\n", key, round, time.Since(t0), len(fp.deps), len(fp.changed), termCount)
		}
		low := fpLow[depth]
		fpLow = fpLow[:depth]
		o := fpNow[key]
		if o != nil {
			if fp.writer != o.writer {
				unsup("footprint of a recursive writer")
			}
			fp.deps, fp.changed = union(o.deps, fp.deps), union(o.changed, fp.changed)
		}
		if o == nil || len(o.deps) != len(fp.deps) || len(o.changed) != len(fp.changed) {
			fpGrowth++
		}
		fpNow[key] = fp
		fpOrder = append(fpOrder, key)
		if low < depth {
			// part of a recursion through a caller
			fpSeen[key] = low
			lower(low)
			return fp
		}
		group := append([]string(nil), fpOrder[first:]...)
		fpOrder = fpOrder[:first]
		for _, k := range group {
			delete(fpSeen, k)
		}
		if low == never || growth == fpGrowth {
			for _, k := range group {
				footprints[k] = fpNow[k]
				delete(fpNow, k)
			}
			return footprints[key]
		}
		// going on from the union saves rounds (any footprints that are reproduced are sound)
		all := &footprint{writer: -1}
		for _, k := range group {
			all.deps, all.changed = union(all.deps, fpNow[k].deps), union(all.changed, fpNow[k].changed)
		}
		for _, k := range group {
			if fpNow[k].writer == -1 {
				fpNow[k] = &footprint{deps: all.deps, changed: all.changed, writer: -1}
			}
		}
	}
}

var fpBusy, fpSeen = map[string]int{}, map[string]int{}
var fpNow = map[string]*footprint{}
var fpLow []int      // per computation under way: the outermost one it depends on
var fpOrder []string // computed in the current round
var fpGrowth int

func union(a, b []string) []string {
	m := map[string]bool{}
	for _, x := range append(append([]string(nil), a...), b...) {
		m[x] = true
	}
	var out []string
	for x := range m {
		out = append(out, x)
	}
	sort.Strings(out)
	return out
}

func (P *Program) footprintOnce(key string, fn, con *ssa.Function) *footprint {
	ex := NewExec(P, key)
	st := newState()
	args := ex.paramVals(fn)
	ex.unitReq = true
	cr := ex.evalContract(con, args, st, TTrue)
	ex.unitReq = false
	pc := TTrue
	for _, rq := range cr.requires {
		pc = And(pc, rq.t)
	}
	pre := st.clone()
	ex.spec++
	var res Val
	if len(cr.specs) > 0 {
		res, _ = ex.callFn(nil, cr.specs[0].Clo, nil, st, pc, nil)
	} else { // without a specification, what the code itself reads and writes
		res, _ = ex.runFn(fn, nil, args, st, pc)
	}
	fp := &footprint{writer: -1}
	deps := map[string]bool{}
	note := func(t *Term) {
		walkTerms(t, func(x *Term) {
			if x.op == OVar && x.initial && strings.HasPrefix(x.name, "i!") && strings.Contains(x.name, "|") {
				deps[x.name[2:]] = true
			}
		})
	}
	for k, v := range st.m {
		if strings.HasPrefix(k, "C|") || strings.HasPrefix(k, "ov|") || k == "X|bad" {
			continue
		}
		o := pre.get(k, v.sort)
		if o == v {
			continue
		}
		if k == "O|out" && v.op == OStore && v.args[0] == o {
			// text appended to what an argument received
			w, t := v.args[1], v.args[2]
			was := Select(o, w)
			for i, a := range args {
				if a.T == w {
					rest := appendedTo(was, t)
					if rest != nil && !mentions(rest, w) && !mentions(rest, o) {
						fp.writer = i
						note(rest)
					}
				}
			}
			if fp.writer >= 0 {
				continue
			}
		}
		fp.changed = append(fp.changed, k)
		deps[k] = true
		note(v)
	}
	rs := []Val{res}
	if fn.Signature.Results().Len() != 1 {
		rs = res.Tup
	}
	for _, r := range rs {
		note(ex.term(st, r))
	}
	for k := range deps {
		if stateSort[k] != nil {
			fp.deps = append(fp.deps, k)
		}
	}
	sort.Strings(fp.deps)
	sort.Strings(fp.changed)
	return fp
}

// summaryStep is a call seen as an unspecified function of its arguments and footprint.
func (ex *Exec) summaryStep(key string, fn, con *ssa.Function, args []Val, st *State) Val {
	fp := ex.P.footprintOf(key, fn, con)
	var as []*Term
	for i, a := range args {
		if i != fp.writer {
			as = append(as, ex.term(st, a))
		}
	}
	for _, k := range fp.deps {
		as = append(as, st.get(k, stateSort[k]))
	}
	tok := App("step|"+key, OpaqueSort("Step"), as...)
	for _, k := range fp.changed {
		if strings.HasPrefix(k, "A|") {
			st.set(k, Add(st.get(k, SInt), App("nn|"+key+"|"+k, SInt, tok)))
			continue
		}
		st.set(k, App("post|"+key+"|"+k, stateSort[k], tok))
	}
	if fp.writer >= 0 {
		ex.emit(st, ex.term(st, args[fp.writer]), App("text|"+key, SStr, tok))
	}
	var out []Val
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		rt := fn.Signature.Results().At(i).Type()
		out = append(out, ex.wrap(App(fmt.Sprintf("res|%s|%d", key, i), ex.sortOf(rt), tok), rt, nil))
	}
	if len(out) == 1 {
		return out[0]
	}
	return Val{Tup: out}
}

// ---------- intrinsics ----------

func (ex *Exec) closureOf(st *State, v Val) Val {
	if v.Clo == nil && v.In != nil {
		return *v.In
	}
	return v
}

func (ex *Exec) intrinsic(fr *Frame, name string, fn *ssa.Function, args []Val, st *State, pc *Term, in ssa.Instruction) (Val, *Term) {
	cr := ex.contract
	switch name {
	case "Requires":
		t := ex.term(st, args[0])
		if t.op == OApp && t.name == "sturdy" && ex.unitReq {
			ex.sturdy[t.args[0]] = true
		}
		// the earlier preconditions hold as well, so the path condition need not repeat them
		had := map[*Term]bool{}
		for _, rq := range cr.requires {
			for _, p := range andParts(rq.t) {
				had[p] = true
			}
		}
		rest := TTrue
		for _, p := range andParts(pc) {
			if !had[p] {
				rest = And(rest, p)
			}
		}
		cr.requires = append(cr.requires, assumption{Implies(rest, t), "requires"})
		return Val{}, And(pc, t)
	case "Spec":
		cr.specs = append(cr.specs, ex.closureOf(st, args[0]))
	case "Ensures":
		cr.ensures = append(cr.ensures, ex.closureOf(st, args[0]))
	case "Repeatable":
		cr.repeatable = true
	case "Total":
		cr.total = true
	case "Opaque":
		cr.opaque = true
	case "Summary":
		cr.summary = true
		return Val{}, pc
	case "Step":
		cr.step = true
	case "Decreases":
		cr.dec = ex.term(st, args[0])
	case "Known":
		v := args[1]
		if v.In != nil {
			v = *v.In
		}
		cr.known = append(cr.known, [2]*Term{ex.term(st, args[0]), ex.term(st, v)})
	case "OnlySafety":
		cr.onlySafe = true
	case "Trusted":
		cr.trusted = ex.term(st, args[0]).name
	case "Assert":
		n := ex.term(st, args[1])
		o := ex.spec
		ex.spec = 0
		ex.oblige("assert", n.name, pc, ex.term(st, args[0]))
		ex.spec = o
		return Val{}, And(pc, ex.term(st, args[0]))
	case "Assume":
		ex.assume(pc, ex.term(st, args[0]), "assumed: "+ex.term(st, args[1]).name)
		return Val{}, And(pc, ex.term(st, args[0]))
	case "Out":
		return Val{T: Select(st.get("O|out", ArrSort(SAny, SStr)), ex.term(st, args[0]))}, pc
	case "Failed":
		return Val{T: Select(st.get("F|fail", ArrSort(SAny, SBool)), ex.term(st, args[0]))}, pc
	case "Sturdy":
		return Val{T: sturdy(ex.term(st, args[0]))}, pc
	case "Lines":
		return Val{T: linesOf(ex.term(st, args[0]))}, pc
	case "ReadFails":
		return Val{T: Not(Eq(App("scanerr", SAny, ex.term(st, args[0])), AnyNil))}, pc
	case "FileLines":
		return Val{T: fileLines(ex.term(st, args[0]))}, pc
	case "Emit":
		ex.emit(st, ex.term(st, args[0]), ex.term(st, args[1]))
	case "Implies":
		return Val{T: Implies(ex.term(st, args[0]), ex.term(st, args[1]))}, pc
	case "Eq":
		a, b := ex.term(st, args[0]), ex.term(st, args[1])
		return Val{T: Eq(a, b)}, pc
	case "Dom":
		return Val{T: TTrue}, pc
	case "All", "Some":
		c := ex.closureOf(st, args[0]).Clo
		p := c.fn.Signature.Params().At(0).Type()
		v := FreshVar("q", ex.sortOf(p))
		r, _ := ex.callFn(fr, c, []Val{ex.wrap(v, p, nil)}, st.clone(), pc, in)
		if name == "All" {
			return Val{T: Forall([]*Term{v}, r.T)}, pc
		}
		return Val{T: Exists([]*Term{v}, r.T)}, pc
	case "Any":
		t := fn.Signature.Results().At(0).Type()
		x := FreshVar("any", ex.sortOf(t))
		if cr != nil {
			cr.anys = append(cr.anys, x)
		}
		return ex.wrap(x, t, nil), pc
	case "Uninterp":
		t := fn.Signature.Results().At(0).Type()
		n := ex.term(st, args[0]).name
		sl := ex.term(st, args[1])
		var as []*Term
		l := SLen(sl)
		if l.op != OInt {
			unsup("Uninterp arguments")
		}
		for i := int64(0); i < l.n; i++ {
			a := SAt(sl, Int(i))
			if a.op == OApp && strings.HasPrefix(a.name, "box_") {
				a = a.args[0]
			}
			as = append(as, a)
		}
		return ex.wrap(App(n, ex.sortOf(t), as...), t, nil), pc
	case "Fail":
		return Val{T: App("errorf", SAny, Str("spec failure"))}, pc
	default:
		unsup("intrinsic %s", name)
	}
	return Val{}, pc
}

func (ex *Exec) emit(st *State, w, text *Term) {
	o := st.get("O|out", ArrSort(SAny, SStr))
	st.set("O|out", Store(o, w, Concat(ex.getOut(st, w), text)))
}

// ---------- verification units ----------

type UnitResult struct {
	Key         string
	Kind        string
	vac         *Obl
	Obls        []*Obl
	Used        map[string]bool
	Models      map[string]bool
	Inlined     map[string]bool
	Assumed     []string
	Unsupported string
	Requires    []*Term `json:"-"`
	Trusted     string
	MustCover   []*Term `json:"-"`
}

func (ex *Exec) paramVals(fn *ssa.Function) []Val {
	var args []Val
	for i, p := range fn.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("arg%d", i)
		}
		v := Var(fmt.Sprintf("i!p!%d!%s", i, n), ex.sortOf(p.Type()))
		args = append(args, ex.wrap(v, p.Type(), nil))
	}
	return args
}

func isErrorType(t types.Type) bool { return t.String() == "error" }

// verifyFunc checks the body of the function under its contract.
func (P *Program) verifyFunc(key string, prover func([]*Term, *Term) bool) (res *UnitResult) {
	ex := NewExec(P, key)
	ex.prover = prover
	res = &UnitResult{Key: key}
	defer func() {
		res.Obls = ex.obls
		res.Used, res.Models, res.Inlined = ex.used, ex.models, ex.inlined
		for _, a := range ex.assumes {
			if strings.HasPrefix(a.why, "assumed") {
				res.Assumed = append(res.Assumed, a.why)
			}
		}
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				pos := ""
				if ex.curPos.IsValid() {
					p := P.fset.Position(ex.curPos)
					pos = fmt.Sprintf("%s:%d", relFile(P.repo, p.Filename), p.Line)
				}
				res.Unsupported = u.msg + " at " + pos
				return
			}
			panic(r)
		}
	}()
	fn := P.lookupFunc(key)
	if fn == nil {
		unsup("function %s does not exist", key)
	}
	con := P.contracts[key]
	ex.saltPfx = "c"
	st := newState()
	args := ex.paramVals(fn)
	var cr *contractRun
	if con != nil {
		ex.unitReq = true
		cr = ex.evalContract(con, args, st, TTrue)
		ex.unitReq = false
		for _, rq := range cr.requires {
			ex.assume(TTrue, rq.t, "requires")
			res.Requires = append(res.Requires, rq.t)
		}
		ex.measure = cr.dec
	} else {
		cr = &contractRun{onlySafe: true}
	}
	res.Trusted = cr.trusted
	if cr.trusted != "" {
		return
	}
	as0 := len(ex.assumes)
	cst := st.clone()
	ex.forceInline = map[string]bool{}
	cres, cpc := ex.runFn(fn, nil, args, cst, TTrue)
	rets := func(v Val) []Val {
		switch fn.Signature.Results().Len() {
		case 0:
			return nil
		case 1:
			return []Val{v}
		}
		return v.Tup
	}
	ct := rets(cres)
	if len(ct) < fn.Signature.Results().Len() {
		unsup("%s never returns", key)
	}
	if len(cr.specs) > 0 {
		_ = as0
		sst := st.clone()
		ex.saltPfx = "s"
		ex.spec++
		ex.specSide = true
		sres, _ := ex.callFn(nil, cr.specs[0].Clo, nil, sst, TTrue, nil)
		ex.specSide = false
		ex.spec--
		stt := rets(sres)
		ok := cpc
		nr := fn.Signature.Results()
		var ce, se *Term
		if n := nr.Len(); n > 0 && isErrorType(nr.At(n-1).Type()) {
			ce = Eq(ex.term(cst, ct[n-1]), AnyNil)
			se = Eq(ex.term(sst, stt[n-1]), AnyNil)
			ct, stt = ct[:n-1], stt[:n-1]
		}
		cv, sv := map[string]*Term{}, map[string]*Term{}
		var ks []string
		for i := range ct {
			k := fmt.Sprintf("result %d", i)
			cv[k], sv[k] = ex.term(cst, ct[i]), ex.term(sst, stt[i])
			ks = append(ks, k)
		}
		keys := map[string]bool{}
		for k := range cst.m {
			keys[k] = true
		}
		for k := range sst.m {
			keys[k] = true
		}
		nres := len(ks)
		for k := range keys {
			if strings.HasPrefix(k, "C|") || strings.HasPrefix(k, "ov|") || strings.HasPrefix(k, "A|") || k == "X|bad" {
				continue
			}
			ks = append(ks, k)
			cv[k], sv[k] = cst.get(k, stateSort[k]), sst.get(k, stateSort[k])
		}
		sort.Strings(ks[nres:])
		if ce != nil && !cr.total && !cr.opaque && len(ks) <= 16 {
			// only what successful runs return and leave behind is compared
			for _, k := range ks {
				cv[k], sv[k] = simpUnder(ce, cv[k]), simpUnder(se, sv[k])
			}
		}
		sub := normalise(cv, sv)
		co, so := []*Term{cpc}, []*Term{}
		for _, k := range ks {
			co, so = append(co, cv[k]), append(so, sv[k])
		}
		if se != nil {
			se = Subst(se, sub)
			co, so = append(co, ce), append(so, se)
		}
		if po := pairOrders(co, so); len(po) > 0 {
			for _, k := range ks {
				sv[k] = Subst(sv[k], po)
			}
			if se != nil {
				se = Subst(se, po)
			}
		}
		if se != nil {
			ex.specObl("error outcome", cpc, Eq(ce, se))
			if !cr.total {
				ok = And(ok, se)
			}
		}
		if cr.opaque {
			cr.checkOpaque(key, ks[:nres], ks[nres:], sv, se)
			for i, kn := range cr.known {
				ex.specObl(fmt.Sprintf("known case %d", i), And(cpc, kn[0]), Eq(cv["result 0"], kn[1]))
			}
		}
		for i, k := range ks {
			n := k
			if i >= nres {
				n = "final " + k
			}
			ex.specObl(n, ok, Eq(cv[k], sv[k]))
			if i >= nres && k != "O|out" {
				ex.obls[len(ex.obls)-1].Class = "state"
			}
		}
		if cr.repeatable {
			// the same input gives the same output, whatever order maps are iterated in
			if cst.m["O|out"] != nil {
				out := cst.get("O|out", stateSort["O|out"])
				m := map[*Term]*Term{}
				walkTerms(out, func(x *Term) {
					if x.op == OApp && x.name == "mapord" && x.args[1] != Str("0") {
						m[x] = App("mapord", x.sort, x.args[0], Str(x.args[1].name+"'"))
					}
				})
				a, b := map[string]*Term{"o": out}, map[string]*Term{"o": Subst(out, m)}
				if sub := normalise(a, b); len(sub) > 0 {
					b["o"] = Subst(b["o"], sub)
				}
				ex.specObl("the output does not depend on the order of maps", ok, Eq(a["o"], b["o"]))
				ex.obls[len(ex.obls)-1].Class = "repeat"
			}
		}
	}
	if bad := simpUnder(cpc, cst.get("X|bad", SBool)); bad != TFalse {
		// a failed call leaves a state no contract describes: the function has to fail too
		g := TFalse
		if n := len(rets(cres)); n > 0 && isErrorType(fn.Signature.Results().At(n-1).Type()) && !cr.total {
			g = Not(Eq(ex.term(cst, rets(cres)[n-1]), AnyNil))
		}
		ex.specObl("failures of calls are reported", cpc, Implies(bad, g))
		ex.obls[len(ex.obls)-1].Class = "post"
	}
	for i, en := range cr.ensures {
		ex.spec++
		v, _ := ex.callFn(nil, en.Clo, rets(cres), cst.clone(), cpc, nil)
		ex.spec--
		ex.specObl(fmt.Sprintf("postcondition %d", i), cpc, v.T)
		ex.obls[len(ex.obls)-1].Class = "post"
	}
	return
}

// checkOpaque: the specified results depend on the arguments only and the state is not changed.
func (cr *contractRun) checkOpaque(key string, res, state []string, sv map[string]*Term, se *Term) {
	ts := []*Term{}
	for _, k := range res {
		ts = append(ts, sv[k])
	}
	if se != nil {
		ts = append(ts, se)
	}
	for _, t := range ts {
		walkTerms(t, func(x *Term) {
			if x.op == OVar && x.initial && !strings.HasPrefix(x.name, "i!p!") {
				unsup("opaque contract of %s depends on %s", key, x.name)
			}
			if x.op == OApp && x.name == "mapord" && x.args[1] != Str("0") {
				unsup("opaque contract of %s depends on a map order", key)
			}
		})
	}
	for _, k := range state {
		if t := sv[k]; t != initVar(k, stateSort[k]) {
			unsup("opaque contract of %s changes %s", key, k)
		}
	}
}

func (ex *Exec) specObl(name string, pc, goal *Term) {
	if pc == TFalse {
		goal = TTrue
	}
	o := &Obl{Unit: ex.unit, Name: name, Class: "spec", Hyps: ex.hyps(pc), Goal: goal}
	if goal == TTrue {
		o.Result, o.Solver = "proved", "simplifier"
	}
	ex.obls = append(ex.obls, o)
}

// verifyLemma executes a lemma function; its asserts are the obligations.
func (P *Program) verifyLemma(name string, prover func([]*Term, *Term) bool) (res *UnitResult) {
	ex := NewExec(P, name)
	ex.prover = prover
	res = &UnitResult{Key: name}
	defer func() {
		res.Obls = ex.obls
		res.Used, res.Models, res.Inlined = ex.used, ex.models, ex.inlined
		for _, a := range ex.assumes {
			if strings.HasPrefix(a.why, "assumed") {
				res.Assumed = append(res.Assumed, a.why)
			}
		}
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				res.Unsupported = u.msg
				return
			}
			panic(r)
		}
	}()
	fn := P.lemmas[name]
	if fn == nil {
		unsup("lemma %s missing", name)
	}
	ex.saltPfx, ex.lemma = "l", true
	ex.contract = &contractRun{}
	ex.spec = 1
	st := newState()
	ex.runFn(fn, nil, ex.paramVals(fn), st, TTrue)
	return
}

// ---------- globals ----------

func (ex *Exec) globalInit(g *ssa.Global) (Val, bool) {
	if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		if et := g.Type().(*types.Pointer).Elem(); isErrorType(et) {
			return Val{T: App("errorf", SAny, Str("global "+g.String()))}, true
		}
		return Val{}, false
	}
	if v, ok := ex.globals()[g]; ok {
		return Val{T: v}, true
	}
	return Val{}, false
}

var globMemo map[*ssa.Global]*Term

// onlyReads: a call whose model reads what its pointer arguments point to and keeps none of them.
func onlyReads(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	return ok && c.Call.StaticCallee() != nil && c.Call.StaticCallee().String() == "github.com/spdx/gordf/rdfwriter.FilterTriples"
}

// globals evaluates string- and int-valued package variables assigned once, in init, from constants.
func (ex *Exec) globals() map[*ssa.Global]*Term {
	if globMemo != nil {
		return globMemo
	}
	globMemo = map[*ssa.Global]*Term{}
	stores := map[*ssa.Global]int{}
	initSt := map[*ssa.Global]ssa.Value{}
	for _, sp := range ex.P.ssaPkgs {
		for _, m := range sp.Members {
			f, ok := m.(*ssa.Function)
			if !ok {
				continue
			}
			var visit func(f *ssa.Function)
			visit = func(f *ssa.Function) {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						for _, op := range in.Operands(nil) {
							if g, ok := (*op).(*ssa.Global); ok {
								if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
									stores[g]++
									if f.Name() == "init" {
										initSt[g] = s.Val
									} else {
										stores[g]++
									}
								} else if _, ok := in.(*ssa.UnOp); !ok && !onlyReads(in) {
									stores[g] += 2
								}
							}
						}
					}
				}
				for _, a := range f.AnonFuncs {
					visit(a)
				}
			}
			visit(f)
		}
		for _, m := range sp.Members {
			if t, ok := m.(*ssa.Type); ok {
				for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := ex.P.ssa.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						f := ex.P.ssa.MethodValue(ms.At(i))
						if f == nil {
							continue
						}
						for _, b := range f.Blocks {
							for _, in := range b.Instrs {
								if s, ok := in.(*ssa.Store); ok {
									if g, ok := s.Addr.(*ssa.Global); ok {
										stores[g] += 2
									}
								}
							}
						}
					}
				}
			}
		}
	}
	var eval func(v ssa.Value, d int) *Term
	eval = func(v ssa.Value, d int) *Term {
		if d > 20 {
			return nil
		}
		switch x := v.(type) {
		case *ssa.Const:
			t := ex.constVal(x).T
			if t != nil && isLit(t) {
				return t
			}
		case *ssa.BinOp:
			a, b := eval(x.X, d+1), eval(x.Y, d+1)
			if a != nil && b != nil && x.Op.String() == "+" && a.sort == SStr {
				return Concat(a, b)
			}
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && f.String() == "regexp.MustCompile" {
				if a := eval(x.Call.Args[0], d+1); a != nil {
					return App("regexp", SInt, a)
				}
			}
		case *ssa.UnOp:
			if g, ok := x.X.(*ssa.Global); ok {
				if t, ok := globMemo[g]; ok {
					return t
				}
				if iv, ok := initSt[g]; ok && stores[g] == 1 {
					return eval(iv, d+1)
				}
			}
		}
		return nil
	}
	for g, v := range initSt {
		if stores[g] == 1 {
			if t := eval(v, 0); t != nil {
				globMemo[g] = t
			}
		}
	}
	return globMemo
}

// fromCaller: the value is one the caller passed in, or an element of a list it passed in.
func fromCaller(t *Term) bool {
	for t.op == OSelect || t.op == OField {
		t = t.args[0]
	}
	return t.op == OVar && t.initial
}
