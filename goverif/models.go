package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

var modelTab = map[string]Model{}

func one(f func(c *CallCtx) *Term) Model {
	return func(c *CallCtx) Val { return Val{T: f(c)} }
}

func litFold1(name string, f func(string) string) Model {
	return one(func(c *CallCtx) *Term { return strFn(name, c.t(0), f) })
}

func strFn(name string, s *Term, f func(string) string) *Term {
	if s.op == OStr {
		return Str(f(s.name))
	}
	if s.op == OIte && (s.args[1].op == OStr || s.args[2].op == OStr) {
		return Ite(s.args[0], strFn(name, s.args[1], f), strFn(name, s.args[2], f))
	}
	if name == "trimspace" && s.op == OApp && s.name == "trimspace" {
		return s
	}
	return App(name, SStr, s)
}

func sliceOf(s *Sort, xs ...*Term) *Term {
	r := EmptySlice(s)
	for _, x := range xs {
		r = Append(r, x)
	}
	return r
}

var SStrs = SliceSort(SStr)

func trimPrefix(s, p *Term) *Term {
	return Ite(PrefixOf(p, s), Substr(s, StrLen(p), Sub(StrLen(s), StrLen(p))), s)
}

func trimSuffix(s, p *Term) *Term {
	return Ite(SuffixOf(p, s), Substr(s, Int(0), Sub(StrLen(s), StrLen(p))), s)
}

func splitN2(s, sep *Term) *Term {
	i := IndexOf(s, sep)
	a := Substr(s, Int(0), i)
	off := Add(i, StrLen(sep))
	b := Substr(s, off, Sub(StrLen(s), off))
	return Ite(Contains(s, sep), sliceOf(SStrs, a, b), sliceOf(SStrs, s))
}

// joinTerm is strings.Join as a fold.
func joinTerm(s, sep *Term) *Term {
	if l := SLen(s); l.op == OInt && l.n <= 8 {
		var ps []*Term
		for i := int64(0); i < l.n; i++ {
			if i > 0 {
				ps = append(ps, sep)
			}
			ps = append(ps, SAt(s, Int(i)))
		}
		return Concat(ps...)
	}
	k := FreshVar("i!k!join", SInt)
	acc := FreshVar("acc", SStr)
	step := Concat(acc, Ite(Eq(k, Int(0)), Str(""), sep), SAt(s, k))
	return MkIter([]IterComp{{acc, Str(""), step}}, k, 0, SLen(s))
}

// a predicate on runes is known by what it answers for an arbitrary rune
func (c *CallCtx) runePred(i int) string {
	clo := c.args[i].Clo
	if clo == nil {
		unsup("unknown rune predicate")
	}
	r := Var("rune!p", SInt)
	st := c.st.clone()
	v, _ := c.ex.callFn(c.fr, clo, []Val{{T: r}}, st, c.pc, c.call)
	for _, f := range varsInOrder(v.T) {
		if f != r {
			unsup("rune predicate depends on more than the rune")
		}
	}
	return fmt.Sprintf("{%d}", v.T.id)
}

func init() {
	M := modelTab
	M["strings.TrimSpace"] = litFold1("trimspace", strings.TrimSpace)
	M["strings.ToUpper"] = litFold1("toupper", strings.ToUpper)
	M["strings.ToLower"] = litFold1("tolower", strings.ToLower)
	M["bytes.TrimSpace"] = litFold1("trimspace", strings.TrimSpace)
	M["strings.HasPrefix"] = one(func(c *CallCtx) *Term { return PrefixOf(c.t(1), c.t(0)) })
	M["strings.HasSuffix"] = one(func(c *CallCtx) *Term { return SuffixOf(c.t(1), c.t(0)) })
	M["strings.Contains"] = one(func(c *CallCtx) *Term { return Contains(c.t(0), c.t(1)) })
	M["strings.Index"] = one(func(c *CallCtx) *Term { return IndexOf(c.t(0), c.t(1)) })
	M["strings.TrimPrefix"] = one(func(c *CallCtx) *Term { return trimPrefix(c.t(0), c.t(1)) })
	M["strings.TrimSuffix"] = one(func(c *CallCtx) *Term { return trimSuffix(c.t(0), c.t(1)) })
	M["strings.EqualFold"] = one(func(c *CallCtx) *Term {
		return Eq(strFn("casefold", c.t(0), strings.ToLower), strFn("casefold", c.t(1), strings.ToLower))
	})
	for _, n := range []string{"Trim", "TrimLeft", "TrimRight"} {
		f := map[string]func(string, string) string{"Trim": strings.Trim, "TrimLeft": strings.TrimLeft, "TrimRight": strings.TrimRight}[n]
		nm := strings.ToLower(n)
		M["strings."+n] = one(func(c *CallCtx) *Term {
			s, cs := c.t(0), c.t(1)
			if s.op == OStr && cs.op == OStr {
				return Str(f(s.name, cs.name))
			}
			return trimSet(nm, s, cs)
		})
	}
	for _, n := range []string{"TrimLeftFunc", "TrimRightFunc", "TrimFunc"} {
		nm := strings.ToLower(n)
		M["strings."+n] = one(func(c *CallCtx) *Term { return App(nm+c.runePred(1), SStr, c.t(0)) })
	}
	for _, n := range []string{"IsSpace", "IsDigit", "IsLetter", "IsUpper", "IsLower", "IsPunct", "IsNumber", "IsControl", "IsPrint"} {
		nm := "unicode." + n
		M[nm] = one(func(c *CallCtx) *Term { return App(nm, SBool, c.t(0)) })
	}
	M["strings.IndexFunc"] = one(func(c *CallCtx) *Term { return App("indexfunc"+c.runePred(1), SInt, c.t(0)) })
	M["strings.ContainsFunc"] = one(func(c *CallCtx) *Term { return App("containsfunc"+c.runePred(1), SBool, c.t(0)) })
	M["strings.FieldsFunc"] = one(func(c *CallCtx) *Term { return App("fieldsfunc"+c.runePred(1), SStrs, c.t(0)) })
	M["strings.CutPrefix"] = func(c *CallCtx) Val {
		s, p := c.t(0), c.t(1)
		return Val{Tup: []Val{{T: trimPrefix(s, p)}, {T: PrefixOf(p, s)}}}
	}
	M["strings.CutSuffix"] = func(c *CallCtx) Val {
		s, p := c.t(0), c.t(1)
		return Val{Tup: []Val{{T: trimSuffix(s, p)}, {T: SuffixOf(p, s)}}}
	}
	M["strings.Cut"] = func(c *CallCtx) Val {
		s, sep := c.t(0), c.t(1)
		i := IndexOf(s, sep)
		has := Contains(s, sep)
		off := Add(i, StrLen(sep))
		return Val{Tup: []Val{{T: Ite(has, Substr(s, Int(0), i), s)}, {T: Ite(has, Substr(s, off, Sub(StrLen(s), off)), Str(""))}, {T: has}}}
	}
	M["strings.ReplaceAll"] = one(func(c *CallCtx) *Term { return ReplaceAll(c.t(0), c.t(1), c.t(2)) })
	M["strings.Replace"] = one(func(c *CallCtx) *Term {
		n := c.t(3)
		if n.op == OInt && n.n < 0 {
			return ReplaceAll(c.t(0), c.t(1), c.t(2))
		}
		return App("replacen", SStr, c.t(0), c.t(1), c.t(2), n)
	})
	M["strings.SplitN"] = one(func(c *CallCtx) *Term {
		n := c.t(2)
		if n.op == OInt && n.n == 2 {
			return splitN2(c.t(0), c.t(1))
		}
		if n.op == OInt && n.n < 0 {
			return App("split", SStrs, c.t(0), c.t(1))
		}
		if n.op == OInt && n.n == 0 {
			return EmptySlice(SStrs)
		}
		return App("splitn", SStrs, c.t(0), c.t(1), n)
	})
	M["strings.Split"] = one(func(c *CallCtx) *Term { return App("split", SStrs, c.t(0), c.t(1)) })
	M["strings.Fields"] = one(func(c *CallCtx) *Term { return App("strfields", SStrs, c.t(0)) })
	M["strings.Join"] = one(func(c *CallCtx) *Term { return joinTerm(c.t(0), c.t(1)) })
	M["strings.Count"] = one(func(c *CallCtx) *Term { return App("seqlen", SInt, c.t(0), c.t(1)) })
	M["strings.Compare"] = one(func(c *CallCtx) *Term {
		return Ite(Eq(c.t(0), c.t(1)), Int(0), Ite(StrLt(c.t(0), c.t(1)), Int(-1), Int(1)))
	})
	M["strings.ContainsAny"] = one(func(c *CallCtx) *Term { return App("containsany", SBool, c.t(0), c.t(1)) })
	M["strings.Title"] = litFold1("title", strings.Title)
	M["strings.LastIndex"] = one(func(c *CallCtx) *Term { return App("lastindex", SInt, c.t(0), c.t(1)) })

	M["fmt.Sprintf"] = one(func(c *CallCtx) *Term { return c.ex.sprintf(c.st, c.t(0), c.t(1)) })
	M["fmt.Sprint"] = one(func(c *CallCtx) *Term { return c.ex.sprint(c.st, c.t(0), "") })
	M["fmt.Errorf"] = one(func(c *CallCtx) *Term {
		c.ex.sprintf(c.st, c.t(0), c.t(1))
		return mkErr(c.t(0))
	})
	M["errors.New"] = one(func(c *CallCtx) *Term { return mkErr(c.t(0)) })
	M["errors.Is"] = one(func(c *CallCtx) *Term {
		return Or(Eq(c.t(0), c.t(1)), And(Not(Eq(c.t(0), AnyNil)), App("errwraps", SBool, c.t(0), c.t(1))))
	})
	M["(error).Error"] = one(func(c *CallCtx) *Term {
		c.npc = nonNilAny(c, 0)
		return App("errtext", SStr, c.t(0))
	})
	M["fmt.Fprintf"] = func(c *CallCtx) Val {
		s := c.ex.sprintf(c.st, c.t(1), c.t(2))
		return c.ex.write(c.st, c.t(0), s)
	}
	M["fmt.Fprint"] = func(c *CallCtx) Val { return c.ex.write(c.st, c.t(0), c.ex.sprint(c.st, c.t(1), "")) }
	M["fmt.Fprintln"] = func(c *CallCtx) Val {
		return c.ex.write(c.st, c.t(0), Concat(c.ex.sprint(c.st, c.t(1), " "), Str("\n")))
	}
	M["io.WriteString"] = func(c *CallCtx) Val { return c.ex.write(c.st, c.t(0), c.t(1)) }
	M["(io.Writer).Write"] = func(c *CallCtx) Val {
		c.npc = nonNilAny(c, 0)
		return c.ex.write(c.st, c.t(0), c.t(1))
	}

	M["strconv.Itoa"] = one(func(c *CallCtx) *Term { return itoa(c.t(0)) })
	M["strconv.Atoi"] = func(c *CallCtx) Val {
		s := c.t(0)
		return Val{Tup: []Val{{T: atoi(s)}, {T: Ite(isInt(s), AnyNil, mkErr(Str("atoi")))}}}
	}
	M["strconv.Quote"] = one(func(c *CallCtx) *Term { return App("goquote", SStr, c.t(0)) })

	M["sort.Strings"] = func(c *CallCtx) Val {
		v := c.args[0]
		s := c.ex.term(c.st, v)
		x, y := FreshVar("sx", SStr), FreshVar("sy", SStr)
		c.ex.overwrite(c.st, &v, MkSortBy(s, x, y, StrLt(x, y)))
		return Val{}
	}
	sortSlice := func(c *CallCtx) Val {
		v := c.args[0]
		if v.In == nil {
			unsup("sort.Slice on a dynamic value")
		}
		sv := *v.In
		s := c.ex.term(c.st, sv)
		clo := c.args[1].Clo
		if clo == nil {
			unsup("sort.Slice with unknown comparison")
		}
		if l := SLen(s); l.op == OInt && l.n <= 1 {
			return Val{}
		}
		i, j := FreshVar("i!k!si", SInt), FreshVar("i!k!sj", SInt)
		// the comparison sees some permutation of the slice: run it on an arbitrary one
		tmp := c.st.clone()
		any := FreshVar("sorting", s.sort)
		c.ex.overwrite(tmp, &sv, any)
		pc := And(c.pc, Lt(i, SLen(any)), Lt(j, SLen(any)))
		for _, x := range []*Term{i, j} { // a permutation has the slice's elements
			o := App("permof", SInt, any, x)
			pc = And(pc, Le(Int(0), o), Lt(o, SLen(s)), Eq(SAt(any, x), SAt(s, o)))
		}
		n0 := len(c.ex.obls)
		r, _ := c.ex.callFn(c.fr, clo, []Val{{T: i}, {T: j}}, tmp, pc, c.call)
		if mentions(r.T, s) {
			c.ex.obls = c.ex.obls[:n0]
			any = s
			pc = And(c.pc, Lt(i, SLen(any)), Lt(j, SLen(any)))
			r, _ = c.ex.callFn(c.fr, clo, []Val{{T: i}, {T: j}}, c.st.clone(), pc, c.call)
		}
		x, y := FreshVar("sx", s.sort.Elem), FreshVar("sy", s.sort.Elem)
		lt := Subst(r.T, map[*Term]*Term{SAt(any, i): x, SAt(any, j): y})
		if mentions(lt, i) || mentions(lt, j) {
			unsup("comparison of sort.Slice depends on more than the elements")
		}
		c.ex.overwrite(c.st, &sv, MkSortBy(s, x, y, lt))
		return Val{}
	}
	M["sort.Slice"] = sortSlice
	M["sort.SliceStable"] = sortSlice

	// bufio.Scanner over the ghost sequence of lines of its reader
	M["bufio.NewScanner"] = func(c *CallCtx) Val {
		ref := c.ex.alloc(c.st, "bufio.Scanner")
		rd := c.st.get("H|$scan|rd", ArrSort(SInt, SAny))
		ps := c.st.get("H|$scan|pos", ArrSort(SInt, SInt))
		src := c.t(0)
		if p := openFile(c, src); p != nil {
			src = App("fileof", SAny, p)
		}
		c.st.set("H|$scan|rd", Store(rd, ref, src))
		c.st.set("H|$scan|pos", Store(ps, ref, Int(0)))
		t := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
		return Val{T: ref, A: &Addr{k: aObj, ref: ref, typ: t}}
	}
	scan := func(c *CallCtx) (ref, rd, pos *Term) {
		ref = c.t(0)
		rd = Select(c.st.get("H|$scan|rd", ArrSort(SInt, SAny)), ref)
		pos = Select(c.st.get("H|$scan|pos", ArrSort(SInt, SInt)), ref)
		return
	}
	M["(*bufio.Scanner).Scan"] = func(c *CallCtx) Val {
		ref, rd, pos := scan(c)
		lines := linesOf(rd)
		ps := c.st.get("H|$scan|pos", ArrSort(SInt, SInt))
		c.st.set("H|$scan|pos", Store(ps, ref, Add(pos, Int(1))))
		return Val{T: Lt(pos, SLen(lines))}
	}
	M["(*bufio.Scanner).Text"] = one(func(c *CallCtx) *Term {
		_, rd, pos := scan(c)
		return SAt(linesOf(rd), Sub(pos, Int(1)))
	})
	M["(*bufio.Scanner).Bytes"] = M["(*bufio.Scanner).Text"]
	M["(*bufio.Scanner).Err"] = one(func(c *CallCtx) *Term {
		_, rd, _ := scan(c)
		return App("scanerr", SAny, rd)
	})
	M["(*bufio.Scanner).Buffer"] = func(c *CallCtx) Val { return Val{} }

	// files and paths
	M["os.Open"] = func(c *CallCtx) Val {
		p := c.t(0)
		t := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
		bad := App("openfails", SBool, p)
		ref := Ite(bad, Int(0), App("seqlen", SInt, Str("file"), p))
		return Val{Tup: []Val{{T: ref, A: &Addr{k: aObj, ref: ref, typ: t}}, {T: Ite(bad, mkErr(Str("open")), AnyNil)}}}
	}
	M["(*os.File).Close"] = one(func(c *CallCtx) *Term { return App("closeerr", SAny, c.t(0)) })
	for _, n := range []string{"Clean", "ToSlash", "FromSlash", "Base", "Dir"} {
		nm := "filepath" + n
		M["path/filepath."+n] = one(func(c *CallCtx) *Term { return App(nm, SStr, c.t(0)) })
	}
	M["path/filepath.Join"] = one(func(c *CallCtx) *Term { return App("filepathJoin", SStr, c.t(0)) })
	M["path/filepath.Abs"] = func(c *CallCtx) Val {
		return Val{Tup: []Val{{T: App("filepathAbs", SStr, c.t(0))}, {T: Ite(App("absfails", SBool, c.t(0)), mkErr(Str("abs")), AnyNil)}}}
	}
	M["path.Split"] = func(c *CallCtx) Val {
		return Val{Tup: []Val{{T: App("pathDir", SStr, c.t(0))}, {T: App("pathBase", SStr, c.t(0))}}}
	}
}

func linesOf(rd *Term) *Term { return App("lines", SStrs, rd) }

func nonNilAny(c *CallCtx, i int) *Term {
	g := Not(Eq(c.t(i), AnyNil))
	if g == TTrue || pcKnows(c.pc, g) {
		return c.pc
	}
	for _, a := range c.ex.assumes {
		if a.t == g {
			return c.pc
		}
	}
	c.ex.oblige("safety", "non-nil interface", c.pc, g)
	return And(c.pc, g)
}

func mkErr(f *Term) *Term { return App("errorf", SAny, f) }

func itoa(n *Term) *Term {
	if n.op == OInt {
		return Str(strconv.FormatInt(n.n, 10))
	}
	if n.op == OApp && n.name == "atoi" {
		// not canonical in general; keep
	}
	return App("itoa", SStr, n)
}
func atoi(s *Term) *Term {
	if s.op == OApp && s.name == "itoa" {
		return s.args[0]
	}
	if s.op == OStr {
		if n, err := strconv.Atoi(s.name); err == nil {
			return Int(int64(n))
		}
		return Int(0)
	}
	return App("atoi", SInt, s)
}
func isInt(s *Term) *Term {
	if s.op == OApp && s.name == "itoa" {
		return TTrue
	}
	if s.op == OStr {
		_, err := strconv.Atoi(s.name)
		return Bool(err == nil)
	}
	return App("isint", SBool, s)
}

// write appends to the ghost output of w; the error result is tied to the failure flag.
func (ex *Exec) write(st *State, w, text *Term) Val {
	ex.emit(st, w, text)
	o := Select(st.get("O|out", ArrSort(SAny, SStr)), w)
	err := App("writeerr", SAny, w, o)
	ex.noteFail(st, w, err)
	return Val{Tup: []Val{{T: App("writen", SInt, w, o)}, {T: err}}}
}

func (ex *Exec) noteFail(st *State, w, err *Term) {
	f := st.get("F|fail", ArrSort(SAny, SBool))
	st.set("F|fail", Store(f, w, Or(Select(f, w), Not(Eq(err, AnyNil)))))
}

func (ex *Exec) sprint(st *State, args *Term, sep string) *Term {
	l := SLen(args)
	if l.op != OInt {
		return App("sprint", SStr, args)
	}
	var ps []*Term
	for i := int64(0); i < l.n; i++ {
		if i > 0 && sep != "" {
			ps = append(ps, Str(sep))
		}
		ps = append(ps, ex.fmtVerb(st, 'v', "", SAt(args, Int(i))))
	}
	return Concat(ps...)
}

func (ex *Exec) sprintf(st *State, f, args *Term) *Term {
	l := SLen(args)
	if f.op != OStr || l.op != OInt {
		return App("sprintf", SStr, f, args)
	}
	var ps []*Term
	n := int64(0)
	s := f.name
	for i := 0; i < len(s); {
		j := strings.IndexByte(s[i:], '%')
		if j < 0 {
			ps = append(ps, Str(s[i:]))
			break
		}
		if j > 0 {
			ps = append(ps, Str(s[i:i+j]))
		}
		i += j + 1
		if i < len(s) && s[i] == '%' {
			ps = append(ps, Str("%"))
			i++
			continue
		}
		fl := ""
		for i < len(s) && strings.IndexByte("+-# 0123456789.", s[i]) >= 0 {
			fl += string(s[i])
			i++
		}
		if i >= len(s) {
			ps = append(ps, Str("%!(NOVERB)"))
			break
		}
		v := s[i]
		i++
		if n >= l.n {
			ps = append(ps, Str("%!"+string(v)+"(MISSING)"))
			continue
		}
		ps = append(ps, ex.fmtVerb(st, v, fl, SAt(args, Int(n))))
		n++
	}
	if n < l.n {
		ps = append(ps, App("fmtextra", SStr, args))
	}
	return Concat(ps...)
}

func (ex *Exec) fmtVerb(st *State, verb byte, flags string, a *Term) *Term {
	if a.op == OIte {
		return Ite(a.args[0], ex.fmtVerb(st, verb, flags, a.args[1]), ex.fmtVerb(st, verb, flags, a.args[2]))
	}
	if a.op == OApp && strings.HasPrefix(a.name, "box_") {
		t := boxTypes[a.name[4:]]
		x := a.args[0]
		if flags == "" && (verb == 's' || verb == 'v' || verb == 'd') {
			ms := types.NewMethodSet(t)
			if ms.Lookup(nil, "Error") == nil && ms.Lookup(nil, "String") == nil && ms.Lookup(nil, "Format") == nil {
				switch {
				case x.sort == SStr && verb != 'd' && !isByteSliceV(t, verb):
					return x
				case x.sort == SInt && verb != 's':
					if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
						return itoa(x)
					}
				case x.sort == SBool && verb == 'v':
					return Ite(x, Str("true"), Str("false"))
				}
			}
			if verb != 'd' {
				if s := ms.Lookup(nil, "String"); s != nil && strings.HasPrefix(pkgPath(t), modPath) {
					fn := ex.P.ssa.MethodValue(s)
					if fn != nil {
						r, _ := ex.callFn(nil, &Closure{fn: fn}, []Val{ex.wrap(x, t, nil)}, st, TTrue, nil)
						return r.T
					}
				}
			}
		}
		if flags == "" && verb == 'x' && x.sort == SStr && t != nil && isByteSlice(t) {
			return App("hex", SStr, x)
		}
		return App(fmt.Sprintf("fmt%s%c|%s", flags, verb, a.name[4:]), SStr, x)
	}
	return App(fmt.Sprintf("fmt%s%c", flags, verb), SStr, a)
}

func pkgPath(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

func isByteSliceV(t types.Type, verb byte) bool { return isByteSlice(t) && verb == 'v' }
