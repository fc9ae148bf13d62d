package main

import (
	"go/types"
	"reflect"
	"sort"
	"strings"
)

// Models of reflect (values, pointers to them and their types), of go-struct-converter, and of decoding whole
// documents, which are unspecified functions of the text.

// SRValue is a reflect.Value: the value it holds, and the pointer it was reached through (or nil).
var SRValue = regSort(&Sort{Name: "S<reflect.Value>", K: kDT, Fields: []FieldDef{{"v", SAny}, {"p", SAny}}})

func rvalue(v, p *Term) *Term { return MkDT(SRValue, v, p) }

// overIte applies f to the alternatives of a term.
func overIte(t *Term, f func(*Term) *Term) *Term {
	if t.op == OIte {
		return Ite(t.args[0], overIte(t.args[1], f), overIte(t.args[2], f))
	}
	return f(t)
}

func boxedPtr(x *Term) *types.Pointer {
	if x.op == OApp && strings.HasPrefix(x.name, "box_") && boxTypes[x.name[4:]] != nil {
		p, _ := boxTypes[x.name[4:]].Underlying().(*types.Pointer)
		return p
	}
	return nil
}

func boxedKnown(x *Term) bool {
	return x.op == OApp && strings.HasPrefix(x.name, "box_") && boxTypes[x.name[4:]] != nil
}

const derefKey = "X|deref"

var derefSort = ArrSort(SAny, SAny)

// derefAny is the value a boxed pointer points to.
func (ex *Exec) derefAny(st *State, x *Term) *Term {
	return overIte(x, func(x *Term) *Term {
		if pt := boxedPtr(x); pt != nil {
			if isIface(pt.Elem()) {
				unsup("reflection on a pointer to an interface")
			}
			return ex.box(st, ex.load(st, ex.ptrVal(x.args[0], pt.Elem()).A), pt.Elem())
		}
		return App("derefd", SAny, Select(st.get(derefKey, derefSort), x))
	})
}

// storeAny stores the boxed value v where the boxed pointer x points to.
func (ex *Exec) storeAny(st *State, x, v *Term) {
	if x.op == OIte {
		a, b := st.clone(), st.clone()
		ex.storeAny(a, x.args[1], v)
		ex.storeAny(b, x.args[2], v)
		st.m = a.m
		for k, t := range b.m {
			if o := st.get(k, t.sort); o != t {
				st.set(k, Ite(x.args[0], o, t))
			}
		}
		return
	}
	if pt := boxedPtr(x); pt != nil {
		n := shortType(pt.Elem())
		boxTypes[n] = pt.Elem()
		ex.storeT(st, ex.ptrVal(x.args[0], pt.Elem()).A, App("unbox_"+n, ex.sortOf(pt.Elem()), v))
		return
	}
	st.set(derefKey, Store(st.get(derefKey, derefSort), x, v))
}

// ptrIsNil: the boxed pointer is nil.
func ptrIsNil(x *Term) *Term {
	return overIte(x, func(x *Term) *Term {
		if boxedPtr(x) != nil {
			return Eq(x.args[0], Int(0))
		}
		return App("ptrnil", SBool, x)
	})
}

func rtypeOf(x *Term) *Term {
	known := true
	overIte(x, func(x *Term) *Term {
		known = known && boxedKnown(x)
		return x
	})
	if known {
		return App("rtype", SAny, App("tagof", SInt, x))
	}
	return overIte(x, func(x *Term) *Term {
		if x == AnyNil {
			return AnyNil
		}
		t := App("rtype", SAny, App("tagof", SInt, x))
		if boxedKnown(x) {
			return t
		}
		return Ite(Eq(x, AnyNil), AnyNil, t)
	})
}

func (c *CallCtx) need(what string, cond *Term) {
	if cond == TTrue || pcKnows(c.npc, cond) {
		return
	}
	c.ex.oblige("safety", what, c.npc, cond)
	c.npc = And(c.npc, cond)
}

var kindNames = map[types.BasicKind]int64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6,
	types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13,
	types.Float64: 14, types.Complex64: 15, types.Complex128: 16, types.String: 24, types.UnsafePointer: 26}

// kindOfTag is the reflect.Kind of the type with a given tag.
func kindOfTag(tag int64) int64 {
	if tag <= 0 || int(tag) >= len(typeTagNames) {
		return -1
	}
	t := boxTypes[typeTagNames[tag]]
	if t == nil {
		if strings.HasPrefix(typeTagNames[tag], "*") {
			return 22
		}
		return -1
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if k, ok := kindNames[u.Kind()]; ok {
			return k
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return -1
}

func init() {
	M := modelTab
	M["unicode/utf8.RuneCountInString"] = one(func(c *CallCtx) *Term { return SLen(App("runes", SliceSort(SInt), c.t(0))) })
	M["reflect.ValueOf"] = one(func(c *CallCtx) *Term { return rvalue(c.t(0), AnyNil) })
	M["reflect.TypeOf"] = one(func(c *CallCtx) *Term { return rtypeOf(c.t(0)) })
	v := func(c *CallCtx) *Term { return Field(c.t(0), 0) }
	M["(reflect.Value).IsValid"] = one(func(c *CallCtx) *Term { return Not(Eq(v(c), AnyNil)) })
	M["(reflect.Value).Type"] = one(func(c *CallCtx) *Term {
		c.need("reflect: Type of a valid value", Not(Eq(v(c), AnyNil)))
		return App("rtype", SAny, App("tagof", SInt, v(c)))
	})
	kind := func(tag *Term) *Term {
		return overIte(tag, func(t *Term) *Term { return App("kindof", SInt, t) })
	}
	M["(reflect.Value).Kind"] = one(func(c *CallCtx) *Term { return kind(App("tagof", SInt, v(c))) })
	M["(reflect.Value).Interface"] = one(func(c *CallCtx) *Term {
		c.need("reflect: Interface of a valid value", Not(Eq(v(c), AnyNil)))
		return v(c)
	})
	isPtr := func(x *Term) *Term { return Eq(kind(App("tagof", SInt, x)), Int(22)) }
	M["(reflect.Value).IsNil"] = one(func(c *CallCtx) *Term {
		c.need("reflect: IsNil of a pointer", isPtr(v(c)))
		return ptrIsNil(v(c))
	})
	M["(reflect.Value).Elem"] = one(func(c *CallCtx) *Term {
		x := v(c)
		c.need("reflect: Elem of a pointer", isPtr(x))
		d := c.ex.derefAny(c.st, x)
		return Ite(ptrIsNil(x), rvalue(AnyNil, AnyNil), rvalue(d, x))
	})
	M["reflect.Indirect"] = one(func(c *CallCtx) *Term {
		x := v(c)
		return Ite(isPtr(x), Ite(ptrIsNil(x), rvalue(AnyNil, AnyNil), rvalue(c.ex.derefAny(c.st, x), x)), c.t(0))
	})
	M["(reflect.Value).CanSet"] = one(func(c *CallCtx) *Term { return Not(Eq(Field(c.t(0), 1), AnyNil)) })
	M["(reflect.Value).Set"] = func(c *CallCtx) Val {
		p, x := Field(c.t(0), 1), Field(c.t(1), 0)
		c.need("reflect: Set of a settable value", Not(Eq(p, AnyNil)))
		c.need("reflect: Set to a value of the type", And(Not(Eq(x, AnyNil)), Eq(App("tagof", SInt, x), App("tagof", SInt, v(c)))))
		c.ex.storeAny(c.st, p, x)
		return Val{}
	}
	// methods of reflect.Type
	tagOf := func(c *CallCtx) *Term {
		t := c.t(0)
		c.need("reflect: method of a nil type", Not(Eq(t, AnyNil)))
		return overIte(t, func(t *Term) *Term {
			if isApp(t, "rtype") {
				return t.args[0]
			}
			if t == AnyNil {
				return Int(0)
			}
			return App("rtypetag", SInt, t)
		})
	}
	M["(reflect.Type).Kind"] = one(func(c *CallCtx) *Term { return kind(tagOf(c)) })
	M["(reflect.Type).Elem"] = one(func(c *CallCtx) *Term {
		tag := tagOf(c)
		c.need("reflect: Elem of a pointer type", Eq(kind(tag), Int(22)))
		return App("rtype", SAny, App("tagelem", SInt, tag))
	})
	M["(reflect.Type).PkgPath"] = one(func(c *CallCtx) *Term { return App("typepkg", SStr, tagOf(c)) })
	M["(reflect.Type).Name"] = one(func(c *CallCtx) *Term { return App("typename", SStr, tagOf(c)) })
	M["(reflect.Type).String"] = one(func(c *CallCtx) *Term { return App("typestr", SStr, tagOf(c)) })

	// go-struct-converter: which functions are registered matters, not their order
	M["github.com/anchore/go-struct-converter.NewFuncChain"] = one(func(c *CallCtx) *Term {
		fns := c.t(0)
		n := SLen(fns)
		if n.op != OInt || n.n > 64 {
			return App("funcchain", SAny, fns)
		}
		var ts []*Term
		for i := int64(0); i < n.n; i++ {
			ts = append(ts, SAt(fns, Int(i)))
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
		return App("funcchain", SAny, ts...)
	})
	M["(github.com/anchore/go-struct-converter.FuncChain).Convert"] = func(c *CallCtx) Val {
		chain, from, to := c.t(0), c.t(1), c.t(2)
		c.need("conversion from a value", Not(Eq(from, AnyNil)))
		c.need("conversion into a pointer", And(Not(Eq(to, AnyNil)), isPtr(to), Not(ptrIsNil(to))))
		tag := App("tagof", SInt, to)
		c.ex.storeAny(c.st, to, App("converted", SAny, chain, from, tag))
		return Val{T: App("converterr", SAny, chain, from, tag)}
	}

	M["sigs.k8s.io/yaml.Unmarshal"] = func(c *CallCtx) Val { return c.decodeDoc("yaml", 1) }
	M["sigs.k8s.io/yaml.Marshal"] = func(c *CallCtx) Val {
		v := c.encodeArg(c.t(0))
		err := App("yamlencerr", SAny, v)
		return Val{Tup: []Val{{T: Ite(Eq(err, AnyNil), App("yamlenc", SStr, v), Str(""))}, {T: err}}}
	}
	strPtr := types.NewPointer(types.Typ[types.String])
	M["github.com/spdx/gordf/rdfwriter.FilterTriples"] = one(func(c *CallCtx) *Term {
		as := []*Term{c.t(0)}
		for i := 1; i < 4; i++ {
			if t := c.args[i].T; t != nil && t.op == OInt && t.n == 0 {
				as = append(as, TFalse, Str(""))
				continue
			}
			a := c.ex.addrOf(c.args[i], strPtr)
			if a.k == aCell && strings.HasPrefix(a.key, "G|") {
				for g, t := range c.ex.globals() {
					if "G|"+g.String() == a.key {
						as = append(as, TTrue, t)
					}
				}
				if len(as)%2 == 0 {
					unsup("a package variable that is not a constant, in FilterTriples")
				}
				continue
			}
			as = append(as, TTrue, c.ex.loadT(c.st, a))
		}
		return App("filtertriples", c.ex.sortOf(c.sig.Results().At(0).Type()), as...)
	})
	for _, f := range []string{"GetNodeToTriples", "GetRootNodes"} {
		M["github.com/spdx/gordf/rdfwriter."+f] = one(func(c *CallCtx) *Term {
			return App("gordf"+f, c.ex.sortOf(c.sig.Results().At(0).Type()), c.t(0))
		})
	}
	M["(*github.com/spdx/gordf/rdfloader/parser.Node).String"] = one(func(c *CallCtx) *Term {
		n := c.args[0]
		pt := c.sig.Recv().Type()
		a := c.ex.addrOf(n, pt)
		c.need("non-nil receiver of Node.String", Not(Eq(c.t(0), Int(0))))
		return App("nodestring", SStr, c.ex.loadT(c.st, a))
	})
	for _, v := range []string{"2_2", "2_3"} {
		M["(github.com/spdx/tools-golang/spdx/v2/v"+v+"/rdf/reader.AnyLicenseInfo).ToLicenseString"] = func(c *CallCtx) Val {
			c.npc = nonNilAny(c, 0)
			return Val{T: App("licensetext", SStr, c.t(0))}
		}
	}
	M["github.com/spdx/gordf/uri.NewURIRef"] = func(c *CallCtx) Val {
		t := c.t(0)
		return Val{Tup: []Val{c.ex.wrap(App("uriref", c.ex.sortOf(c.sig.Results().At(0).Type()), t), c.sig.Results().At(0).Type(), nil), {T: App("urierr", SAny, t)}}}
	}
	M["github.com/spdx/gordf/rdfloader.LoadFromReaderObject"] = func(c *CallCtx) Val {
		r := c.t(0)
		err := App("rdferr", SAny, r)
		ref := App("rdfgraph", SInt, r)
		p := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
		c.ex.assume(TTrue, Implies(Eq(err, AnyNil), Lt(Int(0), ref)), "assumed: gordf returns a graph when it returns no error")
		return Val{Tup: []Val{c.ex.ptrVal(Ite(Eq(err, AnyNil), ref, Int(0)), p), {T: err}}}
	}
}

// decodeDoc decodes a text into the value the argument points to: an unspecified function of the text, the type and
// the value already there.
func (c *CallCtx) decodeDoc(format string, arg int) Val {
	data := c.t(0)
	pt := boxedPtr(c.t(arg))
	if pt == nil {
		unsup("%s.Unmarshal into a dynamic value", format)
	}
	p := c.args[arg].In
	if p == nil {
		v := c.ex.ptrVal(c.t(arg).args[0], pt.Elem())
		p = &v
	}
	a := c.ex.addrOf(*p, pt)
	old := c.ex.loadT(c.st, a)
	if st, ok := isStruct(pt.Elem()); ok && format == "json" && localType(pt.Elem()) && !hasMethod(pt, "UnmarshalJSON") {
		nv, err := c.decodeStruct(data, st, old)
		c.ex.storeT(c.st, a, nv)
		return Val{T: err}
	}
	n := shortType(pt.Elem())
	c.ex.storeT(c.st, a, App(format+"dec|"+n, c.ex.sortOf(pt.Elem()), data, old))
	return Val{T: App(format+"decerr|"+n, SAny, data, old)}
}

// localType: a type declared inside a function, or without a name.
func localType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return true
	}
	return n.Obj().Pkg() != nil && n.Obj().Parent() != n.Obj().Pkg().Scope()
}

type jsonSlot struct {
	path []int
	name string
	typ  types.Type
}

// jsonSlots are the fields encoding/json fills, embedded structs flattened.
func jsonSlots(s *types.Struct, path []int) (out []jsonSlot) {
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		tag := reflect.StructTag(s.Tag(i)).Get("json")
		name, opts, _ := strings.Cut(tag, ",")
		q := append(append([]int(nil), path...), i)
		if f.Embedded() && name == "" && tag != "-" {
			es, ok := types.Unalias(f.Type()).Underlying().(*types.Struct)
			if !ok {
				unsup("json.Unmarshal into an embedded %s", shortType(f.Type()))
			}
			out = append(out, jsonSlots(es, q)...)
			continue
		}
		if !f.Exported() || tag == "-" {
			continue
		}
		if strings.Contains(opts, "string") {
			unsup("json option string")
		}
		if name == "" {
			name = f.Name()
		}
		out = append(out, jsonSlot{q, name, f.Type()})
	}
	return
}

// decodeStruct fills a struct property by property. An absent property leaves its field alone, null leaves plain
// fields alone and clears pointers and lists.
func (c *CallCtx) decodeStruct(data *Term, st *types.Struct, old *Term) (nv, err *Term) {
	slots := jsonSlots(st, nil)
	depth := map[string]int{}
	for _, s := range slots {
		if d, ok := depth[s.name]; !ok || len(s.path) < d {
			depth[s.name] = len(s.path)
		}
	}
	n := map[string]int{}
	for _, s := range slots {
		if len(s.path) == depth[s.name] {
			n[s.name]++
		}
	}
	nv = old
	objErr := App("jsonobjerr", SAny, data)
	err = AnyNil
	for i := len(slots) - 1; i >= 0; i-- {
		s := slots[i]
		if len(s.path) != depth[s.name] || n[s.name] > 1 {
			continue // hidden by a field of the same name
		}
		has, raw := App("jsonhas", SBool, data, Str(s.name)), App("jsonprop", SStr, data, Str(s.name))
		was := nv
		for _, j := range s.path {
			was = Field(was, j)
		}
		v, e := c.decodeProp(raw, s.typ, was)
		nv = setPath(nv, s.path, Ite(has, v, was))
		err = Ite(And(has, Not(Eq(e, AnyNil))), e, err)
	}
	return nv, Ite(Eq(objErr, AnyNil), err, objErr)
}

func setPath(t *Term, path []int, v *Term) *Term {
	if len(path) > 1 {
		v = setPath(Field(t, path[0]), path[1:], v)
	}
	return SetField(t, path[0], v)
}

func (c *CallCtx) decodeProp(raw *Term, t types.Type, old *Term) (v, err *Term) {
	null := App("jsonisnull", SBool, raw)
	n := shortType(t)
	if !hasMethod(types.NewPointer(t), "UnmarshalJSON") {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				return Ite(null, old, App("jsonval", SStr, raw)), App("jsonvalerr", SAny, raw)
			}
			return Ite(null, old, App("jsondec|"+n, c.ex.sortOf(t), raw)), App("jsondecerr|"+n, SAny, raw)
		case *types.Pointer:
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && !hasMethod(u, "UnmarshalJSON") && old == Int(0) {
				_ = b
				ev, e := c.decodeProp(raw, u.Elem(), c.ex.zeroOf(u.Elem()))
				o := c.ex.newObj(c.st, u.Elem(), ev)
				return Ite(null, Int(0), o.T), e
			}
		}
	}
	return App("jsondec|"+n, c.ex.sortOf(t), raw, old), App("jsondecerr|"+n, SAny, raw, old)
}

// encodeArg is the value encoding/json sees: what a pointer points to, the content of a map, and one name for all
// struct types without a codec that share their declaration.
func (c *CallCtx) encodeArg(v *Term) *Term {
	return overIte(v, func(v *Term) *Term {
		if !boxedKnown(v) {
			return v
		}
		t := boxTypes[v.name[4:]]
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			if isIface(u.Elem()) {
				return v
			}
			if st, ok := isStruct(u.Elem()); ok {
				x := c.ex.load(c.st, c.ex.ptrVal(v.args[0], u.Elem()).A)
				nm := "jsonstruct|" + c.ex.structName(st, u.Elem())
				if hasMethod(t, "MarshalJSON") {
					nm = "jsonptr|" + shortType(u.Elem())
				}
				return Ite(Eq(v.args[0], Int(0)), v, App(nm, SAny, c.ex.term(c.st, x)))
			}
		case *types.Struct:
			if !hasMethod(t, "MarshalJSON") {
				return App("jsonstruct|"+c.ex.structName(u, t), SAny, v.args[0])
			}
		case *types.Map:
			return App("jsonmap|"+shortType(t), SAny, c.ex.mapDom(c.st, u, v.args[0]), c.ex.mapVal(c.st, u, v.args[0]), Eq(v.args[0], Int(0)))
		}
		return v
	})
}
