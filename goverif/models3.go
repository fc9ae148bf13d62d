package main

import (
	"encoding/json"
	"go/types"
	"strings"
	"unicode/utf8"
)

// Models of encoding/json: strings are encoded and decoded by inverse functions (for valid UTF-8), everything else by
// uninterpreted functions of the value.

// jsonEnc is the JSON text of a string, with or without HTML escaping.
func jsonEnc(s, esc *Term) *Term {
	if s.op == OIte {
		return Ite(s.args[0], jsonEnc(s.args[1], esc), jsonEnc(s.args[2], esc))
	}
	return App("jsonstr", SStr, s, esc)
}

func validUTF8(s *Term) *Term {
	switch s.op {
	case OStr:
		return Bool(utf8.ValidString(s.name))
	case OIte:
		return Ite(s.args[0], validUTF8(s.args[1]), validUTF8(s.args[2]))
	case OConcat:
		for i, a := range s.args {
			if a.op == OIte {
				p, q := append([]*Term{}, s.args...), append([]*Term{}, s.args...)
				p[i], q[i] = a.args[1], a.args[2]
				return Ite(a.args[0], validUTF8(Concat(p...)), validUTF8(Concat(q...)))
			}
		}
		// literal valid text separates: the whole is valid iff the parts are
		ok, prev := TTrue, false
		for _, a := range s.args {
			if a.op == OStr && utf8.ValidString(a.name) && a.name != "" {
				prev = false
				continue
			}
			if prev {
				return mk(OApp, "validutf8", 0, SBool, s)
			}
			prev = true
			ok = And(ok, validUTF8(a))
		}
		return ok
	}
	return mk(OApp, "validutf8", 0, SBool, s)
}

func isApp(t *Term, name string) bool { return t.op == OApp && t.name == name }

// jsonApp simplifies applications of the JSON functions.
func jsonApp(n string, args []*Term) *Term {
	a := args[0]
	if a.op == OIte && (n == "jsonval" || n == "jsonvalerr" || n == "jsonisnull" || n == "jsonembed") {
		rest := args[1:]
		return Ite(a.args[0], App(n, jsonSort[n], append([]*Term{a.args[1]}, rest...)...), App(n, jsonSort[n], append([]*Term{a.args[2]}, rest...)...))
	}
	enc := isApp(a, "jsonstr")
	switch n {
	case "jsonval":
		if enc {
			return Ite(validUTF8(a.args[0]), a.args[0], App("toutf8", SStr, a.args[0]))
		}
		if a.op == OStr {
			var s string
			if json.Unmarshal([]byte(a.name), &s) == nil {
				return Str(s)
			}
		}
	case "jsonvalerr":
		if enc {
			return AnyNil
		}
		if a.op == OStr {
			var s string
			if json.Unmarshal([]byte(a.name), &s) == nil {
				return AnyNil
			}
			return mkErr(Str("json"))
		}
	case "jsonisnull":
		if enc {
			return TFalse
		}
		if a.op == OStr {
			return Bool(strings.TrimSpace(a.name) == "null")
		}
	case "jsonembed": // the literal as it appears in a document written with or without HTML escaping
		if enc {
			return App("jsonstr", SStr, a.args[0], Or(a.args[1], args[1]))
		}
	case "validutf8":
		if v := validUTF8(a); !isApp(v, "validutf8") || v.args[0] != a {
			return v
		}
	}
	return nil
}

var jsonSort = map[string]*Sort{"jsonval": SStr, "jsonvalerr": SAny, "jsonisnull": SBool, "jsonembed": SStr}

// jsonString returns the string in a boxed value of a string type without a codec of its own.
func jsonString(x *Term) *Term {
	if x.op == OApp && strings.HasPrefix(x.name, "box_") && x.args[0].sort == SStr {
		t := boxTypes[x.name[4:]]
		if t == nil || isByteSlice(t) {
			return nil
		}
		ms := types.NewMethodSet(t)
		if ms.Lookup(nil, "MarshalJSON") == nil && ms.Lookup(nil, "MarshalText") == nil {
			return x.args[0]
		}
	}
	return nil
}

func init() {
	M := modelTab
	M["unicode/utf8.ValidString"] = one(func(c *CallCtx) *Term { return validUTF8(c.t(0)) })
	M["strings.ToValidUTF8"] = one(func(c *CallCtx) *Term { return App("tovalidutf8", SStr, c.t(0), c.t(1)) })

	wk, ek, ik := "H|$jsonenc|w", "H|$jsonenc|esc", "H|$jsonenc|ind"
	arr := func(s *Sort) *Sort { return ArrSort(SInt, s) }
	M["encoding/json.NewEncoder"] = func(c *CallCtx) Val {
		ref := c.ex.alloc(c.st, "encoding/json.Encoder")
		c.st.set(wk, Store(c.st.get(wk, arr(SAny)), ref, c.t(0)))
		c.st.set(ek, Store(c.st.get(ek, arr(SBool)), ref, TTrue))
		c.st.set(ik, Store(c.st.get(ik, arr(SStr)), ref, Str("")))
		return c.retPtr(ref)
	}
	M["(*encoding/json.Encoder).SetEscapeHTML"] = func(c *CallCtx) Val {
		c.st.set(ek, Store(c.st.get(ek, arr(SBool)), c.t(0), c.t(1)))
		return Val{}
	}
	M["(*encoding/json.Encoder).SetIndent"] = func(c *CallCtx) Val {
		t := App("jsonindent", SStr, c.t(1), c.t(2))
		if t.args[0] == Str("") && t.args[1] == Str("") {
			t = Str("")
		}
		c.st.set(ik, Store(c.st.get(ik, arr(SStr)), c.t(0), t))
		return Val{}
	}
	M["(*encoding/json.Encoder).Encode"] = func(c *CallCtx) Val {
		ref, v := c.t(0), c.t(1)
		w := Select(c.st.get(wk, arr(SAny)), ref)
		esc := Select(c.st.get(ek, arr(SBool)), ref)
		ind := Select(c.st.get(ik, arr(SStr)), ref)
		if s := jsonString(v); s != nil {
			return Val{T: c.ex.writeTo(c.st, w, Concat(jsonEnc(s, esc), Str("\n"))).Tup[1].T}
		}
		v = c.encodeArg(v)
		err := App("jsonencerr", SAny, v)
		ok := c.st.clone()
		r := c.ex.writeTo(ok, w, Concat(App("jsonenc", SStr, v, esc, ind), Str("\n"))).Tup[1].T
		c.choose(Eq(err, AnyNil), ok)
		return Val{T: Ite(Eq(err, AnyNil), r, err)}
	}
	M["encoding/json.Marshal"] = func(c *CallCtx) Val {
		v := c.t(0)
		if s := jsonString(v); s != nil {
			return Val{Tup: []Val{{T: jsonEnc(s, TTrue)}, {T: AnyNil}}}
		}
		v = c.encodeArg(v)
		err := App("jsonencerr", SAny, v)
		return Val{Tup: []Val{{T: Ite(Eq(err, AnyNil), App("jsonenc", SStr, v, TTrue, Str("")), Str(""))}, {T: err}}}
	}
	M["encoding/json.Unmarshal"] = func(c *CallCtx) Val {
		data := c.t(0)
		p := c.args[1].In
		if p == nil {
			unsup("json.Unmarshal into a dynamic value")
		}
		bt := c.t(1)
		if bt.op != OApp || !strings.HasPrefix(bt.name, "box_") || boxTypes[bt.name[4:]] == nil {
			unsup("json.Unmarshal into a dynamic value")
		}
		pt, ok := boxTypes[bt.name[4:]].Underlying().(*types.Pointer)
		if !ok {
			unsup("json.Unmarshal into a non-pointer")
		}
		a := c.ex.addrOf(*p, pt)
		if types.NewMethodSet(pt).Lookup(nil, "UnmarshalJSON") == nil {
			if b, ok := pt.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				err := App("jsonvalerr", SAny, data)
				old := c.ex.loadT(c.st, a)
				nv := Ite(App("jsonisnull", SBool, data), old, App("jsonval", SStr, data))
				c.ex.storeT(c.st, a, Ite(Eq(err, AnyNil), nv, old))
				return Val{T: err}
			}
		}
		return c.decodeDoc("json", 1)
	}
}

// choose makes the state the one of yes where cond holds.
func (c *CallCtx) choose(cond *Term, yes *State) {
	for k, t := range yes.m {
		o := c.st.get(k, t.sort)
		if o != t {
			c.st.set(k, Ite(cond, t, o))
		}
	}
}

// trimSet is strings.Trim, TrimLeft or TrimRight; literal ends of the text are trimmed at once.
func trimSet(nm string, s, cs *Term) *Term {
	if cs.op == OStr && s.op == OConcat {
		ps := append([]*Term{}, s.args...)
		if f := ps[0]; f.op == OStr && nm != "trimright" {
			ps[0] = Str(strings.TrimLeft(f.name, cs.name))
		}
		if l := ps[len(ps)-1]; l.op == OStr && nm != "trimleft" {
			ps[len(ps)-1] = Str(strings.TrimRight(l.name, cs.name))
		}
		if b := Concat(ps...); b != s {
			return trimSet(nm, b, cs)
		}
	}
	if cs.op == OStr && trimmed(s) && strings.Trim(cs.name, " \t\n\v\f\r") == "" {
		return s
	}
	return mk(OApp, nm, 0, SStr, s, cs)
}
