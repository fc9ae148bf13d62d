package verifspec

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

var eof = io.EOF

type entry struct {
	key            string
	contract, real reflect.Value
}

var entries []entry

// Register adds a function under contract (real is nil for a lemma).
func Register(key string, contract, real any) {
	e := entry{key: key, contract: reflect.ValueOf(contract)}
	if real != nil {
		e.real = reflect.ValueOf(real)
	}
	entries = append(entries, e)
}

// RegisterType makes values of the type available where an interface is asked for.
func RegisterType(x any) { dynTypes = append(dynTypes, reflect.TypeOf(x)) }

var dynTypes []reflect.Type

func open(x reflect.Value) reflect.Value {
	if x.CanSet() || !x.CanAddr() {
		if !x.CanInterface() && !x.CanAddr() {
			return reflect.Value{}
		}
		return x
	}
	return reflect.NewAt(x.Type(), unsafe.Pointer(x.UnsafeAddr())).Elem()
}

type gen struct {
	*rand.Rand
	dict  []string
	words []string
	pool  map[reflect.Type][]reflect.Value
	strs  []string
	depth int
	fill  int
	nodes int
	max   int
	dir   string
	paths []string
	jsonT reflect.Type // byte lists are JSON texts for this type
	few   []string
	preds []string
	rdf   bool // the case is about an RDF graph
	input string       // what readers give: "json", "yaml", "tv" or ""
}

var specials = []string{"", "", " ", "a", "A", "b", "NOASSERTION", "NONE", "MIT", "SPDXRef-", "SPDXRef-a", "DocumentRef-", "DocumentRef-d:SPDXRef-a", ":", "\n", "\t", "\"", "\\", "<", ">", "&", "<text>", "</text>", "é", "日本", "0", "1", "-1", "7", "true", "false", "a: b", "(", ")", "(a)", "*", "**/", "/", "x/y", "./", "AND", "OR", "null", "\u2028", "%s", "%", ",", ", ", "Person: ", "Organization: ", "Tool: ", "1:2", "3:4", "#", "\u00a0"}

func (g *gen) word() string {
	const al = "abcxyzABC019.-_+"
	n := 1 + g.Intn(4)
	if g.Intn(60) == 0 {
		n = g.Intn(400)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = al[g.Intn(len(al))]
	}
	return string(b)
}

func (g *gen) piece() string {
	if len(g.words) > 0 && g.Intn(3) > 0 {
		return g.words[g.Intn(len(g.words))]
	}
	switch g.Intn(4) {
	case 0:
		return specials[g.Intn(len(specials))]
	case 1, 2:
		if len(g.dict) > 0 {
			return g.dict[g.Intn(len(g.dict))]
		}
	}
	return g.word()
}

func (g *gen) str() string {
	var s string
	if len(g.paths) > 0 && g.Intn(3) == 0 {
		return g.paths[g.Intn(len(g.paths))]
	}
	switch g.Intn(14) {
	case 0, 1, 2:
		if len(g.strs) > 0 {
			s = g.strs[g.Intn(len(g.strs))]
			break
		}
		s = g.piece()
	case 3:
		s = g.piece() + g.piece()
	case 4:
		s = g.piece() + []string{":", ": ", " ", ",", "-", "\n"}[g.Intn(6)] + g.piece()
	case 5:
		for i := g.Intn(5); i >= 0; i-- {
			s += g.piece()
		}
	case 6:
		s = []string{"SPDXRef-", "SPDXRef-", "DocumentRef-d:SPDXRef-", "DocumentRef-"}[g.Intn(4)] + g.word()
	case 7:
		s = g.piece() + " " + g.piece() + " " + g.piece()
	default:
		s = g.piece()
	}
	g.strs = append(g.strs, s)
	return s
}

func (g *gen) value(t reflect.Type) reflect.Value {
	x := reflect.New(t).Elem()
	g.into(x)
	return x
}

func (g *gen) into(x reflect.Value) {
	t := x.Type()
	if g.rdf && g.graphPart(x) {
		return
	}
	if g.nodes++; g.nodes > g.max && g.Intn(10) > 0 && x.Kind() != reflect.Func && x.Kind() != reflect.Interface {
		return
	}
	switch x.Kind() {
	case reflect.Bool:
		x.SetBool(g.Intn(2) == 0)
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		x.SetInt(int64([]int{0, 1, 2, 3, 4, 5, 6, 7, 0, 1, 2, 3, 4, 5, 6, 7, -1, 100}[g.Intn(18)]))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x.SetUint(uint64(g.Intn(256)))
	case reflect.String:
		x.SetString(g.str())
	case reflect.Ptr:
		if g.Intn(8) == 0 || g.depth > 7 {
			return
		}
		if p := g.pool[t]; len(p) > 0 && g.Intn(3) == 0 {
			x.Set(p[g.Intn(len(p))])
			return
		}
		n := reflect.New(t.Elem())
		if g.pool[t] == nil || g.Intn(2) == 0 {
			g.pool[t] = append(g.pool[t], n)
		}
		g.depth++
		g.into(n.Elem())
		g.depth--
		x.Set(n)
	case reflect.Struct:
		keep := g.fill
		for i := 0; i < x.NumField(); i++ {
			f := open(x.Field(i))
			if !f.CanSet() {
				continue
			}
			if t.NumField() > 6 && g.Intn(100) >= keep {
				continue
			}
			g.into(f)
		}
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			if g.jsonT != nil && g.Intn(8) > 0 {
				g.few = nil
				x.Set(reflect.ValueOf([]byte(g.jsonText(g.jsonT, 0))).Convert(t))
				return
			}
			s := g.str()
			if g.Intn(3) == 0 {
				s = s + g.piece()
			}
			if g.Intn(8) > 0 {
				s = string(jsonStr(s, g.Intn(2) == 0))
			}
			x.Set(reflect.ValueOf([]byte(s)).Convert(t))
			return
		}
		n := []int{0, 0, 1, 1, 2, 3}[g.Intn(6)]
		if g.depth < 1 {
			n = g.Intn(6)
		}
		if g.depth > 6 {
			n = 0
		}
		if n == 0 {
			return
		}
		s := reflect.MakeSlice(t, n, n)
		g.depth++
		for i := 0; i < n; i++ {
			g.into(s.Index(i))
		}
		g.depth--
		x.Set(s)
	case reflect.Array:
		for i := 0; i < x.Len(); i++ {
			g.into(x.Index(i))
		}
	case reflect.Map:
		if g.Intn(6) == 0 || g.depth > 6 {
			return
		}
		m := reflect.MakeMap(t)
		g.depth++
		for i := g.Intn(4); i > 0; i-- {
			m.SetMapIndex(g.value(t.Key()), g.value(t.Elem()))
		}
		g.depth--
		x.Set(m)
	case reflect.Interface:
		switch {
		case t == reflect.TypeOf((*io.Writer)(nil)).Elem():
			w := &W{limit: -1, kind: g.Intn(6)}
			if g.Intn(3) == 0 {
				w.limit = g.Intn(200)
			}
			x.Set(reflect.ValueOf(w))
		case t == reflect.TypeOf((*io.Reader)(nil)).Elem():
			r := &R{fail: g.Intn(6) == 0}
			if g.input != "" && g.Intn(8) > 0 {
				r.text = g.document()
				x.Set(reflect.ValueOf(r))
				return
			}
			for i := g.Intn(6); i > 0; i-- {
				r.text += g.str() + []string{"\n", "\n", "\r\n", ""}[g.Intn(4)]
			}
			x.Set(reflect.ValueOf(r))
		default:
			var ok []reflect.Type
			for _, d := range dynTypes {
				if d.AssignableTo(t) {
					ok = append(ok, d)
				}
			}
			if len(ok) == 0 {
				return
			}
			if g.Intn(8) == 0 {
				return
			}
			x.Set(g.value(ok[g.Intn(len(ok))]))
		}
	case reflect.Func:
		g.fn(x)
	}
}

// fn makes a pure function: its results depend on the rendering of its arguments only.
func (g *gen) fn(x reflect.Value) {
	t := x.Type()
	salt := g.Int63()
	dict := g.dict
	x.Set(reflect.MakeFunc(t, func(in []reflect.Value) []reflect.Value {
		h := salt
		for _, a := range in {
			for _, c := range show(a) {
				h = h*31 + int64(c)
			}
		}
		q := &gen{Rand: rand.New(rand.NewSource(h)), dict: dict, pool: map[reflect.Type][]reflect.Value{}, fill: 20, max: 50, depth: 3}
		var out []reflect.Value
		for i := 0; i < t.NumOut(); i++ {
			o := reflect.New(t.Out(i)).Elem()
			// results that are of an argument's type are that argument or zero
			done := false
			for _, a := range in {
				if a.Type() == t.Out(i) {
					if q.Intn(2) == 0 {
						o.Set(a)
					}
					done = true
				}
			}
			if !done {
				q.into(o)
			}
			out = append(out, o)
		}
		return out
	}))
}

// dup copies a value deeply, keeping its sharing.
func dup(x reflect.Value, memo map[unsafe.Pointer]reflect.Value) reflect.Value {
	n := reflect.New(x.Type()).Elem()
	switch x.Kind() {
	case reflect.Ptr:
		if x.IsNil() {
			return n
		}
		if m, ok := memo[x.UnsafePointer()]; ok && m.Type() == x.Type() {
			return m
		}
		p := reflect.New(x.Type().Elem())
		memo[x.UnsafePointer()] = p
		dupInto(p.Elem(), x.Elem(), memo)
		return p
	}
	dupInto(n, x, memo)
	return n
}

func dupInto(n, x reflect.Value, memo map[unsafe.Pointer]reflect.Value) {
	switch x.Kind() {
	case reflect.Struct:
		if !x.CanAddr() {
			c := reflect.New(x.Type()).Elem()
			c.Set(x)
			x = c
		}
		for i := 0; i < x.NumField(); i++ {
			dupInto(open(n.Field(i)), open(x.Field(i)), memo)
		}
	case reflect.Slice:
		if x.IsNil() {
			return
		}
		s := reflect.MakeSlice(x.Type(), x.Len(), x.Len())
		for i := 0; i < x.Len(); i++ {
			dupInto(s.Index(i), x.Index(i), memo)
		}
		n.Set(s)
	case reflect.Array:
		for i := 0; i < x.Len(); i++ {
			dupInto(n.Index(i), x.Index(i), memo)
		}
	case reflect.Map:
		if x.IsNil() {
			return
		}
		m := reflect.MakeMap(x.Type())
		for _, k := range x.MapKeys() {
			m.SetMapIndex(dup(k, memo), dup(x.MapIndex(k), memo))
		}
		n.Set(m)
	case reflect.Interface:
		if x.IsNil() {
			return
		}
		n.Set(dup(x.Elem(), memo))
	case reflect.Ptr:
		n.Set(dup(x, memo))
	default:
		n.Set(x)
	}
}

// tree makes a small file tree under dir and gives names in it.
func tree(r *rand.Rand, dir string, g *gen) (paths []string) {
	os.RemoveAll(filepath.Join(dir, "t"))
	root := filepath.Join(dir, "t")
	os.MkdirAll(root, 0o755)
	walks = map[string][]walkEntry{}
	names := []string{"a", "b.txt", "c", ".git", "LICENSE", "x y", "A", "a.b", "sub", "é"}
	dirs := []string{""}
	paths = append(paths, root, root, "t", root+"/", "./t", ".")
	for i := r.Intn(4); i > 0; i-- {
		d := filepath.Join(dirs[r.Intn(len(dirs))], names[r.Intn(len(names))])
		if os.Mkdir(filepath.Join(root, d), 0o755) == nil {
			dirs = append(dirs, d)
			paths = append(paths, "/"+d+"/", "**/"+filepath.Base(d)+"/", filepath.Join(root, d))
		}
	}
	for i := r.Intn(7); i > 0; i-- {
		f := filepath.Join(dirs[r.Intn(len(dirs))], names[r.Intn(len(names))])
		p := filepath.Join(root, f)
		if _, err := os.Lstat(p); err == nil {
			continue
		}
		if r.Intn(8) == 0 {
			os.Symlink(names[r.Intn(len(names))], p)
		} else {
			s := ""
			for j := r.Intn(5); j > 0; j-- {
				if r.Intn(2) == 0 {
					s += []string{"", "// ", "/* ", "# ", "abcdefgh "}[r.Intn(5)] + "SPDX-License-Identifier:" + []string{" ", "", "  "}[r.Intn(3)] + []string{"MIT", "Apache-2.0", "(MIT OR GPL-2.0+)", "MIT AND ISC", "GPL-2.0-only WITH X", "a-b", "MIT*", ""}[r.Intn(8)] + []string{"", " */", " ", "*/ x"}[r.Intn(4)]
				} else {
					s += g.piece()
				}
				s += []string{"\n", "\n", "\r\n", ""}[r.Intn(4)]
			}
			os.WriteFile(p, []byte(s), 0o644)
		}
		paths = append(paths, "/"+f, "./"+f, p, "**/"+filepath.Base(f), f)
	}
	paths = append(paths, "t/missing", "**/", "**")
	return
}

var errType = reflect.TypeOf((*error)(nil)).Elem()

// same compares two values up to the addresses of their objects.
type iso struct {
	ab, ba map[unsafe.Pointer]unsafe.Pointer
}

func (s *iso) same(a, b reflect.Value, at string) string {
	if !a.IsValid() || !b.IsValid() {
		if a.IsValid() == b.IsValid() {
			return ""
		}
		return at
	}
	if a.Type() != b.Type() {
		return at + " (types differ)"
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() == b.IsNil() {
				return ""
			}
			return at + " (nil)"
		}
		pa, pb := a.UnsafePointer(), b.UnsafePointer()
		qb, ok1 := s.ab[pa]
		qa, ok2 := s.ba[pb]
		if ok1 || ok2 {
			if a.Type().Elem().Size() == 0 || qb == pb && qa == pa {
				return ""
			}
			return at + " (different object)"
		}
		s.ab[pa], s.ba[pb] = pb, pa
		if w, ok := a.Interface().(*W); ok {
			x := b.Interface().(*W)
			if w.fail != x.fail || !w.fail && string(w.buf) != string(x.buf) {
				return at + " (output)"
			}
			return ""
		}
		if _, ok := a.Interface().(*R); ok {
			return ""
		}
		return s.same(a.Elem(), b.Elem(), at)
	case reflect.Struct:
		if !a.CanAddr() {
			c := reflect.New(a.Type()).Elem()
			c.Set(a)
			a = c
		}
		if !b.CanAddr() {
			c := reflect.New(b.Type()).Elem()
			c.Set(b)
			b = c
		}
		for i := 0; i < a.NumField(); i++ {
			// the inside of the first field of a pointed-to struct has the struct's address
			if d := s.same(open(a.Field(i)), open(b.Field(i)), at+"."+a.Type().Field(i).Name); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("len(%s) (%d, %d)", at, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := s.same(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", at, i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if d := s.same(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", at, i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		if a.Len() != b.Len() {
			return "len(" + at + ")"
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() {
				return fmt.Sprintf("%s[%v] (absent)", at, show(k))
			}
			if d := s.same(a.MapIndex(k), y, at+"["+show(k)+"]"); d != "" {
				return d
			}
		}
		return ""
	case reflect.Interface:
		if a.Type() == errType {
			if a.IsNil() != b.IsNil() {
				return at + " (error)"
			}
			return ""
		}
		if a.IsNil() || b.IsNil() {
			if a.IsNil() == b.IsNil() {
				return ""
			}
			return at + " (nil)"
		}
		return s.same(a.Elem(), b.Elem(), at)
	case reflect.Func:
		return ""
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s (%q, %q)", at, a.String(), b.String())
		}
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return at
		}
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s (%d, %d)", at, a.Int(), b.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if a.Uint() != b.Uint() {
			return fmt.Sprintf("%s (%d, %d)", at, a.Uint(), b.Uint())
		}
	}
	return ""
}

// show renders a value (zero fields omitted).
func show(x reflect.Value) string {
	var sb strings.Builder
	render(&sb, x, map[unsafe.Pointer]bool{})
	return sb.String()
}

func render(sb *strings.Builder, x reflect.Value, seen map[unsafe.Pointer]bool) {
	if !x.IsValid() {
		sb.WriteString("nil")
		return
	}
	if sb.Len() > 6000 {
		return
	}
	switch x.Kind() {
	case reflect.Ptr:
		if x.IsNil() {
			sb.WriteString("nil")
			return
		}
		if seen[x.UnsafePointer()] {
			fmt.Fprintf(sb, "&%s(shared)", x.Type().Elem().Name())
			return
		}
		seen[x.UnsafePointer()] = true
		sb.WriteString("&")
		render(sb, x.Elem(), seen)
	case reflect.Interface:
		if x.IsNil() {
			sb.WriteString("nil")
			return
		}
		fmt.Fprintf(sb, "%s:", x.Elem().Type())
		render(sb, x.Elem(), seen)
	case reflect.Struct:
		if !x.CanAddr() {
			c := reflect.New(x.Type()).Elem()
			c.Set(x)
			x = c
		}
		sb.WriteString(x.Type().Name() + "{")
		n := 0
		for i := 0; i < x.NumField(); i++ {
			f := open(x.Field(i))
			if f.IsValid() && f.IsZero() {
				continue
			}
			if n > 0 {
				sb.WriteString(", ")
			}
			n++
			sb.WriteString(x.Type().Field(i).Name + ": ")
			render(sb, f, seen)
		}
		sb.WriteString("}")
	case reflect.Slice, reflect.Array:
		if x.Kind() == reflect.Slice && x.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(sb, "%q", x.Bytes())
			return
		}
		sb.WriteString("[")
		for i := 0; i < x.Len(); i++ {
			if i > 0 {
				sb.WriteString(", ")
			}
			render(sb, x.Index(i), seen)
		}
		sb.WriteString("]")
	case reflect.Map:
		sb.WriteString("map[")
		var ks []string
		for _, k := range x.MapKeys() {
			var s strings.Builder
			render(&s, k, seen)
			s.WriteString(": ")
			render(&s, x.MapIndex(k), seen)
			ks = append(ks, s.String())
		}
		sort.Strings(ks)
		sb.WriteString(strings.Join(ks, ", ") + "]")
	case reflect.String:
		fmt.Fprintf(sb, "%q", x.String())
	case reflect.Func:
		sb.WriteString("func")
	default:
		fmt.Fprintf(sb, "%v", x.Interface())
	}
}

func showAll(xs []reflect.Value) string {
	var out []string
	for _, x := range xs {
		out = append(out, show(x))
	}
	return strings.Join(out, "\n    ")
}

// guarded calls f; outcome "" (returned), "skip" or a panic text.
func guarded(f func()) (out string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(skip); ok {
				out = "skip"
				return
			}
			out = fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	f()
	return ""
}

func trimStack(s string) string {
	i := strings.Index(s, "panic(")
	if i > 0 {
		s = s[i:]
	}
	ls := strings.Split(s, "\n")
	if len(ls) > 14 {
		ls = ls[:14]
	}
	return strings.Join(ls, "\n")
}

func contract(e entry, as []reflect.Value) (*capture, string) {
	cur = &capture{ok: true}
	c := cur
	args = as
	out := guarded(func() { call(e.contract, as) })
	return c, out
}

func call(f reflect.Value, as []reflect.Value) []reflect.Value {
	if f.Type().IsVariadic() {
		return f.CallSlice(as)
	}
	return f.Call(as)
}

var caseText string

// again generates one part of the arguments anew: a field of an argument's structure, or an argument.
func (g *gen) again(as []reflect.Value) func() {
	var parts []reflect.Value
	for _, x := range as {
		if x.CanSet() {
			parts = append(parts, x)
		}
		for x.Kind() == reflect.Ptr && !x.IsNil() {
			x = x.Elem()
		}
		if x.Kind() == reflect.Struct {
			for i := 0; i < x.NumField(); i++ {
				if f := open(x.Field(i)); f.CanSet() {
					parts = append(parts, f)
				}
			}
		}
	}
	if len(parts) == 0 {
		return func() {}
	}
	x := parts[g.Intn(len(parts))]
	old := reflect.New(x.Type()).Elem()
	old.Set(x)
	x.SetZero()
	g.into(x)
	return func() { x.Set(old) }
}

// rootArg: the argument that names a directory to walk.
var rootArg = map[string]int{"utils.GetAllFilePaths": 0, "builder.BuildPackageSection": 1, "builder.Build": 1, "idsearcher.BuildIDsDocument": 1}

// one runs one case; "" if the contract holds on it (or the case does not apply).
func one(e entry, g *gen) (string, int) {
	t := e.contract.Type()
	var as []reflect.Value
	g.jsonT, g.input = nil, ""
	if strings.HasSuffix(e.key, ".UnmarshalJSON") && t.NumIn() > 0 && t.In(0).Kind() == reflect.Ptr && t.In(0).Elem().Kind() == reflect.Struct {
		g.jsonT = t.In(0).Elem()
	}
	for _, k := range []string{"json", "yaml", "tagvalue", "rdf"} {
		if strings.HasPrefix(e.key, k+".") {
			g.input = k
		}
	}
	g.rdf = strings.Contains(e.key, "/rdf/reader.")
	for i := 0; i < t.NumIn(); i++ {
		as = append(as, g.value(t.In(i)))
	}
	if g.rdf {
		g.wire(as)
	}
	if i, ok := rootArg[e.key]; ok {
		// directories outside the scratch tree are not walked
		p := as[i].String()
		q, err := filepath.Abs(p)
		if in := filepath.Join(g.dir, "t"); p == "" || err != nil || q != in && !strings.HasPrefix(q, in+"/") {
			as[i].SetString(in)
		}
	}
	_, o := contract(e, as)
	passed := cur.passed
	for try := 0; o != "" && try < 300; try++ {
		g.nodes = 0
		undo := g.again(as)
		c2, o2 := contract(e, as)
		if o2 != "" && c2.passed < passed {
			undo()
			continue
		}
		passed, o = c2.passed, o2
	}
	if o != "" {
		return "", 0
	}
	cs := dupAll(as) // the input, kept
	n := 0
	for v := 0; v < 12; v++ {
		if v > 0 { // variants that differ in a part or two
			as = dupAll(cs)
			g.nodes = 0
			g.again(as)
			if g.Intn(2) == 0 {
				g.again(as)
			}
			if g.rdf {
				g.wire(as)
			}
		}
		ca, o := contract(e, as)
		if o != "" {
			continue
		}
		n++
		ds, bs := dupAll(as), dupAll(as)
		if logFile != "" {
			os.WriteFile(logFile, []byte(e.key+"\n    "+showAll(as)), 0o644)
		}
		if !e.real.IsValid() { // lemma
			if len(ca.failed) > 0 {
				return fmt.Sprintf("lemma %s\n  on\n    %s\n  fails: %s", e.key, showAll(as), strings.Join(ca.failed, ", ")), n
			}
			continue
		}
		cb, o := contract(e, bs)
		if o != "" {
			continue
		}
		caseText = e.key
		if m := judge(e, as, ds, bs, ca, cb, 0); m != "" {
			return m, n
		}
	}
	return "", n
}

// judge runs the real function on as and the specification on bs (cs: the same input, unchanged).
func judge(e entry, as, cs, bs []reflect.Value, ca, cb *capture, try int) string {
	var ra, rb []reflect.Value
	began := time.Now()
	o := guarded(func() { ra = call(e.real, as) })
	if o == "skip" {
		return ""
	}
	describe := func() string { return fmt.Sprintf("function %s\n  on\n    %s\n", e.key, showAll(cs)) }
	if o != "" && strings.Contains(e.key, "/rdf/reader.") {
		return "" // crashes on odd graphs are another property's matter
	}
	if o != "" {
		return describe() + "  " + o
	}
	if time.Since(began) > 20*time.Second {
		return describe() + "  takes over 20 s"
	}
	args = as
	for _, en := range ca.ens {
		cur = ca
		good := true
		if o := guarded(func() { good = en.Call(ra)[0].Bool() }); o == "" && !good {
			return describe() + "  returns\n    " + showAll(ra) + "\n  and leaves\n    " + showAll(as) + "\n  which breaks its postcondition"
		}
	}
	if !cb.spec.IsValid() {
		return ""
	}
	cur = cb
	args = bs
	if o := guarded(func() { rb = cb.spec.Call(nil) }); o != "" {
		return ""
	}
	differs := func(msg string) string {
		// a result that depends on map order: another run may agree
		if try > 0 {
			return msg
		}
		for i := 1; i <= 40; i++ {
			a2, b2 := dupAll(cs), dupAll(cs)
			c1, o1 := contract(e, a2)
			c2, o2 := contract(e, b2)
			if o1 == "" && o2 == "" && judge(e, a2, dupAll(cs), b2, c1, c2, i) == "" {
				return ""
			}
		}
		return msg
	}
	ea, eb := failed(ra), failed(rb)
	if ea != eb {
		return differs(describe() + fmt.Sprintf("  returns error=%v, specified error=%v\n    returned %s\n    specified %s", ea, eb, showAll(ra), showAll(rb)))
	}
	if ea && !cb.total {
		return ""
	}
	s := &iso{map[unsafe.Pointer]unsafe.Pointer{}, map[unsafe.Pointer]unsafe.Pointer{}}
	for i := range as {
		if d := s.same(as[i], bs[i], fmt.Sprintf("argument %d", i)); d != "" {
			return differs(describe() + "  ends in a state that differs from the specified one at " + d + "\n  state\n    " + showAll(as) + "\n  specified\n    " + showAll(bs))
		}
	}
	for i := range rb {
		if d := s.same(ra[i], rb[i], fmt.Sprintf("result %d", i)); d != "" {
			return differs(describe() + "  result differs from the specified one at " + d + "\n  returned\n    " + showAll(ra) + "\n  specified\n    " + showAll(rb))
		}
	}
	return ""
}

func dupAll(as []reflect.Value) (out []reflect.Value) {
	memo := map[unsafe.Pointer]reflect.Value{}
	for _, a := range as {
		out = append(out, dup(a, memo))
	}
	return
}

func failed(rs []reflect.Value) bool {
	if len(rs) == 0 {
		return false
	}
	l := rs[len(rs)-1]
	return l.Type() == errType && !l.IsNil()
}

var logFile string

// Main: args SEED SECS DICT OUT KEY...; exit 1 with the failing case in OUT.
func Main() {
	debug.SetMaxStack(64 << 20)
	if f := os.Getenv("GV_RPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	seed, _ := strconv.Atoi(os.Args[1])
	secs, _ := strconv.Atoi(os.Args[2])
	b, _ := os.ReadFile(os.Args[3])
	out := os.Args[4]
	logFile = os.Getenv("GV_LOGCASE")
	only := map[string]bool{}
	for _, k := range os.Args[5:] {
		only[k] = true
	}
	dicts := map[string][]string{}
	json.Unmarshal(b, &dicts)
	dict := dicts[""]
	dir, err := os.MkdirTemp("", "gvcase")
	if err != nil {
		os.Exit(3)
	}
	defer os.RemoveAll(dir)
	os.Chdir(dir)
	os.MkdirAll(filepath.Join(dir, "x"), 0o755)
	var es []entry
	for _, e := range entries {
		if len(only) == 0 || only[e.key] {
			es = append(es, e)
		}
	}
	if len(es) == 0 {
		fmt.Println("cases=0 (no contract to run)")
		return
	}
	ran := map[string][2]int{}
	var paths []string
	files := false
	for _, e := range es {
		for _, p := range []string{"builder.", "utils.", "idsearcher."} {
			files = files || strings.HasPrefix(e.key, p)
		}
	}
	end := time.Now().Add(time.Duration(secs) * time.Second)
	n := 0
	var busy atomic.Int64
	go func() { // watchdog: a case that does not end
		last, same := int64(-1), 0
		for {
			time.Sleep(5 * time.Second)
			if x := busy.Load(); x == last {
				same++
			} else {
				last, same = x, 0
			}
			if same >= 5 {
				os.WriteFile(out, []byte(fmt.Sprintf("seed %d case %d: no answer within 25 s\n%s", seed, last, caseText)), 0o644)
				os.Exit(1)
			}
		}
	}()
	for ; time.Now().Before(end); n++ {
		busy.Store(int64(n))
		// the contract that has applied least often; every 4th time, the next in turn
		e := es[n/4%len(es)]
		if n%4 != 0 {
			for _, x := range es {
				if ran[x.key][1] < ran[e.key][1] && ran[x.key][0] < 20*ran[e.key][0]+100 {
					e = x
				}
			}
		}
		// names for this case: a small part of the dictionary
		r := rand.New(rand.NewSource(int64(seed)*7919 + int64(n)))
		g := &gen{Rand: r, dict: dict, words: dicts[e.key], pool: map[reflect.Type][]reflect.Value{}, fill: []int{10, 20, 40, 100}[r.Intn(4)], max: []int{20, 60, 150, 300}[r.Intn(4)], dir: dir}
		if files && n%20 == 0 {
			paths = tree(r, dir, g)
		}
		g.paths = paths
		sec := time.Now().Unix()
		msg, applies := one(e, g)
		if files && sec != time.Now().Unix() {
			msg = "" // the contracts may read the clock, which moved on
		}
		c := ran[e.key]
		c[0]++
		c[1] += applies
		ran[e.key] = c
		if msg != "" {
			os.WriteFile(out, []byte(fmt.Sprintf("seed %d case %d\n%s\n", seed, n, msg)), 0o644)
			os.RemoveAll(dir)
			os.Exit(1)
		}
	}
	var ks []string
	for k := range ran {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	t := 0
	for _, k := range ks {
		t += ran[k][1]
		fmt.Printf("%s: %d of %d\n", k, ran[k][1], ran[k][0])
	}
	fmt.Printf("cases=%d\n", t)
}
