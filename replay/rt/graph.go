package verifspec

import (
	"reflect"
	"strconv"
	"strings"
)

// Cases about RDF graphs: nodes and triples are of the kinds the loader makes, and the
// tables of a parser agree with its triples.

const gordf = "github.com/spdx/gordf/rdfloader/parser"

func graphType(t reflect.Type) string {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	if t.PkgPath() == gordf {
		return t.Name()
	}
	if strings.HasPrefix(t.Name(), "rdfParser2_") {
		return "reader"
	}
	return ""
}

// graphPart fills x if it is a part of a graph.
func (g *gen) graphPart(x reflect.Value) bool {
	t := x.Type()
	k := graphType(t)
	if k == "" || k == "reader" {
		return false
	}
	if t.Kind() == reflect.Ptr {
		if g.depth == 0 && g.Intn(12) == 0 {
			return true // nil
		}
		if p := g.pool[t]; len(p) > 0 && g.Intn(3) == 0 {
			x.Set(p[g.Intn(len(p))])
			return true
		}
		n := reflect.New(t.Elem())
		if k == "Node" {
			g.pool[t] = append(g.pool[t], n)
		}
		g.depth++
		if !g.graphPart(n.Elem()) {
			g.into(n.Elem())
		}
		g.depth--
		x.Set(n)
		return true
	}
	switch k {
	case "NODETYPE":
		x.SetString([]string{"IRI", "LITERAL", "BNODE", "IRI"}[g.Intn(4)])
	case "Node":
		g.into(x.FieldByName("NodeType"))
		x.FieldByName("ID").SetString(g.nodeID())
	case "Parser":
		g.into(x.FieldByName("Triples"))
	default:
		return false
	}
	return true
}

func (g *gen) nodeID() string {
	switch g.Intn(8) {
	case 0:
		return "http://a.example/d#SPDXRef-" + g.word()
	case 1:
		return "http://a.example/d#" + g.piece()
	case 2:
		return []string{"Person: ", "Organization: ", "Tool: ", "NONE", "NOASSERTION", "none: "}[g.Intn(6)] + g.word()
	case 3:
		return g.str()
	case 4:
		return []string{"1", "23", "true", "false", "0", " 5"}[g.Intn(6)]
	case 5:
		return g.piece() + g.piece()
	}
	return g.piece()
}

// wire makes the tables of a reader agree with the triples about the nodes of the case.
func (g *gen) wire(as []reflect.Value) {
	var reader reflect.Value
	var nodes []reflect.Value
	for _, a := range as {
		switch {
		case graphType(a.Type()) == "reader" && a.Kind() == reflect.Ptr && !a.IsNil():
			reader = a.Elem()
		case graphType(a.Type()) == "Node" && a.Kind() == reflect.Ptr && !a.IsNil():
			nodes = append(nodes, a)
		case graphType(a.Type()) == "Triple" && a.Kind() == reflect.Ptr && !a.IsNil():
			nodes = append(nodes, open(a.Elem().FieldByName("Subject")), open(a.Elem().FieldByName("Object")))
		}
	}
	if !reader.IsValid() {
		return
	}
	g.nodes = 0
	table := open(reader.FieldByName("nodeStringToTriples"))
	tt := table.Type().Elem() // []*Triple
	table.Set(reflect.MakeMap(table.Type()))
	var some reflect.Value
	all := reflect.MakeSlice(tt, 0, 0)
	shapes := map[int][]string{}
	if g.Intn(4) == 0 {
		shapes[0] = rangeShape
	}
	number := []string{ptrNS + "offset", ptrNS + "lineNumber"}[g.Intn(2)]
	for i := 0; i < len(nodes) && i < 12; i++ {
		n := nodes[i]
		if !n.IsValid() || n.Kind() != reflect.Ptr || n.IsNil() {
			continue
		}
		key := reflect.ValueOf(n.MethodByName("String").Call(nil)[0].String())
		ts := table.MapIndex(key)
		if ts.IsValid() {
			continue
		}
		ts = reflect.MakeSlice(tt, 0, 0)
		for _, id := range shapes[i] {
			if id == "" {
				id = number
			}
			own := reflect.New(tt.Elem().Elem())
			obj := g.made("http://a.example/d#"+g.piece()+strconv.Itoa(len(nodes)), n.Type())
			switch id {
			case ptrNS + "startPointer", ptrNS + "endPointer":
				shapes[len(nodes)] = pointerShape
			case ptrNS + "offset", ptrNS + "lineNumber":
				obj = g.made(strconv.Itoa(g.Intn(40)-2), n.Type())
			}
			own.Elem().FieldByName("Subject").Set(n)
			own.Elem().FieldByName("Predicate").Set(g.made(id, n.Type()))
			own.Elem().FieldByName("Object").Set(obj)
			ts, all, nodes = reflect.Append(ts, own), reflect.Append(all, own), append(nodes, obj)
		}
		for c := g.Intn(5); c > 0 && shapes[i] == nil; c-- {
			g.depth++
			t := g.value(tt.Elem())
			g.depth--
			g.nodes = 0
			if t.IsNil() || t.Elem().FieldByName("Object").IsNil() {
				continue
			}
			// a triple of its own about this node
			own := reflect.New(tt.Elem().Elem())
			own.Elem().Set(t.Elem())
			own.Elem().FieldByName("Subject").Set(n)
			pred := reflect.New(n.Type().Elem())
			pred.Elem().FieldByName("NodeType").SetString("IRI")
			if id := g.predicate(); id != "" {
				pred.Elem().FieldByName("ID").SetString(id)
				own.Elem().FieldByName("Predicate").Set(pred)
			}
			ts = reflect.Append(ts, own)
			all = reflect.Append(all, own)
			nodes = append(nodes, own.Elem().FieldByName("Object"))
		}
		table.SetMapIndex(key, ts)
		if !some.IsValid() || some.Len() == 0 {
			some = ts
		}
	}
	obj := open(reader.FieldByName("gordfParserObj"))
	if obj.IsNil() {
		obj.Set(reflect.New(obj.Type().Elem()))
	}
	obj.Elem().FieldByName("Triples").Set(all)
	for i := range as { // a list of triples given is that of one node
		if as[i].Type() == tt && some.IsValid() && g.Intn(3) > 0 {
			as[i].Set(some)
		}
	}
	for _, f := range []string{"files", "assocWithPackage", "cache"} {
		m := open(reader.FieldByName(f))
		m.Set(reflect.MakeMap(m.Type()))
	}
	if d := open(reader.FieldByName("doc")); d.IsNil() && g.Intn(4) > 0 {
		d.Set(reflect.New(d.Type().Elem()))
	}
}

// predicate: a name of a property, if the dictionary has one.
func (g *gen) predicate() string {
	if g.Intn(12) == 0 {
		return ""
	}
	if g.preds == nil {
		for _, w := range g.words {
			if strings.Contains(w, "://") && !strings.HasSuffix(w, "#") {
				g.preds = append(g.preds, w)
			}
		}
		if len(g.preds) == 0 {
			g.preds = []string{"http://spdx.org/rdf/terms#name"}
		}
	}
	return g.preds[g.Intn(len(g.preds))]
}

const ptrNS = "http://www.w3.org/2009/pointers#"

// The shape of a range and of a pointer of it; "" is the number of the pointer.
var rangeShape = []string{"http://www.w3.org/1999/02/22-rdf-syntax-ns#type", ptrNS + "startPointer", ptrNS + "endPointer"}
var pointerShape = []string{"http://www.w3.org/1999/02/22-rdf-syntax-ns#type", ""}

// made is a new node with this identifier.
func (g *gen) made(id string, t reflect.Type) reflect.Value {
	n := reflect.New(t.Elem())
	n.Elem().FieldByName("NodeType").SetString("IRI")
	n.Elem().FieldByName("ID").SetString(id)
	return n
}
