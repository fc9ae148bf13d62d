package convert

import (
	"fmt"
	"reflect"
	"unicode/utf8"

	converter "github.com/anchore/go-struct-converter"

	"github.com/spdx/tools-golang/spdx/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_1"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	v "github.com/spdx/tools-golang/verifspec"
)

func zz_isPtr(x any) bool { return x != nil && reflect.TypeOf(x).Kind() == reflect.Ptr }

// zz_follow follows pointers, as far as they lead somewhere, and gives the number of steps.
func zz_follow(x any) (any, string) {
	stars := ""
	value := reflect.ValueOf(x)
	for value.Kind() == reflect.Ptr && !value.IsNil() {
		stars += "*"
		value = value.Elem()
	}
	return value.Interface(), stars
}

// P11: only pointers are pointers; nothing is not one.
func zzc_IsPtr(obj common.AnyDocument) {
	v.Spec(func() bool { return zz_isPtr(obj) })
}

// P11: the value a document (pointer) stands for; a nil pointer stays.
func zzc_FromPtr(doc common.AnyDocument) {
	v.Spec(func() common.AnyDocument {
		if doc == nil {
			return nil
		}
		x, _ := zz_follow(doc)
		return x
	})
}

// P11: the type and the contents, cut to 300 characters.
func zzc_Describe(o interface{}) {
	v.Spec(func() string {
		if o == nil {
			return "nil"
		}
		x, stars := zz_follow(o)
		if zz_isPtr(x) {
			return fmt.Sprintf("%s%s: nil", stars, reflect.TypeOf(x))
		}
		return reflect.TypeOf(x).PkgPath() + "." + stars + reflect.TypeOf(x).Name() + ": " + limit(fmt.Sprintf("%+v", x), 300)
	})
}

// P11: complete when short, cut at the stated number of characters otherwise.
func zzc_limit(text string, length int) {
	v.Spec(func() string {
		if length <= 0 || utf8.RuneCountInString(text) <= length+3 {
			return text
		}
		return string([]rune(text)[:length]) + "..."
	})
}

// P11: every pair of adjacent versions is connected, in both directions.
func zzc_DocumentChain() {
	v.Spec(func() converter.FuncChain {
		return converter.NewFuncChain(v2_2.From_v2_1, v2_2.To_v2_1, v2_3.From_v2_2, v2_3.To_v2_2)
	})
}

// P11: into pointers only; the same version is copied, others go through the chain.
func zzc_Document(from common.AnyDocument, to common.AnyDocument) {
	v.Summary()
	v.Spec(func() error {
		if !zz_isPtr(to) || reflect.ValueOf(to).IsNil() {
			return v.Fail()
		}
		doc := FromPtr(from)
		if doc == nil || zz_isPtr(doc) {
			return v.Fail()
		}
		target := reflect.ValueOf(to).Elem()
		if target.Type() != reflect.TypeOf(doc) {
			return DocumentChain().Convert(doc, to)
		}
		target.Set(reflect.ValueOf(doc))
		return nil
	})
}

// P11: a document is converted to its own version by copying it, given by value or by pointer.
func zzl_sameVersion1(doc v2_1.Document, p *v2_1.Document) {
	var a v2_1.Document
	v.Assert(Document(doc, &a) == nil, "own version, by value")
	v.Assert(v.Eq(a, doc), "equal document")
	var b v2_1.Document
	if p == nil {
		v.Assert(Document(p, &b) != nil, "no document is an error")
		return
	}
	v.Assert(Document(p, &b) == nil, "own version, by pointer")
	v.Assert(v.Eq(b, *p), "equal document")
}

func zzl_sameVersion2(doc v2_2.Document, p *v2_2.Document) {
	var a v2_2.Document
	v.Assert(Document(doc, &a) == nil, "own version, by value")
	v.Assert(v.Eq(a, doc), "equal document")
	var b v2_2.Document
	if p == nil {
		v.Assert(Document(p, &b) != nil, "no document is an error")
		return
	}
	v.Assert(Document(p, &b) == nil, "own version, by pointer")
	v.Assert(v.Eq(b, *p), "equal document")
}

func zzl_sameVersion3(doc v2_3.Document, p *v2_3.Document) {
	var a v2_3.Document
	v.Assert(Document(doc, &a) == nil, "own version, by value")
	v.Assert(v.Eq(a, doc), "equal document")
	var b v2_3.Document
	if p == nil {
		v.Assert(Document(p, &b) != nil, "no document is an error")
		return
	}
	v.Assert(Document(p, &b) == nil, "own version, by pointer")
	v.Assert(v.Eq(b, *p), "equal document")
}
