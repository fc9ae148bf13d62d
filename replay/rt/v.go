// Package verifspec, executable form: the primitives contracts are written with, given a meaning at run time.
// It replaces the declarations the verifier uses when a failed obligation is turned into a failing input.
package verifspec

import (
	"bufio"
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"unsafe"
)

type capture struct {
	ok     bool // preconditions hold
	spec   reflect.Value
	ens    []reflect.Value
	total  bool
	passed int      // preconditions that hold
	failed []string // failed assertions
}

var cur *capture
var args []reflect.Value // arguments of the case under way (candidates for quantifiers)

type skip struct{ why string }

func Requires(cond bool) {
	if !cond && cur != nil {
		cur.ok = false
		panic(skip{"precondition"})
	}
	if cur != nil {
		cur.passed++
	}
}
func Spec(f any)    { cur.spec = reflect.ValueOf(f) }
func Ensures(f any) { cur.ens = append(cur.ens, reflect.ValueOf(f)) }
func Total()        { cur.total = true }
func Repeatable()   {}

// Sturdy: the writer keeps what it is given.
func Sturdy(w any) bool { return asW(w).limit < 0 && !asW(w).fail }
func Opaque()       {}
func Summary() {}
func Step()         {}

func Decreases(measure int)            {}
func Known[T any](cond bool, result T) {}
func OnlySafety()                      {}
func Trusted(reason string)            {}
func Assert(cond bool, name string) {
	if !cond {
		cur.failed = append(cur.failed, name)
	}
}
func Assume(cond bool, why string) {
	if !cond {
		panic(skip{"assumption"})
	}
}

// W is the writer cases use: it accepts limit bytes (limit < 0: any number).
type W struct {
	buf   []byte
	limit int
	fail  bool
	kind  int
}

var writeErrs = []error{errors.New("write failed"), io.ErrShortWrite, io.EOF, io.ErrClosedPipe, io.ErrUnexpectedEOF, bufio.ErrBufferFull}

func (w *W) Write(p []byte) (int, error) {
	if w.fail {
		return 0, writeErrs[w.kind%len(writeErrs)]
	}
	if w.limit >= 0 && len(w.buf)+len(p) > w.limit {
		n := w.limit - len(w.buf)
		w.buf = append(w.buf, p[:n]...)
		w.fail = true
		return n, writeErrs[w.kind%len(writeErrs)]
	}
	w.buf = append(w.buf, p...)
	return len(p), nil
}

func asW(w any) *W {
	x, ok := w.(*W)
	if !ok {
		panic(skip{"writer"})
	}
	return x
}
func Out(w any) string  { return string(asW(w).buf) }
func Failed(w any) bool { return asW(w).fail }
func Emit(w any, text string) {
	if text != "" {
		asW(w).Write([]byte(text))
	}
}

// R is the reader cases use.
type R struct {
	text string
	pos  int
	fail bool
}

func (r *R) Read(p []byte) (int, error) {
	if r.pos >= len(r.text) {
		if r.fail {
			return 0, errors.New("read failed")
		}
		return 0, eof
	}
	n := copy(p, r.text[r.pos:])
	r.pos += n
	return n, nil
}
func Lines(r any) []string {
	x, ok := r.(*R)
	if !ok {
		panic(skip{"reader"})
	}
	return lines(x.text[x.pos:])
}
func lines(s string) []string {
	if s == "" {
		return nil
	}
	ls := strings.Split(s, "\n")
	if ls[len(ls)-1] == "" {
		ls = ls[:len(ls)-1]
	}
	for i := range ls {
		ls[i] = strings.TrimSuffix(ls[i], "\r")
	}
	return ls
}
func ReadFails(r any) bool {
	x, ok := r.(*R)
	if !ok {
		panic(skip{"reader"})
	}
	return x.fail
}
func FileLines(path string) []string {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(skip{"file"})
	}
	return lines(string(b))
}

func candidates[T any]() (out []T) {
	t := reflect.TypeOf((*T)(nil)).Elem()
	seen := map[unsafe.Pointer]bool{}
	var walk func(x reflect.Value)
	walk = func(x reflect.Value) {
		if !x.IsValid() {
			return
		}
		if x.Type().ConvertibleTo(t) && (x.Kind() == t.Kind()) {
			out = append(out, x.Convert(t).Interface().(T))
		}
		switch x.Kind() {
		case reflect.Ptr:
			if x.IsNil() || seen[x.UnsafePointer()] {
				return
			}
			seen[x.UnsafePointer()] = true
			walk(x.Elem())
		case reflect.Interface:
			walk(x.Elem())
		case reflect.Struct:
			for i := 0; i < x.NumField(); i++ {
				walk(open(x.Field(i)))
			}
		case reflect.Slice:
			for i := 0; i < x.Len(); i++ {
				walk(x.Index(i))
				if t.Kind() == reflect.Int {
					out = append(out, reflect.ValueOf(i).Convert(t).Interface().(T))
				}
			}
		case reflect.Map:
			for _, k := range x.MapKeys() {
				walk(k)
				walk(x.MapIndex(k))
			}
		}
	}
	for _, a := range args {
		walk(a)
	}
	out = append(out, *new(T))
	return
}

// holds evaluates an instance; one that panics (an implication evaluated eagerly) counts as dflt.
func holds[T any](f func(T) bool, x T, dflt bool) (r bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(skip); ok {
				panic(e)
			}
			r = dflt
		}
	}()
	return f(x)
}

func All[T any](f func(T) bool) bool {
	for _, x := range candidates[T]() {
		if !holds(f, x, true) {
			return false
		}
	}
	return true
}
func Some[T any](f func(T) bool) bool {
	for _, x := range candidates[T]() {
		if holds(f, x, false) {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool { return !a || b }
func Any[T any]() T          { panic(skip{"any"}) }

var errSpec = errors.New("specified failure")

func Fail() error { return errSpec }

// Uninterp: functions the contracts leave uninterpreted, where they can be computed.
func Uninterp[T any](name string, as ...any) T {
	f := uninterp[name]
	if f == nil {
		panic(skip{"uninterpreted " + name})
	}
	x, ok := f(as...).(T)
	if !ok {
		var z T
		return z
	}
	return x
}

var uninterp = map[string]func(as ...any) any{
	"openfails": func(as ...any) any {
		f, err := os.Open(as[0].(string))
		if err == nil {
			f.Close()
		}
		return err != nil
	},
	"readerr": func(as ...any) any {
		if _, err := os.ReadFile(as[0].(string)); err != nil {
			return err
		}
		return nil
	},
	"filedata":  func(as ...any) any { b, _ := os.ReadFile(as[0].(string)); return string(b) },
	"sha1":      func(as ...any) any { h := sha1.Sum([]byte(as[0].(string))); return string(h[:]) },
	"sha256":    func(as ...any) any { h := sha256.Sum256([]byte(as[0].(string))); return string(h[:]) },
	"md5":       func(as ...any) any { h := md5.Sum([]byte(as[0].(string))); return string(h[:]) },
	"hex":       func(as ...any) any { return hex.EncodeToString([]byte(as[0].(string))) },
	"i!walk.n":  func(as ...any) any { return len(walked(as[0].(string))) },
	"walk.path": func(as ...any) any { return walked(as[0].(string))[as[1].(int)].path },
	"walk.info": func(as ...any) any { return walked(as[0].(string))[as[1].(int)].info },
	"jsonstr":   func(as ...any) any { return jsonStr(text(as[0]), as[1].(bool)) },
	"jsonembed": func(as ...any) any { return jsonEmbed(text(as[0]), as[1].(bool)) },
	"jsonval": func(as ...any) any {
		var s string
		json.Unmarshal([]byte(text(as[0])), &s)
		return s
	},
	"jsonvalerr": func(as ...any) any {
		var s string
		if err := json.Unmarshal([]byte(text(as[0])), &s); err != nil {
			return err
		}
		return nil
	},
	"jsonisnull": func(as ...any) any { return strings.TrimSpace(text(as[0])) == "null" },
	"walk.err": func(as ...any) any {
		if e := walked(as[0].(string))[as[1].(int)].err; e != nil {
			return e
		}
		return nil
	},
}

func text(x any) string {
	if b, ok := x.([]byte); ok {
		return string(b)
	}
	return reflect.ValueOf(x).String()
}

// jsonStr is the JSON text of a string.
func jsonStr(s string, escape bool) []byte {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(escape)
	e.Encode(s)
	return bytes.TrimSuffix(b.Bytes(), []byte("\n"))
}

// jsonEmbed is a JSON text as it appears in a document around it.
func jsonEmbed(s string, escape bool) []byte {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(escape)
	if e.Encode(json.RawMessage(s)) != nil {
		return []byte(s)
	}
	return bytes.TrimSuffix(b.Bytes(), []byte("\n"))
}

type walkEntry struct {
	path string
	info os.FileInfo
	err  error
}

var walks = map[string][]walkEntry{}

func walked(root string) []walkEntry {
	if w, ok := walks[root]; ok {
		return w
	}
	var out []walkEntry
	filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		out = append(out, walkEntry{p, i, err})
		return nil
	})
	walks[root] = out
	return out
}

func Inv(f any)             {}
func Eq[T any](a, b T) bool { return reflect.DeepEqual(a, b) }
func SameState() bool       { return true }
func Dom[K comparable, V any](m map[K]V, k K) bool {
	_, ok := m[k]
	return ok
}

func ZZWalk(root string, fn filepath.WalkFunc) error { return filepath.Walk(root, fn) }
