// Replay harness: drives the real code with generated inputs against an independent oracle per property. It
// is used when an obligation fails, to turn the failure into a concrete input, and as a conformance run in
// the thorough tier. It decides nothing by itself on a tree whose obligations are all discharged.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

type Ctx struct {
	*rand.Rand
	dict  []string
	n     int // case number
	dir   string
	scr   int
}

var table = map[string]func(c *Ctx) string{}

func main() {
	prop := os.Args[1]
	seed, _ := strconv.Atoi(os.Args[2])
	secs, _ := strconv.Atoi(os.Args[3])
	b, _ := os.ReadFile(os.Args[4])
	out := os.Args[5]
	f := table[prop]
	if f == nil {
		fmt.Println("no replay harness for", prop)
		os.Exit(4)
	}
	var dict []string
	for _, s := range strings.Split(string(b), "\x00") {
		if s != "" {
			dict = append(dict, s)
		}
	}
	dir, err := os.MkdirTemp("", "gvcase")
	if err != nil {
		os.Exit(3)
	}
	end := time.Now().Add(time.Duration(secs) * time.Second)
	n := 0
	code := 0
	for ; time.Now().Before(end); n++ {
		c := &Ctx{Rand: rand.New(rand.NewSource(int64(seed)*1000003 + int64(n))), dict: dict, n: n, dir: dir}
		ch := make(chan string, 1)
		go func() {
			defer func() {
				if r := recover(); r != nil {
					ch <- fmt.Sprintf("panic: %v\n%s\n%s", r, current, debug.Stack())
				}
			}()
			ch <- f(c)
		}()
		var msg string
		select {
		case msg = <-ch:
		case <-time.After(30 * time.Second):
			msg = "no answer within 30 s on input:\n" + current
		}
		if msg != "" {
			os.WriteFile(out, []byte(fmt.Sprintf("seed %d case %d\n%s\n", seed, n, msg)), 0o644)
			code = 1
			break
		}
	}
	fmt.Printf("cases=%d\n", n)
	os.RemoveAll(dir)
	os.Exit(code)
}

// current describes the input of the case under way (for panics and hangs).
var current string

func (c *Ctx) bool() bool      { return c.Intn(2) == 0 }
func (c *Ctx) p(n int) bool    { return c.Intn(n) == 0 }
func (c *Ctx) pick(xs ...string) string { return xs[c.Intn(len(xs))] }

var specials = []string{"", " ", "a", "A", "b", "NOASSERTION", "NONE", "MIT", "Apache-2.0", "SPDXRef-", "SPDXRef-a", "DocumentRef-", ":", "\n", "\t", "\"", "\\", "<", ">", "&", "<text>", "</text>", "é", "日本", "0", "1", "-1", "true", "false", "a: b", "(", ")", "*", "**/", "/", "x/y", "AND", "OR", " or ", "null", "\u2028", "%s", "%"}

// str makes a string: dictionary words, special pieces, and mixtures.
func (c *Ctx) str() string {
	switch c.Intn(8) {
	case 0, 1:
		return c.pick(specials...)
	case 2, 3:
		if len(c.dict) > 0 {
			return c.pick(c.dict...)
		}
		return "x"
	case 4:
		s := ""
		for i := c.Intn(4); i >= 0; i-- {
			s += c.pick(specials...)
		}
		return s
	case 5:
		if len(c.dict) > 0 {
			return c.pick(c.dict...) + c.pick(specials...)
		}
		return "y"
	case 6:
		return c.word()
	}
	return c.word() + c.pick(specials...) + c.word()
}

func (c *Ctx) word() string {
	const al = "abcxyzABC019.-_+"
	n := 1 + c.Intn(8)
	if c.p(40) {
		n = c.Intn(400)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = al[c.Intn(len(al))]
	}
	return string(b)
}

func (c *Ctx) pool(n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, c.str())
	}
	return out
}
