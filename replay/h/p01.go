package main

import (
	"fmt"
	"reflect"
	"strings"
	"testing/iotest"

	"errors"
	"io"
	"unicode"

	"github.com/spdx/tools-golang/tagvalue/reader"
)

// refPairs is an independent tokenizer over the whole text.
func refPairs(text string) ([]reader.TagValuePair, bool) {
	var out []reader.TagValuePair
	lines := strings.Split(text, "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	for i := 0; i < len(lines); i++ {
		l := strings.TrimLeftFunc(strings.TrimSuffix(lines[i], "\r"), unicode.IsSpace)
		if l == "" || l[0] == '#' {
			continue
		}
		c := strings.IndexByte(l, ':')
		if c < 0 {
			return nil, false
		}
		tag, rest := strings.TrimSpace(l[:c]), l[c+1:]
		o := strings.Index(rest, "<text>")
		if o < 0 {
			out = append(out, reader.TagValuePair{Tag: tag, Value: strings.TrimSpace(rest)})
			continue
		}
		val := rest[o+6:]
		for !strings.Contains(val, "</text>") {
			i++
			if i >= len(lines) {
				return nil, false
			}
			val += "\n" + strings.TrimSuffix(lines[i], "\r")
		}
		out = append(out, reader.TagValuePair{Tag: tag, Value: val[:strings.Index(val, "</text>")]})
	}
	return out, true
}

func init() {
	table["P01"] = func(c *Ctx) string {
		bits := append(c.pool(4), "Tag: v", "PackageName: a b ", "  ", "", "#c: d", " # x", "T:<text>", "</text>", "<text>a</text>", ":", "a:b:c", "x: <text>one</text> two</text>", "x: pre <text>one", "end</text> y: z", "z: <text>q\r</text>", "z: <text> q </text>", "\r", "# c</text>", "# c", "<text>", "nocolon", "\t\u00a0k: \u2003w\u2003", "k:<text> <text> </text>", "\u3000")
		var sb strings.Builder
		for i := c.Intn(9); i > 0; i-- {
			for j := 1 + c.Intn(2); j > 0; j-- {
				sb.WriteString(c.pick(bits...))
			}
			sb.WriteString(c.pick("\n", "\n", "\n", "\r\n"))
		}
		if c.p(3) {
			sb.WriteString(c.pick(bits...))
		}
		text := sb.String()
		current = fmt.Sprintf("text %q", text)
		var r io.Reader = strings.NewReader(text)
		bad := c.p(8)
		if bad {
			r = io.MultiReader(r, iotest.ErrReader(errors.New("broken")))
		}
		got, err := reader.ReadTagValues(r)
		want, ok := refPairs(text)
		if bad {
			ok = false
		}
		switch {
		case !ok && err == nil:
			return fmt.Sprintf("ReadTagValues(%q, reader fails: %v) = %q, want an error", text, bad, got)
		case !ok && len(got) != 0:
			return fmt.Sprintf("ReadTagValues(%q, reader fails: %v) gives %q with its error", text, bad, got)
		case ok && err != nil:
			return fmt.Sprintf("ReadTagValues(%q) = %v", text, err)
		case ok && !(len(got) == 0 && len(want) == 0) && !reflect.DeepEqual(got, want):
			return fmt.Sprintf("ReadTagValues(%q) = %q, want %q", text, got, want)
		}
		return ""
	}
}
