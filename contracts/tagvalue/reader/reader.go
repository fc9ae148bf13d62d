package reader

import (
	"io"
	"strings"
	"unicode"

	v "github.com/spdx/tools-golang/verifspec"
)

// P01: the pairs of a text, from its lines.
func zzc_ReadTagValues(content io.Reader) {
	v.Opaque()
	v.Spec(func() ([]TagValuePair, error) {
		var out []TagValuePair
		inText := false
		tag, val := "", ""
		for _, line := range v.Lines(content) {
			if inText {
				before, _, closed := strings.Cut(line, "</text>")
				if !closed {
					val = val + line + "\n"
					continue
				}
				out = append(out, TagValuePair{Tag: tag, Value: val + before})
				inText = false
				tag, val = "", ""
				continue
			}
			s := strings.TrimLeftFunc(line, unicode.IsSpace)
			if s == "" || strings.HasPrefix(s, "#") {
				continue
			}
			t, rest, ok := strings.Cut(s, ":")
			if !ok {
				return nil, v.Fail()
			}
			t = strings.TrimSpace(t)
			_, text, multi := strings.Cut(rest, "<text>")
			if !multi {
				out = append(out, TagValuePair{Tag: t, Value: strings.TrimSpace(rest)})
				tag, val = "", ""
				continue
			}
			before, _, closed := strings.Cut(text, "</text>")
			if closed {
				out = append(out, TagValuePair{Tag: t, Value: before})
				tag, val = "", ""
				continue
			}
			tag, val, inText = t, before+"\n", true
		}
		if v.ReadFails(content) || inText {
			return nil, v.Fail()
		}
		return out, nil
	})
}
