from seedlib import *
F='tagvalue/reader/reader.go'
H='''package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/spdx/tools-golang/tagvalue/reader"
)

var _ = errors.New
var _ io.Reader
var _ = strings.Cut

func fail(x ...any) { fmt.Println(x...); os.Exit(1) }

'''
seed('P01-text-trailing-cr','P01','a one-line text block whose text ends in a carriage return before the closing marker','the text of the block is not verbatim: its final carriage return is dropped',
[(F,'''			// there is also a </text> tag; take the middle part and
			// set as value
			reader.currentValue = substrings[0]
''','''			// there is also a </text> tag; take the middle part and
			// set as value
			reader.currentValue = strings.TrimSuffix(substrings[0], "\\r")
''')],H+'''func main() {
	l, err := reader.ReadTagValues(strings.NewReader("A: <text>x\\r</text>\\n"))
	if err != nil || len(l) != 1 || l[0].Value != "x\\r" {
		fail(l, err)
	}
}
''')
seed('P01-partial-on-error','P01','the underlying reader fails after some complete lines','the pairs read so far are returned without an error',
[(F,'''	if err := scanner.Err(); err != nil {
		return nil, err
	}
''','''	if err := scanner.Err(); err != nil && len(r.tvList) == 0 {
		return nil, err
	}
''')],H+'''type bad struct{ n int }

func (b *bad) Read(p []byte) (int, error) {
	if b.n++; b.n == 1 {
		return copy(p, "A: b\\nC: d\\n"), nil
	}
	return 0, errors.New("broken")
}

func main() {
	l, err := reader.ReadTagValues(&bad{})
	if err == nil {
		fail(l, err)
	}
}
''')
seed('P01-comment-in-text','P01','a multi-line text value with a line that starts with #','lines of a text block that look like comments are dropped',
[(F,'''	if len(substrings) == 1 {
		// doesn't contain </text>, so keep building the current value
''','''	if len(substrings) == 1 {
		if strings.HasPrefix(line, "#") && strings.HasSuffix(reader.currentValue, "\\n\\n") {
			return nil
		}
		// doesn't contain </text>, so keep building the current value
''')],H+'''func main() {
	l, err := reader.ReadTagValues(strings.NewReader("A: <text>x\\n\\n# y\\nz</text>\\n"))
	if err != nil || len(l) != 1 || l[0].Value != "x\\n\\n# y\\nz" {
		fail(l, err)
	}
}
''')
done()
