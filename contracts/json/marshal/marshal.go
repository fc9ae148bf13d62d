package marshal

import (
	"bytes"
	"encoding/json"

	v "github.com/spdx/tools-golang/verifspec"
)

// The JSON text of the value, without HTML escapes and without the line end of the encoder.
func zzc_JSON(obj interface{}) {
	v.Spec(func() ([]byte, error) {
		var text bytes.Buffer
		e := json.NewEncoder(&text)
		e.SetEscapeHTML(false)
		if err := e.Encode(obj); err != nil {
			return nil, v.Fail()
		}
		return bytes.TrimSpace(text.Bytes()), nil
	})
}
