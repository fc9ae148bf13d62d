package yaml

import (
	"bytes"
	"sigs.k8s.io/yaml"
	"io"

	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/spdx/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_1"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	v "github.com/spdx/tools-golang/verifspec"
)

// P10: the model of the declared version decodes the text, the result is converted into the target.
func zzc_ReadInto(content io.Reader, doc common.AnyDocument) {
	v.Spec(func() error {
		if !convert.IsPtr(doc) {
			return v.Fail()
		}
		var buf bytes.Buffer
		if _, err := buf.ReadFrom(content); err != nil {
			return v.Fail()
		}
		text := buf.Bytes()
		var any interface{}
		if yaml.Unmarshal(text, &any) != nil {
			return v.Fail()
		}
		object, ok := any.(map[string]interface{})
		if !ok {
			return v.Fail()
		}
		version, ok := object["spdxVersion"]
		if !ok {
			return v.Fail()
		}
		switch version {
		case "SPDX-2.1":
			var d v2_1.Document
			if yaml.Unmarshal(text, &d) != nil {
				return v.Fail()
			}
			return convert.Document(d, doc)
		case "SPDX-2.2":
			var d v2_2.Document
			if yaml.Unmarshal(text, &d) != nil {
				return v.Fail()
			}
			return convert.Document(d, doc)
		case "SPDX-2.3":
			var d v2_3.Document
			if yaml.Unmarshal(text, &d) != nil {
				return v.Fail()
			}
			return convert.Document(d, doc)
		}
		return v.Fail()
	})
}

// P10: the current model.
func zzc_Read(content io.Reader) {
	v.Spec(func() (*v2_3.Document, error) {
		doc := &v2_3.Document{}
		if err := ReadInto(content, doc); err != nil {
			return nil, v.Fail()
		}
		return doc, nil
	})
}

// P21: a failure to encode or to write is reported.
func zzc_Write(doc common.AnyDocument, w io.Writer) {
	v.Requires(w != nil)
	v.Spec(func() error {
		text, err := yaml.Marshal(doc)
		if err != nil {
			return v.Fail()
		}
		if _, err := w.Write(text); err != nil {
			return v.Fail()
		}
		return nil
	})
}
