package tagvalue

import (
	"bytes"
	"io"

	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/spdx/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_1"
	v2_1_reader "github.com/spdx/tools-golang/spdx/v2/v2_1/tagvalue/reader"
	v2_1_writer "github.com/spdx/tools-golang/spdx/v2/v2_1/tagvalue/writer"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	v2_2_reader "github.com/spdx/tools-golang/spdx/v2/v2_2/tagvalue/reader"
	v2_2_writer "github.com/spdx/tools-golang/spdx/v2/v2_2/tagvalue/writer"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	v2_3_reader "github.com/spdx/tools-golang/spdx/v2/v2_3/tagvalue/reader"
	v2_3_writer "github.com/spdx/tools-golang/spdx/v2/v2_3/tagvalue/writer"
	"github.com/spdx/tools-golang/tagvalue/reader"
	v "github.com/spdx/tools-golang/verifspec"
)

// zz_version is the value of the first SPDXVersion tag.
func zz_version(pairs []reader.TagValuePair) string {
	for _, p := range pairs {
		if p.Tag == "SPDXVersion" {
			return p.Value
		}
	}
	return ""
}

// P10: the parser of the declared version reads the pairs, the result is converted into the target.
func zzc_ReadInto(content io.Reader, doc common.AnyDocument) {
	v.Requires(content != nil)
	v.Spec(func() error {
		if !convert.IsPtr(doc) {
			return v.Fail()
		}
		pairs, err := reader.ReadTagValues(content)
		if err != nil || len(pairs) == 0 {
			return v.Fail()
		}
		switch zz_version(pairs) {
		case "SPDX-2.1":
			d, err := v2_1_reader.ParseTagValues(pairs)
			if err != nil {
				return v.Fail()
			}
			return convert.Document(d, doc)
		case "SPDX-2.2":
			d, err := v2_2_reader.ParseTagValues(pairs)
			if err != nil {
				return v.Fail()
			}
			return convert.Document(d, doc)
		case "SPDX-2.3":
			d, err := v2_3_reader.ParseTagValues(pairs)
			if err != nil {
				return v.Fail()
			}
			return convert.Document(d, doc)
		}
		return v.Fail()
	})
}

// P10: the current model.
func zzc_Read(content io.Reader) {
	v.Requires(content != nil)
	v.Spec(func() (*v2_3.Document, error) {
		doc := &v2_3.Document{}
		if err := ReadInto(content, doc); err != nil {
			return nil, v.Fail()
		}
		return doc, nil
	})
}

// P10, P21: the text of the document's own version, all of it accepted by the destination.
func zzc_Write(doc common.AnyDocument, w io.Writer) {
	v.Requires(w != nil)
	switch d := convert.FromPtr(doc).(type) {
	case v2_1.Document:
		v2_1_writer.ZZWhole(d.Files, d.Packages, d.OtherLicenses, d.Relationships, d.Annotations, d.Reviews)
	case v2_2.Document:
		v2_2_writer.ZZWhole(d.Files, d.Packages, d.OtherLicenses, d.Relationships, d.Annotations, d.Reviews)
	case v2_3.Document:
		v2_3_writer.ZZWhole(d.Files, d.Packages, d.OtherLicenses, d.Relationships, d.Annotations, d.Reviews)
	}
	v.Spec(func() error {
		var text bytes.Buffer
		switch d := convert.FromPtr(doc).(type) {
		case v2_1.Document:
			if v2_1_writer.RenderDocument(&d, &text) != nil {
				return v.Fail()
			}
		case v2_2.Document:
			if v2_2_writer.RenderDocument(&d, &text) != nil {
				return v.Fail()
			}
		case v2_3.Document:
			if v2_3_writer.RenderDocument(&d, &text) != nil {
				return v.Fail()
			}
		default:
			return v.Fail()
		}
		_, err := w.Write(text.Bytes())
		return err
	})
}
