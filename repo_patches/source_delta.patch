From 441836da82a9846b50f92ced8bd42c6fba000dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:28 +0000
Subject: [PATCH 01/10] fix: report failures of the destination when writing
 tag-value documents and license reports

---
 reporter/reporter.go | 13 ++++++++++---
 tagvalue/writer.go   | 17 +++++++++++++----
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/reporter/reporter.go b/reporter/reporter.go
index 7ef32d0..11b4e70 100644
--- a/reporter/reporter.go
+++ b/reporter/reporter.go
@@ -5,6 +5,7 @@
 package reporter
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"sort"
@@ -22,7 +23,10 @@ func Generate(pkg *spdx.Package, w io.Writer) error {
 	}
 	totalFound, totalNotFound, foundCounts := countLicenses(pkg)
 
-	wr := tabwriter.NewWriter(w, 0, 0, 2, ' ', tabwriter.AlignRight)
+	// lay out the report in memory first: tabwriter reports a failure of its
+	// destination only from the call during which it happens
+	var buf bytes.Buffer
+	wr := tabwriter.NewWriter(&buf, 0, 0, 2, ' ', tabwriter.AlignRight)
 
 	fmt.Fprintf(wr, "%d\t  License found\n", totalFound)
 	fmt.Fprintf(wr, "%d\t  License not found\n", totalNotFound)
@@ -50,8 +54,11 @@ func Generate(pkg *spdx.Package, w io.Writer) error {
 	}
 	fmt.Fprintf(wr, "%d\t  TOTAL FOUND\n", totalFound)
 
-	wr.Flush()
-	return nil
+	if err := wr.Flush(); err != nil {
+		return err
+	}
+	_, err := w.Write(buf.Bytes())
+	return err
 }
 
 func countLicenses(pkg *spdx.Package) (int, int, map[string]int) {
diff --git a/tagvalue/writer.go b/tagvalue/writer.go
index d77bd3a..39fb334 100644
--- a/tagvalue/writer.go
+++ b/tagvalue/writer.go
@@ -4,6 +4,7 @@
 package tagvalue
 
 import (
+	"bufio"
 	"fmt"
 	"io"
 
@@ -22,13 +23,21 @@ import (
 // if any error is encountered.
 func Write(doc common.AnyDocument, w io.Writer) error {
 	doc = convert.FromPtr(doc)
+	// the first failure of w is kept by the buffer and reported by Flush
+	buf := bufio.NewWriter(w)
+	var err error
 	switch doc := doc.(type) {
 	case v2_1.Document:
-		return v2_1_writer.RenderDocument(&doc, w)
+		err = v2_1_writer.RenderDocument(&doc, buf)
 	case v2_2.Document:
-		return v2_2_writer.RenderDocument(&doc, w)
+		err = v2_2_writer.RenderDocument(&doc, buf)
 	case v2_3.Document:
-		return v2_3_writer.RenderDocument(&doc, w)
+		err = v2_3_writer.RenderDocument(&doc, buf)
+	default:
+		return fmt.Errorf("unsupported document type: %s", convert.Describe(doc))
 	}
-	return fmt.Errorf("unsupported document type: %s", convert.Describe(doc))
+	if err != nil {
+		return err
+	}
+	return buf.Flush()
 }
-- 
2.43.0


From 7465fb6daa329ae22475a79b75cf18f3bd554d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:38 +0000
Subject: [PATCH 02/10] fix: ignore license identifier lines without an
 identifier

---
 idsearcher/idsearcher.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index 7413bb4..0f2b069 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -170,6 +170,10 @@ func searchFileIDs(filePath string) ([]string, error) {
 			lidToExtract = strings.Split(lidToExtract, "*/")[0]
 			lid := strings.TrimSpace(lidToExtract)
 			lid = stripTrash(lid)
+			// an identifier line without an identifier says nothing
+			if lid == "" {
+				continue
+			}
 			idsMap[lid] = 1
 		}
 	}
-- 
2.43.0


From 44ee7a285b4b4f8c58ca6227790ba3bb2622b6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 03/10] fix: trim license identifiers after removing other
 characters from them

---
 idsearcher/idsearcher.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index 0f2b069..3e51233 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -168,8 +168,7 @@ func searchFileIDs(filePath string) ([]string, error) {
 			// stop before trailing */ if it is present
 			lidToExtract := strs[1]
 			lidToExtract = strings.Split(lidToExtract, "*/")[0]
-			lid := strings.TrimSpace(lidToExtract)
-			lid = stripTrash(lid)
+			lid := strings.TrimSpace(stripTrash(lidToExtract))
 			// an identifier line without an identifier says nothing
 			if lid == "" {
 				continue
-- 
2.43.0


From 8bdec5ee6d446de0efc896c5a6d132af56184b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 04/10] fix: start a new package on PackageName when the
 current package already has an identifier

---
 spdx/v2/v2_1/tagvalue/reader/parse_package.go | 4 ++--
 spdx/v2/v2_2/tagvalue/reader/parse_package.go | 4 ++--
 spdx/v2/v2_3/tagvalue/reader/parse_package.go | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/spdx/v2/v2_1/tagvalue/reader/parse_package.go b/spdx/v2/v2_1/tagvalue/reader/parse_package.go
index 4d4c491..4fd07cf 100644
--- a/spdx/v2/v2_1/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_1/tagvalue/reader/parse_package.go
@@ -19,8 +19,8 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 
 	switch tag {
 	case "PackageName":
-		// if package already has a name, create and go on to a new package
-		if parser.pkg == nil || parser.pkg.PackageName != "" {
+		// if package already has a name or an identifier, create and go on to a new package
+		if parser.pkg == nil || parser.pkg.PackageName != "" || parser.pkg.PackageSPDXIdentifier != nullSpdxElementId {
 			// check if the previous package contained an spdxId or not
 			if parser.pkg != nil && parser.pkg.PackageSPDXIdentifier == nullSpdxElementId {
 				return fmt.Errorf("package with PackageName %s does not have SPDX identifier", parser.pkg.PackageName)
diff --git a/spdx/v2/v2_2/tagvalue/reader/parse_package.go b/spdx/v2/v2_2/tagvalue/reader/parse_package.go
index c6a17b0..a572a61 100644
--- a/spdx/v2/v2_2/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_2/tagvalue/reader/parse_package.go
@@ -19,8 +19,8 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 
 	switch tag {
 	case "PackageName":
-		// if package already has a name, create and go on to a new package
-		if parser.pkg == nil || parser.pkg.PackageName != "" {
+		// if package already has a name or an identifier, create and go on to a new package
+		if parser.pkg == nil || parser.pkg.PackageName != "" || parser.pkg.PackageSPDXIdentifier != nullSpdxElementId {
 			// check if the previous package contained an spdx Id or not
 			if parser.pkg != nil && parser.pkg.PackageSPDXIdentifier == nullSpdxElementId {
 				return fmt.Errorf("package with PackageName %s does not have SPDX identifier", parser.pkg.PackageName)
diff --git a/spdx/v2/v2_3/tagvalue/reader/parse_package.go b/spdx/v2/v2_3/tagvalue/reader/parse_package.go
index b01fbef..752e1db 100644
--- a/spdx/v2/v2_3/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_3/tagvalue/reader/parse_package.go
@@ -19,8 +19,8 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 
 	switch tag {
 	case "PackageName":
-		// if package already has a name, create and go on to a new package
-		if parser.pkg == nil || parser.pkg.PackageName != "" {
+		// if package already has a name or an identifier, create and go on to a new package
+		if parser.pkg == nil || parser.pkg.PackageName != "" || parser.pkg.PackageSPDXIdentifier != nullSpdxElementId {
 			// check if the previous package contained an spdx Id or not
 			if parser.pkg != nil && parser.pkg.PackageSPDXIdentifier == nullSpdxElementId {
 				return fmt.Errorf("package with PackageName %s does not have SPDX identifier", parser.pkg.PackageName)
-- 
2.43.0


From f84b764a8ed0a72056c5967144e5ff975cb45819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:07 +0000
Subject: [PATCH 05/10] fix: decode JSON identifiers and actors with their
 escape sequences

---
 spdx/v2/common/annotation.go    |  6 ++++--
 spdx/v2/common/creation_info.go |  6 ++++--
 spdx/v2/common/identifier.go    | 26 ++++++++++++++++++++------
 spdx/v2/common/package.go       | 12 ++++++++----
 4 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/spdx/v2/common/annotation.go b/spdx/v2/common/annotation.go
index 096a36f..21154c7 100644
--- a/spdx/v2/common/annotation.go
+++ b/spdx/v2/common/annotation.go
@@ -19,8 +19,10 @@ type Annotator struct {
 // This function is also used when unmarshalling YAML
 func (a *Annotator) UnmarshalJSON(data []byte) error {
 	// annotator will simply be a string
-	annotatorStr := string(data)
-	annotatorStr = strings.Trim(annotatorStr, "\"")
+	annotatorStr, err := unmarshalString(data)
+	if err != nil {
+		return err
+	}
 
 	annotatorFields := strings.SplitN(annotatorStr, ":", 2)
 
diff --git a/spdx/v2/common/creation_info.go b/spdx/v2/common/creation_info.go
index 5fc52bc..12522f3 100644
--- a/spdx/v2/common/creation_info.go
+++ b/spdx/v2/common/creation_info.go
@@ -20,8 +20,10 @@ type Creator struct {
 // UnmarshalJSON takes an annotator in the typical one-line format and parses it into a Creator struct.
 // This function is also used when unmarshalling YAML
 func (c *Creator) UnmarshalJSON(data []byte) error {
-	str := string(data)
-	str = strings.Trim(str, "\"")
+	str, err := unmarshalString(data)
+	if err != nil {
+		return err
+	}
 	fields := strings.SplitN(str, ":", 2)
 
 	if len(fields) != 2 {
diff --git a/spdx/v2/common/identifier.go b/spdx/v2/common/identifier.go
index 17396a4..c6cc32b 100644
--- a/spdx/v2/common/identifier.go
+++ b/spdx/v2/common/identifier.go
@@ -3,6 +3,7 @@
 package common
 
 import (
+	"encoding/json"
 	"fmt"
 	"strings"
 
@@ -27,8 +28,10 @@ func (d DocumentID) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON validates DocumentRef- prefixes and removes them when processing DocumentIDs
 func (d *DocumentID) UnmarshalJSON(data []byte) error {
 	// SPDX identifier will simply be a string
-	idStr := string(data)
-	idStr = strings.Trim(idStr, "\"")
+	idStr, err := unmarshalString(data)
+	if err != nil {
+		return err
+	}
 
 	documentID, err := trimDocumentIdPrefix(idStr)
 	if err != nil {
@@ -71,8 +74,10 @@ func (d ElementID) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON validates SPDXRef- prefixes and removes them when processing ElementIDs
 func (d *ElementID) UnmarshalJSON(data []byte) error {
 	// SPDX identifier will simply be a string
-	idStr := string(data)
-	idStr = strings.Trim(idStr, "\"")
+	idStr, err := unmarshalString(data)
+	if err != nil {
+		return err
+	}
 
 	elementID, err := trimElementIdPrefix(idStr)
 	if err != nil {
@@ -141,8 +146,10 @@ func (d DocElementID) MarshalJSON() ([]byte, error) {
 // This function is also used when unmarshalling YAML
 func (d *DocElementID) UnmarshalJSON(data []byte) error {
 	// SPDX identifier will simply be a string
-	idStr := string(data)
-	idStr = strings.Trim(idStr, "\"")
+	idStr, err := unmarshalString(data)
+	if err != nil {
+		return err
+	}
 
 	// handle special cases
 	if idStr == "NONE" || idStr == "NOASSERTION" {
@@ -217,3 +224,10 @@ func RenderDocElementID(deID DocElementID) string {
 	}
 	return prefix + spdxRefPrefix + string(deID.ElementRefID)
 }
+
+// unmarshalString decodes a JSON string, with all its escape sequences.
+func unmarshalString(data []byte) (string, error) {
+	var str string
+	err := json.Unmarshal(data, &str)
+	return str, err
+}
diff --git a/spdx/v2/common/package.go b/spdx/v2/common/package.go
index 0bcbe7d..ca4b528 100644
--- a/spdx/v2/common/package.go
+++ b/spdx/v2/common/package.go
@@ -20,8 +20,10 @@ type Supplier struct {
 // This function is also used when unmarshalling YAML
 func (s *Supplier) UnmarshalJSON(data []byte) error {
 	// the value is just a string presented as a slice of bytes
-	supplierStr := string(data)
-	supplierStr = strings.Trim(supplierStr, "\"")
+	supplierStr, err := unmarshalString(data)
+	if err != nil {
+		return err
+	}
 
 	if supplierStr == "NOASSERTION" {
 		s.Supplier = supplierStr
@@ -63,8 +65,10 @@ type Originator struct {
 // This function is also used when unmarshalling YAML
 func (o *Originator) UnmarshalJSON(data []byte) error {
 	// the value is just a string presented as a slice of bytes
-	originatorStr := string(data)
-	originatorStr = strings.Trim(originatorStr, "\"")
+	originatorStr, err := unmarshalString(data)
+	if err != nil {
+		return err
+	}
 
 	if originatorStr == "NOASSERTION" {
 		o.Originator = originatorStr
-- 
2.43.0


From 40bfde8e455178b0e247979dabde39ec7113a72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:12 +0000
Subject: [PATCH 06/10] fix: JSON decoding of identifiers and actors leaves no
 part of an earlier or rejected value

---
 spdx/v2/common/identifier.go | 9 ++++++---
 spdx/v2/common/package.go    | 4 ++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/spdx/v2/common/identifier.go b/spdx/v2/common/identifier.go
index c6cc32b..658f62d 100644
--- a/spdx/v2/common/identifier.go
+++ b/spdx/v2/common/identifier.go
@@ -153,10 +153,11 @@ func (d *DocElementID) UnmarshalJSON(data []byte) error {
 
 	// handle special cases
 	if idStr == "NONE" || idStr == "NOASSERTION" {
-		d.SpecialID = idStr
+		*d = DocElementID{SpecialID: idStr}
 		return nil
 	}
 
+	var decoded DocElementID
 	var idFields []string
 	// handle DocumentRef- if present
 	if strings.HasPrefix(idStr, documentRefPrefix) {
@@ -167,10 +168,11 @@ func (d *DocElementID) UnmarshalJSON(data []byte) error {
 		if err != nil {
 			return err
 		}
-		d.DocumentRefID = documentRefID
+		decoded.DocumentRefID = documentRefID
 		if len(idFields) == 2 {
 			idStr = idFields[1]
 		} else {
+			*d = decoded
 			return nil
 		}
 	}
@@ -179,7 +181,8 @@ func (d *DocElementID) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		return err
 	}
-	d.ElementRefID = elementRefID
+	decoded.ElementRefID = elementRefID
+	*d = decoded
 	return nil
 }
 
diff --git a/spdx/v2/common/package.go b/spdx/v2/common/package.go
index ca4b528..45e55be 100644
--- a/spdx/v2/common/package.go
+++ b/spdx/v2/common/package.go
@@ -26,7 +26,7 @@ func (s *Supplier) UnmarshalJSON(data []byte) error {
 	}
 
 	if supplierStr == "NOASSERTION" {
-		s.Supplier = supplierStr
+		*s = Supplier{Supplier: supplierStr}
 		return nil
 	}
 
@@ -71,7 +71,7 @@ func (o *Originator) UnmarshalJSON(data []byte) error {
 	}
 
 	if originatorStr == "NOASSERTION" {
-		o.Originator = originatorStr
+		*o = Originator{Originator: originatorStr}
 		return nil
 	}
 
-- 
2.43.0


From 480c676f42851889a7061df008a46953acb6dba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:35 +0000
Subject: [PATCH 07/10] fix: report missing documents and mismatched targets
 instead of panicking in convert

---
 convert/chain.go  |  9 ++++++---
 convert/struct.go | 19 ++++++++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/convert/chain.go b/convert/chain.go
index e1607ec..9ec7cbd 100644
--- a/convert/chain.go
+++ b/convert/chain.go
@@ -28,12 +28,15 @@ func DocumentChain() converter.FuncChain {
 // var targetDoc spdx.Document // this can be any document version
 // err := convert.Document(sourceDoc, &targetDoc) // the target must be passed as a pointer
 func Document(from common.AnyDocument, to common.AnyDocument) error {
-	if !IsPtr(to) {
+	if !IsPtr(to) || reflect.ValueOf(to).IsNil() {
 		return fmt.Errorf("struct to convert to must be a pointer")
 	}
 	from = FromPtr(from)
-	if reflect.TypeOf(from) == reflect.TypeOf(FromPtr(to)) {
-		reflect.ValueOf(to).Elem().Set(reflect.ValueOf(from))
+	if from == nil || IsPtr(from) {
+		return fmt.Errorf("no document to convert")
+	}
+	if target := reflect.ValueOf(to).Elem(); reflect.TypeOf(from) == target.Type() {
+		target.Set(reflect.ValueOf(from))
 		return nil
 	}
 	return DocumentChain().Convert(from, to)
diff --git a/convert/struct.go b/convert/struct.go
index 7223dbd..2b067d9 100644
--- a/convert/struct.go
+++ b/convert/struct.go
@@ -9,16 +9,23 @@ import (
 	"github.com/spdx/tools-golang/spdx/common"
 )
 
-// FromPtr accepts a document or a document pointer and returns the direct struct reference
+// FromPtr accepts a document or a document pointer and returns the direct struct reference,
+// or the nil pointer if there is no document
 func FromPtr(doc common.AnyDocument) common.AnyDocument {
+	if doc == nil {
+		return nil
+	}
 	value := reflect.ValueOf(doc)
-	for value.Type().Kind() == reflect.Ptr {
+	for value.Type().Kind() == reflect.Ptr && !value.IsNil() {
 		value = value.Elem()
 	}
 	return value.Interface()
 }
 
 func IsPtr(obj common.AnyDocument) bool {
+	if obj == nil {
+		return false
+	}
 	t := reflect.TypeOf(obj)
 	if t.Kind() == reflect.Interface {
 		t = t.Elem()
@@ -27,14 +34,20 @@ func IsPtr(obj common.AnyDocument) bool {
 }
 
 func Describe(o interface{}) string {
+	if o == nil {
+		return "nil"
+	}
 	value := reflect.ValueOf(o)
 	typ := value.Type()
 	prefix := ""
-	for typ.Kind() == reflect.Ptr {
+	for typ.Kind() == reflect.Ptr && !value.IsNil() {
 		prefix += "*"
 		value = value.Elem()
 		typ = value.Type()
 	}
+	if typ.Kind() == reflect.Ptr {
+		return fmt.Sprintf("%s%s: nil", prefix, typ)
+	}
 	str := limit(fmt.Sprintf("%+v", value.Interface()), 300)
 	name := fmt.Sprintf("%s.%s%s", typ.PkgPath(), prefix, typ.Name())
 	return fmt.Sprintf("%s: %s", name, str)
-- 
2.43.0


From da126074b718499c39b28f5239567846bd9c5b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:37 +0000
Subject: [PATCH 08/10] fix: measure text in characters before cutting it to
 length

---
 convert/struct.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/convert/struct.go b/convert/struct.go
index 2b067d9..c3e8992 100644
--- a/convert/struct.go
+++ b/convert/struct.go
@@ -54,10 +54,10 @@ func Describe(o interface{}) string {
 }
 
 func limit(text string, length int) string {
-	if length <= 0 || len(text) <= length+3 {
+	r := []rune(text)
+	if length <= 0 || len(r) <= length+3 {
 		return text
 	}
-	r := []rune(text)
 	r = r[:length]
 	return string(r) + "..."
 }
-- 
2.43.0


From 42d1019aad8ee7da5f6cc657fdf5b93d1c791d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:25 +0000
Subject: [PATCH 09/10] fix: keep hasFiles of packages decoded on their own
 from breaking conversion

---
 spdx/v2/v2_3/document.go | 4 ++--
 spdx/v2/v2_3/package.go  | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/spdx/v2/v2_3/document.go b/spdx/v2/v2_3/document.go
index 1c76750..a7d660e 100644
--- a/spdx/v2/v2_3/document.go
+++ b/spdx/v2/v2_3/document.go
@@ -154,7 +154,7 @@ func (d *Document) UnmarshalJSON(b []byte) error {
 		if p == nil {
 			continue
 		}
-		for _, f := range p.hasFiles {
+		for _, f := range p.jsonHasFiles {
 			r := &Relationship{
 				RefA: common.DocElementID{
 					ElementRefID: p.PackageSPDXIdentifier,
@@ -168,7 +168,7 @@ func (d *Document) UnmarshalJSON(b []byte) error {
 			}
 		}
 
-		p.hasFiles = nil
+		p.jsonHasFiles = nil
 	}
 
 	return nil
diff --git a/spdx/v2/v2_3/package.go b/spdx/v2/v2_3/package.go
index 6488a7e..0f28022 100644
--- a/spdx/v2/v2_3/package.go
+++ b/spdx/v2/v2_3/package.go
@@ -137,8 +137,9 @@ type Package struct {
 	Annotations []Annotation `json:"annotations,omitempty"`
 
 	// this field is only used when decoding JSON to translate the hasFiles
-	// property to relationships
-	hasFiles []common.DocElementID
+	// property to relationships; its name differs from that of other versions
+	// because conversion matches fields by name and cannot set this one
+	jsonHasFiles []common.DocElementID
 }
 
 func (p *Package) UnmarshalJSON(b []byte) error {
@@ -160,7 +161,7 @@ func (p *Package) UnmarshalJSON(b []byte) error {
 
 	*p = Package(p2)
 
-	p.hasFiles = e.HasFiles
+	p.jsonHasFiles = e.HasFiles
 
 	// FilesAnalyzed defaults to true if omitted
 	if e.FilesAnalyzed == nil {
-- 
2.43.0


From ee6a94161075abf3c6407472f9953fbdf47663de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:25 +0000
Subject: [PATCH 10/10] fix: keep every range of a snippet read from RDF

The second range of a snippet (a line range next to the mandatory byte range)
replaced the first one.
---
 spdx/v2/v2_2/rdf/reader/parse_snippet_info.go | 14 ++++++++------
 spdx/v2/v2_3/rdf/reader/parse_snippet_info.go | 14 ++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
index bafb4dd..97c47e7 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
@@ -137,18 +137,20 @@ func (parser *rdfParser2_2) setSnippetRangeFromNode(node *gordfParser.Node, si *
 		return fmt.Errorf("start and end range type doesn't match")
 	}
 
-	si.Ranges = []common.SnippetRange{{
+	snippetRange := common.SnippetRange{
 		StartPointer: common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
 		EndPointer:   common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
-	}}
+	}
 
 	if startRangeType == LINE_RANGE {
-		si.Ranges[0].StartPointer.LineNumber = start
-		si.Ranges[0].EndPointer.LineNumber = end
+		snippetRange.StartPointer.LineNumber = start
+		snippetRange.EndPointer.LineNumber = end
 	} else {
-		si.Ranges[0].StartPointer.Offset = start
-		si.Ranges[0].EndPointer.Offset = end
+		snippetRange.StartPointer.Offset = start
+		snippetRange.EndPointer.Offset = end
 	}
+	// a snippet may have both a byte range and a line range
+	si.Ranges = append(si.Ranges, snippetRange)
 	return nil
 }
 
diff --git a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
index 10f9be7..d2c26d0 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
@@ -134,18 +134,20 @@ func (parser *rdfParser2_3) setSnippetRangeFromNode(node *gordfParser.Node, si *
 		return fmt.Errorf("start and end range type doesn't match")
 	}
 
-	si.Ranges = []common.SnippetRange{{
+	snippetRange := common.SnippetRange{
 		StartPointer: common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
 		EndPointer:   common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
-	}}
+	}
 
 	if startRangeType == LINE_RANGE {
-		si.Ranges[0].StartPointer.LineNumber = start
-		si.Ranges[0].EndPointer.LineNumber = end
+		snippetRange.StartPointer.LineNumber = start
+		snippetRange.EndPointer.LineNumber = end
 	} else {
-		si.Ranges[0].StartPointer.Offset = start
-		si.Ranges[0].EndPointer.Offset = end
+		snippetRange.StartPointer.Offset = start
+		snippetRange.EndPointer.Offset = end
 	}
+	// a snippet may have both a byte range and a line range
+	si.Ranges = append(si.Ranges, snippetRange)
 	return nil
 }
 
-- 
2.43.0

