from seedlib import *
C='spdx/v2/common/'
H='''package main

import (
	"encoding/json"
	"fmt"
	"os"

	"github.com/spdx/tools-golang/spdx/v2/common"
)

func fail(x ...any) { fmt.Println(x...); os.Exit(1) }

func main() {
%s
}
'''
def rt(T,val):
    return H%('''	x := %s
	b, err := json.Marshal(x)
	if err != nil {
		fail(err)
	}
	var y common.%s
	if err := json.Unmarshal(b, &y); err != nil {
		fail(string(b), err)
	}
	if x != y {
		fail(string(b), x, y)
	}'''%(val,T))
seed('P07-supplier-colon','P07','a supplier whose name contains a colon','JSON decoding rejects the supplier it has just encoded',
[(C+'package.go','supplierFields := strings.SplitN(supplierStr, ":", 2)','supplierFields := strings.SplitN(supplierStr, ":", 3)')],
rt('Supplier','common.Supplier{SupplierType: "Organization", Supplier: "ACME: widgets"}'))
seed('P07-docref-last-colon','P07','a document-qualified identifier whose element name contains a colon','the identifier is split at the last colon instead of the first one and is rejected',
[(C+'identifier.go','''		idFields = strings.SplitN(idStr, ":", 2)
''','''		if i := strings.LastIndex(idStr, ":"); i >= 0 {
			idFields = []string{idStr[:i], idStr[i+1:]}
		} else {
			idFields = []string{idStr}
		}
''')],
rt('DocElementID','common.DocElementID{DocumentRefID: "doc", ElementRefID: "a:b"}'))
seed('P07-creator-go-quote','P07','a creator name with a character Go and JSON escape differently','the creator is written as a Go string literal, which is not JSON',
[(C+'creation_info.go','return marshal.JSON(fmt.Sprintf("%s: %s", c.CreatorType, c.Creator))','return []byte(fmt.Sprintf("%q", c.CreatorType+": "+c.Creator)), nil'),
 (C+'creation_info.go','''	"github.com/spdx/tools-golang/json/marshal"
''','')],
rt('Creator','common.Creator{CreatorType: "Tool", Creator: "bell\\a"}'))
seed('P07-prefix-anywhere','P07','an element identifier that contains SPDXRef- after its start','the prefix is left out when the text occurs anywhere in the identifier, and reading fails',
[(C+'identifier.go','if !strings.HasPrefix(val, spdxRefPrefix) {','if !strings.Contains(val, spdxRefPrefix) {')],
rt('ElementID','common.ElementID("of-SPDXRef-x")'))
done()
