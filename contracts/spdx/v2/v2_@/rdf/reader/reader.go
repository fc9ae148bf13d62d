package reader

//@if 2_2 2_3
import (
	gordfParser "github.com/spdx/gordf/rdfloader/parser"

	spdx "github.com/spdx/tools-golang/spdx/v2/v2_@"
	v "github.com/spdx/tools-golang/verifspec"
)

// Assumed: the document (or failure) is a function of the graph.
func zzc_LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) {
	v.Trusted("the RDF graph walk is not under contract")
	v.Spec(func() (*spdx.Document, error) {
		return v.Uninterp[*spdx.Document]("rdfdocument@", gordfParserObj), v.Uninterp[error]("rdferror@", gordfParserObj)
	})
}
//@end
