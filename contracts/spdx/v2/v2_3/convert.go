package v2_3

import (
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	v "github.com/spdx/tools-golang/verifspec"
)

// P11: the version becomes that of the target model, in both directions.
func zzc_From_v2_2(from v2_2.Document, d *Document) {
	v.Requires(d != nil)
	v.Spec(func() { d.SPDXVersion = "SPDX-2.3" })
}

func zzc_To_v2_2(from Document, d *v2_2.Document) {
	v.Requires(d != nil)
	v.Spec(func() { d.SPDXVersion = "SPDX-2.2" })
}
