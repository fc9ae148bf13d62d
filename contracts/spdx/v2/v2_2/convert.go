package v2_2

import (
	"github.com/spdx/tools-golang/spdx/v2/v2_1"
	v "github.com/spdx/tools-golang/verifspec"
)

// P11: the version becomes that of the target model, in both directions.
func zzc_From_v2_1(from v2_1.Document, d *Document) {
	v.Requires(d != nil)
	v.Spec(func() { d.SPDXVersion = "SPDX-2.2" })
}

func zzc_To_v2_1(from Document, d *v2_1.Document) {
	v.Requires(d != nil)
	v.Spec(func() { d.SPDXVersion = "SPDX-2.1" })
}
