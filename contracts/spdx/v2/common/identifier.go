package common

import (
	v "github.com/spdx/tools-golang/verifspec"
)

// P06: the text of an identifier.
func zzc_RenderElementID(eID ElementID) {
	v.Spec(func() string { return "SPDXRef-" + string(eID) })
}

func zzc_RenderDocElementID(deID DocElementID) {
	v.Spec(func() string {
		switch {
		case deID.SpecialID != "":
			return deID.SpecialID
		case deID.DocumentRefID != "":
			return "DocumentRef-" + string(deID.DocumentRefID) + ":SPDXRef-" + string(deID.ElementRefID)
		}
		return "SPDXRef-" + string(deID.ElementRefID)
	})
}
