package metadata

import (
	zz "github.com/charlesetsmith/saratoga/zzverif"
)

//zz:contract (metadata.MetaData).Print
func ZC_Print(m MetaData) {
	o := append([]byte(nil), m.Checksum...)
	zz.Modifies()
	m.Print()
	zz.Ensures("C08 printing a metadata frame leaves it as it is", func() bool {
		return len(m.Checksum) == len(o) && zz.Forall(0, len(o), func(i int) bool { return m.Checksum[i] == o[i] })
	})
}

//zz:contract (metadata.MetaData).ShortPrint
func ZC_ShortPrint(m MetaData) {
	o := append([]byte(nil), m.Checksum...)
	zz.Modifies()
	m.ShortPrint()
	zz.Ensures("C08 printing a metadata frame leaves it as it is", func() bool {
		return len(m.Checksum) == len(o) && zz.Forall(0, len(o), func(i int) bool { return m.Checksum[i] == o[i] })
	})
}
