package beacon

import (
	zz "github.com/charlesetsmith/saratoga/zzverif"
)

//zz:contract (*beacon.Beacon).Print
func ZC_Print(b *Beacon) {
	o := *b
	zz.Modifies()
	b.Print()
	zz.Ensures("C08 printing a beacon leaves it as it is", func() bool {
		return b.Header == o.Header && b.Freespace == o.Freespace && b.Eid == o.Eid
	})
}

//zz:contract (*beacon.Beacon).ShortPrint
func ZC_ShortPrint(b *Beacon) {
	o := *b
	zz.Modifies()
	b.ShortPrint()
	zz.Ensures("C08 printing a beacon leaves it as it is", func() bool {
		return b.Header == o.Header && b.Freespace == o.Freespace && b.Eid == o.Eid
	})
}
