package data

import (
	zz "github.com/charlesetsmith/saratoga/zzverif"
)

//zz:contract (data.Data).Print
func ZC_Print(d Data) {
	o := append([]byte(nil), d.Payload...)
	zz.Modifies()
	d.Print()
	zz.Ensures("C08 printing a data frame leaves it as it is", func() bool {
		return len(d.Payload) == len(o) && zz.Forall(0, len(o), func(i int) bool { return d.Payload[i] == o[i] })
	})
}

//zz:contract (data.Data).ShortPrint
func ZC_ShortPrint(d Data) {
	o := append([]byte(nil), d.Payload...)
	zz.Modifies()
	d.ShortPrint()
	zz.Ensures("C08 printing a data frame leaves it as it is", func() bool {
		return len(d.Payload) == len(o) && zz.Forall(0, len(o), func(i int) bool { return d.Payload[i] == o[i] })
	})
}
