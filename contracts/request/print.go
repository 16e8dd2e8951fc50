package request

import (
	zz "github.com/charlesetsmith/saratoga/zzverif"
)

//zz:contract (request.Request).Print
func ZC_Print(r Request) {
	o := append([]byte(nil), r.Auth...)
	zz.Modifies()
	r.Print()
	zz.Ensures("C08 printing a request leaves it as it is", func() bool {
		return len(r.Auth) == len(o) && zz.Forall(0, len(o), func(i int) bool { return r.Auth[i] == o[i] })
	})
}

//zz:contract (request.Request).ShortPrint
func ZC_ShortPrint(r Request) {
	o := append([]byte(nil), r.Auth...)
	zz.Modifies()
	r.ShortPrint()
	zz.Ensures("C08 printing a request leaves it as it is", func() bool {
		return len(r.Auth) == len(o) && zz.Forall(0, len(o), func(i int) bool { return r.Auth[i] == o[i] })
	})
}
