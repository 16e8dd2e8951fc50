package status

import (
	"github.com/charlesetsmith/saratoga/holes"
	zz "github.com/charlesetsmith/saratoga/zzverif"
)

//zz:contract (status.Status).Print modular
func ZC_Print(s Status) {
	n := len(s.Holes)
	o := append([]holes.Hole(nil), s.Holes...)
	zz.Modifies()
	s.Print()
	zz.Ensures("C08 printing a status leaves it as it is", func() bool {
		return len(s.Holes) == n && zz.Forall(0, n, func(i int) bool { return s.Holes[i] == o[i] })
	})
}

//zz:contract (status.Status).ShortPrint modular
func ZC_ShortPrint(s Status) {
	n := len(s.Holes)
	o := append([]holes.Hole(nil), s.Holes...)
	zz.Modifies()
	s.ShortPrint()
	zz.Ensures("C08 printing a status leaves it as it is", func() bool {
		return len(s.Holes) == n && zz.Forall(0, n, func(i int) bool { return s.Holes[i] == o[i] })
	})
}
