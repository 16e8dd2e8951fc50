package dirent

import (
	"github.com/charlesetsmith/saratoga/timestamp"
	zz "github.com/charlesetsmith/saratoga/zzverif"
)

//zz:contract (dirent.DirEnt).Print
func ZC_Print(d DirEnt) {
	o := d
	zz.Modifies()
	d.Print()
	zz.Ensures("C08 printing a directory entry leaves it as it is", func() bool {
		return d.Header == o.Header && d.Size == o.Size && d.Path == o.Path && timestamp.Zs_Same(d.Mtime, o.Mtime)
	})
}

//zz:contract (dirent.DirEnt).ShortPrint
func ZC_ShortPrint(d DirEnt) {
	o := d
	zz.Modifies()
	d.ShortPrint()
	zz.Ensures("C08 printing a directory entry leaves it as it is", func() bool {
		return d.Header == o.Header && d.Size == o.Size && d.Path == o.Path && timestamp.Zs_Same(d.Mtime, o.Mtime)
	})
}
