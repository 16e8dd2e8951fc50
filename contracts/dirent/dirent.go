package dirent

import (
	"os"
	"syscall"

	"github.com/charlesetsmith/saratoga/fileio"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/timestamp"
	sp "github.com/charlesetsmith/saratoga/zzspec"
	zz "github.com/charlesetsmith/saratoga/zzverif"
)

// zs_desc: the descriptor in the 16 bit header of a directory entry
func zs_desc(h uint16) uint32 { return uint32(h>>6) & 3 }

// Zs_Layout: the directory entry d is encoded in f at position at, to the end
func Zs_Layout(d DirEnt, f []byte, at int) bool {
	w := sp.Width(zs_desc(d.Header))
	n := len(d.Path)
	p := at + 2 + w
	return len(f) == p+8+n+1 && sp.U16(f, at) == uint64(d.Header) && sp.Num(f, at+2, zs_desc(d.Header)) == d.Size &&
		sp.U32(f, p) == timestamp.Zs_Secs(d.Mtime)&0xffffffff && sp.U32(f, p+4) == timestamp.Zs_Secs(d.Ctime)&0xffffffff &&
		zz.Forall(0, n, func(i int) bool { return f[p+8+i] == d.Path[i] }) && f[p+8+n] == 0
}

// Zs_Fits: d can be encoded
func Zs_Fits(d DirEnt) bool {
	return sp.Fits(zs_desc(d.Header), d.Size) && len(d.Path) <= 1024 && zz.Forall(0, len(d.Path), func(i int) bool { return d.Path[i] != 0 })
}

// Zs_Holds: the descriptor in a header can hold the size
func Zs_Holds(h uint16, size uint64) bool { return sp.Fits(zs_desc(h), size) }

// Zs_From: d is the directory entry in f at position at
func Zs_From(d DirEnt, f []byte, at int) bool {
	if d.Header != uint16(sp.U16(f, at)) || zs_desc(d.Header) == 3 {
		return false
	}
	w := sp.Width(zs_desc(d.Header))
	p := at + 2 + w
	n := len(d.Path)
	return len(f) >= p+8+n && d.Size == sp.Num(f, at+2, zs_desc(d.Header)) &&
		timestamp.Zs_Epoch(d.Mtime, sp.U32(f, p)) && timestamp.Zs_Epoch(d.Ctime, sp.U32(f, p+4)) &&
		zz.Forall(0, n, func(i int) bool { return d.Path[i] == f[p+8+i] && f[p+8+i] != 0 }) &&
		(len(f) == p+8+n || f[p+8+n] == 0)
}

// Zs_Whole: f has, from at on, everything a directory entry needs
func Zs_Whole(f []byte, at int) bool {
	if len(f) < at+12 {
		return false
	}
	d := zs_desc(uint16(sp.U16(f, at)))
	return d != 3 && len(f) >= at+10+sp.Width(d)
}

//zz:contract (*dirent.DirEnt).Encode modular
func ZC_Encode(d *DirEnt) {
	o := *d
	zz.Modifies()
	f, err := d.Encode()
	zz.Ensures("C07 a directory entry is encoded exactly when its size fits the descriptor and its path is not too long and has no NUL", func() bool {
		return (err == nil) == Zs_Fits(o)
	})
	zz.Ensures("C07 directory entry layout: header, size, modification and creation time, path, NUL", func() bool {
		return err != nil || Zs_Layout(o, f, 0)
	})
}

func Zg_DirEnt(r *zz.R) *DirEnt {
	d := &DirEnt{Header: uint16(r.U64()), Size: r.U64(), Mtime: timestamp.Zg_Epoch(r), Ctime: timestamp.Zg_Epoch(r), Path: r.Str()}
	if r.Intn(20) == 0 {
		b := make([]byte, 1020+r.Intn(8))
		for i := range b {
			b[i] = 'a'
		}
		d.Path = string(b)
	}
	if k := r.Intn(4); k < 3 {
		d.Header = d.Header&^(3<<6) | uint16(k)<<6
		if k < 2 && r.Intn(5) > 0 {
			d.Size &= uint64(1)<<(16<<uint(k)) - 1
		}
	}
	return d
}

func ZG_Encode(r *zz.R) *DirEnt { return Zg_DirEnt(r) }

//zz:contract (*dirent.DirEnt).Decode modular
func ZC_Decode(d *DirEnt, frame []byte) {
	zz.Modifies(d)
	err := d.Decode(frame)
	zz.Ensures("C07,C08 a directory entry with all its fields is accepted, a truncated one refused", func() bool {
		return (err == nil) == Zs_Whole(frame, 0)
	})
	zz.Ensures("C07,C08 decoded directory entry fields are those of the frame", func() bool {
		return err != nil || Zs_From(*d, frame, 0)
	})
}

func ZG_Decode(r *zz.R) (d *DirEnt, frame []byte) {
	d = Zg_DirEnt(r)
	if r.Intn(3) == 0 {
		frame = r.Bytes(r.Intn(40))
	} else {
		frame, _ = Zg_DirEnt(r).Encode()
		if len(frame) > 0 && r.Intn(2) == 0 {
			frame = frame[:r.Intn(len(frame)+1)]
		}
	}
	return
}

// Zs_Same: equal directory entries
func Zs_Same(a, b DirEnt) bool {
	return a.Header == b.Header && a.Size == b.Size && timestamp.Zs_Same(a.Mtime, b.Mtime) && timestamp.Zs_Same(a.Ctime, b.Ctime) &&
		len(a.Path) == len(b.Path) && zz.Forall(0, len(a.Path), func(i int) bool { return a.Path[i] == b.Path[i] })
}

// what is sent is what is received
func ZL_RoundTrip(d DirEnt, e *DirEnt) {
	zz.Requires(timestamp.Zs_Epoch(d.Mtime, timestamp.Zs_Secs(d.Mtime)) && timestamp.Zs_Secs(d.Mtime) <= 0xffffffff)
	zz.Requires(timestamp.Zs_Epoch(d.Ctime, timestamp.Zs_Secs(d.Ctime)) && timestamp.Zs_Secs(d.Ctime) <= 0xffffffff)
	zz.Split(zs_desc(d.Header) == 0)
	zz.Split(zs_desc(d.Header) == 1)
	zz.Split(zs_desc(d.Header) == 2)
	f, err := d.Encode()
	if err != nil {
		return
	}
	err2 := e.Decode(f)
	zz.Assert("C07 every encoded directory entry decodes", err2 == nil)
	if err2 != nil {
		return
	}
	zz.Hint(len(d.Path), len(e.Path))
	zz.Ensures("C07 the decoded directory entry is the one encoded", func() bool { return Zs_Same(*e, d) })
}

func ZG_RoundTrip(r *zz.R) (d DirEnt, e *DirEnt) { return *Zg_DirEnt(r), Zg_DirEnt(r) }

// zs_y2k: seconds from 2000 of a unix time
func zs_y2k(s int64) uint64 { return uint64(s - 946684800) }

// Zs_Of: size and times in d are those of the file
func Zs_Of(d DirEnt, fi os.FileInfo) bool {
	sys := fi.Sys().(*syscall.Stat_t)
	return d.Size == uint64(fi.Size()) && timestamp.Zs_Epoch(d.Mtime, zs_y2k(fi.ModTime().Unix())) && timestamp.Zs_Epoch(d.Ctime, zs_y2k(int64(sys.Ctim.Sec)))
}

// Zs_Recent: the file is no symbolic link and was changed at times a directory entry can hold
func Zs_Recent(fi os.FileInfo) bool {
	if fi.Mode()&os.ModeSymlink != 0 {
		return false
	}
	m, c := zs_y2k(fi.ModTime().Unix()), zs_y2k(int64(fi.Sys().(*syscall.Stat_t).Ctim.Sec))
	return m < 1<<32 && c < 1<<32
}

//zz:contract (*dirent.DirEnt).Statfile
func ZC_Statfile(d *DirEnt, name string) {
	zz.Requires(sarflags.Cliflag != nil)
	fi, ferr := os.Lstat(fileio.Zs_Path(name))
	o := *d
	zz.Modifies(d)
	err := d.Statfile(name)
	zz.Ensures("C12 the size and times of a directory entry are those of the file", func() bool {
		return err != nil || ferr == nil && Zs_Of(*d, fi)
	})
	zz.Ensures("C12 the size and times of a file that is there (and no symbolic link) are looked up, if a directory entry can hold them", func() bool {
		return ferr != nil || err == nil || !Zs_Recent(fi)
	})
	zz.Ensures("C12 looking up the size and times leaves header and path", func() bool {
		return d.Header == o.Header && d.Path == o.Path
	})
	zz.Ensures("C13 every path looked at for a directory entry is inside the Saratoga directory", func() bool { return fileio.Zs_Inside() })
}

func ZG_Statfile(r *zz.R) (d *DirEnt, name string) {
	f, _ := fileio.Zg_Files(r)
	return Zg_DirEnt(r), f
}

// Zs_Good: a flag a directory entry can have
func Zs_Good(f string) bool {
	n, v := sarflags.Zs_Name(f), sarflags.Zs_Val(f)
	switch n {
	case "descriptor", "property":
		return sarflags.Zs_Pair(f) && sarflags.Zs_ValidD(n, v)
	}
	return false
}

// Zs_Header: header h for a directory entry with the first n flags
func Zs_Header(h uint16, flags string, n int) uint16 {
	return zz.Fold16(n, h|0x8000, func(acc uint16, i int) uint16 {
		f := sarflags.Zs_Flags(flags)[i]
		return sarflags.Zs_SetD(acc, sarflags.Zs_Name(f), sarflags.Zs_Val(f))
	})
}

//zz:contract (*dirent.DirEnt).New modular
func ZC_New(d *DirEnt, flags string, path string) {
	zz.Requires(sarflags.Cliflag != nil)
	h := d.Header
	fi, ferr := os.Lstat(fileio.Zs_Path(path))
	zz.Modifies(d)
	err := d.New(flags, path)
	zz.Ensures("C11 a directory entry is made only with flags it can have", func() bool {
		fs := sarflags.Zs_Flags(flags)
		return err != nil || zz.Forall(0, len(fs), func(i int) bool { return Zs_Good(fs[i]) })
	})
	zz.Ensures("C11 a directory entry can be made with any flags it can have, of any file that is there", func() bool {
		fs := sarflags.Zs_Flags(flags)
		if err == nil || len(path) > 1024 || !zz.Forall(0, len(fs), func(i int) bool { return Zs_Good(fs[i]) }) {
			return true
		}
		switch sarflags.GetDStr(Zs_Header(h, flags, len(fs)), "property") {
		case "specialfile", "specialdirectory":
			return false
		case "normalfile", "normaldirectory":
			return ferr != nil || !Zs_Recent(fi)
		}
		return true
	})
	zz.Ensures("C11 the header of a new directory entry is the given one marked as such, with the flags set in order", func() bool {
		return err != nil || d.Header == Zs_Header(h, flags, len(sarflags.Zs_Flags(flags)))
	})
	zz.Ensures("C12 a new directory entry has the path given", func() bool { return err != nil || d.Path == path && len(path) <= 1024 })
	zz.Ensures("C12 a new entry of a file or directory has its size and times", func() bool {
		p := sarflags.GetDStr(d.Header, "property")
		return err != nil || p != "normalfile" && p != "normaldirectory" || ferr == nil && Zs_Of(*d, fi)
	})
	zz.Ensures("C12 a new entry of a special file has no size", func() bool {
		p := sarflags.GetDStr(d.Header, "property")
		return err != nil || p == "normalfile" || p == "normaldirectory" || d.Size == 0
	})
	zz.Ensures("C13 every path looked at for a new directory entry is inside the Saratoga directory", func() bool { return fileio.Zs_Inside() })
}

func ZI_New(d *DirEnt, flags string, path string, k int) uint16 { return Zs_Header(d.Header, flags, k) }

func ZG_New(r *zz.R) (d *DirEnt, flags string, path string) {
	f, _ := fileio.Zg_Files(r)
	d = Zg_DirEnt(r)
	if r.Intn(2) == 0 {
		f = r.Pick("x", "sub", "big", "empty", "sub/x")
	}
	return d, sarflags.Zg_Flags(r, "property", "descriptor"), f
}
