package fileio

import (
	"os"
	"path"

	"github.com/charlesetsmith/saratoga/sarflags"
	zz "github.com/charlesetsmith/saratoga/zzverif"
)

func init() {
	zz.RegisterSetup(func() {
		d := zz.Scratch() + "/sardir"
		os.Mkdir(d, 0755)
		sarflags.Cliflag.Sardir = d
	})
}

// Zs_Path: the file a name stands for, the Saratoga directory taken as the root of the file system
func Zs_Path(fname string) string {
	return sarflags.Cliflag.Sardir + path.Clean("/"+fname)
}

// Zs_There: a file or directory
func Zs_There(p string) bool {
	fi, err := os.Stat(p)
	return err == nil && (fi.Mode().IsDir() || fi.Mode().IsRegular())
}

// Zs_Inside: every path handed to the operating system is inside the Saratoga directory (or names nothing)
func Zs_Inside() bool {
	return zz.Paths(func(p string) bool { return p == "" || zz.Inside(sarflags.Cliflag.Sardir, p) })
}

// Zg_Files makes a Saratoga directory with files in and around it and gives a name and another path
func Zg_Files(r *zz.R) (string, string) {
	top := zz.Scratch()
	dir := top + "/sardir"
	os.MkdirAll(dir+"/sub/deep", 0755)
	os.MkdirAll(top+"/sardirx", 0755)
	os.MkdirAll(top+"/sub", 0755)
	for i, f := range []string{"/x", "/sardirx/x", "/sub/x", "/sardir/x", "/sardir/sub/x", "/sardir/sub/deep/x", "/sardir/sardir"} {
		os.WriteFile(top+f, append(r.Bytes(r.Len()), byte(i)), 0644)
	}
	os.WriteFile(dir+"/big", r.Bytes(5000), 0644)
	os.WriteFile(dir+"/empty", nil, 0644)
	os.Symlink("x", dir+"/link")
	os.Symlink("sub", dir+"/dlink")
	os.Symlink("nowhere", dir+"/dangling")
	sarflags.Cliflag.Sardir = dir
	if r.Intn(6) == 0 {
		sarflags.Cliflag.Sardir = dir + "/"
	}
	name := r.Pick("x", "x", "sub/x", "sub", "new", "sub/new", "big", "empty", "link", "dlink", "dangling", "", "/", ".", "nodir/new",
		"../x", "../sub/x", "../new", "../sardirx/x", "../sardirx/new", "..", "/..", "/../x", "sub/../../x", "sub/../x", "./../x", "a/../../sub", "/sub/../../x",
		"..//x", "sub/../../../x", "....//x", "..x", "x/..", "sub/deep/../../../x", "../../x", "//..//x", ".../x", "x/../../x", "new/../../x",
		top+"/x", dir+"/x", "../sardir/x", "/x", "sub/deep/x", "..\\x", "x\x00y", "sardir", "~", "sub/", "./x")
	other := top + r.Pick("/x", "/sub/x", "/sub", "/sardirx/x", "/new", "/sardirx/new", "/sardir/x", "/sardir/sub/x", "/sardir/sub/deep/x", "/sardir/big", "/sardir/new", "/sardir/sub", "/sardir")
	return name, other
}

//zz:contract FileExists
func ZC_FileExists(fname string, other string) {
	zz.Requires(sarflags.Cliflag != nil)
	p := Zs_Path(fname)
	there := Zs_There(p)
	was, ver := zz.FileExists(other), zz.FileVersion(other)
	r := FileExists(fname)
	zz.Ensures("C13 whether a name exists is asked of the file in the Saratoga directory", func() bool {
		return r == there
	})
	zz.Ensures("C13 every path looked at for existence is inside the Saratoga directory", func() bool { return Zs_Inside() })
	zz.Ensures("C13,C14 asking for existence changes no file", func() bool {
		return zz.FileExists(other) == was && zz.FileVersion(other) == ver
	})
}

func ZG_FileExists(r *zz.R) (string, string) { return Zg_Files(r) }

//zz:contract FileOpen
func ZC_FileOpen(fname string, ttype string, other string) {
	zz.Requires(sarflags.Cliflag != nil)
	dir := sarflags.Cliflag.Sardir
	p := Zs_Path(fname)
	there := Zs_There(p)
	was, ver := zz.FileExists(p), zz.FileVersion(p)
	owas, over := zz.FileExists(other), zz.FileVersion(other)
	faults := zz.Faults()
	fp, err := FileOpen(fname, ttype)
	zz.Ensures("C14 a file that is not there can be got or taken and one that is there put or given, unless the file system fails", func() bool {
		switch ttype {
		case "get", "take":
			return was || err == nil && fp != nil || zz.Faulty(faults, err)
		case "getdir":
			return was || err == nil || zz.Faulty(faults, err)
		case "put", "putblind", "give":
			return !there || err == nil && fp != nil || zz.Faulty(faults, err)
		}
		return true
	})
	zz.Ensures("C13 the file opened is the one of that name in the Saratoga directory", func() bool {
		return err != nil || fp == nil || zz.SameFile(fp.Name(), p) && zz.Inside(dir, fp.Name())
	})
	zz.Ensures("C13 every path used to open a file is inside the Saratoga directory", func() bool { return Zs_Inside() })
	zz.Ensures("C13,C14 opening changes no other file", func() bool {
		return zz.Implies(!zz.SameFile(other, p), zz.FileExists(other) == owas && zz.FileVersion(other) == over)
	})
	zz.Ensures("C14 getting or taking a file that exists is refused and leaves it as it is", func() bool {
		return zz.Implies(there && (ttype == "get" || ttype == "take" || ttype == "getdir"),
			err != nil && fp == nil && zz.FileExists(p) == was && zz.FileVersion(p) == ver)
	})
	zz.Ensures("C14 a file opened to get or take is a new, empty one", func() bool {
		return err != nil || ttype != "get" && ttype != "take" || fp != nil && !there && zz.FileExists(p) && zz.FpSize(fp) == 0
	})
	zz.Ensures("C14 opening a file to put or give needs the file and does not change it", func() bool {
		return zz.Implies(ttype == "put" || ttype == "putblind" || ttype == "give",
			zz.FileExists(p) == was && zz.FileVersion(p) == ver && zz.Implies(err == nil, there && fp != nil))
	})
	zz.Ensures("C14 any other transfer type opens and changes nothing", func() bool {
		return zz.Implies(ttype != "put" && ttype != "putblind" && ttype != "give" && ttype != "get" && ttype != "take" && ttype != "getdir",
			fp == nil && zz.FileExists(p) == was && zz.FileVersion(p) == ver && zz.Implies(ttype != "delete", err != nil))
	})
	zz.Ensures("C13,C14 an error comes without an open file", func() bool { return zz.Implies(err != nil, fp == nil) })
}

func ZG_FileOpen(r *zz.R) (string, string, string) {
	f, o := Zg_Files(r)
	return f, r.Pick("get", "take", "getdir", "put", "give", "get", "putblind", "delete", "", "bogus"), o
}

//zz:contract FileRm
func ZC_FileRm(fname string, other string) {
	zz.Requires(sarflags.Cliflag != nil)
	p := Zs_Path(fname)
	was, ver := zz.FileExists(p), zz.FileVersion(p)
	owas, over := zz.FileExists(other), zz.FileVersion(other)
	faults := zz.Faults()
	err := FileRm(fname)
	zz.Ensures("C13 a file that is there can be removed, unless the file system fails, and no other", func() bool {
		return (err == nil) == was || was && zz.Faulty(faults, err)
	})
	zz.Ensures("C13 the file removed is the one of that name in the Saratoga directory, when no error is reported", func() bool {
		return zz.FileExists(p) == (was && err != nil) && zz.Implies(err != nil, zz.FileVersion(p) == ver)
	})
	zz.Ensures("C13 every path used to remove a file is inside the Saratoga directory", func() bool { return Zs_Inside() })
	zz.Ensures("C13 removing a file removes or changes no other file", func() bool {
		return zz.Implies(!zz.SameFile(other, p), zz.FileExists(other) == owas && zz.FileVersion(other) == over)
	})
}

func ZG_FileRm(r *zz.R) (string, string) { return Zg_Files(r) }

//zz:contract FileDelete
func ZC_FileDelete(fp *os.File, other string) {
	zz.Requires(fp != nil)
	p := fp.Name()
	was := zz.FileExists(p)
	owas, over := zz.FileExists(other), zz.FileVersion(other)
	faults := zz.Faults()
	err := FileDelete(fp)
	zz.Ensures("C13 an open file that is there can be deleted, unless the file system fails", func() bool {
		return !was || err == nil || zz.Faulty(faults, err)
	})
	zz.Ensures("C13 deleting an open file removes that file, when no error is reported", func() bool {
		return zz.FileExists(p) == (was && err != nil)
	})
	zz.Ensures("C13 deleting an open file removes or changes no other file", func() bool {
		return zz.Implies(!zz.SameFile(other, p), zz.FileExists(other) == owas && zz.FileVersion(other) == over)
	})
}

func ZG_FileDelete(r *zz.R) (*os.File, string) {
	_, o := Zg_Files(r)
	fp, _ := os.Open(sarflags.Cliflag.Sardir + "/" + r.Pick("x", "sub/x", "big"))
	return fp, o
}

//zz:contract FileMeta
func ZC_FileMeta(fname string, other string) {
	zz.Requires(sarflags.Cliflag != nil)
	p := Zs_Path(fname)
	li, lerr := os.Lstat(p)
	si, serr := os.Stat(p)
	was, ver := zz.FileExists(other), zz.FileVersion(other)
	m, err := FileMeta(fname)
	zz.Ensures("C13 the details of a file are those of the file in the Saratoga directory", func() bool {
		return err != nil || (lerr == nil && m != nil && m.Size == li.Size() && m.Mode == li.Mode() && m.IsRegular == li.Mode().IsRegular() &&
			m.ModTime == li.ModTime() && m.IsSymLink == (li.Mode()&os.ModeSymlink != 0) && m.IsNamedPipe == (li.Mode()&os.ModeNamedPipe != 0) &&
			(m.IsSymLink || m.IsDir == li.IsDir()) && (!m.IsSymLink || m.IsDir == (serr == nil && si.IsDir())))
	})
	zz.Ensures("C13 the details of a file that is there are available", func() bool {
		return zz.Implies(err != nil, m == nil) && zz.Implies(lerr != nil, err != nil) && (lerr != nil || li.Mode()&os.ModeSymlink != 0 || err == nil)
	})
	zz.Ensures("C13 every path looked at for details is inside the Saratoga directory", func() bool { return Zs_Inside() })
	zz.Ensures("C13 asking for details changes no file", func() bool {
		return zz.FileExists(other) == was && zz.FileVersion(other) == ver
	})
}

func ZG_FileMeta(r *zz.R) (string, string) { return Zg_Files(r) }

//zz:contract FileWrite
func ZC_FileWrite(fp *os.File, pos uint64, buf []byte, at int) {
	zz.Requires(fp != nil && at >= 0)
	size := zz.FpSize(fp)
	was := zz.FpByte(fp, at)
	faults := zz.Faults()
	n, err := FileWrite(fp, pos, buf)
	zz.Ensures("C19 writing at an offset a file can have works, unless the file system fails", func() bool {
		return pos >= 1<<63 || err == nil || zz.Faulty(faults, err)
	})
	zz.Ensures("C19 without an error everything is written", func() bool {
		return n >= 0 && n <= len(buf) && zz.Implies(err == nil, n == len(buf))
	})
	zz.Ensures("C19 what is written is at its offset", func() bool {
		return n <= 0 || at >= n || pos < 1<<63 && zz.FpByte(fp, int(pos)+at) == buf[at]
	})
	zz.Ensures("C19 writing changes no byte elsewhere", func() bool {
		return zz.Implies(at < size && (pos >= 1<<63 || at < int(pos) || at-int(pos) >= n), zz.FpByte(fp, at) == was)
	})
	zz.Ensures("C19 the file grows to the end of what is written and never shrinks", func() bool {
		return zz.Implies(n > 0, zz.FpSize(fp) >= size && zz.FpSize(fp) >= int(pos)+n && (zz.FpSize(fp) == size || zz.FpSize(fp) == int(pos)+n)) &&
			zz.Implies(n == 0, zz.FpSize(fp) == size)
	})
	zz.Ensures("C19 an offset beyond the largest file is refused", func() bool {
		return zz.Implies(pos >= 1<<63, err != nil && n == 0)
	})
}

func zg_file(r *zz.R) *os.File {
	Zg_Files(r)
	fp, _ := os.OpenFile(sarflags.Cliflag.Sardir+"/f", os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
	fp.Write(r.Bytes(r.Len()))
	fp.Seek(int64(r.Intn(20)), 0)
	return fp
}

func zg_pos(r *zz.R) uint64 {
	if r.Intn(8) == 0 {
		return 1<<63 + uint64(r.Intn(3)) - 1
	}
	if r.Intn(8) == 0 {
		return ^uint64(0) - uint64(r.Intn(2))
	}
	return uint64(r.Intn(r.Intn(300) + 1))
}

func ZG_FileWrite(r *zz.R) (*os.File, uint64, []byte, int) {
	return zg_file(r), zg_pos(r), r.Bytes(r.Len()), r.Intn(r.Intn(300) + 1)
}

//zz:contract FileRead
func ZC_FileRead(fp *os.File, pos uint64, blen int, at int) {
	zz.Requires(fp != nil && blen >= 0 && blen < 1<<30 && at >= 0)
	size := zz.FpSize(fp)
	was := zz.FpByte(fp, at)
	faults := zz.Faults()
	b, err := FileRead(fp, pos, blen)
	zz.Ensures("C19 bytes the file has can be read, unless the file system fails", func() bool {
		return pos >= 1<<63 || int(pos) >= size || err == nil || zz.Faulty(faults, err)
	})
	zz.Ensures("C19 what is read are the bytes at the offset, as many as asked for or as the file has", func() bool {
		return zz.Implies(err == nil, len(b) <= blen && pos < 1<<63 && zz.Implies(blen > 0, len(b) > 0 && int(pos)+len(b) <= size && (len(b) == blen || int(pos)+len(b) == size)) &&
			zz.Forall(0, len(b), func(i int) bool { return b[i] == zz.FpByte(fp, int(pos)+i) }))
	})
	zz.Ensures("C19 reading changes nothing in the file", func() bool {
		return zz.FpSize(fp) == size && zz.FpByte(fp, at) == was
	})
	zz.Ensures("C19 reading at an offset beyond the largest file is refused", func() bool {
		return zz.Implies(pos >= 1<<63, err != nil)
	})
	zz.Ensures("C19 a failed read gives no bytes", func() bool {
		return zz.Implies(err != nil, len(b) == 0)
	})
}

func ZG_FileRead(r *zz.R) (*os.File, uint64, int, int) {
	return zg_file(r), zg_pos(r), r.Len(), r.Intn(r.Intn(300) + 1)
}

//zz:contract Checksum modular
func ZC_Checksum(csumtype string, fname string, other string) {
	zz.Requires(sarflags.Cliflag != nil)
	p := Zs_Path(fname)
	there := Zs_There(p)
	was, ver := zz.FileExists(other), zz.FileVersion(other)
	faults := zz.Faults()
	c, err := Checksum(csumtype, fname)
	zz.Ensures("C20 a file that is there has a checksum of every type there is, unless the file system fails", func() bool {
		return !there || csumtype != "none" && csumtype != "crc32" && csumtype != "md5" && csumtype != "sha1" || err == nil || zz.Faulty(faults, err)
	})
	zz.Ensures("C20 the checksum is that of the contents of the file, of the type asked for", func() bool {
		return zz.Implies(err == nil && csumtype == "md5", Zs_Is(c, "md5", p)) && zz.Implies(err == nil && csumtype == "sha1", Zs_Is(c, "sha1", p)) &&
			zz.Implies(err == nil && csumtype == "crc32", Zs_Is(c, "crc32", p)) && zz.Implies(err == nil && csumtype == "none", len(c) == 0)
	})
	zz.Ensures("C20 a checksum has the length its type has in the header", func() bool {
		return zz.Implies(err == nil && csumtype != "none", len(c) == 4*sarflags.Value("csumlen", csumtype))
	})
	zz.Ensures("C20 a checksum of a missing file or of an unknown type is an error", func() bool {
		return zz.Implies(err == nil, there && (csumtype == "none" || csumtype == "crc32" || csumtype == "md5" || csumtype == "sha1"))
	})
	zz.Ensures("C13,C20 only the file in the Saratoga directory is read for a checksum", func() bool { return Zs_Inside() })
	zz.Ensures("C13,C20 a checksum changes no file", func() bool {
		return zz.FileExists(other) == was && zz.FileVersion(other) == ver
	})
}

// Zs_Is: c is the checksum of the file
func Zs_Is(c []byte, alg string, p string) bool {
	d := zz.Digest(alg, p)
	return len(c) == len(d) && zz.Forall(0, len(d), func(i int) bool { return c[i] == d[i] })
}

func ZG_Checksum(r *zz.R) (string, string, string) {
	f, o := Zg_Files(r)
	return r.Pick("none", "crc32", "md5", "sha1", "md5", "sha1", "crc32", "", "sha256", "MD5"), f, o
}
