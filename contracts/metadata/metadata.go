package metadata

import (
	"os"

	"github.com/charlesetsmith/saratoga/dirent"
	"github.com/charlesetsmith/saratoga/fileio"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/timestamp"
	sp "github.com/charlesetsmith/saratoga/zzspec"
	zz "github.com/charlesetsmith/saratoga/zzverif"
)

// zs_layout: m is encoded in f
func zs_layout(m MetaData, f []byte) bool {
	n := len(m.Checksum)
	return len(f) >= 8+n && sp.U32(f, 0) == uint64(m.Header) && sp.U32(f, 4) == uint64(m.Session) &&
		zz.Forall(0, n, func(i int) bool { return f[8+i] == m.Checksum[i] }) &&
		dirent.Zs_Layout(m.Dir, f, 8+n)
}

// zs_csum: bytes of checksum announced by a header
func zs_csum(h uint32) int { return int(sp.Csumlen(h)) * 4 }

//zz:contract (*metadata.MetaData).Encode modular
func ZC_Encode(m *MetaData) {
	o := *m
	zz.Modifies()
	f, err := m.Encode()
	zz.Ensures("C07 metadata is encoded exactly when its directory entry can be", func() bool {
		return (err == nil) == dirent.Zs_Fits(o.Dir)
	})
	zz.Ensures("C07 metadata layout: header, session, checksum, directory entry", func() bool {
		return err != nil || zs_layout(o, f)
	})
}

func zg_Meta(r *zz.R) *MetaData {
	h := uint32(r.U64())
	n := zs_csum(h)
	if r.Intn(4) == 0 {
		n = r.Intn(40)
	}
	return &MetaData{Header: h, Session: uint32(r.U64()), Checksum: r.Bytes(n), Dir: *dirent.Zg_DirEnt(r)}
}

func ZG_Encode(r *zz.R) *MetaData { return zg_Meta(r) }

// Zs_Accepted: the frame has all the fields of a metadata frame
func Zs_Accepted(frame []byte) bool {
	return len(frame) >= 8 && dirent.Zs_Whole(frame, 8+zs_csum(uint32(sp.U32(frame, 0))))
}

// Zs_Decoded: m has the fields of an accepted frame
func Zs_Decoded(m MetaData, frame []byte) bool {
	return uint64(m.Header) == sp.U32(frame, 0) && uint64(m.Session) == sp.U32(frame, 4) &&
		len(m.Checksum) == zs_csum(m.Header) &&
		zz.Forall(0, len(m.Checksum), func(i int) bool { return m.Checksum[i] == frame[8+i] }) &&
		dirent.Zs_From(m.Dir, frame, 8+len(m.Checksum))
}

//zz:contract (*metadata.MetaData).Decode modular
func ZC_Decode(m *MetaData, frame []byte) {
	zz.Modifies(m)
	err := m.Decode(frame)
	zz.Ensures("C07,C08 metadata with all its fields is accepted, a truncated frame refused", func() bool {
		return (err == nil) == Zs_Accepted(frame)
	})
	zz.Ensures("C07,C08 decoded metadata fields are those of the frame", func() bool {
		return err != nil || Zs_Decoded(*m, frame)
	})
	zz.Ensures("C07 the decoded checksum does not share memory with the frame", func() bool {
		return err != nil || !zz.Shares(m.Checksum, frame)
	})
}

func ZG_Decode(r *zz.R) (m *MetaData, frame []byte) {
	m = zg_Meta(r)
	if r.Intn(3) == 0 {
		frame = r.Bytes(r.Intn(60))
	} else {
		frame, _ = zg_Meta(r).Encode()
		if len(frame) > 0 && r.Intn(2) == 0 {
			frame = frame[:r.Intn(len(frame)+1)]
		}
	}
	return
}

// what is sent is what is received
func ZL_RoundTrip(m MetaData, e *MetaData) {
	d := m.Dir
	zz.Requires(timestamp.Zs_Epoch(d.Mtime, timestamp.Zs_Secs(d.Mtime)) && timestamp.Zs_Secs(d.Mtime) <= 0xffffffff)
	zz.Requires(timestamp.Zs_Epoch(d.Ctime, timestamp.Zs_Secs(d.Ctime)) && timestamp.Zs_Secs(d.Ctime) <= 0xffffffff)
	zz.Requires(len(m.Checksum) == zs_csum(m.Header))
	zz.Split((d.Header>>6)&3 == 0)
	zz.Split((d.Header>>6)&3 == 1)
	zz.Split((d.Header>>6)&3 == 2)
	f, err := m.Encode()
	if err != nil {
		return
	}
	err2 := e.Decode(f)
	zz.Assert("C07 every encoded metadata frame decodes", err2 == nil)
	if err2 != nil {
		return
	}
	zz.Hint(len(d.Path), len(e.Dir.Path), len(m.Checksum))
	zz.Ensures("C07 the decoded metadata is the one encoded", func() bool {
		return e.Header == m.Header && e.Session == m.Session && len(e.Checksum) == len(m.Checksum) &&
			zz.Forall(0, len(m.Checksum), func(i int) bool { return e.Checksum[i] == m.Checksum[i] }) &&
			dirent.Zs_Same(e.Dir, d)
	})
}

func ZG_RoundTrip(r *zz.R) (m MetaData, e *MetaData) { return *zg_Meta(r), zg_Meta(r) }

// zs_good: a flag a metadata frame can have
func zs_good(f string) bool {
	n, v := sarflags.Zs_Name(f), sarflags.Zs_Val(f)
	switch n {
	case "descriptor", "progress", "transfer", "reliability":
		return sarflags.Zs_Pair(f) && sarflags.Zs_Valid(n, v)
	case "csumtype":
		return sarflags.Zs_Pair(f) && sarflags.Zs_Valid(n, v) && sarflags.Zs_Valid("csumlen", v)
	}
	return false
}

// zs_typed: header h with version 1 and frame type metadata
func zs_typed(h uint32) uint32 { return sp.With(sp.With(h, 0, 3, 1), 3, 5, 2) }

// zs_set: header h with the flag f; the type of a checksum sets its length too
func zs_set(h uint32, f string) uint32 {
	n, v := sarflags.Zs_Name(f), sarflags.Zs_Val(f)
	r := sarflags.Zs_Set(h, n, v)
	if n == "csumtype" {
		r = sarflags.Zs_Set(r, "csumlen", v)
	}
	return r
}

// zs_header: header h for a metadata frame with the first n flags
func zs_header(h uint32, flags string, n int) uint32 {
	return zz.Fold32(n, zs_typed(h), func(acc uint32, i int) uint32 {
		return zs_set(acc, sarflags.Zs_Flags(flags)[i])
	})
}

// zs_kind: a directory entry is marked as what the file is, with a descriptor its size fits, and the transfer is one for it
func zs_kind(h uint32, d uint16, fi os.FileInfo) bool {
	p, t := sarflags.GetDStr(d, "property"), sarflags.GetStr(h, "transfer")
	if p != "specialfile" && !dirent.Zs_Holds(d, uint64(fi.Size())) {
		return false
	}
	switch {
	case fi.Mode().IsRegular():
		return p == "normalfile" && t == "file"
	case fi.Mode().IsDir():
		return p == "normaldirectory" && t == "directory"
	}
	return p == "specialfile" && t == "stream" && fi.Mode()&os.ModeNamedPipe != 0 && sarflags.GetStr(h, "csumtype") == "none"
}

// zs_suits: a transfer of the type in h can be one of this file
func zs_suits(h uint32, fi os.FileInfo) bool {
	if fi.Mode()&os.ModeSymlink != 0 {
		return false
	}
	switch sarflags.GetStr(h, "transfer") {
	case "file":
		return fi.Mode().IsRegular()
	case "directory":
		return !fi.Mode().IsRegular() && fi.Mode().IsDir()
	case "stream":
		return !fi.Mode().IsRegular() && !fi.Mode().IsDir() && fi.Mode()&os.ModeNamedPipe != 0 && sarflags.GetStr(h, "csumtype") == "none"
	}
	return false
}

//zz:contract statfile modular
func ZC_statfile(fname string, header uint32) {
	zz.Requires(sarflags.Cliflag != nil)
	fi, ferr := os.Lstat(fileio.Zs_Path(fname))
	zz.Modifies()
	flags, err := statfile(fname, header)
	zz.Ensures("C12 the directory entry flags say what the file is, with a descriptor its size fits, and the transfer is one for it", func() bool {
		return err != nil || ferr == nil && zs_kind(header, dirent.Zs_Header(0, flags, len(sarflags.Zs_Flags(flags))), fi)
	})
	zz.Ensures("C11 the directory entry flags are ones it can have, and there are some for every file a transfer of this type can be of", func() bool {
		if err != nil {
			return ferr != nil || !zs_suits(header, fi)
		}
		fs := sarflags.Zs_Flags(flags)
		return zz.Forall(0, len(fs), func(i int) bool { return dirent.Zs_Good(fs[i]) })
	})
	zz.Ensures("C13 every path looked at for the kind of a file is inside the Saratoga directory", func() bool { return fileio.Zs_Inside() })
}

func ZG_statfile(r *zz.R) (fname string, header uint32) {
	_, h, i := ZG_Make(r)
	return i.Fname, h
}

// zs_about: m describes the file of that name
func zs_about(m *MetaData, fname string, fi os.FileInfo) bool {
	p := sarflags.GetDStr(m.Dir.Header, "property")
	return m.Dir.Path == fname && zs_kind(m.Header, m.Dir.Header, fi) && (p == "specialfile" && m.Dir.Size == 0 || p != "specialfile" && dirent.Zs_Of(m.Dir, fi))
}

// zs_sum: the checksum of m is that of the file, of the type in the header
func zs_sum(m *MetaData, p string) bool {
	c := sarflags.GetStr(m.Header, "csumtype")
	switch c {
	case "none":
		return len(m.Checksum) == 0
	case "crc32":
		return fileio.Zs_Is(m.Checksum, "crc32", p)
	case "md5":
		return fileio.Zs_Is(m.Checksum, "md5", p)
	case "sha1":
		return fileio.Zs_Is(m.Checksum, "sha1", p)
	}
	return false
}

// zs_made: metadata with header h can be made for the file
func zs_made(h uint32, fname string, fi os.FileInfo, ferr error, there bool) bool {
	if ferr != nil || len(fname) > 1024 || !zs_suits(h, fi) || !dirent.Zs_Recent(fi) {
		return false
	}
	c := sarflags.GetStr(h, "csumtype")
	return sarflags.GetStr(h, "transfer") == "stream" || there && (c == "none" || c == "crc32" || c == "md5" || c == "sha1")
}

//zz:contract (*metadata.MetaData).New
func ZC_New(m *MetaData, flags string, info *Minfo) {
	zz.Requires(sarflags.Cliflag != nil)
	h := m.Header
	session, fname := info.Session, info.Fname
	p := fileio.Zs_Path(fname)
	fi, ferr := os.Lstat(p)
	zz.Modifies(m)
	there := fileio.Zs_There(p)
	faults := zz.Faults()
	err := m.New(flags, info)
	zz.Ensures("C11 metadata can be made with any flags it can have that suit the file and name a checksum type", func() bool {
		fs := sarflags.Zs_Flags(flags)
		return err == nil || zz.Faulty(faults, err) || !zz.Forall(0, len(fs), func(i int) bool { return zs_good(fs[i]) }) ||
			!zz.Exists(0, len(fs), func(i int) bool { return sarflags.Zs_Name(fs[i]) == "csumtype" }) ||
			!zs_made(zs_header(h, flags, len(fs)), fname, fi, ferr, there)
	})
	zz.Ensures("C11 metadata is made only with flags it can have", func() bool {
		fs := sarflags.Zs_Flags(flags)
		return err != nil || zz.Forall(0, len(fs), func(i int) bool { return zs_good(fs[i]) })
	})
	zz.Ensures("C11 the header of new metadata is the given one with version 1, frame type metadata and the flags set in order", func() bool {
		return err != nil || m.Header == zs_header(h, flags, len(sarflags.Zs_Flags(flags)))
	})
	zz.Ensures("C12 new metadata has the session given", func() bool { return err != nil || m.Session == session })
	zz.Ensures("C12 new metadata describes the file of that name", func() bool { return err != nil || ferr == nil && zs_about(m, fname, fi) })
	zz.Ensures("C12,C20 new metadata has the checksum of the file, of the type in the header", func() bool {
		return err != nil || sarflags.GetStr(m.Header, "transfer") == "stream" && len(m.Checksum) == 0 || zs_sum(m, p)
	})
	zz.Ensures("C13 every path looked at for new metadata is inside the Saratoga directory", func() bool { return fileio.Zs_Inside() })
}

func ZI_New(m *MetaData, flags string, info *Minfo, k int) uint32 {
	return zs_header(m.Header, flags, k)
}

func ZI_New_csum(m *MetaData, flags string, info *Minfo, k int, h uint32, c string) bool {
	return c == "" || sarflags.GetStr(h, "csumtype") == c
}

func ZI_New_none(m *MetaData, flags string, info *Minfo, k int, h uint32, c string) bool {
	fs := sarflags.Zs_Flags(flags)
	return c != "" || zz.Forall(0, k, func(i int) bool { return sarflags.Zs_Name(fs[i]) != "csumtype" })
}

func zg_name(r *zz.R) string {
	f, _ := fileio.Zg_Files(r)
	if r.Intn(2) == 0 {
		f = r.Pick("x", "big", "empty", "sub/x", "sub")
	}
	return f
}

func ZG_New(r *zz.R) (m *MetaData, flags string, info *Minfo) {
	f := zg_name(r)
	m = zg_Meta(r)
	flags = sarflags.Zg_Flags(r, "descriptor", "progress", "transfer", "reliability", "csumtype")
	if r.Intn(2) == 0 {
		flags += ",transfer=" + r.Pick("file", "file", "directory") + ",csumtype=" + r.Pick("none", "crc32", "md5", "sha1")
	}
	return m, flags, &Minfo{Session: uint32(r.U64()), Fname: f}
}

//zz:contract (*metadata.MetaData).Make
func ZC_Make(m *MetaData, header uint32, info *Minfo) {
	zz.Requires(sarflags.Cliflag != nil)
	session, fname := info.Session, info.Fname
	p := fileio.Zs_Path(fname)
	fi, ferr := os.Lstat(p)
	zz.Modifies(m)
	there := fileio.Zs_There(p)
	faults := zz.Faults()
	err := m.Make(header, info)
	zz.Ensures("C11 metadata can be made of any header that suits the file", func() bool {
		return err == nil || zz.Faulty(faults, err) || !zs_made(zs_typed(header), fname, fi, ferr, there)
	})
	zz.Ensures("C11 made metadata has the given header with version 1 and frame type metadata", func() bool {
		return err != nil || m.Header == zs_typed(header)
	})
	zz.Ensures("C12 made metadata has the session given", func() bool { return err != nil || m.Session == session })
	zz.Ensures("C12 made metadata describes the file of that name", func() bool { return err != nil || ferr == nil && zs_about(m, fname, fi) })
	zz.Ensures("C12,C20 made metadata has the checksum of the file, of the type in the header", func() bool {
		return err != nil || sarflags.GetStr(m.Header, "transfer") == "stream" && len(m.Checksum) == 0 || zs_sum(m, p)
	})
	zz.Ensures("C13 every path looked at for made metadata is inside the Saratoga directory", func() bool { return fileio.Zs_Inside() })
}

func ZG_Make(r *zz.R) (m *MetaData, header uint32, info *Minfo) {
	f := zg_name(r)
	m = zg_Meta(r)
	header = uint32(r.U64())
	if r.Intn(3) > 0 {
		header, _ = sarflags.Set(header, "transfer", r.Pick("file", "file", "directory"))
		header, _ = sarflags.Set(header, "csumtype", r.Pick("none", "crc32", "md5", "sha1"))
	}
	return m, header, &Minfo{Session: uint32(r.U64()), Fname: f}
}
