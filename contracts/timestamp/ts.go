package timestamp

import (
	"strings"
	"time"

	sp "github.com/charlesetsmith/saratoga/zzspec"
	zz "github.com/charlesetsmith/saratoga/zzverif"
)

// seconds between 1970-01-01 and 2000-01-01
const zsEpoch2k = 946684800

// Zs_Valid - a timestamp as New, Now and Get leave it on success
func Zs_Valid(t Timestamp) bool {
	switch t.header {
	case 0:
		return t.secs == 0 && t.nsecs == 0 && len(t.local) <= 14 &&
			(len(t.local) == 0 || t.local[len(t.local)-1] != 0)
	case 1, 5:
		return t.secs <= 0xffffffff && t.nsecs == 0 && t.local == ""
	case 2:
		return t.nsecs == 0 && t.local == ""
	case 3:
		return t.secs <= 0xffffffff && t.nsecs <= 0xffffffff && t.local == ""
	case 4:
		return t.nsecs <= 0xffffffff && t.local == ""
	}
	return false
}

// Zs_Same - equal for every observer but the type name
func Zs_Same(a, b Timestamp) bool {
	return a.header == b.header && a.secs == b.secs && a.nsecs == b.nsecs && len(a.local) == len(b.local) &&
		zz.Forall(0, len(a.local), func(i int) bool { return a.local[i] == b.local[i] })
}

// Zs_Bytes - the 16 bytes b at offset o represent t
func Zs_Bytes(t Timestamp, b []byte, o int) bool {
	if b[o] != t.header {
		return false
	}
	switch t.header {
	case 1, 5:
		return sp.U32(b, o+1) == t.secs&0xffffffff && sp.U64(b, o+5) == 0 && b[o+13] == 0 && b[o+14] == 0 && b[o+15] == 0
	case 2:
		return sp.U64(b, o+1) == t.secs && sp.U32(b, o+9) == 0 && b[o+13] == 0 && b[o+14] == 0 && b[o+15] == 0
	case 3:
		return sp.U32(b, o+1) == t.secs&0xffffffff && sp.U32(b, o+5) == t.nsecs&0xffffffff && sp.U32(b, o+9) == 0 && b[o+13] == 0 && b[o+14] == 0 && b[o+15] == 0
	case 4:
		return sp.U64(b, o+1) == t.secs && sp.U32(b, o+9) == t.nsecs&0xffffffff && b[o+13] == 0 && b[o+14] == 0 && b[o+15] == 0
	case 0:
		return b[o+15] == 0 && zz.Forall(0, 14, func(i int) bool {
			if i < len(t.local) {
				return b[o+1+i] == t.local[i]
			}
			return b[o+1+i] == 0
		})
	}
	return true
}

// Zs_Epoch - t counts s seconds from the year 2000
func Zs_Epoch(t Timestamp, s uint64) bool {
	return t.header == 5 && t.secs == s && t.nsecs == 0 && len(t.local) == 0
}

// Zs_Secs - seconds of t
func Zs_Secs(t Timestamp) uint64 { return t.secs }

// Zg_Epoch - a timestamp of the epoch2000_32 type
func Zg_Epoch(r *zz.R) Timestamp {
	return Timestamp{header: 5, ttype: "epoch2000_32", secs: r.U64() & 0xffffffff}
}

// Zs_From - t is the timestamp written in b at offset o
func Zs_From(t Timestamp, b []byte, o int) bool {
	if t.header != b[o] || !Zs_Valid(t) {
		return false
	}
	switch t.header {
	case 1, 5:
		return t.secs == sp.U32(b, o+1)
	case 2:
		return t.secs == sp.U64(b, o+1)
	case 3:
		return t.secs == sp.U32(b, o+1) && t.nsecs == sp.U32(b, o+5)
	case 4:
		return t.secs == sp.U64(b, o+1) && t.nsecs == sp.U32(b, o+9)
	}
	return zz.Forall(0, 14, func(i int) bool {
		if i < len(t.local) {
			return t.local[i] == b[o+1+i]
		}
		return b[o+1+i] == 0
	})
}

//zz:contract (*timestamp.Timestamp).Put modular
func ZC_Put(t *Timestamp) {
	old := *t
	zz.Modifies()
	b := t.Put()
	zz.Ensures("C10 an encoded timestamp has 16 bytes", func() bool { return len(b) == 16 })
	zz.Ensures("C10,C03,C04 the encoding is the type, then seconds and nanoseconds big endian, then zeros", func() bool {
		return Zs_Bytes(old, b, 0)
	})
}

//zz:contract (*timestamp.Timestamp).Get modular
func ZC_Get(t *Timestamp, b []byte) {
	zz.Modifies(t)
	err := t.Get(b)
	zz.Ensures("C08,C10 accepted only when the type is known and all its bytes are there", func() bool {
		if len(b) == 0 {
			return err != nil
		}
		switch b[0] {
		case 0:
			return (err == nil) == (len(b) >= 15)
		case 1, 5:
			return (err == nil) == (len(b) >= 5)
		case 2, 3:
			return (err == nil) == (len(b) >= 9)
		case 4:
			return (err == nil) == (len(b) >= 13)
		}
		return err != nil
	})
	zz.Ensures("C10 the decoded timestamp is valid and is the one of the encoding", func() bool {
		return err != nil || Zs_From(*t, b, 0)
	})
}

func ZG_Get(r *zz.R) (t *Timestamp, b []byte) {
	t = new(Timestamp)
	b = r.Bytes(r.Intn(18))
	if len(b) > 0 {
		b[0] = byte(r.Intn(8))
	}
	if len(b) > 4 {
		for i := len(b) - r.Intn(5); i < len(b); i++ {
			b[i] = 0
		}
	}
	return
}

// encoding then decoding gives the timestamp back
func ZL_RoundTrip(t Timestamp, u *Timestamp) {
	zz.Requires(Zs_Valid(t))
	b := t.Put()
	err := u.Get(b)
	zz.Ensures("C10,C03,C04 an encoded timestamp decodes", func() bool { return err == nil })
	zz.Ensures("C10,C03,C04 the decoded timestamp is the one encoded", func() bool { return err != nil || Zs_Same(*u, t) })
}

func Zg_Timestamp(r *zz.R) (t Timestamp) {
	names := []string{"localinterp", "posix32", "posix64", "posix32_32", "posix64_32", "epoch2000_32"}
	k := r.Intn(6)
	t.header = uint8(k)
	t.ttype = names[k]
	switch k {
	case 0:
		t.local = r.Str()
		if len(t.local) > 14 {
			t.local = t.local[:14]
		}
	case 1, 5:
		t.secs = r.U64() & 0xffffffff
	case 2:
		t.secs = r.U64()
	case 3:
		t.secs = r.U64() & 0xffffffff
		t.nsecs = uint64(r.Intn(1000000000))
	case 4:
		t.secs = r.U64()
		t.nsecs = uint64(r.Intn(1000000000))
	}
	return
}

func ZG_RoundTrip(r *zz.R) (t Timestamp, u *Timestamp) {
	t = Zg_Timestamp(r)
	w := Zg_Timestamp(r)
	return t, &w
}

//zz:contract (*timestamp.Timestamp).New modular
func ZC_New(t *Timestamp, flag string, ts time.Time) {
	name := strings.Replace(flag, " ", "", -1) // spaces do not count
	zz.Modifies(t)
	s, n := ts.Unix(), ts.Nanosecond()
	err := t.New(flag, ts)
	zz.Ensures("C10 made exactly for a known type that can represent the time", func() bool {
		switch name {
		case "posix32", "posix32_32":
			return (err == nil) == (s >= 0 && s <= 0xffffffff)
		case "epoch2000_32":
			return (err == nil) == (s-zsEpoch2k >= 0 && s-zsEpoch2k <= 0xffffffff)
		case "posix64", "posix64_32", "localinterp":
			return err == nil
		}
		return err != nil
	})
	zz.Ensures("C10 the timestamp carries the time it was made from", func() bool {
		if err != nil {
			return true
		}
		switch name {
		case "posix32":
			return t.header == 1 && t.secs == uint64(s) && t.nsecs == 0 && t.local == ""
		case "posix64":
			return t.header == 2 && t.secs == uint64(s) && t.nsecs == 0 && t.local == ""
		case "posix32_32":
			return t.header == 3 && t.secs == uint64(s) && t.nsecs == uint64(n) && t.local == ""
		case "posix64_32":
			return t.header == 4 && t.secs == uint64(s) && t.nsecs == uint64(n) && t.local == ""
		case "epoch2000_32":
			return t.header == 5 && t.secs == uint64(s-zsEpoch2k) && t.nsecs == 0 && t.local == ""
		}
		return t.header == 0
	})
	zz.Ensures("C10 a timestamp that was made is valid", func() bool { return err != nil || Zs_Valid(*t) })
}

func ZG_New(r *zz.R) (t *Timestamp, flag string, ts time.Time) {
	w := Zg_Timestamp(r)
	t = &w
	flag = r.Pick("localinterp", "posix32", "posix64", "posix32_32", "posix64_32", "epoch2000_32", r.Str(), "posix 32")
	var s int64
	switch r.Intn(6) {
	case 0:
		s = int64(r.U64()) >> 8
	case 1:
		s = -r.Int63n(1 << 33)
	case 2:
		s = zsEpoch2k + r.Int63n(3) - 1
	case 3:
		s = 0xffffffff + r.Int63n(3) - 1
	default:
		s = r.Int63n(1 << 33)
	}
	ts = time.Unix(s, r.Int63n(1000000000))
	return
}

//zz:contract (*timestamp.Timestamp).Secs
func ZC_Secs(t *Timestamp) {
	o := *t
	zz.Modifies()
	s := t.Secs()
	zz.Ensures("C10,C07 the seconds of a timestamp are its own", func() bool { return s == o.secs })
}

func ZG_Secs(r *zz.R) *Timestamp {
	t := Zg_Timestamp(r)
	return &t
}

// Zs_Type: the number of the type of a timestamp
func Zs_Type(t Timestamp) uint8 { return t.header }
