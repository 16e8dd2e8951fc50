package beacon

import (
	"os"

	"github.com/charlesetsmith/saratoga/sarflags"
	sp "github.com/charlesetsmith/saratoga/zzspec"
	zz "github.com/charlesetsmith/saratoga/zzverif"
)

// zs_eid: where the eid starts
func zs_eid(h uint32) int {
	if sp.Freespace(h) {
		return 4 + sp.Width(sp.Freespaced(h))
	}
	return 4
}

//zz:contract (beacon.Beacon).Encode modular
func ZC_Encode(b Beacon) {
	zz.Modifies()
	f, err := b.Encode()
	zz.Ensures("C05 encoded exactly when the free space fits its descriptor", func() bool {
		return (err == nil) == (!sp.Freespace(b.Header) || sp.Fits(sp.Freespaced(b.Header), b.Freespace))
	})
	zz.Ensures("C05 layout: header, free space if advertised, eid and nothing else", func() bool {
		return err != nil || zs_layout(b, f)
	})
}

// zs_layout: f is the frame of b
func zs_layout(b Beacon, f []byte) bool {
	p := zs_eid(b.Header)
	return len(f) == p+len(b.Eid) && uint32(sp.U32(f, 0)) == b.Header &&
		(!sp.Freespace(b.Header) || sp.Num(f, 4, sp.Freespaced(b.Header)) == b.Freespace) &&
		zz.Forall(0, len(b.Eid), func(i int) bool { return f[p+i] == b.Eid[i] })
}

func zg_Beacon(r *zz.R) Beacon {
	b := Beacon{Header: uint32(r.U64()), Freespace: r.U64(), Eid: r.Str()}
	if r.Intn(2) == 0 {
		b.Header = sp.With(b.Header, 17, 1, uint32(r.Intn(2)))
		k := uint32(r.Intn(3))
		b.Header = sp.With(b.Header, 18, 2, k)
		if k < 2 && r.Intn(4) > 0 {
			b.Freespace &= uint64(1)<<(16<<k) - 1
		}
	}
	return b
}

func ZG_Encode(r *zz.R) Beacon { return zg_Beacon(r) }

// Zs_Accepted: the frame has all the fields of a beacon
func Zs_Accepted(frame []byte) bool {
	if len(frame) < 4 {
		return false
	}
	h := uint32(sp.U32(frame, 0))
	if sp.Freespace(h) && sp.Freespaced(h) == 3 {
		return false
	}
	return len(frame) >= zs_eid(h)
}

// Zs_Decoded: b has the fields of an accepted frame
func Zs_Decoded(b Beacon, frame []byte) bool {
	h := uint32(sp.U32(frame, 0))
	p := zs_eid(h)
	if b.Header != h || len(b.Eid) != len(frame)-p {
		return false
	}
	if sp.Freespace(h) {
		if b.Freespace != sp.Num(frame, 4, sp.Freespaced(h)) {
			return false
		}
	} else if b.Freespace != 0 {
		return false
	}
	return zz.Forall(0, len(frame)-p, func(i int) bool { return b.Eid[i] == frame[p+i] })
}

//zz:contract (*beacon.Beacon).Decode modular
func ZC_Decode(b *Beacon, frame []byte) {
	zz.Modifies(b)
	err := b.Decode(frame)
	zz.Ensures("C05,C08 a beacon with all its fields is accepted, a truncated one refused", func() bool {
		return (err == nil) == Zs_Accepted(frame)
	})
	zz.Ensures("C05,C08 decoded fields are those of the frame", func() bool {
		if err != nil {
			return true
		}
		return Zs_Decoded(*b, frame)
	})
}

func ZG_Decode(r *zz.R) (b *Beacon, frame []byte) {
	x := zg_Beacon(r)
	b = &x
	if r.Intn(3) == 0 {
		frame = r.Bytes(r.Intn(40))
	} else {
		frame, _ = zg_Beacon(r).Encode()
		if len(frame) > 0 && r.Intn(2) == 0 {
			frame = frame[:r.Intn(len(frame)+1)]
		}
	}
	return
}

// what is sent is what is received
func ZL_RoundTrip(b Beacon, e *Beacon) {
	zz.Split(sp.Freespace(b.Header))
	zz.Split(sp.Freespaced(b.Header) == 0)
	zz.Split(sp.Freespaced(b.Header) == 1)
	zz.Split(sp.Freespaced(b.Header) == 2)
	f, err := b.Encode()
	if err != nil {
		return
	}
	err2 := e.Decode(f)
	zz.Ensures("C05 every encoded beacon decodes", func() bool { return err2 == nil })
	zz.Ensures("C05 the decoded beacon is the one encoded", func() bool {
		return err2 != nil || e.Header == b.Header && (!sp.Freespace(b.Header) || e.Freespace == b.Freespace) &&
			len(e.Eid) == len(b.Eid) && zz.Forall(0, len(b.Eid), func(i int) bool { return e.Eid[i] == b.Eid[i] })
	})
}

func ZG_RoundTrip(r *zz.R) (b Beacon, e *Beacon) {
	x := zg_Beacon(r)
	return zg_Beacon(r), &x
}

// zs_good: a flag a beacon can be made with
func zs_good(f string) bool {
	n, v := sarflags.Zs_Name(f), sarflags.Zs_Val(f)
	switch n {
	case "descriptor", "stream", "txwilling", "rxwilling", "udplite", "freespace":
		return sarflags.Zs_Pair(f) && sarflags.Zs_Valid(n, v)
	case "freespaced":
		return sarflags.Zs_Pair(f) && (v == "d16" || v == "d32" || v == "d64")
	}
	return false
}

// zs_typed: header h with version 1 and frame type beacon
func zs_typed(h uint32) uint32 { return sp.With(sp.With(h, 0, 3, 1), 3, 5, 0) }

// zs_header: header h for a beacon with the first n flags
func zs_header(h uint32, flags string, n int) uint32 {
	return zz.Fold32(n, zs_typed(h), func(acc uint32, i int) uint32 {
		f := sarflags.Zs_Flags(flags)[i]
		if sarflags.Zs_Name(f) == "freespaced" {
			acc = sarflags.Zs_Set(acc, "freespace", "yes")
		}
		return sarflags.Zs_Set(acc, sarflags.Zs_Name(f), sarflags.Zs_Val(f))
	})
}

// zs_told: b has the free space its header h (before) promises
func zs_told(b *Beacon, h uint32, i *Binfo) bool {
	if b.Eid != i.Eid {
		return false
	}
	if !sp.Freespace(h) {
		return b.Header == h && b.Freespace == 0
	}
	if !sp.Freespace(b.Header) { // the free space could not be found out
		return i.Freespace == 0 && b.Freespace == 0 && b.Header == sp.With(h, 17, 1, 0)
	}
	d := sp.Freespaced(b.Header)
	return b.Header == sp.With(h, 18, 2, d) && sp.Fits(d, b.Freespace) && (i.Freespace == 0 || b.Freespace == i.Freespace)
}

//zz:contract (*beacon.Beacon).New modular
func ZC_New(b *Beacon, flags string, info *Binfo) {
	h := b.Header
	_, nowhere := os.Getwd()
	zz.Modifies(b)
	err := b.New(flags, info)
	zz.Ensures("C11 a beacon can be made with any flags it can have, while the working directory is there", func() bool {
		return err == nil || nowhere != nil || !Zs_Good(flags) || info.Freespace == 1<<64-1
	})
	zz.Ensures("C11 a beacon is made only with flags it can have", func() bool {
		fs := sarflags.Zs_Flags(flags)
		return err != nil || zz.Forall(0, len(fs), func(i int) bool { return zs_good(fs[i]) })
	})
	zz.Ensures("C11,C12 a new beacon has the given header with version 1, frame type beacon and the flags set in order, the identifier and the free space, with a descriptor it fits", func() bool {
		return err != nil || zs_told(b, zs_header(h, flags, len(sarflags.Zs_Flags(flags))), info)
	})
}

func ZI_New(b *Beacon, flags string, info *Binfo, k int) uint32 { return zs_header(b.Header, flags, k) }

func zg_info(r *zz.R) *Binfo {
	i := &Binfo{Freespace: r.U64(), Eid: r.Str()}
	if r.Intn(3) == 0 {
		i.Freespace = 0
	}
	return i
}

func ZG_New(r *zz.R) (b *Beacon, flags string, info *Binfo) {
	x := zg_Beacon(r)
	return &x, sarflags.Zg_Flags(r, "descriptor", "stream", "txwilling", "rxwilling", "udplite", "freespace", "freespaced"), zg_info(r)
}

//zz:contract (*beacon.Beacon).Make
func ZC_Make(b *Beacon, header uint32, info *Binfo) {
	zz.Modifies(b)
	err := b.Make(header, info)
	zz.Ensures("C11,C12 a made beacon has the given header with version 1 and frame type beacon, the identifier and the free space, with a descriptor it fits", func() bool {
		return err != nil || zs_told(b, zs_typed(header), info)
	})
}

func ZG_Make(r *zz.R) (b *Beacon, header uint32, info *Binfo) {
	x := zg_Beacon(r)
	return &x, uint32(r.U64()), zg_info(r)
}
