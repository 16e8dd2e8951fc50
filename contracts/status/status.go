package status

import (
	"github.com/charlesetsmith/saratoga/holes"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/timestamp"
	sp "github.com/charlesetsmith/saratoga/zzspec"
	zz "github.com/charlesetsmith/saratoga/zzverif"
)

// zs_pos: where progress starts
func zs_pos(h uint32) int {
	if sp.HasTs(h) {
		return 24
	}
	return 8
}

// zs_fits: all numbers of the status fit its descriptor
func zs_fits(s Status) bool {
	d := sp.Descriptor(s.Header)
	return sp.Fits(d, s.Progress) && sp.Fits(d, s.Inrespto) &&
		zz.Forall(0, len(s.Holes), func(i int) bool {
			return sp.Fits(d, uint64(s.Holes[i].Start)) && sp.Fits(d, uint64(s.Holes[i].End))
		})
}

// zs_holes: the hole list h is encoded in f at position p
func zs_holes(f []byte, p int, d uint32, h holes.Holes) bool {
	switch d {
	case 0:
		return zs_holesof(f, p, 0, 2, h)
	case 1:
		return zs_holesof(f, p, 1, 4, h)
	}
	return zs_holesof(f, p, 2, 8, h)
}

// zs_holesof: with numbers of w bytes
func zs_holesof(f []byte, p int, d uint32, w int, h holes.Holes) bool {
	return zz.Forall(0, len(h), func(i int) bool {
		return sp.Num(f, p+2*w*i, d) == uint64(h[i].Start) && sp.Num(f, p+2*w*i+w, d) == uint64(h[i].End)
	})
}

//zz:contract (status.Status).Encode modular
func ZC_Encode(s Status) {
	d := sp.Descriptor(s.Header)
	zz.Modifies()
	f, err := s.Encode()
	zz.Ensures("C04 encoded exactly when every number fits the descriptor", func() bool {
		return (err == nil) == zs_fits(s)
	})
	zz.Ensures("C04 layout: header, session, timestamp, progress, inrespto, holes and nothing else", func() bool {
		return err != nil || zs_layout(s, f)
	})
	zz.Ensures("C04 the holes follow in order", func() bool {
		return err != nil || zs_holes(f, zs_pos(s.Header)+2*sp.Width(d), d, s.Holes)
	})
}

// zs_layout: f is the frame of s, but for the holes
func zs_layout(s Status, f []byte) bool {
	d := sp.Descriptor(s.Header)
	p := zs_pos(s.Header)
	w := sp.Width(d)
	return len(f) == p+2*w+2*w*len(s.Holes) &&
		uint32(sp.U32(f, 0)) == s.Header &&
		uint32(sp.U32(f, 4)) == s.Session &&
		sp.Num(f, p, d) == s.Progress && sp.Num(f, p+w, d) == s.Inrespto &&
		(!sp.HasTs(s.Header) || timestamp.Zs_Bytes(s.Tstamp, f, 8))
}

func zg_Status(r *zz.R) *Status {
	s := &Status{Header: uint32(r.U64()), Session: uint32(r.U64()), Tstamp: timestamp.Zg_Timestamp(r), Progress: r.U64(), Inrespto: r.U64()}
	if r.Intn(3) > 0 {
		k := uint32(r.Intn(3))
		s.Header = sp.With(s.Header, 8, 2, k)
		m := ^uint64(0)
		if k < 2 {
			m = uint64(1)<<(16<<k) - 1
		}
		if r.Intn(8) > 0 {
			s.Progress &= m
			s.Inrespto &= m
		}
		for i := r.Intn(6); i > 0; i-- {
			x, y := r.U64(), r.U64()
			if r.Intn(12) > 0 {
				x, y = x&m, y&m
			}
			s.Holes = append(s.Holes, holes.Hole{Start: int(x), End: int(y)})
		}
	}
	return s
}

func ZG_Encode(r *zz.R) Status { return *zg_Status(r) }

// Zs_Accepted: the frame has all the fields of a status frame
func Zs_Accepted(frame []byte) bool {
	if len(frame) < 12 {
		return false
	}
	h := uint32(sp.U32(frame, 0))
	d := sp.Descriptor(h)
	ok := d != 3 && len(frame) >= zs_pos(h)+2*sp.Width(d)
	if sp.HasTs(h) {
		return ok && frame[8] <= 5
	}
	return ok
}

func zs_fields(s Status, frame []byte) bool {
	h := uint32(sp.U32(frame, 0))
	d := sp.Descriptor(h)
	p := zs_pos(h)
	w := sp.Width(d)
	return s.Header == h && s.Session == uint32(sp.U32(frame, 4)) &&
		s.Progress == sp.Num(frame, p, d) && s.Inrespto == sp.Num(frame, p+w, d) &&
		(!sp.HasTs(h) || timestamp.Zs_From(s.Tstamp, frame, 8))
}

func zs_allholes(hs holes.Holes, frame []byte) bool {
	h := uint32(sp.U32(frame, 0))
	d := sp.Descriptor(h)
	p := zs_pos(h) + 2*sp.Width(d)
	switch d {
	case 0:
		return len(hs) == (len(frame)-p)/4 && zs_holes(frame, p, d, hs)
	case 1:
		return len(hs) == (len(frame)-p)/8 && zs_holes(frame, p, d, hs)
	}
	return len(hs) == (len(frame)-p)/16 && zs_holes(frame, p, d, hs)
}

// Zs_Decoded: s has the fields of an accepted frame
func Zs_Decoded(s Status, frame []byte) bool {
	return zs_fields(s, frame) && zs_allholes(s.Holes, frame)
}

//zz:contract (*status.Status).Decode modular
func ZC_Decode(s *Status, frame []byte) {
	zz.Modifies(s)
	err := s.Decode(frame)
	zz.Ensures("C04,C08 a frame with all its fields is accepted, a truncated one refused", func() bool {
		return (err == nil) == Zs_Accepted(frame)
	})
	zz.Ensures("C04,C08 decoded fields are those of the frame", func() bool {
		if err != nil {
			return true
		}
		return zs_fields(*s, frame)
	})
	zz.Ensures("C04,C08 decoded holes are those of the frame, all of them, in order", func() bool {
		if err != nil {
			return true
		}
		return zs_allholes(s.Holes, frame)
	})
}

func ZG_Decode(r *zz.R) (s *Status, frame []byte) {
	s = zg_Status(r)
	switch r.Intn(3) {
	case 0:
		frame = r.Bytes(r.Intn(60))
	default:
		frame, _ = zg_Status(r).Encode()
		if len(frame) > 0 && r.Intn(2) == 0 {
			frame = frame[:r.Intn(len(frame)+1)]
		}
	}
	return
}

// what is sent is what is received
func ZL_RoundTrip(s Status, e *Status) {
	zz.Requires(timestamp.Zs_Valid(s.Tstamp))
	zz.Split(sp.HasTs(s.Header))
	zz.Split(sp.Descriptor(s.Header) == 0)
	zz.Split(sp.Descriptor(s.Header) == 1)
	zz.Split(sp.Descriptor(s.Header) == 2)
	f, err := s.Encode()
	if err != nil {
		return
	}
	err2 := e.Decode(f)
	zz.Ensures("C04 every encoded status frame decodes", func() bool { return err2 == nil })
	zz.Ensures("C04 the decoded status frame is the one encoded", func() bool {
		return err2 != nil || e.Header == s.Header && e.Session == s.Session && e.Progress == s.Progress && e.Inrespto == s.Inrespto &&
			(!sp.HasTs(s.Header) || timestamp.Zs_Same(e.Tstamp, s.Tstamp)) &&
			len(e.Holes) == len(s.Holes) &&
			zz.Forall(0, len(s.Holes), func(i int) bool { return e.Holes[i] == s.Holes[i] })
	})
}

func ZG_RoundTrip(r *zz.R) (s Status, e *Status) { return *zg_Status(r), zg_Status(r) }

// zs_good: a flag a status frame can be made with
func zs_good(f string) bool {
	n, v := sarflags.Zs_Name(f), sarflags.Zs_Val(f)
	switch n {
	case "descriptor", "stream", "metadatarecvd", "allholes", "reqholes", "errcode", "reqtstamp":
		return sarflags.Zs_Pair(f) && sarflags.Zs_Valid(n, v)
	case "localinterp", "posix32", "posix64", "posix32_32", "posix64_32":
		return true
	}
	return false
}

// zs_typed: header h with version 1 and frame type status
func zs_typed(h uint32) uint32 { return sp.With(sp.With(h, 0, 3, 1), 3, 5, 4) }

// zs_header: header h for a status frame with the first n flags
func zs_header(h uint32, flags string, n int) uint32 {
	return zz.Fold32(n, zs_typed(h), func(acc uint32, i int) uint32 {
		f := sarflags.Zs_Flags(flags)[i]
		switch sarflags.Zs_Name(f) {
		case "localinterp", "posix32", "posix64", "posix32_32", "posix64_32":
			return sarflags.Zs_Set(acc, "reqtstamp", "yes")
		}
		return sarflags.Zs_Set(acc, sarflags.Zs_Name(f), sarflags.Zs_Val(f))
	})
}

// zs_tstamp: the type of the timestamp after the first n flags
func zs_tstamp(t int, flags string, n int) int {
	return zz.FoldInt(n, t, func(acc int, i int) int {
		f := sarflags.Zs_Flags(flags)[i]
		switch sarflags.Zs_Name(f) {
		case "localinterp":
			return 0
		case "posix32":
			return 1
		case "posix64":
			return 2
		case "posix32_32":
			return 3
		case "posix64_32":
			return 4
		case "reqtstamp":
			if sarflags.Zs_Val(f) == "yes" {
				return 1
			}
		}
		return acc
	})
}

func zs_carries(s *Status, i *Sinfo) bool {
	return s.Session == i.Session && s.Progress == i.Progress && s.Inrespto == i.Inrespto && len(s.Holes) == len(i.Holes) &&
		zz.Forall(0, len(i.Holes), func(j int) bool { return s.Holes[j] == i.Holes[j] })
}

//zz:contract (*status.Status).New modular
func ZC_New(s *Status, flags string, info *Sinfo) {
	h := s.Header
	t := int(timestamp.Zs_Type(s.Tstamp))
	zz.Modifies(s)
	err := s.New(flags, info)
	zz.Ensures("C11 a status frame is made exactly when every flag is one it can have", func() bool {
		fs := sarflags.Zs_Flags(flags)
		return (err == nil) == zz.Forall(0, len(fs), func(i int) bool { return zs_good(fs[i]) })
	})
	zz.Ensures("C11 the header of a new status frame is the given one with version 1, frame type status and the flags set in order", func() bool {
		return err != nil || s.Header == zs_header(h, flags, len(sarflags.Zs_Flags(flags)))
	})
	zz.Ensures("C11 a new status frame has a timestamp of the type asked for", func() bool {
		return err != nil || int(timestamp.Zs_Type(s.Tstamp)) == zs_tstamp(t, flags, len(sarflags.Zs_Flags(flags)))
	})
	zz.Ensures("C12 a new status frame carries the session, progress, in-response-to and holes given and no others", func() bool {
		return err != nil || zs_carries(s, info)
	})
}

func ZI_New(s *Status, flags string, info *Sinfo, k int) uint32 { return zs_header(s.Header, flags, k) }

func ZI_New_ts(s *Status, flags string, info *Sinfo, k int, t uint8) bool {
	return int(t) == zs_tstamp(zz.OldInt(func() int { return int(timestamp.Zs_Type(s.Tstamp)) }), flags, k)
}

func zg_info(r *zz.R) *Sinfo {
	i := &Sinfo{Session: uint32(r.U64()), Progress: r.U64(), Inrespto: r.U64()}
	for n := r.Intn(4); n > 0; n-- {
		i.Holes = append(i.Holes, holes.Hole{Start: r.Intn(1000), End: r.Intn(1000)})
	}
	return i
}

func ZG_New(r *zz.R) (s *Status, flags string, info *Sinfo) {
	return zg_Status(r), sarflags.Zg_Flags(r, "descriptor", "stream", "metadatarecvd", "allholes", "reqholes", "errcode", "reqtstamp", "posix32", "posix64", "posix32_32", "localinterp"), zg_info(r)
}

//zz:contract (*status.Status).Make modular
func ZC_Make(s *Status, header uint32, info *Sinfo) {
	zz.Modifies(s)
	err := s.Make(header, info)
	zz.Ensures("C11 a status frame is made of any header, with version 1 and frame type status", func() bool {
		return err == nil && s.Header == zs_typed(header)
	})
	zz.Ensures("C11 a status frame made of a header that asks for a timestamp has one", func() bool {
		return err != nil || !sp.HasTs(header) || timestamp.Zs_Type(s.Tstamp) == 1
	})
	zz.Ensures("C12 a made status frame carries the session, progress, in-response-to and holes given and no others", func() bool {
		return err != nil || zs_carries(s, info)
	})
}

func ZG_Make(r *zz.R) (s *Status, header uint32, info *Sinfo) {
	return zg_Status(r), uint32(r.U64()), zg_info(r)
}
