package data

import (
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/timestamp"
	sp "github.com/charlesetsmith/saratoga/zzspec"
	zz "github.com/charlesetsmith/saratoga/zzverif"
)

// zs_pos: where the offset starts
func zs_pos(h uint32) int {
	if sp.HasTs(h) {
		return 24
	}
	return 8
}

//zz:contract (*data.Data).Encode modular
func ZC_Encode(d *Data) {
	o := *d
	desc := sp.Descriptor(o.Header)
	zz.Modifies()
	f, err := d.Encode()
	zz.Ensures("C03 encoded exactly when the offset fits the descriptor", func() bool {
		return (err == nil) == sp.Fits(desc, o.Offset)
	})
	zz.Ensures("C03 layout: header, session, timestamp, offset, payload and nothing else", func() bool {
		return err != nil || zs_layout(o, f)
	})
}

// zs_layout: f is the frame of o
func zs_layout(o Data, f []byte) bool {
	desc := sp.Descriptor(o.Header)
	p := zs_pos(o.Header)
	w := sp.Width(desc)
	return len(f) == p+w+len(o.Payload) &&
		uint32(sp.U32(f, 0)) == o.Header &&
		uint32(sp.U32(f, 4)) == o.Session &&
		sp.Num(f, p, desc) == o.Offset &&
		(!sp.HasTs(o.Header) || timestamp.Zs_Bytes(o.Tstamp, f, 8)) &&
		zz.Forall(0, len(o.Payload), func(i int) bool { return f[p+w+i] == o.Payload[i] })
}

func zg_Data(r *zz.R) *Data {
	d := &Data{Header: uint32(r.U64()), Session: uint32(r.U64()), Offset: r.U64(), Tstamp: timestamp.Zg_Timestamp(r), Payload: r.Bytes(r.Len())}
	if r.Intn(2) == 0 {
		d.Header = sp.With(d.Header, 8, 2, uint32(r.Intn(3)))
	}
	return d
}

func ZG_Encode(r *zz.R) *Data { return zg_Data(r) }

// Zs_Accepted: the frame has all the fields of a data frame
func Zs_Accepted(frame []byte) bool {
	if len(frame) < 10 {
		return false
	}
	h := uint32(sp.U32(frame, 0))
	desc := sp.Descriptor(h)
	ok := desc != 3 && len(frame) >= zs_pos(h)+sp.Width(desc)
	if sp.HasTs(h) {
		return ok && frame[8] <= 5
	}
	return ok
}

// Zs_Decoded: d has the fields of an accepted frame
func Zs_Decoded(d Data, frame []byte) bool {
	h := uint32(sp.U32(frame, 0))
	desc := sp.Descriptor(h)
	p := zs_pos(h)
	w := sp.Width(desc)
	return d.Header == h && d.Session == uint32(sp.U32(frame, 4)) && desc != 3 &&
		len(frame) >= p+w && d.Offset == sp.Num(frame, p, desc) &&
		len(d.Payload) == len(frame)-p-w && (!sp.HasTs(h) || timestamp.Zs_From(d.Tstamp, frame, 8)) &&
		zz.Forall(0, len(d.Payload), func(i int) bool { return d.Payload[i] == frame[p+w+i] })
}

//zz:contract (*data.Data).Decode modular
func ZC_Decode(d *Data, frame []byte) {
	zz.Modifies(d)
	err := d.Decode(frame)
	zz.Ensures("C03,C08 decoded fields are those of the frame", func() bool {
		if err != nil {
			return true
		}
		return Zs_Decoded(*d, frame)
	})
	zz.Ensures("C03,C08 a frame with all its fields is accepted, a truncated one refused", func() bool {
		return (err == nil) == Zs_Accepted(frame)
	})
	zz.Ensures("C03 the decoded payload shares no memory with the frame buffer", func() bool {
		if err != nil || len(d.Payload) == 0 {
			return true
		}
		return !zz.Shares(d.Payload, frame)
	})
}

func ZG_Decode(r *zz.R) (d *Data, frame []byte) {
	d = new(Data)
	switch r.Intn(3) {
	case 0:
		frame = r.Bytes(r.Intn(60))
	default:
		frame, _ = zg_Data(r).Encode()
		if len(frame) > 0 && r.Intn(2) == 0 {
			frame = frame[:r.Intn(len(frame)+1)]
		}
	}
	return
}

// what is sent is what is received
func ZL_RoundTrip(d Data, e *Data) {
	zz.Requires(timestamp.Zs_Valid(d.Tstamp))
	zz.Split(sp.HasTs(d.Header))
	zz.Split(sp.Descriptor(d.Header) == 0)
	zz.Split(sp.Descriptor(d.Header) == 1)
	zz.Split(sp.Descriptor(d.Header) == 2)
	f, err := d.Encode()
	if err != nil {
		return
	}
	err2 := e.Decode(f)
	zz.Ensures("C03 every encoded data frame decodes", func() bool { return err2 == nil })
	zz.Ensures("C03 the decoded data frame is the one encoded", func() bool {
		return err2 != nil || e.Header == d.Header && e.Session == d.Session && e.Offset == d.Offset &&
			(!sp.HasTs(d.Header) || timestamp.Zs_Same(e.Tstamp, d.Tstamp)) &&
			len(e.Payload) == len(d.Payload) &&
			zz.Forall(0, len(d.Payload), func(i int) bool { return e.Payload[i] == d.Payload[i] })
	})
}

func ZG_RoundTrip(r *zz.R) (d Data, e *Data) { return *zg_Data(r), zg_Data(r) }

// zs_value: the value a flag is set to
func zs_value(f string) string {
	if sarflags.Zs_Name(f) == "reqtstamp" && sarflags.Zs_Val(f) != "no" {
		return "yes"
	}
	return sarflags.Zs_Val(f)
}

// zs_good: a flag a data frame can be made with
func zs_good(f string) bool {
	n, v := sarflags.Zs_Name(f), sarflags.Zs_Val(f)
	switch n {
	case "version", "descriptor", "reqstatus", "eod":
		return sarflags.Zs_Pair(f) && sarflags.Zs_Valid(n, v)
	case "transfer":
		return sarflags.Zs_Pair(f) && sarflags.Zs_Valid(n, v) && v != "bundle"
	case "reqtstamp":
		return sarflags.Zs_Pair(f) && (v == "no" || v == "yes" || sarflags.GoodT(v))
	}
	return false
}

// zs_typed: header h with version 1 and frame type data
func zs_typed(h uint32) uint32 { return sp.With(sp.With(h, 0, 3, 1), 3, 5, 3) }

// zs_header: header h for a data frame with the first n flags
func zs_header(h uint32, flags string, n int) uint32 {
	return zz.Fold32(n, zs_typed(h), func(acc uint32, i int) uint32 {
		f := sarflags.Zs_Flags(flags)[i]
		return sarflags.Zs_Set(acc, sarflags.Zs_Name(f), zs_value(f))
	})
}

// zs_tstamp: the type of the timestamp after the first n flags
func zs_tstamp(t int, flags string, n int) int {
	return zz.FoldInt(n, t, func(acc int, i int) int {
		f := sarflags.Zs_Flags(flags)[i]
		if sarflags.Zs_Name(f) != "reqtstamp" {
			return acc
		}
		switch sarflags.Zs_Val(f) {
		case "localinterp":
			return 0
		case "posix32", "yes":
			return 1
		case "posix64":
			return 2
		case "posix32_32":
			return 3
		case "posix64_32":
			return 4
		case "epoch2000_32":
			return 5
		}
		return acc
	})
}

func zs_carries(d *Data, i *Dinfo) bool {
	return d.Session == i.Session && d.Offset == i.Offset && len(d.Payload) == len(i.Payload) &&
		zz.Forall(0, len(i.Payload), func(j int) bool { return d.Payload[j] == i.Payload[j] })
}

//zz:contract (*data.Data).New
func ZC_New(d *Data, flags string, info *Dinfo) {
	h := d.Header
	t := int(timestamp.Zs_Type(d.Tstamp))
	zz.Modifies(d)
	err := d.New(flags, info)
	zz.Ensures("C11 a data frame is made exactly when every flag is one it can have", func() bool {
		fs := sarflags.Zs_Flags(flags)
		return (err == nil) == zz.Forall(0, len(fs), func(i int) bool { return zs_good(fs[i]) })
	})
	zz.Ensures("C11 the header of a new data frame is the given one with version 1, frame type data and the flags set in order", func() bool {
		return err != nil || d.Header == zs_header(h, flags, len(sarflags.Zs_Flags(flags)))
	})
	zz.Ensures("C11 a new data frame has a timestamp of the type asked for", func() bool {
		return err != nil || int(timestamp.Zs_Type(d.Tstamp)) == zs_tstamp(t, flags, len(sarflags.Zs_Flags(flags)))
	})
	zz.Ensures("C12 a new data frame carries the session, offset and payload given", func() bool {
		return err != nil || zs_carries(d, info)
	})
	zz.Ensures("C12 a new data frame does not share the caller's buffer", func() bool {
		return err != nil || !zz.Shares(d.Payload, info.Payload)
	})
}

func ZI_New(d *Data, flags string, info *Dinfo, k int) uint32 { return zs_header(d.Header, flags, k) }

func ZI_New_ts(d *Data, flags string, info *Dinfo, k int, t uint8) bool {
	return int(t) == zs_tstamp(zz.OldInt(func() int { return int(timestamp.Zs_Type(d.Tstamp)) }), flags, k)
}

func zg_info(r *zz.R) *Dinfo {
	return &Dinfo{Session: uint32(r.U64()), Offset: r.U64(), Payload: r.Bytes(r.Len())}
}

func ZG_New(r *zz.R) (d *Data, flags string, info *Dinfo) {
	return zg_Data(r), sarflags.Zg_Flags(r, "version", "descriptor", "reqstatus", "eod", "transfer", "reqtstamp"), zg_info(r)
}

//zz:contract (*data.Data).Make
func ZC_Make(d *Data, header uint32, info *Dinfo) {
	zz.Modifies(d)
	err := d.Make(header, info)
	zz.Ensures("C11 a data frame is made of any header, with version 1 and frame type data", func() bool {
		return err == nil && d.Header == zs_typed(header)
	})
	zz.Ensures("C11 a data frame made of a header that asks for a timestamp has one", func() bool {
		return err != nil || !sp.HasTs(header) || timestamp.Zs_Type(d.Tstamp) == 1
	})
	zz.Ensures("C12 a made data frame carries the session, offset and payload given", func() bool {
		return err != nil || zs_carries(d, info)
	})
	zz.Ensures("C12 a made data frame does not share the caller's buffer", func() bool {
		return err != nil || !zz.Shares(d.Payload, info.Payload)
	})
}

func ZG_Make(r *zz.R) (d *Data, header uint32, info *Dinfo) {
	return zg_Data(r), uint32(r.U64()), zg_info(r)
}
