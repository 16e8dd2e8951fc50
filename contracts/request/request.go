package request

import (
	"github.com/charlesetsmith/saratoga/sarflags"
	sp "github.com/charlesetsmith/saratoga/zzspec"
	zz "github.com/charlesetsmith/saratoga/zzverif"
	"strings"
)

//zz:contract (*request.Request).Encode modular
func ZC_Encode(r *Request) {
	o := *r
	zz.Modifies()
	f, err := r.Encode()
	zz.Ensures("C06 a request is encoded exactly when its file name can be told from what follows it", func() bool {
		return (err == nil) == zz.Forall(0, len(o.Fname), func(i int) bool { return o.Fname[i] != 0 })
	})
	zz.Ensures("C06 layout: header, session, file name, NUL, authentication and nothing else", func() bool {
		return err != nil || zs_layout(o, f)
	})
}

// zs_layout: f is the frame of o
func zs_layout(o Request, f []byte) bool {
	n := len(o.Fname)
	return len(f) == 9+n+len(o.Auth) && uint32(sp.U32(f, 0)) == o.Header && uint32(sp.U32(f, 4)) == o.Session &&
		zz.Forall(0, n, func(i int) bool { return f[8+i] == o.Fname[i] }) && f[8+n] == 0 &&
		zz.Forall(0, len(o.Auth), func(i int) bool { return f[9+n+i] == o.Auth[i] })
}

func zg_Request(r *zz.R) *Request {
	q := &Request{Header: uint32(r.U64()), Session: uint32(r.U64()), Fname: r.Str()}
	if r.Intn(2) == 0 {
		q.Auth = r.Bytes(r.Len())
	}
	return q
}

func ZG_Encode(r *zz.R) *Request { return zg_Request(r) }

// zs_name: the file name in f, at position 8, has n bytes
func zs_name(f []byte, n int) bool {
	return n >= 0 && 8+n < len(f) && f[8+n] == 0 && zz.Forall(0, n, func(i int) bool { return f[8+i] != 0 })
}

func zs_fields(r Request, frame []byte) bool {
	n := len(r.Fname)
	return r.Header == uint32(sp.U32(frame, 0)) && r.Session == uint32(sp.U32(frame, 4)) &&
		zz.Forall(0, n, func(i int) bool { return r.Fname[i] == frame[8+i] }) &&
		len(r.Auth) == len(frame)-9-n &&
		zz.Forall(0, len(r.Auth), func(i int) bool { return r.Auth[i] == frame[9+n+i] })
}

// Zs_Refused: there is no terminated file name in the frame
func Zs_Refused(frame []byte) bool {
	return zz.Forall(8, len(frame), func(i int) bool { return frame[i] != 0 })
}

// Zs_Decoded: r has the fields of an accepted frame
func Zs_Decoded(r Request, frame []byte) bool {
	return zs_name(frame, len(r.Fname)) && zs_fields(r, frame)
}

//zz:contract (*request.Request).Decode modular
func ZC_Decode(r *Request, frame []byte) {
	zz.Modifies(r)
	err := r.Decode(frame)
	zz.Ensures("C06,C08 accepted only with a terminated file name", func() bool {
		return err != nil || zs_name(frame, len(r.Fname))
	})
	zz.Ensures("C06,C08 refused only when there is no terminated file name", func() bool {
		return err == nil || zz.Forall(8, len(frame), func(i int) bool { return frame[i] != 0 })
	})
	zz.Ensures("C06,C08 decoded fields are those of the frame", func() bool {
		if err != nil {
			return true
		}
		return zs_fields(*r, frame)
	})
	zz.Ensures("C06 the decoded authentication shares no memory with the frame buffer", func() bool {
		return err != nil || len(r.Auth) == 0 || !zz.Shares(r.Auth, frame)
	})
}

func ZG_Decode(r *zz.R) (q *Request, frame []byte) {
	q = zg_Request(r)
	if r.Intn(3) == 0 {
		frame = r.Bytes(r.Intn(40))
	} else {
		frame, _ = zg_Request(r).Encode()
		if len(frame) > 0 && r.Intn(2) == 0 {
			frame = frame[:r.Intn(len(frame)+1)]
		}
	}
	return
}

// what is sent is what is received
func ZL_RoundTrip(r Request, e *Request) {
	f, err := r.Encode()
	if err != nil {
		return
	}
	err2 := e.Decode(f)
	zz.Assert("C06 every encoded request decodes", err2 == nil)
	if err2 != nil {
		return
	}
	zz.Hint(len(r.Fname), len(e.Fname))
	zz.Ensures("C06 the decoded request is the one encoded", func() bool {
		return e.Header == r.Header && e.Session == r.Session &&
			len(e.Fname) == len(r.Fname) && zz.Forall(0, len(r.Fname), func(i int) bool { return e.Fname[i] == r.Fname[i] }) &&
			len(e.Auth) == len(r.Auth) && zz.Forall(0, len(r.Auth), func(i int) bool { return e.Auth[i] == r.Auth[i] })
	})
}

func ZG_RoundTrip(r *zz.R) (q Request, e *Request) { return *zg_Request(r), zg_Request(r) }

// zs_flags: the flags of a flag string; a comma at the end does not count
func zs_flags(flags string) []string {
	return strings.Split(strings.TrimRight(strings.Replace(flags, " ", "", -1), ","), ",")
}

// zs_good: a flag a request can be made with
func zs_good(f string) bool {
	n, v := sarflags.Zs_Name(f), sarflags.Zs_Val(f)
	switch n {
	case "frametype", "version", "descriptor", "stream", "txwilling", "rxwilling", "fileordir", "reqtype", "udplite":
		return sarflags.Zs_Pair(f) && sarflags.Zs_Valid(n, v)
	}
	return false
}

// zs_typed: header h with version 1 and frame type request
func zs_typed(h uint32) uint32 { return sp.With(sp.With(h, 0, 3, 1), 3, 5, 1) }

// zs_header: header h for a request with the first n flags
func zs_header(h uint32, flags string, n int) uint32 {
	return zz.Fold32(n, zs_typed(h), func(acc uint32, i int) uint32 {
		f := zs_flags(flags)[i]
		return sarflags.Zs_Set(acc, sarflags.Zs_Name(f), sarflags.Zs_Val(f))
	})
}

func zs_carries(r *Request, i *Rinfo) bool {
	return r.Session == i.Session && r.Fname == i.Fname && len(r.Auth) == len(i.Auth) &&
		zz.Forall(0, len(i.Auth), func(j int) bool { return r.Auth[j] == i.Auth[j] })
}

//zz:contract (*request.Request).New
func ZC_New(r *Request, flags string, info *Rinfo) {
	h := r.Header
	zz.Modifies(r)
	err := r.New(flags, info)
	zz.Ensures("C11 a request is made exactly when every flag is one it can have", func() bool {
		fs := zs_flags(flags)
		return (err == nil) == zz.Forall(0, len(fs), func(i int) bool { return zs_good(fs[i]) })
	})
	zz.Ensures("C11 the header of a new request is the given one with version 1, frame type request and the flags set in order", func() bool {
		return err != nil || r.Header == zs_header(h, flags, len(zs_flags(flags)))
	})
	zz.Ensures("C12 a new request carries the session, file name and authentication given", func() bool {
		return err != nil || zs_carries(r, info)
	})
	zz.Ensures("C12 a new request does not share the caller's buffer", func() bool {
		return err != nil || !zz.Shares(r.Auth, info.Auth)
	})
}

func ZI_New(r *Request, flags string, info *Rinfo, k int) uint32 {
	return zs_header(r.Header, flags, k)
}

func zg_info(r *zz.R) *Rinfo {
	return &Rinfo{Session: uint32(r.U64()), Fname: r.Str(), Auth: r.Bytes(r.Len())}
}

func ZG_New(r *zz.R) (q *Request, flags string, info *Rinfo) {
	flags = sarflags.Zg_Flags(r, "descriptor", "stream", "txwilling", "rxwilling", "reqtype", "udplite", "fileordir", "version")
	if r.Intn(4) == 0 {
		flags += ","
	}
	return zg_Request(r), flags, zg_info(r)
}

//zz:contract (*request.Request).Make
func ZC_Make(r *Request, header uint32, info *Rinfo) {
	zz.Modifies(r)
	err := r.Make(header, info)
	zz.Ensures("C11 a request is made of any header, with version 1 and frame type request", func() bool {
		return err == nil && r.Header == zs_typed(header)
	})
	zz.Ensures("C12 a made request carries the session, file name and authentication given", func() bool {
		return err != nil || zs_carries(r, info)
	})
	zz.Ensures("C12 a made request does not share the caller's buffer", func() bool {
		return err != nil || !zz.Shares(r.Auth, info.Auth)
	})
}

func ZG_Make(r *zz.R) (q *Request, header uint32, info *Rinfo) {
	return zg_Request(r), uint32(r.U64()), zg_info(r)
}
