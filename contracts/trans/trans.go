package trans

import (
	"net"

	"github.com/charlesetsmith/saratoga/fileio"
	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/status"
	sp "github.com/charlesetsmith/saratoga/zzspec"
	zz "github.com/charlesetsmith/saratoga/zzverif"
	"github.com/jroimartin/gocui"
)

// zs_answer: the error code a request of header h is answered with, there being a file of its name
// or not, and that file being gone afterwards or not
func zs_answer(h uint32, there, gone bool) uint32 {
	rx, tx := sp.Field(h, 14, 2), sp.Field(h, 12, 2)
	if sp.Version(h) != 1 || sp.Field(h, 16, 1) != 0 || sp.Field(h, 11, 1) != 0 {
		return 11 // badrequest
	}
	if rx == 1 {
		return 3 // cantreceive
	}
	if tx == 1 {
		return 2 // cantsend
	}
	switch sp.Field(h, 24, 8) {
	case 1, 3, 6: // get, take, getdir
		if rx != 3 {
			return 3
		}
		if !there {
			return 4 // filenotfound
		}
		return 0
	case 5: // delete
		if !there {
			return 4
		}
		if !gone {
			return 7 // didnotdelete
		}
		return 0
	case 2, 4: // put, give
		if tx != 3 {
			return 2
		}
		if there {
			return 15 // fileinuse
		}
		return 0
	}
	return 11
}

// zs_isdelete: a request that passes the checks before the file is looked at and asks for a delete
func zs_isdelete(h uint32) bool { return sp.Field(h, 24, 8) == 5 }

func zs_type(h uint32) string {
	switch sp.Field(h, 24, 8) {
	case 1:
		return "get"
	case 2:
		return "put"
	case 3:
		return "take"
	case 4:
		return "give"
	case 5:
		return "delete"
	case 6:
		return "getdir"
	}
	return ""
}

//zz:contract AddRxTran
func ZC_AddRxTran(r *request.Request, from *net.UDPAddr, before []Transfer, other string) {
	zz.Requires(sarflags.Cliflag != nil)
	g := new(gocui.Gui)
	tx := make(chan interface{}, 64)
	Transfers = before
	p := fileio.Zs_Path(r.Fname)
	there := fileio.Zs_There(p)
	was, ver := zz.FileExists(p), zz.FileVersion(p)
	owas, over := zz.FileExists(other), zz.FileVersion(other)
	zz.Modifies(&Transfers)
	ok := AddRxTran(g, r, from, tx)
	q := zz.Queue(tx)
	gone := was && !zz.FileExists(p)
	want := zs_answer(r.Header, there, gone)
	zz.Ensures("C15 every request is answered with exactly one status", func() bool {
		if len(q) != 1 {
			return false
		}
		_, is := q[0].(status.Packet)
		return is
	})
	zz.Ensures("C15 the answer is a status of the session of the request, to the sender of the request", func() bool {
		if len(q) != 1 {
			return false
		}
		a, is := q[0].(status.Packet)
		return is && a.Info.Session == r.Session && sp.Version(a.Info.Header) == 1 && sp.Frametype(a.Info.Header) == 4 &&
			len(a.Info.Holes) == 0 && a.Addr.Port == from.Port && a.Addr.Zone == from.Zone && a.Addr.IP.Equal(from.IP)
	})
	zz.Ensures("C15 the answer has the error code of the first check the request fails, or success", func() bool {
		if len(q) != 1 {
			return false
		}
		a, is := q[0].(status.Packet)
		return is && sp.Errcode(a.Info.Header) == want
	})
	zz.Ensures("C15 a request is reported as taken exactly when it is answered with success", func() bool { return ok == (want == 0) })
	zz.Ensures("C15 a file is removed only by a request to delete that is answered with success", func() bool {
		return zz.Implies(gone, zs_isdelete(r.Header) && ok) && zz.Implies(!gone, zz.FileExists(p) == was && zz.FileVersion(p) == ver)
	})
	zz.Ensures("C15 a request changes no other file", func() bool {
		return zz.Implies(!zz.SameFile(other, p), zz.FileExists(other) == owas && zz.FileVersion(other) == over)
	})
	zz.Ensures("C15 a transfer is added exactly when a request other than delete is answered with success", func() bool {
		if want == 0 && !zs_isdelete(r.Header) {
			return len(Transfers) == len(before)+1
		}
		return len(Transfers) == len(before)
	})
	zz.Ensures("C15 the transfer added has the sender, session, type and file name of the request", func() bool {
		if len(Transfers) != len(before)+1 {
			return true
		}
		t := Transfers[len(before)]
		return t.Session == r.Session && t.Ttype == zs_type(r.Header) && t.Filename == r.Fname &&
			t.Peer.Port == from.Port && t.Peer.Zone == from.Zone && t.Peer.IP.Equal(from.IP) && !t.Havemeta && len(t.Data) == 0 &&
			len(t.CurFills) == 0 && t.Progress == 0 && t.Inrespto == 0
	})
	zz.Ensures("C15 the transfers there were stay as they are", func() bool {
		return len(Transfers) >= len(before) && zz.Forall(0, len(before), func(i int) bool {
			return Transfers[i].Session == before[i].Session && Transfers[i].Ttype == before[i].Ttype && Transfers[i].Filename == before[i].Filename &&
				Transfers[i].Peer.Port == before[i].Peer.Port
		})
	})
	zz.Ensures("C15 the table of transfers is left unlocked", func() bool { return zz.Unlocked(&Trmu) })
}

func ZG_AddRxTran(r *zz.R) (*request.Request, *net.UDPAddr, []Transfer, string) {
	name, other := fileio.Zg_Files(r)
	h := uint32(r.U64())
	if r.Intn(4) != 0 {
		h = sp.With(h, 0, 3, 1)
		h = sp.With(h, 16, 1, 0)
		h = sp.With(h, 11, 1, 0)
		h = sp.With(h, 24, 8, uint32(r.Intn(8)))
		if r.Intn(3) != 0 {
			h = sp.With(h, 12, 2, 3)
			h = sp.With(h, 14, 2, 3)
		}
	}
	var ts []Transfer
	for n := r.Intn(4); n > 0; n-- {
		ts = append(ts, Transfer{Session: uint32(r.Intn(3)), Ttype: r.Pick("get", "put"), Filename: r.Pick("a", "b"), Peer: net.UDPAddr{IP: net.IPv4(10, 0, 0, byte(r.Intn(3))), Port: r.Intn(3)}})
	}
	return &request.Request{Header: h, Session: uint32(r.U64()), Fname: name, Auth: r.Bytes(r.Len())},
		&net.UDPAddr{IP: net.IPv4(10, 0, 0, byte(r.Intn(3))), Port: r.Intn(65536), Zone: r.Pick("", "eth0")}, ts, other
}
