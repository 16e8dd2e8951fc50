package sarwin

import (
	"net"

	"github.com/charlesetsmith/saratoga/fileio"
	"github.com/charlesetsmith/saratoga/sarflags"
	zz "github.com/charlesetsmith/saratoga/zzverif"
	"github.com/jroimartin/gocui"
)

// zs_dup: the table has a transfer of this file with this peer
func zs_dup(ts []Transfer, fname string, peer string) bool {
	return zz.Exists(0, len(ts), func(i int) bool { return ts[i].Filename == fname && ts[i].Peer.String() == peer })
}

//zz:contract sarwin.NewInitiator
func ZC_NewInitiator(ttype string, peer *net.UDPAddr, fname string, c *sarflags.Cliflags, before []Transfer, session uint32, other string) {
	zz.Requires(sarflags.Cliflag != nil && len(c.Global) > 0)
	zz.RequiresF(func() bool { return zs_table(before) })
	Transfers = before
	sessionid = session
	o := append([]Transfer(nil), before...)
	n := len(o)
	p := fileio.Zs_Path(fname)
	there := fileio.Zs_There(p)
	who := peer.String()
	was, ver := zz.FileExists(p), zz.FileVersion(p)
	owas, over := zz.FileExists(other), zz.FileVersion(other)
	zz.Modifies(&Transfers, &sessionid)
	faults := zz.Faults()
	t, err := NewInitiator(new(gocui.Gui), ttype, peer, fname, c)
	zz.Ensures("C17 a transfer is added or an error returned", func() bool {
		return (err == nil) == (t != nil) && zz.Implies(err == nil, len(Transfers) == n+1) && zz.Implies(err != nil, len(Transfers) == n)
	})
	zz.Ensures("C17 the transfers there were stay as they are", func() bool {
		return len(Transfers) >= n && zz.Forall(0, n, func(i int) bool { return zs_eq(Transfers[i], o[i]) })
	})
	zz.Ensures("C17 the transfer added is of this type, file and peer and has a connection", func() bool {
		if err != nil || len(Transfers) != n+1 {
			return true
		}
		a := Transfers[n]
		return a.Direction == Initiator && a.Ttype == ttype && a.Filename == fname && a.Peer != nil && a.Peer.String() == who && a.Conn != nil && a.Conn.RemoteAddr().String() == who &&
			a.Tstamptype == c.Timestamp && a.Cliflags != nil && a.Cliflags != c && !a.Havemeta && len(a.Data) == 0 && len(a.Curfills) == 0 &&
			a.Progress == 0 && a.Inrespto == 0 && a.Dcount == 0
	})
	zz.Ensures("C17 the transfer added has the next session number", func() bool {
		if err != nil || len(Transfers) != n+1 {
			return true
		}
		return Transfers[n].Session == sessionid && (session == 0 || sessionid == session+1)
	})
	zz.Ensures("C17 the transfer returned is the one added", func() bool {
		return err != nil || len(Transfers) != n+1 || zs_eq(*t, Transfers[n])
	})
	zz.Ensures("C17 a second transfer of a file with the same peer is refused", func() bool {
		return !zs_dup(o, fname, who) || err != nil
	})
	zz.Ensures("C17 a transfer that is not there and whose file can be opened is added, unless the network or the file system fails", func() bool {
		if zs_dup(o, fname, who) || err == nil || zz.Faulty(faults, err) {
			return true
		}
		switch ttype {
		case "get", "take", "getdir":
			return was
		case "put", "putblind", "give":
			return !there
		}
		return ttype != "delete"
	})
	zz.Ensures("C14,C17 getting or taking a file that exists is refused and leaves it as it is", func() bool {
		return zz.Implies(there && (ttype == "get" || ttype == "take" || ttype == "getdir"),
			err != nil && zz.FileExists(p) == was && zz.FileVersion(p) == ver)
	})
	zz.Ensures("C14,C17 putting or giving needs the file and does not change it", func() bool {
		return zz.Implies(ttype == "put" || ttype == "putblind" || ttype == "give",
			zz.Implies(!there, err != nil) && zz.FileExists(p) == was && zz.FileVersion(p) == ver)
	})
	zz.Ensures("C13 every path a new transfer uses is inside the Saratoga directory", func() bool { return fileio.Zs_Inside() })
	zz.Ensures("C13,C14 a new transfer changes no other file", func() bool {
		return zz.Implies(!zz.SameFile(other, p), zz.FileExists(other) == owas && zz.FileVersion(other) == over)
	})
	zz.Ensures("C17 the table and the session counter are left unlocked", func() bool { return zz.Unlocked(&Trmu) && zz.Unlocked(&smu) })
}

func ZG_NewInitiator(r *zz.R) (string, *net.UDPAddr, string, *sarflags.Cliflags, []Transfer, uint32, string) {
	f, o := fileio.Zg_Files(r)
	ts := zg_table(r)
	a := zg_addr(r)
	if len(ts) > 0 && r.Intn(3) == 0 {
		f = ts[r.Intn(len(ts))].Filename
	}
	s := uint32(r.Intn(4))
	if r.Intn(4) == 0 {
		s = uint32(r.U64())
	}
	return r.Pick("get", "take", "getdir", "put", "putblind", "give", "delete", "get", "put", "bogus"), a, f, sarflags.Cliflag, ts, s, o
}
