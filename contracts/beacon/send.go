package beacon

import (
	"github.com/charlesetsmith/saratoga/sarflags"
	"net"

	sp "github.com/charlesetsmith/saratoga/zzspec"
	zz "github.com/charlesetsmith/saratoga/zzverif"
)

// zs_sent: one datagram, sent on this connection to this address, the frame of v
func zs_sent(all []zz.Datagram, conn *net.UDPConn, to *net.UDPAddr, v Beacon) bool {
	if len(all) != 1 {
		return false
	}
	d := all[0]
	if d.Conn != conn || (to == nil) != (d.To == nil) || to != nil && d.To.String() != to.String() {
		return false
	}
	return zs_layout(v, d.Data)
}

//zz:contract (beacon.Beacon).Send
func ZC_Send(v Beacon, conn *net.UDPConn) {
	zz.Requires(conn != nil)
	ok := !sp.Freespace(v.Header) || sp.Fits(sp.Freespaced(v.Header), v.Freespace)
	zz.Modifies()
	faults := zz.Faults()
	err := v.Send(conn)
	all := zz.Sent()
	zz.Ensures("C23 a frame that can be encoded is sent without error, unless the network fails", func() bool {
		return !ok || err == nil || zz.Faulty(faults, err)
	})
	zz.Ensures("C23 a frame that can not be encoded is not sent, which is an error", func() bool {
		return ok || err != nil && len(all) == 0
	})
	zz.Ensures("C23 a frame sent without error is one datagram with exactly its encoding, sent to the address given", func() bool {
		return err != nil || zs_sent(all, conn, nil, v)
	})
	zz.Ensures("C23 a failed send sends nothing else", func() bool {
		return err == nil || len(all) == 0 || zs_sent(all, conn, nil, v)
	})
}

func ZG_Send(r *zz.R) (Beacon, *net.UDPConn) {
	c, _ := zz.Wire(r, true)
	return zg_Beacon(r), c
}

// Zs_Sent: f is a beacon with these flags (free space that could not be found out is left out)
func Zs_Sent(flags string, f []byte) bool {
	if !Zs_Accepted(f) {
		return false
	}
	h := zs_header(0, flags, len(sarflags.Zs_Flags(flags)))
	g := uint32(sp.U32(f, 0))
	if !sp.Freespace(h) {
		return g == h
	}
	if !sp.Freespace(g) {
		return g == sp.With(h, 17, 1, 0)
	}
	return g == sp.With(h, 18, 2, sp.Freespaced(g))
}

// Zs_Good: a beacon can be made with these flags
func Zs_Good(flags string) bool {
	fs := sarflags.Zs_Flags(flags)
	return zz.Forall(0, len(fs), func(i int) bool { return zs_good(fs[i]) })
}
