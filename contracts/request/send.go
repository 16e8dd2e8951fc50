package request

import (
	"net"

	zz "github.com/charlesetsmith/saratoga/zzverif"
)

// zs_sent: one datagram, sent on this connection to this address, the frame of v
func zs_sent(all []zz.Datagram, conn *net.UDPConn, to *net.UDPAddr, v Request) bool {
	if len(all) != 1 {
		return false
	}
	d := all[0]
	if d.Conn != conn || (to == nil) != (d.To == nil) || to != nil && d.To.String() != to.String() {
		return false
	}
	return zs_layout(v, d.Data)
}

//zz:contract (request.Request).Send
func ZC_Send(v Request, conn *net.UDPConn, to *net.UDPAddr) {
	zz.Requires(conn != nil)
	ok := zz.Forall(0, len(v.Fname), func(i int) bool { return v.Fname[i] != 0 })
	zz.Modifies()
	faults := zz.Faults()
	err := v.Send(conn, to)
	all := zz.Sent()
	zz.Ensures("C23 a frame that can be encoded is sent without error, unless the network fails", func() bool {
		return !ok || err == nil || zz.Faulty(faults, err)
	})
	zz.Ensures("C23 a frame that can not be encoded is not sent, which is an error", func() bool {
		return ok || err != nil && len(all) == 0
	})
	zz.Ensures("C23 a frame sent without error is one datagram with exactly its encoding, sent to the address given", func() bool {
		return err != nil || zs_sent(all, conn, to, v)
	})
	zz.Ensures("C23 a failed send sends nothing else", func() bool {
		return err == nil || len(all) == 0 || zs_sent(all, conn, to, v)
	})
}

func ZG_Send(r *zz.R) (Request, *net.UDPConn, *net.UDPAddr) {
	c, to := zz.Wire(r, false)
	return *zg_Request(r), c, to
}
