package sarwin

import (
	"fmt"
	"net"

	"github.com/charlesetsmith/saratoga/sarflags"
	zz "github.com/charlesetsmith/saratoga/zzverif"
)

var zg_peers = []string{"127.0.0.1:7541", "127.0.0.2:7541", "127.0.0.1:7542", "[::1]:7541"}

var zg_conns = map[string]*net.UDPConn{}

// zg_addr: one of a few addresses
func zg_addr(r *zz.R) *net.UDPAddr {
	a, err := net.ResolveUDPAddr("udp", r.Pick(zg_peers[:3]...))
	if err != nil {
		panic(err)
	}
	return a
}

// zg_conn: a connection to an address; there is one for each address
func zg_conn(a *net.UDPAddr) *net.UDPConn {
	c := zg_conns[a.String()]
	if c == nil {
		var err error
		if c, err = net.DialUDP("udp", nil, a); err != nil {
			panic(err)
		}
		zg_conns[a.String()] = c
	}
	return c
}

// zg_table: a transfer table, sometimes with transfers that share a key
func zg_table(r *zz.R) []Transfer {
	var ts []Transfer
	for i := r.Intn(5); i > 0; i-- {
		a := zg_addr(r)
		ts = append(ts, Transfer{Direction: r.Bool(), Session: uint32(r.Intn(4)), Peer: a, Conn: zg_conn(a),
			Ttype: r.Pick("get", "take", "put", "give", "delete"), Filename: fmt.Sprint("f", r.Intn(3)), Cliflags: sarflags.Cliflag})
	}
	return ts
}

// zg_key: a key, often one of the table
func zg_key(r *zz.R, ts []Transfer) (bool, uint32, string) {
	if len(ts) > 0 && r.Intn(3) > 0 {
		t := ts[r.Intn(len(ts))]
		return t.Direction, t.Session, t.Peer.String()
	}
	return r.Bool(), uint32(r.Intn(4)), zg_addr(r).String()
}

// zg_args: a command line of a command with some of these arguments, and a flag to look at
func zg_args(r *zz.R, cmd string, known ...string) ([]string, string) {
	args := []string{cmd}
	for i := r.Intn(4); i > 0; i-- {
		if a := r.Intn(len(known) + 3); a < len(known) {
			args = append(args, known[a])
		} else {
			args = append(args, r.Pick("?", "on", "yes", "bogus"))
		}
	}
	return args, r.Pick("csumtype", "descriptor", "freespace", "reqtstamp", "stream", "rxwilling", "txwilling", "udplite", "reqstatus")
}
