package beacon

import (
	"net"

	"github.com/charlesetsmith/saratoga/timestamp"
	sp "github.com/charlesetsmith/saratoga/zzspec"
	zz "github.com/charlesetsmith/saratoga/zzverif"
)

func zs_desc(h uint32) string {
	switch sp.Descriptor(h) {
	case 0:
		return "d16"
	case 1:
		return "d32"
	case 2:
		return "d64"
	}
	return "d128"
}

func zs_will(h uint32, msb uint) string {
	switch sp.Field(h, msb, 2) {
	case 0:
		return "no"
	case 1:
		return "invalid"
	case 2:
		return "capable"
	}
	return "yes"
}

// zs_tells: the peer is recorded with what the beacon says
func zs_tells(p Peer, b *Beacon) bool {
	return p.Freespace == b.Freespace && p.Eid == b.Eid && p.Maxdesc == zs_desc(b.Header) &&
		p.Canrx == zs_will(b.Header, 14) && p.Cantx == zs_will(b.Header, 12)
}

func zs_samepeer(p, q Peer) bool {
	return p.Addr == q.Addr && p.Freespace == q.Freespace && p.Eid == q.Eid && p.Maxdesc == q.Maxdesc && p.Canrx == q.Canrx && p.Cantx == q.Cantx
}

// zs_unique: no two peers have the same address
func zs_unique(ps []Peer) bool {
	return zz.Forall(0, len(ps), func(i int) bool {
		return zz.Forall(0, len(ps), func(j int) bool { return i == j || ps[i].Addr != ps[j].Addr })
	})
}

//zz:contract NewPeer
func ZC_NewPeer(b *Beacon, from *net.UDPAddr, before []Peer, i int) {
	zz.Requires(zs_unique(before))
	Peers = before
	a := from.IP.String()
	known := zz.Exists(0, len(before), func(j int) bool { return before[j].Addr == a })
	same := zz.Exists(0, len(before), func(j int) bool { return before[j].Addr == a && zs_tells(before[j], b) })
	var was Peer
	old := 0 <= i && i < len(before)
	if old {
		was = before[i]
	}
	zz.Modifies(before, &Peers)
	r := NewPeer(b, from)
	zz.Ensures("C16 a beacon leaves exactly one peer of its sender's address", func() bool {
		return zs_unique(Peers) && zz.Exists(0, len(Peers), func(j int) bool { return Peers[j].Addr == a })
	})
	zz.Ensures("C16 the peer of the sender is recorded with what its last beacon says", func() bool {
		return zz.Forall(0, len(Peers), func(j int) bool { return Peers[j].Addr != a || zs_tells(Peers[j], b) })
	})
	zz.Ensures("C16 a peer is added exactly when its address is new", func() bool {
		if known {
			return len(Peers) == len(before)
		}
		return len(Peers) == len(before)+1
	})
	zz.Ensures("C16 a beacon changes no other peer", func() bool {
		return !old || was.Addr == a || len(Peers) > i && zs_samepeer(Peers[i], was) && timestamp.Zs_Type(Peers[i].Updated) == timestamp.Zs_Type(was.Updated)
	})
	zz.Ensures("C16 a known peer keeps its address and place", func() bool { return !old || len(Peers) > i && Peers[i].Addr == was.Addr })
	zz.Ensures("C16 a beacon is reported as news exactly when it adds a peer or changes one", func() bool { return r == (!known || !same) })
	zz.Ensures("C16 the peers are left unlocked", func() bool { return zz.Unlocked(&pmu) })
}

func ZG_NewPeer(r *zz.R) (*Beacon, *net.UDPAddr, []Peer, int) {
	b := &Beacon{Header: uint32(r.U64()), Freespace: uint64(r.Intn(3)), Eid: r.Pick("a", "b")}
	if r.Intn(2) == 0 {
		b.Header = 0
	}
	var ps []Peer
	for n := 0; n < 4; n++ {
		if r.Intn(2) == 0 {
			p := Peer{Addr: net.IPv4(10, 0, 0, byte(n)).String(), Freespace: uint64(r.Intn(3)), Eid: r.Pick("a", "b"),
				Maxdesc: zs_desc(b.Header), Canrx: zs_will(b.Header, 14), Cantx: zs_will(b.Header, 12)}
			if r.Intn(4) == 0 {
				p.Maxdesc = "d32"
			}
			if r.Intn(4) == 0 {
				p.Canrx = "capable"
			}
			if r.Intn(4) == 0 {
				p.Cantx = "capable"
			}
			ps = append(ps, p)
		}
	}
	return b, &net.UDPAddr{IP: net.IPv4(10, 0, 0, byte(r.Intn(4))), Port: r.Intn(65536)}, ps, r.Intn(4)
}
