package main

import (
	"net"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/data"
	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/status"
	sp "github.com/charlesetsmith/saratoga/zzspec"
	zz "github.com/charlesetsmith/saratoga/zzverif"
	"github.com/jroimartin/gocui"
)

// zs_frame: the datagram is of a length a frame can have and of version 1 of the protocol
func zs_frame(d []byte, mtu int) bool {
	return zs_sized(d, mtu) && sp.Version(uint32(sp.U32(d, 0))) == 1
}

func zs_sized(d []byte, mtu int) bool { return len(d) >= 8 && len(d) <= mtu-60 }

// zs_type: the type of the frame
func zs_type(d []byte) uint32 { return sp.Frametype(uint32(sp.U32(d, 0))) }

// zs_accepted: the frame has all the fields its type asks for
func zs_accepted(d []byte) bool {
	switch zs_type(d) {
	case 0:
		return beacon.Zs_Accepted(d)
	case 1:
		return !request.Zs_Refused(d)
	case 2:
		return metadata.Zs_Accepted(d)
	case 3:
		return data.Zs_Accepted(d)
	case 4:
		return status.Zs_Accepted(d)
	}
	return false
}

// zs_refusal: a status that says bad packet, of session s, to the sender
func zs_refusal(x interface{}, s uint32, from *net.UDPAddr) bool {
	p, ok := x.(status.Packet)
	return ok && p.Addr.Port == from.Port && p.Addr.Zone == from.Zone && p.Addr.IP.Equal(from.IP) &&
		sp.Version(p.Info.Header) == 1 && sp.Frametype(p.Info.Header) == 4 && sp.Errcode(p.Info.Header) == 10 &&
		p.Info.Session == s && p.Info.Progress == 0 && p.Info.Inrespto == 0 && len(p.Info.Holes) == 0
}

func zs_same(a net.UDPAddr, from *net.UDPAddr) bool {
	return a.Port == from.Port && a.Zone == from.Zone && a.IP.Equal(from.IP)
}

// the packet passed on has the fields of the frame, and its sender
func zs_beacon(x interface{}, d []byte, from *net.UDPAddr) bool {
	p, ok := x.(beacon.Packet)
	return ok && zs_same(p.Addr, from) && beacon.Zs_Decoded(p.Info, d)
}

func zs_request(x interface{}, d []byte, from *net.UDPAddr) bool {
	p, ok := x.(request.Packet)
	return ok && zs_same(p.Addr, from) && request.Zs_Decoded(p.Info, d)
}

func zs_metadata(x interface{}, d []byte, from *net.UDPAddr) bool {
	p, ok := x.(metadata.Packet)
	return ok && zs_same(p.Addr, from) && metadata.Zs_Decoded(p.Info, d)
}

func zs_data(x interface{}, d []byte, from *net.UDPAddr) bool {
	p, ok := x.(data.Packet)
	return ok && zs_same(p.Addr, from) && data.Zs_Decoded(p.Info, d)
}

func zs_status(x interface{}, d []byte, from *net.UDPAddr) bool {
	p, ok := x.(status.Packet)
	return ok && zs_same(p.Addr, from) && status.Zs_Decoded(p.Info, d)
}

//zz:contract saratoga.listen
func ZC_listen(d []byte, mtu int) {
	zz.Requires(mtu >= 68 && mtu <= 65535)
	sarflags.MtuSet(mtu)
	conn := zz.Conn(d)
	rx, tx, quit := make(chan interface{}, 64), make(chan interface{}, 64), make(chan error, 8)
	zz.PerDatagram("C24 a datagram too short, too long or of an unknown type is dropped", rx, tx,
		func(d []byte, from *net.UDPAddr, rxs, txs []interface{}) bool {
			if zs_frame(d, mtu) && zs_type(d) <= 4 || zs_sized(d, mtu) && !zs_frame(d, mtu) {
				return true
			}
			return len(rxs) == 0 && len(txs) == 0
		})
	zz.PerDatagram("C24 a frame of another version is answered with one bad packet status", rx, tx,
		func(d []byte, from *net.UDPAddr, rxs, txs []interface{}) bool {
			if !zs_sized(d, mtu) || zs_frame(d, mtu) {
				return true
			}
			return len(rxs) == 0 && len(txs) == 1 && zs_refusal(txs[0], 0, from)
		})
	zz.PerDatagram("C24 an acceptable beacon is passed on once, to the handler, with its fields and its sender", rx, tx,
		func(d []byte, from *net.UDPAddr, rxs, txs []interface{}) bool {
			if !zs_frame(d, mtu) || zs_type(d) != 0 || !zs_accepted(d) {
				return true
			}
			return len(rxs) == 1 && len(txs) == 0 && zs_beacon(rxs[0], d, from)
		})
	zz.PerDatagram("C24 an acceptable request is passed on once, to the handler, with its fields and its sender", rx, tx,
		func(d []byte, from *net.UDPAddr, rxs, txs []interface{}) bool {
			if !zs_frame(d, mtu) || zs_type(d) != 1 || !zs_accepted(d) {
				return true
			}
			return len(rxs) == 1 && len(txs) == 0 && zs_request(rxs[0], d, from)
		})
	zz.PerDatagram("C24 an acceptable metadata frame is passed on once, to the handler, with its fields and its sender", rx, tx,
		func(d []byte, from *net.UDPAddr, rxs, txs []interface{}) bool {
			if !zs_frame(d, mtu) || zs_type(d) != 2 || !zs_accepted(d) {
				return true
			}
			return len(rxs) == 1 && len(txs) == 0 && zs_metadata(rxs[0], d, from)
		})
	zz.PerDatagram("C24 an acceptable data frame is passed on once, to the handler, with its fields and its sender", rx, tx,
		func(d []byte, from *net.UDPAddr, rxs, txs []interface{}) bool {
			if !zs_frame(d, mtu) || zs_type(d) != 3 || !zs_accepted(d) {
				return true
			}
			return len(rxs) == 1 && len(txs) == 0 && zs_data(rxs[0], d, from)
		})
	zz.PerDatagram("C24 an acceptable status frame is passed on once, to the handler, with its fields and its sender", rx, tx,
		func(d []byte, from *net.UDPAddr, rxs, txs []interface{}) bool {
			if !zs_frame(d, mtu) || zs_type(d) != 4 || !zs_accepted(d) {
				return true
			}
			return len(rxs) == 1 && len(txs) == 0 && zs_status(rxs[0], d, from)
		})
	zz.PerDatagram("C24 a data, metadata or status frame that is malformed is answered with one bad packet status of its session", rx, tx,
		func(d []byte, from *net.UDPAddr, rxs, txs []interface{}) bool {
			if !zs_frame(d, mtu) || zs_accepted(d) || zs_type(d) < 2 || zs_type(d) > 4 {
				return true
			}
			return len(rxs) == 0 && len(txs) == 1 && zs_refusal(txs[0], uint32(sp.U32(d, 4)), from)
		})
	zz.PerDatagram("C24 a malformed beacon or request is dropped", rx, tx,
		func(d []byte, from *net.UDPAddr, rxs, txs []interface{}) bool {
			if !zs_frame(d, mtu) || zs_accepted(d) || zs_type(d) > 1 {
				return true
			}
			return len(rxs) == 0 && len(txs) == 0
		})
	zz.Modifies()
	listen(new(gocui.Gui), conn, rx, tx, quit)
	zz.EndDatagrams()
}

func ZG_listen(r *zz.R) ([]byte, int) {
	d := r.Bytes(r.Intn(120))
	if len(d) > 8 && r.Intn(8) > 0 {
		d[0] = d[0]&0x1f | 0x20
		d[0] = d[0]&0xe0 | byte(r.Intn(6))
	}
	return d, []int{68, 80, 120, 200, 1500}[r.Intn(5)]
}
