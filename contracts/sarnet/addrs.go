package sarnet

import (
	"net"

	zz "github.com/charlesetsmith/saratoga/zzverif"
)

// zs_has: one of the addresses is a
func zs_has(as []net.UDPAddr, a string) bool {
	return zz.Exists(0, len(as), func(i int) bool { return as[i].String() == a })
}

//zz:contract sarnet.RemoveUDPAddrValue modular
func ZC_RemoveUDPAddrValue(a []net.UDPAddr, val *net.UDPAddr, other string) {
	who := val.String()
	had := zs_has(a, other)
	zz.Modifies()
	r := RemoveUDPAddrValue(a, val)
	zz.Ensures("C25 an address removed from the hosts is no more there", func() bool { return !zs_has(r, who) })
	zz.Ensures("C25 removing an address leaves all others and adds none", func() bool {
		return len(r) <= len(a) && (other == who || zs_has(r, other) == had)
	})
}

func ZG_RemoveUDPAddrValue(r *zz.R) ([]net.UDPAddr, *net.UDPAddr, string) {
	p := func() *net.UDPAddr {
		return &net.UDPAddr{IP: net.IPv4(10, 0, 0, byte(r.Intn(3))), Port: 7542}
	}
	var as []net.UDPAddr
	for n := r.Intn(6); n > 0; n-- {
		as = append(as, *p())
	}
	return as, p(), p().String()
}

// as far as the loop has got there is none, and all others are there
func ZI_RemoveUDPAddrValue(a []net.UDPAddr, val *net.UDPAddr, other string, k int, cur []net.UDPAddr) bool {
	who := val.String()
	return len(cur) <= len(a) && zz.Forall(0, len(cur), func(i int) bool { return i >= k || cur[i].String() != who })
}

func ZI_RemoveUDPAddrValue_others(a []net.UDPAddr, val *net.UDPAddr, other string, k int, cur []net.UDPAddr) bool {
	return other == val.String() || zs_has(cur, other) == zs_has(a, other)
}

// for a loop that keeps the others
func ZI_RemoveUDPAddrValue_kept(a []net.UDPAddr, val *net.UDPAddr, other string, k int, cur []net.UDPAddr) bool {
	return len(cur) <= k && !zs_has(cur, val.String()) &&
		(other == val.String() || zs_has(cur, other) == zz.Exists(0, k, func(i int) bool { return a[i].String() == other }))
}

// for a loop that looks for the next one to remove
func ZI_RemoveUDPAddrValue_next(a []net.UDPAddr, val *net.UDPAddr, other string, k int, cur []net.UDPAddr, i int) bool {
	if i < 0 {
		return len(cur) <= len(a) && !zs_has(cur, val.String())
	}
	return len(cur) <= len(a) && i < len(cur) && cur[i].String() == val.String()
}
