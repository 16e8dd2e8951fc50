package sarwin

import (
	"net"
	"os"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarnet"
	zz "github.com/charlesetsmith/saratoga/zzverif"
	"github.com/jroimartin/gocui"
)

//zz:contract sarwin.sendbeacons
func ZC_sendbeacons(clib Beaconcmd, addr *net.UDPAddr) {
	who := addr.String()
	_, nowhere := os.Getwd()
	good := beacon.Zs_Good(clib.flags)
	n, failed := zz.PerSend("C25 every datagram the beacon command sends is a beacon with the flags of the settings, to the address given", func(k int, d zz.Datagram) bool {
		return good && zz.Dest(d) == who && beacon.Zs_Sent(clib.flags, d.Data)
	})
	zz.Modifies()
	sendbeacons(new(gocui.Gui), clib, addr)
	zz.EndSends()
	zz.Ensures("C25 the beacon command sends as many beacons as set", func() bool {
		return uint(*n) == clib.count || (*failed || nowhere != nil) && uint(*n) <= clib.count || !good && *n == 0
	})
}

func ZG_sendbeacons(r *zz.R) (Beaconcmd, *net.UDPAddr) {
	_, to := zz.Wire(r, false)
	interval := uint(0)
	if r.Intn(16) == 0 {
		interval = 1
	}
	return Beaconcmd{count: uint(r.Intn(5)), interval: interval, flags: sarflags.Zg_Flags(r, "descriptor", "stream", "txwilling", "rxwilling", "udplite", "freespace")}, to
}

// zs_addr: the text of the address an argument names, "" if none
func zs_addr(s string) string {
	if a, err := sarnet.UDPAddress(s); err == nil {
		return a.String()
	}
	return ""
}

// zs_beaconto: where the beacons of a command line with one argument go, "" if nowhere
func zs_beaconto(arg string) string {
	switch arg {
	case "?", "off":
		return ""
	case "v4":
		return zs_addr(sarflags.Cliflag.V4Multicast)
	case "v6":
		return zs_addr(sarflags.Cliflag.V6Multicast)
	}
	return zs_addr(arg)
}

//zz:contract sarwin.cmdBeacon
func ZC_cmdBeacon(args []string, k string) {
	zz.Requires(zs_ready(args))
	want := zs_now(k)
	_, nowhere := os.Getwd()
	to := ""
	if len(args) == 2 {
		to = zs_beaconto(args[1])
	}
	count := sarflags.Cliflag.Bcount
	n, failed := zz.PerSend("C25 every datagram of the beacon command is a beacon, to an address it names", func(k int, d zz.Datagram) bool {
		if !beacon.Zs_Sent(clibeacon.flags, d.Data) {
			return false
		}
		if len(args) == 2 {
			return to != "" && zz.Dest(d) == to
		}
		return zz.Exists(1, len(args), func(i int) bool { return zz.Dest(d) == zs_addr(args[i]) })
	})
	zz.Modifies(&clibeacon)
	cmdBeacon(new(gocui.Gui), args)
	zz.EndSends()
	zz.Ensures("C25 beacon with one address sends as many beacons as set there, and none without", func() bool {
		if to == "" && len(args) <= 2 {
			return *n == 0
		}
		if len(args) != 2 {
			return true
		}
		return uint(*n) == count || (*failed || nowhere != nil) && uint(*n) <= count || !beacon.Zs_Good(clibeacon.flags) && *n == 0
	})
	zz.Ensures("C25 beacon off stops all beacons", func() bool {
		return len(args) != 2 || args[1] != "off" || len(clibeacon.hosts) == 0 && !clibeacon.v4mcast && !clibeacon.v6mcast
	})
	zz.Ensures("C25 the flags of the beacons sent are those of the settings", func() bool {
		return zz.TrimOf(clibeacon.flags, sarflags.Zs_Beacon(sarflags.Cliflag))
	})
	zz.Ensures("C21,C25 the beacon command changes no setting", func() bool { return zs_now(k) == want })
	zz.Ensures("C21,C25 the beacon command leaves the settings unlocked", func() bool { return zz.Unlocked(&sarflags.Climu) })
}

func ZG_cmdBeacon(r *zz.R) ([]string, string) {
	a := zz.Listen(sarnet.Port)
	sarflags.Cliflag.V4Multicast, sarflags.Cliflag.V6Multicast = a, "::1"
	sarflags.Cliflag.Bcount = uint(r.Intn(4))
	sarflags.Cliflag.Timeout.Binterval = 0
	clibeacon = Beaconcmd{v4mcast: r.Intn(2) == 0, v6mcast: r.Intn(2) == 0}
	return zg_args(r, "beacon", a, a, a, "off", "v4", "1.2.3")
}
