package sarwin

import (
	"strconv"

	"github.com/charlesetsmith/saratoga/sarflags"
	zz "github.com/charlesetsmith/saratoga/zzverif"
	"github.com/jroimartin/gocui"
)

// zs_set: the settings commands change, with the value of one flag (any one)
type zs_set struct {
	val       string
	is        bool
	timestamp string
	timezone  string
	bcount    uint
	t         sarflags.Timeouts
}

func zs_now(k string) zs_set {
	c := sarflags.Cliflag
	v, is := c.Global[k]
	return zs_set{val: v, is: is, timestamp: c.Timestamp, timezone: c.Timezone, bcount: c.Bcount, t: c.Timeout}
}

// zs_flag: the settings with this flag at this value, as far as flag k shows
func zs_flag(s zs_set, k string, name, val string) zs_set {
	if k == name {
		s.val, s.is = val, true
	}
	return s
}

func zs_ready(args []string) bool {
	return sarflags.Cliflag != nil && sarflags.Cliflag.Global != nil && len(args) > 0
}

// zs_arg: the only argument of the command, "" if there are none or more
func zs_arg(args []string) string {
	if len(args) == 2 {
		return args[1]
	}
	return ""
}

func zs_num(s string) (int, bool) {
	n, err := strconv.Atoi(s)
	return n, err == nil && n >= 0
}

// zs_number: what a command with one number makes of a setting
func zs_number(args []string, old uint) uint {
	if n, ok := zs_num(zs_arg(args)); ok && len(args) == 2 {
		return uint(n)
	}
	return old
}

//zz:contract sarwin.cmdChecksum
func ZC_cmdChecksum(args []string, k string) {
	zz.Requires(zs_ready(args))
	want := zs_now(k)
	switch zs_arg(args) {
	case "off", "none":
		want = zs_flag(want, k, "csumtype", "none")
	case "crc32", "md5", "sha1":
		want = zs_flag(want, k, "csumtype", args[1])
	}
	zz.Modifies(sarflags.Cliflag.Global)
	cmdChecksum(new(gocui.Gui), args)
	zz.Ensures("C21 checksum sets the checksum type it is given and nothing else", func() bool { return zs_now(k) == want })
	zz.Ensures("C21 the settings are left unlocked", func() bool { return zz.Unlocked(&sarflags.Climu) })
}

func ZG_cmdChecksum(r *zz.R) ([]string, string) {
	return zg_args(r, "checksum", "off", "none", "crc32", "md5", "sha1")
}

//zz:contract sarwin.cmdDescriptor
func ZC_cmdDescriptor(args []string, k string) {
	zz.Requires(zs_ready(args))
	want := zs_now(k)
	switch zs_arg(args) {
	case "d16", "d32", "d64":
		want = zs_flag(want, k, "descriptor", args[1])
	case "auto":
		want = zs_flag(want, k, "descriptor", "d64")
	}
	zz.Modifies(sarflags.Cliflag.Global)
	cmdDescriptor(new(gocui.Gui), args)
	zz.Ensures("C21 descriptor sets the descriptor it is given and nothing else", func() bool { return zs_now(k) == want })
	zz.Ensures("C21 the settings are left unlocked", func() bool { return zz.Unlocked(&sarflags.Climu) })
}

func ZG_cmdDescriptor(r *zz.R) ([]string, string) {
	return zg_args(r, "descriptor", "auto", "d16", "d32", "d64", "d128")
}

//zz:contract sarwin.cmdFreespace
func ZC_cmdFreespace(args []string, k string) {
	zz.Requires(zs_ready(args))
	want := zs_now(k)
	if a := zs_arg(args); a == "yes" || a == "no" {
		want = zs_flag(want, k, "freespace", a)
	}
	zz.Modifies(sarflags.Cliflag.Global)
	cmdFreespace(new(gocui.Gui), args)
	zz.Ensures("C21 freespace sets whether free space is advertised and nothing else", func() bool { return zs_now(k) == want })
	zz.Ensures("C21 the settings are left unlocked", func() bool { return zz.Unlocked(&sarflags.Climu) })
}

func ZG_cmdFreespace(r *zz.R) ([]string, string) { return zg_args(r, "freespace", "yes", "no") }

//zz:contract sarwin.cmdReqtstamp
func ZC_cmdReqtstamp(args []string, k string) {
	zz.Requires(zs_ready(args))
	want := zs_now(k)
	if a := zs_arg(args); a == "yes" || a == "no" {
		want = zs_flag(want, k, "reqtstamp", a)
	}
	zz.Modifies(sarflags.Cliflag.Global)
	cmdReqtstamp(new(gocui.Gui), args)
	zz.Ensures("C21 reqtstamp sets whether timestamps are requested and nothing else", func() bool { return zs_now(k) == want })
	zz.Ensures("C21 the settings are left unlocked", func() bool { return zz.Unlocked(&sarflags.Climu) })
}

func ZG_cmdReqtstamp(r *zz.R) ([]string, string) { return zg_args(r, "reqtstamp", "yes", "no") }

//zz:contract sarwin.cmdStream
func ZC_cmdStream(args []string, k string) {
	zz.Requires(zs_ready(args))
	want := zs_now(k)
	if a := zs_arg(args); a == "yes" || a == "no" {
		want = zs_flag(want, k, "stream", a)
	}
	zz.Modifies(sarflags.Cliflag.Global)
	cmdStream(new(gocui.Gui), args)
	zz.Ensures("C21 stream sets whether streams are handled and nothing else", func() bool { return zs_now(k) == want })
	zz.Ensures("C21 the settings are left unlocked", func() bool { return zz.Unlocked(&sarflags.Climu) })
}

func ZG_cmdStream(r *zz.R) ([]string, string) { return zg_args(r, "stream", "yes", "no") }

func zs_willing(s zs_set, k string, name string, a string) zs_set {
	switch a {
	case "on":
		return zs_flag(s, k, name, "yes")
	case "off":
		return zs_flag(s, k, name, "no")
	case "capable":
		return zs_flag(s, k, name, "capable")
	}
	return s
}

//zz:contract sarwin.cmdRxwilling
func ZC_cmdRxwilling(args []string, k string) {
	zz.Requires(zs_ready(args))
	want := zs_willing(zs_now(k), k, "rxwilling", zs_arg(args))
	zz.Modifies(sarflags.Cliflag.Global)
	cmdRxwilling(new(gocui.Gui), args)
	zz.Ensures("C21 rxwilling sets the willingness to receive and nothing else", func() bool { return zs_now(k) == want })
	zz.Ensures("C21 the settings are left unlocked", func() bool { return zz.Unlocked(&sarflags.Climu) })
}

func ZG_cmdRxwilling(r *zz.R) ([]string, string) { return zg_args(r, "rxwilling", "on", "off", "capable") }

//zz:contract sarwin.cmdTxwilling
func ZC_cmdTxwilling(args []string, k string) {
	zz.Requires(zs_ready(args))
	want := zs_willing(zs_now(k), k, "txwilling", zs_arg(args))
	zz.Modifies(sarflags.Cliflag.Global)
	cmdTxwilling(new(gocui.Gui), args)
	zz.Ensures("C21 txwilling sets the willingness to transmit and nothing else", func() bool { return zs_now(k) == want })
	zz.Ensures("C21 the settings are left unlocked", func() bool { return zz.Unlocked(&sarflags.Climu) })
}

func ZG_cmdTxwilling(r *zz.R) ([]string, string) { return zg_args(r, "txwilling", "on", "off", "capable") }

//zz:contract sarwin.cmdTimestamp
func ZC_cmdTimestamp(args []string, k string) {
	zz.Requires(zs_ready(args))
	want := zs_now(k)
	on := zs_flag(want, k, "reqtstamp", "yes")
	switch zs_arg(args) {
	case "off":
		want = zs_flag(want, k, "reqtstamp", "no")
	case "32":
		want = on
		want.timestamp = "posix32"
	case "32_32":
		want = on
		want.timestamp = "posix32_32"
	case "64":
		want = on
		want.timestamp = "posix64"
	case "64_32":
		want = on
		want.timestamp = "posix64_32"
	case "32_y2k":
		want = on
		want.timestamp = "epoch2000_32"
	case "local":
		want = on
		want.timestamp = "localinterp"
	}
	zz.Modifies(sarflags.Cliflag.Global, &sarflags.Cliflag.Timestamp)
	cmdTimestamp(new(gocui.Gui), args)
	zz.Ensures("C21 timestamp sets the type of timestamps and whether they are requested, and nothing else", func() bool { return zs_now(k) == want })
	zz.Ensures("C21 the settings are left unlocked", func() bool { return zz.Unlocked(&sarflags.Climu) })
}

func ZG_cmdTimestamp(r *zz.R) ([]string, string) {
	return zg_args(r, "timestamp", "off", "32", "32_32", "64", "64_32", "32_y2k", "local")
}

//zz:contract sarwin.cmdTimezone
func ZC_cmdTimezone(args []string, k string) {
	zz.Requires(zs_ready(args))
	want := zs_now(k)
	if a := zs_arg(args); a == "local" || a == "utc" {
		want.timezone = a
	}
	zz.Modifies(&sarflags.Cliflag.Timezone)
	cmdTimezone(new(gocui.Gui), args)
	zz.Ensures("C21 timezone sets the time zone and nothing else", func() bool { return zs_now(k) == want })
	zz.Ensures("C21 the settings are left unlocked", func() bool { return zz.Unlocked(&sarflags.Climu) })
}

func ZG_cmdTimezone(r *zz.R) ([]string, string) { return zg_args(r, "timezone", "local", "utc") }

//zz:contract sarwin.cmdBcount
func ZC_cmdBcount(args []string, k string) {
	zz.Requires(zs_ready(args))
	want := zs_now(k)
	want.bcount = zs_number(args, want.bcount)
	zz.Modifies(&sarflags.Cliflag.Bcount)
	cmdBcount(new(gocui.Gui), args)
	zz.Ensures("C21 bcount sets the number of beacons and nothing else", func() bool { return zs_now(k) == want })
	zz.Ensures("C21 the settings are left unlocked", func() bool { return zz.Unlocked(&sarflags.Climu) })
}

func ZG_cmdBcount(r *zz.R) ([]string, string) { return zg_args(r, "bcount", "0", "5", "-1", "1234567", "007", "1e3") }

//zz:contract sarwin.cmdInterval
func ZC_cmdInterval(args []string, k string) {
	zz.Requires(zs_ready(args))
	want := zs_now(k)
	want.t.Binterval = zs_number(args, want.t.Binterval)
	if zs_arg(args) == "off" {
		want.t.Binterval = 0
	}
	zz.Modifies(&sarflags.Cliflag.Timeout.Binterval)
	cmdInterval(new(gocui.Gui), args)
	zz.Ensures("C21 interval sets the interval of beacons and nothing else", func() bool { return zs_now(k) == want })
	zz.Ensures("C21 the settings are left unlocked", func() bool { return zz.Unlocked(&sarflags.Climu) })
}

func ZG_cmdInterval(r *zz.R) ([]string, string) { return zg_args(r, "interval", "0", "off", "5", "-1", "1234567") }

// zs_default: the default of a data counter that is not set
func zs_default(n int) int {
	if n == 0 {
		return 100
	}
	return n
}

//zz:contract sarwin.cmdTimeout
func ZC_cmdTimeout(args []string, k string) {
	zz.Requires(zs_ready(args))
	want := zs_now(k)
	if len(args) == 1 || zs_arg(args) == "datacounter" {
		want.t.Datacounter = zs_default(want.t.Datacounter)
	}
	if len(args) == 3 {
		n, ok := zs_num(args[2])
		count := zs_default(n)
		if args[2] == "off" {
			n, count, ok = 60, 100, true
		}
		if ok {
			switch args[1] {
			case "metadata":
				want.t.Metadata = n
			case "request":
				want.t.Request = n
			case "status":
				want.t.Status = n
			case "transfer":
				want.t.Transfer = n
			case "datacounter":
				want.t.Datacounter = count
			}
		}
	}
	zz.Modifies(&sarflags.Cliflag.Timeout)
	cmdTimeout(new(gocui.Gui), args)
	zz.Ensures("C21 timeout sets the timeout it is given and nothing else", func() bool { return zs_now(k) == want })
	zz.Ensures("C21 the settings are left unlocked", func() bool { return zz.Unlocked(&sarflags.Climu) })
}

func ZG_cmdTimeout(r *zz.R) ([]string, string) {
	args, k := zg_args(r, "timeout", "metadata", "request", "status", "datacounter", "transfer")
	if len(args) > 2 {
		args[1] = r.Pick("metadata", "request", "status", "datacounter", "transfer", "beacon")
		args[2] = r.Pick("off", "0", "1", "60", "100", "-3", "x", "7")
	}
	if r.Bool() {
		sarflags.Cliflag.Timeout.Datacounter = r.Intn(3)
	}
	return args, k
}

// the commands that show something

//zz:contract sarwin.cmdExit
func ZC_cmdExit(args []string) {
	zz.Requires(len(args) > 0)
	want := Cexit
	if len(args) == 1 || zs_arg(args) == "0" {
		want = 0
	}
	if zs_arg(args) == "1" {
		want = 1
	}
	zz.Modifies(&Cexit)
	cmdExit(new(gocui.Gui), args)
	zz.Ensures("C21 exit ends the program with its argument, and only when that is one", func() bool { return Cexit == want })
}

func ZG_cmdExit(r *zz.R) []string {
	args, _ := zg_args(r, "exit", "0", "1", "2", "?")
	return args
}

//zz:contract sarwin.cmdHelp
func ZC_cmdHelp(args []string) {
	zz.Requires(len(args) > 0)
	zz.Modifies()
	cmdHelp(new(gocui.Gui), args)
	zz.Ensures("C21 help changes nothing", func() bool { return true })
}

//zz:contract sarwin.cmdUsage
func ZC_cmdUsage(args []string) {
	zz.Requires(len(args) > 0)
	zz.Modifies()
	cmdUsage(new(gocui.Gui), args)
	zz.Ensures("C21 usage changes nothing", func() bool { return true })
}

// zs_gui: a screen with the windows that Layout makes
func zs_gui() *gocui.Gui {
	g := new(gocui.Gui)
	g.SetView("msg", 0, 0, 9, 9)
	g.SetView("err", 0, 0, 9, 9)
	g.SetView("packet", 0, 0, 9, 9)
	g.SetView("cmd", 0, 0, 9, 9)
	g.SetCurrentView("cmd")
	return g
}

//zz:contract sarwin.cmdClear
func ZC_cmdClear(args []string) {
	zz.Requires(len(args) > 0)
	g := zs_gui()
	zz.Modifies()
	cmdClear(g, args)
	zz.Ensures("C21 clear changes no setting", func() bool { return true })
}

//zz:contract sarwin.cmdCancel
func ZC_cmdCancel(args []string) {
	zz.Requires(len(args) > 0)
	zz.Modifies()
	cmdCancel(new(gocui.Gui), args)
	zz.Ensures("C21 cancel changes nothing", func() bool { return true })
}

//zz:contract sarwin.cmdHistory
func ZC_cmdHistory(args []string) {
	zz.Requires(len(args) > 0)
	zz.Modifies()
	cmdHistory(new(gocui.Gui), args)
	zz.Ensures("C21 history changes nothing", func() bool { return true })
}

//zz:contract sarwin.cmdHome
func ZC_cmdHome(args []string) {
	zz.Requires(len(args) > 0)
	zz.Modifies()
	cmdHome(new(gocui.Gui), args)
	zz.Ensures("C21 home changes nothing", func() bool { return true })
}

//zz:contract sarwin.cmdLs
func ZC_cmdLs(args []string) {
	zz.Requires(len(args) > 0)
	zz.Modifies()
	cmdLs(new(gocui.Gui), args)
	zz.Ensures("C21 ls changes nothing", func() bool { return true })
}
