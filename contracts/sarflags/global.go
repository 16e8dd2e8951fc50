package sarflags

import (
	zz "github.com/charlesetsmith/saratoga/zzverif"
)

// zs_setting: s with the setting of a flag as one more entry of the flag string
func zs_setting(s string, c *Cliflags, f string) string {
	if v, ok := c.Global[f]; ok {
		return s + (f + "=" + v + ",")
	}
	return s
}

// Zs_Beacon: the settings a beacon has, as a flag string with a comma after each
func Zs_Beacon(c *Cliflags) string {
	s := zs_setting(zs_setting(zs_setting("", c, "version"), c, "frametype"), c, "descriptor")
	s = zs_setting(zs_setting(zs_setting(s, c, "stream"), c, "txwilling"), c, "rxwilling")
	s = zs_setting(zs_setting(zs_setting(s, c, "udplite"), c, "freespace"), c, "freespaced")
	return s
}

//zz:contract sarflags.Setglobal modular
func ZC_Setglobal(frametype string, c *Cliflags) {
	zz.Requires(frametype == "beacon")
	zz.Modifies()
	s := Setglobal(frametype, c)
	zz.Ensures("C25 the flag string of a beacon is made of the settings for the flags it has", func() bool { return zz.TrimOf(s, Zs_Beacon(c)) })
}

func ZG_Setglobal(r *zz.R) (string, *Cliflags) {
	c := &Cliflags{Global: map[string]string{}}
	for n := r.Intn(9); n > 0; n-- {
		c.Global[r.Pick("descriptor", "stream", "txwilling", "rxwilling", "udplite", "freespace", "freespaced", "csumtype", "reqtstamp")] = r.Pick("yes", "no", "d32", "x")
	}
	return "beacon", c
}
