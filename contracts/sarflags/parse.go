package sarflags

import (
	"strings"

	zz "github.com/charlesetsmith/saratoga/zzverif"
)

// Zs_Flags: the flags of a flag string, spaces do not count
func Zs_Flags(flags string) []string {
	return strings.Split(strings.Replace(flags, " ", "", -1), ",")
}

// Zs_Pair: a flag of the form name=value
func Zs_Pair(f string) bool { return len(strings.Split(f, "=")) >= 2 }

// Zs_Name, Zs_Val: the two sides of name=value
func Zs_Name(f string) string { return strings.Split(f, "=")[0] }
func Zs_Val(f string) string {
	p := strings.Split(f, "=")
	if len(p) < 2 {
		return ""
	}
	return p[1]
}

// Zs_Set: header h with a flag set
func Zs_Set(h uint32, name, val string) uint32 {
	r, _ := Set(h, name, val)
	return r
}

// Zs_Valid: a flag and one of its values
func Zs_Valid(name, val string) bool {
	_, err := Set(0, name, val)
	return err == nil
}

// Zs_SetD: directory entry header h with a flag set
func Zs_SetD(h uint16, name, val string) uint16 {
	r, _ := SetD(h, name, val)
	return r
}

// Zs_ValidD: a flag of a directory entry and one of its values
func Zs_ValidD(name, val string) bool {
	_, err := SetD(0, name, val)
	return err == nil
}

// Zg_Flags: a flag string of the given names, now and then a bad one
func Zg_Flags(r *zz.R, names ...string) string {
	var fs []string
	n := 1 + r.Intn(4)
	if r.Intn(12) == 0 {
		n = 0
	}
	for i := 0; i < n; i++ {
		name, val := zg_flag(r)
		if r.Intn(12) > 0 {
			name = r.Pick(names...)
			val = "no"
			var os []string
			for o := range Flags[name].Options {
				os = append(os, o)
			}
			if name == "property" || name == "descriptor" && len(names) == 2 {
				os = nil
				for o := range DirentFlags[name].Options {
					os = append(os, o)
				}
			}
			zg_sort(os)
			if name == "reqtstamp" || len(os) == 0 {
				os = append(os, "posix32", "posix64", "posix32_32", "posix64_32", "epoch2000_32", "localinterp", "posix99")
			}
			if len(os) > 0 {
				val = r.Pick(os...)
			}
		}
		f := name + "=" + val
		switch r.Intn(24) {
		case 0:
			f = " " + name + " = " + val
		case 1:
			f = name
		case 2:
			f += "=x"
		}
		fs = append(fs, f)
	}
	return strings.Join(fs, ",")
}
