package sarflags

import (
	zz "github.com/charlesetsmith/saratoga/zzverif"
)

//zz:contract Value
func ZC_Value(flag string, option string) {
	fl := Flags[flag]
	n, named := fl.Options[option]
	zz.Modifies()
	v := Value(flag, option)
	zz.Ensures("C01 the number of an option is the one the table lists", func() bool {
		return named && v == int(n) || !named && v == -1
	})
}

func ZG_Value(r *zz.R) (flag, option string) { return zg_flag(r) }

//zz:contract ValidD
func ZC_ValidD(flag string, option string) {
	fl, known := DirentFlags[flag]
	_, named := fl.Options[option]
	zz.Modifies()
	v := ValidD(flag, option)
	g := GoodD(flag)
	zz.Ensures("C01 a directory entry flag and value are valid exactly when the table lists them", func() bool {
		return v == (known && named) && g == known
	})
}

func ZG_ValidD(r *zz.R) (flag, option string) {
	if r.Intn(2) == 0 {
		return r.Pick("descriptor", "property"), r.Pick("d16", "d32", "normalfile", "d256")
	}
	return zg_flag(r)
}

//zz:contract AddFlag
func ZC_AddFlag(curflag string, flag string, option string) {
	zz.Requires(Valid(flag, option))
	zz.Modifies()
	s := AddFlag(curflag, flag, option)
	zz.Ensures("C11 a flag is added after the flags there are", func() bool {
		return curflag == "" && s == flag+"="+option || curflag != "" && s == curflag+","+flag+"="+option
	})
}

func ZG_AddFlag(r *zz.R) (curflag, flag, option string) {
	flag, option = zg_flag(r)
	return r.Pick("", "descriptor=d16", "fileordir=file,progress=inprogress"), flag, option
}

//zz:contract AddFlagD
func ZC_AddFlagD(curflag string, flag string, option string) {
	zz.Requires(ValidD(flag, option))
	zz.Modifies()
	s := AddFlagD(curflag, flag, option)
	zz.Ensures("C11 a directory entry flag is added after the flags there are", func() bool {
		return curflag == "" && s == flag+"="+option || curflag != "" && s == curflag+","+flag+"="+option
	})
}

func ZG_AddFlagD(r *zz.R) (curflag, flag, option string) {
	flag, option = ZG_ValidD(r)
	return r.Pick("", "descriptor=d16", "property=normalfile"), flag, option
}

//zz:contract FlagValue
func ZC_FlagValue(flags string, flag string) {
	fs := Zs_Flags(flags)
	zz.Modifies()
	v := FlagValue(flags, flag)
	zz.Ensures("C11 the value of a flag in a flag string is that of one of its entries, and empty only without one", func() bool {
		return v == "" && zz.Forall(0, len(fs), func(i int) bool { return !zs_gives(fs[i], flag) }) ||
			zz.Exists(0, len(fs), func(i int) bool { return zs_gives(fs[i], flag) && v == Zs_Val(fs[i]) })
	})
	zz.Ensures("C11 an entry counts before those after it", func() bool {
		return len(fs) == 0 || !zs_gives(fs[0], flag) || v == Zs_Val(fs[0])
	})
}

// zs_gives: an entry with a value for the flag
func zs_gives(f string, flag string) bool { return Zs_Pair(f) && Zs_Name(f) == flag }

func ZI_FlagValue_none(flags string, flag string, k int) bool {
	fs := Zs_Flags(flags)
	return zz.Forall(0, k, func(j int) bool { return !zs_gives(fs[j], flag) })
}

func ZG_FlagValue(r *zz.R) (flags, flag string) {
	flags = Zg_Flags(r, "descriptor", "transfer", "stream")
	flag, _ = zg_flag(r)
	if r.Intn(2) == 0 {
		flag = r.Pick("descriptor", "transfer", "stream")
	}
	return
}
