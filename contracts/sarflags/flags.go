package sarflags

import (
	"os"

	zz "github.com/charlesetsmith/saratoga/zzverif"
)

// The flag tables after the shipped configuration has been loaded by the real
// ReadConfig are the constants of the verification.
func init() {
	zz.RegisterSetup(func() {
		Cliflag = new(Cliflags)
		repo := os.Getenv("ZZREPO")
		if repo == "" {
			repo = "/repo"
		}
		if err := Cliflag.ReadConfig(repo + "/saratoga/saratoga.json"); err != nil {
			os.Stderr.WriteString("config: " + err.Error() + "\n")
			os.Exit(4)
		}
	})
	const m = "github.com/charlesetsmith/saratoga/sarflags."
	zz.RegisterConst(m+"Flags", func() interface{} { return Flags })
	zz.RegisterConst(m+"DirentFlags", func() interface{} { return DirentFlags })
	zz.RegisterConst(m+"TimeStamps", func() interface{} { return TimeStamps })
	zz.RegisterConst(m+"Frameflags", func() interface{} { return Frameflags })
	zz.RegisterConst(m+"MaxDescriptor", func() interface{} { return MaxDescriptor })
}

// zs_fits: the field lies within the 32 bit header
func zs_fits(f Flagtype) bool {
	return f.Len > 0 && f.Len <= 32 && f.Msb < 32 && f.Len+f.Msb <= 32
}

// zs_shift: distance of the field from the least significant bit
func zs_shift(f Flagtype) uint32 { return 32 - f.Len - f.Msb }

// zs_mask: the bits of the field
func zs_mask(f Flagtype) uint32 {
	return uint32(((uint64(1) << f.Len) - 1) << zs_shift(f))
}

//zz:contract Set
func ZC_Set(curflag uint32, field string, flagname string) {
	fl, known := Flags[field]
	want, named := fl.Options[flagname]
	zz.Requires(!known || zs_fits(fl))
	zz.Requires(!named || (zs_mask(fl)>>zs_shift(fl))&want == want)
	zz.Modifies()
	h, err := Set(curflag, field, flagname)
	zz.Ensures("C01 set reports an error exactly for an unknown field or value", func() bool {
		return (err == nil) == (known && named)
	})
	zz.Ensures("C01 set writes the named value into its field", func() bool {
		return err != nil || (h&zs_mask(fl))>>zs_shift(fl) == want
	})
	zz.Ensures("C01 set changes no bit outside its field", func() bool {
		return err != nil || h&^zs_mask(fl) == curflag&^zs_mask(fl)
	})
	zz.Ensures("C01 a refused set leaves the header alone", func() bool {
		return err == nil || h == curflag
	})
}

func ZG_Set(r *zz.R) (curflag uint32, field string, flagname string) {
	curflag = uint32(r.U64())
	field, flagname = zg_flag(r)
	return
}

func zg_flag(r *zz.R) (string, string) {
	var ks []string
	for k := range Flags {
		ks = append(ks, k)
	}
	zg_sort(ks)
	field := ks[r.Intn(len(ks))]
	var os []string
	for o := range Flags[field].Options {
		os = append(os, o)
	}
	zg_sort(os)
	name := os[r.Intn(len(os))]
	switch r.Intn(10) {
	case 0:
		field = r.Str()
	case 1:
		name = r.Str()
	}
	return field, name
}

func zg_sort(ks []string) {
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
}

//zz:contract Get
func ZC_Get(curflag uint32, field string) {
	fl, known := Flags[field]
	zz.Requires(!known || zs_fits(fl))
	zz.Modifies()
	v := Get(curflag, field)
	zz.Ensures("C01 get reads exactly the bits of the field", func() bool {
		return !known || v == (curflag&zs_mask(fl))>>zs_shift(fl)
	})
}

func ZG_Get(r *zz.R) (curflag uint32, field string) {
	curflag = uint32(r.U64())
	field, _ = zg_flag(r)
	return
}

//zz:contract GetStr
func ZC_GetStr(curflag uint32, field string) {
	fl, known := Flags[field]
	zz.Requires(!known || zs_fits(fl))
	zz.Modifies()
	s := GetStr(curflag, field)
	zz.Ensures("C01,C08 the name of a flag is the name of the value in its bits, none if it has no name", func() bool {
		v := (curflag & zs_mask(fl)) >> zs_shift(fl)
		if !known {
			return s == ""
		}
		want, named := fl.Options[s]
		if named {
			return v == want
		}
		return s == "" && zz.ForallKey(func(k string) bool {
			o, ok := fl.Options[k]
			return !ok || o != v
		})
	})
}

func ZG_GetStr(r *zz.R) (curflag uint32, field string) {
	zg_keys()
	return ZG_Get(r)
}

func zg_keys() {
	for _, f := range Flags {
		for o := range f.Options {
			zz.Keys(o)
		}
	}
	for _, f := range DirentFlags {
		for o := range f.Options {
			zz.Keys(o)
		}
	}
	for o := range TimeStamps.Options {
		zz.Keys(o)
	}
}

// what was set is what is read
func ZL_SetGet(h uint32, field, name string) {
	fl, known := Flags[field]
	want, named := fl.Options[name]
	zz.Requires(known && named && zs_fits(fl) && (zs_mask(fl)>>zs_shift(fl))&want == want)
	h2, err := Set(h, field, name)
	v := Get(h2, field)
	s := GetStr(h2, field)
	n := Name(h2, field)
	zz.Ensures("C01 a known flag can be set", func() bool { return err == nil })
	zz.Ensures("C01 the value set is the value read", func() bool { return v == want && fl.Options[s] == want && fl.Options[n] == want })
}

func ZG_SetGet(r *zz.R) (h uint32, field, name string) { return ZG_Set(r) }

// two flags that share no bits do not disturb each other
func ZL_SetOther(h uint32, field, name, other string) {
	a, ka := Flags[field]
	b, kb := Flags[other]
	want, named := a.Options[name]
	zz.Requires(ka && kb && named && zs_fits(a) && zs_fits(b) && (zs_mask(a)>>zs_shift(a))&want == want)
	zz.Requires(zs_mask(a)&zs_mask(b) == 0)
	before := Get(h, other)
	h2, _ := Set(h, field, name)
	after := Get(h2, other)
	zz.Ensures("C01 setting one flag leaves the others as they were", func() bool { return before == after })
}

func ZG_SetOther(r *zz.R) (h uint32, field, name, other string) {
	h, field, name = ZG_Set(r)
	other, _ = zg_flag(r)
	return
}

// directory entry flags

func zs_fitsD(f DirentFlagtype) bool {
	return f.Len > 0 && f.Len <= 16 && f.Msb < 16 && f.Len+f.Msb <= 16
}

func zs_maskD(f DirentFlagtype) uint16 {
	return uint16(((uint32(1) << f.Len) - 1) << (16 - f.Len - f.Msb))
}

func zs_valD(f DirentFlagtype, h uint16) uint16 {
	return (h & zs_maskD(f)) >> (16 - f.Len - f.Msb)
}

//zz:contract SetD
func ZC_SetD(curflag uint16, field string, flagname string) {
	fl, known := DirentFlags[field]
	want, named := fl.Options[flagname]
	zz.Requires(!known || zs_fitsD(fl))
	zz.Requires(!named || zs_valD(fl, want<<(16-fl.Len-fl.Msb)) == want)
	zz.Modifies()
	h, err := SetD(curflag, field, flagname)
	zz.Ensures("C01 directory entry: an error exactly for an unknown field or value", func() bool {
		return (err == nil) == (known && named)
	})
	zz.Ensures("C01 directory entry: the named value is written into its field and nothing else changes", func() bool {
		return err != nil || zs_valD(fl, h) == want && h&^zs_maskD(fl) == curflag&^zs_maskD(fl)
	})
	zz.Ensures("C01 directory entry: a refused set leaves the header alone", func() bool { return err == nil || h == curflag })
}

func ZG_SetD(r *zz.R) (curflag uint16, field string, flagname string) {
	curflag = uint16(r.U64())
	field = r.Pick("property", "descriptor", "sod", "reserved", r.Str())
	flagname = r.Pick("d16", "d32", "d64", "d128", "normalfile", "normaldirectory", "specialfile", "specialdirectory", r.Str(), "sod")
	return
}

//zz:contract GetD
func ZC_GetD(curflag uint16, field string) {
	fl, known := DirentFlags[field]
	zz.Requires(!known || zs_fitsD(fl))
	zz.Modifies()
	v := GetD(curflag, field)
	zz.Ensures("C01 directory entry: get reads exactly the bits of the field", func() bool {
		return !known || v == zs_valD(fl, curflag)
	})
}

func ZG_GetD(r *zz.R) (curflag uint16, field string) {
	curflag, field, _ = ZG_SetD(r)
	return
}

//zz:contract GetDStr
func ZC_GetDStr(curflag uint16, field string) {
	fl, known := DirentFlags[field]
	zz.Requires(!known || zs_fitsD(fl))
	zz.Modifies()
	s := GetDStr(curflag, field)
	zz.Ensures("C01,C08 directory entry: the name of a flag is the name of the value in its bits, none if it has no name", func() bool {
		if !known {
			return s == ""
		}
		v := zs_valD(fl, curflag)
		want, named := fl.Options[s]
		if named {
			return v == want
		}
		return s == "" && zz.ForallKey(func(k string) bool {
			o, ok := fl.Options[k]
			return !ok || o != v
		})
	})
}

func ZG_GetDStr(r *zz.R) (curflag uint16, field string) {
	zg_keys()
	return ZG_GetD(r)
}

// timestamp flags

func zs_valT(h uint8) uint8 {
	m := uint8(((uint32(1) << TimeStamps.Len) - 1) << (8 - TimeStamps.Len - TimeStamps.Msb))
	return (h & m) >> (8 - TimeStamps.Len - TimeStamps.Msb)
}

func zs_fitsT() bool {
	return TimeStamps.Len > 0 && TimeStamps.Len <= 8 && TimeStamps.Msb < 8 && TimeStamps.Len+TimeStamps.Msb <= 8
}

//zz:contract SetT
func ZC_SetT(curflag uint8, flagname string) {
	want, named := TimeStamps.Options[flagname]
	zz.Requires(zs_fitsT())
	zz.Requires(!named || zs_valT(want<<(8-TimeStamps.Len-TimeStamps.Msb)) == want)
	m := uint8(((uint32(1) << TimeStamps.Len) - 1) << (8 - TimeStamps.Len - TimeStamps.Msb))
	zz.Modifies()
	h, err := SetT(curflag, flagname)
	zz.Ensures("C01 timestamp: an error exactly for an unknown type", func() bool { return (err == nil) == named })
	zz.Ensures("C01 timestamp: the named type is written and nothing else changes", func() bool {
		return err != nil || zs_valT(h) == want && h&^m == curflag&^m
	})
	zz.Ensures("C01 timestamp: a refused set leaves the header alone", func() bool { return err == nil || h == curflag })
}

func ZG_SetT(r *zz.R) (curflag uint8, flagname string) {
	return uint8(r.U64()), r.Pick("localinterp", "posix32", "posix64", "posix32_32", "posix64_32", "epoch2000_32", r.Str())
}

//zz:contract GetT
func ZC_GetT(curflag uint8) {
	zz.Requires(zs_fitsT())
	zz.Modifies()
	v := GetT(curflag)
	zz.Ensures("C01 timestamp: get reads exactly the type", func() bool { return v == zs_valT(curflag) })
}

func ZG_GetT(r *zz.R) uint8 { return uint8(r.Intn(12)) }

//zz:contract GetTStr
func ZC_GetTStr(curflag uint8) {
	zz.Requires(zs_fitsT())
	zz.Modifies()
	s := GetTStr(curflag)
	n := NameT(curflag)
	zz.Ensures("C01,C08 timestamp: the name of the type is the name of its value, none if it has no name", func() bool {
		v := zs_valT(curflag)
		return zs_nameT(s, v) && zs_nameT(n, v)
	})
}

func zs_nameT(s string, v uint8) bool {
	want, named := TimeStamps.Options[s]
	if named {
		return v == want
	}
	return s == "" && zz.ForallKey(func(k string) bool {
		o, ok := TimeStamps.Options[k]
		return !ok || o != v
	})
}

func ZG_GetTStr(r *zz.R) uint8 {
	zg_keys()
	return uint8(r.Intn(12))
}

//zz:contract Valid
func ZC_Valid(flag string, option string) {
	fl, known := Flags[flag]
	_, named := fl.Options[option]
	zz.Modifies()
	v := Valid(flag, option)
	g := Good(flag)
	zz.Ensures("C01 a flag and value are valid exactly when the table lists them", func() bool {
		return v == (known && named) && g == known
	})
}

func ZG_Valid(r *zz.R) (flag, option string) { return zg_flag(r) }
