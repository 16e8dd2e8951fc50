package sarflags

import (
	zz "github.com/charlesetsmith/saratoga/zzverif"
)

//zz:contract (*sarflags.Cliflags).CopyCliflags modular
func ZC_CopyCliflags(s *Cliflags) {
	o := *s
	n := len(s.Global)
	zz.Modifies()
	d, err := s.CopyCliflags()
	zz.Ensures("C22 the settings are copied unless they have no header flags", func() bool {
		return (err == nil) == (n > 0) && (err == nil) == (d != nil)
	})
	zz.Ensures("C22 the copy has every setting of the original", func() bool {
		return err != nil || d.V4Multicast == o.V4Multicast && d.V6Multicast == o.V6Multicast && d.Port == o.Port &&
			d.Timestamp == o.Timestamp && d.Timeout == o.Timeout && d.Timezone == o.Timezone && d.Prompt == o.Prompt &&
			d.Ppad == o.Ppad && d.Sardir == o.Sardir && d.Buffersize == o.Buffersize && d.Bcount == o.Bcount
	})
	zz.Ensures("C22 the copy has exactly the header flags of the original", func() bool {
		return err != nil || zz.ForallKey(func(k string) bool {
			v, ok := d.Global[k]
			w, is := o.Global[k]
			return ok == is && v == w
		})
	})
	zz.Ensures("C22 the copy has header flags of its own", func() bool {
		return err != nil || !zz.SameMap(d.Global, s.Global)
	})
}
