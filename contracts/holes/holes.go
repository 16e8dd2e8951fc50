package holes

import zz "github.com/charlesetsmith/saratoga/zzverif"

// zs_in: byte b is in the interval
func zs_in(h Hole, b int) bool { return h.Start <= b && b < h.End }

// zs_cov: byte b is in one of the intervals
func zs_cov(f []Hole, b int) bool {
	return zz.Exists(0, len(f), func(i int) bool { return zs_in(f[i], b) })
}

// zs_full: no empty interval, none before 0
func zs_full(f []Hole) bool {
	return zz.Forall(0, len(f), func(i int) bool { return 0 <= f[i].Start && f[i].Start < f[i].End })
}

// zs_sorted: in order of their starts
func zs_sorted(f []Hole) bool {
	return zz.Forall(1, len(f), func(i int) bool { return f[i-1].Start <= f[i].Start })
}

// zs_apart: from one interval to the next there is at least one byte missing (as far as n)
func zs_apart(f []Hole, n int) bool {
	return zz.Forall(1, n, func(i int) bool { return f[i-1].End < f[i].Start })
}

// zs_ok: what Add keeps true: intervals in order, none empty, none touching the next
func zs_ok(f []Hole) bool { return zs_full(f) && zs_apart(f, len(f)) }

//zz:contract (holes.Holes).optimise modular
func ZC_optimise(fills Holes, b int) {
	zz.RequiresF(func() bool { return zs_full(fills) && zs_sorted(fills) })
	had := zs_cov(fills, b)
	zz.Modifies(fills)
	zz.ResultAlias(fills)
	r := fills.optimise()
	zz.Ensures("C09 merged intervals are in order, not empty and apart", func() bool { return zs_ok(r) })
	zz.Ensures("C09 merging keeps exactly the same bytes", func() bool { return zs_cov(r, b) == had })
}

func ZI_optimise(fills Holes, b int, k int, cur Holes) bool {
	return zs_full(cur) && zs_sorted(cur)
}

func ZI_optimise_apart(fills Holes, b int, k int, cur Holes) bool {
	if k < len(cur) {
		return zs_apart(cur, k+1)
	}
	return zs_apart(cur, len(cur))
}

func ZI_optimise_same(fills Holes, b int, k int, cur Holes) bool {
	return zs_cov(cur, b) == zz.OldBool(func() bool { return zs_cov(fills, b) })
}

func zg_fills(r *zz.R, ok bool) Holes {
	n := r.Intn(6)
	var f Holes
	at := 0
	for i := 0; i < n; i++ {
		s := at + r.Intn(5)
		if ok && i > 0 {
			s++
		}
		e := s + 1 + r.Intn(6)
		f = append(f, Hole{s, e})
		if ok {
			at = e
		} else {
			at = s
		}
	}
	return f
}

func ZG_optimise(r *zz.R) (fills Holes, b int) { return zg_fills(r, false), r.Intn(50) }

//zz:contract (holes.Holes).Add modular
func ZC_Add(fills Holes, start int, end int, b int) {
	zz.RequiresF(func() bool { return zs_ok(fills) })
	zz.Requires(start >= 0)
	had := zs_cov(fills, b)
	zz.Modifies(fills)
	r := fills.Add(start, end)
	zz.Ensures("C09 the record of received bytes stays in order, without empty or touching intervals", func() bool { return zs_ok(r) })
	zz.Ensures("C09 after Add exactly the bytes received before and the new ones are recorded", func() bool {
		return zs_cov(r, b) == (had || start <= b && b < end)
	})
}

func ZG_Add(r *zz.R) (fills Holes, start int, end int, b int) {
	return zg_fills(r, true), r.Intn(40), r.Intn(40), r.Intn(50)
}

// zs_first: 1 if something is missing before the first interval
func zs_first(f Holes) int {
	if f[0].Start != 0 {
		return 1
	}
	return 0
}

// zs_gap: the j'th hole
func zs_gap(f Holes, j int) Hole {
	o := zs_first(f)
	if j < o {
		return Hole{0, f[0].Start}
	}
	return Hole{f[j-o].End, f[j-o+1].Start}
}

//zz:contract (holes.Holes).Getholes modular
func ZC_Getholes(fills Holes) {
	zz.Modifies()
	h := fills.Getholes()
	zz.Ensures("C09 one hole before each interval but a first one that starts at 0", func() bool {
		if len(fills) == 0 {
			return len(h) == 0
		}
		return len(h) == zs_first(fills)+len(fills)-1
	})
	zz.Ensures("C09 each hole is the gap between two intervals, in order", func() bool {
		return zz.Forall(0, len(h), func(j int) bool { return h[j] == zs_gap(fills, j) })
	})
}

func ZI_Getholes(fills Holes, k int, cur []Hole) bool {
	n := k
	if n > len(fills)-1 {
		n = len(fills) - 1
	}
	if k > 0 {
		n += zs_first(fills)
	}
	return len(cur) == n && zz.Forall(0, len(cur), func(j int) bool { return cur[j] == zs_gap(fills, j) })
}

func ZG_Getholes(r *zz.R) Holes { return zg_fills(r, r.Intn(2) == 0) }

// the holes are exactly the bytes missing below the highest byte received
func ZL_Complement(fills Holes, b int) {
	zz.RequiresF(func() bool { return zs_ok(fills) })
	h := fills.Getholes()
	if len(fills) > 0 {
		for i := 0; i < len(fills); i++ { // by induction: ZI_Complement
			zz.Hint(i)
		}
	}
	zz.Ensures("C09 holes are in order, not empty and apart", func() bool { return zs_ok(h) })
	zz.Ensures("C09 a byte is in a hole exactly when it is missing and below the end of what was received", func() bool {
		n := len(fills)
		return zs_cov(h, b) == (n > 0 && b >= 0 && b < fills[n-1].End && !zs_cov(fills, b))
	})
}

// of the bytes below the end of interval k-1 each is in one of the intervals or in one of the holes so far, not both
func ZI_Complement(fills Holes, b int, h Holes, k int) bool {
	if k == 0 {
		return true
	}
	f := zz.Exists(0, k, func(i int) bool { return zs_in(fills[i], b) })
	g := zz.Exists(0, k-1+zs_first(fills), func(i int) bool { return zs_in(h[i], b) })
	return (f || g) == (b >= 0 && b < fills[k-1].End) && !(f && g)
}

func ZG_Complement(r *zz.R) (fills Holes, b int) { return zg_fills(r, true), r.Intn(60) - 5 }
