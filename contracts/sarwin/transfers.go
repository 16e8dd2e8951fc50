package sarwin

import (
	zz "github.com/charlesetsmith/saratoga/zzverif"
)

// zs_table: a transfer table: every transfer has a peer and a connection
func zs_table(ts []Transfer) bool {
	return zz.Forall(0, len(ts), func(i int) bool { return ts[i].Peer != nil && ts[i].Conn != nil })
}

func zs_is(t *Transfer, direction bool, session uint32, peer string) bool {
	return t.Direction == direction && t.Session == session && t.Peer.String() == peer
}

//zz:contract sarwin.Lookup
func ZC_Lookup(before []Transfer, direction bool, session uint32, peer string) {
	zz.RequiresF(func() bool { return zs_table(before) })
	Transfers = before
	zz.Modifies()
	t := Lookup(direction, session, peer)
	zz.Ensures("C17 a transfer looked up is one of the table with this direction, session and peer", func() bool {
		return t == nil || zz.Exists(0, len(before), func(i int) bool {
			return t == &before[i] && zs_is(&before[i], direction, session, peer)
		})
	})
	zz.Ensures("C17 a transfer is not found only if the table has none", func() bool {
		return t != nil || zz.Forall(0, len(before), func(i int) bool { return !zs_is(&before[i], direction, session, peer) })
	})
}

func ZG_Lookup(r *zz.R) ([]Transfer, bool, uint32, string) {
	ts := zg_table(r)
	d, s, p := zg_key(r, ts)
	return ts, d, s, p
}

//zz:contract sarwin.Match
func ZC_Match(before []Transfer, addr string, session uint32) {
	zz.RequiresF(func() bool { return zs_table(before) })
	Transfers = before
	zz.Modifies()
	t := Match(addr, session)
	zz.Ensures("C17 a transfer matched is one of the table with this remote address and session", func() bool {
		return t == nil || zz.Exists(0, len(before), func(i int) bool {
			return t == &before[i] && zs_matches(&before[i], addr, session)
		})
	})
	zz.Ensures("C17 no transfer matches only if the table has none", func() bool {
		return t != nil || zz.Forall(0, len(before), func(i int) bool { return !zs_matches(&before[i], addr, session) })
	})
}

func zs_matches(t *Transfer, addr string, session uint32) bool {
	return t.Conn.RemoteAddr().String() == addr && t.Session == session
}

func ZG_Match(r *zz.R) ([]Transfer, string, uint32) {
	ts := zg_table(r)
	_, s, p := zg_key(r, ts)
	return ts, p, s
}

// k is any place in the table, read as the place of the last transfer with the key of t
//
//zz:contract (*sarwin.Transfer).Remove
func ZC_Remove(t *Transfer, before []Transfer, k int) {
	zz.Requires(t.Peer != nil)
	zz.RequiresF(func() bool { return zs_table(before) })
	Transfers = before
	o := append([]Transfer(nil), before...)
	n := len(o)
	last := k >= 0 && k < n && zs_is(&o[k], t.Direction, t.Session, t.Peer.String()) &&
		zz.Forall(k+1, n, func(j int) bool { return !zs_is(&o[j], t.Direction, t.Session, t.Peer.String()) })
	none := zz.Forall(0, n, func(j int) bool { return !zs_is(&o[j], t.Direction, t.Session, t.Peer.String()) })
	zz.Modifies(&Transfers, before)
	err := t.Remove()
	zz.Ensures("C17 a transfer is removed exactly when the table has it", func() bool { return (err != nil) == none })
	zz.Ensures("C17 a failed removal changes nothing", func() bool {
		return err == nil || len(Transfers) == n && zz.Forall(0, n, func(i int) bool { return zs_eq(Transfers[i], o[i]) })
	})
	zz.Ensures("C17 removal takes one transfer off the table", func() bool { return err != nil || len(Transfers) == n-1 })
	zz.Ensures("C17 all the other transfers stay, in order", func() bool {
		if !last || err != nil {
			return true
		}
		return zz.Forall(0, k, func(i int) bool { return zs_eq(Transfers[i], o[i]) }) &&
			zz.Forall(k, n-1, func(i int) bool { return zs_eq(Transfers[i], o[i+1]) })
	})
	zz.Ensures("C17 the table is left unlocked", func() bool { return zz.Unlocked(&Trmu) })
}

func zs_eq(a, b Transfer) bool {
	return a.Direction == b.Direction && a.Session == b.Session && a.Conn == b.Conn && a.Peer == b.Peer && a.Ttype == b.Ttype &&
		a.Filename == b.Filename && a.Fp == b.Fp && a.Havemeta == b.Havemeta && len(a.Data) == len(b.Data) &&
		a.Dcount == b.Dcount && a.Framecount == b.Framecount && a.Progress == b.Progress && a.Inrespto == b.Inrespto &&
		len(a.Curfills) == len(b.Curfills)
}

func ZG_Remove(r *zz.R) (*Transfer, []Transfer, int) {
	ts := zg_table(r)
	t := &Transfer{Direction: r.Bool(), Session: uint32(r.Intn(4)), Peer: zg_addr(r)}
	if len(ts) > 0 && r.Bool() {
		*t = ts[r.Intn(len(ts))]
	}
	return t, ts, r.Intn(len(ts) + 1)
}

// a transfer that Match finds and Remove is told to remove is the one that goes (the rmtran command);
// k is the place of the transfer
func ZL_Rmtran(before []Transfer, addr string, session uint32, k int) {
	zz.RequiresF(func() bool { return zs_table(before) })
	zz.Requires(k >= 0 && k < len(before))
	Transfers = before
	o := append([]Transfer(nil), before...)
	n := len(o)
	key := zz.Forall(0, n, func(j int) bool {
		return j == k || !zs_is(&o[j], o[k].Direction, o[k].Session, o[k].Peer.String()) && !zs_matches(&o[j], addr, session)
	})
	t := Match(addr, session)
	if t == nil {
		return
	}
	err := t.Remove()
	zz.Ensures("C17 the transfer matched, and no other, is removed", func() bool {
		if !key || !zs_matches(&o[k], addr, session) {
			return true
		}
		return err == nil && len(Transfers) == n-1 && zz.Forall(0, k, func(i int) bool { return zs_eq(Transfers[i], o[i]) }) &&
			zz.Forall(k, n-1, func(i int) bool { return zs_eq(Transfers[i], o[i+1]) })
	})
}

func ZG_Rmtran(r *zz.R) ([]Transfer, string, uint32, int) {
	ts := zg_table(r)
	_, s, p := zg_key(r, ts)
	return ts, p, s, r.Intn(len(ts) + 1)
}
