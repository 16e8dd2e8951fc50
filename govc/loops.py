"""Loops: cut at the header with inferred, machine-checked invariants.

The loop body is first executed without obligations from an arbitrary iteration
(dry run).  That yields which registers and heap locations change, which of them are
affine in the iteration count k, and what each iteration stores.  From this follow
 * exact forms      v(k) = v(0) + c*k,
 * the history      for all j < k: some back-edge path condition held at j,
 * candidate effect and frame invariants for memory and maps, kept only if they hold
   at entry and are preserved by every back edge (Houdini).
Everything else that changes is havoced.
"""
import os
import time
import z3
from vals import *
from engine_types import VisBase


DEBUG = bool(os.environ.get('ZZD'))


def same(a, b):
    if a is b:
        return True
    if z3.is_expr(a):
        return z3.is_expr(b) and a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, StructV):
        return all(same(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, TupleV):
        return all(same(x, y) for x, y in zip(a.v, b.v))
    if isinstance(a, SliceV):
        return a.obj == b.obj and a.off.eq(b.off) and a.len.eq(b.len) and a.cap.eq(b.cap) and a.nil.eq(b.nil)
    if isinstance(a, PtrV):
        if a.obj != b.obj or len(a.path) != len(b.path) or not a.nil.eq(b.nil):
            return False
        for x, y in zip(a.path, b.path):
            if isinstance(x, tuple) and isinstance(y, tuple):
                if not x[1].eq(y[1]):
                    return False
            elif x != y:
                return False
        return True
    if isinstance(a, (OPtr, OpaqueV)):
        return a.id.eq(b.id)
    if isinstance(a, IfaceV):
        if not a.nil.eq(b.nil):
            return False
        if is_true(a.nil):
            return True
        return a.id is not None and b.id is not None and a.id.eq(b.id)
    if isinstance(a, MapV):
        return a.obj == b.obj and a.nil.eq(b.nil)
    if isinstance(a, ArrV):
        return a.mem is b.mem
    if isinstance(a, FuncV):
        return a.name == b.name and len(a.binds) == len(b.binds) and all(same(x, y) for x, y in zip(a.binds, b.binds))
    return False


def mapval(v, f):
    if z3.is_expr(v):
        return f(v)
    if isinstance(v, StructV):
        return StructV([mapval(x, f) for x in v.f])
    if isinstance(v, TupleV):
        return TupleV([mapval(x, f) for x in v.v])
    if isinstance(v, SliceV):
        return SliceV(v.obj, f(v.off), f(v.len), f(v.cap), f(v.nil), v.sub)
    if isinstance(v, PtrV):
        return PtrV(v.obj, tuple(('i', f(x[1])) if isinstance(x, tuple) else x for x in v.path), f(v.nil))
    if isinstance(v, OPtr):
        return OPtr(f(v.id))
    if isinstance(v, OpaqueV):
        return OpaqueV(f(v.id))
    if isinstance(v, IfaceV):
        return IfaceV(f(v.nil), None if v.dyn is None else (v.dyn[0], mapval(v.dyn[1], f)), None if v.id is None else f(v.id))
    if isinstance(v, (MapV, FuncV)):
        return v
    raise Unsupported('value in loop effect')


class Var:
    """a loop-carried location"""

    def __init__(self, key, t, entry, kind):
        self.key, self.t, self.entry, self.kind = key, t, entry, kind
        # kind: int, slice, mem, map, iter, chan, other
        self.step = None       # affine step, None: not (yet) known to be affine
        self.lstep = None      # slices: step of len / off
        self.ostep = None
        self.mode = 'view' if kind == 'slice' and entry.obj is not None else 'fresh'
        self.cur = None        # value at the head of iteration k
        self.mem = None        # its memory at the head (fresh slices, mem)


class Loop:
    def __init__(self, E, st, fr, b, ph):
        self.E, self.st, self.b = E, st, b
        self.fn = fr.fn
        self.body = fr.fn.headers[b]
        self.ph = ph
        self.depth = len(st.frames) - 1
        self.vars = {}
        self.segs = False
        self.mark = E.P.n
        self.k40 = E.fresh('k', BV40)
        self.K = zext(self.k40)
        self.T = E.T

    # -------------------------------------------------------- variables
    def kindof(self, t, v):
        if isinstance(v, SliceV):
            return 'slice'
        if z3.is_bv(v) and t is not None and self.T.kind(t) == 'int':
            return 'int'
        return 'other'

    def addvar(self, key, t, entry, kind=None):
        if key not in self.vars:
            self.vars[key] = Var(key, t, entry, kind or self.kindof(t, entry))
            return True
        return False

    def affine(self, entry, step):
        w = entry.size()
        if step == 0:
            return entry
        k = self.K if w == 64 else z3.Extract(w - 1, 0, self.K)
        return norm(entry + bv(step, w) * k)

    def headvalue(self, s, v):
        """value of variable v at the head, and memory for it"""
        E = self.E
        if v.kind == 'int':
            if v.step is not None:
                return self.affine(v.entry, v.step)
            return E.fbv('lv', v.entry.size())
        if v.kind == 'slice':
            e = v.entry
            if v.mode == 'view':
                ln = self.affine(e.len, v.lstep) if v.lstep is not None else E.flen('lvlen')
                off = self.affine(e.off, v.ostep) if v.ostep is not None else E.fbv('lvoff')
                end = add(e.off, e.cap)
                if v.ostep is None:
                    s.assume(And(sle(bv(0), off), sle(off, end)))
                cap = e.cap if v.ostep == 0 else sub(end, off)
                if v.lstep is None:
                    s.assume(sle(ln, cap))
                return SliceV(e.obj, off, ln, cap, And(e.nil, eq(ln, bv(0))), True)
            et = self.T.elem(v.t)
            E.P.n += 1
            v.mem = MBase(et, 'lvmem!%d' % E.P.n)
            o = E.newobj(s, 'arr', et, v.mem)
            v.obj = o
            ln = self.affine(e.len, v.lstep) if v.lstep is not None else E.flen('lvlen')
            if v.lstep:
                s.assume(And(sle(bv(0), ln), slt(ln, bv(1 << 41))))
            return SliceV(o, bv(0), ln, ln, And(E.fbool('lvnil'), eq(ln, bv(0))))
        if v.kind == 'mem':
            k, et = E.otype[v.key[1]]
            E.P.n += 1
            v.mem = MBase(et, 'lvmem!%d' % E.P.n)
            return v.mem
        if v.kind == 'map':
            k, t = E.otype[v.key[1]]
            E.P.n += 1
            v.mem = MapBase(self.T.under(t)['key'], self.T.elem(t), 'lvmap!%d' % E.P.n)
            return v.mem
        if v.kind == 'iter':
            e = v.entry
            E.P.n += 1
            v.vis = z3.Array('vis!%d' % E.P.n, BV64, z3.BoolSort())
            return ('map', e[1], VisBase(v.vis), e[3])
        if v.kind == 'chan':
            s.tainted('sends inside loops are not modelled')
            return ()
        if isinstance(v.entry, PtrV) and v.entry.obj is None and is_true(v.entry.nil):
            return OPtr(E.fbv('lvp'))
        if isinstance(v.entry, (PtrV, MapV, FuncV)):
            raise Unsupported('pointer that changes in a loop')
        if isinstance(v.entry, ArrV):
            E.P.n += 1
            return ArrV(MBase(self.T.elem(v.t), 'lvmem!%d' % E.P.n), v.entry.n)
        return E.sym(s, v.t, 'lv')

    def head(self):
        """state at the head of an arbitrary iteration"""
        s = self.st.copy()
        f = s.frames[-1]
        if self.segs:
            s.heap[('ghost', 'seg')] = (s.heap[('ghost', 'seg')][0], None, ())
        for v in self.vars.values():
            v.cur = self.headvalue(s, v)
            self.put(s, f, v.key, v.cur)
        return s

    def put(self, s, f, key, val):
        if key[0] == 'r':
            f.regs[key[1]] = val
        elif key[0] == 'c':
            o, path = key[1], key[2]
            s.heap[o] = self.E.upd(s, self.E.content(s, o), path, val)
        else:
            s.heap[key[1]] = val

    def get(self, s, ph, key):
        if key[0] == 'r':
            return ph[key[1]]
        if key[0] == 'c':
            v = self.E.content(s, key[1])
            for el in key[2]:
                v = self.E.sel(s, v, el)
            return v
        return s.heap[key[1]]

    # -------------------------------------------------------- dry run
    def dry(self, hs):
        E = self.E
        s = hs.copy()
        s.quiet = True
        s.pure = False
        backs = []

        def cb(bs, ph):
            backs.append((bs, {i['r']: v for i, v in ph}))
        s.stopat = (self.depth, self.b, self.body, cb)
        f = s.frames[-1]
        vals = [(i, f.regs[i['r']]) for i, _ in self.ph]
        f.cuts = f.cuts | {self.b}
        E.move(f, self.b, vals)
        E.explore(s, lambda *_: None, 400)
        return backs

    def diff(self, hs, bs, o, t, a, c, path):
        """new heap variables from the difference of a cell; True if something was added"""
        if a is c or same(a, c):
            return False
        if isinstance(a, StructV):
            r = False
            for i, fl in enumerate(self.T.fields(t)):
                r |= self.diff(hs, bs, o, fl['t'], a.f[i], c.f[i], path + (i,))
            return r
        key = ('c', o, path)
        if key in self.vars:
            return False
        e = self.E.content(self.st, o)
        for el in path:
            e = self.E.sel(self.st, e, el)
        return self.addvar(key, t, e)

    def own(self, x):
        """does the term use values made inside this loop?"""
        todo, seen = [x], set()
        while todo:
            y = todo.pop()
            if y.get_id() in seen:
                continue
            seen.add(y.get_id())
            if z3.is_const(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = y.decl().name().rsplit('!', 1)
                if len(n) == 2 and n[1].isdigit() and int(n[1]) > self.mark:
                    return True
            todo += y.children()
        return False

    def grow(self, hs, backs):
        """add variables for everything the body changed"""
        E = self.E
        r = False
        for bs, ph in backs:
            for o, c in bs.heap.items():
                if isinstance(o, tuple) and o[0] == 'ghost':
                    a = hs.heap.get(o)
                    if o[1] == 'seg' and a is not None and c[0] > a[0]:
                        # the body reads datagrams: what is sent for one is settled before the next is read
                        if not self.segs:
                            self.segs = r = True
                            E.segloops.add((self.fn.name, self.b))
                            E.endseg(self.st)
                        continue
                    if o[1] == 'ospaths':
                        have = {x.get_id() for x in a or ()}
                        new = [x for x in c if x.get_id() not in have]
                        if not new:
                            continue
                        if any(self.own(x) for x in new):
                            raise Unsupported('paths that depend on the iteration')
                        # the same paths in every iteration: counted as used before the loop
                        self.st.heap[o] = self.st.heap.get(o, ()) + tuple(new)
                        r = True
                        continue
                    if a is c or z3.is_expr(a) and z3.is_expr(c) and a.eq(c) or a is None and z3.is_expr(c) and z3.is_const(c):
                        continue
                    raise Unsupported('files or the network are used in a loop')
                if o in hs.heap:
                    a = hs.heap[o]
                elif isinstance(o, tuple) and o[0] == 'g':
                    a = E.ginits[o[1]][0]
                    if o not in self.st.heap:
                        self.st.heap[o] = a
                else:
                    continue
                if a is c:
                    continue
                if o not in self.st.heap and not (isinstance(o, tuple) and o[0] == 'g'):
                    continue      # the loop variable's own object
                kind = E.otype[o][0] if o in E.otype else 'cell'
                if isinstance(a, Mem):
                    r |= self.addvar(('h', o), None, self.st.heap[o], 'mem')
                elif isinstance(a, MapMem):
                    r |= self.addvar(('h', o), None, self.st.heap[o], 'map')
                elif isinstance(a, tuple):
                    if a and a[0] == 'map':
                        r |= self.addvar(('h', o), None, self.st.heap[o], 'iter')
                    elif kind == 'chan':
                        r |= self.addvar(('h', o), None, self.st.heap[o], 'chan')
                    else:
                        raise Unsupported('iterator in loop')
                else:
                    t = self.T.elem(E.globals[o[1]]['t']) if isinstance(o, tuple) and o[0] == 'g' else E.otype[o][1]
                    r |= self.diff(hs, bs, o, t, a, c, ())
        return r

    def classify(self, backs):
        """find affine variables; True if the set of forms changed"""
        ch = False
        for v in self.vars.values():
            if v.cur is None:
                continue
            vs = [self.get(bs, ph, v.key) for bs, ph in backs]
            if v.kind == 'int':
                if v.step is None:
                    ds = {affdiff(x, v.cur) for x in vs}
                    if len(ds) == 1 and None not in ds:
                        v.step = ds.pop()
                        ch = True
            elif v.kind == 'slice':
                if v.mode == 'view':
                    if any(not isinstance(x, SliceV) or x.obj != v.entry.obj for x in vs):
                        v.mode = 'fresh'
                        v.lstep = v.ostep = None
                        ch = True
                        continue
                    if v.ostep is None:
                        ds = {affdiff(x.off, v.cur.off) for x in vs}
                        if len(ds) == 1 and None not in ds:
                            v.ostep = ds.pop()
                            ch = True
                if v.lstep is None:
                    ds = {affdiff(x.len, v.cur.len) for x in vs}
                    if len(ds) == 1 and None not in ds:
                        v.lstep = ds.pop()
                        ch = True
        return ch

    # -------------------------------------------------------- symbols
    def known(self, e):
        """only symbols from before the loop, and k"""
        memo = self.__dict__.setdefault('_known', {})
        kid = self.k40.get_id()
        st = [e]
        while st:
            x = st[-1]
            xi = x.get_id()
            if xi in memo:
                st.pop()
                continue
            ch = x.children()
            todo = [c for c in ch if c.get_id() not in memo]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            ok = all(memo[c.get_id()][0] for c in ch)
            if ok and xi != kid and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if '!' in n:
                    suf = n.rsplit('!', 1)[1].split('.')[0]
                    ok = suf.isdigit() and int(suf) <= self.mark
                elif '#' in n:
                    ok = False
            memo[xi] = (ok, x)
        return memo[e.get_id()][0]

    def knownval(self, v):
        ok = [True]

        def f(e):
            if not self.known(e):
                ok[0] = False
            return e
        try:
            mapval(v, f)
        except Unsupported:
            return False
        return ok[0]

    def at(self, e, t):
        return z3.substitute(e, (self.K, t), (self.k40, simp(z3.Extract(39, 0, t)))) if z3.is_expr(e) else e

    # -------------------------------------------------------- candidates
    def candidates(self, hs, backs):
        """list of functions (values of the variables, k, state) -> formula"""
        E = self.E
        out = []
        n0 = len(hs.pc)
        for v in self.vars.values():
            if v.kind == 'int' and v.step == (1 << 64) - 1 and v.entry.size() == 64:
                # counting down: never below zero
                out.append(('countdown', lambda vs, k, s, v=v: z3.ULE(k, v.entry)))
            if v.kind == 'mem' or (v.kind == 'slice' and v.mode == 'fresh'):
                et = self.T.elem(v.t) if v.kind == 'slice' else E.otype[v.key[1]][1]
                if v.kind == 'slice':
                    e = v.entry
                    if e.obj is None:
                        m0 = MZero(et)
                    else:
                        em = E.content(self.st, e.obj)
                        m0 = MFun(lambda ctx, i, em=em, off=e.off: em.read(ctx, add(off, i)))
                else:
                    m0 = v.entry
                stores = []
                for bs, ph in backs:
                    m = self.get(bs, ph, v.key)
                    conds = bs.pc[n0:]
                    # with one way round the loop every earlier iteration took it
                    exact = [c for c in conds if self.known(c)] if len(backs) > 1 else []
                    cond = And(*exact)
                    if isinstance(m, SliceV):
                        if m.obj is None:
                            stores = None
                            break
                        mm = E.content(bs, m.obj)
                        if not (isval(m.off) and cval(m.off) == 0):
                            stores = None
                            break
                        m = mm
                    chain = self.chain(m, v.mem)
                    if chain is None:
                        stores = None
                        break
                    for idx, val in chain:
                        stores.append((cond, idx, val))
                sv = v
                if v.kind == 'mem' and self.st.mods is not None and self.st.mode == 'verify':
                    rng = [a.dyn[1] if isinstance(a, IfaceV) and a.dyn else a for a in self.st.mods if not isinstance(a, tuple)]
                    rng = [a for a in rng if isinstance(a, SliceV) and a.obj == v.key[1]]
                    if not E.covers(v.key[1], rng):
                        out.append(('frame', lambda vs, k, s, sv=sv, et=et, m0=m0, rng=tuple(rng): self.outside(s, vs, sv, et, m0, rng)))
                if stores is None:
                    continue
                if v.kind == 'slice':
                    out.append(('keep', lambda vs, k, s, sv=sv, et=et, m0=m0: self.unchanged(s, vs, sv, et, m0, bv(0), sv.entry.len)))
                effs, lows, highs = [], [], []
                for cond, idx, val in stores:
                    if not self.known(idx):
                        lows = highs = None
                        continue
                    d, _ = affine(idx)
                    co = d.get(self.K.get_id(), (None, 0))[1]
                    if co >> 63:
                        lows = highs = None
                        continue
                    if self.knownval(val):
                        effs.append((cond, idx, val))
                    if lows is not None:
                        lows.append(self.at(idx, bv(0)))
                        highs.append(idx)
                if effs:
                    out.append(('effects', lambda vs, k, s, sv=sv, et=et, effs=tuple(effs): self.effects(s, vs, sv, et, effs, k),
                                lambda vs, s, sv=sv, et=et, effs=tuple(effs): self.effects(s, vs, sv, et, effs, self.K, True)))
                if v.kind == 'mem' and lows:
                    def least(xs):
                        """the smallest of terms that differ by constants"""
                        m = xs[0]
                        for x in xs[1:]:
                            dd = affdiff(x, m)
                            if dd is None:
                                return None
                            if dd >> 63:
                                m = x
                        return m
                    lo, hi = least(lows), least(highs)
                    if lo is not None:
                        out.append(('low', lambda vs, k, s, sv=sv, et=et, m0=m0, lo=lo: self.unchanged(s, vs, sv, et, m0, bv(0), lo)))
                    if hi is not None:
                        out.append(('high', lambda vs, k, s, sv=sv, et=et, m0=m0, hi=hi: self.unchanged(s, vs, sv, et, m0, self.at(hi, k), bv(1 << 41))))
            if v.kind == 'iter':
                e = v.entry
                mv = e[1]
                m = E.content(hs, mv.obj)
                if ('h', mv.obj) not in self.vars:
                    key = v.key

                    def sub_(vs, k, s, key=key, m=m):
                        vis = vs[key][2]
                        return E.P.forall(None, None, lambda kk: Implies(vis.has(kk), m.has(s, kk)), kind='str', name='vissub')
                    out.append(('visited', sub_))
                    self.mapcands(hs, backs, v, m, out)
                self.keycands(hs, backs, v, out, n0)
        return out

    def keycands(self, hs, backs, it, out, n0):
        """a variable that changes for one key only: changed once that key has been visited"""
        for v in self.vars.values():
            if v.kind != 'other' or not z3.is_expr(v.cur) or not z3.is_expr(v.entry):
                continue
            for bs, ph in backs:
                x = self.get(bs, ph, v.key)
                vis = bs.heap[it.key[1]][2]
                if same(x, v.cur) or not hasattr(vis, 'key'):
                    continue
                for c in bs.pc[n0:]:
                    if not z3.is_eq(c) or not any(vis.key.eq(a) for a in c.children()):
                        continue
                    one = c.arg(1) if vis.key.eq(c.arg(0)) else c.arg(0)
                    new = z3.substitute(x, (v.cur, v.entry), (vis.key, one))
                    if not self.known(one) or not self.known(new):
                        continue

                    def f(vs, k, s, v=v, it=it, one=one, new=new):
                        return eq(vs[v.key], Ite(vs[it.key][2].has(one), new, v.entry))
                    out.append(('onekey', f))
                    while z3.is_app(new) and new.decl().eq(self.E.S.cat) and self.E.S.text(new.arg(0)) == b'':
                        new = new.arg(1)
                    f.exit = lambda s, m, v=v, one=one, new=new: eq(v.cur, Ite(m.has(s, one), new, v.entry))
                    f.it = it.key[1]

    def mapcands(self, hs, backs, it, src, out):
        E = self.E
        for v in self.vars.values():
            if v.kind != 'map':
                continue
            vt = self.T.elem(E.otype[v.key[1]][1])
            for bs, ph in backs:
                m = bs.heap[v.key[1]]
                if isinstance(m, MapStore) and m.prev is v.mem:
                    vis = bs.heap[it.key[1]][2]
                    if not hasattr(vis, 'key') or not m.k.eq(vis.key):
                        continue
                    kt = vis.key

                    def eff(vs, k, s, kt=kt, val=m.v, v=v, it=it, vt=vt):
                        M, V = vs[v.key], vs[it.key][2]
                        return E.P.forall(None, None, lambda kk: Implies(V.has(kk), And(M.has(s, kk), E.deepeq(
                            s, M.get(s, kk), mapval(val, lambda e: z3.substitute(e, (kt, kk))), vt))), kind='str', name='mapeff')
                    out.append(('mapeffect', eff))

                    def keep(vs, k, s, v=v, it=it, vt=vt):
                        M, V = vs[v.key], vs[it.key][2]
                        M0 = v.entry
                        return E.P.forall(None, None, lambda kk: Or(V.has(kk), And(eq(M.has(s, kk), M0.has(s, kk)), E.deepeq(
                            s, M.get(s, kk), M0.get(s, kk), vt))), kind='str', name='mapkeep')
                    out.append(('mapkeep', keep))
                    break

    def memof(self, s, vs, v):
        x = vs[v.key]
        if isinstance(x, SliceV):
            if x.obj is None:
                return None, bv(0)
            return self.E.content(s, x.obj), x.off
        return x, bv(0)

    def unchanged(self, s, vs, v, et, m0, lo, hi):
        m, off = self.memof(s, vs, v)
        if m is None:
            return TRUE
        snap = self.E.snap(s)
        return self.E.P.forall(lo, hi, lambda x: self.E.deepeq(snap, m.read(snap, add(off, x)), m0.read(snap, x), et), name='keep')

    def outside(self, s, vs, v, et, m0, rng):
        m, off = self.memof(s, vs, v)
        snap = self.E.snap(s)
        return self.E.P.forall(bv(0), bv(1 << 40), lambda x: Or(*[ult(sub(x, a.off), a.cap) for a in rng], self.E.deepeq(
            snap, m.read(snap, x), m0.read(snap, x), et)), name='frame')

    def effects(self, s, vs, v, et, effs, k, split=False):
        """forall t < k: the stores of iteration t are there; split: as goals for k + 1"""
        m, off = self.memof(s, vs, v)
        if m is None:
            return [] if split else TRUE
        snap = self.E.snap(s)

        def body(t):
            out = []
            for cond, idx, val in effs:
                ix = norm(self.at(idx, t))
                out.append(Implies(self.at(cond, t), self.E.deepeq(snap, m.read(snap, add(off, ix)), mapval(val, lambda e: self.at(e, t)), et)))
            return And(*out)
        q = self.E.P.forall(bv(0), k, body, name='effect')
        return [body(k), q] if split else q

    def chain(self, m, base):
        """stores of m on top of base, newest last; None if the shape is different"""
        out = []
        while m is not base:
            if isinstance(m, MStore):
                out.append((m.idx, m.val))
                m = m.prev
            elif isinstance(m, MCopy):
                n = simp(m.n)
                if isval(n) and cval(n) <= 16:
                    for j in range(cval(n) - 1, -1, -1):
                        out.append((add(m.doff, bv(j)), m.src.read(self.st, add(m.soff, bv(j)))))
                    m = m.prev
                    continue
                # copy of the base's own prefix (append): same contents
                if m.src is base and isval(simp(m.doff)) and cval(simp(m.doff)) == 0 and isval(m.soff) and cval(m.soff) == 0:
                    m = base
                    continue
                return None
            else:
                return None
        return out[::-1]

    def values(self, bs, ph):
        return {k: self.get(bs, ph, k) for k in self.vars}

    # -------------------------------------------------------- main
    def run(self):
        E = self.E
        st = self.st
        for i, val in self.ph:
            self.addvar(('r', i['r']), i['t'], val)
        for rnd in range(14):
            mark = E.P.n
            hs = self.head()
            self._known = {}
            backs = self.dry(hs)
            g = self.grow(hs, backs)
            c = self.classify(backs)
            if not g and not c:
                break
        else:
            raise Unsupported('loop analysis does not settle')
        # things that do not change on any back edge keep their entry value
        stable = [v for v in self.vars.values()
                  if v.kind in ('other',) and all(same(self.get(bs, ph, v.key), v.cur) for bs, ph in backs)]
        if stable:
            for v in stable:
                del self.vars[v.key]
                self.put(self.st, self.st.frames[-1], v.key, v.entry)
            hs = self.head()
            self._known = {}
            backs = self.dry(hs)
        invs = []
        n0 = len(hs.pc)
        # history: what every earlier iteration satisfied
        alts = []
        for bs, ph in backs:
            cs = {c.get_id(): c for c in bs.pc[n0:] if self.known(c)}
            alts.append(And(*cs.values()))
        hist = Or(*alts) if alts else FALSE
        seeds = (self.K, sub(self.K, bv(1)))
        if not backs:
            hs.assume(eq(self.K, bv(0)))
        elif not is_true(hist):
            q = E.P.forall(bv(0), self.K, lambda t: self.at(hist, t), name='hist')
            hs.assume(q)
            if st.pure:
                # the place of the last iteration is no longer a seed when the value of the call is used
                hs.assume(Or(eq(self.K, bv(0)), self.at(hist, sub(self.K, bv(1)))))
        cands = []
        if not (st.quiet and st.stopat is not None):
            cands = self.candidates(hs, backs)
            cands += self.hints(hs)
        if cands:
            entry = {k: v.entry for k, v in self.vars.items()}
            keep = []
            for c in cands:
                f0 = c[1](entry, bv(0), st)
                t0 = time.time()
                r, _, _ = E.P.prove(st.pc, f0, st.seeds + (bv(0),), want_model=False, quickonly=len(c) < 4)
                if DEBUG:
                    print('   entry', c[0], r, '%.2f' % (time.time() - t0))
                if r == 'proved':
                    keep.append(c)
            hv = {k: v.cur for k, v in self.vars.items()}
            bv_ = [(bs, self.values(bs, ph)) for bs, ph in backs]
            while True:
                hyp = [c[1](hv, self.K, hs) for c in keep]
                nk = []
                kn = add(self.K, bv(1))
                for c in keep:
                    ok = True
                    for bs, vals in bv_:
                        gs = c[2](vals, bs) if len(c) == 3 else [c[1](vals, kn, bs)]
                        pc = hs.pc + hyp + bs.pc[n0:]
                        for g in gs:
                            t0 = time.time()
                            r, _, _ = E.P.prove(pc, g, bs.seeds + seeds, want_model=False, quickonly=len(c) < 4)
                            if DEBUG:
                                print('   keep', c[0], r, '%.2f' % (time.time() - t0), len(E.P.lastinst))
                            if r != 'proved':
                                ok = False
                                break
                        if not ok:
                            break
                    if ok:
                        nk.append(c)
                if len(nk) == len(keep):
                    break
                keep = nk
            for h in hyp:
                hs.assume(h)
            names = [c[0] for c in keep]
            if 'visited' in names:
                # when all keys have been visited the keys visited are those of the map
                E.exitfacts = dict(E.exitfacts)
                for c in keep:
                    if c[0] == 'onekey':
                        o = hs.heap[c[1].it]
                        E.exitfacts[o[2].arr.get_id()] = E.exitfacts.get(o[2].arr.get_id(), ()) + ((o[2].arr, c[1].exit),)
        else:
            names = []
        if DEBUG:
            print('LOOP', self.fn.name, self.b, {str(v.key): (v.kind, v.step, v.lstep, v.mode) for v in self.vars.values()}, names, 'hist', hist)
        E.loopinfo.append((self.fn.name, self.b, {str(v.key): v.kind for v in self.vars.values()}, names))
        return hs, seeds

    def local(self, n):
        f = self.st.frames[-1]
        r = f.names.get(n)
        if r is None or not isinstance(r[0], str) or r[0] not in f.regs:
            return None
        v = f.regs[r[0]]
        return self.E.load(self.st, v) if r[1] else v

    def hints(self, hs):
        """candidates written with the contract: ZI_<root>...(parameters of the contract, k, loop variables...)
        A truth value is a candidate for every choice of loop variables of the types it names; any other value,
        of the state before the call, is a candidate for equality with every loop variable of its type."""
        E, T = self.E, self.T
        root = E.root
        if not root.startswith('ZL_') and self.st.old is None:
            return []
        out = []
        rp = {n: (t, v) for n, t, v in E.rootparams}
        for name in sorted(E.fns):
            fn = E.fns[name]
            sh = fn.d['short']
            if '$' in name or not (sh == 'ZI_' + root[3:] or sh.startswith('ZI_' + root[3:] + '_')) or name.rsplit('.', 1)[0] != E.rootname.rsplit('.', 1)[0]:
                continue
            args, kpos, extra = [], None, []
            for j, p in enumerate(fn.params):
                if kpos is None and p['n'] == 'k':
                    kpos = j
                    args.append(None)
                elif kpos is None:
                    v = rp[p['n']][1] if p['n'] in rp else self.local(p['n'])
                    if v is None:
                        break
                    args.append(v)
                else:
                    extra.append(p['t'])
                    args.append(None)
            if len(args) < len(fn.params):
                continue

            def val(vs, k, s, fn=fn, args=args, kpos=kpos, keys=()):
                a = list(args)
                if kpos is not None:
                    a[kpos] = k
                    for j, key in enumerate(keys):
                        a[kpos + 1 + j] = vs[key]
                s2 = E.snap(s)
                n = len(s2.pc)
                v = E.pure(s2, fn, a, (), spec=True)
                for c in s2.pc[n:]:
                    s.assume(c)
                return v
            rt = fn.results[0]['t']
            if T.kind(rt) == 'bool':
                def rec(i, keys):
                    if i == len(extra):
                        out.append((sh, lambda vs, k, s, val=val, keys=tuple(keys): val(vs, k, s, keys=keys), None, True))
                        return
                    for v in self.vars.values():
                        if v.kind in ('int', 'slice', 'other') and v.t is not None and T.s(v.t) == T.s(extra[i]):
                            rec(i + 1, keys + [v.key])
                rec(0, [])
            else:
                for v in self.vars.values():
                    if v.t is not None and T.s(v.t) == T.s(rt):
                        def cand(vs, k, s, val=val, v=v):
                            o = E.snap(s)
                            o.heap.update(self.st.old)
                            n = len(o.pc)
                            x = val(vs, k, o)
                            for c in o.pc[n:]:
                                s.assume(c)
                            return E.deepeq(s, vs[v.key], x, v.t)
                        out.append((sh, cand, None, True))
        return out


def cut(E, st, fr, b, ph):
    E.ncuts += 1
    L = Loop(E, st, fr, b, ph)
    hs, seeds = L.run()
    # adopt the head state
    st.heap, st.pc, st.taint, st.facts = hs.heap, hs.pc, hs.taint, hs.facts
    st.frames = hs.frames
    st.seeds = st.seeds + seeds
    f = st.frames[-1]
    f.cuts = f.cuts | {b}
    E.move(f, b, [(i, f.regs[i['r']]) for i, _ in ph])
    return None
