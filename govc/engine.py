"""Symbolic execution of the SSA of the real code, function by function, against contracts.

Every path of a function is executed symbolically; loops are cut with (inferred and
hinted, always machine-checked) invariants; calls are inlined, or replaced by the
callee's contract.  Obligations (contract clauses, frame conditions and run-time
safety) go to the prover.
"""
import json
import re
import sys
import time
import z3
from vals import *
from prover import Prover, Fold
from engine_types import VisBase, VisStore

sys.setrecursionlimit(20000)
MASK64 = (1 << 64) - 1


def sgn64(e, w):
    v = cval(e)
    return v - (1 << w) if v >> (w - 1) else v


class Stop(Exception):
    """path ends"""


class Budget(Exception):
    pass


class Frame:
    __slots__ = ('fn', 'regs', 'blk', 'prev', 'ip', 'defers', 'ret', 'cuts', 'unroll', 'subject', 'names', 'seen')

    def __init__(self, fn, regs):
        self.fn, self.regs = fn, regs
        self.blk, self.prev, self.ip = 0, None, 0
        self.defers = ()
        self.ret = None          # register of the caller
        self.cuts = frozenset()
        self.unroll = {}
        self.subject = None      # heap at the call, when this is the subject of a contract
        self.names = {}
        self.seen = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.regs, f.blk, f.prev, f.ip = self.fn, dict(self.regs), self.blk, self.prev, self.ip
        f.defers, f.ret, f.cuts, f.unroll = self.defers, self.ret, self.cuts, dict(self.unroll)
        f.subject, f.names, f.seen = self.subject, dict(self.names), self.seen
        return f


class State:
    def __init__(self, eng):
        self.e = eng
        self.T = eng.T
        self.frames = []
        self.heap = {}
        self.pc = []
        self.decided = {}
        self.scope = ()        # ranges of the bound variables
        self.path = []         # (cond, bool) decisions, for merging
        self.facts = []        # facts assumed while merging
        self.pure = False
        self.quiet = False     # no obligations (dry runs, specifications)
        self.mode = 'verify'
        self.mods = None
        self.taint = ()
        self.seeds = ()
        self.stopat = None
        self.trace = ()
        self.lastcall = None
        self.usectx = None
        self.defs = None       # specifications: conditions under which they are defined
        self.old = None        # heap when the subject of the contract was called
        self.prune = True      # infeasible branches of specifications are dropped

    def copy(self):
        s = State.__new__(State)
        s.e, s.T = self.e, self.T
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.decided = dict(self.decided)
        s.path = list(self.path)
        s.facts = list(self.facts)
        s.pure, s.quiet, s.mode, s.mods = self.pure, self.quiet, self.mode, self.mods
        s.taint, s.seeds, s.stopat, s.trace = self.taint, self.seeds, self.stopat, self.trace
        s.scope = self.scope
        s.lastcall, s.usectx, s.prune, s.old = self.lastcall, self.usectx, self.prune, self.old
        s.defs = None if self.defs is None else list(self.defs)
        return s

    # ---- Mem context
    def zero(self, t):
        return self.e.zero(self, t)

    def build(self, t, leaf, path=()):
        return self.e.build(self, t, leaf, path)

    def simple(self, t):
        return self.T.kind(t) in ('int', 'bool', 'string', 'ip')

    def ite(self, c, a, b):
        if is_true(c):
            return a
        if is_false(c):
            return b
        return self.e.ite(self, c, a, b)

    def decide(self, cond):
        if is_true(cond):
            return True
        if is_false(cond):
            return False
        d = self.decided.get(cond.get_id())
        if d is not None:
            return d[1]
        if z3.is_not(cond):
            d = self.decided.get(cond.arg(0).get_id())
            if d is not None:
                return not d[1]
        raise NeedFork(cond)

    def assume(self, c):
        if is_true(c):
            return
        if z3.is_and(c):
            for x in c.children():
                self.assume(x)
            return
        self.pc.append(c)
        if self.pure:
            self.facts.append((list(self.path), c))

    def note(self, cond, val):
        self.decided[cond.get_id()] = (cond, val)
        if z3.is_not(cond):
            self.decided[cond.arg(0).get_id()] = (cond.arg(0), not val)

    def tainted(self, why):
        if why not in self.taint:
            self.taint = self.taint + (why,)
            self.e.assumptions.add(why)


class Obligation:
    def __init__(self, root, kind, tag, pos, status, backend, secs, model=None, taint=(), detail='', text=''):
        self.root, self.kind, self.tag, self.pos = root, kind, tag, pos
        self.status, self.backend, self.secs, self.model = status, backend, secs, model
        self.taint, self.detail, self.text = taint, detail, text


class Fn:
    """a function with its control-flow facts"""

    def __init__(self, d):
        self.d = d
        self.name = d['name']
        self.blocks = d.get('blocks')
        self.params = d['params']
        self.free = d['freevars']
        self.results = d['results']
        if self.blocks:
            self.loops()

    def loops(self):
        n = len(self.blocks)
        succ = [b['succs'] for b in self.blocks]
        pred = [b['preds'] for b in self.blocks]
        # reachable + dominators
        order, seen = [], set()

        def dfs(s):
            st = [(s, iter(succ[s]))]
            seen.add(s)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        st.append((y, iter(succ[y])))
                        break
                else:
                    order.append(x)
                    st.pop()
        dfs(0)
        rpo = order[::-1]
        dom = {b: set(rpo) for b in rpo}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in pred[b] if p in dom]
                nd = set.intersection(*[dom[p] for p in ps]) | {b} if ps else {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        self.headers = {}
        for b in rpo:
            for s in succ[b]:
                if s in dom[b]:
                    body = self.headers.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(pred[x])


class Engine:
    def __init__(self, ssa, consts=None, modpath='github.com/charlesetsmith/saratoga', seed=1, timeout=4000, long_timeout=60000):
        self.T = Types(ssa['types'])
        self.mod = modpath
        self.fns = {n: Fn(d) for n, d in ssa['funcs'].items()}
        self.globals = ssa['globals']
        self.S = Strings()
        self.P = Prover(timeout=timeout, long_timeout=long_timeout, seed=seed)
        self.P.S = self.S
        self.consts = consts or {}
        self.otype = {}
        self.osize = {}        # object of make -> its capacity
        self.objsize = {}
        self.segloops = set()     # loops that read datagrams
        self.nobj = 0

        self.assumptions = set()
        self.inlined = set()
        self.used = set()
        self.obs = []
        self.maxpaths = 4000
        self.deadline = None
        self.zz = modpath + '/zzverif.'
        self.ginits = {}
        self.contracts = {}      # function name -> contract Fn name (usable at call sites)
        self.invariants = {}     # function name -> [Fn name]
        self.demoted = set()
        self.root = None
        self.purity = {}
        self.gstores = self.scan_globals()
        self.splits = {}
        self.wanted = None
        self.loopinfo = []
        self.streqs = {}
        self.P.streqs = self.streqs
        import externs
        self.X = externs.Externs(self)

    # ------------------------------------------------------------ fresh things
    def fresh(self, base, sort):
        self.P.n += 1
        return z3.Const('%s!%d' % (base, self.P.n), sort)

    def fbool(self, base='b'):
        return self.fresh(base, z3.BoolSort())

    def fbv(self, base='v', w=64):
        return self.fresh(base, z3.BitVecSort(w))

    def flen(self, base='len'):
        return zext(self.fresh(base, BV40))

    def newobj(self, st, kind, t, content):
        self.nobj += 1
        o = self.nobj
        self.otype[o] = (kind, t)
        st.heap[o] = content
        return o

    # ------------------------------------------------------------ values by type
    def leafsort(self, t):
        k = self.T.kind(t)
        if k == 'int':
            return z3.BitVecSort(self.T.intinfo(t)[0])
        if k == 'bool':
            return z3.BoolSort()
        return BV64

    def zero(self, st, t):
        k = self.T.kind(t)
        if k == 'int':
            return bv(0, self.T.intinfo(t)[0])
        if k == 'bool':
            return FALSE
        if k in ('string', 'ip'):
            return bv(0)
        if k == 'float':
            return OpaqueV(bv(0))
        if k == 'ptr':
            return PtrV(None, (), TRUE)
        if k == 'slice':
            return SliceV(None, bv(0), bv(0), bv(0), TRUE)
        if k == 'struct':
            return StructV([self.zero(st, f['t']) for f in self.T.fields(t)])
        if k == 'array':
            return ArrV(MZero(self.T.elem(t)), self.T.under(t)['n'])
        if k == 'iface':
            return IfaceV(TRUE, None, bv(0))
        if k == 'map':
            return MapV(None, TRUE)
        if k in ('func', 'chan'):
            return OPtr(bv(0))
        if k == 'tuple':
            return TupleV([self.zero(st, x) for x in self.T.under(t)['es']])
        return OpaqueV(bv(0))

    def build(self, st, t, leaf, path=()):
        k = self.T.kind(t)
        if k in ('int', 'bool', 'string', 'ip'):
            return leaf(path, self.leafsort(t))
        if k == 'struct':
            return StructV([self.build(st, f['t'], leaf, path + (i,)) for i, f in enumerate(self.T.fields(t))])
        if k == 'slice':
            i = leaf(path + ('id',), BV64)
            ln = zext(leaf(path + ('len',), BV40))
            o = ('osl', self.T.elem(t), i.get_id())
            if o not in st.heap:
                self.otype[o] = ('arr', self.T.elem(t))
                st.heap[o] = MUF(self.T.elem(t), i)
            return SliceV(o, bv(0), ln, ln, And(leaf(path + ('nil',), z3.BoolSort()), eq(ln, bv(0))))
        if k == 'array':
            i = leaf(path + ('id',), BV64)
            return ArrV(MUF(self.T.elem(t), i), self.T.under(t)['n'])
        if k == 'iface':
            return IfaceV(leaf(path + ('nil',), z3.BoolSort()), None, leaf(path + ('id',), BV64))
        if k == 'map':
            i = leaf(path + ('id',), BV64)
            o = ('omap', t, i.get_id())
            if o not in st.heap:
                self.otype[o] = ('map', t)
                m = MapBase(self.T.under(t)['key'], self.T.elem(t), 'omap#%d' % i.get_id())
                st.heap[o] = m
            return MapV(o, FALSE)
        if k in ('ptr', 'func', 'chan'):
            return OPtr(leaf(path + ('id',), BV64))
        return OpaqueV(leaf(path + ('id',), BV64))

    OPAQUE_PTRS = ('*os.File', '*net.UDPConn', '*github.com/jroimartin/gocui.Gui', '*github.com/jroimartin/gocui.View')

    def sym(self, st, t, name, depth=0):
        """an arbitrary value of type t, with storage of its own"""
        k = self.T.kind(t)
        if k in ('int', 'bool', 'string', 'ip'):
            return self.fresh(name, self.leafsort(t))
        if k == 'ptr':
            if self.T.s(t) in self.OPAQUE_PTRS or depth > 3:
                return OPtr(self.fbv(name))
            o = self.newobj(st, 'cell', self.T.elem(t), None)
            st.heap[o] = self.sym(st, self.T.elem(t), name, depth + 1)
            return PtrV(o)
        if k == 'slice':
            self.P.n += 1
            o = self.newobj(st, 'arr', self.T.elem(t), MBase(self.T.elem(t), '%s!%d' % (name, self.P.n)))
            ln = self.flen(name + '.len')
            self.objsize[o] = ln
            return SliceV(o, bv(0), ln, ln, And(self.fbool(name + '.nil'), eq(ln, bv(0))))
        if k == 'struct' and self.T.under(t)['s'] == '$mutex':
            self.assumptions.add('mutexes are free when a verified entry point is called')
            return StructV([FALSE])
        if k == 'struct':
            v = StructV([self.sym(st, f['t'], name + '.' + f['n'], depth) for f in self.T.fields(t)])
            if self.T.under(t)['s'] == '$time':
                st.assume(And(sle(bv(0), v.f[1]), slt(v.f[1], bv(10 ** 9))))
            return v
        if k == 'array':
            self.P.n += 1
            return ArrV(MBase(self.T.elem(t), '%s!%d' % (name, self.P.n)), self.T.under(t)['n'])
        if k == 'map':
            self.P.n += 1
            m = MapBase(self.T.under(t)['key'], self.T.elem(t), '%s!%d' % (name, self.P.n))
            o = self.newobj(st, 'map', t, m)
            return MapV(o)
        if k == 'iface':
            return IfaceV(self.fbool(name + '.nil'), None, self.fbv(name))
        if k == 'chan':
            o = self.newobj(st, 'chan', t, ())
            return PtrV(o)
        if k == 'tuple':
            return TupleV([self.sym(st, x, name, depth) for x in self.T.under(t)['es']])
        return OpaqueV(self.fbv(name))

    def ite(self, st, c, a, b):
        if a is b:
            return a
        if z3.is_expr(a):
            return Ite(c, a, b)
        ta = type(a)
        if ta is not type(b):
            if isinstance(a, PtrV) and isinstance(b, OPtr) and (a.obj is None or is_true(a.nil)):
                return OPtr(Ite(c, bv(0), b.id))
            if isinstance(b, PtrV) and isinstance(a, OPtr) and (b.obj is None or is_true(b.nil)):
                return OPtr(Ite(c, a.id, bv(0)))
            if isinstance(a, Poison) or isinstance(b, Poison):
                return Poison(c, a, b)
            if isinstance(a, (PtrV, OPtr)) and isinstance(b, (PtrV, OPtr)):
                x = self.oneof(st, c) if st.scope else None
                if x is not None:
                    return a if x else b
            if st.pure and isinstance(a, (PtrV, OPtr)) and isinstance(b, (PtrV, OPtr)):
                raise Unsupported('merge of pointers')
            raise NeedFork(c)
        if ta is StructV:
            if not (st.pure or st.quiet):
                return StructV([self.ite(st, c, x, y) for x, y in zip(a.f, b.f)])
            r = []
            for x, y in zip(a.f, b.f):
                try:
                    r.append(self.ite(st, c, x, y))
                except (NeedFork, Unsupported):
                    r.append(Poison(c, x, y))
            return StructV(r)
        if ta is Poison:
            return Poison(c, a, b)
        if ta is TupleV:
            return TupleV([self.ite(st, c, x, y) for x, y in zip(a.v, b.v)])
        if ta is SliceV:
            if a.obj == b.obj:
                return SliceV(a.obj, Ite(c, a.off, b.off), Ite(c, a.len, b.len), Ite(c, a.cap, b.cap), Ite(c, a.nil, b.nil), a.sub or b.sub)
            if a.obj is None or b.obj is None:
                x = b if a.obj is None else a
                return SliceV(x.obj, x.off, Ite(c, a.len, b.len), Ite(c, a.cap, b.cap), Ite(c, a.nil, b.nil), x.sub)
            ma, mb = st.heap.get(a.obj), st.heap.get(b.obj)
            if isinstance(a.obj, tuple) and isinstance(b.obj, tuple) and a.obj[0] == b.obj[0] == 'osl' and a.obj[1] == b.obj[1] and \
                    isinstance(ma, MUF) and isinstance(mb, MUF):
                i = Ite(c, ma.id, mb.id)
                o = ('osl', a.obj[1], i.get_id())
                if o not in st.heap:
                    self.otype[o] = ('arr', a.obj[1])
                    st.heap[o] = MUF(a.obj[1], i)
                if isinstance(st.heap[o], MUF):
                    return SliceV(o, Ite(c, a.off, b.off), Ite(c, a.len, b.len), Ite(c, a.cap, b.cap), Ite(c, a.nil, b.nil), a.sub or b.sub)
            if st.pure or st.quiet:
                raise Unsupported('merge of slices')
            raise NeedFork(c)
        if ta is PtrV:
            if a.obj == b.obj and self.samepath(a.path, b.path):
                return PtrV(a.obj, a.path, Ite(c, a.nil, b.nil))
            raise NeedFork(c)
        if ta is OPtr:
            return OPtr(Ite(c, a.id, b.id))
        if ta is OpaqueV:
            return OpaqueV(Ite(c, a.id, b.id))
        if ta is IfaceV:
            d = a.dyn if (a.dyn is not None and b.dyn is not None and a.dyn[0] == b.dyn[0] and a.dyn[1] is b.dyn[1]) else None
            if d is None and (a.dyn is not None or b.dyn is not None):
                if a.dyn is not None and b.dyn is not None and a.dyn[0] == b.dyn[0]:
                    try:
                        d = (a.dyn[0], self.ite(st, c, a.dyn[1], b.dyn[1]))
                    except Unsupported:
                        d = None
                elif is_true(a.nil) and b.dyn is not None:
                    d = b.dyn
                elif is_true(b.nil) and a.dyn is not None:
                    d = a.dyn
                else:
                    raise NeedFork(c)
            ia = a.id if a.id is not None else self.fbv('iid')
            ib = b.id if b.id is not None else self.fbv('iid')
            return IfaceV(Ite(c, a.nil, b.nil), d, Ite(c, ia, ib))
        if ta is MapV:
            if a.obj == b.obj:
                return MapV(a.obj, Ite(c, a.nil, b.nil))
            raise NeedFork(c)
        if ta is ArrV:
            return ArrV(MIte(c, a.mem, b.mem), a.n)
        if ta is FuncV and a.name == b.name and a.binds == b.binds:
            return a
        raise NeedFork(c)

    @staticmethod
    def samepath(p, q):
        if len(p) != len(q):
            return False
        for x, y in zip(p, q):
            if isinstance(x, tuple) and isinstance(y, tuple):
                if not is_true(eq(x[1], y[1])):
                    return False
            elif x != y:
                return False
        return True

    # ------------------------------------------------------------ heap
    def content(self, st, o):
        c = st.heap.get(o)
        if c is None:
            if isinstance(o, tuple) and o[0] == 'g':
                c = self.ginit(st, o[1])
                st.heap[o] = c
                return c
            raise Unsupported('unknown object %r' % (o,))
        return c

    def scan_globals(self):
        r = {}
        for n, f in self.fns.items():
            if not f.blocks:
                continue
            for b in f.blocks:
                for i in b['ins']:
                    ops = [i.get('x'), i.get('y')] + list(i.get('args', []))
                    if i['op'] == 'Store' and i['x'].get('k') == 'global':
                        r.setdefault(i['x']['n'], []).append((n, i))
        return r

    def ginit(self, st, name):
        if name in self.ginits:
            v, extra = self.ginits[name]
            for k, c in extra.items():
                st.heap.setdefault(k, c)
            return v
        g = self.globals.get(name)
        if g is None:
            v = OpaqueV(self.fbv('ext_' + name))
            self.ginits[name] = (v, {})
            return v
        t = self.T.elem(g['t'])
        before = set(st.heap)
        if name in self.consts:
            v = self.fromjson(st, t, self.consts[name])
        else:
            ss = self.gstores.get(name, [])
            v = None
            if ss and all(n.endswith('.init') for n, _ in ss) and len(ss) == 1 and ss[0][1]['y'].get('k') == 'const':
                v = self.const(st, ss[0][1]['y'])
            if v is None:
                n = len(st.pc)
                v = self.sym(st, t, name.rsplit('.', 1)[1])
        self.ginits[name] = (v, {k: st.heap[k] for k in set(st.heap) - before})
        return v

    def fromjson(self, st, t, j):
        k = self.T.kind(t)
        if k == 'int':
            return bv(int(j), self.T.intinfo(t)[0])
        if k == 'bool':
            return TRUE if j else FALSE
        if k == 'string':
            return self.S.const(j)
        if k == 'struct':
            return StructV([self.fromjson(st, f['t'], j[f['n']]) if f['n'] in j else self.zero(st, f['t']) for f in self.T.fields(t)])
        if k == 'slice':
            if j is None:
                return self.zero(st, t)
            m = MZero(self.T.elem(t))
            for i, x in enumerate(j):
                m = MStore(m, bv(i), self.fromjson(st, self.T.elem(t), x))
            o = self.newobj(st, 'arr', self.T.elem(t), m)
            return SliceV(o, bv(0), bv(len(j)), bv(len(j)))
        if k == 'map':
            if j is None:
                return self.zero(st, t)
            kt = self.T.under(t)['key']
            items = [(self.mapkey(self.fromjson(st, kt, x)), self.fromjson(st, self.T.elem(t), j[x])) for x in sorted(j)]
            o = self.newobj(st, 'map', t, MapConst(items, self.T.elem(t)))
            return MapV(o)
        raise Unsupported('constant of type ' + self.T.s(t))

    def mapkey(self, v):
        if isinstance(v, IfaceV) or not z3.is_expr(v):
            raise Unsupported('map key')
        if z3.is_bool(v):
            return Ite(v, bv(1), bv(0))
        if v.size() < 64:
            return simp(z3.ZeroExt(64 - v.size(), v))
        return v

    def oneof(self, st, c):
        """True or False if c is decided here, None if it is not"""
        if is_true(c) or is_false(c):
            return is_true(c)
        d = st.decided.get(c.get_id())
        if d is not None:
            return d[1]
        sc = And(*st.scope) if st.scope else TRUE
        if not self.feasible(st, And(sc, c)):
            return False
        if not self.feasible(st, And(sc, Not(c))):
            return True
        return None

    def load(self, st, p):
        v = self.content(st, p.obj)
        for el in p.path:
            v = self.sel(st, v, el)
        return v

    def sel(self, st, v, el):
        if isinstance(el, tuple):
            if isinstance(v, ArrV):
                return v.mem.read(st, el[1])
            return v.read(st, el[1])
        if isinstance(v, StructV):
            r = v.f[el]
            while isinstance(r, Poison):
                x = self.oneof(st, r.c)
                if x is None:
                    raise Unsupported('value that could not be merged')
                r = r.a if x else r.b
            return r
        if isinstance(v, OpaqueV):
            raise Unsupported('field of opaque value')
        raise Unsupported('field of %r' % (v,))

    def upd(self, st, v, path, new):
        if not path:
            return new
        el = path[0]
        if isinstance(el, tuple):
            if isinstance(v, ArrV):
                nv = new if len(path) == 1 else self.upd(st, v.mem.read(st, el[1]), path[1:], new)
                return ArrV(MStore(v.mem, el[1], nv), v.n)
            nv = new if len(path) == 1 else self.upd(st, v.read(st, el[1]), path[1:], new)
            return MStore(v, el[1], nv)
        if not isinstance(v, StructV):
            raise Unsupported('store into opaque value')
        f = list(v.f)
        f[el] = self.upd(st, f[el], path[1:], new)
        return StructV(f)

    def store(self, st, p, val):
        if isinstance(p.obj, tuple) and p.obj[0] in ('osl', 'omap'):
            raise Unsupported('store through a slice of unknown origin')
        if self.otype.get(p.obj, ('',))[0] == 'opq':
            raise Unsupported('store through an opaque pointer')
        v = self.content(st, p.obj)
        st.heap[p.obj] = self.upd(st, v, p.path, val)

    def checkown(self, st, sl):
        if isinstance(sl.obj, tuple) and sl.obj[0] in ('osl', 'omap'):
            raise Unsupported('store through a slice of unknown origin')

    # ------------------------------------------------------------ operands
    def const(self, st, m):
        t = m['t']
        if m.get('nil'):
            return self.zero(st, t)
        k = self.T.kind(t)
        if k == 'int':
            return bv(int(m['v']), self.T.intinfo(t)[0])
        if k == 'bool':
            return TRUE if m['v'] else FALSE
        if k == 'string':
            return self.S.const(bytes(m['sb']))
        if k == 'float':
            return OpaqueV(self.X.floatconst(m.get('f')))
        raise Unsupported('constant')

    def val(self, st, fr, m):
        k = m['k']
        if k == 'reg':
            return fr.regs[m['n']]
        if k == 'const':
            return self.const(st, m)
        if k == 'global':
            return PtrV(('g', m['n']))
        if k == 'func':
            return FuncV(m['n'])
        if k == 'builtin':
            return FuncV('builtin ' + m['n'])
        raise Unsupported('operand ' + k)

    # ------------------------------------------------------------ obligations
    def oblige(self, st, kind, cond, tag='', pos='', text=''):
        """prove cond on this path, then assume it"""
        if st.quiet:
            if st.defs is not None and not is_true(cond):
                g = Implies(And(*[c if b else Not(c) for c, b in st.path]), cond)
                st.defs.append(g)
                self.specdefs.append(g)
                st.pc.append(cond)
                if is_false(cond):
                    raise Stop()
                return True
            st.assume(cond)
            return True
        if is_true(cond):
            if kind not in self.TRIVIAL_SKIP:
                self.obs.append(Obligation(self.root, kind, tag, pos, 'proved', 'simplifier', 0.0))
            return True
        t0 = time.time()
        r, m, be = self.P.prove(st.pc, cond, st.seeds)
        dt = time.time() - t0
        taint = st.taint
        if r == 'failed' and not taint:
            taint = self.weak(list(st.pc) + [cond])
        ob = Obligation(self.root, kind, tag, pos, r, be, dt, m, taint, text=text)
        if r == 'failed':
            # prefer small models
            small = [z3.ULE(x, bv(24, x.size())) for x in self.rootlens]
            r2, m2, _ = self.P.prove(list(st.pc) + small, cond, st.seeds)
            if r2 == 'failed':
                ob.model = m2
            ob.trace = st.trace
        self.obs.append(ob)
        if r != 'proved' and is_false(cond):
            raise Stop()
        st.assume(cond)
        return r == 'proved'

    WEAK = {'weakstr', 'trimspace', 'tolower', 'scontains', 'hasprefix', 'trimsuffix'}

    def weak(self, fs):
        """values of library calls that are not modelled exactly and that the formulas depend on"""
        seen, todo, r = set(), list(fs), set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name().split('!')[0]
                if n in self.WEAK:
                    r.add('depends on a string that is not modelled: ' + n)
            todo += x.children()
        return tuple(sorted(r))

    TRIVIAL_SKIP = ('nil', 'index', 'slice', 'div', 'assertion', 'nilmap', 'makeslice')

    def feasible(self, st, c):
        return self.P.feasible(st.pc, c)

    # ------------------------------------------------------------ exploration
    def explore(self, st, onreturn, limit=None):
        """run st to completion; onreturn(state, value) for each path returning from frame 0"""
        work = [st]
        n = 0
        while work:
            if self.deadline and time.time() > self.deadline:
                raise Budget('time')
            s = work.pop()
            n += 1
            if n > (limit or self.maxpaths):
                raise Unsupported('too many paths')
            try:
                self.run(s, work, onreturn)
            except Stop:
                pass

    def run(self, st, work, onreturn):
        while True:
            fr = st.frames[-1]
            fn = fr.fn
            ins = fn.blocks[fr.blk]['ins']
            if fr.ip >= len(ins):
                raise Unsupported('fell off block')
            i = ins[fr.ip]
            try:
                r = self.step(st, fr, i)
            except NeedFork as nf:
                r = ('fork', nf.cond, None, None)
            except Unsupported as u:
                if not hasattr(u, 'where'):
                    u.where = '%s (%s)' % (i.get('pos', ''), fn.name)
                raise
            if r is None:
                continue
            k = r[0]
            if k == 'fork':
                self.fork(st, r[1], work)
                continue
            if k == 'return':
                v = r[1]
                if st.stopat is not None and len(st.frames) - 1 == st.stopat[0]:
                    return
                done = st.frames.pop()
                if not st.frames:
                    onreturn(st, v)
                    return
                self.returned(st, done, v)
                continue
            if k == 'stop':
                return

    def fork(self, st, c, work):
        """continue with c on this state, push the other side"""
        d = st.decided.get(c.get_id())
        if d is not None:
            return
        cs = simp(c)
        if is_true(cs) or is_false(cs):
            st.note(c, is_true(cs))
            return
        nc = Not(c)
        if st.prune:
            f1 = self.feasible(st, c)
            if not f1:
                st.note(c, False)
                return
            f2 = self.feasible(st, nc)
            if not f2:
                st.note(c, True)
                return
        o = st.copy()
        o.note(c, False)
        o.pc.append(nc)
        o.path.append((c, False))
        work.append(o)
        st.note(c, True)
        st.pc.append(c)
        st.path.append((c, True))

    def returned(self, st, done, v):
        fr = st.frames[-1]
        if done.subject is not None:
            self.framecheck(st, done)
            self.aliascheck(st, done, v)
        if isinstance(done.ret, tuple):          # a contract used at a call site has run
            _, saved, fnname, reg = done.ret
            v = st.usectx[4] if st.usectx else None
            st.mode, st.mods, st.usectx = saved
            if reg == 'defer':
                return
            fr.regs[reg] = v
            fr.ip += 1
            return
        if done.ret == 'defer':
            return
        if done.ret is not None:
            fr.regs[done.ret] = v
        fr.ip += 1

    def enter(self, st, fn, args, binds=(), ret=None):
        if len(st.frames) > 60:
            raise Unsupported('recursion too deep')
        regs = {}
        for p, a in zip(fn.params, args):
            regs[p['n']] = a
        for p, b in zip(fn.free, binds):
            regs['fv:' + p['n']] = b
        f = Frame(fn, regs)
        f.ret = ret
        st.frames.append(f)
        if st.pure is False and fn.d.get('inmod') and not fn.d['short'].startswith(('ZC_', 'ZL_', 'ZI_', 'zs_', 'Zs_')) and 'zzverif' not in fn.name and '/zzspec.' not in fn.name:
            self.inlined.add(fn.name)
        return f

    # ------------------------------------------------------------ pure evaluation
    specdefs = ()
    ncuts = 0

    def pure(self, st, fn, args, binds=(), quiet=True, limit=600, spec=False):
        """value of a call without effects, paths merged; facts are exported to st"""
        base = st.copy()
        base.frames = []
        base.path = []
        base.facts = []
        base.pure = True
        base.stopat = None
        if quiet:
            base.quiet = True
        nested = not spec and st.defs is not None
        base.defs = [] if spec or nested else None
        saved, self.specdefs = self.specdefs, []
        try:
            v = self.pure2(st, base, fn, args, binds, limit, spec)
            mine = list(self.specdefs)
        finally:
            self.specdefs = saved
        if nested:
            done = set()
            for d in mine:
                if d.get_id() in done:
                    continue
                done.add(d.get_id())
                g = Implies(And(*[c if b else Not(c) for c, b in st.path]), d)
                st.defs.append(g)
                self.specdefs.append(g)
                st.pc.append(d)
        return v

    def pure2(self, st, base, fn, args, binds, limit, spec):
        self.enter(base, fn, args, binds)
        outs = []
        tr = []
        seeds = list(st.seeds)

        def ret(s, v):
            outs.append((s.path, v, s.facts))
            tr.append(s.taint)
            seeds.extend(x for x in s.seeds if not any(x is y for y in seeds))
        ncuts, self.ncuts = self.ncuts, 0
        self.explore(base, ret, limit)
        cuts, self.ncuts = self.ncuts, ncuts + self.ncuts
        for t in tr:
            for w in t:
                st.tainted(w)
        if not outs:
            if spec and self.T.kind(fn.results[0]['t']) == 'bool':
                return FALSE
            raise Unsupported('specification has no result')
        seen = set()
        for path, _, facts in outs:
            for pth, f in facts:
                k = (f.get_id(), tuple((c.get_id(), b) for c, b in pth))
                if k in seen:
                    continue
                seen.add(k)
                st.assume(Implies(And(*[c if b else Not(c) for c, b in pth]), f))
        if cuts:
            st.seeds = tuple(seeds) if isinstance(st.seeds, tuple) else seeds
            # the call ended, so a loop in it was left in one of the ways it can be left
            ends = Or(*[And(*[c if b else Not(c) for c, b in p]) for p, _, _ in outs])
            ds = list({d.get_id(): d for d in self.specdefs}.values())
            st.assume(Implies(And(*ds), ends) if ds else ends)
        v = self.merge(st, [(p, v) for p, v, _ in outs], 0)
        if spec and z3.is_expr(v) and z3.is_bool(v) and self.specdefs:
            ds = {d.get_id(): d for d in self.specdefs}
            v = And(*ds.values(), v)
        return v

    def merge(self, st, outs, d):
        if len(outs) == 1 and len(outs[0][0]) <= d:
            return outs[0][1]
        if all(v is outs[0][1] for _, v in outs):
            return outs[0][1]
        c = outs[0][0][d][0]
        ts = [o for o in outs if o[0][d][1]]
        fs = [o for o in outs if not o[0][d][1]]
        if not fs:
            return self.merge(st, ts, d + 1)
        if not ts:
            return self.merge(st, fs, d + 1)
        a, b = self.merge(st, ts, d + 1), self.merge(st, fs, d + 1)
        try:
            return st.ite(c, a, b)
        except NeedFork as nf:
            raise Unsupported('cannot merge results')

    def call_spec(self, st, f, args):
        """f: FuncV of a specification closure"""
        if not isinstance(f, FuncV):
            raise Unsupported('specification closure')
        fn = self.fns[f.name]
        return self.pure(st, fn, args, f.binds, spec=True)

    def ispure(self, name, stack=()):
        r = self.purity.get(name)
        if r is not None:
            return r
        if name in stack:
            return True
        fn = self.fns.get(name)
        if fn is None or not fn.blocks:
            r = self.X.ispure(name)
        else:
            r = True
            for b in fn.blocks:
                for i in b['ins']:
                    op = i['op']
                    if op in ('MapUpdate', 'Send', 'Go', 'Defer', 'Panic', 'Select', 'RunDefers', 'MakeChan'):
                        r = False
                    elif op == 'Store':
                        if not self.localaddr(fn, i['x']):
                            r = False
                    elif op == 'Call':
                        if 'invoke' in i:
                            r = False
                        elif i['fn']['k'] == 'func':
                            if not self.ispure(i['fn']['n'], stack + (name,)):
                                r = False
                        elif i['fn']['k'] == 'builtin':
                            if i['fn']['n'] not in ('len', 'cap', 'append', 'ssa:wrapnilchk', 'min', 'max'):
                                r = False
                        else:
                            r = False
                    elif op == 'UnOp' and i['o'] == '<-':
                        r = False
                    if not r:
                        break
                if not r:
                    break
        self.purity[name] = r
        return r

    def localaddr(self, fn, x):
        """address is (inside) a local allocation"""
        if x.get('k') != 'reg':
            return False
        d = getattr(fn, '_defs', None)
        if d is None:
            d = fn._defs = {i['r']: i for b in fn.blocks for i in b['ins'] if 'r' in i}
        i = d.get(x['n'])
        if i is None:
            return False
        if i['op'] == 'Alloc':
            return True
        if i['op'] in ('FieldAddr', 'IndexAddr'):
            return self.localaddr(fn, i['x'])
        return False

    def mergeable(self, fn):
        """calls of fn may be evaluated with merged paths"""
        if not self.ispure(fn.name):
            return False
        for r in fn.results:
            if self.T.kind(r['t']) not in ('int', 'bool', 'string', 'ip') and not (self.T.s(r['t']) == 'error'):
                return False
        return len(fn.results) >= 1

    # ------------------------------------------------------------ steps
    def step(self, st, fr, i):
        return getattr(self, 'op_' + i['op'], self.op_unknown)(st, fr, i)

    def op_unknown(self, st, fr, i):
        raise Unsupported('instruction ' + i['op'])

    def op_DebugRef(self, st, fr, i):
        x = i['x']
        if x['k'] == 'reg':
            fr.names[i['n']] = (x['n'], i['isaddr'])
        elif x['k'] == 'const':
            fr.names[i['n']] = (x, False)
        fr.ip += 1

    def set(self, fr, i, v):
        fr.regs[i['r']] = v
        fr.ip += 1

    def op_Alloc(self, st, fr, i):
        t = self.T.elem(i['t'])
        o = self.newobj(st, 'cell', t, self.zero(st, t))
        self.set(fr, i, PtrV(o))

    def nonnil(self, st, p, pos, what='nil'):
        if isinstance(p, PtrV):
            c = Not(p.nil)
            if p.obj is None:
                c = FALSE
        elif isinstance(p, OPtr):
            c = Not(eq(p.id, bv(0)))
        else:
            raise Unsupported('pointer %r' % (p,))
        self.oblige(st, 'nil', c, 'nil dereference', pos)
        if is_false(c):
            raise Stop()

    def opaddr(self, p):
        """the address an opaque *net.UDPAddr points to"""
        return StructV([z3.Function('oaddr_' + n, BV64, BV64)(p.id) for n in ('ip', 'port', 'zone')])

    def op_FieldAddr(self, st, fr, i):
        p = self.val(st, fr, i['x'])
        self.nonnil(st, p, i.get('pos', ''))
        if isinstance(p, OPtr):
            if self.T.s(i['x']['t']) == '*net.UDPConn':
                return self.set(fr, i, p)   # its only field: the embedded conn
            if self.T.s(i['x']['t']) == '*net.UDPAddr':
                o = self.newobj(st, 'opq', self.T.elem(i['x']['t']), self.opaddr(p))
                return self.set(fr, i, PtrV(o, (i['i'],)))
            raise Unsupported('field of an opaque pointer')
        self.set(fr, i, PtrV(p.obj, p.path + (i['i'],)))

    def op_Field(self, st, fr, i):
        v = self.val(st, fr, i['x'])
        self.set(fr, i, v.f[i['i']])

    def op_Extract(self, st, fr, i):
        v = self.val(st, fr, i['x'])
        self.set(fr, i, v.v[i['i']])

    def idx64(self, st, v, t):
        w, sg = self.T.intinfo(t)
        if w < 64:
            v = simp(z3.SignExt(64 - w, v) if sg else z3.ZeroExt(64 - w, v))
        return v

    def inrange(self, st, idx, ln, pos):
        c = And(sle(bv(0), idx), slt(idx, ln))
        cs = simp(c)
        if is_true(cs) or is_false(cs):
            c = cs
        self.oblige(st, 'index', c, 'index in range', pos)
        if is_false(c):
            raise Stop()

    def op_IndexAddr(self, st, fr, i):
        x = self.val(st, fr, i['x'])
        idx = norm(self.idx64(st, self.val(st, fr, i['y']), i['y']['t']))
        if isinstance(x, SliceV):
            self.inrange(st, idx, x.len, i.get('pos', ''))
            self.set(fr, i, PtrV(x.obj, (('i', add(x.off, idx)),)))
        elif isinstance(x, PtrV):
            self.nonnil(st, x, i.get('pos', ''))
            n = self.T.under(self.T.elem(i['x']['t']))['n']
            self.inrange(st, idx, bv(n), i.get('pos', ''))
            self.set(fr, i, PtrV(x.obj, x.path + (('i', idx),)))
        else:
            raise Unsupported('IndexAddr')

    def op_Index(self, st, fr, i):
        x = self.val(st, fr, i['x'])
        idx = norm(self.idx64(st, self.val(st, fr, i['y']), i['y']['t']))
        if z3.is_expr(x):
            self.inrange(st, idx, self.S.length(x), i.get('pos', ''))
            self.set(fr, i, self.S.byte(st, x, idx))
        elif isinstance(x, ArrV):
            self.inrange(st, idx, bv(x.n), i.get('pos', ''))
            self.set(fr, i, x.mem.read(st, idx))
        else:
            raise Unsupported('Index')

    def op_Store(self, st, fr, i):
        p = self.val(st, fr, i['x'])
        v = self.val(st, fr, i['y'])
        self.nonnil(st, p, i.get('pos', ''))
        if isinstance(p, OPtr):
            raise Unsupported('store through an opaque pointer')
        self.store(st, p, v)
        fr.ip += 1

    def op_UnOp(self, st, fr, i):
        o = i['o']
        x = self.val(st, fr, i['x'])
        if o == '*':
            self.nonnil(st, x, i.get('pos', ''))
            if isinstance(x, OPtr):
                raise Unsupported('load through an opaque pointer')
            return self.set(fr, i, self.load(st, x))
        if o == '!':
            return self.set(fr, i, Not(x))
        if o == '-':
            if isinstance(x, OpaqueV):
                return self.set(fr, i, OpaqueV(self.fbv('f')))
            return self.set(fr, i, norm(simp(-x)))
        if o == '^':
            return self.set(fr, i, simp(~x))
        if o == '<-':
            return self.X.recv(st, fr, i, x)
        raise Unsupported('unary ' + o)

    def streq(self, st, a, b):
        """equality of strings"""
        S = self.S
        ta, tb = S.text(a), S.text(b)
        if ta is not None and tb is not None:
            return TRUE if ta == tb else FALSE
        if a.eq(b):
            return TRUE
        if ta is not None:
            return self.streq(st, b, a)
        # push equality into ite (results of merged calls)
        if z3.is_app_of(a, z3.Z3_OP_ITE):
            x, y = self.streq(st, a.arg(1), b), self.streq(st, a.arg(2), b)
            return Ite(a.arg(0), x, y)
        if z3.is_app_of(b, z3.Z3_OP_ITE):
            return self.streq(st, b, a)
        if tb == b'' and z3.is_app(a) and a.decl().name() == 'addrstr':
            return FALSE        # the text of an address is never empty
        if tb is not None:
            if a.get_id() in S.info:
                c = eq(S.length(a), bv(len(tb)))
                if is_false(simp(c)):
                    return FALSE
                i = S.info[a.get_id()]
                return And(c, *[eq(S.byte(st, a, bv(j)), bv(x, 8)) for j, x in enumerate(tb)])
            self.streqs.setdefault(a.get_id(), (a, set()))[1].add(tb)
            return a == b
        if a.get_id() in S.info or b.get_id() in S.info:
            # structural shortcuts for concatenations
            ia, ib = S.info.get(a.get_id()), S.info.get(b.get_id())
            if ia and ib and ia[1] == 'cat' and ib[1] == 'cat':
                if ia[2].eq(ib[2]):
                    return self.streq(st, ia[3], ib[3])
                if ia[3].eq(ib[3]):
                    return self.streq(st, ia[2], ib[2])
            la, lb = S.length(a), S.length(b)
            c = eq(la, lb)
            if is_false(c):
                return FALSE
            snap = st.copy()
            snap.frames = []
            q = self.P.forall(bv(0), la, lambda t: eq(S.byte(snap, a, t), S.byte(snap, b, t)), name='streq', st=snap)
            if ia and ib and ia[1] == 'sub' and ib[1] == 'sub':
                # the same part of the same string
                return Or(And(*[eq(x, y) for x, y in zip(ia[2:5], ib[2:5])]), And(c, q))
            return And(c, q)
        return a == b

    def valeq(self, st, a, b, t):
        """deep equality of two values of one type (Go ==)"""
        k = self.T.kind(t)
        if k == 'string':
            return self.streq(st, a, b)
        if z3.is_expr(a):
            return eq(a, b)
        if isinstance(a, StructV):
            return And(*[self.valeq(st, x, y, f['t']) for x, y, f in zip(a.f, b.f, self.T.fields(t))])
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            if a.obj is None or b.obj is None:
                return Ite(a.nil, b.nil, FALSE) if (a.obj is None) else And(a.nil, b.nil)
            if a.obj == b.obj and self.samepath(a.path, b.path):
                return TRUE if (is_false(a.nil) and is_false(b.nil)) else eq(a.nil, b.nil)
            if a.obj != b.obj or not any(isinstance(x, tuple) for x in a.path + b.path):
                return And(a.nil, b.nil)
            if len(a.path) == len(b.path):
                c = []
                for x, y in zip(a.path, b.path):
                    if isinstance(x, tuple) and isinstance(y, tuple):
                        c.append(eq(x[1], y[1]))
                    elif x != y:
                        return And(a.nil, b.nil)
                return Or(And(a.nil, b.nil), And(Not(a.nil), Not(b.nil), *c))
            return FALSE
        if isinstance(a, OPtr) and isinstance(b, OPtr):
            return eq(a.id, b.id)
        if isinstance(a, OPtr) and isinstance(b, PtrV):
            if is_true(b.nil):
                return eq(a.id, bv(0))
            raise Unsupported('pointer comparison')
        if isinstance(a, PtrV) and isinstance(b, OPtr):
            return self.valeq(st, b, a, t)
        if isinstance(a, SliceV) and isinstance(b, SliceV):
            if b.obj is None:
                return a.nil
            if a.obj is None:
                return b.nil
        if isinstance(a, MapV) and isinstance(b, MapV):
            if b.obj is None:
                return a.nil
            if a.obj is None:
                return b.nil
        if isinstance(a, IfaceV) and isinstance(b, IfaceV):
            if is_true(b.nil):
                return a.nil
            if is_true(a.nil):
                return b.nil
            if a.id is not None and b.id is not None and a.dyn is None and b.dyn is None:
                return Or(And(a.nil, b.nil), And(Not(a.nil), Not(b.nil), eq(a.id, b.id)))
            if a.dyn and b.dyn and a.dyn[0] == b.dyn[0]:
                return self.valeq(st, a.dyn[1], b.dyn[1], a.dyn[0])
        if isinstance(a, FuncV):
            return FALSE
        if isinstance(a, OpaqueV) and isinstance(b, OpaqueV):
            return eq(a.id, b.id)
        if isinstance(a, ArrV) and isinstance(b, ArrV) and a.n <= 64:
            et = self.T.elem(t)
            return And(*[self.valeq(st, a.mem.read(st, bv(j)), b.mem.read(st, bv(j)), et) for j in range(a.n)])
        raise Unsupported('comparison of %r and %r' % (a, b))

    def op_BinOp(self, st, fr, i):
        o = i['o']
        a, b = self.val(st, fr, i['x']), self.val(st, fr, i['y'])
        t = i['x']['t']
        k = self.T.kind(t)
        if o in ('==', '!='):
            if k == 'nil' or (self.T.kind(i['y']['t']) != k and k == 'iface'):
                t = i['y']['t'] if k == 'nil' else t
            if k == 'iface' and not isinstance(b, IfaceV):
                raise Unsupported('mixed comparison')
            c = self.valeq(st, a, b, t)
            return self.set(fr, i, c if o == '==' else Not(c))
        if k == 'string':
            if o == '+':
                return self.set(fr, i, self.S.concat(a, b))
            ta, tb = self.S.text(a), self.S.text(b)
            if ta is not None and tb is not None:
                r = {'<': ta < tb, '<=': ta <= tb, '>': ta > tb, '>=': ta >= tb}[o]
                return self.set(fr, i, TRUE if r else FALSE)
            f = z3.Function('strlt', BV64, BV64, z3.BoolSort())
            r = {'<': lambda: f(a, b), '>': lambda: f(b, a), '<=': lambda: Not(f(b, a)), '>=': lambda: Not(f(a, b))}[o]()
            return self.set(fr, i, r)
        if k == 'float':
            if o in ('<', '<=', '>', '>='):
                return self.set(fr, i, self.fbool('fcmp'))
            st.tainted('floating point arithmetic is not modelled')
            return self.set(fr, i, OpaqueV(self.fbv('f')))
        if k == 'bool':
            r = {'&': And, '|': Or}.get(o)
            if r:
                return self.set(fr, i, r(a, b))
            raise Unsupported('bool ' + o)
        if k != 'int':
            raise Unsupported('BinOp on ' + k)
        w, sg = self.T.intinfo(t)
        if o in ('<<', '>>'):
            w2, sg2 = self.T.intinfo(i['y']['t'])
            if sg2:
                self.oblige(st, 'index', sle(bv(0, w2), b), 'shift count not negative', i.get('pos', ''))
            if w2 < w:
                c, big = (bv(cval(b), w) if isval(b) else z3.ZeroExt(w - w2, b)), FALSE
                big = z3.UGE(c, bv(w, w))
            elif w2 > w:
                c = z3.Extract(w - 1, 0, b)
                big = z3.UGE(b, bv(w, w2))
            else:
                c, big = b, z3.UGE(b, bv(w, w))
            if o == '<<':
                r = Ite(simp(big), bv(0, w), a << c)
            elif sg:
                r = Ite(simp(big), a >> bv(w - 1, w), a >> c)
            else:
                r = Ite(simp(big), bv(0, w), z3.LShR(a, c))
            return self.set(fr, i, simp(r) if (isval(a) and isval(b)) else self.lite(r))
        if o == '+':
            return self.set(fr, i, add(a, b))
        if o == '-':
            return self.set(fr, i, sub(a, b))
        if o == '*':
            r = a * b
            return self.set(fr, i, simp(r) if isval(a) and isval(b) else norm(r))
        if o in ('/', '%'):
            self.oblige(st, 'div', Not(eq(b, bv(0, w))), 'division by zero', i.get('pos', ''))
            if isval(b) and cval(b) == 0:
                raise Stop()
            if o == '/':
                if (not sg or isval(b) and sgn64(b, w) > 0 and (self.nonneg(a) or not isval(a) and not self.feasible(st, slt(a, bv(0, w))))):
                    sh = cval(b).bit_length() - 1 if isval(b) else -1
                    if sh > 0 and cval(b) == 1 << sh:
                        r = zext(z3.Extract(w - 1, sh, a), w)
                    else:
                        r = z3.UDiv(a, b)
                else:
                    r = a / b if sg else z3.UDiv(a, b)
            else:
                sh = cval(b).bit_length() - 1 if isval(b) else -1
                un = not sg or isval(b) and sgn64(b, w) > 0 and (self.nonneg(a) or not isval(a) and not self.feasible(st, slt(a, bv(0, w))))
                if un and sh > 0 and cval(b) == 1 << sh:
                    r = zext(z3.Extract(sh - 1, 0, a), w)
                elif un:
                    r = z3.URem(a, b)
                else:
                    r = z3.SRem(a, b)
            return self.set(fr, i, self.lite(r))
        if o in ('&', '|', '^', '&^'):
            r = {'&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '&^': lambda: a & ~b}[o]()
            return self.set(fr, i, self.lite(r))
        if o == '<':
            return self.set(fr, i, slt(a, b) if sg else ult(a, b))
        if o == '<=':
            return self.set(fr, i, sle(a, b) if sg else ule(a, b))
        if o == '>':
            return self.set(fr, i, slt(b, a) if sg else ult(b, a))
        if o == '>=':
            return self.set(fr, i, sle(b, a) if sg else ule(b, a))
        raise Unsupported('BinOp ' + o)

    @staticmethod
    def nonneg(a):
        r = rng(a)
        return r is not None and r[0] >= 0

    @staticmethod
    def lite(r):
        return simp(r)

    def op_Convert(self, st, fr, i):
        x = self.val(st, fr, i['x'])
        ft, tt = i['x']['t'], i['t']
        fk, tk = self.T.kind(ft), self.T.kind(tt)
        if fk == 'int' and tk == 'int':
            w, sg = self.T.intinfo(ft)
            w2, _ = self.T.intinfo(tt)
            if w2 > w:
                x = z3.SignExt(w2 - w, x) if sg else z3.ZeroExt(w2 - w, x)
                x = simp(x)
            elif w2 < w:
                x = simp(z3.Extract(w2 - 1, 0, x))
            return self.set(fr, i, x)
        if fk == 'string' and tk == 'string':
            return self.set(fr, i, x)
        if fk == 'string' and tk == 'slice':
            return self.set(fr, i, self.bytesof(st, x, self.T.elem(tt)))
        if fk == 'slice' and tk == 'string':
            return self.set(fr, i, self.stringof(st, x))
        if fk == 'ip' or tk == 'ip' or fk == tk:
            return self.set(fr, i, x)
        if fk == 'float' and tk == 'int':
            w2, _ = self.T.intinfo(tt)
            return self.set(fr, i, self.X.f2i(x, w2))
        if tk == 'float' or fk == 'float':
            return self.set(fr, i, OpaqueV(self.fbv('f')))
        if fk == 'int' and tk == 'string':
            st.tainted('string(rune) is not modelled')
            return self.set(fr, i, self.fbv('runestr'))
        raise Unsupported('conversion %s to %s' % (self.T.s(ft), self.T.s(tt)))

    def bytesof(self, st, s, et):
        S = self.S
        ln = S.length(s)
        o = self.newobj(st, 'arr', et, MFun(lambda ctx, idx: S.byte(ctx, s, idx)))
        return SliceV(o, bv(0), ln, ln)

    def stringof(self, st, sl):
        if sl.obj is None:
            return bv(0)
        mem = self.content(st, sl.obj)
        return self.mkbytes(mem, sl.off, sl.len)

    def mkbytes(self, mem, off, ln):
        if isval(ln) and cval(ln) == 0:
            return bv(0)
        r = self.fbv('bstr')
        self.S.note(r, 'bytes', mem, off, ln)
        self.P.linked_strings[r.get_id()] = r
        return r

    def op_ChangeType(self, st, fr, i):
        x = self.val(st, fr, i['x'])
        self.set(fr, i, x)

    def op_ChangeInterface(self, st, fr, i):
        self.set(fr, i, self.val(st, fr, i['x']))

    def op_MakeInterface(self, st, fr, i):
        x = self.val(st, fr, i['x'])
        self.set(fr, i, IfaceV(FALSE, (i['x']['t'], x), self.fbv('iid')))

    def op_MakeClosure(self, st, fr, i):
        self.set(fr, i, FuncV(i['fn']['n'], tuple(self.val(st, fr, b) for b in i['bindings'])))

    def op_MakeMap(self, st, fr, i):
        o = self.newobj(st, 'map', i['t'], MapConst([], self.T.elem(i['t'])))
        self.set(fr, i, MapV(o))

    def op_MakeChan(self, st, fr, i):
        o = self.newobj(st, 'chan', i['t'], ())
        self.set(fr, i, PtrV(o))

    def op_MakeSlice(self, st, fr, i):
        ln = self.idx64(st, self.val(st, fr, i['len']), i['len']['t'])
        cp = self.idx64(st, self.val(st, fr, i['cap']), i['cap']['t'])
        c = And(sle(bv(0), ln), sle(ln, cp), sle(cp, bv(1 << 47)))
        self.oblige(st, 'makeslice', c, 'length of make in range', i.get('pos', ''))
        et = self.T.elem(i['t'])
        o = self.newobj(st, 'arr', et, MZero(et))
        self.osize[o] = norm(cp)
        self.set(fr, i, SliceV(o, bv(0), norm(ln), norm(cp), FALSE, sub=not ln.eq(cp)))

    def op_Slice(self, st, fr, i):
        x = self.val(st, fr, i['x'])
        pos = i.get('pos', '')

        def arg(n, dflt):
            if n in i:
                return norm(self.idx64(st, self.val(st, fr, i[n]), i[n]['t']))
            return dflt
        if z3.is_expr(x):
            ln = self.S.length(x)
            lo, hi = arg('lo', bv(0)), arg('hi', ln)
            c = self.lite(And(sle(bv(0), lo), sle(lo, hi), sle(hi, ln)))
            self.oblige(st, 'slice', c, 'slice bounds', pos)
            if is_false(c):
                raise Stop()
            return self.set(fr, i, self.substr(x, lo, sub(hi, lo)))
        if isinstance(x, PtrV):       # pointer to array
            self.nonnil(st, x, pos)
            at = self.T.elem(i['x']['t'])
            n = self.T.under(at)['n']
            lo, hi = arg('lo', bv(0)), arg('hi', bv(n))
            mx = arg('max', bv(n))
            c = self.lite(And(sle(bv(0), lo), sle(lo, hi), sle(hi, mx), sle(mx, bv(n))))
            self.oblige(st, 'slice', c, 'slice bounds', pos)
            # arrays that are sliced live in an object of their own
            if x.path:
                raise Unsupported('slice of an embedded array')
            v = self.content(st, x.obj)
            if isinstance(v, ArrV):
                o = ('arr', x.obj)
                if o not in st.heap:
                    self.otype[o] = ('arr', self.T.elem(at))
                # varargs and composite literals: the array is only used through the slice from here on
                st.heap[o] = v.mem
                return self.set(fr, i, SliceV(o, lo, sub(hi, lo), sub(mx, lo), FALSE, sub=not (is_true(eq(hi, mx)))))
            raise Unsupported('slice of array')
        if not isinstance(x, SliceV):
            raise Unsupported('slice of %r' % (x,))
        lo, hi = arg('lo', bv(0)), arg('hi', x.len)
        if 'max' in i:
            mx = arg('max', x.cap)
        else:
            mx = x.cap
        if 'hi' not in i and 'max' not in i:
            c = And(sle(bv(0), lo), sle(lo, x.len))
        else:
            c = And(sle(bv(0), lo), sle(lo, hi), sle(hi, mx), sle(mx, x.cap))
        c = self.lite(c)
        self.oblige(st, 'slice', c, 'slice bounds', pos)
        if is_false(c):
            raise Stop()
        nl = sub(hi, lo)
        self.set(fr, i, SliceV(x.obj, add(x.off, lo), nl, sub(mx, lo), x.nil, sub=x.sub or 'hi' in i))

    def substr(self, x, lo, ln):
        S = self.S
        t = S.text(x)
        if t is not None and isval(lo) and isval(ln):
            return S.const(t[cval(lo):cval(lo) + cval(ln)])
        if isval(lo) and cval(lo) == 0 and ln.eq(S.length(x)):
            return x
        r = self.fbv('substr')
        S.note(r, 'sub', x, lo, ln)
        return r

    def op_Lookup(self, st, fr, i):
        x = self.val(st, fr, i['x'])
        y = self.val(st, fr, i['y'])
        if z3.is_expr(x):
            idx = norm(self.idx64(st, y, i['y']['t']))
            self.inrange(st, idx, self.S.length(x), i.get('pos', ''))
            return self.set(fr, i, self.S.byte(st, x, idx))
        t = i['x']['t']
        vt = self.T.elem(t)
        if x.obj is None:
            v, ok = self.zero(st, vt), FALSE
        else:
            m = self.content(st, x.obj)
            k = self.keyfor(st, m, self.mapkey(y))
            ok = And(Not(x.nil), m.has(st, k))
            if is_true(ok):
                v = m.get(st, k)
            elif is_false(ok):
                v = self.zero(st, vt)
            elif isinstance(m, MapConst):
                v = m.get(st, k)
            else:
                v = st.ite(ok, m.get(st, k), self.zero(st, vt))
        self.set(fr, i, TupleV([v, ok]) if i['ok'] else v)

    def keyfor(self, st, m, k):
        """string keys that are results of merged calls: push to a form MapConst can read"""
        return k

    def op_MapUpdate(self, st, fr, i):
        m = self.val(st, fr, i['m'])
        k = self.mapkey(self.val(st, fr, i['x']))
        v = self.val(st, fr, i['y'])
        self.oblige(st, 'nilmap', Not(m.nil), 'assignment to entry in nil map', i.get('pos', ''))
        if m.obj is None:
            raise Stop()
        if isinstance(m.obj, tuple):
            raise Unsupported('update of a map of unknown origin')
        c = self.content(st, m.obj)
        vt = self.T.elem(i['m']['t'])
        if isinstance(c, MapConst) and isval(k) and all(isval(kk) for kk, _ in c.items):
            items = [(kk, vv) for kk, vv in c.items if not kk.eq(k)] + [(k, v)]
            st.heap[m.obj] = MapConst(items, vt)
        else:
            st.heap[m.obj] = MapStore(c, k, v, vt)
        fr.ip += 1

    def op_Range(self, st, fr, i):
        x = self.val(st, fr, i['x'])
        o = self.newobj(st, 'iter', None, None)
        if z3.is_expr(x):
            st.heap[o] = ('str', x, bv(0))
        elif x.obj is None:
            st.heap[o] = ('const', (), 0, i['x']['t'])
        else:
            m = self.content(st, x.obj)
            if m.const is not None:
                st.heap[o] = ('const', tuple(m.items), 0, i['x']['t'])
            else:
                st.heap[o] = ('map', x, VisBase(None), i['x']['t'])
        self.set(fr, i, IterV(o, None))

    def op_Next(self, st, fr, i):
        it = self.val(st, fr, i['x'])
        s = st.heap[it.map]
        if s[0] == 'const':
            items, n, t = s[1], s[2], s[3]
            kt, vt = self.T.under(t)['key'], self.T.elem(t)
            if n < len(items):
                st.heap[it.map] = ('const', items, n + 1, t)
                k, v = items[n]
                return self.set(fr, i, TupleV([TRUE, self.unkey(k, kt), v]))
            return self.set(fr, i, TupleV([FALSE, self.zero(st, kt), self.zero(st, vt)]))
        if s[0] == 'str':
            raise Unsupported('range over string')
        # symbolic map: an unvisited key, or all visited
        _, mv, vis, t = s
        m = self.content(st, mv.obj)
        kt, vt = self.T.under(t)['key'], self.T.elem(t)
        more = self.fbool('more')
        d = st.decided.get('next', None)
        key = self.fbv('key')
        st.heap[it.map] = ('mapnext', mv, vis, t, more, key)
        st.assume(Implies(more, And(m.has(st, key), Not(vis.has(key)))))
        snap = st.copy()
        snap.frames = []
        q = self.P.forall(None, None, lambda kk: Implies(m.has(snap, kk), vis.has(kk)), kind='str', name='allvisited')
        st.assume(Implies(Not(more), q))
        if isinstance(vis, VisBase) and vis.arr is not None:
            for _, f in self.exitfacts.get(vis.arr.get_id(), ()):
                st.assume(Implies(Not(more), f(st, m)))
        st.heap[it.map] = ('map', mv, VisStore(vis, more, key), t)
        self.set(fr, i, TupleV([more, self.unkey(key, kt), m.get(st, key)]))

    def unkey(self, k, kt):
        if self.T.kind(kt) == 'string':
            return k
        w, _ = self.T.intinfo(kt)
        return simp(z3.Extract(w - 1, 0, k)) if w < 64 else k

    def op_TypeAssert(self, st, fr, i):
        x = self.val(st, fr, i['x'])
        at = i['at']
        iface = self.T.kind(at) == 'iface'
        if x.dyn is not None:
            if iface:
                ok = Not(x.nil)
                v = x
            else:
                same = self.T.s(x.dyn[0]) == self.T.s(at)
                ok = And(Not(x.nil), TRUE if same else FALSE)
                v = x.dyn[1] if same else self.zero(st, at)
        elif is_true(x.nil):
            ok, v = FALSE, self.zero(st, at)
        else:
            f = z3.Function('dyntype', BV64, BV64)
            ok = And(Not(x.nil), eq(f(x.id), bv(at + 1)))
            if iface:
                v = x
            else:
                # one value per interface identity and type
                def leaf(path, sort):
                    fn = z3.Function('dynval$%d$%s' % (at, '.'.join(map(str, path))), BV64, sort)
                    return fn(x.id)
                v = self.build(st, at, leaf)
        if i['ok']:
            if not iface:
                try:
                    vv = st.ite(ok, v, self.zero(st, at))
                except NeedFork:
                    if st.decide(ok):
                        vv = v
                    else:
                        vv = self.zero(st, at)
                v = vv
            return self.set(fr, i, TupleV([v, ok]))
        self.oblige(st, 'assertion', ok, 'type assertion', i.get('pos', ''))
        if is_false(ok):
            raise Stop()
        self.set(fr, i, v)

    def op_Send(self, st, fr, i):
        ch = self.val(st, fr, i['x'])
        v = self.val(st, fr, i['y'])
        self.nonnil(st, ch, i.get('pos', ''))
        if isinstance(ch, OPtr):
            st.tainted('sends on unknown channels are not modelled')
        elif any(ch.obj in (c[1], c[2]) for c in st.heap.get(('ghost', 'dgclauses'), ())):
            n, dg, sends = st.heap[('ghost', 'seg')]
            st.heap[('ghost', 'seg')] = (n, dg, sends + ((ch.obj, v),))
        else:
            st.heap[ch.obj] = self.content(st, ch.obj) + (v,)
        fr.ip += 1

    def op_Go(self, st, fr, i):
        self.assumptions.add('goroutines started by `go` are not interleaved')
        fr.ip += 1

    def op_Defer(self, st, fr, i):
        if 'invoke' in i:
            f = ('invoke', i)
            args = [self.val(st, fr, i['recv'])] + [self.val(st, fr, a) for a in i['args']]
        else:
            f = self.val(st, fr, i['fn'])
            args = [self.val(st, fr, a) for a in i['args']]
        fr.defers = fr.defers + ((f, args, i),)
        fr.ip += 1

    def op_RunDefers(self, st, fr, i):
        if not fr.defers:
            fr.ip += 1
            return
        f, args, ci = fr.defers[-1]
        fr.defers = fr.defers[:-1]
        if isinstance(f, tuple):
            return
        r = self.call(st, fr, f, args, ci, ret='defer')
        return r

    def op_Panic(self, st, fr, i):
        self.oblige(st, 'panic', FALSE, 'panic', i.get('pos', ''))
        return ('stop',)

    def op_Select(self, st, fr, i):
        raise Unsupported('select')

    def op_Phi(self, st, fr, i):
        raise Unsupported('phi')

    # ------------------------------------------------------------ control
    def op_Jump(self, st, fr, i):
        return self.goto(st, fr, fr.fn.blocks[fr.blk]['succs'][0])

    def op_If(self, st, fr, i):
        c = self.val(st, fr, i['x'])
        s = fr.fn.blocks[fr.blk]['succs']
        d = st.decide(c)
        return self.goto(st, fr, s[0] if d else s[1])

    def op_Return(self, st, fr, i):
        vs = [self.val(st, fr, x) for x in i['xs']]
        return ('return', vs[0] if len(vs) == 1 else TupleV(vs))

    def phis(self, st, fr, blk):
        b = fr.fn.blocks[blk]
        k = b['preds'].index(fr.blk)
        out = []
        for i in b['ins']:
            if i['op'] != 'Phi':
                break
            out.append((i, self.val(st, fr, i['edges'][k])))
        return out

    def goto(self, st, fr, b):
        fn = fr.fn
        # leaving a cut loop that a dry run watches
        if st.stopat is not None and len(st.frames) - 1 == st.stopat[0]:
            if b == st.stopat[1] and fr.blk in fn.headers[b]:
                st.stopat[3](st, self.phis(st, fr, b))
                return ('stop',)
            if b not in st.stopat[2]:
                return ('stop',)
        if b in fn.headers:
            back = fr.blk in fn.headers[b]
            if back and b in fr.cuts:
                if (fn.name, b) in self.segloops:
                    self.endseg(st)
                return ('stop',)
            if not back:
                fr.unroll = dict(fr.unroll)
                fr.unroll[b] = 0
                fr.cuts = fr.cuts - {b}
            ph = self.phis(st, fr, b)
            if self.unrollable(st, fr, b, ph):
                fr.unroll[b] = fr.unroll.get(b, 0) + 1
                if fr.unroll[b] > 300:
                    raise Unsupported('loop unrolled too often')
                self.move(fr, b, ph)
                return None
            return self.cut(st, fr, b, ph)
        self.move(fr, b, self.phis(st, fr, b))

    def move(self, fr, b, ph):
        for i, v in ph:
            fr.regs[i['r']] = v
        fr.prev, fr.blk = fr.blk, b
        fr.ip = len(ph)

    def unrollable(self, st, fr, b, ph):
        """does the loop condition evaluate to a literal in this state?"""
        for x in fr.fn.headers[b]:
            for i in fr.fn.blocks[x]['ins']:
                if i['op'] == 'Call' and i.get('fn', {}).get('n') == '(*net.UDPConn).ReadFromUDP':
                    return False
        last = fr.fn.blocks[b]['ins'][-1]
        s = st.copy()
        s.quiet = True
        s.stopat = None
        f = s.frames[-1]
        if last['op'] != 'If':
            return self.jumploop(st, fr, b, ph)
        self.move(f, b, ph)
        try:
            while True:
                i = f.fn.blocks[b]['ins'][f.ip]
                if i is last:
                    c = self.val(s, f, i['x'])
                    if is_true(c) or is_false(c):
                        return True
                    c = simp(c)
                    return is_true(c) or is_false(c) or c.get_id() in s.decided
                if i['op'] == 'Call':
                    nm = i.get('fn', {}).get('n', '')
                    if i.get('fn', {}).get('k') != 'builtin' and not (i.get('fn', {}).get('k') == 'func' and self.ispure(nm)):
                        return False
                    depth = len(s.frames)
                    r = self.step(s, f, i)
                    if len(s.frames) != depth:
                        return False
                    continue
                if i['op'] == 'Next':
                    it = self.val(s, f, i['x'])
                    if s.heap[it.map][0] != 'const':
                        return False
                r = self.step(s, f, i)
                if r is not None:
                    return False
        except (NeedFork, Unsupported, Stop):
            return False

    def jumploop(self, st, fr, b, ph):
        # `for { ... }`: unrolled only while nothing symbolic decides; treated as cut
        return False

    # ------------------------------------------------------------ loops
    def cut(self, st, fr, b, ph):
        import loops
        return loops.cut(self, st, fr, b, ph)

    # ------------------------------------------------------------ calls
    def op_Call(self, st, fr, i):
        if 'invoke' in i:
            recv = self.val(st, fr, i['recv'])
            args = [self.val(st, fr, a) for a in i['args']]
            return self.invoke(st, fr, recv, i['invoke'], args, i)
        f = self.val(st, fr, i['fn'])
        args = [self.val(st, fr, a) for a in i['args']]
        return self.call(st, fr, f, args, i, ret=i['r'])

    def finish(self, fr, i, v, ret):
        if ret == 'defer':
            return
        fr.regs[i['r']] = v
        fr.ip += 1

    def call(self, st, fr, f, args, i, ret):
        if isinstance(f, OPtr) or isinstance(f, OpaqueV):
            raise Unsupported('call of an unknown function value')
        name = f.name
        if name.startswith('builtin '):
            v = self.X.builtin(st, name[8:], args, i)
            return self.finish(fr, i, v, ret)
        if name.startswith(self.zz):
            return self.intrinsic(st, fr, name[len(self.zz):], args, i, ret)
        h = self.X.lookup(name)
        if h is not None:
            v = h(st, args, i)
            return self.finish(fr, i, v, ret)
        fn = self.fns.get(name)
        if fn is not None and fn.blocks and (fn.d.get('inmod') or fn.d.get('synthetic') or '$' in name):
            zc = self.contracts.get(name)
            callerz = fr.fn.d['short']
            if zc and zc != fr.fn.name and name not in self.demoted and not callerz.lower().startswith('zs_'):
                if not (st.pure and st.quiet):
                    if not st.pure:
                        args = [self.choose(st, a) if self.T.kind(p['t']) == 'string' else a for a, p in zip(args, fn.params)]
                    return self.usecontract(st, fr, fn, self.fns[zc], args, i, ret)
            if st.mode == 'use' and st.usectx and st.usectx[0] == fr.fn.name and name == st.usectx[1]:
                return self.havoccall(st, fr, fn, args, i, ret)
            if (not st.pure or st.defs is not None) and self.mergeable(fn):
                try:
                    v = self.pure(st, fn, args, f.binds, quiet=st.quiet)
                    self.inlined.add(name)
                    return self.finish(fr, i, v, ret)
                except (Unsupported, NeedFork):
                    pass
            nf = self.enter(st, fn, args, f.binds, ret if ret == 'defer' else i['r'])
            if st.mode == 'verify' and self.contract_subject(fr, name) and not st.pure:
                st.heap.pop(('ghost', 'ospaths'), None)
                nf.subject = dict(st.heap)
                st.old = nf.subject
                st.lastcall = name
            return None
        v = self.X.unknown(st, name, args, i)
        return self.finish(fr, i, v, ret)

    def contract_subject(self, fr, name):
        return self.subjects.get(fr.fn.name) == name

    subjects = {}

    def invoke(self, st, fr, recv, meth, args, i):
        if isinstance(recv, IfaceV) and recv.dyn is not None:
            self.oblige(st, 'nil', Not(recv.nil), 'nil interface call', i.get('pos', ''))
            if is_true(recv.nil):
                raise Stop()
            t, v = recv.dyn
            d = self.T.tab[t]
            ptr = d['k'] == 'ptr'
            base = self.T.tab[d['e']] if ptr else d
            ms = base.get('methods') if isinstance(base.get('methods'), dict) else None
            if ms:
                n = ms.get(('*' if ptr else '') + meth) or ms.get(meth)
                if n:
                    return self.call(st, fr, FuncV(n), [v] + args, i, i['r'])
        if isinstance(recv, IfaceV):
            c = Not(recv.nil)
            self.oblige(st, 'nil', c, 'nil interface call', i.get('pos', ''))
            if is_false(c):
                raise Stop()
        v = self.X.invoke(st, recv, meth, args, i)
        return self.finish(fr, i, v, i['r'])

    # ------------------------------------------------------------ intrinsics
    def intrinsic(self, st, fr, name, args, i, ret):
        def done(v=None):
            return self.finish(fr, i, v, ret)
        P = self.P
        if name == 'Requires':
            c = args[0]
            if st.mode == 'use':
                self.oblige(st, 'pre', c, 'precondition of ' + st.usectx[2], st.usectx[3])
            else:
                self.reqcount += 1
                st.assume(c)
                if is_false(c) or not self.feasible(st, TRUE):
                    raise Stop()
            return done()
        if name == 'RequiresF':
            c = self.call_spec(st, args[0], [])
            if st.mode == 'use':
                self.oblige(st, 'pre', c, 'precondition of ' + st.usectx[2], st.usectx[3])
            else:
                st.assume(c)
                if is_false(c):
                    raise Stop()
            return done()
        if name in ('Ensures', 'Assert'):
            tag = self.S.text(args[0]).decode()
            if name == 'Assert':
                c = args[1]
            else:
                if st.mode != 'use' and self.wanted is not None and not self.wanted(tag):
                    return done()
                c = self.call_spec(st, args[1], [])
            if st.mode == 'use' and name == 'Ensures':
                st.assume(c)
                if is_false(c):
                    raise Stop()
            elif st.pure and st.quiet:
                pass
            else:
                self.clauses.setdefault(tag, 0)
                self.clauses[tag] += 1
                self.oblige(st, 'ensures', c, tag, i.get('pos', ''))
            return done()
        if name == 'Assume':
            st.assume(args[1])
            self.assumptions.add(self.S.text(args[0]).decode())
            if is_false(args[1]):
                raise Stop()
            return done()
        if name == 'Modifies':
            sl = args[0]
            vs = []
            if sl.obj is not None:
                m = self.content(st, sl.obj)
                for k in range(cval(sl.len)):
                    vs.append(m.read(st, bv(k)))
            st.mods = (st.mods or ()) + tuple(vs)
            return done()
        if name == 'ResultAlias':
            a = args[0]
            st.mods = (st.mods or ()) + (('alias', a.dyn[1] if isinstance(a, IfaceV) else a),)
            return done()
        if name in ('Forall', 'Exists'):
            lo, hi, f = args
            return done(self.quant(st, name, lo, hi, f))
        if name in ('ForallKey', 'ExistsKey'):
            f = args[0]
            snap = self.snap(st)
            if name == 'ForallKey':
                q = P.forall(None, None, lambda t: self.body(snap, f, [t]), kind='str', name='fk', st=snap)
                return done(q)
            q = P.forall(None, None, lambda t: Not(self.body(snap, f, [t])), kind='str', name='ek', st=snap)
            return done(Not(q))
        if name.startswith('Fold'):
            return done(self.fold(st, name, args, i))
        if name == 'Shares':
            a, b = args
            if a.obj is None or b.obj is None or a.obj != b.obj:
                return done(FALSE)
            return done(Not(Or(eq(a.cap, bv(0)), eq(b.cap, bv(0)))))
        if name == 'SameMap':
            a, b = args
            if a.obj is None or b.obj is None or a.obj != b.obj:
                return done(FALSE)
            return done(Not(Or(a.nil, b.nil)))
        if name == 'Implies':
            return done(Implies(args[0], args[1]))
        if name == 'Hint':
            sl = args[0]
            m = self.content(st, sl.obj)
            st.seeds = st.seeds + tuple(m.read(st, bv(k)) for k in range(cval(sl.len)))
            return done()
        if name == 'Split':
            st.decide(args[0])
            return done()
        if name.startswith('Old'):
            s = st.copy()
            if st.old is not None:
                s.heap.update(st.old)
            n = len(s.pc)
            v = self.call_spec(s, args[0], [])
            for c in s.pc[n:]:
                st.assume(c)
            return done(v)
        if name == 'Inside':
            return done(self.X.inside(st, args[0], args[1]))
        if name == 'SameFile':
            return done(eq(self.X.fskey(st, args[0]), self.X.fskey(st, args[1])))
        if name == 'Paths':
            if st.mode == 'use':
                return done(TRUE)
            return done(And(*[self.body(st, args[0], [p]) for p in st.heap.get(('ghost', 'ospaths'), ())]))
        if name == 'FileExists':
            return done(self.X.exists(st, self.X.fskey(st, args[0])))
        if name == 'FileVersion':
            return done(self.X.version(st, self.X.fskey(st, args[0])))
        if name == 'FpSize':
            return done(self.X.filestate(st, args[0])[2])
        if name == 'FpByte':
            return done(self.X.filestate(st, args[0])[1].read(st, args[1]))
        if name == 'Digest':
            return done(self.X.digest(st, args[0], args[1]))
        if name == 'Keys':
            return done()
        if name == 'Conn':
            c = self.fbv('conn')
            st.assume(Not(eq(c, bv(0))))
            return done(OPtr(c))
        if name == 'PerDatagram':
            tag = self.S.text(args[0]).decode()
            if self.wanted is None or self.wanted(tag):
                k = ('ghost', 'dgclauses')
                st.heap[k] = st.heap.get(k, ()) + ((tag, args[1].obj, args[2].obj, args[3], i.get('pos', '')),)
                st.heap[('ghost', 'seg')] = (0, None, ())
            return done()
        if name == 'EndDatagrams':
            self.endseg(st)
            return done()
        if name == 'PerSend':
            tag = self.S.text(args[0]).decode()
            n = self.newobj(st, 'cell', self.T.elem(self.T.under(i['t'])['es'][0]), bv(0))
            b = self.newobj(st, 'cell', self.T.elem(self.T.under(i['t'])['es'][1]), FALSE)
            k = ('ghost', 'persend')
            want = self.wanted is None or self.wanted(tag)
            st.heap[k] = st.heap.get(k, ()) + ((tag, args[1] if want else None, n, b, i.get('pos', '')),)
            return done(TupleV([PtrV(n, (), FALSE), PtrV(b, (), FALSE)]))
        if name == 'Faults':
            u = st.mode == 'use'
            c = self.newobj(st, 'cell', self.T.elem(i['t']), self.fbool('faulty') if u else FALSE)
            k = ('ghost', 'faults')
            if u:
                self.fault(st, IfaceV(Not(st.heap[c]), None, bv(0)))
            else:
                st.heap[k] = st.heap.get(k, ()) + (c,)
            return done(PtrV(c, (), FALSE))
        if name == 'Faulty':
            return done(self.load(st, args[0]))
        if name == 'TrimOf':
            x, y = args
            i_ = self.S.info.get(x.get_id())
            key = z3.Function('trimkey', BV64, BV64)
            tr = z3.Function('trimright_2c', BV64, BV64)
            if i_ and i_[1] == 'sub' and isval(i_[3]) and cval(i_[3]) == 0 and i_[4].eq(tr(i_[2])):
                k = key(i_[2])
            else:
                k = z3.Function('strkey', BV64, BV64)(x)
            return done(eq(k, key(y)))
        if name == 'EndSends':
            return done()
        if name == 'Dest':
            return done(self.X.dest(st, args[0]))
        if name in ('Queue', 'QueueErr'):
            q = self.content(st, args[0].obj)
            et = self.T.elem(i['t'])
            m = MZero(et)
            for n, v in enumerate(q):
                m = MStore(m, bv(n), v)
            st.heap[args[0].obj] = ()
            o = self.newobj(st, 'arr', et, m)
            return done(SliceV(o, bv(0), bv(len(q)), bv(len(q)), TRUE if not q else FALSE))
        if name == 'Sent':
            k = ('ghost', 'sent')
            et = self.T.elem(i['t'])
            vals = []
            for conn, mem, off, ln, to in st.heap.get(k, ()):
                o = self.newobj(st, 'arr', self.T.U8, mem)
                if isinstance(to, IfaceV):
                    if to.dyn is None or not isinstance(to.dyn[1], (PtrV, OPtr)):
                        raise Unsupported('the address a datagram is sent to')
                    to = to.dyn[1]
                elif to is None:
                    to = self.zero(st, self.T.fields(et)[2]['t'])
                vals.append(StructV([conn, SliceV(o, off, ln, ln, FALSE), to, self.S.const('')]))
            st.heap[k] = ()
            return done(self.mkslice(st, et, vals))
        if name == 'Unlocked':
            v = self.load(st, args[0])
            return done(Not(v.f[0]))
        if name == 'Replaying':
            return done(FALSE)
        if name == 'Unreachable':
            return done()
        raise Unsupported('intrinsic ' + name)

    # ------------------------------------------------------------ what is sent for one datagram
    def mkslice(self, st, et, vals):
        m = MZero(et)
        for n, v in enumerate(vals):
            m = MStore(m, bv(n), v)
        o = self.newobj(st, 'arr', et, m)
        return SliceV(o, bv(0), bv(len(vals)), bv(len(vals)), TRUE if not vals else FALSE)

    def endseg(self, st):
        cl = st.heap.get(('ghost', 'dgclauses'))
        if not cl or st.quiet:
            return
        n, dg, sends = st.heap[('ghost', 'seg')]
        st.heap[('ghost', 'seg')] = (n, None, ())
        tag0, rx, tx, _, pos0 = cl[0]
        if dg is None:
            if sends:
                self.oblige(st, 'ensures', FALSE, tag0, pos0, 'a frame is passed on without a datagram')
            return
        ok, d, frm = dg
        if sends:
            self.oblige(st, 'ensures', ok, tag0, pos0, 'a frame is passed on without a datagram')
        for tag, rx, tx, f, pos in cl:
            et = self.T.elem(self.otype[rx][1])
            s = st.copy()
            s.assume(ok)
            rs = self.mkslice(s, et, [v for c, v in sends if c == rx])
            ts = self.mkslice(s, et, [v for c, v in sends if c == tx])
            self.clauses[tag] = self.clauses.get(tag, 0) + 1
            c = self.call_spec(s, f, [d, frm, rs, ts])
            self.oblige(s, 'ensures', c, tag, pos)

    def persend(self, st, conn, mem, off, ln, to):
        """judge one datagram sent; False when datagrams are not judged one by one"""
        cl = st.heap.get(('ghost', 'persend'))
        if not cl:
            return False
        for tag, f, n, b, pos in cl:
            k = st.heap[n]
            if f is not None and not st.quiet:
                s = st.copy()
                et = self.fns[f.name].params[1]['t']
                o = self.newobj(s, 'arr', self.T.U8, mem)
                if isinstance(to, IfaceV):
                    if to.dyn is None or not isinstance(to.dyn[1], (PtrV, OPtr)):
                        raise Unsupported('the address a datagram is sent to')
                    t = to.dyn[1]
                else:
                    t = self.zero(s, self.T.fields(et)[2]['t']) if to is None else to
                d = StructV([conn, SliceV(o, off, ln, ln, FALSE), t, self.S.const('')])
                self.clauses[tag] = self.clauses.get(tag, 0) + 1
                self.oblige(s, 'ensures', self.call_spec(s, f, [k, d]), tag, pos)
            st.heap[n] = add(k, bv(1))
        return True

    def fault(self, st, e, expected=FALSE):
        """a call to the network or the file system may have failed for a reason that is not expected"""
        for b in [c[3] for c in st.heap.get(('ghost', 'persend'), ())] + list(st.heap.get(('ghost', 'faults'), ())):
            st.heap[b] = Or(st.heap[b], And(Not(e.nil), Not(expected)))

    def snap(self, st):
        s = st.copy()
        s.frames = []
        return s

    def quant(self, st, name, lo, hi, f):
        lo, hi = norm(lo), norm(hi)
        if isval(lo) and isval(hi) and s64(hi) - s64(lo) <= 40:
            cs = [self.body(st, f, [bv(x)]) for x in range(s64(lo), s64(hi))]
            return And(*cs) if name == 'Forall' else Or(*cs)
        snap = self.snap(st)
        rg = lambda t: And(sle(lo, t), slt(t, hi))
        if name == 'Forall':
            return self.P.forall(lo, hi, lambda t: self.body(snap, f, [t], rg(t)), name='fa', st=snap)
        return Not(self.P.forall(lo, hi, lambda t: Not(self.body(snap, f, [t], rg(t))), name='ex', st=snap))

    def body2(self, snap, f, args, scope=None):
        s = snap.copy()
        if scope is not None:
            s.scope = s.scope + (scope,)
        n = len(s.pc)
        v = self.call_spec(s, f, args)
        for w in s.taint:
            self.assumptions.add(w)
        return v, s.pc[n:]

    def body(self, snap, f, args, scope=None):
        v, facts = self.body2(snap, f, args, scope)
        return Implies(And(*facts), v) if facts else v

    def fold(self, st, name, args, i):
        n, init, f = args
        n = norm(n)
        snap = self.snap(st)
        snap.pc, snap.decided, snap.prune = [], {}, False    # shared between paths
        # the same fold of the same closure over the same data is the same function
        key = self.foldkey(st, f, init)
        fo = self.foldcache.get(key)
        if fo is None:
            self.P.n += 1
            F = z3.Function('%s!%d' % (name, self.P.n), BV64, init.sort())
            fo = Fold(F, init, lambda acc, idx: self.body2(snap, f, [acc, idx]))
            self.P.folds[F.name()] = fo
            self.foldcache[key] = fo
        if isval(n) and s64(n) <= 64:
            acc = init
            for j in range(max(0, s64(n))):
                acc, facts = fo.step(acc, bv(j))
                for c in facts:
                    st.assume(c)
            return acc
        return fo.f(n)

    foldcache = {}
    exitfacts = {}

    def foldkey(self, st, f, init):
        ks = [f.name, init.get_id()]
        for b in f.binds:
            ks.append(self.valkey(st, self.load(st, b) if isinstance(b, PtrV) and b.obj is not None else b))
        return tuple(ks)

    def valkey(self, st, v):
        if z3.is_expr(v):
            self.keepalive.append(v)
            return v.get_id()
        if isinstance(v, StructV):
            return tuple(self.valkey(st, x) for x in v.f)
        if isinstance(v, SliceV):
            m = st.heap.get(v.obj) if v.obj is not None else None
            self.keepalive.append(m)
            return ('sl', id(m), v.off.get_id(), v.len.get_id())
        if isinstance(v, PtrV):
            return ('p', v.obj, self.valkey(st, self.load(st, v)) if v.obj is not None else None)
        if isinstance(v, MapV):
            m = st.heap.get(v.obj)
            self.keepalive.append(m)
            return ('m', id(m))
        self.keepalive.append(v)
        return id(v)

    keepalive = []

    # ------------------------------------------------------------ contracts at call sites
    def coerce(self, st, v, have, want):
        """interface argument passed to a contract declared for the concrete type"""
        if self.T.kind(want) != 'iface' and isinstance(v, IfaceV):
            if v.dyn is None or self.T.s(v.dyn[0]) != self.T.s(want):
                raise Unsupported('contract argument')
            return v.dyn[1]
        return v

    def choose(self, st, e):
        """a string that is one of some constants: one case for each"""
        if not self.S.choice(e):
            return e
        while z3.is_app_of(e, z3.Z3_OP_ITE):
            e = e.arg(1) if st.decide(e.arg(0)) else e.arg(2)
        return e

    def usecontract(self, st, fr, fn, zc, args, i, ret):
        try:
            cargs = [self.coerce(st, a, None, p['t']) for a, p in zip(args, zc.params)]
            for p in zc.params[len(args):]:
                # ghost parameters: the contract holds for every value, so for this one
                same = [v for n, t, v in self.rootparams if n == p['n'] and self.T.s(t) == self.T.s(p['t'])]
                cargs.append(same[0] if same else self.sym(st, p['t'], 'ghost'))
        except Unsupported:
            nf = self.enter(st, fn, args, (), ret if ret == 'defer' else i['r'])
            return None
        s = st
        saved = (st.mode, st.mods, st.usectx)
        f = self.enter(st, zc, cargs, (), None)
        # run the contract body inline in use mode; the marker frame restores the mode
        f.ret = ('use', saved, fn.name, ret if ret == 'defer' else i['r'])
        st.mode, st.mods = 'use', None
        st.usectx = (zc.name, fn.name, fn.d['short'], i.get('pos', ''), None)
        self.used.add(fn.name)
        return None

    def havoccall(self, st, fr, fn, args, i, ret):
        res = []
        alias = None
        for m in st.mods or ():
            if isinstance(m, tuple):
                alias = m[1]
                continue
            self.havocval(st, m)
        for k, r in enumerate(fn.results):
            t = r['t']
            if alias is not None and self.T.kind(t) == 'slice':
                ln = self.flen('rlen')
                st.assume(sle(ln, alias.cap))
                v = SliceV(alias.obj, alias.off, ln, alias.cap, And(alias.nil, eq(ln, bv(0))), sub=True)
            else:
                v = self.sym(st, t, fn.d['short'] + '.r%d' % k)
            res.append(v)
        v = res[0] if len(res) == 1 else TupleV(res)
        c = st.usectx
        st.usectx = c[:4] + (v,)
        return self.finish(fr, i, v, ret)

    def havocval(self, st, m):
        """m: an interface holding a pointer or slice whose target may change"""
        if isinstance(m, IfaceV):
            m = m.dyn[1]
        if isinstance(m, PtrV):
            if m.obj is None:
                return
            t = self.ptrtype(st, m)
            self.store(st, m, self.sym(st, t, 'hv'))
        elif isinstance(m, SliceV):
            if m.obj is not None:
                et = self.otype[m.obj][1]
                self.P.n += 1
                base = MBase(et, 'hv!%d' % self.P.n)
                # only [off, off+cap) may change
                old = self.content(st, m.obj)
                n = self.osize.get(m.obj)
                whole = n is not None and isval(m.off) and cval(m.off) == 0 and n.eq(m.cap)
                st.heap[m.obj] = base if whole else MCopy(old, m.off, m.cap, base, bv(0))
        elif isinstance(m, MapV):
            if m.obj is not None:
                self.P.n += 1
                t = self.otype[m.obj][1]
                st.heap[m.obj] = MapBase(self.T.under(t)['key'], self.T.elem(t), 'hvm!%d' % self.P.n)
        else:
            raise Unsupported('Modifies argument')

    def ptrtype(self, st, p):
        if isinstance(p.obj, tuple) and p.obj[0] == 'g':
            t = self.T.elem(self.globals[p.obj[1]]['t'])
        else:
            kind, t = self.otype[p.obj]
            if kind == 'arr':
                t = None
                el = self.otype[p.obj][1]
                path = p.path[1:]
                for x in path:
                    el = self.T.fields(el)[x]['t'] if not isinstance(x, tuple) else self.T.elem(el)
                return el
        for x in p.path:
            t = self.T.fields(t)[x]['t'] if not isinstance(x, tuple) else self.T.elem(t)
        return t

    # ------------------------------------------------------------ frame conditions
    def aliascheck(self, st, done, v):
        """declared with ResultAlias: slices returned start where the given one does, in the same memory"""
        if st.quiet or st.mods is None:
            return
        for m in st.mods:
            if isinstance(m, tuple):
                for x in (v.v if isinstance(v, TupleV) else [v]):
                    if isinstance(x, SliceV):
                        a = m[1]
                        c = FALSE if x.obj != a.obj else And(eq(x.off, a.off), eq(x.cap, a.cap)) if x.obj is not None else TRUE
                        self.oblige(st, 'frame', c, 'the result shares the memory of the argument', done.fn.d['pos'])

    def framecheck(self, st, done):
        if st.quiet or st.mods is None:
            return
        old = done.subject
        allowed = {}
        for m in st.mods:
            if isinstance(m, tuple):
                continue
            v = m.dyn[1] if isinstance(m, IfaceV) and m.dyn else m
            if isinstance(v, (PtrV, SliceV, MapV)):
                if v.obj is not None:
                    allowed.setdefault(v.obj, []).append(v)
        for o, c0 in old.items():
            c1 = st.heap.get(o)
            if c1 is c0:
                continue
            if isinstance(o, tuple) and o[0] in ('osl', 'omap', 'ghost'):
                continue
            if self.otype.get(o, ('',))[0] == 'chan' or any(o in (c[2], c[3]) for c in st.heap.get(('ghost', 'persend'), ())) or o in st.heap.get(('ghost', 'faults'), ()):
                continue
            self.frameobj(st, o, c0, c1, allowed.get(o, []), done.fn)
        for o in set(st.heap) - set(old):
            if isinstance(o, tuple) and o[0] == 'g':
                c0 = self.ginits[o[1]][0]
                if st.heap[o] is not c0:
                    self.frameobj(st, o, c0, st.heap[o], allowed.get(o, []), done.fn)

    def frameobj(self, st, o, c0, c1, al, fn):
        if any(isinstance(a, PtrV) and not a.path for a in al):
            return
        tag = 'frame'
        g = o[1].rsplit('/', 1)[-1] if isinstance(o, tuple) and o[0] == 'g' else ''
        if isinstance(c0, Mem):
            rng = [a for a in al if isinstance(a, SliceV)]
            if self.covers(o, rng):
                return

            def body(t):
                inside = Or(*[ult(sub(t, a.off), a.cap) for a in rng]) if rng else FALSE
                k, et = self.otype[o]
                return Or(inside, self.deepeq(snap, c0.read(snap, t), c1.read(snap, t), et))
            snap = self.snap(st)
            q = self.P.forall(bv(0), bv(1 << 40), body, name='frame')
            self.oblige(st, 'frame', q, 'frame: memory outside the Modifies clause unchanged', fn.d['pos'])
            return
        if isinstance(c0, MapMem):
            if al:
                return
            self.oblige(st, 'frame', FALSE, 'frame: map not in the Modifies clause changed', fn.d['pos'])
            return
        if isinstance(c0, tuple):
            return
        t = self.T.elem(self.globals[o[1]]['t']) if isinstance(o, tuple) else self.otype[o][1]
        paths = [a.path for a in al if isinstance(a, PtrV)]
        self.framecell(st, c0, c1, t, (), paths, fn, g)

    def covers(self, o, rng):
        """one of the slices is all of the object"""
        n = self.objsize.get(o)
        return n is not None and any(isval(a.off) and cval(a.off) == 0 and a.cap.eq(n) for a in rng)

    def framecell(self, st, a, b, t, path, paths, fn, g):
        if a is b or path in paths:
            return
        if isinstance(a, StructV) and any(p[:len(path)] == path for p in paths):
            for k, f in enumerate(self.T.fields(t)):
                self.framecell(st, a.f[k], b.f[k], f['t'], path + (k,), paths, fn, g)
            return
        c = self.deepeq(st, a, b, t)
        self.oblige(st, 'frame', c, 'frame: %s outside the Modifies clause unchanged' % (g or self.T.s(t)), fn.d['pos'])

    def deepeq(self, st, a, b, t):
        """identity of stored values (slices by reference)"""
        if z3.is_expr(a):
            return eq(a, b) if self.T.kind(t) != 'string' else self.streq(st, a, b)
        if isinstance(a, StructV):
            return And(*[self.deepeq(st, x, y, f['t']) for x, y, f in zip(a.f, b.f, self.T.fields(t))])
        if isinstance(a, SliceV):
            if a.obj is None or b.obj is None:
                return And(eq(a.len, b.len), eq(a.nil, b.nil))
            if a.obj != b.obj:
                return FALSE
            return And(eq(a.off, b.off), eq(a.len, b.len))
        if isinstance(a, IfaceV):
            if a.id is not None and b.id is not None:
                return And(eq(a.nil, b.nil), Or(a.nil, eq(a.id, b.id)))
            return FALSE
        if isinstance(a, MapV):
            return TRUE if a.obj == b.obj else FALSE
        if isinstance(a, ArrV):
            return TRUE if a.mem is b.mem else FALSE
        return self.valeq(st, a, b, t)

    # ------------------------------------------------------------ verifying a root
    def verify(self, name, wanted=None, budget=None):
        """verify one contract or lemma function; obligations go to self.obs"""
        fn = self.fns[name]
        self.root = fn.d['short']
        self.rootname = name
        self.wanted = wanted
        self.clauses = {}
        self.reqcount = 0
        self.deadline = time.time() + budget if budget else None
        Engine.foldcache = {}
        st = State(self)
        args = []
        self.rootparams = []
        for p in fn.params:
            v = self.sym(st, p['t'], p['n'])
            args.append(v)
            self.rootparams.append((p['n'], p['t'], v))
        self.rootheap = dict(st.heap)
        self.rootlens = []
        for n, t, v in self.rootparams:
            self.collectlens(st, v, self.rootlens)
        self.enter(st, fn, args)
        ends = []
        self.explore(st, lambda s, v: ends.append(len(s.pc)))
        return len(ends)

    def rootstate(self):
        st = State(self)
        st.heap = dict(self.rootheap)
        return st

    def collectlens(self, st, v, out):
        if isinstance(v, SliceV):
            if not isval(v.len):
                out.append(v.len)
        elif isinstance(v, StructV):
            for x in v.f:
                self.collectlens(st, x, out)
        elif isinstance(v, PtrV) and v.obj is not None:
            c = st.heap.get(v.obj)
            if c is not None and not isinstance(c, tuple):
                self.collectlens(st, c, out)
