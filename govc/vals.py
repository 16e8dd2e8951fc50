"""Values, types, strings and memory of the verifier.

Machine integers are exact-width bit-vectors.  Strings are 64-bit identities with
length/byte functions, constants interned.  Memory cells hold python values whose
leaves are z3 terms; array contents are lazy read-over-write chains over z3 arrays.
"""
import z3

BV64 = z3.BitVecSort(64)
BV8 = z3.BitVecSort(8)
BV40 = z3.BitVecSort(40)   # lengths: 40 bits, zero-extended, so they are never negative and never wrap
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def zext(e, w=64):
    """zero extension in the shape z3's simplifier gives it"""
    return z3.Concat(z3.BitVecVal(0, w - e.size()), e)


class Unsupported(Exception):
    pass


class NeedFork(Exception):
    """Raised when an instruction can only proceed once `cond` is decided."""

    def __init__(self, cond):
        self.cond = cond


def bv(n, w=64):
    return z3.BitVecVal(n, w)


def isval(e):
    return z3.is_bv_value(e)


def cval(e):
    return e.as_long()


def is_true(e):
    return z3.is_true(e)


def is_false(e):
    return z3.is_false(e)


def simp(e):
    return z3.simplify(e)


def And(*cs):
    out = []
    for c in cs:
        if is_true(c):
            continue
        if is_false(c):
            return FALSE
        out.append(c)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or(*cs):
    out = []
    for c in cs:
        if is_false(c):
            continue
        if is_true(c):
            return TRUE
        out.append(c)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def Not(c):
    if is_true(c):
        return FALSE
    if is_false(c):
        return TRUE
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def Implies(a, b):
    return Or(Not(a), b)


def Ite(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a.eq(b):
        return a
    if z3.is_bool(a):
        if is_true(a) and is_false(b):
            return c
        if is_false(a) and is_true(b):
            return Not(c)
        if is_true(a):
            return Or(c, b)
        if is_false(b):
            return And(c, a)
        if is_false(a):
            return And(Not(c), b)
        if is_true(b):
            return Or(Not(c), a)
    return z3.If(c, a, b)


def eq(a, b):
    if a.eq(b):
        return TRUE
    if isval(a) and isval(b):
        return TRUE if cval(a) == cval(b) else FALSE
    if z3.is_bool(a):
        if is_true(a):
            return b
        if is_true(b):
            return a
        if is_false(a):
            return Not(b)
        if is_false(b):
            return Not(a)
        return a == b
    # cheap affine difference: x + c1 == x + c2
    if not isval(a) or not isval(b):
        d = affdiff(a, b)
        if d is not None:
            return TRUE if d == 0 else FALSE
    if a.size() == 64:
        r = intcmp(a, b, '==')
        if r is not None:
            return r
    if z3.is_app_of(a, z3.Z3_OP_ITE) and isval(b):
        t, e = a.arg(1), a.arg(2)
        if isval(t) and isval(e):
            tt, ee = cval(t) == cval(b), cval(e) == cval(b)
            if tt and ee:
                return TRUE
            if tt:
                return a.arg(0)
            if ee:
                return Not(a.arg(0))
            return FALSE
    if z3.is_app_of(b, z3.Z3_OP_ITE) and isval(a):
        return eq(b, a)
    return a == b


_aff = {}


def affine(e):
    """e as ({atom ast id: (atom, coeff)}, const) modulo 2^w; adds, subs, const muls only."""
    k = e.get_id()
    r = _aff.get(k)
    if r is not None:
        return r[1]
    w = e.size()
    m = (1 << w) - 1
    if isval(e):
        res = ({}, cval(e))
    elif z3.is_app_of(e, z3.Z3_OP_BADD):
        d, c = {}, 0
        for i in range(e.num_args()):
            d2, c2 = affine(e.arg(i))
            c = (c + c2) & m
            for kk, (at, co) in d2.items():
                o = d.get(kk, (at, 0))[1]
                d[kk] = (at, (o + co) & m)
        res = ({kk: v for kk, v in d.items() if v[1]}, c)
    elif z3.is_app_of(e, z3.Z3_OP_BSUB) and e.num_args() == 2:
        d, c = affine(e.arg(0))
        d = dict(d)
        d2, c2 = affine(e.arg(1))
        c = (c - c2) & m
        for kk, (at, co) in d2.items():
            o = d.get(kk, (at, 0))[1]
            d[kk] = (at, (o - co) & m)
        res = ({kk: v for kk, v in d.items() if v[1]}, c)
    elif z3.is_app_of(e, z3.Z3_OP_BMUL) and e.num_args() == 2 and (isval(e.arg(0)) or isval(e.arg(1))):
        a, b = e.arg(0), e.arg(1)
        if isval(b):
            a, b = b, a
        co = cval(a)
        d, c = affine(b)
        res = ({kk: (at, (x * co) & m) for kk, (at, x) in d.items() if (x * co) & m}, (c * co) & m)
    elif z3.is_app_of(e, z3.Z3_OP_BNEG):
        d, c = affine(e.arg(0))
        res = ({kk: (at, (-x) & m) for kk, (at, x) in d.items()}, (-c) & m)
    else:
        res = ({k: (e, 1)}, 0)
    _aff[k] = (e, res)
    return res


def affdiff(a, b):
    """constant a-b (mod 2^w) if syntactically constant, else None"""
    d1, c1 = affine(a)
    d2, c2 = affine(b)
    if len(d1) != len(d2):
        return None
    for k, v in d1.items():
        if k not in d2 or d2[k][1] != v[1]:
            return None
    return (c1 - c2) & ((1 << a.size()) - 1)


_rng = {}
BIG = 1 << 61


def rng(e):
    """(lo, hi) such that the signed value of e lies in it, from the shape of the term; None: unknown"""
    k = e.get_id()
    r = _rng.get(k)
    if r is not None:
        return r[1]
    res = None
    w = e.size()
    if isval(e):
        res = (s64(e), s64(e))
    else:
        op = e.decl().kind()
        if op == z3.Z3_OP_ZERO_EXT and e.arg(0).size() < w:
            x = rng(e.arg(0)) if e.arg(0).size() < w else None
            res = (0, (1 << e.arg(0).size()) - 1)
            if x is not None and x[0] >= 0:
                res = x
        elif op == z3.Z3_OP_SIGN_EXT:
            n = e.arg(0).size()
            res = (-(1 << (n - 1)), (1 << (n - 1)) - 1)
        elif op == z3.Z3_OP_CONCAT and isval(e.arg(0)) and cval(e.arg(0)) >> (e.arg(0).size() - 1) == 0:
            n = w - e.arg(0).size()
            res = (cval(e.arg(0)) << n, (cval(e.arg(0)) << n) + (1 << n) - 1)
        elif op == z3.Z3_OP_ITE:
            x, y = rng(e.arg(1)), rng(e.arg(2))
            if x and y:
                res = (min(x[0], y[0]), max(x[1], y[1]))
        elif op in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and isval(e.arg(1)) and 0 < s64(e.arg(1)):
            res = (0, cval(e.arg(1)) - 1)
        elif op in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and isval(e.arg(1)) and 0 < s64(e.arg(1)):
            x = rng(e.arg(0))
            c = cval(e.arg(1))
            if x and x[0] >= 0:
                res = (x[0] // c, x[1] // c)
            elif c > 1:
                res = (0, ((1 << w) - 1) // c)
        elif op == z3.Z3_OP_BAND:
            for i in range(e.num_args()):
                if isval(e.arg(i)) and s64(e.arg(i)) >= 0:
                    res = (0, cval(e.arg(i)))
        elif op == z3.Z3_OP_BLSHR and isval(e.arg(1)) and 0 < cval(e.arg(1)) < w:
            res = (0, (1 << (w - cval(e.arg(1)))) - 1)
        elif op in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BMUL, z3.Z3_OP_BNEG) and w == 64:
            d, c = affine(e)
            if not (len(d) == 1 and k in d):
                res = arng(d, c)
    _rng[k] = (e, res)
    return res


def sgn(c):
    return c - (1 << 64) if c >> 63 else c


def arng(d, c):
    """interval of a 64 bit affine form if it cannot wrap"""
    lo = hi = sgn(c)
    for at, co in d.values():
        r = rng(at)
        if r is None:
            return None
        co = sgn(co)
        x, y = co * r[0], co * r[1]
        lo += min(x, y)
        hi += max(x, y)
        if lo < -BIG or hi > BIG:
            return None
    return lo, hi


def intcmp(a, b, op):
    """a op b over the integers, when neither a, b nor a-b can wrap; None: no simplification"""
    import math
    d1, c1 = affine(a)
    d2, c2 = affine(b)
    if len(d1) + len(d2) > 12:
        return None
    if arng(d1, c1) is None or arng(d2, c2) is None:
        return None
    d = dict(d1)
    for k, (at, co) in d2.items():
        o = d.get(k, (at, 0))[1]
        n = (o - co) & ((1 << 64) - 1)
        if n:
            d[k] = (at, n)
        else:
            d.pop(k, None)
    c = sgn((c1 - c2) & ((1 << 64) - 1))
    r = arng(d, c & ((1 << 64) - 1))
    if r is None:
        return None
    lo, hi = r
    if op == '==':
        if lo > 0 or hi < 0:
            return FALSE
        if lo == hi == 0:
            return TRUE
    elif op == '<':
        if hi < 0:
            return TRUE
        if lo >= 0:
            return FALSE
    else:
        if hi <= 0:
            return TRUE
        if lo > 0:
            return FALSE
    g = 0
    for at, co in d.values():
        g = math.gcd(g, abs(sgn(co)))
    if g > 1:
        if op == '==':
            if c % g:
                return FALSE
            c //= g
        elif op == '<':       # S*g + c < 0  <=>  S < -c/g  <=>  S + floor(c/g) < 0
            c = c // g
        else:                 # S*g + c <= 0 <=> S <= floor(-c/g) <=> S + ceil(c/g) <= 0
            c = -((-c) // g)
    pos, neg = {}, {}
    for k, (at, co) in d.items():
        co = sgn(co) // g if g > 1 else sgn(co)
        if co > 0:
            pos[k] = (at, co)
        else:
            neg[k] = (at, -co)
    if op == '<' and c < 0:       # prefer the form without a constant
        c, op = c + 1, '<='
    elif op == '<=' and c > 0:
        c, op = c - 1, '<'
    l = mkaffine(pos, c if c > 0 else 0, 64)
    r = mkaffine(neg, -c if c < 0 else 0, 64)
    if op == '==':
        return l == r
    return l < r if op == '<' else l <= r


def mkaffine(d, c, w):
    out = None
    for k in sorted(d):
        at, co = d[k]
        t = at if co == 1 else bv(co, w) * at
        out = t if out is None else out + t
    if out is None:
        return bv(c, w)
    if c:
        out = out + bv(c, w)
    return out


def norm(e):
    """canonical affine form (keeps terms small and comparisons syntactic)"""
    if not z3.is_bv(e) or isval(e):
        return e
    op = e.decl().kind()
    if op in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BMUL, z3.Z3_OP_BNEG):
        d, c = affine(e)
        return mkaffine(d, c, e.size())
    return e


def add(a, b):
    if isval(a) and isval(b):
        return bv(cval(a) + cval(b), a.size())
    if isval(b) and cval(b) == 0:
        return a
    if isval(a) and cval(a) == 0:
        return b
    return norm(a + b)


def sub(a, b):
    if isval(a) and isval(b):
        return bv(cval(a) - cval(b), a.size())
    if isval(b) and cval(b) == 0:
        return a
    return norm(a - b)


def s64(e):
    v = cval(e)
    w = e.size()
    return v - (1 << w) if v >> (w - 1) else v


def sle(a, b):
    if isval(a) and isval(b):
        return TRUE if s64(a) <= s64(b) else FALSE
    if a.eq(b):
        return TRUE
    if a.size() == 64:
        r = intcmp(a, b, '<=')
        if r is not None:
            return r
    return a <= b


def slt(a, b):
    if isval(a) and isval(b):
        return TRUE if s64(a) < s64(b) else FALSE
    if a.eq(b):
        return FALSE
    if a.size() == 64:
        r = intcmp(a, b, '<')
        if r is not None:
            return r
    return a < b


def ule(a, b):
    if isval(a) and isval(b):
        return TRUE if cval(a) <= cval(b) else FALSE
    if a.eq(b):
        return TRUE
    return z3.ULE(a, b)


def ult(a, b):
    if isval(a) and isval(b):
        return TRUE if cval(a) < cval(b) else FALSE
    if a.eq(b):
        return FALSE
    if a.size() == 64:
        x, y = rng(a), rng(b)
        if x and y and y[0] >= 0 and y[1] <= BIG and -BIG <= x[0] and x[1] <= BIG:
            if x[0] >= 0:
                r = intcmp(a, b, '<')
                if r is not None:
                    return r
            elif x[1] < 0 or x[0] >= y[1]:
                return FALSE
            else:
                r = And(sle(bv(0), a), slt(a, b))
                return r
    return z3.ULT(a, b)


# ------------------------------------------------------------------ types

class Types:
    def __init__(self, tab):
        self.tab = list(tab)
        self.bystr = {t['s']: t['id'] for t in tab}
        self._syn = {}
        self.I64 = self.basic('int64')
        self.INT = self.basic('int')
        self.U8 = self.basic('uint8')
        self.BOOL = self.basic('bool')
        self.STR = self.basic('string')
        self.timestruct = self.synth({'k': 'struct', 's': '$time', 'fields': [
            {'n': 'sec', 't': self.I64, 'emb': False}, {'n': 'nsec', 't': self.I64, 'emb': False}]})
        self.mutexstruct = self.synth({'k': 'struct', 's': '$mutex', 'fields': [
            {'n': 'held', 't': self.BOOL, 'emb': False}]})
        self._under = {}
        self._kind = {}

    def basic(self, name):
        if name in self.bystr:
            return self.bystr[name]
        return self.synth({'k': 'basic', 's': name, 'name': name})

    def synth(self, d):
        i = len(self.tab)
        d['id'] = i
        self.tab.append(d)
        self.bystr.setdefault(d['s'], i)
        return i

    def s(self, t):
        return self.tab[t]['s']

    def ptr_to(self, t):
        s = '*' + self.s(t)
        if s in self.bystr:
            return self.bystr[s]
        return self.synth({'k': 'ptr', 's': s, 'e': t})

    def slice_of(self, t):
        s = '[]' + self.s(t)
        if s in self.bystr:
            return self.bystr[s]
        return self.synth({'k': 'slice', 's': s, 'e': t})

    def under(self, t):
        r = self._under.get(t)
        if r is None:
            d = self.tab[t]
            s = d['s']
            if s == 'time.Time':
                d = self.tab[self.timestruct]
            elif s in ('sync.Mutex', 'sync.RWMutex'):
                d = self.tab[self.mutexstruct]
            elif s == 'net.IP':
                d = {'k': 'ip', 's': s}
            elif s == 'reflect.Value':
                d = {'k': 'py', 's': s}
            else:
                while d['k'] == 'named':
                    d = self.tab[d['u']]
            r = self._under[t] = d
        return r

    INTS = {'int': (64, True), 'int8': (8, True), 'int16': (16, True), 'int32': (32, True), 'int64': (64, True),
            'uint': (64, False), 'uint8': (8, False), 'uint16': (16, False), 'uint32': (32, False),
            'uint64': (64, False), 'uintptr': (64, False), 'byte': (8, False), 'rune': (32, True),
            'untyped int': (64, True), 'untyped rune': (32, True)}

    def kind(self, t):
        r = self._kind.get(t)
        if r is None:
            u = self.under(t)
            k = u['k']
            if k == 'basic':
                n = u['name']
                if n in self.INTS:
                    r = 'int'
                elif n in ('bool', 'untyped bool'):
                    r = 'bool'
                elif n in ('string', 'untyped string'):
                    r = 'string'
                elif n in ('float64', 'float32', 'untyped float'):
                    r = 'float'
                elif n == 'untyped nil':
                    r = 'nil'
                else:
                    r = 'opaque'
            elif k == 'other':
                r = 'opaque'
            else:
                r = k
            self._kind[t] = r
        return r

    def intinfo(self, t):
        return self.INTS[self.under(t)['name']]

    def elem(self, t):
        return self.under(t)['e']

    def fields(self, t):
        return self.under(t)['fields']

    def fieldidx(self, t, name):
        for i, f in enumerate(self.fields(t)):
            if f['n'] == name:
                return i
        return None


# ------------------------------------------------------------------ values

class PtrV:
    """pointer into a heap object; path elements are ints (fields) or ('i', term)"""
    __slots__ = ('obj', 'path', 'nil')

    def __init__(self, obj, path=(), nil=FALSE):
        self.obj, self.path, self.nil = obj, path, nil

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.path)


class OPtr:
    """opaque pointer, identified by a term; 0 is nil"""
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id


class Poison:
    """a field of a merged struct that could not be merged; using it ends the proof"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class SliceV:
    __slots__ = ('obj', 'off', 'len', 'cap', 'nil', 'sub')

    def __init__(self, obj, off, ln, cap, nil=FALSE, sub=False):
        self.obj, self.off, self.len, self.cap, self.nil, self.sub = obj, off, ln, cap, nil, sub

    def __repr__(self):
        return 'Slice(%s,%s,%s)' % (self.obj, self.off, self.len)


class StructV:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return 'Struct(%r)' % (self.f,)


class ArrV:
    __slots__ = ('mem', 'n')

    def __init__(self, mem, n):
        self.mem, self.n = mem, n


class IfaceV:
    """nil: z3 bool; dyn: (type, value) when known; id: identity term"""
    __slots__ = ('nil', 'dyn', 'id')

    def __init__(self, nil, dyn=None, id=None):
        self.nil, self.dyn, self.id = nil, dyn, id

    def __repr__(self):
        return 'Iface(%s,%s)' % (self.nil, self.dyn)


class MapV:
    __slots__ = ('obj', 'nil')

    def __init__(self, obj, nil=FALSE):
        self.obj, self.nil = obj, nil


class FuncV:
    __slots__ = ('name', 'binds')

    def __init__(self, name, binds=()):
        self.name, self.binds = name, binds


class TupleV:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class OpaqueV:
    """value of an unmodelled type"""
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id


class RefV:
    """reflect.Value: type, value, and address if any"""
    __slots__ = ('t', 'v', 'addr')

    def __init__(self, t, v, addr=None):
        self.t, self.v, self.addr = t, v, addr


class IterV:
    __slots__ = ('map', 'state')

    def __init__(self, m, state):
        self.map, self.state = m, state


# ------------------------------------------------------------------ memory chains

class Mem:
    """array contents: read(ctx, idx) -> value"""
    key = None

    def read(self, ctx, idx):
        raise NotImplementedError


class MFun(Mem):
    def __init__(self, fn, key=None):
        self.fn, self.key = fn, key

    def read(self, ctx, idx):
        return self.fn(ctx, idx)


class MZero(Mem):
    def __init__(self, t):
        self.t = t

    def read(self, ctx, idx):
        return ctx.zero(self.t)


class MBase(Mem):
    """unconstrained contents, one z3 array per leaf of the element type"""

    def __init__(self, t, name):
        self.t, self.name = t, name
        self.arrs = {}

    def read(self, ctx, idx):
        return ctx.build(self.t, lambda path, sort: self.leaf(path, sort, idx))

    def leaf(self, path, sort, idx):
        a = self.arrs.get(path)
        if a is None:
            a = self.arrs[path] = z3.Array(self.name + ''.join('.' + str(p) for p in path), BV64, sort)
        return z3.Select(a, idx)


class MUF(Mem):
    """contents of an opaque slice identified by a term"""

    def __init__(self, t, id):
        self.t, self.id = t, id

    def read(self, ctx, idx):
        def leaf(path, sort):
            f = z3.Function('osl$%s$%s' % (ctx.T.s(self.t), '.'.join(map(str, path))), BV64, BV64, sort)
            return f(self.id, idx)
        return ctx.build(self.t, leaf)


class MStore(Mem):
    def __init__(self, prev, idx, val):
        self.prev, self.idx, self.val = prev, idx, val

    def read(self, ctx, idx):
        m = self
        # walk the chain iteratively; collect undecided stores
        pend = []
        while True:
            if isinstance(m, MStore):
                c = eq(idx, m.idx)
                if is_true(c):
                    v = m.val
                    break
                if not is_false(c):
                    pend.append((c, m.val))
                m = m.prev
                continue
            v = m.read(ctx, idx)
            break
        for c, val in reversed(pend):
            v = ctx.ite(c, val, v)
        return v


class MCopy(Mem):
    """prev with [doff, doff+n) replaced by src[soff...]"""

    def __init__(self, prev, doff, n, src, soff):
        self.prev, self.doff, self.n, self.src, self.soff = prev, doff, n, src, soff

    def read(self, ctx, idx):
        rel = sub(idx, self.doff)
        # doff <= idx < doff+n, all non-negative and small: one unsigned comparison
        c = ult(rel, self.n)
        if not (is_true(c) or is_false(c)):
            c = simp(c)
        if is_true(c):
            return self.src.read(ctx, add(self.soff, rel))
        if is_false(c):
            return self.prev.read(ctx, idx)
        return ctx.ite(c, self.src.read(ctx, add(self.soff, rel)), self.prev.read(ctx, idx))


class MIte(Mem):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def read(self, ctx, idx):
        return ctx.ite(self.c, self.a.read(ctx, idx), self.b.read(ctx, idx))


class MapMem:
    """map contents: has(ctx,k) -> Bool, get(ctx,k) -> value; const: dict of constant keys if known"""
    const = None


class MapBase(MapMem):
    def __init__(self, kt, vt, name):
        self.kt, self.vt, self.name = kt, vt, name
        self.h = z3.Array(name + '.has', BV64, z3.BoolSort())
        self.mem = MBase(vt, name + '.val')
        self.ln = z3.BitVec(name + '.len', 64)

    def has(self, ctx, k):
        return z3.Select(self.h, k)

    def get(self, ctx, k):
        return self.mem.read(ctx, k)


class MapConst(MapMem):
    """fixed map: list of (key term (constant), value)"""

    def __init__(self, items, vt):
        self.items, self.vt = items, vt
        self.const = items
        self.memo = {}

    def eqs(self, k):
        """(k, conditions k == key, has)"""
        r = self.memo.get(k.get_id())
        if r is None:
            cs = [eq(k, kk) for kk, _ in self.items]
            r = self.memo[k.get_id()] = [k, cs, Or(*cs) if cs else FALSE, None]
        return r

    def has(self, ctx, k):
        return self.eqs(k)[2]

    def get(self, ctx, k):
        r = self.eqs(k)
        if r[3] is not None:
            return r[3]
        cs = r[1]
        for c, (kk, v) in zip(cs, self.items):
            if is_true(c):
                return v
        if all(is_false(c) for c in cs):
            return ctx.zero(self.vt)
        if ctx.simple(self.vt):
            v = ctx.zero(self.vt)
            for c, (kk, vv) in reversed(list(zip(cs, self.items))):
                v = ctx.ite(c, vv, v)
            if z3.is_expr(v):
                r[3] = v
            return v
        for c, (kk, v) in zip(cs, self.items):
            if not is_false(c):
                d = ctx.decide(c)
                if d:
                    return v
        return ctx.zero(self.vt)


class MapStore(MapMem):
    def __init__(self, prev, k, v, vt):
        self.prev, self.k, self.v, self.vt = prev, k, v, vt

    def has(self, ctx, k):
        return Or(eq(k, self.k), self.prev.has(ctx, k))

    def get(self, ctx, k):
        c = eq(k, self.k)
        if is_true(c):
            return self.v
        if is_false(c):
            return self.prev.get(ctx, k)
        return ctx.ite(c, self.v, self.prev.get(ctx, k))


class MapDel(MapMem):
    def __init__(self, prev, k, vt):
        self.prev, self.k, self.vt = prev, k, vt

    def has(self, ctx, k):
        return And(Not(eq(k, self.k)), self.prev.has(ctx, k))

    def get(self, ctx, k):
        return self.prev.get(ctx, k)


# ------------------------------------------------------------------ strings

class Strings:
    def __init__(self):
        self.ids = {b'': 0}
        self.txt = [b'']
        self.slen = z3.Function('slen', BV64, BV40)
        self.sbyte = z3.Function('sbyte', BV64, BV64, BV8)
        self.info = {}   # ast id -> (term, kind, ...)
        self.cat = z3.Function('scat', BV64, BV64, BV64)
        self.diff = z3.Function('sdiff', BV64, BV64, BV64)
        self.nparts = z3.Function('snparts', BV64, BV64, BV40)
        self.part = z3.Function('spart', BV64, BV64, BV64, BV64)

    def const(self, b):
        if isinstance(b, str):
            b = b.encode()
        i = self.ids.get(b)
        if i is None:
            i = self.ids[b] = len(self.txt)
            self.txt.append(b)
        return bv(i)

    def text(self, e):
        """python bytes if e is a constant string"""
        if isval(e):
            i = cval(e)
            if i < len(self.txt):
                return self.txt[i]
        return None

    def note(self, e, *info):
        self.info[e.get_id()] = (e,) + info

    def length(self, e):
        t = self.text(e)
        if t is not None:
            return bv(len(t))
        i = self.info.get(e.get_id())
        if i:
            if i[1] == 'bytes':
                return i[4]
            if i[1] == 'cat':
                return add(self.length(i[2]), self.length(i[3]))
            if i[1] == 'sub':
                return i[4]
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            return Ite(e.arg(0), self.length(e.arg(1)), self.length(e.arg(2)))
        return zext(self.slen(e))

    def byte(self, ctx, e, idx):
        t = self.text(e)
        if t is not None:
            if isval(idx):
                i = cval(idx)
                return bv(t[i] if i < len(t) else 0, 8)
            r = bv(0, 8)
            for i in range(len(t) - 1, -1, -1):
                r = Ite(eq(idx, bv(i)), bv(t[i], 8), r)
            return r
        i = self.info.get(e.get_id())
        if i:
            if i[1] == 'bytes':
                return i[2].read(ctx, add(i[3], idx))
            if i[1] == 'cat':
                la = self.length(i[2])
                c = simp(ult(idx, la))
                if is_true(c):
                    return self.byte(ctx, i[2], idx)
                if is_false(c):
                    return self.byte(ctx, i[3], sub(idx, la))
                return Ite(c, self.byte(ctx, i[2], idx), self.byte(ctx, i[3], sub(idx, la)))
            if i[1] == 'sub':
                return self.byte(ctx, i[2], add(i[3], idx))
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            return Ite(e.arg(0), self.byte(ctx, e.arg(1), idx), self.byte(ctx, e.arg(2), idx))
        return self.sbyte(e, idx)

    def structured(self, e):
        return e.get_id() in self.info or z3.is_app_of(e, z3.Z3_OP_ITE)

    def choice(self, e):
        """is e one of a few constants?"""
        if not z3.is_app_of(e, z3.Z3_OP_ITE):
            return False
        n, todo = 0, [e]
        while todo:
            x = todo.pop()
            n += 1
            if n > 40:
                return False
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                todo += [x.arg(1), x.arg(2)]
            elif self.text(x) is None:
                return False
        return True

    def concat(self, a, b):
        ta, tb = self.text(a), self.text(b)
        if ta == b'':
            return b
        if tb == b'':
            return a
        if ta is not None and tb is not None:
            return self.const(ta + tb)
        if self.choice(a) and tb is not None:
            return Ite(a.arg(0), self.concat(a.arg(1), b), self.concat(a.arg(2), b))
        if self.choice(b) and ta is not None:
            return Ite(b.arg(0), self.concat(a, b.arg(1)), self.concat(a, b.arg(2)))
        r = self.cat(a, b)
        self.note(r, 'cat', a, b)
        return r
