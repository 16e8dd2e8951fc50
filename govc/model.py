"""Arguments of the root function from a z3 model, in the JSON form of the native runner."""
import z3
from vals import *


def iv(m, e):
    v = m.eval(e, model_completion=True)
    if z3.is_bool(v):
        return z3.is_true(v)
    return v.as_long()


def string(E, m, e):
    i = iv(m, e)
    S = E.S
    if i < len(S.txt):
        b = S.txt[i]
    else:
        n = min(iv(m, S.slen(bv(i))), 300)
        b = bytes(iv(m, S.sbyte(bv(i), bv(j))) for j in range(n))
        # distinct strings have distinct text
        if b in S.ids and b != b'':
            b = b + b'~'
        if n == 0:
            b = b'zz%d' % (i % 1000)
    return 'hex:' + b.hex()


class Ctx:
    def __init__(self, E, st):
        self.E, self.st = E, st


def value(E, st, m, t, v, depth=0):
    T = E.T
    k = T.kind(t)
    if depth > 9:
        return None
    if k == 'int':
        w, sg = T.intinfo(t)
        x = iv(m, v)
        if sg and x >> (w - 1):
            x -= 1 << w
        return str(x)
    if k == 'bool':
        return iv(m, v)
    if k == 'string':
        return string(E, m, v)
    if k == 'ip':
        return None
    if k == 'struct':
        if T.under(t)['s'] == '$time':
            x = iv(m, v.f[0])
            if x >> 63:
                x -= 1 << 64
            return {'sec': str(x), 'nsec': str(iv(m, v.f[1]))}
        if T.under(t)['s'] == '$mutex':
            return None
        return {f['n']: value(E, st, m, f['t'], x, depth + 1) for f, x in zip(T.fields(t), v.f)}
    if k == 'array':
        return [value(E, st, m, T.elem(t), v.mem.read(st, bv(j)), depth + 1) for j in range(min(v.n, 64))]
    if k == 'slice':
        if v.obj is None or iv(m, v.nil):
            return None
        n = iv(m, v.len)
        if n > 4096:
            raise ValueError('slice of %d elements' % n)
        off = iv(m, v.off)
        mem = st.heap[v.obj]
        et = T.elem(t)
        xs = [value(E, st, m, et, mem.read(st, bv(off + j)), depth + 1) for j in range(n)]
        if T.kind(et) == 'int' and T.intinfo(et)[0] == 8:
            return 'hex:' + bytes(int(x) & 255 for x in xs).hex()
        return xs
    if k == 'ptr':
        if isinstance(v, OPtr):
            if T.s(t) == '*net.UDPConn' and iv(m, v.id):
                return '127.0.0.1:%d' % (1024 + iv(m, v.id) % 60000)
            return None
        if v.obj is None or iv(m, v.nil):
            return None
        return value(E, st, m, T.elem(t), st.heap[v.obj], depth + 1)
    if k == 'map':
        if v.obj is None:
            return None
        mem = st.heap[v.obj]
        out = {}
        kt = T.under(t)['key']
        if T.kind(kt) == 'string':
            for i, b in enumerate(E.S.txt):
                if iv(m, mem.has(st, bv(i))):
                    try:
                        out[b.decode()] = value(E, st, m, T.elem(t), mem.get(st, bv(i)), depth + 1)
                    except UnicodeDecodeError:
                        pass
        return out
    return None


def args(E, m):
    st = E.rootstate()
    return {n: value(E, st, m, t, v) for n, t, v in E.rootparams}
