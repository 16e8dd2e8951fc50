"""Discharging obligations: quantifier proxies, folds, instantiation, z3 (and cvc5) back ends."""
import re
import os
import subprocess
import tempfile
import time
import z3
from vals import *


SLOW = float(os.environ.get('SLOW', '0'))


def numeric(ok, c, val):
    if ok is None:
        return None
    return z3.BoolVal(ok) if val is None else (z3.BitVecVal(val(c), 64) if ok else None)


def isint(c):
    if re.fullmatch(rb'[+-]?[0-9]{1,18}', c):
        return True
    return None if re.fullmatch(rb'[+-]?[0-9]+', c) else False


# the values of number parsers on constants
NUMERIC = {'atoiok': lambda c: numeric(isint(c), c, None), 'atoi': lambda c: numeric(isint(c), c, int),
           'parseuint10ok': lambda c: numeric(bool(re.fullmatch(rb'[0-9]{1,18}', c)) if len(c) < 19 else None, c, None),
           'parseuint10': lambda c: numeric(bool(re.fullmatch(rb'[0-9]{1,18}', c)), c, int)}


class Proxy:
    """q <=> forall t in [lo,hi): body(t)   (lo None: unbounded, e.g. over all strings)"""

    def __init__(self, q, lo, hi, body, sk, kind):
        self.q, self.lo, self.hi, self.body, self.sk, self.kind = q, lo, hi, body, sk, kind
        self.memo = {}
        self.pats = None
        self.eqs = []

    def at(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is None:
            b = self.body(t)
            if self.lo is not None:
                b = Implies(And(sle(self.lo, t), slt(t, self.hi)), b)
            r = self.memo[k] = (t, b)
        return r[1]

    def skolem_ax(self):
        return Or(self.q, Not(self.at(self.sk)))


class Fold:
    """F(n) = n<=0 ? init : step(F(n-1), n-1)"""

    def __init__(self, f, init, step):
        self.f, self.init, self.step = f, init, step
        self.memo = {}

    def unfold(self, app):
        k = app.get_id()
        r = self.memo.get(k)
        if r is None:
            n = app.arg(0)
            m = sub(n, bv(1))
            v, facts = self.step(self.f(m), m)
            r = (app, And(app == Ite(sle(n, bv(0)), self.init, v), Implies(slt(bv(0), n), And(*facts))))
            self.memo[k] = r
        return r[1]


class Terms:
    """interesting subterms of a formula, memoised"""

    def __init__(self, prover):
        self.p = prover
        self.memo = {}
        self.keep = []

    def of(self, e):
        k = e.get_id()
        r = self.memo.get(k)
        if r is not None:
            return r
        # iterative post-order
        stack = [e]
        while stack:
            x = stack[-1]
            xk = x.get_id()
            if xk in self.memo:
                stack.pop()
                continue
            ch = x.children()
            todo = [c for c in ch if c.get_id() not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            own = None
            if z3.is_app(x):
                d = x.decl()
                kd = d.kind()
                if kd == z3.Z3_OP_UNINTERPRETED:
                    if x.num_args() == 0:
                        if z3.is_bool(x) and d.name() in self.p.proxies:
                            own = ('q', x)
                        elif d.name() in self.p.linked:
                            own = ('l', x)
                    else:
                        n = d.name()
                        if n in self.p.folds:
                            own = ('f', x)
                        else:
                            own = ('u', x)
                elif kd == z3.Z3_OP_SELECT:
                    own = ('s', x)
            sets = [self.memo[c.get_id()] for c in ch]
            sets = [s for s in sets if s]
            if own is None and len(sets) == 0:
                res = EMPTY
            elif own is None and len(sets) == 1:
                res = sets[0]
            else:
                d = {}
                for s in sets:
                    d.update(s)
                if own is not None:
                    d[xk] = own
                res = d
            self.memo[xk] = res
            self.keep.append(x)
        return self.memo[k]


EMPTY = {}


class Prover:
    def __init__(self, timeout=4000, long_timeout=60000, seed=1):
        self.proxies = {}
        self.folds = {}
        self.shared = {}     # statement -> its proxy
        self.depth = 0
        self.linked = {}     # const name -> axiom formulas to add when the constant occurs
        self.terms = Terms(self)
        self.solver = z3.Solver()
        self.stack = []
        self.timeout, self.long_timeout = timeout, long_timeout
        self.seed = seed
        self.stats = {'queries': 0, 'z3_s': 0.0, 'feas': 0, 'fallback': 0, 'cvc5': 0, 'unknown': 0, 'backends': {}}
        self.n = 0
        self.maxinst = 1500
        self.feas_cache = {}
        self.linked_strings = {}
        self.S = None
        self.streqs = {}
        self.lastinst = ()
        self.keep = []

    def fresh_name(self, base):
        self.n += 1
        return '%s!%d' % (base, self.n)

    def forall(self, lo, hi, body, kind='int', name='q', st=None):
        a, b = (rng(lo), rng(hi)) if lo is not None and z3.is_expr(lo) else (None, None)
        w = (40 if b[1] <= 1 << 40 else 42) if kind == 'int' and a and b and a[0] >= 0 and b[1] <= 1 << 42 else 64
        key = None
        if st is not None:
            # the same statement said twice, the second time where all that was known the first time still holds, is one statement
            self.depth += 1
            try:
                c = z3.BitVec('bound!%d!%d' % (self.depth, w), w)
                f = body(zext(c) if w < 64 else c)
                key = (kind, w, lo if lo is None else lo.get_id(), hi if hi is None else hi.get_id(), f.get_id(),
                       tuple(x.get_id() for x in st.scope))
            except Exception:
                key = None
            finally:
                self.depth -= 1
            if key is not None:
                if is_true(f):
                    return TRUE
                for old in self.shared.get(key, ()):
                    if len(old[1]) <= len(st.pc) and all(x is y for x, y in zip(old[1], st.pc)):
                        self.stats['shared'] = self.stats.get('shared', 0) + 1
                        return old[0]
        q = z3.Bool(self.fresh_name(name))
        sk = zext(z3.BitVec(self.fresh_name('sk_' + name), w)) if w < 64 else z3.BitVec(self.fresh_name('sk_' + name), 64)
        self.proxies[q.decl().name()] = Proxy(q, lo, hi, body, sk, kind)
        if key is not None:
            self.shared.setdefault(key, []).append((q, tuple(st.pc), lo, hi, f, tuple(st.scope)))
        return q

    # -- feasibility (path pruning only; over-approximate)
    def sync(self, pc):
        i = 0
        st = self.stack
        n = min(len(st), len(pc))
        while i < n and st[i] is pc[i]:
            i += 1
        while len(st) > i:
            self.solver.pop()
            st.pop()
        for c in pc[i:]:
            self.solver.push()
            self.solver.add(c)
            st.append(c)

    def feasible(self, pc, c, tmo=1000):
        self.stats['feas'] += 1
        t = time.time()
        self.sync(pc)
        self.solver.set('timeout', tmo)
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        self.stats['z3_s'] += time.time() - t
        return r != z3.unsat

    # -- proofs
    def polarity(self, f, pol, need, seen):
        """in which polarities the quantifier proxies of the asserted formula f occur"""
        stack = [(f, pol)]
        while stack:
            x, p = stack.pop()
            k = (x.get_id(), p)
            if k in seen:
                continue
            seen.add(k)
            self.keep.append(x)
            t = self.terms.of(x)
            if not any(kd == 'q' for kd, _ in t.values()):
                continue
            kd = x.decl().kind()
            if kd == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0:
                need.setdefault(x.decl().name(), set()).add(p)
            elif kd in (z3.Z3_OP_AND, z3.Z3_OP_OR):
                stack.extend((c, p) for c in x.children())
            elif kd == z3.Z3_OP_NOT:
                stack.append((x.arg(0), -p))
            elif kd == z3.Z3_OP_IMPLIES:
                stack.append((x.arg(0), -p))
                stack.append((x.arg(1), p))
            elif kd == z3.Z3_OP_ITE and z3.is_bool(x):
                stack.extend([(x.arg(0), 1), (x.arg(0), -1), (x.arg(1), p), (x.arg(2), p)])
            else:
                for c in x.children():
                    stack.append((c, 1))
                    stack.append((c, -1))

    def saturate(self, fs, seeds, strseeds, level=0, rounds=4):
        """instances of quantifier proxies / folds relevant for the formulas fs"""
        out = []
        need, seen = {}, set()
        folds_done, inst, links = {}, set(), set()
        sel = {}          # (fn key) -> {idx id: idx}
        ints = {t.get_id(): t for t in seeds}
        strs = {t.get_id(): t for t in strseeds}
        sks, strsks = {}, {}
        new = [(f, f) for f in fs]
        depth = {}
        strs_seen, reps = {}, {}
        self.keep = []
        for rnd in range(rounds):
            for f, walk in new:
                self.polarity(walk, 1, need, seen)
                for kind, x in self.terms.of(f).values():
                    if kind == 'f':
                        if x.get_id() not in folds_done and rnd < 3:
                            folds_done[x.get_id()] = x
                    elif kind == 's':
                        sel.setdefault(('s', x.arg(0).get_id()), {})[x.arg(1).get_id()] = x.arg(1)
                    elif kind == 'l':
                        links.add(x.decl().name())
                    elif kind == 'u':
                        n = x.num_args()
                        if x.decl().name() in ('slen', 'sbyte'):
                            strs_seen[x.arg(0).get_id()] = x.arg(0)
                        elif x.decl().name() == 'sreplace' or x.decl().name() in NUMERIC:
                            reps[x.get_id()] = x
                        la = x.arg(n - 1)
                        if z3.is_bv(la) and la.size() == 64:
                            key = ('u', x.decl().name()) + tuple(x.arg(i).get_id() for i in range(n - 1))
                            sel.setdefault(key, {})[la.get_id()] = la
            fresh = []
            for x in strs_seen.values():
                if ('str', x.get_id()) in inst:
                    continue
                inst.add(('str', x.get_id()))
                fresh.extend((y, y) for y in self.string_axioms(x))
            for x in list(reps.values()):
                if ('rep', x.get_id()) in inst:
                    continue
                inst.add(('rep', x.get_id()))
                # on the constants the argument is compared with
                e = self.streqs.get(x.arg(0).get_id())
                if x.decl().name() in NUMERIC:
                    for c in sorted(e[1]) if e else ():
                        y = NUMERIC[x.decl().name()](c)
                        if y is not None:
                            y = Implies(x.arg(0) == self.S.const(c), x == y)
                            fresh.append((y, y))
                    continue
                o, w = self.S.text(x.arg(1)), self.S.text(x.arg(2))
                for c in sorted(e[1]) if e and o and w is not None else ():
                    y = Implies(x.arg(0) == self.S.const(c), x == self.S.const(c.replace(o, w)))
                    fresh.append((y, y))
            for name in list(links):
                if name not in depth:
                    depth[name] = 1
                    fresh.extend((y, y) for y in self.linked[name])
            for k, x in list(folds_done.items()):
                if ('f', k) in inst:
                    continue
                inst.add(('f', k))
                y = self.folds[x.decl().name()].unfold(x)
                fresh.append((y, y))
            for name, pols in list(need.items()):
                if -1 in pols and ('sk', name) not in inst:
                    inst.add(('sk', name))
                    p = self.proxies[name]
                    b = p.at(p.sk)
                    fresh.append((Or(p.q, Not(b)), Not(b)))
                    (sks if p.kind == 'int' else strsks)[p.sk.get_id()] = p.sk
            for name, pols in list(need.items()):
                if 1 not in pols:
                    continue
                p = self.proxies[name]
                if p.pats is None:
                    p.pats = self.patterns(p)
                if p.kind == 'int':
                    cands = {}
                    if level > 0 or not p.pats:
                        cands.update(ints)
                    if level > 0:
                        cands.update(sks)
                else:
                    cands = dict(strs)
                    cands.update(strsks)
                if not p.pats:
                    cands.update(sks if p.kind == 'int' else strsks)
                for t in p.eqs:
                    cands[t.get_id()] = t
                for key, co, off in p.pats:
                    for s in sel.get(key, {}).values():
                        t = self.solve(s, co, off)
                        if t is not None:
                            cands[t.get_id()] = t
                for k, t in cands.items():
                    if (name, k) in inst or len(inst) > self.maxinst:
                        continue
                    inst.add((name, k))
                    b = p.at(t)
                    if is_true(b):
                        continue
                    fresh.append((Implies(p.q, b), b))
            if not fresh:
                break
            out.extend(f for f, _ in fresh)
            new = fresh
        return out

    def string_axioms(self, x):
        """length and bytes of an unstructured string that is compared with constants"""
        S = self.S
        out = [(S.slen(x) == 0) == (x == bv(0))]
        e = self.streqs.get(x.get_id())
        for c in sorted(e[1]) if e else ():
            k = S.const(c)
            out.append(Implies(x == k, And(S.slen(x) == len(c), *[S.sbyte(x, bv(j)) == ch for j, ch in enumerate(c)])))
            out.append(Implies(And(S.slen(x) == len(c), *[S.sbyte(x, bv(j)) == ch for j, ch in enumerate(c)]), x == k))
        return out

    def patterns(self, p):
        pats = []
        seen = set()
        skid = p.sk.get_id()
        for kind, x in self.terms.of(p.at(p.sk)).values():
            if kind == 's':
                key, idx = ('s', x.arg(0).get_id()), x.arg(1)
            elif kind == 'u':
                n = x.num_args()
                idx = x.arg(n - 1)
                if not (z3.is_bv(idx) and idx.size() == 64):
                    continue
                key = ('u', x.decl().name()) + tuple(x.arg(i).get_id() for i in range(n - 1))
            else:
                continue
            d, c = affine(idx)
            if skid not in d:
                continue
            co = d[skid][1]
            if co == 0 or 1 << 20 < co < (1 << 64) - 1:
                continue
            rest = mkaffine({k: v for k, v in d.items() if k != skid}, c, 64)
            kk = (key, co, rest.get_id())
            if kk not in seen:
                seen.add(kk)
                pats.append((key, co, rest))
        if p.kind == 'int':
            p.eqs = self.storepoints(p)
        return pats

    @staticmethod
    def storepoints(p):
        """indices at which the body changes its form: those of stores (conditions t == e)"""
        out, seen, st = {}, set(), [(p.at(p.sk), False)]
        skid = p.sk.get_id()
        while st:
            x, cond = st.pop()
            if (x.get_id(), cond) in seen:
                continue
            seen.add((x.get_id(), cond))
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                st.append((x.arg(0), True))
                st.extend((c, cond) for c in x.children()[1:])
                continue
            if cond and z3.is_eq(x) and z3.is_bv(x.arg(0)) and x.arg(0).size() == 64:
                d, c = affine(x.arg(0) - x.arg(1))
                if skid in d and d[skid][1] in (1, (1 << 64) - 1):
                    co = d[skid][1]
                    rest = {k: v for k, v in d.items() if k != skid}
                    if co == 1:
                        rest = {k: (a, (-v) & ((1 << 64) - 1)) for k, (a, v) in rest.items()}
                        c = (-c) & ((1 << 64) - 1)
                    t = mkaffine(rest, c, 64)
                    out[t.get_id()] = t
            st.extend((c, cond) for c in x.children())
        return list(out.values())

    @staticmethod
    def solve(s, co, off):
        if co == (1 << 64) - 1:
            s, off, co = off, s, 1
        d, c = affine(s - off)
        if co == 1:
            return mkaffine(d, c, 64)
        m = {}
        cc = c - (1 << 64) if c >> 63 else c
        if cc % co:
            return None
        for k, (at, x) in d.items():
            xx = x - (1 << 64) if x >> 63 else x
            if xx % co:
                return None
            m[k] = (at, (xx // co) & ((1 << 64) - 1))
        return mkaffine(m, (cc // co) & ((1 << 64) - 1), 64)

    @staticmethod
    def pieces(goal, limit=150):
        """goals whose conjunction is the goal"""
        out, todo = [], [(goal, ())]
        while todo:
            g, alt = todo.pop(0)
            if is_true(g):
                continue
            if len(out) + len(todo) >= limit:
                out.append(Or(*alt, g))
            elif z3.is_and(g):
                todo = [(c, alt) for c in g.children()] + todo
            elif z3.is_or(g):
                cs = g.children()
                ands = [c for c in cs if z3.is_and(c) or z3.is_app_of(c, z3.Z3_OP_ITE)]
                if len(ands) == 1:
                    todo.insert(0, (ands[0], alt + tuple(c for c in cs if not c.eq(ands[0]))))
                else:
                    out.append(Or(*alt, g))
            elif z3.is_app_of(g, z3.Z3_OP_ITE):
                todo = [(g.arg(1), alt + (Not(g.arg(0)),)), (g.arg(2), alt + (g.arg(0),))] + todo
            elif z3.is_eq(g) and z3.is_bool(g.arg(0)):
                a, b = g.children()
                todo = [(b, alt + (Not(a),)), (a, alt + (Not(b),))] + todo
            elif z3.is_not(g) and z3.is_eq(g.arg(0)) and z3.is_bool(g.arg(0).arg(0)):
                a, b = g.arg(0).children()
                todo = [(Not(b), alt + (Not(a),)), (b, alt + (a,))] + todo
            elif z3.is_not(g) and z3.is_or(g.arg(0)):
                todo = [(Not(c), alt) for c in g.arg(0).children()] + todo
            else:
                out.append(Or(*alt, g))
        return out

    def prove(self, pc, goal, seeds=(), strseeds=(), want_model=True, quickonly=False):
        """returns ('proved'|'failed'|'unknown', model, backend)"""
        self.stats['queries'] += 1
        if is_true(goal):
            return 'proved', None, 'simplifier'
        gs = self.pieces(goal)
        if not gs:
            return 'proved', None, 'simplifier'
        unk = None
        r = None
        done = set()
        for g in gs:
            if g.get_id() in done:
                continue
            done.add(g.get_id())
            if len(gs) > 1 and not self.feasible(pc, Not(g), 300):
                r = self._ret('proved', None, 'z3')
                continue
            t0 = time.time()
            r = self.prove1(pc, g, seeds, strseeds, want_model, quickonly)
            if SLOW and time.time() - t0 > SLOW:
                print('SLOW %.1f %s %s insts %d %s' % (time.time() - t0, r[0], r[2], len(self.lastinst), str(z3.simplify(g))[:600].replace('\n', ' ')), flush=True)
            if r[0] == 'failed':
                return r
            if r[0] == 'unknown':
                unk = r
                if quickonly:
                    break
        return unk or r

    @staticmethod
    def bydefinition(pc, goal):
        """the goal is trivial once variables are replaced by what they are equal to"""
        false = {c.arg(0).get_id() for c in pc if z3.is_not(c)}
        defs = {}
        for c in pc:
            if z3.is_or(c):
                cs = [x for x in c.children() if x.get_id() not in false]
                if len(cs) != 1:
                    continue
                c = cs[0]
            if z3.is_eq(c) and not z3.is_bool(c.arg(0)):
                for x, t in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not z3.is_const(t):
                        defs[x.get_id()] = (x, t)
                        break
        for _ in range(40):
            seen, todo, use = set(), [goal], []
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                d = defs.pop(x.get_id(), None) if z3.is_const(x) else None
                if d:
                    use.append(d)
                todo += x.children()
            if not use:
                return False
            goal = z3.simplify(z3.substitute(goal, *use))
            if is_true(goal):
                return True
        return False

    def prove1(self, pc, goal, seeds=(), strseeds=(), want_model=True, quickonly=False):
        neg = Not(goal)
        t0 = time.time()
        try:
            if not quickonly and self.bydefinition(pc, goal):
                return self._ret('proved', None, 'simplifier')
            for level in (0, 1):
                insts = self.saturate(list(pc) + [neg], seeds, strseeds, level)
                if level and len(insts) == len(self.lastinst):
                    break
                self.lastinst = insts
                tmo = self.timeout if not quickonly else self.quick
                r, m = self.ask(list(pc) + [neg] + insts, min(tmo, 1500), want_model)
                if r == z3.unknown and tmo > 1500:
                    fs = self.decided(list(pc) + [neg] + insts, 3)
                    if fs is not None and self.ask(fs, 1500, False)[0] == z3.unsat:
                        r = z3.unsat
                    else:
                        r, m = self.ask(list(pc) + [neg] + insts, tmo, want_model)
                if r != z3.sat:
                    break
            if r == z3.unsat:
                return self._ret('proved', None, 'z3')
            if r == z3.sat:
                return self._ret('failed', m, 'z3')
            if quickonly:
                return self._ret('unknown', None, 'z3')
            self.stats['fallback'] += 1
            fs = self.decided(list(pc) + [neg] + insts)
            if fs is not None:
                t1 = time.time()
                r, m = self.ask(fs, 15000, False)
                if SLOW:
                    print('   decided', r, '%.1f' % (time.time() - t1), flush=True)
                if r == z3.unsat:
                    return self._ret('proved', None, 'z3')
            if len(insts) > 150:
                # fewer instances often suffice and are easier
                for rounds in (1, 2, 3):
                    few = self.saturate(list(pc) + [neg], seeds, strseeds, 0, rounds)
                    t1 = time.time()
                    r, m = self.ask(list(pc) + [neg] + few, 10000, False)
                    if SLOW:
                        print('   rounds', rounds, len(few), r, '%.1f' % (time.time() - t1))
                    if r == z3.unsat:
                        return self._ret('proved', None, 'z3')
            s2 = z3.SolverFor('QF_AUFBV')
            s2.set('timeout', self.long_timeout)
            s2.add(*pc)
            s2.add(neg)
            s2.add(*insts)
            if os.environ.get('DUMPQ'):
                open('%s/q%d.smt2' % (os.environ['DUMPQ'], self.stats['fallback']), 'w').write(s2.to_smt2())
            r = s2.check()
            if r == z3.unsat:
                return self._ret('proved', None, 'z3-qfaufbv')
            if r == z3.sat:
                return self._ret('failed', s2.model(), 'z3-qfaufbv')
            r = self.cvc5(s2)
            if r == 'unsat':
                return self._ret('proved', None, 'cvc5')
            self.stats['unknown'] += 1
            return self._ret('unknown', None, 'cvc5')
        finally:
            self.stats['z3_s'] += time.time() - t0

    def decided(self, fs, limit=10):
        """the formulas with the conditions that the facts decide replaced by their values, None if there are none"""
        cnt, seen, todo = {}, set(), list(fs)
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                c = x.arg(0)
                while z3.is_not(c):
                    c = c.arg(0)
                if not isval(c):
                    cnt.setdefault(c.get_id(), [0, c])[0] += 1
            todo.extend(x.children())
        s = z3.Solver()
        s.set('timeout', 300)
        # the facts without branches are cheap and decide most of what is decided
        s.add(*[f for f in fs if not self.branches(f)])
        sub, end = [], time.time() + limit
        for n, c in sorted(cnt.values(), key=lambda e: -e[0])[:60]:
            if time.time() > end:
                break
            for v in (True, False):
                s.push()
                s.add(Not(c) if v else c)
                r = s.check()
                s.pop()
                if r == z3.unsat:
                    sub.append((c, z3.BoolVal(v)))
                    break
        if not sub:
            return None
        return [z3.substitute(f, *sub) for f in fs] + [c if is_true(v) else Not(c) for c, v in sub]

    @staticmethod
    def branches(f, limit=400):
        seen, todo = set(), [f]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if len(seen) > limit or z3.is_app_of(x, z3.Z3_OP_ITE):
                return True
            todo.extend(x.children())
        return False

    quick = 3000

    def ask(self, fs, tmo, want_model):
        """a solver of its own for each obligation: faster than the incremental one"""
        s = z3.Solver()
        s.set('timeout', tmo)
        s.add(*fs)
        r = s.check()
        return r, (s.model() if r == z3.sat and want_model else None)

    def _ret(self, r, m, be):
        if r == 'proved':
            self.stats['backends'][be] = self.stats['backends'].get(be, 0) + 1
        return r, m, be

    def cvc5(self, s2, tmo=60):
        self.stats['cvc5'] += 1
        fd, fn = tempfile.mkstemp(suffix='.smt2')
        try:
            with os.fdopen(fd, 'w') as f:
                f.write('(set-logic QF_AUFBV)\n')
                f.write(s2.to_smt2())
            o = subprocess.run(['cvc5', '--tlimit=%d' % (tmo * 1000), fn], capture_output=True, text=True)
            return o.stdout.strip().split('\n')[0] if o.stdout else 'unknown'
        except Exception:
            return 'unknown'
        finally:
            os.unlink(fn)
