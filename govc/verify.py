"""Verify roots: the library half of the checks.  verify.py ROOT... runs single roots."""
import json
import os
import re
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

DIRECTIVE = re.compile(r'^//zz:contract\s+(\S+)((?:\s+\w+)*)\s*\n(?:\s*//[^\n]*\n)*func (ZC_\w+)\(', re.M)
ROOTS = re.compile(r'^func ((?:ZC|ZL)_\w+)\(', re.M)
HINTS = re.compile(r'^//zz:invariant\s+(\S+)\s*\n(?:\s*//[^\n]*\n)*func (ZI_\w+)\(', re.M)
TAG = re.compile(r'zz\.(?:Ensures|Assert|PerDatagram|PerSend)\("([^"]*)"')
OPTS = re.compile(r'^//zz:opt\s+(\S+)\s*$', re.M)


def qualify(pkg, n):
    """(*data.Data).Encode or Set -> full ssa name"""
    m = re.match(r'^\((\*?)(\w+)\.(\w+)\)\.(\w+)$', n)
    if m:
        return '(%s%s/%s.%s).%s' % (m.group(1), B.MOD, m.group(2), m.group(3), m.group(4))
    if '.' in n:
        return '%s/%s' % (B.MOD, n)
    return '%s/%s.%s' % (B.MOD, pkg, n)


class Spec:
    """what the contract files declare"""

    def __init__(self):
        self.subject = {}     # ssa name of ZC function -> ssa name of subject
        self.modular = {}     # subject -> ZC ssa name, used at call sites
        self.invariants = {}  # subject -> [ZI ssa name]
        self.tags = {}        # root -> [tags]
        self.roots = {}       # root id pkg.ZC_x -> ssa name
        self.files = {}
        for pkg, files in B.contract_files().items():
            for f in files:
                txt = open(f).read()
                for m in DIRECTIVE.finditer(txt):
                    zc = '%s/%s.%s' % (B.MOD, pkg, m.group(3))
                    self.subject[zc] = qualify(pkg, m.group(1))
                    if 'modular' in m.group(2).split():
                        self.modular[qualify(pkg, m.group(1))] = zc
                for m in HINTS.finditer(txt):
                    self.invariants.setdefault(qualify(pkg, m.group(1)), []).append('%s/%s.%s' % (B.MOD, pkg, m.group(2)))
                pos = [(m.start(), m.group(1)) for m in ROOTS.finditer(txt)]
                ends = [m.start() for m in re.finditer(r'^}', txt, re.M)]
                for a, n in pos:
                    e = min([x for x in ends if x > a])
                    rid = pkg + '.' + n
                    self.roots[rid] = '%s/%s.%s' % (B.MOD, pkg, n)
                    self.files[rid] = f
                    self.tags[rid] = TAG.findall(txt[a:e])

    def props(self, tag):
        return set(re.findall(r'C\d\d', tag))

    def of(self, prop):
        return [r for r in sorted(self.roots) if any(prop in self.props(t) for t in self.tags[r])]


def engine(work, spec, seed=1, timeout=4000, long_timeout=60000, demoted=()):
    import engine as G
    ssa = json.load(open(work + '/ssa.json'))
    consts = json.load(open(work + '/consts.json'))
    E = G.Engine(ssa, consts, B.MOD, seed, timeout, long_timeout)
    E.subjects = dict(spec.subject)
    E.contracts = dict(spec.modular)
    E.invariants = dict(spec.invariants)
    E.demoted = set(demoted)
    return E


def verify(work, spec, root, wanted=None, budget=600, **kw):
    """dict with the outcome of one root"""
    import engine as G
    from vals import Unsupported
    t0 = time.time()
    E = engine(work, spec, **kw)
    res = {'root': root, 'unsupported': None, 'ends': 0}
    try:
        res['ends'] = E.verify(spec.roots[root], wanted, budget)
    except Unsupported as u:
        res['unsupported'] = '%s at %s' % (u, getattr(u, 'where', ''))
    except G.Budget as u:
        res['unsupported'] = 'budget: %s' % u
    except G.NeedFork as u:
        res['unsupported'] = 'fork outside a step'
    except RecursionError:
        res['unsupported'] = 'recursion'
    res['E'] = E
    res['secs'] = time.time() - t0
    return res


if __name__ == '__main__':
    drops = {}
    work = B.build(drops)
    if drops:
        print("DROPPED", drops)
    spec = Spec()
    for r in sys.argv[1:]:
        for root in [x for x in spec.roots if re.search(r, x)]:
            t = verify(work, spec, root)
            E = t['E']
            n = len(E.obs)
            bad = [o for o in E.obs if o.status != 'proved']
            print('%s: %d obligations, %d open, ends=%d, %.1fs, unsupported=%s' % (root, n, len(bad), t['ends'], t['secs'], t['unsupported']))
            print('   ', E.P.stats)
            print('   clauses', E.clauses, 'missing', [x for x in spec.tags[root] if x not in E.clauses])
            for o in bad[:int(os.environ.get('N', '8'))]:
                print('   OPEN', o.status, o.kind, o.tag, o.pos, o.backend, '%.1f' % o.secs, o.taint)
                if o.model is not None and os.environ.get('M'):
                    print(str(o.model)[:3000])
            if os.environ.get('V'):
                print('   inlined', sorted(E.inlined), 'used', sorted(E.used), '\n   assumptions', sorted(E.assumptions))
                for l in E.loopinfo:
                    print('   loop', l)
