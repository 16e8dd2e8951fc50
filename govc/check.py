"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current tree."""
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import verify as V

VERIF = B.VERIF
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


# ---------------------------------------------------------------- one root, in a process of its own
def prove_root(job):
    work, root, prop, demoted, tier, budget = job
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    try:
        import model
        spec = V.Spec()
        tags = spec.tags[root]

        def wanted(tag):
            return prop is None or prop in spec.props(tag)
        lt = 60000 if tier == 'quick' else 240000
        r = V.verify(work, spec, root, wanted, budget, demoted=demoted, seed=SEED,
                     timeout=4000 if tier == 'quick' else 15000, long_timeout=lt)
        E = r['E']
        obs = []
        for o in E.obs:
            d = {'kind': o.kind, 'tag': o.tag, 'pos': o.pos, 'status': o.status, 'backend': o.backend,
                 'secs': round(o.secs, 3), 'taint': list(o.taint), 'inexact': getattr(o, 'inexact', False)}
            if o.status != 'proved' and o.model is not None:
                try:
                    d['args'] = model.args(E, o.model)
                except Exception as e:
                    d['args_error'] = '%s: %s' % (type(e).__name__, e)
                d['model'] = str(o.model)[:4000]
            obs.append(d)
        return {'root': root, 'obs': obs, 'unsupported': r['unsupported'], 'ends': r['ends'], 'secs': r['secs'],
                'clauses': getattr(E, 'clauses', {}), 'assumptions': sorted(E.assumptions), 'inlined': sorted(E.inlined),
                'used': sorted(E.used), 'externs': sorted(E.X.used), 'stats': E.P.stats,
                'loops': [(a, b, n) for a, b, _, n in E.loopinfo],
                'subject': spec.subject.get(spec.roots[root])}
    except MemoryError:
        return {'root': root, 'obs': [], 'unsupported': 'out of memory', 'ends': 0, 'secs': 0, 'clauses': {}, 'assumptions': [],
                'inlined': [], 'used': [], 'externs': [], 'stats': {}, 'loops': [], 'subject': None}
    except Exception as e:
        return {'root': root, 'obs': [], 'unsupported': 'verifier error: ' + traceback.format_exc()[-1500:], 'ends': 0, 'secs': 0,
                'clauses': {}, 'assumptions': [], 'inlined': [], 'used': [], 'externs': [], 'stats': {}, 'loops': [], 'subject': None}


# ---------------------------------------------------------------- native evaluation of the same contract
def tagre(prop):
    return prop if prop else ''


def search(work, root, prop, ms, n=10 ** 9, seed=None):
    """evaluate the contract natively on generated inputs; returns (failure or None, info)"""
    seed = SEED if seed is None else seed
    f, info = search1(work, root, prop, ms, n, seed, 0)
    if f is None:
        return f, info
    # only what fails again counts: alone, or else with all that ran before it
    i = f['index']
    g, _ = search1(work, root, prop, 5000, 1, seed, i)
    if g is None:
        g, _ = search1(work, root, prop, 2 * ms + 30000, i + 1, seed, 0)
    if g is None:
        info['error'] = 'input %d failed once and not again: %s' % (i, str(f['fails'])[:300])
    return g, info


def search1(work, root, prop, ms, n, seed, start):
    d = tempfile.mkdtemp(prefix='zzst')
    try:
        st = d + '/state'
        job = {'Mode': 'search', 'Root': root, 'Seed': seed, 'From': start, 'N': n, 'Ms': ms, 'Tags': tagre(prop), 'State': st}
        out = B.runner(work, job, timeout=ms / 1000.0 + 40)
        rc, txt = out.rc, out.out
        info = {'ran': 0}
        done = False
        for o in out:
            if 'done' in o:
                info = {k: o[k] for k in ('ran', 'skipped', 'reached')}
                done = True
            if 'fails' in o:
                return {'args': o['args'], 'fails': o['fails'], 'index': o['index']}, info
            if 'error' in o:
                info['error'] = o['error']
        if rc != 0 and not done and 'error' not in info:
            try:
                i = int(open(st).read().split()[0])
            except Exception:
                return None, dict(info, error='runner: %s %s' % (rc, txt[-400:]))
            c = B.runner(work, {'Mode': 'dumpcase', 'Root': root, 'Seed': seed, 'From': i}, timeout=30)
            args = c[0]['args'] if c else None
            return {'args': args, 'index': i, 'fails': [{'Tag': 'exit', 'What': 'the process ended (%s) or hung in this call: %s' % (rc, txt[-800:])}]}, info
        return None, info
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(work, root, prop, args):
    f = replay1(work, root, prop, args)
    return f and replay1(work, root, prop, args)


def replay1(work, root, prop, args):
    out = B.runner(work, {'Mode': 'replay', 'Root': root, 'Args': args, 'Tags': tagre(prop)}, timeout=30)
    rc, txt = out.rc, out.out
    for o in out:
        if 'fails' in o:
            if o['fails']:
                return o['fails']
            return None
    if rc != 0 and 'error' not in (out[0] if out else {}):
        return [{'Tag': 'exit', 'What': 'the process ended (%s) or hung in this call: %s' % (rc, txt[-800:])}]
    return None


def known():
    r = []
    try:
        for l in open(VERIF + '/known-findings.txt'):
            m = re.match(r'^known: property=(\w+) root=(\S+) match="([^"]*)" (.*)$', l.strip())
            if m:
                r.append({'property': m.group(1), 'root': m.group(2), 'match': m.group(3), 'what': m.group(4)})
    except FileNotFoundError:
        pass
    return r


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    budget = 420 if tier == 'quick' else 3000
    dropped = {}
    try:
        work = B.build(dropped)
    except B.BuildError as e:
        print('the tree does not build: %s' % str(e)[-2000:])
        sys.exit(2)
    spec = V.Spec()
    roots = [r for r in spec.of(prop) if spec.files[r] not in dropped]
    gone = [r for r in spec.of(prop) if spec.files[r] in dropped]
    ms = 1500 if tier == 'quick' else 20000
    demoted = set()
    results, natives = {}, {}
    byname = {v: k for k, v in spec.roots.items()}
    ctx = mp.get_context('fork')
    stop = t0 + (600 if tier == 'quick' else 5400)      # proofs still open then are undecided
    queue, running, deps = [], [], set()

    def put(r, p, dem):
        queue.append((r, (work, r, p, dem, tier, budget)))

    def child(conn, job):
        conn.send(prove_root(job))
        conn.close()

    def empty(r, why):
        return {'root': r, 'obs': [], 'unsupported': why, 'ends': 0, 'secs': 0, 'clauses': {}, 'assumptions': [],
                'inlined': [], 'used': [], 'externs': [], 'stats': {}, 'loops': [], 'subject': spec.subject.get(spec.roots[r])}

    def finish(r, x):
        results[r] = x
        # the contracts relied on at call sites are verified in the same run
        for u in x['used']:
            d = byname.get(spec.modular.get(u))
            if d and d not in roots and d not in deps and spec.files[d] not in dropped:
                deps.add(d)
                put(d, None, ())
    for r in roots:
        put(r, prop, ())
    # the longest proofs of earlier runs are not known here: contracts with many clauses first
    queue.sort(key=lambda q: -len(spec.tags[q[0]]))
    tx = cf.ThreadPoolExecutor(max_workers=4)
    nat = {tx.submit(search, work, r, prop, ms): r for r in roots}
    hit = False
    while True:
        now = time.time()
        for f in list(nat):
            if f.done() and nat[f] not in natives:
                try:
                    natives[nat[f]] = f.result()
                except Exception as e:
                    natives[nat[f]] = (None, {'ran': 0, 'error': repr(e)})
                if natives[nat[f]][0] is not None and not hit:
                    hit = True              # a failing input is at hand: the open proofs get a little more time only
                    stop = min(stop, now + (90 if tier == 'quick' else 600))
        while queue and len(running) < 8 and now < stop:
            r, job = queue.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, job))
            p.start()
            b.close()
            running.append((p, a, r, now))
        for q, job in (queue if now >= stop else []):
            finish(q, empty(q, 'no time left'))
        if now >= stop:
            queue = []
        for t in list(running):
            p, a, r, st = t
            x = None
            if a.poll():
                try:
                    x = a.recv()
                except Exception as e:
                    x = empty(r, 'worker died: %r' % e)
            elif not p.is_alive():
                x = empty(r, 'worker died (%s)' % p.exitcode)
            elif now > stop or now > st + budget + 90:
                x = empty(r, 'out of time')
            if x is not None:
                p.kill()
                p.join()
                a.close()
                running.remove(t)
                finish(r, x)
        if not running and not queue:
            # contracts that do not hold any more are not used: their callers are redone with the body
            bad = set()
            for r, x in results.items():
                s = spec.subject.get(spec.roots[r])
                if s in spec.modular and s not in demoted and spec.modular[s] == spec.roots[r] and \
                        (x['unsupported'] or any(o['status'] != 'proved' for o in x['obs'])):
                    bad.add(s)
            demoted |= bad
            for r, x in list(results.items()):
                if set(x['used']) & bad:
                    put(r, prop if r in roots else None, tuple(sorted(demoted)))
            if not queue and len(natives) == len(roots):
                break
        time.sleep(0.02)
    tx.shutdown()
    sys.exit(report(prop, tier, work, spec, roots, gone, deps, results, natives, dropped, t0))


def report(prop, tier, work, spec, roots, gone, deps, results, natives, dropped, t0):
    rdir = VERIF + '/evidence/replay'
    os.makedirs(rdir, exist_ok=True)
    kf = [k for k in known() if k['property'] == prop]
    viol, undecided, knownhits = [], [], []
    total = disch = 0
    backends, solver = {}, 0.0
    spent = time.time() - t0
    fullbudget = 760 if tier == 'quick' else 6000
    for r in roots:
        x = results[r]
        nat, ninfo = natives[r]
        bad = [o for o in x['obs'] if o['status'] != 'proved']
        found = None
        if nat is not None:
            found = (nat['args'], nat['fails'], 'generated input %d' % nat['index'])
        if found is None:
            seen = 0
            for o in bad:
                if 'args' in o and seen < 12:
                    seen += 1
                    f = replay(work, r, prop, o['args'])
                    if f:
                        found = (o['args'], f, 'counterexample of the verifier')
                        break
        left = fullbudget - (time.time() - t0)
        if found is None and (bad or x['unsupported']) and left > 30:
            nat, ni2 = search(work, r, prop, int(min(left - 20, 25 if tier == 'quick' else 120) * 1000), seed=SEED + 1000)
            if nat is not None:
                found = (nat['args'], nat['fails'], 'generated input')
        sure = [o for o in bad if o['status'] == 'failed' and not o['taint']]
        if found is None and not sure:
            if bad or x['unsupported']:
                undecided.append({'root': r, 'reason': x['unsupported'] or '%d obligations without an answer' % len(bad),
                                  'open': ['%s: %s (%s) %s' % (o['kind'], o['tag'], o['pos'], o['status']) for o in bad[:10]]})
            continue
        names = [f['Tag'] for f in found[1]] if found else []
        desc = {'property': prop, 'root': r, 'contract_file': spec.files[r], 'function_under_contract': x['subject'],
                'failed_obligations': [{k: o[k] for k in ('kind', 'tag', 'pos', 'status', 'backend', 'taint') if k in o} for o in bad[:20]],
                'unsupported': x['unsupported']}
        if found:
            desc.update({'failing_input': found[0], 'what_fails': found[1], 'found_by': found[2],
                         'replay': 'python3-vt %s/govc/replay.py <this file>' % VERIF})
        else:
            desc['verifier_output'] = [{'obligation': o['tag'], 'model': o.get('model', ''), 'args': o.get('args')} for o in sure[:5]]
        text = json.dumps(desc, sort_keys=True)
        hit = [k for k in kf if k['root'] == r and re.search(k['match'], ' '.join(names + [o['tag'] for o in sure]))]
        if hit:
            knownhits.extend(k for k in hit if k not in knownhits)
            continue
        p = '%s/%s_%s.json' % (rdir, prop, r)
        with open(p, 'w') as fp:
            json.dump(desc, fp, indent=1, sort_keys=True)
        viol.append((r, p, bool(found), desc))
    for d in deps:
        x = results.get(d)
        if x and not x['unsupported'] and all(o['status'] == 'proved' for o in x['obs']):
            pass
    fns, inl, ext, assum, clauses = set(), set(), set(), set(), {}
    perroot = {}
    for r, x in sorted(results.items()):
        total += len(x['obs'])
        disch += sum(1 for o in x['obs'] if o['status'] == 'proved')
        for o in x['obs']:
            if o['status'] == 'proved':
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
        solver += x['stats'].get('z3_s', 0.0)
        if x['subject']:
            fns.add(x['subject'].replace(B.MOD + '/', ''))
        inl |= {f.replace(B.MOD + '/', '') for f in x['inlined']}
        ext |= set(x['externs'])
        assum |= set(x['assumptions'])
        clauses[r] = x['clauses']
        perroot[r] = {'obligations': len(x['obs']), 'discharged': sum(1 for o in x['obs'] if o['status'] == 'proved'), 'paths': x['ends'],
                      'secs': round(x['secs'], 2), 'contracts_used_at_call_sites': [u.replace(B.MOD + '/', '') for u in x['used']],
                      'loops': [[a.replace(B.MOD + '/', ''), b, n] for a, b, n in x['loops']][:20],
                      'status': 'undecided (bounded stand-in only): ' + x['unsupported'] if x['unsupported'] else
                      ('proved' if x['obs'] and all(o['status'] == 'proved' for o in x['obs']) else 'open')}
        # vacuity: every clause of the contract was reached on some feasible path
        if r in roots and not x['unsupported']:
            miss = [t for t in spec.tags[r] if prop in spec.props(t) and t not in x['clauses']]
            if miss:
                undecided.append({'root': r, 'reason': 'clauses never reached: %s' % miss, 'open': []})
    for r in gone:
        undecided.append({'root': r, 'reason': 'contract does not compile against the current tree: %s' % dropped[spec.files[r]][:300], 'open': []})
    ev = {'property': prop, 'tier': tier, 'seed': SEED, 'level': 'proof',
          'coverage': {
              'obligations': total, 'discharged': disch,
              'checker_cmd': 'python3-vt %s/govc/check.py %s %s' % (VERIF, prop, tier),
              'trusted_base': ['golang.org/x/tools/go/ssa (Go source to SSA)', 'the verification condition generator /verif/govc', 'z3 %s' % z3v(), 'cvc5 1.1.2 (fallback)',
                               'models of library functions listed under external_functions'],
              'functions_under_contract': sorted(fns), 'functions_executed_inside_contracts': sorted(inl - fns),
              'external_functions': sorted(ext), 'backends': backends, 'solver_seconds': round(solver, 2),
              'clauses': clauses, 'roots': perroot, 'undecided': undecided,
              'bounded_native_evaluation': {r: dict(natives[r][1], label='bounded: random inputs, not counted as proof') for r in natives},
              'known_findings': [k['what'] for k in knownhits]},
          'wall_s': round(time.time() - t0, 2),
          'assumptions': sorted(assum) + ['slices have at most 2^40 elements and loops at most 2^40 iterations',
                                          'pointer arguments are non-nil and distinct arguments do not alias unless the contract says so',
                                          'append never shares storage with its argument beyond the argument\'s length',
                                          'partial correctness: termination is not proved',
                                          'each function runs without interference from other goroutines',
                                          'the flag tables hold the shipped saratoga.json'],
          'violations': len(viol)}
    with open('%s/evidence/%s.json' % (VERIF, prop), 'w') as fp:
        json.dump(ev, fp, indent=1, sort_keys=True)
    print('%s: %d roots, %d obligations, %d discharged, %d undecided roots, %.1fs' % (prop, len(roots), total, disch, len(undecided), time.time() - t0))
    for u in undecided:
        print('  undecided %s: %s %s' % (u['root'], u['reason'][:300], u['open'][:3]))
    for k in knownhits:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for r, p, f, d in viol:
        for o in d['failed_obligations'][:4]:
            print('  failed obligation in %s: %s: %s (%s)' % (r, o['kind'], o['tag'], o['pos']))
        if f:
            for w in d['what_fails'][:3]:
                print('  replayed on the real code: %s: %s' % (w['Tag'], w['What'][:200].replace('\n', ' ')))
        print('VIOLATION property=%s replay=%s%s' % (prop, p, '' if f else ' no-failing-input-found'))
    return 1 if viol else 0


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return ''


if __name__ == '__main__':
    main()
