"""mkseed.py ID PROP FILE PKG < spec : spec is python dict text with keys old,new (or edits list), test (Go test source), needs, breaks.
Creates /verif/seeded/ID after confirming it: builds, stable tests pass, demo 0 without and non-zero with."""
import json, os, subprocess, sys, shutil, tempfile
DEMO = '''#!/bin/bash
# exit 0: the behaviour holds; non-zero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export SARDIR=$W/sardir; mkdir "$SARDIR"
python3 - "$D" "$W" <<'P'
import json, sys
o = json.load(open('/opt/vp/gomod/overlay.json'))
o['Replace']['/repo/%(pkg)s/zz_demo_test.go'] = sys.argv[1] + '/demo_test.go.txt'
n = sys.argv[2] + '/sarnet.go'  # the package does not compile on this machine for want of a constant
open(n, 'w').write(open('/repo/sarnet/sarnet.go').read().replace('syscall.SO_REUSEPORT', '0xf'))
o['Replace']['/repo/sarnet/sarnet.go'] = n
for t in %(hide)s:
    o['Replace'][t] = ''
json.dump(o, open(sys.argv[2] + '/overlay.json', 'w'))
P
export GOFLAGS=-overlay=$W/overlay.json %(env)s
cd /repo || exit 3
timeout 200 go test -vet=off -count=1 -run 'TestZZDemo' %(mod)s/%(pkg)s
'''
MOD = 'github.com/charlesetsmith/saratoga'


def sh(c, **k):
    return subprocess.run(['bash', '-c', c], capture_output=True, text=True, **k)


def main():
    sid = sys.argv[1]
    spec = eval(sys.stdin.read())
    d = '/verif/seeded/' + sid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    pkg = spec['pkg']
    hide = [ '/repo/%s/%s' % (pkg, f) for f in sorted(os.listdir('/repo/' + pkg)) if f.endswith('_test.go')]
    env = 'GOOS=linux GOARCH=arm64' if False else ''
    open(d + '/demo.sh', 'w').write(DEMO % {'pkg': pkg, 'hide': hide, 'mod': MOD, 'env': env})
    open(d + '/demo_test.go.txt', 'w').write(spec['test'])
    json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    r = sh('cd /repo && bash %s/demo.sh' % d)
    print('clean demo', r.returncode, r.stdout[-600:] if r.returncode else '')
    ok = r.returncode == 0
    try:
        for f, old, new in spec['edits']:
            p = '/repo/' + f
            t = open(p).read()
            assert t.count(old) >= 1, 'not found: ' + old
            n = spec.get('nth', {}).get(old, 0)
            i = -1
            for _ in range(n + 1):
                i = t.index(old, i + 1)
            if t.count(old) > 1 and old not in spec.get('nth', {}):
                raise AssertionError('ambiguous %d: %s' % (t.count(old), old))
            t = t[:i] + new + t[i + len(old):]
            open(p, 'w').write(t)
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        r = sh('bash /opt/vp/build.sh')
        print('build', r.returncode, r.stdout[-500:] + r.stderr[-500:] if r.returncode else '')
        ok &= r.returncode == 0
        r = sh('bash /opt/vp/test.sh /tmp/zzres.json')
        res = json.load(open('/tmp/zzres.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        r = sh('cd /repo && bash %s/demo.sh' % d)
        print('patched demo', r.returncode, r.stdout[-700:])
        ok &= r.returncode != 0
        ps = set(res.get('passed', []))
        miss = [t for t in stable(base) if t not in ps]
        print('stable tests missing:', miss)
        ok &= not miss
        if ok and len(sys.argv) > 2:
            for p in sys.argv[2:]:
                r = sh('cd /verif && python3-vt govc/check.py %s quick' % p)
                print(p, r.returncode, r.stdout[-900:])
    finally:
        sh('git -C /repo checkout -- .')
    print('OK' if ok else 'NOT OK')
    if not ok:
        sys.exit(1)


def stable(b):
    for k in ('stable', 'passed', 'pass'):
        if k in b:
            return b[k]
    return list(b)


main()
