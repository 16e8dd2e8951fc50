"""Builds everything a check needs from /repo's current working tree."""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MOD = 'github.com/charlesetsmith/saratoga'


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(['bash', '-c', cmd], capture_output=True, text=True, **kw)
    if p.returncode:
        raise BuildError('%s\n%s\n%s' % (cmd[:300], p.stdout[-20000:], p.stderr[-20000:]))
    return p.stdout


FUNC = re.compile(r'^func ((?:ZC|ZL|ZG)_\w+)\(([^)]*)\)', re.M)


def params(sig):
    out = []
    for part in sig.split(','):
        part = part.strip()
        if part:
            out.append(part.split()[0])
    return out


def contract_files():
    r = {}
    for d in sorted(glob.glob(VERIF + '/contracts/*')):
        if os.path.isdir(d):
            r[os.path.basename(d)] = sorted(glob.glob(d + '/*.go'))
    return r


def digest(extra=()):
    h = hashlib.sha256()
    fs = sorted(glob.glob(REPO + '/**/*.go', recursive=True)) + sorted(glob.glob(REPO + '/**/*.json', recursive=True)) + \
        sorted(glob.glob(VERIF + '/contracts/**/*.go', recursive=True)) + sorted(glob.glob(VERIF + '/gosrc/**/*.go', recursive=True)) + \
        sorted(glob.glob(VERIF + '/tools/ssadump/*')) + [VERIF + '/govc/build.py']
    for f in fs:
        h.update(f.encode())
        with open(f, 'rb') as fp:
            h.update(fp.read())
    return h.hexdigest()[:16]


def overlay(work, dropped=()):
    """overlay files for the verifier (arm64 view) and for the native runner"""
    base = json.load(open('/opt/vp/gomod/overlay.json'))['Replace']
    rep = dict(base)
    for p in ('zzverif', 'zzspec'):
        for f in glob.glob(VERIF + '/gosrc/%s/*.go' % p):
            rep['%s/%s/%s' % (REPO, p, os.path.basename(f))] = f
    native = dict(rep)
    meta = {}
    pkgs = contract_files()
    for pkg, files in pkgs.items():
        regs = []
        pname = None
        for f in files:
            if f in dropped:
                continue
            txt = open(f).read()
            pname = re.search(r'^package (\w+)', txt, re.M).group(1)
            dst = '%s/%s/zz_verif_%s' % (REPO, pkg, os.path.basename(f))
            rep[dst] = f
            native[dst] = f
            for n, sig in FUNC.findall(txt):
                if n.startswith('ZG_'):
                    for pre in ('ZC_', 'ZL_'):
                        if re.search(r'^func %s\(' % (pre + n[3:]), txt, re.M):
                            regs.append('\tzz.RegisterGen("%s.%s", %s)' % (pkg, pre + n[3:], n))
                else:
                    ps = ', '.join('"%s"' % x for x in params(sig))
                    regs.append('\tzz.Register("%s.%s", %s, []string{%s})' % (pkg, n, n, ps))
        if pname is None:
            continue
        reg = '%s/reg_%s.go' % (work, pkg)
        with open(reg, 'w') as fp:
            fp.write('package %s\n\nimport zz "%s/zzverif"\n\nfunc init() {\n%s\n}\n' % (pname, MOD, '\n'.join(regs)))
        native['%s/%s/zz_verif_zreg.go' % (REPO, pkg)] = reg
    # the native runner is the saratoga command itself; it starts the job from an init function
    run = work + '/zz_run.go'
    deps = '\n'.join('\t_ "%s/%s"' % (MOD, p) for p in pkgs if p not in ('saratoga',))
    with open(run, 'w') as fp:
        fp.write('package main\n\nimport (\n\tzz "%s/zzverif"\n%s\n)\n\nfunc init() {\n\tzz.Main()\n}\n' % (MOD, deps))
    native['%s/saratoga/zz_verif_zzrun.go' % REPO] = run
    # linux/amd64 lacks syscall.SO_REUSEPORT (15)
    src = open(REPO + '/sarnet/sarnet.go').read()
    pat = work + '/sarnet_native.go'
    with open(pat, 'w') as fp:
        fp.write(src.replace('syscall.SO_REUSEPORT', '0xf'))
    native[REPO + '/sarnet/sarnet.go'] = pat
    json.dump({'Replace': rep}, open(work + '/overlay.json', 'w'))
    json.dump({'Replace': native}, open(work + '/overlay_native.json', 'w'))


BAD = re.compile(r'zz_verif_(\w+)\.go:\d+:\d+: ([^\n]*)')


def build(dropped=None):
    """returns the work directory with ssa.json, consts.json and the native runner.
    Contract files that do not compile against the tree are left out and noted in dropped"""
    if dropped is None:
        dropped = {}
    work = '%s/.build/%s' % (VERIF, digest())
    if os.path.exists(work + '/ok'):
        dropped.update(json.load(open(work + '/ok')))
        return work
    os.makedirs(VERIF + '/.build', exist_ok=True)
    import fcntl
    with open(VERIF + '/.build/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(work + '/ok'):
            dropped.update(json.load(open(work + '/ok')))
            return work
        # drop builds of other trees
        for d in glob.glob(VERIF + '/.build/????????????????'):
            if d != work:
                shutil.rmtree(d, ignore_errors=True)
        os.makedirs(work, exist_ok=True)
        tool = VERIF + '/.build/ssadump'
        if not os.path.exists(tool) or os.path.getmtime(tool) < os.path.getmtime(VERIF + '/tools/ssadump/main.go'):
            sh('. /opt/vp/env.sh; unset GOFLAGS GOWORK; cd %s/tools/ssadump && GOFLAGS=-mod=mod GOWORK=off go build -o %s .' % (VERIF, tool))
        for attempt in range(12):
            try:
                build1(work, tool, dropped)
                break
            except BuildError as e:
                new = {}
                for name, msg in BAD.findall(str(e)):
                    for pkg, files in contract_files().items():
                        for f in files:
                            if os.path.basename(f) == name + '.go' and f not in dropped and \
                                    ('/%s/zz_verif_%s.go' % (pkg, name) in str(e) or re.search(r'(^|[ /])%s/zz_verif_%s\.go' % (pkg, name), str(e), re.M)):
                                new[f] = msg
                if not new:
                    raise
                dropped.update(new)
        else:
            raise BuildError('contracts do not compile')
        json.dump(dropped, open(work + '/ok', 'w'))
    return work


def build1(work, tool, dropped):
    overlay(work, dropped)
    p1 = subprocess.Popen(['bash', '-c', '. /opt/vp/env.sh; cd %s; export GOFLAGS=-overlay=%s/overlay_native.json; '
                           'CGO_ENABLED=0 go build -gcflags=-e -o %s/runner %s/saratoga' % (REPO, work, work, MOD)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    err = None
    try:
        sh('. /opt/vp/env.sh; cd %s; P=$(packages $BROKEN); export GOFLAGS=-overlay=%s/overlay.json CGO_ENABLED=0 GOOS=linux GOARCH=arm64; '
           '%s %s/overlay.json %s %s/ssa.json $P' % (REPO, work, tool, work, MOD, work))
    except BuildError as e:
        err = e
    out = p1.communicate()[0]
    if err:
        raise err
    if p1.returncode:
        raise BuildError('native runner: ' + out[-20000:])
    r = runner(work, {'Mode': 'consts'})
    if not r:
        raise BuildError('native runner gives no constants: %s' % r.out)
    json.dump(r[0], open(work + '/consts.json', 'w'))


class Out(list):
    rc = None
    out = ''


def runner(work, job, timeout=120):
    """runs one job; list of emitted objects, with the exit code in .rc and the output in .out"""
    import tempfile
    # the code under test deletes and overwrites files: it runs as an unprivileged user
    # in a directory of its own, with copies of what it needs
    d = tempfile.mkdtemp(prefix='zzrun')
    try:
        os.makedirs(d + '/repo/saratoga')
        shutil.copy(REPO + '/saratoga/saratoga.json', d + '/repo/saratoga/saratoga.json')
        # copied by another process: a descriptor open for writing here could leak into a forked prover
        # and make the file busy
        subprocess.run(['install', '-m', '755', work + '/runner', d + '/runner'], check=True)
        state = job.get('State')
        if state:
            job = dict(job, State=d + '/state')
        jf = d + '/job.json'
        json.dump(job, open(jf, 'w'))
        sd = d + '/cwd'
        os.makedirs(sd, exist_ok=True)
        env = dict(os.environ, ZZRUN=jf, HOME=sd, SARDIR=sd, TMPDIR=d, ZZREPO=d + '/repo')
        kw = {}
        if os.geteuid() == 0:
            for root, ds, fs in os.walk(d):
                for x in [root] + [root + '/' + f for f in fs]:
                    os.chown(x, 65534, 65534)
            kw = {'user': 65534, 'group': 65534, 'extra_groups': []}
        try:
            p = subprocess.run([d + '/runner'], capture_output=True, timeout=timeout, cwd=sd, env=env, **kw)
            rc = p.returncode
            so, se = p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            rc = 'timeout'
            so, se = e.stdout or b'', e.stderr or b''
        if state and os.path.exists(d + '/state'):
            shutil.copyfile(d + '/state', state)
        r = Out(json.loads(l[3:]) for l in so.decode('utf8', 'replace').split('\n') if l.startswith('ZZ ') and l.endswith('}'))
        r.rc, r.out = rc, (so[-3000:] + se[-3000:]).decode('utf8', 'replace')
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    print(build())
