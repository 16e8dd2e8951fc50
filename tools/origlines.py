"""Says for every planted bug how many of the lines it removes come from the original repository."""
import os, re, subprocess, sys
BASE = '363ba41'
sd = '/verif/seeded'
def sh(*a): return subprocess.run(a, capture_output=True, text=True).stdout
mine = set(sh('git', '-C', '/repo', 'rev-list', BASE + '..HEAD').split())
for s in sorted(os.listdir(sd)):
    orig = own = ctx = 0
    f = None
    for l in open('%s/%s/patch.diff' % (sd, s)):
        m = re.match(r'--- a/(.*)', l)
        if m:
            f = m.group(1)
            bl = [x.split()[0].lstrip('^') for x in sh('git', '-C', '/repo', 'blame', '-l', '--root', 'HEAD', '--', f).splitlines()]
            continue
        m = re.match(r'@@ -(\d+)', l)
        if m:
            n = int(m.group(1)); continue
        if l.startswith('-') and f:
            if bl[n - 1] in mine: own += 1
            else: orig += 1
            n += 1
        elif l.startswith(' '):
            n += 1
    print(s, 'original lines', orig, 'own', own)
