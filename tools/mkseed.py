#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the specifications in tools/seeds/*.py. Development only: no check reads the result.

A specification defines: PROPERTY, FILE edits EDITS = [(file, old, new)...], NEEDS, BREAKS, DEMO (C source), optional FLAGS."""
import sys, os, json, shutil, subprocess, glob, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '2a9b1ca'
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(spec):
    sid = os.path.basename(spec)[:-3]
    s = runpy.run_path(spec)
    wt = '/tmp/mkseed.%d' % os.getpid()
    sh('git', '-C', '/repo', 'worktree', 'prune')
    r = sh('git', 'clone', '-q', '/repo', wt)
    assert r.returncode == 0, r.stdout
    try:
        for f, old, new in s['EDITS']:
            p = os.path.join(wt, 'src/wickrcrypto', f)
            t = open(p).read()
            assert t.count(old) == 1, '%s: %s: text found %d times: %r' % (sid, f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        d = sh('git', '-C', wt, 'diff').stdout
        # removed lines must be original ones
        n = 0
        for f in set(e[0] for e in s['EDITS']):
            cur = None
            bl = sh('git', '-C', wt, 'blame', '-s', 'HEAD', '--', 'src/wickrcrypto/' + f).stdout.split('\n')
            import re
            for l in sh('git', '-C', wt, 'diff', '-U0', '--', 'src/wickrcrypto/' + f).stdout.split('\n'):
                m = re.match(r'@@ -(\d+)', l)
                if m: cur = int(m.group(1)); continue
                if l.startswith('-') and not l.startswith('---'):
                    n += 1
                    if not bl[cur - 1].startswith('^' + BASE[:6]): print('%s: WARNING: not an original line: %s' % (sid, l))
                    cur += 1
        if n == 0: print('%s: note: only adds lines' % sid)
    finally:
        shutil.rmtree(wt)
    o = os.path.join(V, 'seeded', sid)
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(d)
    java = 'JAVA' in s
    if java: open(o + '/Demo.java', 'w').write(s['JAVA'])
    else: open(o + '/demo.c', 'w').write('#include "kit.h"\n' + s['DEMO'])
    json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(o + '/meta.json', 'w'), indent=1)
    for k in glob.glob(V + ('/tools/seedkit-java/*' if java else '/tools/seedkit/*')):
        b = os.path.basename(k)
        if b == 'demo.sh':
            open(o + '/demo.sh', 'w').write(open(k).read().replace('@FLAGS@', s.get('FLAGS', '')))
            os.chmod(o + '/demo.sh', 0o755)
        else: shutil.copy(k, o)
    print(sid, 'written')
for spec in sorted(glob.glob(V + '/tools/seeds/*.py')):
    if len(sys.argv) == 1 or os.path.basename(spec)[:-3] in sys.argv[1:]: make(spec)
