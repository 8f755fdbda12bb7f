#!/usr/bin/env python3
"""Development aid: builds /verif/seeded/<id>/ from the definitions in
tools/seeds/*.py and confirms each one in a scratch copy: the demonstration
passes without the change and fails with it, and the stable tests still pass.
usage: seed.py [-n] [-c] [filter...]   (-n: no test run, -c: also run the property's check)"""
import glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
HEAD = '''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.getcwd())
'''


def load():
    out = []
    for f in sorted(glob.glob(os.path.join(ROOT, 'tools', 'seeds', '*.py'))):
        ns = {}
        exec(compile(open(f).read(), f, 'exec'), ns)
        out += ns['S']
    return out


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **k)


def build(s):
    sid, prop, edits, needs, breaks, demo = s
    d = os.path.join(ROOT, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed')
    try:
        t = w + '/repo'
        sh(['cp', '-a', os.environ.get('SEED_REPO', '/repo'), t], '/')
        sh(['git', 'checkout', '-q', '--', '.'], t)
        demo_py = HEAD + demo.lstrip('\n')
        open(d + '/demo.py', 'w').write(demo_py)
        if 'demolib' in demo:
            shutil.copy(ROOT + '/tools/demolib.py', d)
        open(d + '/demo.sh', 'w').write('#!/bin/sh\nPY=/opt/venv/bin/python\n[ -x "$PY" ] || PY=python3\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 "$PY" "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        r0 = sh(['sh', d + '/demo.sh'], t)
        for f, a, b in edits:
            p = os.path.join(t, 'sippy', f)
            x = open(p).read()
            if x.count(a) != 1:
                return s, 'BAD match count %d in %s: %r' % (x.count(a), f, a[:60])
            open(p, 'w').write(x.replace(a, b))
        diff = sh(['git', 'diff'], t).stdout
        open(d + '/patch.diff', 'w').write(diff)
        r1 = sh(['sh', d + '/demo.sh'], t)
        st = 'demo base=%d patched=%d' % (r0.returncode, r1.returncode)
        if r0.returncode != 0 or r1.returncode == 0:
            st = 'BAD ' + st + '\n' + r0.stdout[-1500:] + r0.stderr[-1500:] + r1.stdout[-800:]
        else:
            st += ' | ' + ((r1.stdout + r1.stderr).strip().splitlines() or ['?'])[-1][:150]
        # original lines only
        base = sh(['git', 'rev-list', '--max-parents=0', 'HEAD'], t).stdout.split()[0]
        if '-n' not in sys.argv and not st.startswith('BAD'):
            old = set()
            for f in set(e[0] for e in edits):
                bl = sh(['git', 'blame', '-s', '-l', 'HEAD', '--', 'sippy/' + f], t).stdout.splitlines()
                st2 = sh(['git', 'diff', '-U0', '--', 'sippy/' + f], t).stdout
                mine = [l for l in bl if any(l.lstrip('^').startswith(c[:30]) for c in MINE)]
                import re
                for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', st2, re.M):
                    a, n = int(m.group(1)), int(m.group(2) or 1)
                    for i in range(a, a + n):
                        if bl[i - 1] in mine:
                            st = 'BAD touches a line of a fix commit: ' + bl[i - 1]
        if '-n' not in sys.argv and not st.startswith('BAD'):
            env = dict(os.environ)
            bld = sh(['cmp', '-s', '/dev/null', '/dev/null'], t)
            out = w + '/out.json'
            r = subprocess.run(['python3', os.path.join(ROOT, 'tools', 'stable.py'), t], capture_output=True, text=True)
            if r.returncode != 0:
                st = 'BAD tests: ' + r.stdout[-500:] + r.stderr[-300:]
            else:
                st += ' tests ok'
        if '-c' in sys.argv and not st.startswith('BAD'):
            r = sh([sys.executable, ROOT + '/check.py', prop, '--root', t], ROOT)
            st += ' check=%d' % r.returncode
            if r.returncode != 1:
                st = 'MISSED ' + st + r.stdout[-300:] + r.stderr[-300:]
        return s, st
    finally:
        shutil.rmtree(w)


MINE = sh(['git', 'rev-list', '728859b..HEAD'], '/repo').stdout.split()
if __name__ == '__main__':
    flt = [a for a in sys.argv[1:] if not a.startswith('-')]
    with ThreadPoolExecutor(4) as ex:
        for s, st in ex.map(build, [s for s in load() if not flt or any(f in s[0] for f in flt)]):
            print(s[0], s[1], st, flush=True)
