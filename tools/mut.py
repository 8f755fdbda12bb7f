#!/usr/bin/env python3
"""Development aid: applies the edits listed in tools/mutants/*.py to scratch
copies of /repo and runs the checks on them.  usage: mut.py [-c] [filter...]"""
import glob, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get('MUT_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load():
    out = []
    for f in sorted(glob.glob(os.path.join(ROOT, 'tools', 'mutants', '*.py'))):
        ns = {}
        exec(open(f).read(), ns)
        for m in ns['M']:
            out.append((os.path.basename(f)[:-3],) + tuple(m))
    return out


def run(m):
    grp, name, want, edits = m[0], m[1], m[2], m[3]
    ids = sorted(set((want or '').replace('!', '').split()))
    d = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree(REPO + '/sippy', d + '/sippy')
        for x in ('apps', 'tests', 'setup.py'):
            p = REPO + '/' + x
            if os.path.isdir(p):
                shutil.copytree(p, d + '/' + x)
            elif os.path.exists(p):
                shutil.copy(p, d)
        for f, a, b in edits:
            all_ = a.startswith('*')
            a = a.lstrip('*')
            p = os.path.join(d, 'sippy', f)
            s = open(p).read()
            if s.count(a) < 1:
                return m, 'NOMATCH in %s' % f, ''
            s = s.replace(a, b) if all_ else s.replace(a, b, 1)
            open(p, 'w').write(s)
            compile(s, p, 'exec')
        res = []
        for i in ids:
            r = subprocess.run([sys.executable, os.path.join(ROOT, 'check.py'), i, '--root', d], capture_output=True, text=True)
            res.append((i, r.returncode, r.stdout + r.stderr))
        quiet = want.startswith('!')
        rc = [r[1] for r in res]
        if quiet:
            ok = all(x == 0 for x in rc)
        else:
            ok = any(x == 1 for x in rc)
        return m, 'ok' if ok else 'BAD', ' '.join('%s=%d' % (i, c) for i, c, _ in res) + ('' if ok and not quiet else '\n' + '\n'.join(
            o for i, c, o in res if c != 0)) + ('\n' + '\n'.join(o[:400] for i, c, o in res if c == 1) if ok and not quiet and VERB else '')
    finally:
        shutil.rmtree(d)


VERB = '-v' in sys.argv
if __name__ == '__main__':
    flt = [a for a in sys.argv[1:] if not a.startswith('-')]
    ms = [m for m in load() if not flt or any(f in m[0] + '/' + m[1] for f in flt)]
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for m, st, out in ex.map(run, ms):
            if st != 'ok':
                bad += 1
            print(m[0] + '/' + m[1], m[2], st, out[:3000], flush=True)
    print('%d edits, %d bad' % (len(ms), bad))
