"""Runs the stable tests of a copy of the repository; exit 1 when one fails."""
import os, subprocess, sys
t = sys.argv[1]
py = '/opt/venv/bin/python'
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=t)
w = t + '.work'
os.makedirs(w, exist_ok=True)
ps = []
mods = 'B2B.Transforms Core.Exceptions MyConfigParser Rtp_proxy.Client.internal Signal SipContentType SipReason Time.MonoTime Time.Timeout'.split()
d = subprocess.run(['git', 'diff', '--name-only'], cwd=t, capture_output=True, text=True).stdout
if 'SipNonce' in d or 'Security' in d:
    mods.append('Security.SipNonce')
for m in mods:
    ps.append((m, subprocess.Popen(['timeout', '90', py, '-m', 'sippy.' + m], cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, text=True)))
import fcntl
lk = open('/tmp/stable.lock', 'w')
fcntl.flock(lk, fcntl.LOCK_EX)
ps.append(('pytest', subprocess.Popen(['timeout', '240', py, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--ignore=tests/test_B2BRoute.py', 'tests'], cwd=t, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
bad = 0
for m, p in ps:
    o, _ = p.communicate()
    if p.returncode != 0:
        bad = 1
        print(m, 'FAILED', o[-600:])
r = subprocess.run([py, '-W', 'ignore', '-c', 'import sys,glob\nsys.path.insert(0,".")\nfor f in glob.glob("sippy/**/*.py", recursive=True): compile(open(f).read(), f, "exec")'], cwd=t, env=env, capture_output=True, text=True)
if r.returncode:
    bad = 1
    print(r.stderr[-500:])
sys.exit(bad)
