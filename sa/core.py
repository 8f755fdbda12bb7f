"""Shared rule machinery: findings, coverage counters, evidence, exit codes."""
import json
import os
import sys
import time
import traceback

from .repo import Repo, AnchorError
from .interp import AnalysisLimit

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


class Finding:
    def __init__(self, key, where, msg, path=()):
        self.key = key
        self.where = where
        self.msg = msg
        self.path = list(path)


class Ctx:
    def __init__(self, pid, tier, repo):
        self.pid = pid
        self.tier = tier
        self.repo = repo
        self.findings = []
        self.known = known_findings().get(pid, {})
        self.counts = {}
        self.funcs = set()
        self.samples = []
        self.obl = 0
        self.obl_ok = 0
        self.rule = ''
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def visited(self, fis):
        self.funcs.update(f.qual for f in fis if hasattr(f, 'qual'))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def check(self, ok, key, where, msg, path=()):
        """One obligation."""
        self.obl += 1
        if ok:
            self.obl_ok += 1
            return True
        for f in self.findings:
            if f.key == key:
                return False
        self.findings.append(Finding(key, where, msg, path))
        return False

    def floor(self, name, n):
        """Fewer instances than expected: the anchors moved; no answer."""
        got = self.counts.get(name, 0)
        if got < n and all(f.key in self.known for f in self.findings):
            raise AnchorError('%s: only %d instances of "%s" found, at least %d expected' % (self.pid, got, name, n))


def known_findings():
    out = {}
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if not line.startswith('known:'):
                continue
            d = {}
            rest = line[len('known:'):].strip()
            # known: property=<id> key=<key> :: <what fails>
            head, _, what = rest.partition(' :: ')
            pid, _, key = head.partition(' key=')
            out.setdefault(pid.replace('property=', '').strip(), {})[key.strip()] = what.strip()
    return out


def trace_lines(events, limit=60):
    """Readable path: branch decisions and effects."""
    out = []
    for e in events:
        if e.fn is None:
            continue
        out.append('%s:%d %s' % (e.fn.module.path, e.line, repr(e)))
    if len(out) > limit:
        out = out[:limit // 2] + ['...'] + out[-limit // 2:]
    return out


def main(pid, tier, fn, root='/repo'):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    evdir = os.path.join(ROOT, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    evp = os.path.join(evdir, pid + '.json')
    try:
        repo = Repo(root)
        ctx = Ctx(pid, tier, repo)
        known = known_findings().get(pid, {})
        try:
            fn(ctx)
        except (AnchorError, AnalysisLimit):
            # what was found before the analysis lost its footing stands
            if all(f.key in known for f in ctx.findings):
                raise
        except Exception:
            # a broken construct can leave the rule without the parts it looks for
            if all(f.key in known for f in ctx.findings):
                raise
            traceback.print_exc()
    except AnchorError as e:
        print('ERROR: property=%s anchor: %s' % (pid, e))
        return 3
    except AnalysisLimit as e:
        print('ERROR: property=%s analysis limit: %s' % (pid, e))
        return 4
    except SyntaxError as e:
        print('ERROR: property=%s the tree does not parse: %s' % (pid, e))
        return 5
    except Exception:
        traceback.print_exc()
        print('ERROR: property=%s internal error' % pid)
        return 6
    new = [f for f in ctx.findings if f.key not in known]
    old = [f for f in ctx.findings if f.key in known]
    cov = {
        'explanation': ctx.rule.strip(),
        'functions_analysed': len(ctx.funcs),
        'obligations': ctx.obl,
        'discharged': ctx.obl_ok,
        'samples': ctx.samples,
        'function_names': sorted(ctx.funcs)[:400],
        'known_findings_seen': [f.key for f in old],
    }
    for k, v in ctx.counts.items():
        cov['n_' + k.replace(' ', '_')] = v
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': cov, 'assumptions': ctx.assumptions,
        'wall_s': round(time.time() - t0, 3), 'violations': len(new),
    }
    with open(evp, 'w') as f:
        json.dump(ev, f, indent=1)
    for f in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, known[f.key] or f.msg))
    if ctx.obl == 0:
        print('ERROR: property=%s no obligation was generated' % pid)
        return 3
    rp = os.path.join(evdir, pid + '.violations.txt')
    if os.path.exists(rp):
        os.unlink(rp)
    if new:
        with open(rp, 'w') as f:
            for x in new:
                f.write('rule %s\nconstruct %s\nat %s\n%s\n' % (pid, x.key, x.where, x.msg))
                for l in x.path:
                    f.write('    ' + l + '\n')
                f.write('\n')
        for x in new[:20]:
            print('%s: %s [%s] at %s' % (pid, x.msg, x.key, x.where))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s obligations=%d functions=%d (%.1fs)' % (pid, ctx.obl, len(ctx.funcs), time.time() - t0))
    return 0
