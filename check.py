#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--root DIR]"""
import importlib
import os
import pkgutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def registry():
    import sa.rules
    out = {}
    for m in pkgutil.iter_modules(sa.rules.__path__):
        mod = importlib.import_module('sa.rules.' + m.name)
        out.update(getattr(mod, 'RULES', {}))
    return out


def main():
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    root = '/repo'
    ids = []
    while a:
        x = a.pop(0)
        if x == '--tier':
            tier = a.pop(0)
        elif x == '--selfcheck':
            registry()
            from sa.repo import Repo
            Repo(root)
            print('ready')
            return 0
        elif x == '--root':
            root = a.pop(0)
        else:
            ids.append(x)
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    from sa.core import main as run
    reg = registry()
    if ids == ['all']:
        ids = sorted(reg)
    rc = 0
    for i in ids:
        if i not in reg:
            print('unknown property', i)
            return 2
        rc = max(rc, run(i, tier, reg[i], root))
    return rc


if __name__ == '__main__':
    sys.exit(main())
