#!/usr/bin/env python3
"""check.py <property id> [thorough]: decide one property of /repo's current tree by static analysis."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
import threading
threading.stack_size(512 * 1024 * 1024)


def run():
    import core
    from checks import REG
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    mod, fn = REG[pid]
    m = importlib.import_module('checks.' + mod)
    f = getattr(m, fn)
    global rc
    rc = core.main(pid, tier, f, (f.__doc__ or '').strip(), seed)


rc = 2
t = threading.Thread(target=run)
t.start(); t.join()
sys.stdout.flush()
os._exit(rc)
