#!/usr/bin/env python3
"""Decide one property of /repo's current source statically.

    python3 check.py P01 [--tier quick|thorough]

Exit 0: every obligation was discharged (or left undetermined, see evidence).
Exit 1: at least one obligation is violated; a VIOLATION line names it.
"""
import os
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


BUDGET = 780          # seconds; what is not decided by then is reported as undetermined
RUN = {}


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    from sa.core import Ctx, report
    from sa.registry import CHECKS
    t0 = time.time()
    rules, technique, explanation = CHECKS[prop]
    C = Ctx(prop, tier)
    RUN['args'] = (C, t0, technique, explanation, seed)
    for r in rules:
        C.guard(r)
    RUN['done'] = True
    return report(*RUN['args'])


def unanswered(why):
    """The analysis could not finish: report what it decided; the rest is undetermined."""
    from sa.core import Ctx, report
    if 'args' not in RUN:
        print('%s: analysis not possible: %s' % (sys.argv[1], why))
        return 0
    C = RUN['args'][0]
    C.obs = list(C.obs)
    C.unsure(None, 'analysis', why)
    return report(*RUN['args'])


def entry():
    try:
        entry.rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        entry.rc = None


if __name__ == '__main__':
    entry.rc = None
    budget = float(os.environ.get('RFSED_BUDGET') or BUDGET)
    sys.setrecursionlimit(60000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=entry, daemon=True)
    t.start()
    t.join(budget)
    rc = entry.rc
    if rc is None:
        rc = unanswered('time budget of %d s used up' % budget if t.is_alive() else 'analysis error')
    sys.stdout.flush()
    os._exit(rc)
