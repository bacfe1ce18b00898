#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough]"""
import importlib
import os
import sys
import traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, 'checks'))
sys.setrecursionlimit(20000)
from sai.check import CHECK_SECONDS, Check, TookTooLong, limit  # noqa: E402
from sai.db import AnalysisBroken  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    c = Check(pid, tier if tier in ('quick', 'thorough') else 'quick', int(os.environ.get('VERIF_SEED', '1') or 1))
    try:
        m = importlib.import_module(pid.lower())
        try:
            with limit(CHECK_SECONDS):
                m.run(c)
        except TookTooLong:
            c.undecided('analysis', 'time', '', 'took too long')
        rc = c.finish(**getattr(m, 'FINISH', {}))
    except AnalysisBroken as e:
        c.broken.append(str(e))
        print(f'ANALYSIS BROKEN: {e}')
        c.finish()
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


main()
