"""Check harness: obligations, known findings, evidence, exit policy.

exit 0  every decided obligation holds (listed known findings are announced, not raised)
exit 1  an obligation is refuted:  VIOLATION property=<id> replay=<path>
exit 2  the analysis gives no answer (anchor gone, unit does not parse, too little decided)
"""
import contextlib
import json
import os
import signal
import sys
import time
import traceback
from . import db as dbm
from .db import AnalysisBroken, VERIF, REPO


PART_SECONDS, CHECK_SECONDS = int(os.environ.get("SAI_PART", "60")), 600
STARTED = time.monotonic()


class TookTooLong(BaseException):
    pass


def expired(*_):
    raise TookTooLong()


@contextlib.contextmanager
def limit(seconds):
    """an analysis that gets lost in paths ends undecided, in time for the rest to be reported."""
    left = max(1, min(seconds, CHECK_SECONDS - (time.monotonic() - STARTED)))
    before = signal.signal(signal.SIGALRM, expired)
    outer = signal.setitimer(signal.ITIMER_REAL, left)[0]
    began = time.monotonic()
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, before)
        if outer:
            signal.setitimer(signal.ITIMER_REAL, max(0.1, outer - (time.monotonic() - began)))


class Check:
    def __init__(self, pid, tier='quick', seed=1):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.obs = []          # (status, rule, key, where, detail)
        self.notes = []
        self.units = set()
        self.fns = set()
        self.assumptions = []
        self.broken = []
        self.extra = {}

    # ---- recording
    def ob(self, ok, rule, key, where='', detail=''):
        """ok: True holds, False refuted, None undecided.  `key` identifies the instance without line numbers."""
        self.obs.append((ok, rule, key, where, detail))
        return ok

    def hold(self, rule, key, where='', detail=''):
        self.ob(True, rule, key, where, detail)

    def fail(self, rule, key, where='', detail=''):
        self.ob(False, rule, key, where, detail)

    def undecided(self, rule, key, where='', detail=''):
        self.ob(None, rule, key, where, detail)

    def analysed(self, eng=None, fns=()):
        if eng is not None:
            self.fns |= set(eng.visited_fns)
        self.fns |= set(fns)

    def part(self, name, f, *a):
        """run one part of the check; an analysis failure there does not hide the others."""
        try:
            with limit(PART_SECONDS):
                return f(*a)
        except TookTooLong:
            self.undecided('analysis', name, '', 'took too long')
        except AnalysisBroken as e:
            self.broken.append(f'{name}: {e}')
        except Exception as e:  # engine limits: Undecided, recursion...
            if os.environ.get('SAI_DEBUG'):
                print(''.join(traceback.format_exc().splitlines(True)[-7:]))
            self.undecided('analysis', name, '', f'{type(e).__name__}: {str(e)[:300]}')

    # ---- verdict
    def finish(self, floor=0.5, minimum=1, explanation='', technique_notes=None):
        known = load_known(self.pid)
        ok = [o for o in self.obs if o[0] is True]
        und = [o for o in self.obs if o[0] is None]
        bad = [o for o in self.obs if o[0] is False]
        findings, viol = [], []
        for o in bad:
            k = f'{o[1]}|{o[2]}'
            if k in known:
                findings.append((k, o))
            else:
                viol.append(o)
        rules = {}
        for o in self.obs:
            r = rules.setdefault(o[1], [0, 0, 0])
            r[0 if o[0] is True else 1 if o[0] is False else 2] += 1
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': {
                'explanation': explanation or 'static analysis of the current source',
                'obligations': len(self.obs), 'discharged': len(ok), 'refuted': len(bad), 'undecided': len(und),
                'rules': {k: {'holds': v[0], 'refuted': v[1], 'undecided': v[2]} for k, v in sorted(rules.items())},
                'translation_units': sorted(self.units), 'functions_analysed': len(self.fns),
                'function_names': sorted({str(x)[:140] for x in self.fns})[:400],
                'instances': [f'{o[1]}: {o[2]}' for o in self.obs][:600],
                'undecided_instances': [f'{o[1]}: {o[2]}: {o[4]}'[:400] for o in und][:100],
                'known_findings': [k for k, _ in findings],
                'broken': self.broken,
                **self.extra,
            },
            'assumptions': self.assumptions,
            'violations': len(viol),
            'wall_s': round(time.time() - self.t0, 2),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for n in self.notes:
            print('note: ' + n)
        print(f'{self.pid}: {len(self.obs)} obligations, {len(ok)} hold, {len(bad)} refuted, {len(und)} undecided; '
              f'{len(self.fns)} functions, {len(self.units)} units, {ev["wall_s"]} s')
        for o in und:
            print(f'UNDECIDED {o[1]} [{o[2]}] {o[3]} {o[4]}'[:400])
        for b in self.broken:
            print('BROKEN ' + b)
        for k, o in findings:
            print(f'KNOWN-FINDING: property={self.pid} {known[k]}')
        if viol:
            path = os.path.join(VERIF, 'evidence', self.pid + '.violations.json')
            with open(path, 'w') as f:
                json.dump([{'rule': o[1], 'instance': o[2], 'where': o[3], 'detail': o[4]} for o in viol], f, indent=1)
            for o in viol[:40]:
                print(f'  violated {o[1]} [{o[2]}] at {o[3]}: {o[4]}'[:1200])
            print(f'VIOLATION property={self.pid} replay={path}')
            return 1
        if self.broken:
            return 2
        if len(ok) < minimum or len(ok) < floor * max(1, len(self.obs)):
            print(f'too little decided ({len(ok)} of {len(self.obs)}, minimum {minimum})')
            return 2
        return 0


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    d = json.load(open(p))
    return {e['id']: e['what'] for e in d.get('findings', []) if e['property'] == pid}


def where(f, line=None):
    return f"{os.path.relpath(f['file'], REPO) if f.get('file', '').startswith('/') else f.get('file')}:{line or f.get('line')} {f.get('q')}"
