"""C12: latches and waitable flags lose no wake-up and let nobody through early."""
from sync import *

FINISH = dict(floor=0.15, minimum=5, explanation='the members of the latch and of the waitable flag are summarised for an arbitrary shared state, re-read after each acquisition of the lock; '
              'waiting, releasing and resetting are composed symbolically, and each notification is ordered against the lock')
LATCH, WA = 'jogasaki::utils::latch', 'jogasaki::utils::waitable_atomic'
TUS = ['src/jogasaki/utils/latch.cpp', probe('sync.cpp')]


def run(c):
    d = db.load(TUS)
    c.units |= set(d.tus)
    c.part('latch', latch, c, d)
    n = 0
    for cls in sorted(x for x in d.recs if x.startswith(WA + '<') and 'type-parameter' not in x):
        n += 1
        c.part(cls, flag, c, d, cls)
    if n < 2:
        raise db.AnalysisBroken('waitable_atomic instances not found')


def summaries(d, f):
    e = engine.Engine(d)
    e.track_reads = True
    return e, e.run(f)


def duration(v, w):
    if v == w or (v[0] == 'app' and v[1] == 'tp+' and v[3] == w and v[2][0] == 'app' and v[2][1] == 'now'):
        return True
    return False if free(v) else None


def discipline(c, e, d, cls, f, ends, flds, only):
    for s in ends:
        guarded(c, e, d, cls, f, s, flds, only=only)
        lock_balance(c, e, f, s)
        for w in waits(s):
            c.ob(fld(THIS, flds['mutex'][0]['n']) in w[2] and w[1] == fld(THIS, flds['cv'][0]['n']), 'waits with its own lock', f['q'].split('::')[-1], where(f))


def latch(c, d):
    e = engine.Engine(d)
    if LATCH not in d.recs:
        raise db.AnalysisBroken('latch not found')
    fl = fields_of(d, e, LATCH)
    if len(fl['mutex']) != 1 or len(fl['cv']) != 1:
        raise db.AnalysisBroken('latch lock not found')
    ml, cv = fld(THIS, fl['mutex'][0]['n']), fld(THIS, fl['cv'][0]['n'])
    ft = {x['n']: x['t'] for x in fl['data']}
    fs = {}
    for f in members(d, LATCH):
        fs.setdefault(f['q'].split('::')[-1], []).append(f)
        if kind(f) == 'fn' and f.get('acc') != 2:
            e, ends = summaries(d, f)
            c.analysed(e)
            discipline(c, e, d, LATCH, f, ends, fl, None)
    for n in ('release', 'wait', 'reset', 'latch'):
        if n not in fs:
            raise db.AnalysisBroken(f'latch::{n} not found')

    def after(f, args=None, this_init=None):
        """the state each path leaves behind: {field: value}."""
        e = engine.Engine(d)
        out = []
        for s in e.run(f, args=args) if args is not None else e.run(f):
            out.append((s, {a: e.read(s, fld(THIS, a), t) for a, t in ft.items()}))
        return e, out

    def const(f, st, what):
        """the known values of a state every path agrees on."""
        r = None
        for _, m in st:
            k = {a: v for a, v in m.items() if v[0] == 'i'}
            r = k if r is None else {a: v for a, v in r.items() if k.get(a) == v}
        return r or {}

    ctor = [f for f in fs['latch'] if len(f['params']) == 1 and 'bool' in f['params'][0]['t']]
    if not ctor:
        raise db.AnalysisBroken('latch constructor not found')
    states = {}
    for nm, arg in (('new', FALSE), ('made released', TRUE)):
        _, st = after(ctor[0], [arg])
        states[nm] = const(ctor[0], st, nm)
    _, rel = after(fs['release'][0])
    R = states['after release'] = const(fs['release'][0], rel, 'release')
    _, rs = after(fs['reset'][0])
    states['after reset'] = const(fs['reset'][0], rs, 'reset')
    # release: waiters are told, in the state they wait for
    e, ends = summaries(d, fs['release'][0])
    for s in ends:
        ws = [i for i, x in enumerate(s.eff) if x[0] == 'wr' and any(x[1] == fld(THIS, a) for a in ft)]
        c.ob(bool(ws) or None, 'release changes the state', 'release', where(fs['release'][0]))
        if not ws and s.ctrl is None:
            # a path that changes nothing is only right if the latch was released before
            continue
        for i in ws:
            c.ob('notify_all' in notified_after(s, cv, ml, i), 'release tells every waiter', 'release', where(fs['release'][0]), 'no notification of every waiter follows the change')
    for f in fs['wait']:
        timed = bool(f['params'])
        nm = 'timed wait' if timed else 'wait'
        e, ends = summaries(d, f)
        c.analysed(e)

        def slept(s):
            return bool(waits(s)) or any(x[0] == 'loop' and any(w[0] == 'wait' for b in x[1].bodies for w in b.eff) for x in s.eff)

        def given(s, m, sym):
            return [(sym(a), bool(v[1])) for a, v in m.items()]

        for what, m in states.items():
            block = what in ('new', 'after reset')
            got = False
            for s in ends:
                for u in possible(e, s, given(s, m, lambda a: init(fld(THIS, a)))):
                    got = True
                    if block and not slept(s):
                        c.fail('nobody gets through before the release', f'{nm} {what}', where(f), 'returns without waiting')
                    elif not block and slept(s):
                        c.fail('a released latch does not block', f'{nm} {what}', where(f), 'waits although it has been released')
                    else:
                        c.hold('a released latch does not block' if not block else 'nobody gets through before the release', f'{nm} {what}', where(f))
                    if timed and not slept(s):
                        c.ob(e.truth(u, s.ret), 'a timed wait tells whether it was released', f'{nm} {what}', where(f), show(s.ret)[:60])
            c.ob(got or None, 'the situation is covered', f'{nm} {what}', where(f))
        woke = None
        for s in ends:
            if not slept(s):
                continue
            for w in waits(s):
                if timed and w[7] is not None:
                    c.ob(duration(w[7], param(f)), 'waits no longer than asked', nm, where(f), show(w[7])[:80])
            # what the sleeper left in the fields before it slept
            pre = before(e, s, ft)
            cur = lambda a: current(e, s, fld(THIS, a))
            for u in possible(e, s, [(cur(a), bool(v[1])) for a, v in R.items()]):
                if not timed:
                    woke = True
                else:
                    t = e.truth(u, s.ret)
                    if t is True:
                        woke = True
                    else:
                        c.ob(None if t is None else False, 'a timed wait tells whether it was released', nm + ' after release', where(f), show(s.ret)[:60])
            same_ = [(cur(a), e.truth(s, v)) for a, v in pre.items() if e.truth(s, v) is not None]
            for u in possible(e, s, same_):
                if not timed:
                    c.fail('nobody gets through before the release', nm + ' woken for nothing', where(f), 'returns although nothing was released')
                else:
                    t = e.truth(u, s.ret)
                    c.ob(None if t is None else not t, 'a timed wait tells whether it was released', nm + ' timed out', where(f), show(s.ret)[:60])
        c.ob(True if woke else False if woke is None and any(slept(s) for s in ends) else None, 'the release ends the wait', nm, where(f), 'the state left by release() does not satisfy the condition waited for')
        # whoever comes after the release (any member but reset) leaves the latch open for those who already sleep
        for g in [x for n, l in fs.items() if n != 'reset' for x in l]:
            if kind(g) != 'fn' or g.get('acc') == 2:
                continue
            gn = g['q'].split('::')[-1] + (' (timed)' if g['params'] else '')
            e2, st = after(g)
            for s, m in st:
                if slept(s):
                    continue
                for u in possible(e2, s, given(s, R, lambda a: init(fld(THIS, a)))):
                    left = {a: e2.truth(u, v) for a, v in m.items()}
                    known = [(a, v) for a, v in left.items() if v is not None]
                    ok = any(possible(e, x, [(current(e, x, fld(THIS, a)), v) for a, v in known]) for x in ends if slept(x) and (not timed or e.truth(x, x.ret) is not False))
                    c.ob(True if ok and len(known) == len(left) else None if ok else False, 'a released latch stays open for those who sleep', f'{gn} against {nm}', where(g), 'leaves a state that no sleeper wakes up in')
        for b, j, L in [y for x in ends for y in bare_waits(x)]:
            conds = [(at_wait(e, b, j, L, fld(THIS, a)), bool(v[1])) for a, v in R.items()]
            c.ob(not possible(e, b, conds), 'a released latch does not block', nm + ' before waiting', where(f), 'waits although it has been released')


def before(e, s, ft):
    """values of the fields when the path first went to sleep."""
    r = {}
    for a in ft:
        v = init(fld(THIS, a))
        for x in s.eff:
            if x[0] in ('wait', 'loop'):
                break
            if x[0] == 'wr' and x[1] == fld(THIS, a):
                v = x[2]
        r[a] = v
    return r


def flag(c, d, cls):
    e = engine.Engine(d)
    fl = fields_of(d, e, cls)
    if len(fl['mutex']) != 1 or len(fl['cv']) != 1 or len(fl['data']) != 1:
        raise db.AnalysisBroken('fields of ' + cls)
    x = fl['data'][0]
    short = cls.split('::')[-1]
    ol, ot = fld(THIS, x['n']), x['t']
    ml, cv = fld(THIS, fl['mutex'][0]['n']), fld(THIS, fl['cv'][0]['n'])
    c.ob(M.head(e.strip(ot)) in ('std::atomic', 'std::__atomic_base'), 'the value read without the lock is atomic', short, '', ot)
    fs = {}
    for f in members(d, cls):
        fs.setdefault(f['q'].split('::')[-1], []).append(f)
    for n in ('wait', 'wait_for', 'notify_one', 'notify_all', 'store', 'load', 'compare_exchange_weak', 'compare_exchange_strong'):
        if n not in fs and not (n == 'wait_for' and 'bool' not in cls):
            c.undecided('member found', f'{short}::{n}')
    for n in ('notify_one', 'notify_all'):
        for f in fs.get(n, ()):
            e, ends = summaries(d, f)
            c.analysed(e)
            for s in ends:
                key = f'{short}::{n}'
                lock_balance(c, e, f, s)
                i = next((i for i, y in enumerate(s.eff) if y[0] == 'lock' and y[1] == ml), None)
                told = [y[2][1] for j, y in enumerate(s.eff) if y[0] == 'notify' and y[1] == cv and i is not None and j > i]
                c.ob(i is not None, 'a notifier passes through the lock of the waiters', key, where(f))
                c.ob('notify_all' in told or (n == 'notify_one' and bool(told)), 'a notifier notifies', key, where(f), str(told))
    for n in ('wait', 'wait_for'):
        for f in fs.get(n, ()):
            e, ends = summaries(d, f)
            c.analysed(e)
            key = f'{short}::{n}'
            oi = [i for i, p in enumerate(f['params']) if 'duration' not in p['t']][0]
            old = param(f, oi) if '&' not in f['params'][oi]['t'] else init(pd(f, oi))
            passed = False
            for s in ends:
                for w in waits(s):
                    c.ob(ml in w[2] and w[1] == cv, 'waits with its own lock', key, where(f))
                    if w[7] is not None:
                        ti = [i for i in range(len(f['params'])) if i != oi][0]
                        c.ob(duration(w[7], param(f, ti)), 'waits no longer than asked', key, where(f), show(w[7])[:80])
                lock_balance(c, e, f, s)
                now = current(e, s, ol)
                eq = e.cmp('==', now, old)
                for u in possible(e, s, [(eq, True)]):
                    if n == 'wait':
                        c.fail('returns only once the value changed', key, where(f), 'can return with the old value')
                    else:
                        t = e.truth(u, s.ret)
                        c.ob(None if t is None else not t, 'a timed wait tells whether the value changed', key, where(f), show(s.ret)[:80])
                for u in possible(e, s, [(eq, False)]):
                    passed = True
                    if n != 'wait':
                        t = e.truth(u, s.ret)
                        c.ob(t, 'a timed wait tells whether the value changed', key, where(f), show(s.ret)[:80])
                for b, j, L in bare_waits(s):
                    c.ob(not possible(e, b, [(e.cmp('==', at_wait(e, b, j, L, ol), old), False)]), 'blocks only while the value is the old one', key, where(f))
            c.ob(passed, 'a change ends the wait', key, where(f))
    for n in ('store', 'operator='):
        for f in fs.get(n, ()):
            if f.get('defaulted') or f.get('deleted') or cls in f['params'][0]['t']:
                continue
            e, ends = summaries(d, f)
            for s in ends:
                record(c, 'a store keeps the value', f'{short}::{n}', where(f), same(e, s, e.read(s, ol, ot), param(f), e.strip(f['params'][0]['t']), None, 'value'))
                if n == 'operator=':
                    r = s.ret
                    c.ob(True if show(r) in ('&*this()', show(THIS)) else False if r is None or free(r) else None, 'an assignment gives the flag back', f'{short}::{n}', where(f), show(r)[:60] if r is not None else 'flows off the end')
    for n, l in fs.items():
        if n == 'load' or n.startswith('operator ') and not f.get('defaulted'):
            for f in l:
                e, ends = summaries(d, f)
                for s in ends:
                    record(c, 'a load gives the value', f'{short}::{n}', where(f), same(e, s, s.ret, e.read(engine.St(), ol, ot), '', None, 'value'))
    for n in ('compare_exchange_weak', 'compare_exchange_strong'):
        for f in fs.get(n, ()):
            e, ends = summaries(d, f)
            exp = init(pd(f, 0))
            for s in ends:
                t = e.truth(s, s.ret)
                v = e.read(s, ol, ot)
                key = f'{short}::{n}'
                if t is True:
                    record(c, 'an exchange stores the value', key, where(f), same(e, s, v, param(f, 1), '', None, 'value'))
                    c.ob(not possible(e, s, [(e.cmp('==', init(ol), exp), False)]), 'an exchange succeeds on the expected value only', key, where(f))
                elif t is False:
                    c.ob(True if v == init(ol) else None, 'a failed exchange stores nothing', key, where(f), show(v)[:80])
                    x2 = e.read(s, pd(f, 0), e.strip(f['params'][0]['t']))
                    c.ob(True if x2 == init(ol) else False if free(x2) else None, 'a failed exchange reports the value seen', key, where(f), show(x2)[:80])
                else:
                    c.undecided('exchange', key, where(f), show(s.ret)[:80])
    for f in fs.get(WA.split('::')[-1], []):
        if len(f['params']) == 1 and WA not in f['params'][0]['t']:
            e, ends = summaries(d, f)
            for s in ends:
                record(c, 'starts with the value given', short, where(f), same(e, s, e.read(s, ol, ot), param(f), '', None, 'value'))
