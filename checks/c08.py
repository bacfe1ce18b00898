"""C08: text helpers - trimming, prefix test, base file name."""
import itertools
from sai import db, engine
from sai.check import where
from sai.terms import *
from sai.transducer import *
from utf8spec import ID
from common import probe
from same import replaced
import scans

TU = ['src/jogasaki/utils/string_utils.cpp', 'src/jogasaki/utils/string_manipulation.cpp']
HDR = probe('headers.cpp')
FINISH = dict(floor=0.2, minimum=2, explanation='each helper is analysed (a) inductively: the loop step and the loop exits are compared with the definition on an arbitrary string, '
              'and (b) per input length with unrolled loops on the partition of the bytes induced by the end states')
BLANK = 1 << 32


def piece(a, b):
    return ('out', [('b', j, ID) for j in range(a, b)])


def rtrim(n, b):
    k = n
    while k and b[k - 1] == 32:
        k -= 1
    return piece(0, k)


def ltrim(n, b):
    k = 0
    while k < n and b[k] == 32:
        k += 1
    return piece(k, n)


def run(c):
    d = db.load(TU + [HDR])
    c.units |= set(TU) | {'probes/headers.cpp'}
    for n, sp in (('rtrim', rtrim), ('ltrim', ltrim)):
        for f in d.find('jogasaki::utils::' + n):
            c.part(n, scans.unrolled, c, d, f, range(0, 7 if c.tier == 'quick' else 11), sp, [BLANK], 'trims exactly the blanks', n)
            c.part(n + ' step', trim_step, c, d, f, n)
    for f in d.find('jogasaki::utils::is_prefix'):
        c.part('is_prefix', prefix, c, d, f, 4 if c.tier == 'quick' else 7)
        c.part('is_prefix step', prefix_step, c, d, f)
    for f in d.find('jogasaki::utils::basename_start'):
        c.part('basename_start', basename, c, d, f)


def trim_step(c, d, f, n):
    """arbitrary length: one step removes one blank at the right end, and the scan ends only at a non-blank or with nothing left."""
    e = engine.Engine(d)
    S = ('app', 'param', ('n', f['params'][0]['n']))
    rs = e.run(f)
    c.analysed(e)
    w = where(f)
    rule = 'step on an arbitrary string'
    bounds_obs(c, e)
    ls = find_loops(rs)
    r = rs[0].ret
    if len(ls) != 1 or any(s.ret != r for s in rs) or r[0] != 'app' or r[1] != 'substr' or r[2] != S:
        c.undecided(rule, n, w, 'not a loop over a shrinking view')
        return
    L, P, N = ls[0], r[3], r[4]
    if L.leaves or not L.head:
        c.undecided(rule, n, w, 'not a loop over a shrinking view')
        return

    def under(v, m):
        for k, sym in L.head.items():
            v = replaced(v, sym, m[k])
        return v
    c.ob(True if (under(P, L.entry), under(N, L.entry)) == (ZERO, slen(S)) else None, rule, n + ' start', w)
    pos = add(P, sub(N, I(1))) if n == 'rtrim' else P
    goal = (P, sub(N, I(1))) if n == 'rtrim' else (add(P, I(1)), sub(N, I(1)))
    for b, m in zip(L.bodies, L.ends):
        c.ob(True if (under(P, m), under(N, m)) == goal and b.facts.bytes.get(at(S, pos)) == BLANK else None, rule, n + ' continues', w,
             f'{show(under(P, m))} {show(under(N, m))}')
    for x in list(L.exits) + list(L.breaks):
        done = e.truth(x, e.cmp('==', N, ZERO)) is True or x.facts.bytes.get(at(S, pos), ALL) & BLANK == 0
        if not done:
            f2 = x.facts.copy()
            done = not f2.add_ge0(sub(N, I(1)), e.ranges) or f2.infeasible(e.ranges)
        c.ob(True if done else None, rule, n + ' ends', w)


def concrete(e, st, env):
    """does the end state admit this input?  None: it carries facts that cannot be evaluated."""
    unk = False
    for l in st.facts.lin:
        try:
            if ev(l, env) < 0:
                return False
        except (NotTransducer, KeyError):
            unk = True
    for l in st.facts.neq:
        try:
            if ev(l, env) == 0:
                return False
        except (NotTransducer, KeyError):
            unk = True
    for a, m in st.facts.bytes.items():
        if a not in env:
            unk = True
        elif not m >> env[a] & 1:
            return False
    for t, val in st.facts.bools.items():
        try:
            if bool(ev(t, env)) != bool(val):
                return False
        except (NotTransducer, KeyError, TypeError):
            unk = True
    return None if unk else True


def prefix(c, d, f, top):
    w = where(f)
    T, P = ('app', 'param', ('n', 'T')), ('app', 'param', ('n', 'P'))
    bad = und = None
    k = 0
    for n, m in itertools.product(range(top + 1), repeat=2):
        e = engine.Engine(d, fork=600)
        rs = e.run(f, args=[scans.text(n, T), scans.text(m, P)])
        c.analysed(e)
        both = min(n, m)
        for x, y in ((0x61, 0x41), (0x00, 0x80), (0xff, 0x20), (0x61, 0x00)):
            for eq in itertools.product((True, False), repeat=both):
                env = {at(T, I(i)): x for i in range(n)}
                env.update({at(P, I(i)): x if i >= both or eq[i] else y for i in range(m)})
                k += 1
                want = int(m <= n and all(eq))
                for s in rs:
                    h = concrete(e, s, env)
                    if h is False:
                        continue
                    try:
                        got = ev(s.ret, env) if s.ctrl is None else None
                    except (NotTransducer, KeyError, TypeError):
                        got = None
                    if got != want:
                        msg = f'result {show(s.ret) if s.ctrl is None else s.ctrl[0]} instead of {want} for a target of {n} and a prefix of {m} bytes, equal at {[i for i in range(both) if eq[i]]}'
                        if h and (got is not None or s.ctrl is not None):
                            bad = bad or msg
                        else:
                            und = und or msg
        for ok, fn, line, idx, size, facts in e.bounds:
            if not ok:
                und = und or f'index {show(idx)[:60]} not bounded'
                if idx[0] == 'i' and size[0] == 'i' and not facts.bools:
                    bad = bad or f'reads element {idx[1]} of {size[1]}'
    rule = 'true exactly when every byte of the prefix is there'
    if bad:
        c.fail(rule, 'is_prefix', w, bad)
    elif und:
        c.undecided(rule, 'is_prefix', w, und)
    else:
        c.hold(rule, 'is_prefix', w, f'lengths up to {top}, {k} comparisons')


def prefix_step(c, d, f):
    e = engine.Engine(d)
    T, P = (('app', 'param', ('n', p['n'])) for p in f['params'])
    rs = e.run(f)
    c.analysed(e)
    w = where(f)
    rule = 'step on arbitrary strings'
    bounds_obs(c, e)
    ls = find_loops(rs)
    if len(ls) != 1 or len(ls[0].head) != 1 or ls[0].breaks or any(s.ret[0] != 'i' for s in rs if s.ctrl is None):
        c.undecided(rule, 'is_prefix', w, 'not one loop with one cursor')
        return
    L = ls[0]
    k, i = next(iter(L.head.items()))

    def decided(s, g):
        f2 = s.facts.copy()
        return not f2.add_ge0(g, e.ranges) or f2.infeasible(e.ranges)

    def same(s):
        a, b = byte_of(at(T, i), True), byte_of(at(P, i), True)
        x = e.truth(s, e.cmp('==', a, b))
        return x
    c.ob(True if L.entry[k] == ZERO else None, rule, 'start', w)
    for b, m in zip(L.bodies, L.ends):
        c.ob(True if sub(m[k], i) == I(1) and same(b) is True else None, rule, 'continues on equal bytes', w)
    for b in L.leaves:
        c.ob(True if b.ret == FALSE and same(b) is False else None, rule, 'refuses on a different byte', w)
    for s in rs:
        if s.ctrl is None and s.ret == TRUE:
            # every position of the prefix was compared, and the prefix is not longer
            passed = decided(s, sub(sub(slen(P), i), I(1)))
            fits = decided(s, sub(sub(slen(P), slen(T)), I(1)))
            seen = any(x[0] == 'loop' for x in s.eff)
            if not seen:
                k = len({a for l in s.facts.lin for a in lin_parts(l)[0] if a[0] == 'btab'})
                f2 = s.facts.copy()
                more = f2.add_ge0(sub(slen(P), I(k // 2 + 1)), e.ranges) and not f2.infeasible(e.ranges)
                whole = any(t[0] == 'app' for t in s.facts.bools) or s.facts.bytes
                c.ob(None if whole else False if more else True, rule, 'accepts only after comparing the whole prefix', w, f'{k // 2} bytes compared')
            if seen:
                nocond = set(a for l in s.facts.lin for a in lin_parts(l)[0]) <= {i, slen(P), slen(T)} and not s.facts.bools
                c.ob(True if passed and fits else False if nocond and not passed else None, rule, 'accepts at the end of the prefix', w, 'accepted with a part of the prefix not compared')


def basename(c, d, f):
    e = engine.Engine(d)
    p = ('app', 'param', ('n', f['params'][0]['n']))
    rs = e.run(f)
    c.analysed(e)
    w = where(f)
    rule = 'starts after the last separator'
    call = ('app', 'call:strrchr', p, I(ord('/')))
    for s in rs:
        r = s.ret
        if s.ctrl is not None:
            c.fail(rule, 'basename_start', w, s.ctrl[0])
            continue
        calls = [t for t in walk((r,) + tuple(s.facts.bools)) if t[0] == 'app' and str(t[1]).startswith('call:')]
        if any(x != call for x in calls) or not calls:
            known = all(x[1] in ('call:strrchr', 'call:strchr') for x in calls) and calls
            c.ob(False if known else None, rule, 'basename_start', w, 'looks for ' + ', '.join(show(x) for x in calls)[:160])
            continue
        none = e.truth(s, ('app', 'eq', call, ('null',)))
        r = untrunc(r)
        want = ZERO if none else add(sub(call, p), I(1))
        c.ob(None if none is None else True if r == want else False if all(t == p or t == call for t in lin_parts(r)[0]) else None,
             rule, 'with separator' if none is False else 'without separator', w, show(r)[:120])


def untrunc(v):
    if isinstance(v, tuple) and len(v) > 2 and v[0] == 'app' and v[1] == 'trunc':
        return untrunc(v[2])
    if v[0] == 'lin':
        r = I(v[2])
        for a, k in v[1]:
            r = add(r, scale(untrunc(a), k))
        return r
    return v


def walk(v):
    if isinstance(v, tuple):
        if v and isinstance(v[0], str):
            yield v
        for x in v:
            yield from walk(x)
