"""Contract probes: functions over symbolic arguments (never compiled or run) whose result has to be true on every
path.  Every path through the analysed code is summarised; a path on which the result is false under conditions on
the arguments alone is a violation."""
from fractions import Fraction
import struct
from math import gcd
from common import *
from sai import engine, facts
from sai.check import where
from sai.terms import *
from sai.transducer import NotTransducer, ev
from same import free, pure


def relaxed(v, m):
    """the linear form a sum of (nested) divisions by constants approaches as its inputs are scaled up: {atom: factor}."""
    d, k = lin_parts(v)
    r = {}
    for t, c in d.items():
        while t[0] == 'app' and t[1] in ('trunc', 'sext', 'zext'):
            t = t[2]
        if t[0] == 'lin':
            sub = relaxed(t, m * c)
        elif t[0] == 'app' and t[1] == '/' and t[3][0] == 'i' and t[3][1] > 0:
            sub = relaxed(t[2], m * c / t[3][1])
        elif free(t):
            sub = {t: m * c}
        else:
            return None
        if sub is None:
            return None
        for a, x in sub.items():
            r[a] = r.get(a, 0) + x
    return {a: x for a, x in r.items() if x}


def scaled(v):
    """the relaxed form with integer factors, or None (not a sum of quotients, or zero)."""
    r = relaxed(v, Fraction(1))
    if not r:
        return None
    n = 1
    for x in r.values():
        n = n * x.denominator // gcd(n, x.denominator)
    return mk_lin({a: int(x * n) for a, x in r.items()}, 0)


def quotients_apart(e, st):
    """facts about sums of quotients hold for scaled-up inputs: their relaxed forms are jointly possible.  None: other facts are not about inputs."""
    t = st.copy()
    f = t.facts
    add = []
    for k, v in list(f.bools.items()):
        if not free(k) and k[0] == 'app' and k[1] == 'eq0' and not v:
            add.append((False, scaled(k[2])))
            del f.bools[k]
    add += [(True, scaled(L)) for L in f.lin if not free(L)] + [(False, scaled(L)) for L in f.neq if not free(L)]
    for k, (p, x) in list(f.sets.items()):
        if not free(k):
            add.append((False, scaled(k) if not p else None))
            del f.sets[k]
    if not add:
        return st
    f.lin, f.neq = tuple(L for L in f.lin if free(L)), tuple(L for L in f.neq if free(L))
    if any(x is None for _, x in add):
        return None
    for ge, x in add:
        b = [s for s, v in e.branch(t, e.cmp('<', ZERO, x) if ge else e.cmp('==', x, ZERO)) if v == ge]
        if not b:
            return None
        t = b[0]
    return t


def relaxable(v):
    return v[0] == 'app' and (v[1] == 'not' and relaxable(v[2]) or v[1] == 'eq0' and bool(relaxed(v[2], Fraction(1))))


def remainders(v, found=()):
    """remainders of inputs inside a term."""
    if isinstance(v, tuple) and v:
        if v[0] == 'app' and v[1] == '%':
            return remainders(v[2]) | remainders(v[3]) | {v}
        return set().union(*(remainders(x) for x in v if isinstance(x, tuple)))
    return set()


def swapped(v, m):
    if v in m:
        return m[v]
    if not isinstance(v, tuple):
        return v
    if v and v[0] == 'lin':
        d, k = lin_parts(v)
        r = I(k)
        for a, c in d.items():
            r = add(r, scale(swapped(a, m), c))
        return r
    return tuple(swapped(x, m) for x in v)


def without_remainders(e, st):
    """the state for some divisors and remainders that go together, or None."""
    f = st.facts
    rs = set().union(*map(remainders, f.lin + f.neq + tuple(f.bools) + tuple(f.sets)))
    if not rs:
        return st
    ds = sorted({r[3] for r in rs}, key=repr)
    if any(d[0] != 'i' and not (d[0] == 'app' and d[1] == 'param') for d in ds):
        return None
    for one in (None, *ds):
        for n, left in ([(1, 0)] if one is None else [(8, 0), (8, 1), (8, 7), (4096, 1)]):
            m = {d: I(1) if d != one else I(n) for d in ds if d[0] != 'i'}
            for r in sorted(rs, key=lambda r: (len(repr(r)), repr(r))):
                k = I(left) if r[3] == one else ZERO
                m[r] = k
            # the terms with the choice made, smaller remainders first
            t = st.copy()
            g = t.facts
            g.lin, g.neq, g.sets, g.bools = (), (), {}, {}
            for v, val in f.bools.items():
                if not remainders(v):
                    g.bools[v] = val
            for v, val in f.sets.items():
                if not remainders(v) and v not in m:
                    g.sets[v] = val
                elif m.get(v, ('?',))[0] == 'i' and (m[v][1] in val[1]) != val[0]:
                    g.lin += (I(-1),)
            g.lin += tuple(swapped(v, m) for v in f.lin)
            g.neq += tuple(swapped(v, m) for v in f.neq)
            if any(v == ZERO for v in g.neq) or any(v[0] == 'i' and v[1] < 0 for v in g.lin) or g.infeasible(e.ranges):
                continue
            return t
    return None


def of_bytes(v):
    return isinstance(v, tuple) and (v[:2] == ('app', 'inbyte') or v[:2] == ('app', 'bit') or any(of_bytes(x) for x in v))


def number(v, env):
    """the value of a term over bytes that are given."""
    if v[0] == 'f':
        return float(v[1])
    if v[:2] == ('app', 'float_of'):
        n = number(v[2], env)
        return struct.unpack('<d', struct.pack('<Q', n))[0] if of_width(v[2]) > 32 else struct.unpack('<f', struct.pack('<I', n))[0]
    if v[0] == 'app':
        op, a = v[1], v[2:]
        if op == 'isnan':
            return number(a[0], env) != number(a[0], env)
        if op in ('f==', 'eq'):
            return number(a[0], env) == number(a[1], env)
        if op == 'f!=':
            return number(a[0], env) != number(a[1], env)
        if op == 'not':
            return not number(a[0], env)
        if op == 'eq0':
            return number(a[0], env) == 0
        if op == 'cmpv':
            return COMPARED[a[0]](number(a[1], env), number(a[2], env))
    return ev(v, env)


COMPARED = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}


def of_width(v):
    return len(v[1]) if v[0] == 'bvec' else 0


def given_bytes():
    """bytes tried as a witness: the same everywhere, one that differs, and some of every kind."""
    for x in (0, 1, 0xff, 0x80, 0x7f, 0x41, 0x20):
        yield lambda i: x
    for k in range(8):
        for x in (1, 0x80, 0xff, 0xc0, 0x7f):
            yield lambda i: x if i == k else 0
            yield lambda i: x if i == k else 0xff
    for k in (1, 3, 7, 29, 101):
        yield lambda i: (37 * k + 89 * k * (i + 1) + i * i * 7) & 255


def with_bytes(e, st):
    """the state for some bytes of the input that satisfy all that is known about them; None when none is found."""
    f = st.facts
    if not any(of_bytes(k) for k in (*f.bools, *f.sets, *f.lin, *f.neq, *f.bytes)):
        return st
    for at in given_bytes():
        env = {('app', 'inbyte', I(i)): at(i) for i in range(8)}
        try:
            if all(bool(number(k, env)) == v for k, v in f.bools.items() if of_bytes(k)) \
                    and all((number(k, env) in x) == p for k, (p, x) in f.sets.items() if of_bytes(k)) \
                    and all(number(x, env) >= 0 for x in f.lin if of_bytes(x)) and all(number(x, env) != 0 for x in f.neq if of_bytes(x)) \
                    and all(m >> (number(k, env) & 255) & 1 for k, m in f.bytes.items() if of_bytes(k)):
                break
        except (NotTransducer, KeyError, TypeError):
            return None
    else:
        return None
    t = st.copy()
    g = t.facts
    g.bools = {k: v for k, v in f.bools.items() if not of_bytes(k)}
    g.sets = {k: v for k, v in f.sets.items() if not of_bytes(k)}
    g.lin, g.neq = tuple(x for x in f.lin if not of_bytes(x)), tuple(x for x in f.neq if not of_bytes(x))
    g.bytes = {k: v for k, v in f.bytes.items() if not of_bytes(k)}
    return t


def definite(st, e):
    st = with_bytes(e, st)
    if st is None:
        return False
    st = without_remainders(e, st)
    if st is None:
        return False
    st = quotients_apart(e, st)
    if st is None:
        return False
    f = st.facts
    if f.infeasible(e.ranges):
        return False
    for k in f.bools:
        if not free(k) or k[0] == 'app' and k[1] == 'eq' and {k[2][0], k[3][0]} == {'ptr', 'str'}:
            return False
    for k in f.sets:
        if not free(k):
            return False
    for L in f.lin + f.neq:
        if not free(L):
            return False
    for a in f.bytes:
        if not free(a):
            return False
    return not any(x[0] in ('maythrow', 'loop') for x in st.eff)


def verdicts(e, rs, may=()):
    """(ok, bad, und) messages over the end states of a contract."""
    bad = und = None
    n = 0
    for q, line, s in e.endless:
        if definite(s, e):
            bad = bad or f'does not come to an end: loop in line {line} of {q}' + cond(s)
    if not rs:
        und = 'no path comes to an end'
    for s in rs:
        n += 1
        if (s.ctrl is not None or s.ret != TRUE) and s.facts.infeasible(e.ranges):
            continue
        if s.ctrl is not None:
            kind = s.ctrl[0]
            if kind in may:
                continue
            msg = f'ends with {kind}'
            if kind == 'throw' and len(s.ctrl) > 4:
                msg += f' ({s.ctrl[2]} in {s.ctrl[4]})'
            if definite(s, e):
                bad = bad or msg + cond(s)
            else:
                und = und or msg + cond(s)
            continue
        if any(x[0] == 'nullderef' for x in s.eff):
            if definite(s, e):
                bad = bad or 'uses a null pointer' + cond(s)
            else:
                und = und or 'may use a null pointer' + cond(s)
            continue
        if s.ret == TRUE:
            continue
        if s.ret is None:
            und = und or 'no result'
            continue
        try:
            br = e.branch(s.copy(), e.to_bool(s.ret))
        except engine.Undecided as x:
            und = und or str(x)
            continue
        for t, v in br:
            if v or t.facts.infeasible(e.ranges):
                continue
            if definite(t, e) and (free(swapped(s.ret, dict.fromkeys(remainders(s.ret), ZERO))) or s.ret in t.facts.bools or relaxable(s.ret) or of_bytes(s.ret)):
                bad = bad or 'does not hold' + cond(t)
            else:
                und = und or f'not shown: {show(s.ret)[:120]}' + cond(t)
    return n, bad, und


def cond(s):
    out = []
    for k, v in s.facts.bools.items():
        out.append(('' if v else 'not ') + show(k)[:70])
    for k, (p, x) in s.facts.sets.items():
        out.append(f'{show(k)[:50]} {"in" if p else "not in"} {sorted(map(repr, x))[:4]}'[:90])
    for L in s.facts.lin[-3:]:
        out.append(show(L)[:60] + '>=0')
    return (' when ' + ', '.join(out[:6])) if out else ''


def run_contracts(c, d, ns, setup=None, engine_opts=None, throws=(), args=None):
    """every function of namespace probe::<ns>; `throws`: names of contracts that may end with an exception."""
    found = 0
    for f in list(d.fns.values()):
        if not f['q'].startswith(f'probe::{ns}::') or not f.get('body') or (f.get('ret') or '') not in ('bool', '_Bool') or 'operator()' in f['q']:
            continue
        found += 1
        name = f['q'].split('::')[-1]
        c.part(name, one, c, d, f, name, setup, engine_opts or {}, throws, args)
    return found


def identical(e, st, fr, n, base, vs):
    """probe::identical(a, b): the two objects have the same value."""
    a, b = (e.read(st, v[1]) if v[0] == 'ptr' else v for v in vs)
    return [(st, e.cmp('==', a, b))]


def one(c, d, f, name, setup, opts, throws, args):
    rule = name.replace('_', ' ')
    opts = dict(opts, hooks={'probe::identical': identical, **opts.get('hooks', {})})
    for limit in (None, 64, 256):
        e = engine.Engine(d, **(dict(opts, join_limit=limit) if limit else opts))
        st = setup(f) if setup else None
        a = args(f) if args else None
        facts.join_all.lossy = 0
        rs = e.run(f, setup=st, args=a) if a is not None else e.run(f, setup=st)
        n, bad, und = verdicts(e, rs, ('throw',) if name in throws else ())
        # what was refuted after path information was given up is tried again with more of it
        if not bad or not facts.join_all.lossy:
            break
    else:
        bad, und = None, 'too many paths to tell: ' + bad
    c.analysed(e)
    (c.fail if bad else c.undecided if und else c.hold)('contract', rule, anchor(d, e, f), bad or und or f'{n} paths')


def anchor(d, e, f):
    """the analysed function of the repository the contract is about (the last one entered)."""
    fs = [d.fns[k] for k in e.visited_fns if k in d.fns and in_repo(d.fns[k])] if hasattr(e, 'visited_fns') else []
    return where(fs[0]) if fs else where(f)
