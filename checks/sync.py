"""Lock discipline over summarised member functions: which accesses to shared fields happen under the owner's lock, and
which changes of a waited-for condition are followed by a notification.

Events of a path (engine): lock/unlock M, rd/wr L ... locks-held, wait CV ..., notify CV kind."""
from same import *


def members(d, cls):
    return [f for f in d.fns.values() if f.get('clst') == cls and f.get('body') and not f.get('dep') and not f.get('lam') and in_repo(f)]


def fields_of(d, e, cls):
    r = {'mutex': [], 'cv': [], 'data': []}
    for f, _ in d.all_fields(cls):
        h = M.head(e.strip(f['t']))
        r['mutex' if h in M.MUTEXES else 'cv' if h in M.CVS else 'data'].append(f)
    return r


def kind(f):
    n = f['q'].split('::')[-1]
    c = M.head(f['clst']).split('::')[-1]
    return 'dtor' if n.startswith('~') else 'ctor' if n == c or n.split('<')[0] == c else 'fn'


def owners(d, f, cls):
    """objects of the class a member function works on: itself and reference parameters of the same class."""
    r = [THIS]
    for i, p in enumerate(f['params']):
        if p['t'].replace('const ', '').rstrip('& ') == cls:
            r.append(pd(f, i))
    return r


def label(f, o):
    return 'this' if o == THIS else 'parameter'


def guarded(c, e, d, cls, f, s, flds, rule='shared state is used under its lock', only=None):
    """every access to a shared field happens with that object's mutex held."""
    mx = flds['mutex'][0]['n']
    n = 0
    for o in owners(d, f, cls):
        if o == THIS and kind(f) in ('ctor', 'dtor'):
            continue
        ml = fld(o, mx)
        for x in s.eff:
            if x[0] not in ('rd', 'wr'):
                continue
            for g in flds['data']:
                if only is not None and g['n'] not in only:
                    continue
                if e.is_under(x[1], fld(o, g['n'])) or x[1] == fld(o, g['n']):
                    n += 1
                    held = x[-1] or ()
                    c.ob(ml in held, rule, f"{f['q'].split('::')[-1]}: {'read' if x[0] == 'rd' else 'write'} of {label(f, o)} {g['n']}", where(f), f'line {x[-2]}: the lock is not held')
    return n


def lock_balance(c, e, f, s):
    c.ob(not s.locks, 'locks are released on return', f['q'].split('::')[-1], where(f), f'{len(s.locks)} still held')
    c.ob(not any(x[0] == 'relock' for x in s.eff), 'no lock is taken twice', f['q'].split('::')[-1], where(f))


def notified_after(s, cv, ml, i):
    """kinds of notification on cv that come after the lock covering the write at event i was taken."""
    start = 0
    for j, x in enumerate(s.eff[:i]):
        if x[0] == 'lock' and x[1] == ml:
            start = j
    r = set()
    for x in s.eff[start:]:
        if x[0] == 'notify' and x[1] == cv:
            r.add(x[2][1])
    return r


def waits(s):
    return [x for x in s.eff if x[0] == 'wait']


def symbols(e, s, loc, upto=None):
    """the symbol standing for a shared field at event upto (default: the end): re-read at each acquisition of the lock."""
    cur = init(loc)
    for x in s.eff[:upto]:
        tag = x[3] if x[0] == 'lock' else x[5] if x[0] == 'wait' else None
        if tag is not None:
            cur = ('app', 'lk', ('i', tag), loc)
        elif x[0] == 'loop' and x[1].head.get(loc) is not None:
            cur = x[1].head[loc]
    return cur


def current(e, s, loc):
    v = s.mem.get(loc)
    while v is not None and v[0] == 'app' and v[1] in ('push', 'popf', 'popb', 'upd'):
        v = v[2]
    if v is not None and v[0] == 'app' and v[1] in ('lk', 'lv', 'init') and v[-1] == loc:
        return v
    return symbols(e, s, loc)


def bare_waits(s):
    """waits without a condition of their own: (state that blocks, symbol lookup for the state it blocks in)."""
    r = []
    for i, x in enumerate(s.eff):
        if x[0] == 'wait' and x[6] is False:
            r.append((s, i, None))
        elif x[0] == 'loop':
            for b in x[1].bodies:
                for j, y in enumerate(b.eff):
                    if y[0] == 'wait' and y[6] is False:
                        r.append((b, j, x[1]))
    return r


def at_wait(e, b, j, L, loc):
    if L is None:
        return symbols(e, b, loc, j)
    cur = L.head.get(loc)
    cur = cur if cur is not None else init(loc)
    for x in b.eff[:j]:
        tag = x[3] if x[0] == 'lock' else x[5] if x[0] == 'wait' else None
        if tag is not None:
            cur = ('app', 'lk', ('i', tag), loc)
    return cur


def flagged(e, s, v):
    t = e.truth(s, v)
    return t if t is not None else False if free(v) else None


def possible(e, s, conds):
    """some concrete state satisfies the path condition and all of conds ((condition term, wanted truth))."""
    work = [s]
    for c, v in conds:
        nxt = []
        for t in work:
            nxt += [u for u, x in e.branch(t.copy(), c) if bool(x) == v]
        work = nxt
    return work
