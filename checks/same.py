"""Is a computed value the same as a reference (input) value?  Three-valued, path by path.

The reference w is an uninterpreted input (or a projection of one); the computed value v is compared structurally
by its static type, each joined alternative under the facts of the paths it stands for."""
from common import *
from sai import models as M

OK = ('ok', '')
PURE = {'init', 'param', 'fld', 'select', 'size', 'count', 'index', 'engaged', 'iter', 'at', 'this', 'phi', 'eq', 'ge0', 'eq0', 'not',
        'more', 'absent', 'substr', 'has', 'mkey', 'mget', 'ne0', 'default', 'truth', 'strcmp', 'lv', 'same', 'cstr', 'mput', 'now', 'noise', 'page', 'node', 'filled', 'slack', 'strless'}


def pure(v):
    """built from inputs only: a difference from the reference is then a real one."""
    if not isinstance(v, tuple) or not v:
        return True
    if isinstance(v[0], tuple):
        return all(pure(x) for x in v)
    if v[0] == 'app' and v[1] not in PURE:
        return False
    return all(pure(x) for x in v[1:] if isinstance(x, tuple))


def clean(st):
    return all(pure(k) for k in st.facts.bools)


def top_cases(e, st, v):
    work, out = [(st, v)], []
    while work:
        s, x = work.pop()
        while x[0] == 'app' and x[1] == 'phi':
            y = e.settle_top(s, x)
            if y == x:
                break
            x = y
        if x[0] == 'app' and x[1] == 'phi':
            sid = x[2][1]
            vals = {}
            for i in e.allowed(s, sid):
                vals.setdefault(x[3 + i], []).append(i)
            for val, g in vals.items():
                s2 = e.restrict(s, sid, g)
                if s2 is not None:
                    work.append((s2, val))
            continue
        out.append((s, x))
    return out


def combine(rs):
    und = None
    for r in rs:
        if r[0] == 'bad':
            return r
        if r[0] == 'und' and und is None:
            und = r
    return und or OK


def same(e, st, v, w, t='', leaf=None, path=''):
    return combine(same1(e, s, x, w, t, leaf, path) for s, x in top_cases(e, st, v))


def bad(st, x, path, msg):
    # a path that only exists under conditions the domain does not track cannot refute
    if pure(x) and clean(st):
        return ('bad', f'{path or "value"}: {msg}')
    return ('und', f'{path or "value"}: {msg}')


def same1(e, s, x, w, t, leaf, path):
    if x == w:
        return OK
    if leaf is not None:
        r = leaf(e, s, x, w, t, path)
        if r is not None:
            return r
    t = e.strip(t or '')
    h = M.head(t)
    if h == 'std::optional':
        c = e.truth(s, ('app', 'engaged', w))
        if x[0] == 'nullopt':
            return OK if c is False else bad(s, x, path, 'absent although it was given')
        if x[0] == 'opt':
            if c is not True:
                return bad(s, x[1], path, 'present although it was absent')
            a = M.split_targs(t)
            return same(e, s, x[1], e.proj(s, w, '*', a[0] if a else None), a[0] if a else '', leaf, path + '.*')
        if c is False:
            r = e.truth(s, ('app', 'engaged', x))
            return OK if r is False else bad(s, x, path, 'may be present although it was absent')
        if c is True and e.truth(s, ('app', 'engaged', x)) is False:
            return bad(s, x, path, 'absent although it was given')
        return bad(s, x, path, f'{show(x)[:140]} instead of {show(w)[:100]}') if free(x) else ('und', f'{path}: {show(x)[:120]}')
    if h == 'std::variant' and x[0] == 'alt':
        a = M.split_targs(t)
        i = a.index(x[1]) if x[1] in a else x[1] if isinstance(x[1], int) else -1
        ix = M.alt_index(e, w, len(a))
        d = sub(ix, I(i))
        if not (s.facts.proves_ge0(d, e.ranges) and s.facts.proves_ge0(scale(d, -1), e.ranges)):
            return bad(s, x, path, f'holds alternative {a[i] if 0 <= i < len(a) else i} although it may be another')
        return same(e, s, x[2], e.proj(s, w, f'<{a[i]}>', a[i]), a[i], leaf, path + f'<{a[i]}>')
    r = e.rec_of(t) if t else None
    if r is not None and not r.get('union') and (x[0] == 'st' or (x[0] == 'app' and x[1] in ('with', 'init', 'fld', 'select'))):
        return combine(same(e, s, e.proj(s, x, f['n'], f['t']), e.proj(s, w, f['n'], f['t']), f['t'], leaf, f"{path}.{f['n']}")
                       for f, _ in e.db.all_fields(r['t']))
    if e.intlike(x) and (e.intlike(w) or w in e.ranges or w[0] == 'app'):
        d = sub(x, w)
        p1, p2 = s.facts.proves_ge0(d, e.ranges), s.facts.proves_ge0(scale(d, -1), e.ranges)
        if p1 and p2:
            return OK
        ok = False
        for g in (add(d, I(-1)), add(scale(d, -1), I(-1))):
            f = s.facts.copy()
            ok = ok or (f.add_ge0(g, e.ranges) and not f.infeasible(e.ranges))
        if not ok:
            return OK
        return bad(s, x, path, f'{show(x)[:100]} instead of {show(w)[:100]}')
    if const_str(x) == b'':
        z = e.csize(w)
        if s.facts.proves_ge0(scale(z, -1), e.ranges):
            return OK
        return bad(s, x, path, 'empty although it may not be')
    if x[0] == 'seq' and not x[1]:
        z = e.csize(w)
        if s.facts.proves_ge0(scale(z, -1), e.ranges):
            return OK
        return bad(s, x, path, 'empty although it may not be')
    if e.truth(s, e.cmp('==', x, w)) is True:
        return OK
    return bad(s, x, path, f'{show(x)[:140]} instead of {show(w)[:100]}')


class NotMapped(Exception):
    pass


def mapped(e, st, v, src):
    """v is the content of a container filled by one pass over the input container src, one element per element.
    returns [(state of an iteration, value pushed, the element it stands for)] or raises NotMapped / returns ('bad', why)."""
    if v == src:
        return 'copy'
    loops = [x[1] for x in st.eff if x[0] == 'loop']
    for L in loops:
        for k, sym in L.head.items():
            if sym != v:
                continue
            e0 = L.entry[k]
            if not (e0 == ('seq', ()) or e0 == ('app', 'absent')):
                raise NotMapped('filled from ' + show(e0)[:80])
            if L.leaves or L.breaks:
                raise NotMapped('the loop can be left early')
            out = []
            if L.kind == 'rfor':
                if L.container != src:
                    return ('bad', f'filled from {show(L.container)[:100]} instead of {show(src)[:100]}')
                idx = L.iter
            else:
                try:
                    idx = cursor_over(e, L, src)
                except Skips as x:
                    return ('bad', str(x))
            for b, m in zip(L.bodies, L.ends):
                x = m[k]
                work = top_cases(e, b, x)
                for s, y in work:
                    if y == sym:
                        if clean(s):
                            return ('bad', 'an element is left out')
                        raise NotMapped('an element may be left out')
                    if not (y[0] == 'app' and y[1] == 'push' and y[2] == sym):
                        raise NotMapped('not one element per element: ' + show(y)[:100])
                    out.append((s, y[3], ('app', 'select', src, idx)))
            return out
    raise NotMapped('no loop fills ' + show(v)[:100])


def cursor_over(e, L, src):
    """the loop-carried index that visits every position of src once, in order."""
    n = e.csize(src)
    why = 'no cursor runs over ' + show(src)[:100]
    for k, e0 in L.entry.items():
        if e0 is None or e0[0] != 'i':
            continue
        sym = L.head[k]
        if not all(m.get(k) is not None and sub(m[k], sym) == I(1) for m in L.ends):
            continue
        d = sub(sym, n)
        if not L.bodies or not all(x.facts.proves_ge0(sub(scale(d, -1), I(1)), e.ranges) for x in L.bodies):
            continue
        if e0[1] > 0:
            raise Skips(f'starts at element {e0[1]}')
        if e0[1] < 0:
            continue
        if all(x.facts.proves_ge0(d, e.ranges) for x in L.exits):
            return sym
        for x in L.exits:
            f = x.facts.copy()
            if f.add_ge0(sub(scale(d, -1), I(1)), e.ranges) and not f.infeasible(e.ranges) and clean(x) and \
                    all(set(lin_parts(l)[0]) <= {sym, n} for l in x.facts.lin if sym in lin_parts(l)[0]):
                raise Skips('stops before the last element')
    raise NotMapped(why)


class Skips(Exception):
    pass


def record(c, rule, key, w, r):
    """turn a same() verdict into an obligation."""
    c.ob(True if r[0] == 'ok' else False if r[0] == 'bad' else None, rule, key, w, r[1])


def free(v):
    """built from inputs that can take any value (no loop-carried symbol, nothing unmodelled)."""
    if not isinstance(v, tuple) or not v:
        return True
    if isinstance(v[0], tuple):
        return all(free(x) for x in v)
    if v[0] == 'app' and v[1] == 'logging' or v[:2] == ('app', 'un__extension__') and v[2][:2] == ('app', 'logging'):
        return True     # whether a line is logged: either
    if v[0] == 'app' and (v[1] not in PURE or v[1] in ('lv', 'iter')):
        return False
    if v[0] in ('lv',):
        return False
    return all(free(x) for x in v[1:] if isinstance(x, tuple))


def in_bounds(c, e, rule='element access in bounds'):
    """every element access of the summarised functions is inside the container; refuted when the index and the size are
    plain inputs and leaving the range is consistent with everything known on the path."""
    per = {}
    for x in e.bounds:
        per.setdefault((x[1], x[2]), []).append(x)
    n = {}
    for (fn, line), l in sorted(per.items(), key=repr):
        n[fn] = n.get(fn, 0) + 1
        key = f'{fn} access #{n[fn]}'
        miss = [x for x in l if not x[0]]
        if not miss:
            c.hold(rule, key, f'line {line}', f'{len(l)} abstract accesses')
            continue
        bad_ = None
        for _, _, _, idx, size, fs in miss:
            if not (free(idx) and free(size) and all(free(k) for k in fs.bools) and all(free(a) for q in fs.lin for a in lin_parts(q)[0])):
                continue
            for g in (sub(idx, size), sub(I(-1), idx)):
                f = fs.copy()
                if f.add_ge0(g, e.ranges) and not f.infeasible(e.ranges):
                    bad_ = (idx, size)
        c.ob(False if bad_ else None, rule, key, f'line {line}', 'index {} of {}'.format(*(show(y)[:100] for y in (bad_ or miss[0][3:5]))))


def loops(st):
    return [x[1] for x in st.eff if x[0] == 'loop']


def replaced(v, a, b):
    if v == a:
        return b
    if not isinstance(v, tuple):
        return v
    if v and v[0] == 'lin':
        r = I(v[2])
        for t, k in v[1]:
            r = add(r, scale(replaced(t, a, b), k))
        return r
    return tuple(replaced(x, a, b) for x in v)


def selected_from(v, out):
    """containers indexed somewhere inside v."""
    if isinstance(v, tuple):
        if len(v) == 4 and v[:2] == ('app', 'select'):
            out.add(v[2])
        for x in v:
            selected_from(x, out)
    return out


def domain(e, L, vals):
    if L.kind == 'rfor':
        return L.container, L.iter
    for src in sorted(selected_from(tuple(vals), set()), key=repr):
        try:
            return src, cursor_over(e, L, src)
        except NotMapped:
            continue
    raise NotMapped('no cursor found')


def comp(e, st, v, level=0):
    """v as a list comprehension: (start, ((domain, variable)...), term): start ++ [term | variables over domains], the
    variables renamed $0, $1...; start alone when nothing is added.  A loop updating each element in place becomes a
    comprehension over the old elements."""
    for L in loops(st):
        for k, sym in L.head.items():
            if sym != v:
                continue
            if L.leaves or L.breaks:
                raise Skips('the loop can be left early')
            alts = [(s, y) for b, m in zip(L.bodies, L.ends) for s, y in top_cases(e, b, m[k])]
            add_ = [(s, y) for s, y in alts if y != sym]
            if not add_:
                return (L.entry[k], (), None)
            dom, var = domain(e, L, [y for _, y in add_])
            me = ('app', '$', ('i', level))
            forms = set()
            for s, y in add_:
                if y[0] == 'app' and y[1] == 'push' and y[2] == sym:
                    forms.add((L.entry[k], ((dom, me),), replaced(y[3], var, me)))
                elif y[0] == 'app' and y[1] == 'upd' and y[2] == sym and y[3] == var and dom == L.entry[k]:
                    forms.add((('seq', ()), ((dom, me),), replaced(replaced(y[4], sym, dom), var, me)))
                else:
                    a, gens, t = comp(e, s, y, level + 1)
                    if a != sym or t is None:
                        raise NotMapped(show(y)[:100])
                    forms.add((L.entry[k], ((dom, me),) + tuple((replaced(g, var, me), w) for g, w in gens), replaced(t, var, me)))
            if len(add_) != len(alts):
                if all(clean(s) for s, y in alts if y == sym):
                    raise Skips('an element is left out')
                raise NotMapped('an element may be left out')
            if len(forms) != 1:
                raise NotMapped(f'{len(forms)} ways of adding')
            return forms.pop()
    return (v, (), None)
