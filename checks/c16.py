"""C16: argument patterns are the product of the alternative groups, in declaration order."""
from same import *

FINISH = dict(floor=0.2, minimum=2, explanation='the loops that build the patterns are summarised as inductive transitions; each kind of column (plain, first of its group, later of its group) is '
              'compared with the product construction, written as list comprehensions over the patterns so far and the members of the group')
Q = 'plugin::udf::record_descriptor_impl::'
TUS = ['src/jogasaki/udf/descriptor_impl.cpp']
D = ('app', '$', ('i', 0))
D1 = ('app', '$', ('i', 1))


def run(c):
    d = db.load(TUS)
    c.units |= set(d.tus)
    fs = d.find(Q + 'build_argument_patterns')
    if not fs:
        raise db.AnalysisBroken('build_argument_patterns not found')
    c.part('patterns', patterns, c, d, fs[0])
    c.part('record', record_, c, d)


def call_(m, col):
    return ('app', 'call:plugin::udf::column_descriptor::' + m, ('ptr', ('d', col)))


class Col:
    def __init__(self, e, col):
        self.e, self.col = e, col
        self.key = ('app', 'fld', call_('oneof_index', col), ('n', '*'))

    def grouped(self, s):
        for t in (call_('has_oneof', self.col), ('app', 'engaged', call_('oneof_index', self.col))):
            r = self.e.truth(s, t)
            if r is not None:
                return r
        return None


def col_of(L, cols):
    if L.kind == 'rfor':
        return ('app', 'select', cols, L.iter) if L.container == cols else None
    return None


def patterns(c, d, f):
    e = engine.Engine(d)
    cols = init(pd(f)) if f['params'][0]['t'].rstrip().endswith('&') else param(f)
    ends = e.run(f)
    c.analysed(e)
    w = where(f)
    for s in ends:
        if s.ctrl is not None:
            if not absent(s):
                c.fail('the patterns are built', 'ends normally', w, s.ctrl[0])
            continue
        ls = loops(s)
        main = [(L, k) for L in ls for k, sym in L.head.items() if sym == s.ret]
        if len(main) != 1:
            bad = s.ret[0] == 'seq' and (not s.ret[1] or not ls)
            c.ob(False if bad else None, 'the patterns are built', 'result', w, f'the result is always {show(s.ret)[:80]}')
            continue
        L, k = main[0]
        P = L.head[k]
        start = L.entry[k]
        c.ob(True if start == ('seq', (('seq', ()),)) else False if start[0] == 'seq' else None, 'starts from one empty pattern', 'start', w, show(start)[:100])
        if L.breaks or any(not absent(x) for x in L.leaves):
            c.fail('every column is considered', 'loop', w, 'the loop over the columns can be left early')
        if L.kind == 'rfor':
            idx = L.iter
            c.ob(True if L.container == cols else None, 'every column is considered', 'loop', w, show(L.container)[:100])
        else:
            try:
                idx = cursor_over(e, L, cols)
                c.hold('every column is considered', 'loop', w)
            except Skips as x:
                c.fail('every column is considered', 'loop', w, str(x))
                continue
        col = Col(e, ('app', 'select', cols, idx))
        members(c, d, e, s, ls, L, cols, w)
        step(c, e, L, k, P, col, w, ls, cols)


def members(c, d, e, s, ls, main, cols, w):
    """the groups: every column of a group is appended to its own group, in order."""
    for L in ls:
        if L is main:
            continue
        for k, sym in L.head.items():
            if not any(m.get(k) is not None and m[k][0] == 'app' and m[k][1] == 'mput' for m in L.ends):
                continue
            if L.leaves or L.breaks:
                c.fail('groups hold all their members', 'loop', w, 'the loop over the columns can be left early')
            try:
                dom, idx = domain(e, L, [m[k] for m in L.ends])
            except NotMapped as x:
                c.undecided('groups hold all their members', 'loop', w, str(x))
                continue
            if dom != cols:
                c.undecided('groups hold all their members', 'loop', w, show(dom)[:80])
                continue
            col = Col(e, ('app', 'select', cols, idx))
            c.ob(True if L.entry[k] == ('seq', ()) or L.entry[k][0] in ('map', 'seq') and not L.entry[k][1] else None, 'groups hold all their members', 'start', w, show(L.entry[k])[:80])
            for b, m in zip(L.bodies, L.ends):
                for t, y in top_cases(e, b, m[k]):
                    g = col.grouped(t)
                    key = 'grouped column' if g else 'plain column'
                    if g is None:
                        c.undecided('groups hold all their members', key, w, 'kind of column not known')
                    elif not g:
                        c.ob(True if y == sym else False if clean_calls(t) else None, 'groups hold all their members', key, w, 'a plain column joins a group')
                    else:
                        ok = False
                        if y[0] == 'app' and y[1] == 'mput' and y[2] == sym:
                            old = ('app', 'mget', sym, y[3])
                            has = e.truth(t, ('app', 'has', sym, y[3]))
                            new = y[4]
                            right = new == ('app', 'push', old, col.col) if has is not False else new == ('seq', (col.col,))
                            ok = y[3] == col.key and right
                        c.ob(True if ok else False if y == sym and clean_calls(t) or y[0] == 'app' and y[1] == 'mput' and pure_calls(y) else None,
                             'groups hold all their members', key, w, show(y)[:140])


def pure_calls(v):
    if not isinstance(v, tuple) or not v:
        return True
    if v[0] == 'app' and v[1] not in PURE and v[1] not in ('mput', 'push', 'upd', 'cat', '$') and not str(v[1]).startswith('call:plugin::udf::column_descriptor::'):
        return False
    return all(pure_calls(x) for x in v[1:] if isinstance(x, tuple))


def clean_calls(s):
    return all(pure_calls(x) for x in s.facts.bools)


def step(c, e, L, k, P, col, w, ls, cols):
    seen = set()
    for b, m in zip(L.bodies, L.ends):
        for s, y in top_cases(e, b, m[k]):
            g = col.grouped(s)
            if g is None:
                c.undecided('a column extends the patterns', 'column', w, 'kind of column not known')
                continue
            try:
                a, gens, t = comp(e, s, y)
            except Skips as x:
                c.fail('a column extends the patterns', 'grouped' if g else 'plain', w, str(x))
                continue
            except NotMapped as x:
                c.undecided('a column extends the patterns', 'grouped' if g else 'plain', w, str(x))
                continue
            if not g:
                seen.add('plain')
                good = a == ('seq', ()) and gens == ((P, D),) and t == ('app', 'push', ('app', 'select', P, D), col.col)
                c.ob(True if good else False if pure_calls(y) or pure_calls((a, gens, t)) else None, 'a column extends the patterns', 'plain', w, f'{show(y)[:80]} {str(gens)[:60]}')
                continue
            # a column of a group: the first multiplies the patterns, the others change nothing
            sets = state_sets(e, L, k, col)
            known = None
            for ks in sets:
                h = e.truth(s, ('app', 'has', L.head[ks], col.key))
                if h is True:
                    mg = e.truth(s, ('app', 'mget', L.head[ks], col.key))
                    h = mg if mg is not None else True if ismark(L, ks) else None
                known = h if h is not None else known
            grp = group_of(e, s, L, ls, col)
            if grp is not None and missing(e, s, grp, col):
                continue            # every grouped column is in its group
            first = product(a, gens, t, P, grp)
            if t is None and a == P:
                seen.add('later')
                c.ob(True if known else False if known is False and clean_calls(s) or (not sets and clean_calls(s)) else None, 'a group is expanded once', 'later member', w,
                     'the first member of a group is passed over')
            elif first:
                seen.add('first')
                c.hold('a column extends the patterns', 'first of its group', w)
                if not sets:
                    c.fail('a group is expanded once', 'first member', w, 'nothing tells the first member of a group from the others') if clean_calls(s) else c.undecided('a group is expanded once', 'first member', w)
                elif known is not False:
                    c.ob(False if clean_calls(s) and (known or not mentions(s, [L.head[x] for x in sets])) else None, 'a group is expanded once', 'first member', w, 'a group already expanded is expanded again')
                else:
                    marked = any(marks(e, s, m[ks], L.head[ks], col) for ks in sets)
                    c.ob(True if marked else False, 'a group is expanded once', 'first member', w, 'the group is not remembered as expanded')
            else:
                c.ob(False if pure_calls((a, gens, t)) else None, 'a column extends the patterns', 'first of its group', w, f'{show(a)[:60]} {show(t)[:120] if t else ""}')
    for x in ('plain', 'first', 'later'):
        if x not in seen:
            c.undecided('every kind of column is handled', x, w)
        else:
            c.hold('every kind of column is handled', x, w)


def state_sets(e, L, k, col):
    """loop-carried containers remembering groups already expanded."""
    r = []
    for ks, sym in L.head.items():
        if ks == k:
            continue
        if any(m.get(ks) is not None and m[ks] != sym and m[ks][0] == 'app' and m[ks][1] in ('mput', 'sput', 'sadd', 'insert', 'add') for m in L.ends) and \
                L.entry[ks] is not None and L.entry[ks][0] in ('seq', 'map', 'set') and not L.entry[ks][1]:
            r.append(ks)
    return r


def ismark(L, ks):
    """membership alone is the mark (a set, or a map whose entries are always true)."""
    return all(m[ks] == L.head[ks] or m[ks][1] != 'mput' or m[ks][4] == TRUE or m[ks][3] == m[ks][4] for m in L.ends)


def marks(e, s, v, sym, col):
    return v != sym and v[0] == 'app' and v[2] == sym and v[3] == col.key and (v[1] != 'mput' or v[4] == TRUE or v[4] == col.key)


def group_of(e, s, L, ls, col):
    """the container symbol of the groups at this point."""
    for M_ in ls:
        if M_ is L:
            continue
        for k, sym in M_.head.items():
            if any(m.get(k) is not None and m[k][0] == 'app' and m[k][1] == 'mput' for m in M_.ends):
                return L.head.get(k, sym)
    return None


def mentions(s, syms):
    return any(in_term(x, y) for x in s.facts.bools for y in syms)


def in_term(x, y):
    return x == y or isinstance(x, tuple) and any(in_term(z, y) for z in x)


def absent(s):
    """a path on which a lookup by the group of a column finds nothing: every grouped column is in its group (checked in members())."""
    return s.ctrl and s.ctrl[0] == 'throw' and any(
        not v and t[0] == 'app' and t[1] == 'has' and 'oneof_index' in str(t[3]) for t, v in s.facts.bools.items())


def missing(e, s, grp, col):
    return e.truth(s, ('app', 'has', grp, col.key)) is False


def product(a, gens, t, P, grp):
    if a != ('seq', ()) or t is None or len(gens) != 2 or grp is None:
        return False
    doms = {g: v for g, v in gens}
    if P not in doms:
        return False
    p = doms[P]
    rest = [(g, v) for g, v in gens if g != P]
    g, v = rest[0]
    return g[0] == 'app' and g[1] == 'mget' and g[2] == grp and t == ('app', 'push', ('app', 'select', P, p), ('app', 'select', g, v))


def record_(c, d):
    """the record hands out the patterns of its own columns."""
    R = 'plugin::udf::record_descriptor_impl'
    ctor = [f for f in d.find(Q + 'record_descriptor_impl') if len(f['params']) == 2][0]
    seen = []
    tag = ('app', 'patterns_of')

    def hook(eng, st, fr, n, base, vs):
        v = vs[0]
        if v[0] == 'ptr':
            v = eng.read(st, v[1])
        seen.append(v)
        return [(st, tag + (v,))]
    e = engine.Engine(d, hooks={Q + 'build_argument_patterns': hook})
    want = init(pd(ctor, 1))
    acc = d.find(Q + 'argument_patterns')[0]
    e2 = engine.Engine(d)
    r = e2.run(acc)[0].ret
    if r[0] != 'ptr':
        c.undecided('a record offers the patterns of its columns', 'accessor', where(acc))
        return
    c.analysed(e)
    c.analysed(e2)
    for s in e.run(ctor):
        v = e.read(s, r[1])
        c.ob(True if v == tag + (want,) else False if v[0] == 'app' and v[1] in ('patterns_of', 'init') or v == ('seq', ()) else None,
             'a record offers the patterns of its columns', 'patterns', where(ctor), show(v)[:100])
