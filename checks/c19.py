"""C19: table and column descriptions survive the trip through their wire form."""
from same import *

FINISH = dict(floor=0.15, minimum=5, explanation='the composition from_proto(to_proto(x)) is evaluated symbolically with disjunctive joins and every attribute of the result is '
              'compared with the attribute of x on every path; atom types are compared with the wire enumeration by name; table descriptions are compared attribute by attribute in each direction')
NS = 'jogasaki::executor::dto::'
TUS = ['src/jogasaki/executor/dto/common_column_utils.cpp', 'src/jogasaki/executor/dto/describe_table_utils.cpp', probe('dto.cpp')]


def arbitrary(e, s, x, w, t, path):
    # the boolean alternative stands for "arbitrary" and is documented to be true whenever it is used
    if t == 'bool' and x == TRUE and w[0] == 'app' and show(w).endswith('<bool>)'):
        return OK
    if x == ('app', 'absent'):
        return same1(e, s, ('str', ()), w, t, None, path) if M.is_stringy(t) else None
    return None


def run(c):
    d = db.load(TUS)
    c.units |= set(d.tus)
    atoms(c, d)
    c.part('column round trip', column, c, d)
    c.part('column to wire', wire_cases, c, d)
    for q, T in (('to_proto', 'describe_table'), ('from_proto', 'describe_table')):
        c.part('table ' + q, table, c, d, q)


def atoms(c, d):
    dto = d.enums.get(NS + 'common_column::atom_type')
    prt = next((x for k, x in d.enums.items() if k.endswith('sql::common::AtomType')), None)
    if not dto or not prt:
        raise db.AnalysisBroken('atom type enumerations not found')
    pv = {x['n']: int(x['v']) for x in prt['e'] if 'INT_M' not in x['n']}
    dv = {x['n']: int(x['v']) for x in dto['e']}
    for f in d.find(NS + 'from'):
        fwd = 'common_column::atom_type' in f['params'][0]['t']
        for n, v in (dv if fwd else pv).items():
            if fwd:
                want, wv = n.upper(), pv.get(n.upper())
            else:
                want, wv = n.lower(), dv.get(n.lower(), dv['type_unspecified'])
            rule = 'atom type to wire' if fwd else 'atom type from wire'
            if wv is None:
                c.undecided(rule, n, where(f), 'no wire type of this name')
                continue
            e = engine.Engine(d)
            for s in e.run(f, args=[I(v)]):
                if s.ctrl is not None:
                    c.fail(rule, n, where(f), f'ends with {s.ctrl[0]}')
                elif s.ret[0] != 'i':
                    c.undecided(rule, n, where(f), show(s.ret)[:100])
                else:
                    c.ob(s.ret[1] == wv, rule, n, where(f), f'gives {s.ret[1]} instead of {want}={wv}')
            c.analysed(e)


def column(c, d):
    f = d.find('probe::column_round_trip')[0]
    g = [x for x in d.find(NS + 'from_proto') if 'Column' in x['params'][0]['t']][0]
    e = engine.Engine(d, phi=True)
    T = NS + 'common_column'
    for s in e.run(f):
        if s.ctrl is not None:
            c.fail('column round trip', 'ends normally', where(g), s.ctrl[0])
            continue
        for fl, _ in d.all_fields(T):
            v = e.proj(s, s.ret, fl['n'], fl['t'])
            w = init(fld(pd(f), fl['n']))
            record(c, 'column round trip', fl['n'], where(g), same(e, s, v, w, fl['t'], arbitrary, fl['n']))
    c.analysed(e)


def wire_cases(c, d):
    """the wire message itself: which member of each alternative group is set is decided by the source attribute alone."""
    f = [x for x in d.find(NS + 'to_proto') if 'common_column' in x['params'][0]['t']][0]
    from sai import models_proto
    T = models_proto.tables()['jogasaki::proto::sql::common::Column']
    e = engine.Engine(d, phi=True)
    groups = {'length': 'length_', 'precision': 'precision_', 'scale': 'scale_', 'nullable': 'nullable_', 'varying': 'varying_', 'description': 'description_'}
    for s in e.run(f):
        if s.ctrl is not None:
            c.fail('wire form', 'ends normally', where(f), s.ctrl[0])
            continue
        for g, src in groups.items():
            v = models_proto.vget(e, s.ret, f'case${g}_opt', ZERO, None)
            w = init(fld(pd(f), src))
            for s2, x in top_cases(e, s, v):
                x = ZERO if x == ('app', 'absent') else x
                en = e.truth(s2, ('app', 'engaged', w))
                if x[0] != 'i' or en is None:
                    c.ob(False if x[0] == 'i' and clean(s2) else None, 'wire form', g, where(f), f'set as {show(x)[:60]} whether or not given')
                    continue
                if not en:
                    c.ob(x == ZERO, 'wire form', g + ' absent', where(f), f'member {x[1]} is set')
                    continue
                nm = next((n for n, y in T['f'].items() if y[0] == x[1]), None)
                if g in ('length', 'precision', 'scale'):
                    ix = M.alt_index(e, e.proj(s2, w, '*', None), 2)
                    isarb = s2.facts.proves_ge0(sub(ix, ONE), e.ranges)
                    isnum = s2.facts.proves_ge0(scale(ix, -1), e.ranges)
                    if not (isarb or isnum):
                        c.undecided('wire form', g, where(f), 'alternative unknown')
                        continue
                    want = ('arbitrary_' if isarb else '') + g
                else:
                    want = g
                c.ob(nm == want, 'wire form', f'{want} present', where(f), f'member {nm} is set')
    c.analysed(e)


def table(c, d, q):
    to = q == 'to_proto'
    f = [x for x in d.find(NS + q) if ('describe_table' in x['params'][0]['t'] or 'DescribeTable' in x['params'][0]['t'])]
    if not f:
        raise db.AnalysisBroken(f'{q} of table descriptions not found')
    f = f[0]

    def hook(eng, st, fr, n, base, args):
        if 'able' in (n.get('t') or ''):
            return None
        a = args[0]
        if a[0] == 'ptr':
            a = eng.read(st, a[1])
        return [(st, ('app', 'conv', a))]
    e = engine.Engine(d, phi=True, hooks={NS + q: hook})
    from sai import models_proto
    fields = [x for x, _ in d.all_fields(NS + 'describe_table')]
    for s in e.run(f):
        if s.ctrl is not None:
            c.fail('table ' + q, 'ends normally', where(f), s.ctrl[0])
            continue
        for fl in fields:
            n = fl['n'].rstrip('_')
            if to:
                v = models_proto.vget(e, s.ret, n, ('app', 'absent'), None)
                w = init(fld(pd(f), fl['n']))
            else:
                v = e.proj(s, s.ret, fl['n'], fl['t'])
                w = init(fld(pd(f), n))
            key = n
            if M.head(fl['t']) == 'std::vector':
                try:
                    r = mapped(e, s, v, w)
                except NotMapped as x:
                    c.undecided('table ' + q, key, where(f), str(x))
                    continue
                if r == 'copy':
                    c.hold('table ' + q, key, where(f))
                elif r[0] == 'bad':
                    c.fail('table ' + q, key, where(f), r[1])
                else:
                    for s2, y, el in r:
                        z = y[2] if y[0] == 'app' and y[1] == 'conv' else y
                        ok = z == el and (y[0] == 'app' and y[1] == 'conv') == (n == 'columns')
                        c.ob(True if ok else False if pure(z) and pure(el) else None, 'table ' + q, key, where(f), f'{show(y)[:150]} instead of {show(el)[:80]}')
                continue
            if M.head(fl['t']) == 'std::optional':
                opt(c, e, s, f, n, v, w, to, 'table ' + q)
                continue
            record(c, 'table ' + q, key, where(f), same(e, s, v, w, fl['t'], arbitrary, n))
    c.analysed(e)


def opt(c, e, s, f, n, v, w, to, rule):
    from sai import models_proto
    if to:
        cs = models_proto.vget(e, s.ret, f'case${n}_opt', ZERO, None)
        for s2, x in top_cases(e, s, cs):
            en = e.truth(s2, ('app', 'engaged', w))
            x = ZERO if x == ('app', 'absent') else x
            if x[0] != 'i' or en is None:
                c.ob(False if x[0] == 'i' and clean(s2) else None, rule, n, where(f), 'presence does not follow the source')
                continue
            c.ob((x != ZERO) == en, rule, n + ' presence', where(f), f'member {x[1]}')
            if en:
                record(c, rule, n, where(f), same(e, s2, v, e.proj(s2, w, '*', None), 'std::basic_string<char>', None, n))
        return
    for s2, x in top_cases(e, s, v):
        cs = init(fld(pd(f), f'case${n}_opt'))
        d = sub(cs, I(0))
        pos = s2.facts.proves_ge0(sub(cs, ONE), e.ranges)
        zero = s2.facts.proves_ge0(scale(cs, -1), e.ranges)
        if x[0] == 'opt' and not zero and pos:
            record(c, rule, n, where(f), same(e, s2, x[1], w, 'std::basic_string<char>', None, n))
        elif x[0] == 'nullopt' and zero or x[0] == 'nullopt' and not pos and s2.facts.sets.get(cs) == (True, frozenset([0])):
            c.hold(rule, n + ' absent', where(f))
        else:
            c.ob(None, rule, n, where(f), f'{show(x)[:80]} with case {show(s2.facts.sets.get(cs, ""))[:80]}')
