"""C20: value types compare all of their content; constructors and setters store what accessors return."""
from same import *
from sai.models_call import generic_eq

FINISH = dict(floor=0.15, minimum=5, explanation='for every equality operator and every attribute: with all other attributes equal, the operator is evaluated under the assumption that the '
              'attribute differs (must be false) and that it agrees (must be true); constructors, setters and accessors are evaluated symbolically and the stored attribute is compared with the argument')
# values compared by content in their own property: text/binary (C09), buffers (C10), versions (C18)
ELSEWHERE = {'jogasaki::lob::lob_reference', 'jogasaki::accessor::text', 'jogasaki::accessor::binary', 'jogasaki::data::aligned_buffer', 'plugin::udf::package_version'}
# attributes that are deliberately not part of the identity of a value (documented at the declaration)
NOT_COMPARED = {}


def start(e, st0, f, this, args, this_cls=None):
    def setup(st):
        st.mem, st.facts, st.cls = dict(st0.mem), st0.facts.copy(), dict(st0.cls)
    return e.run(f, this=this, this_cls=this_cls, args=args, setup=setup)


def variants(e, st, a, b, t):
    """states in which the two values of type t differ, covering all differences."""
    h = M.head(t)
    if h == 'std::optional':
        ea, eb = ('app', 'engaged', a), ('app', 'engaged', b)
        T = M.split_targs(t)[0]
        out = []
        for s, x in e.branch(st.copy(), ea):
            for s2, y in e.branch(s, eb):
                if x != y:
                    out.append(s2)
                elif x:
                    out += variants(e, s2, e.proj(s2, a, '*', T), e.proj(s2, b, '*', T), T)
        return out
    if h == 'std::variant':
        al = M.split_targs(t)
        ia, ib = M.alt_index(e, a, len(al)), M.alt_index(e, b, len(al))
        out = []
        for s, x in e.branch(st.copy(), e.cmp('==', ia, ib)):
            if not x:
                out.append(s)
                continue
            for i, T in enumerate(al):
                for s2, y in e.branch(s.copy(), e.cmp('==', ia, I(i))):
                    if y:
                        out += variants(e, s2, e.proj(s2, a, f'<{T}>', T), e.proj(s2, b, f'<{T}>', T), T)
        return out
    out = []
    for s, v in generic_eq(e, st.copy(), None, {'l': 0}, a, b, t, '=='):
        for s2, x in e.branch(s, v):
            if not x:
                out.append(s2)
    return out


def run(c):
    d = db.load(all_units())
    c.units |= set(d.tus)
    n = 0
    ops = {}
    for f in d.fns.values():
        if f.get('op') not in ('==', '!=') or not in_repo(f) or f.get('dep') or not f.get('body'):
            continue
        t = f.get('clst') or f['params'][0]['t']
        t = t.replace('const ', '').rstrip('& ')
        if t in ELSEWHERE or t not in d.recs:
            continue
        if any(p['t'].replace('const ', '').rstrip('& ') != t for p in f['params']):
            continue
        ops.setdefault(t, {})[f['op']] = f
    for t, o in sorted(ops.items()):
        for op, f in o.items():
            n += 1
            c.part(f'{op} of {t}', equality, c, d, t, op, f)
    if n < 10:
        raise db.AnalysisBroken(f'only {n} equality operators found')
    c.part('accessors', accessors, c, d)


def equality(c, d, t, op, f):
    short = t.split('::')[-1]
    A, B = ('d', ('app', 'lhs')), ('d', ('app', 'rhs'))
    fields = [x for x, _ in d.all_fields(t)]
    byval = [not p['t'].endswith('&') for p in f['params']]
    for x in fields:
        skip = (t, x['n']) in NOT_COMPARED
        e = engine.Engine(d, phi=True)
        st = engine.St()
        st.cls = {A: t, B: t}
        for y in fields:
            if y is not x:
                st.mem[fld(B, y['n'])] = e.read(st, fld(A, y['n']), y['t'])
        a, b = e.read(st, fld(A, x['n']), x['t']), e.read(st, fld(B, x['n']), x['t'])
        eqst = st.copy()
        eqst.mem[fld(B, x['n'])] = a
        for what, sts, want in (('differs', variants(e, st, a, b, x['t']), op == '!='), ('agrees', [eqst], op == '==')):
            if what == 'differs' and skip:
                continue
            key = f"{short} {op}: only {x['n']} {what}" if what == 'differs' else f"{short} {op}: all attributes agree ({x['n']})"
            if not sts:
                c.undecided('equality', key, where(f), 'no differing state')
            for s0 in sts:
                va, vb = [('ptr', A), ('ptr', B)]
                if byval and byval[0]:
                    va = e.read(s0, A, t)
                if byval and byval[-1]:
                    vb = e.read(s0, B, t)
                if f.get('clst') and not f.get('static'):
                    rs = start(e, s0, f, A, [vb], t)
                else:
                    rs = start(e, s0, f, None, [va, vb])
                for s in rs:
                    if s.ctrl is not None:
                        c.fail('equality', key, where(f), f'ends with {s.ctrl[0]}')
                        continue
                    for s2, v in top_cases(e, s, s.ret):
                        g = e.truth(s2, v)
                        if g is None:
                            # the result is a condition of its own: definite only when it cannot depend on x
                            c.undecided('equality', key, where(f), show(v)[:150])
                        else:
                            c.ob(g == want, 'equality', key, where(f), f'gives {g}')
        c.analysed(e)


def value_of(e, s, v, t):
    if v[0] == 'ptr' and not t.endswith('*'):
        return e.read(s, v[1], e.strip(t))
    return v


def arg(e, f, i, ft):
    """what a member of type ft made from argument i has to hold."""
    p = f['params'][i]
    if p['t'].endswith('&'):
        if ft.endswith('&') or ft.endswith('*') or M.head(ft) == 'std::reference_wrapper':
            return ('ptr', pd(f, i))
        return e.read(engine.St(), pd(f, i), e.strip(p['t']))
    return e.opaque_value(param(f, i), p['t'])


def simple_same(e, s, v, w, t, pt=''):
    if M.head(t) == 'std::optional' and pt and M.head(e.strip(pt)) != 'std::optional':
        r = combine(same(e, s2, x[1], w, pt) if x[0] == 'opt' else bad(s2, x, '', f'stores {show(x)[:60]}') for s2, x in top_cases(e, s, v))
        return r
    r = same(e, s, v, w, t)
    if r[0] != 'ok' and strip_conv(v) == strip_conv(w):
        return OK
    return r


def strip_conv(v):
    while v[0] == 'app' and v[1] in ('conv', 'cast', 'moved', 'trunc') and len(v) > 2:
        v = v[2]
    return v


def accessors(c, d):
    for t, r in sorted(d.recs.items()):
        if not r.get('file', '').startswith(db.REPO + '/') or r.get('union') or t in SKIP:
            continue
        fields = {x['n']: x for x, _ in d.all_fields(t)}
        if not fields:
            continue
        short = t.split('::')[-1]
        for f in list(d.fns.values()):
            if f.get('clst') != t or f.get('dep') or not f.get('body') or f.get('static') or f.get('lambda'):
                continue
            n = f['q'].split('::')[-1]
            fn = n + '_'
            if f.get('ctor'):
                c.part(f"{f['q']}({len(f['params'])})", ctor, c, d, t, f, fields)
            elif fn in fields and not f['params']:
                if f['q'] not in COMPUTED:
                    c.part(f['q'], getter, c, d, t, f, fields[fn])
            elif fn in fields and len(f['params']) == 1:
                if f['q'] not in COMPUTED:
                    c.part(f['q'], setter, c, d, t, f, fields[fn])


# functions named like an attribute that are defined to compute something (own properties: C21, C23)
COMPUTED = {'jogasaki::api::kvsservice::status_message::message', 'jogasaki::request_execution_counter::count'}
SKIP = {'jogasaki::accessor::text::long_text', 'jogasaki::accessor::text::short_text'}  # C09


def getter(c, d, t, f, fl):
    e = engine.Engine(d, phi=True)
    short = t.split('::')[-1]
    for s in e.run(f, this_cls=t):
        key = f"{short}::{fl['n'][:-1]}() [{f['ret'][:30]}]"
        if s.ctrl is not None:
            c.ob(None, 'accessor', key, where(f), f'ends with {s.ctrl[0]}')
            continue
        w = e.read(engine.St(), fld(THIS, fl['n']), fl['t'])
        own = fld(THIS, fl['n'])
        if s.ret[0] == 'ptr' and s.ret[1] in (own, ('el', own, ZERO)) and own not in s.mem:
            c.hold('accessor', key, where(f))
            continue
        v = value_of(e, s, s.ret, fl['t'])
        c.analysed(e)
        yield_same(c, e, s, 'accessor', key, f, v, w, fl['t'])


def yield_same(c, e, s, rule, key, f, v, w, t, pt=''):
    record(c, rule, key, where(f), simple_same(e, s, v, w, t, pt))


def setter(c, d, t, f, fl):
    e = engine.Engine(d, phi=True)
    short = t.split('::')[-1]
    w = arg(e, f, 0, fl['t'])
    for s in e.run(f, this_cls=t):
        key = f"{short}::{fl['n'][:-1]}({e.strip(f['params'][0]['t'])[:40]})"
        if s.ctrl is not None:
            c.ob(None, 'setter', key, where(f), f'ends with {s.ctrl[0]}')
            continue
        v = e.read(s, fld(THIS, fl['n']), fl['t'])
        yield_same(c, e, s, 'setter', key, f, v, w, fl['t'], f['params'][0]['t'])
    c.analysed(e)


def ctor(c, d, t, f, fields):
    e = engine.Engine(d, phi=True)
    short = t.split('::')[-1]
    rs = e.run(f, this_cls=t)
    for i, p in enumerate(f['params']):
        fl = fields.get(p['n'] + '_') if p['n'] else None
        if not fl:
            continue
        w = arg(e, f, i, fl['t'])
        key = f"{short}({', '.join(q['n'] or '' for q in f['params'])}): {p['n']}"
        for s in rs:
            if s.ctrl is not None:
                c.ob(None, 'constructor', key, where(f), f'ends with {s.ctrl[0]}')
                continue
            v = e.read(s, fld(THIS, fl['n']), fl['t'])
            yield_same(c, e, s, 'constructor', key, f, v, w, fl['t'], p['t'])
    c.analysed(e)
