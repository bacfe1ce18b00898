"""C15: function records return each value in the type it was stored."""
from same import *

FINISH = dict(floor=0.15, minimum=5, explanation='every append and fetch member of the record and its cursor is summarised for an arbitrary record and position; the value '
              'appended, the alternative read, the position reached and the kind reported are compared with the table of types for each of the alternatives of the value type')
NS = 'plugin::udf::'
REC, CUR = NS + 'generic_record_impl', NS + 'generic_record_cursor_impl'
TUS = ['src/jogasaki/udf/generic_record_impl.cpp', 'src/jogasaki/udf/error_info.cpp']
TYPES = {'bool': ('bool', 'boolean'), 'int4': ('int', 'int4'), 'int8': ('long', 'int8'), 'uint4': ('unsigned int', 'uint4'), 'uint8': ('unsigned long', 'uint8'),
         'float': ('float', 'float4'), 'double': ('double', 'float8'), 'string': ('std::basic_string<char>', 'string')}
for _n in ('bytes', 'decimal', 'date', 'local_time', 'local_datetime', 'offset_datetime', 'blob_reference', 'clob_reference'):
    TYPES[_n] = (NS + _n + '_value', _n)


NAMES = {'std::monostate': 'null'}


def field(d, cls, pred, what):
    r = [f for f, _ in d.all_fields(cls) if pred(f['t'])]
    if len(r) != 1:
        raise db.AnalysisBroken(f'{cls}: {what}')
    return r[0]


def run(c):
    d = db.load(TUS)
    c.units |= set(d.tus)
    if REC not in d.recs or CUR not in d.recs:
        raise db.AnalysisBroken('record classes not found')
    e = engine.Engine(d)
    vf = field(d, REC, lambda t: M.head(e.strip(t)) == 'std::vector', 'values')
    ef = field(d, REC, lambda t: M.head(e.strip(t)) == 'std::optional', 'error')
    VT = M.split_targs(e.strip(vf['t']))[0]
    alts = M.split_targs(e.strip(VT))
    st = [x for x in alts if x.startswith('std::basic_string<')]
    if len(st) == 1:
        TYPES['string'] = (st[0], 'string')
    NAMES.update({T: n for n, (T, _) in TYPES.items()})
    cls = dict(vf=vf, ef=ef, VT=VT, alts=alts)
    c.ob(len(set(alts)) == len(alts) or None, 'alternatives are distinct', 'value_type')
    for n in sorted(TYPES):
        c.part('append ' + n, append, c, d, cls, n, False)
        c.part('append null ' + n, append, c, d, cls, n, True)
    for n in sorted(TYPES):
        c.part('fetch ' + n, fetch, c, d, cls, n)
    for n in ('has_next', 'current_is_null', 'current_kind'):
        c.part(n, observe, c, d, cls, n)
    c.part('cursor', cursor, c, d, cls)
    for n in ('reset', 'set_error', 'assign_from'):
        c.part(n, whole, c, d, cls, n)


def final(e, st, loc, t):
    return e.read(st, loc, t)


def one(d, q):
    r = [f for f in d.find(q)]
    if not r:
        raise db.AnalysisBroken(q + ' not found')
    return r[0]


def append(c, d, k, n, null):
    q = 'add_' + n + ('_null' if null else '')
    f = one(d, REC + '::' + q)
    T = 'std::monostate' if null else TYPES[n][0]
    if T not in k['alts']:
        raise db.AnalysisBroken(f'{T} is not an alternative')
    e = engine.Engine(d)
    vl, el = fld(THIS, k['vf']['n']), fld(THIS, k['ef']['n'])
    for s in e.run(f):
        key = q
        if s.ctrl is not None:
            c.fail('append ends normally', key, where(f), s.ctrl[0])
            continue
        v = final(e, s, vl, k['vf']['t'])
        if not (v[0] == 'app' and v[1] == 'push' and v[2] == init(vl)):
            c.ob(False if pure(v) or (v[0] == 'seq') else None, 'appends one value at the end', key, where(f), show(v)[:160])
            continue
        c.hold('appends one value at the end', key, where(f))
        x = v[3]
        if x[0] != 'alt':
            c.undecided('appended as its own type', key, where(f), show(x)[:160])
            continue
        if x[1] != T:
            c.fail('appended as its own type', key, where(f), f'stored as {x[1]}')
            continue
        c.hold('appended as its own type', key, where(f))
        if not null:
            w = param(f)
            if e.strip(f['params'][0]['t']) != f['params'][0]['t'] and '&' in f['params'][0]['t']:
                w = init(pd(f))
            record(c, 'appended value is the one given', key, where(f), same(e, s, x[2], w, T, None, n))
        c.ob(final(e, s, el, k['ef']['t']) == init(el), 'append leaves the error alone', key, where(f))
    in_bounds(c, e)
    c.analysed(e)


class Pos:
    """an arbitrary record and cursor position: the element, its alternative, and whether there is one."""
    def __init__(self, d, k, e):
        self.e, self.k = e, k
        fs = [f for f, _ in d.all_fields(CUR)]
        self.idx = [f for f in fs if e.setof is not None and e.strip(f['t']) in ('unsigned long', 'unsigned int', 'long', 'int', 'std::size_t')]
        self.data = [f for f in fs if 'vector' in f['t']]
        if len(self.idx) != 1 or len(self.data) != 1:
            raise db.AnalysisBroken('cursor: position not found')
        self.il = fld(THIS, self.idx[0]['n'])
        self.i = init(self.il)
        self.dl = fld(THIS, self.data[0]['n'])
        dt = self.data[0]['t']
        self.seq = init(('d', init(self.dl))) if dt.rstrip().endswith(('&', '*')) else init(self.dl)
        self.elem = ('app', 'select', self.seq, self.i)
        self.n = e.csize(self.seq)
        self.alt = M.alt_index(e, self.elem, len(k['alts']))

    def at(self, s, a):
        """the state restricted to: alternative a under the cursor (None: at the end); None if impossible."""
        f = s.facts.copy()
        left = sub(self.n, self.i)
        if a is None:
            need = [scale(left, -1)]
        else:
            x = sub(self.alt, I(a))
            need = [add(left, I(-1)), x, scale(x, -1)]
        if not all(f.add_ge0(x, self.e.ranges) for x in need) or f.infeasible(self.e.ranges):
            return None
        t = s.copy()
        t.facts = f
        return t


def positions(k):
    return [None] + list(range(len(k['alts'])))


def pname(k, a):
    return 'end' if a is None else NAMES.get(k['alts'][a], k['alts'][a])


def moved(c, e, s, p, key, w, by):
    i2 = e.read(s, p.il, p.idx[0]['t'])
    df = sub(i2, p.i)
    if df == I(by):
        c.hold('advances one position', key, w)
    else:
        c.ob(False if df[0] == 'i' or pure(i2) else None, 'advances one position', key, w, f'moves by {show(df)[:80]}')


def fetch(c, d, k, n):
    f = one(d, CUR + '::fetch_' + n)
    T = TYPES[n][0]
    e = engine.Engine(d)
    p = Pos(d, k, e)
    ends = e.run(f)
    for a in positions(k):
        key = f'fetch_{n} at {pname(k, a)}'
        seen = False
        for s in ends:
            s = p.at(s, a)
            if s is None:
                continue
            seen = True
            if s.ctrl is not None:
                c.fail('fetch ends normally', key, where(f), s.ctrl[0])
                continue
            if a is None:
                i2 = e.read(s, p.il, p.idx[0]['t'])
                c.ob(True if i2 == p.i else s.facts.proves_ge0(sub(i2, p.n), e.ranges) or None, 'stays at the end', key, where(f), show(i2)[:80])
            else:
                moved(c, e, s, p, key, where(f), 1)
            for s2, v in top_cases(e, s, s.ret):
                match = a is not None and k['alts'][a] == T
                if v[0] == 'nullopt':
                    c.ob(not match if clean(s2) else None, 'fetches the value stored', key, where(f), 'gives no value')
                elif v[0] == 'opt':
                    if not match:
                        c.ob(False if clean(s2) else None, 'fetches the value stored', key, where(f), f'gives {show(v[1])[:80]}')
                    else:
                        record(c, 'fetches the value stored', key, where(f), same(e, s2, v[1], e.proj(s2, p.elem, f'<{T}>', T), T, None, n))
                else:
                    c.undecided('fetches the value stored', key, where(f), show(v)[:120])
        if not seen:
            c.undecided('fetches the value stored', key, where(f), 'no path')
    in_bounds(c, e)
    c.analysed(e)


def observe(c, d, k, n):
    f = one(d, CUR + '::' + n)
    e = engine.Engine(d)
    p = Pos(d, k, e)
    en = d.enums.get(NS + 'runtime_type_kind')
    kv = {x['n']: int(x['v']) for x in en['e']} if en else {}
    kind = {T: kv.get(nm) for T, nm in TYPES.values()}
    kind['std::monostate'] = kv.get('null_value')
    ends = e.run(f)
    for a in positions(k):
        key = f'{n} at {pname(k, a)}'
        for s in ends:
            s = p.at(s, a)
            if s is None:
                continue
            rule = {'has_next': 'tells whether a value is left', 'current_is_null': 'tells whether the value is null', 'current_kind': 'reports the kind of the value'}[n]
            if n == 'current_kind' and a is None:
                c.ob(s.ctrl is not None and s.ctrl[0] == 'throw', rule, key, where(f), 'does not throw')
                continue
            if s.ctrl is not None:
                c.fail(rule, key, where(f), s.ctrl[0])
                continue
            i2 = e.read(s, p.il, p.idx[0]['t'])
            c.ob(True if i2 == p.i else False if pure(i2) else None, 'looking does not advance', key, where(f), show(i2)[:80])
            if n == 'current_kind':
                want = kind.get(k['alts'][a])
                for s2, v in top_cases(e, s, s.ret):
                    c.ob(None if v[0] != 'i' or want is None else v[1] == want, rule, key, where(f), f'gives {show(v)[:80]}, expected {want}')
                continue
            t = e.truth(s, s.ret)
            want = a is not None if n == 'has_next' else a is not None and k['alts'][a] == 'std::monostate'
            c.ob(None if t is None else t == want, rule, key, where(f), f'gives {show(s.ret)[:100]}')
    in_bounds(c, e)
    c.analysed(e)


def cursor(c, d, k):
    f = one(d, REC + '::cursor')
    e = engine.Engine(d)
    p = Pos(d, k, e)
    vl = fld(THIS, k['vf']['n'])
    for s in e.run(f):
        if s.ctrl is not None or s.ret[0] != 'ptr':
            c.undecided('cursor starts at the first value', 'cursor', where(f), show(s.ret)[:100] if s.ret else '')
            continue
        o = s.ret[1]
        i = e.read(s, fld(o, p.idx[0]['n']), p.idx[0]['t'])
        c.ob(i == I(0) if i[0] == 'i' else None, 'cursor starts at the first value', 'cursor', where(f), show(i)[:80])
        v = e.read(s, fld(o, p.data[0]['n']), p.data[0]['t'])
        if v[0] == 'ptr':
            c.ob(v[1] == vl, 'cursor reads the record it came from', 'cursor', where(f), f'refers to {show(v)[:80]}')
        else:
            c.ob(True if v == init(vl) else None, 'cursor reads the record it came from', 'cursor', where(f), show(v)[:80])
    in_bounds(c, e)
    c.analysed(e)


def whole(c, d, k, n):
    f = one(d, REC + '::' + n)
    e = engine.Engine(d)
    vl, el = fld(THIS, k['vf']['n']), fld(THIS, k['ef']['n'])
    E = M.split_targs(e.strip(k['ef']['t']))[0]
    for s in e.run(f):
        if s.ctrl is not None:
            c.fail('ends normally', n, where(f), s.ctrl[0])
            continue
        v, x = e.read(s, vl, k['vf']['t']), e.read(s, el, k['ef']['t'])
        if n == 'reset':
            c.ob(True if v == ('seq', ()) else False if pure(v) and clean(s) else None, 'reset forgets the values', n, where(f), show(v)[:100])
            c.ob(True if x == ('nullopt',) else False if pure(x) and clean(s) else None, 'reset forgets the error', n, where(f), show(x)[:100])
        elif n == 'set_error':
            c.ob(True if v == init(vl) else False if pure(v) else None, 'setting an error keeps the values', n, where(f), show(v)[:100])
            if x[0] == 'opt':
                record(c, 'the error is the one given', n, where(f), same(e, s, x[1], init(pd(f)), E, None, 'error'))
            else:
                c.ob(False if pure(x) and clean(s) else None, 'the error is the one given', n, where(f), show(x)[:100])
        else:
            o = pd(f)
            record(c, 'assignment takes the values', n, where(f), same(e, s, v, init(fld(o, k['vf']['n'])), k['vf']['t'], None, 'values'))
            record(c, 'assignment takes the error', n, where(f), same(e, s, x, init(fld(o, k['ef']['n'])), k['ef']['t'], None, 'error'))
    in_bounds(c, e)
    c.analysed(e)
