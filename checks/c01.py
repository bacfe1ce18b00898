"""C01: the textual form of every enumerator is total, is its own name, and is what gets streamed."""
from common import *

FINISH = dict(floor=0.9, minimum=300, explanation='every function that turns an enumeration of the system into text (and every stream operator of such an '
              'enumeration) is evaluated by the value-flow analysis once per enumerator; the result must be exactly that enumerator')

# texts that are deliberately not the enumerator's spelling: none of them may collide, and the table is exact
ALIASES = {
    ('plugin::udf::load_outcome', 'ok'): 'OK', ('plugin::udf::load_outcome', 'skipped'): 'SKIPPED', ('plugin::udf::load_outcome', 'fail'): 'FAIL',
    ('plugin::udf::type_kind', 'boolean'): 'bool', ('plugin::udf::type_kind', 'grpc_enum'): 'enum',
}


def strip_t(t):
    return t.replace('const ', '').replace('&', '').strip()


def run(c):
    d = db.load(all_units())
    c.units |= set(d.tus)
    enums = {e['t']: e for e in d.enums.values() if e.get('file', '').startswith(db.REPO + '/')}
    texts = {}
    n = 0
    for f in list(d.fns.values()):
        if f.get('dep') or not in_repo(f) or f.get('lambda') or not f.get('body'):
            continue
        ps = f['params']
        if len(ps) == 1 and strip_t(ps[0]['t']) in enums and not f.get('cls_method') and is_text(f['ret']):
            n += 1
            c.part(f['q'], textual, c, d, f, enums[strip_t(ps[0]['t'])], texts)
    for f in list(d.fns.values()):
        if f.get('dep') or not in_repo(f) or not f.get('body'):
            continue
        ps = f['params']
        if f['q'].endswith('operator<<') and len(ps) == 2 and strip_t(ps[1]['t']) in enums and 'ostream' in ps[0]['t']:
            c.part(f['q'], streamed, c, d, f, enums[strip_t(ps[1]['t'])], texts)
    # an enumeration whose text function disappeared from view is an analysis failure, not a pass
    if n < 20:
        raise db.AnalysisBroken(f'only {n} text conversions found')


def is_text(t):
    t = t.replace('const ', '').strip()
    return t.startswith('std::basic_string') or t == 'char *' or t == 'char *const'


def one(d, f, args, **kw):
    e = engine.Engine(d, **kw)
    return e, e.run(f, args=args)


def textual(c, d, f, en, texts):
    if f['ret'].startswith('std::basic_string<') and not f['q'].endswith('to_string_view') and not f['q'].endswith('to_string'):
        return
    seen = {}
    for x in en['e']:
        key = f"{f['q']}({en['q'].split('::')[-1]}::{x['n']})"
        try:
            e, rs = one(d, f, [I(int(x['v']))])
        except engine.Undecided as u:
            c.undecided('enumerator text', key, where(f), str(u))
            continue
        c.analysed(e)
        for s in rs:
            if s.ctrl is not None:
                c.fail('every enumerator has a text', key, where(f), f'ends with {s.ctrl[0]}')
                continue
            v = s.ret
            if v[0] == 'ptr' and v[1][0] == 'lit':
                v = lit(v[1][1])
            t = cstr(v)
            if t is None:
                c.undecided('enumerator text', key, where(f), show(v)[:100])
                continue
            texts[(en['q'], x['n'])] = t
            want = ALIASES.get((en['q'], x['n']), x['n'])
            same = [y for y in en['e'] if y['v'] == x['v']]
            c.ob(t == want or any(t == y['n'] for y in same), 'text is the enumerator name', key, where(f), f'"{t}"')
            if t in seen and seen[t] != x['v']:
                c.fail('texts are distinct', key, where(f), f'"{t}" is also the text of value {seen[t]}')
            seen[t] = x['v']


def streamed(c, d, f, en, texts):
    from sai.models import EMPTY_STREAM
    out = ('d', ('app', 'stream'))

    def setup(st):
        st.mem[out] = EMPTY_STREAM
    for x in en['e']:
        if (en['q'], x['n']) not in texts:
            continue
        key = f"<<({en['q'].split('::')[-1]}::{x['n']})"
        e = engine.Engine(d)
        a1 = I(int(x['v']))
        p1 = f['params'][1]['t']
        if p1.endswith('&'):
            loc = ('d', ('app', 'value'))
            a1 = ('ptr', loc)
        rs = e.run(f, args=[('ptr', out), a1], setup=(lambda st: (setup(st), st.mem.update({('d', ('app', 'value')): I(int(x['v']))}))))
        c.analysed(e)
        for s in rs:
            if s.ctrl is not None:
                c.fail('streaming prints the text', key, where(f), f'ends with {s.ctrl[0]}')
                continue
            buf = e.read(s, ('fl', out, '$buf'))
            t = cstr(buf)
            if t is None:
                c.undecided('streaming prints the text', key, where(f), show(buf)[:100])
            else:
                c.ob(t == texts[(en['q'], x['n'])], 'streaming prints the text', key, where(f), f'"{t}"')
