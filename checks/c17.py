"""C17: conflicts between function descriptors."""
from contracts import *
from sai import db

FINISH = dict(floor=0.1, minimum=3, explanation='contracts over descriptors with any names, files in any order and any outcome of reading a file')
D = 'src/jogasaki/udf/descriptor/'
SRC = [D + 'descriptor_analyzer.cpp', D + 'descriptor_reader.cpp', D + 'validation/message_duplicate_validator.cpp', D + 'validation/rpc_duplicate_validator.cpp']
NS = 'jogasaki::udf::descriptor::'


def run(c):
    d = db.load([probe('conflicts.cpp')] + SRC)
    c.units |= {'probes/conflicts.cpp', *SRC}
    run_contracts(c, d, 'conflicts')
    c.part('reading a file', reader, c, d)
    run_contracts(c, d, 'analysis', engine_opts=dict(recursions=5, hooks={NS + 'read_file_descriptor_set': read, 'probe::a_file_gives': gives}))


def reader(c, d):
    """success exactly when the file opened and all of it parsed into the caller's set; each failure under its own status."""
    f = d.find(NS + 'read_file_descriptor_set')[0]
    e = engine.Engine(d)
    val = {int(x['v']): x['n'] for x in d.enums['plugin::udf::descriptor_read_status']['e']}
    rs = e.run(f)
    c.analysed(e)
    bad = und = ''
    for s in rs:
        if s.ctrl is not None and s.ctrl[0] in ('throw', 'abort'):
            bad = bad or f'ends with {s.ctrl[0]} when {cond(s)}'
            continue
        opened, parsed = (known(s, x) for x in ('good', 'parsed'))
        got = val.get(s.ret[1]) if s.ret and s.ret[0] == 'i' else None
        want = 'descriptor_open_failed' if opened is False else 'descriptor_parse_failed' if parsed is False else 'ok' if parsed else None
        if got is None:
            und = und or f'gives {show(s.ret) if s.ret else None} when {cond(s)}'
        elif want is None and got == 'ok':
            if any(x[0] == 'call' and x[4:5] and x[4][:2] == ('app', 'parsed') for x in s.eff):
                bad = bad or f'tells success whatever reading gave when {cond(s)}'
            elif 'ParsePartial' in repr(s.facts.bools):
                bad = bad or 'accepts a file that is not complete'
            elif any('good' not in repr(k)[:40] for k in s.facts.bools):
                und = und or 'reads the file in another way'
            else:
                bad = bad or 'tells success without reading the file'
        elif want is not None and got != want:
            bad = bad or f'gives {got} instead of {want} when {cond(s)}'
        elif got == 'ok':
            v = e.read(s, ('d', ('app', 'param', ('n', f['params'][1]['n']))))
            if not (v[0] == 'app' and v[1] == 'parsedmsg'):
                und = und or f'gives back {show(v)}'
    (c.fail if bad else c.undecided if und else c.hold)('reader', 'outcomes of reading a descriptor file', where(f), bad or und or f'{len(rs)} paths')


def known(s, what):
    for k, v in s.facts.bools.items():
        x = k[2] if k[0] == 'app' and k[1] == 'truthy' else k
        if x[0] == 'app' and x[1] == what:
            return v
    return None


def value(e, st, v):
    return e.read(st, v[1]) if v[0] == 'ptr' else v


def gives(e, st, fr, n, base, vs):
    s = st.copy()
    s.ev('file gives', value(e, st, vs[0]), value(e, st, vs[1]), vs[2])
    return [(s, ('app', 'void'))]


def read(e, st, fr, n, base, vs):
    p = value(e, st, vs[0])
    out = []
    for x in [x for x in st.eff if x[0] == 'file gives']:
        for s in e.assume(st.copy(), e.cmp('==', x[1], p), True):
            for t in [s]:
                e.write(t, vs[1][1], x[2])
                out.append((t, x[3]))
    return out
