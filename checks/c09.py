"""C09: variable-length values."""
from contracts import *
from sai import db, models_call

FINISH = dict(floor=0.1, minimum=3, explanation='contracts over texts of arbitrary length and bytes are summarised path by path; the inline and the out of line representation share storage, '
              'and memory is kept as text of symbolic length')
SRC = ['src/jogasaki/accessor/text.cpp', 'src/jogasaki/data/binary_string_value.cpp']


def run(c):
    d = db.load([probe('text.cpp')] + SRC)
    c.units |= {'probes/text.cpp', *SRC}
    run_contracts(c, d, 'text', engine_opts=dict(byte_blocks=True, hooks={'boost::container::pmr::memory_resource::allocate': allocate, 'probe::owned_by': owned_by}))


def allocate(e, st, fr, n, base, vs):
    return models_call.f_alloc(e, st, fr, n, None, (base and ('ptr', base), vs[0]), '')


def owned_by(e, st, fr, n, base, vs):
    """every block the object refers to was allocated from the resource, and holds as much as was asked for."""
    v = e.read(st, vs[0][1]) if vs[0][0] == 'ptr' else vs[0]
    for loc in sorted(blocks(v), key=repr):
        if not any(x[0] == 'alloc' and x[1] == loc and x[2][0] == ('ptr', e.as_loc(vs[1])) for x in st.eff):
            return [(st, FALSE)]
    return [(st, TRUE)]


def blocks(v):
    """locations of the arrays pointers inside a value point into."""
    if not isinstance(v, tuple):
        return set()
    if v[:1] == ('ptr',):
        loc = v[1]
        return {loc[1]} if loc[0] in ('el', 'chr') else {loc}
    return set().union(*(blocks(x) for x in v)) if v else set()
