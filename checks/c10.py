"""C10: aligned buffers."""
from contracts import *
from sai import db

FINISH = dict(floor=0.1, minimum=3, explanation='contracts over buffers of arbitrary capacity, alignment and contents are summarised path by path; copied memory is kept as text of symbolic length, '
              'and a copy which is not shown to stay within its block is a path of its own')
SRC = ['src/jogasaki/data/aligned_buffer.cpp']


def run(c):
    d = db.load([probe('buffer.cpp')] + SRC)
    c.units |= {'probes/buffer.cpp', *SRC}
    run_contracts(c, d, 'buffer', engine_opts=dict(byte_blocks=True, hooks={'jogasaki::utils::round_up_to_power_of_two': rounded, 'probe::aligned_to': aligned_to}))
    c.part('deleter', released, c, d)


def rounded(e, st, fr, n, base, vs):
    """C27 shows that a number is rounded up to less than its double; by how much depends on the number."""
    v = vs[0]
    if v[0] == 'i' and v[1] >= 0:
        return [(st, I(1 << (v[1] - 1).bit_length() if v[1] > 1 else v[1]))]
    more = ('app', 'slack', v)
    e.ranges[more] = (0, 2 ** 64 - 1)
    return [(t, add(v, more)) for t, ok in e.branch(st, e.cmp('<=', more, v)) if ok]


def aligned_to(e, st, fr, n, base, vs):
    """the block was allocated with this alignment (or there is none)."""
    if vs[0] == NULL:
        return [(st, TRUE)]
    for x in st.eff:
        if x[0] == 'alloc' and vs[0] == ('ptr', ('el', x[1], ZERO)):
            return [(st, e.cmp('==', x[2][0], vs[1]))]
    return None


def released(c, d):
    """what aligned_alloc gave goes back by free."""
    n = 0
    for f in d.fns.values():
        if 'delete_aligned<' in f['q'] and f['q'].endswith('operator()') and f.get('body'):
            e = engine.Engine(d, byte_blocks=True)
            rs = e.run(f)
            c.analysed(e)
            n += 1
            p = ('app', 'param', ('n', f['params'][0]['n']))
            bad = [s for s in rs if [x[1] for x in s.eff if x[0] == 'free'] != [p]]
            other = [s for s in bad if not any(v for k, v in s.facts.bools.items() if k == ('app', 'eq', *sorted((p, NULL), key=repr)))]
            (c.fail if other else c.hold)('ownership', 'memory goes back by free', where(f), f'{len(rs)} paths')
    if not n:
        c.undecided('ownership', 'memory goes back by free', 'utils/aligned_unique_ptr.h', 'no deleter found')
