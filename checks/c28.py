"""C28: helpers that undo something at the end of a scope."""
from contracts import *
from c10 import rounded
import c11
from sai import db

FINISH = dict(floor=0.1, minimum=3, explanation='contracts over scopes with any allocations in them, left at their end, by an exception or after a request')
SRC = c11.PAGE + ['src/jogasaki/memory/lifo_paged_memory_resource.cpp']


def run(c):
    d = db.load([probe('scopes.cpp')] + SRC, stubs=True, also=[db.STUBS + '/'])
    c.units |= {'probes/scopes.cpp', *SRC}
    run_contracts(c, d, 'scopes', engine_opts=dict(exact=True, hooks=c11.RESOURCES))
    run_contracts(c, d, 'arrays', engine_opts=dict(byte_blocks=True, hooks={'jogasaki::utils::round_up_to_power_of_two': rounded,
        'probe::each_block_freed_once': freed, 'probe::is_block_of': block}))


def freed(e, st, fr, n, base, vs):
    got = [('ptr', ('el', x[1], ZERO)) for x in st.eff if x[0] == 'alloc']
    back = [x[1] for x in st.eff if x[0] == 'free']
    return [(st, I(bool(got) and sorted(got) == sorted(x for x in back if x != NULL)))]


def block(e, st, fr, n, base, vs):
    """allocated with the alignment, and with a number of bytes that is enough and a power of two not less than it."""
    for x in st.eff:
        if x[0] == 'alloc' and vs[0] == ('ptr', ('el', x[1], ZERO)):
            a, size = x[2][:2]
            out = []
            for s, t in e.branch(st, e.cmp('==', a, vs[2])):
                # std::aligned_alloc wants a multiple of the alignment; a power of two not less than it is one
                if not t or size == vs[1]:
                    out.append((s, FALSE))
                elif size == a or 'slack' in repr(size):
                    out += [(s2, e.cmp('<=', vs[1], size) if u else FALSE) for s2, u in e.branch(s, e.cmp('<=', a, size))]
                else:
                    return None
            return out
    return None
