"""C56: who commits is told once, and told that it is durable only when it is."""
from contracts import *
from sai import db
import c52

FINISH = dict(floor=0.1, minimum=3, explanation='contracts over those who wait for durability, any markers, with other threads acting between any two steps')
S = 'src/jogasaki/'
SRC = [S + f for f in ('durability_manager.cpp', 'transaction_context.cpp', 'request_context.cpp', 'kvs/transaction.cpp')]


def run(c):
    d = db.load([probe('waiting.cpp')] + SRC, stubs=True, allow_errors=True)
    c.units |= {'probes/waiting.cpp', *SRC}
    for ns in ('waiting',):
        run_contracts(c, d, ns, engine_opts=dict(only_throws=True, hooks=HOOKS), throws=('a_marker_nobody_told_is_refused',))
    import c57
    d = db.load([probe('jobs.cpp')] + c57.SRC, stubs=True, allow_errors=True)
    c.units |= {'probes/jobs.cpp', *c57.SRC}
    run_contracts(c, d, 'answering', engine_opts=dict(c57.OPTS, hooks=c57.HOOKS))


def any_state(e, st, n):
    e.n += 1
    q = n['fn']['q'] + str(n['fn'].get('rec')) + str(n.get('t'))
    v = e.opaque_value(('app', 'param', ('n', f'shared{e.n}')), 'bool' if 'bool' in q else 'unsigned long')
    return [(s, TRUE if t else FALSE) for s, t in e.branch(st.copy(), v)] if 'bool' in q else [(st.copy(), v)]


def enabled(e, st, fr, n, base, vs):
    return [(st, e.opaque_value(('app', 'param', ('n', 'cancellation')), 'bool'))]


HOOKS = {**c52.with_threads(any_state, {}, lambda n: 'bool' if 'bool' in str(n) else 'unsigned long'), 'probe::ready_to_cancel': enabled, 'jogasaki::utils::request_cancel_enabled': enabled}
