"""C54: a transaction ends once, belongs to one worker at a time and never goes back."""
from contracts import *
from sai import db
import c52
import c55

FINISH = dict(floor=0.1, minimum=3, explanation='contracts over transactions in any state, with other threads acting between any two steps')
S = 'src/jogasaki/'
SRC = [S + f for f in ('transaction_context.cpp', 'transaction_state.cpp', 'kvs/transaction.cpp', 'storage/reference_scope.cpp', 'storage/unique_lock.cpp', 'storage/storage_manager.cpp', 'error/error_info.cpp', 'kvs/error.cpp')]
STATE = 'jogasaki::termination_state'
KIND = 'jogasaki::transaction_state_kind'


def run(c):
    d = db.load([probe('transactions.cpp')] + SRC, stubs=True, allow_errors=True)
    c.units |= {'probes/transactions.cpp', *SRC}
    for ns in ('ending', 'worker', 'life', 'context'):
        run_contracts(c, d, ns, engine_opts=dict(only_throws=True, hooks=HOOKS), throws=('a_transaction_is_ready_unless_it_waits_for_its_start',))


def bounded(e, s, name, most):
    e.n += 1
    v = e.opaque_value(('app', 'param', ('n', f'{name}{e.n}')), 'unsigned long')
    return v if s.facts.add_ge0(v, e.ranges) and s.facts.add_ge0(sub(I(most), v), e.ranges) else None


def about(n):
    return n['fn']['q'] + str(n['fn'].get('rec')) + str(n.get('t'))


def kind(n):
    return STATE if 'termination_state' in about(n) else KIND if 'transaction_state_kind' in about(n) else 'unsigned long'


def any_state(e, st, n):
    """[(state, contents)]: the state of a transaction as another thread may have left it."""
    q, out = about(n), []
    if 'termination_state' in q:
        # in use and open, or ending in either way
        for flag in (0, 1 << 62, 1 << 63):
            s = st.copy()
            v = bounded(e, s, 'tasks', 1 << 40)
            if any(x[0] == 'used' for x in st.eff) and not s.facts.add_ge0(sub(v, I(1)), e.ranges):
                continue
            out.append((s, ('st', STATE, (('state_', add(I(flag), v)),))))
    elif 'transaction_state_kind' in q:
        s = st.copy()
        e.n += 1
        v = e.opaque_value(('app', 'param', ('n', f'kind{e.n}')), KIND)
        out.append((s, v))
    else:
        s = st.copy()
        v, w = bounded(e, s, 'users', 1 << 20), bounded(e, s, 'worker', (1 << 32) - 1)
        out.append((s, add(scale(v, 1 << 32), w)))
    return out


def used(e, st, fr, n, base, vs):
    s = st.copy()
    s.ev('others')
    s.ev('used')
    return [(s, ('app', 'void'))]


# ---- shared pointers read and replaced in one step
POINTER = 'std::shared_ptr<jogasaki::error::error_info>'
INFO = 'jogasaki::error::error_info'


def any_error(e, st):
    """No error, an empty one, or one of another thread."""
    none, s = st.copy(), st.copy()
    e.n += 1
    v = ('ptr', ('d', ('app', 'param', ('n', f'error{e.n}'))))
    return [(none, NULL), (s, v)]


def load(e, st, fr, n, base, vs):
    if 'shared_ptr' not in str(n.get('t')):
        return None
    if c52.others(st):
        return any_error(e, st)
    return [(st, e.read(st, vs[0][1], POINTER))]


def swap(e, st, fr, n, base, vs):
    if len(vs) != 3 or vs[0][0] != 'ptr' or vs[1][0] != 'ptr':
        return None
    place, old = vs[0][1], vs[1][1]
    new = e.read(st, vs[2][1], POINTER) if vs[2][0] == 'ptr' and st.mem.get(vs[2][1]) is not None else vs[2]
    was = e.read(st, old, POINTER)
    if not c52.others(st):
        out = []
        for s, c in e.cases(st, e.cmp('==', e.read(st, place, POINTER), was)) if hasattr(e, 'cases') else [(s, b) for b in (True, False) for s in e.assume(st, e.cmp('==', e.read(st, place, POINTER), was), b)]:
            e.write(s, *((place, new) if c else (old, e.read(s, place, POINTER))), n.get('l'), log=False)
            out.append((s, TRUE if c else FALSE))
        return out
    s = st.copy()
    s.ev('kept', was)
    e.write(s, place, new, n.get('l'), log=False)
    out = [(s, TRUE)]
    if sum(x[0] == 'missed' for x in st.eff) < 2:
        for s, v in any_error(e, st):
            s.ev('missed')
            e.write(s, old, v, n.get('l'), log=False)
            out.append((s, FALSE))
    return out


def error_kept(e, st, fr, n, base, vs):
    return [(st, I(sum(x[0] == 'kept' for x in st.eff)))]


def replaced_nothing(e, st, fr, n, base, vs):
    v = [x for x in st.eff if x[0] == 'kept'][-1][1]
    if v == NULL:
        return [(st, I(1))]
    code = e.read(st, ('fl', v[1], 'error_code_'), 'jogasaki::error_code') if v[0] == 'ptr' else None
    return code and [(s, I(int(b))) for b in (True, False) for s in e.assume(st, e.cmp('==', code, ZERO), b)]


def release(e, st, fr, n, base, vs):
    s = st.copy()
    s.ev('release')
    return [(s, ('app', 'void'))]


def released(e, st, fr, n, base, vs):
    return [(st, I(sum(x[0] == 'release' for x in st.eff)))]


def logged(e, st, fr, n, base, vs):
    """the names of errors only go to the log."""
    return [(st, ('str', (('lit', b'error'),)))]


HOOKS = c52.with_threads(any_state, {'probe::kind_before': c52.last(1), 'probe::kind_after': c52.last(2), 'probe::others_act_too': used, 'std::atomic_load': load, 'std::atomic_compare_exchange_strong': swap,
    'probe::error_kept': error_kept, 'probe::replaced_nothing': replaced_nothing, 'limestone::api::blob_pool::release': release, 'probe::released': released,
    'jogasaki::to_string_view': logged, 'std::atomic::operator bool': c55.looks,
    **{k: v for k, v in c55.HOOKS.items() if not k.startswith('std::')}}, kind)
