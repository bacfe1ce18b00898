"""C52: the registry of storages and the locks on them."""
from contracts import *
from sai import db, models

FINISH = dict(floor=0.1, minimum=3, explanation='contracts over storages and locks in any state, with other threads acting between any two steps')
S = 'src/jogasaki/storage/'
SRC = [S + 'storage_manager.cpp', S + 'unique_lock.cpp', S + 'shared_lock.cpp', S + 'reference_scope.cpp',
       'src/jogasaki/auth/action_set.cpp', 'src/jogasaki/auth/authorized_users_action_set.cpp']


def run(c):
    d = db.load([probe('storages.cpp')] + SRC, stubs=True, allow_errors=True)
    c.units |= {'probes/storages.cpp', *SRC}
    for ns in ('control', 'registry', 'locks'):
        run_contracts(c, d, ns, engine_opts=dict(only_throws=True, hooks=HOOKS))


def nothing(e, st, fr, n, base, vs):
    return [(st, ZERO)]


# ---- other threads lock and release between any two steps
STATE = 'jogasaki::storage::impl::lock_state'


def others(st):
    return any(x[0] == 'others' for x in st.eff)


def any_state(e, st, n):
    """[(state, contents)]: a storage, or a number, as another thread may have left it."""
    out = []
    if 'lock_state' not in n['fn']['q']:
        e.n += 1
        s, v = st.copy(), e.opaque_value(('app', 'param', ('n', f'number{e.n}')), 'unsigned long')
        return [(s, v)] if s.facts.add_ge0(sub(v, I(1)), e.ranges) and s.facts.add_ge0(sub(I(1 << 40), v), e.ranges) else []
    for w in (0, 1):
        s = st.copy()
        e.n += 1
        r = e.opaque_value(('app', 'param', ('n', f'readers{e.n}')), 'unsigned long') if not w else ZERO
        if w or s.facts.add_ge0(sub(I(1 << 40), r), e.ranges):
            out.append((s, ('st', STATE, (('write_locked', I(w)), ('read_lock_count', r)))))
    return out


def changed(s, old, new):
    s.ev('change', old, new)


def count(e, st, fr, n, base, vs):
    return [(st, I(sum(x[0] == 'change' for x in st.eff)))]


def last(i):
    def f(e, st, fr, n, base, vs):
        x = [x for x in st.eff if x[0] == 'change']
        return [(st, x[-1][i])] if x else None
    return f


def first(i):
    def f(e, st, fr, n, base, vs):
        x = [x for x in st.eff if x[0] == 'change']
        return [(st, x[0][i])] if x else None
    return f


def begin(e, st, fr, n, base, vs):
    s = st.copy()
    s.ev('others')
    return [(s, ('app', 'void'))]


def with_threads(any_state, extra=None, kind=lambda n: STATE):
    """Models of atomics for a probe after others_act(): between any two steps the contents may become any_state."""
    def load(e, st, fr, n, base, vs):
        if not others(st):
            return None
        return any_state(e, st, n)

    def exchange_if(e, st, fr, n, base, vs):
        if not others(st):
            return None
        place = e.as_loc(vs[0])
        s = st.copy()
        changed(s, e.read(s, place, kind(n)), e.read(s, vs[1][1], kind(n)) if vs[1][0] == 'ptr' else vs[1])
        out = [(s, TRUE)]
        if sum(x[0] == 'missed' for x in st.eff) < 2:
            for s, v in any_state(e, st, n):
                s.ev('missed')
                e.write(s, place, v, n.get('l'), log=False)
                out.append((s, FALSE))
        return out

    def store(e, st, fr, n, base, vs):
        if not others(st):
            return None
        out = []
        for s, v in any_state(e, st, n):
            new = e.read(s, vs[0][1], kind(n)) if vs[0][0] == 'ptr' else vs[0]
            if not (n['fn']['q'].endswith('::exchange') and v == new):  # exchanged for the same: nothing changed
                changed(s, v, new)
            out.append((s, v))
        return out

    def step(sign):
        def f(e, st, fr, n, base, vs):
            if not others(st):
                return None
            out = []
            for s, v in any_state(e, st, n):
                changed(s, v, add(v, scale(vs[0], sign)))
                out.append((s, v))
            return out
        return f

    return {'jogasaki::utils::basename_start': nothing, 'probe::others_act': begin, 'probe::changes': count, 'probe::before': last(1), 'probe::after': last(2), 'probe::first_before': first(1), 'probe::first_after': first(2),
             'probe::number_before': last(1), 'probe::number_after': last(2),
             'std::__atomic_base::fetch_add': step(1), 'std::__atomic_base::fetch_sub': step(-1), 'std::__atomic_base::load': load, 'std::__atomic_base::store': store,
             'std::__atomic_base::operator=': store, 'std::__atomic_base::exchange': store, 'std::__atomic_base::compare_exchange_strong': exchange_if, 'std::__atomic_base::compare_exchange_weak': exchange_if,
             'std::atomic::fetch_add': step(1), 'std::atomic::fetch_sub': step(-1), 'std::atomic::load': load, 'std::atomic::operator=': store, 'std::atomic::store': store, 'std::atomic::exchange': store,
             'std::atomic::compare_exchange_strong': exchange_if, 'std::atomic::compare_exchange_weak': exchange_if, **(extra or {})}


HOOKS = with_threads(any_state)
